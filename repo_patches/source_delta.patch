From 72d0f6dafc598ec80b7f55579df83c6926043ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:36 +0000
Subject: [PATCH 01/23] fix: apply the importance ratio in the particle filters
 when the measurement model has sensor parameters

---
 orocos_bfl/src/filter/mixtureParticleFilter.cpp | 10 +++++-----
 orocos_bfl/src/filter/particlefilter.cpp        | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/orocos_bfl/src/filter/mixtureParticleFilter.cpp b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
index 54e675a..ca6bbf5 100644
--- a/orocos_bfl/src/filter/mixtureParticleFilter.cpp
+++ b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
@@ -308,8 +308,12 @@ MixtureParticleFilter<SV,MV>::UpdateWeightsInternalOne(int component,SystemModel
 	{
       _proposal->ConditionalArgumentSet(0,x_old);
 	  if (measmodel->SystemWithoutSensorParams() == true)
+	    weightfactor = measmodel->ProbabilityGet(z,x_new);
+	  else // System with sensor Parameters
+	    weightfactor = measmodel->ProbabilityGet(z,x_new,s);
+
+	    // importance ratio: transition density over proposal density
 	    {
-	      weightfactor = measmodel->ProbabilityGet(z,x_new);
 	      if (sysmodel->SystemWithoutInputs() == false)
 		{
 		  _proposal->ConditionalArgumentSet(1,u);
@@ -335,10 +339,6 @@ MixtureParticleFilter<SV,MV>::UpdateWeightsInternalOne(int component,SystemModel
 		  else weightfactor = 0;
 		}
 	    }
-	  else // System with sensor Parameters
-	    {
-	      weightfactor = measmodel->ProbabilityGet(z,x_new,s);
-	    }
 	}
       double new_weight = _ns_it->WeightGet() * weightfactor;
       _ns_it->WeightSet(new_weight);
diff --git a/orocos_bfl/src/filter/particlefilter.cpp b/orocos_bfl/src/filter/particlefilter.cpp
index 335b0bc..6697a2e 100644
--- a/orocos_bfl/src/filter/particlefilter.cpp
+++ b/orocos_bfl/src/filter/particlefilter.cpp
@@ -227,8 +227,12 @@ ParticleFilter<SV,MV>::UpdateWeightsInternal(SystemModel<SV> * const sysmodel,
 	{
       _proposal->ConditionalArgumentSet(0,x_old);
 	  if (measmodel->SystemWithoutSensorParams() == true)
+	    weightfactor = measmodel->ProbabilityGet(z,x_new);
+	  else // System with sensor Parameters
+	    weightfactor = measmodel->ProbabilityGet(z,x_new,s);
+
+	    // importance ratio: transition density over proposal density
 	    {
-	      weightfactor = measmodel->ProbabilityGet(z,x_new);
 	      if (sysmodel->SystemWithoutInputs() == false)
 		{
 		  _proposal->ConditionalArgumentSet(1,u);
@@ -254,10 +258,6 @@ ParticleFilter<SV,MV>::UpdateWeightsInternal(SystemModel<SV> * const sysmodel,
 		  else weightfactor = 0;
 		}
 	    }
-	  else // System with sensor Parameters
-	    {
-	      weightfactor = measmodel->ProbabilityGet(z,x_new,s);
-	    }
 	}
       _ns_it->WeightSet(_ns_it->WeightGet() * weightfactor);
 
-- 
2.43.0


From f2749131a0f60ac07dbeda9b92bea0dd9a84f908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:18 +0000
Subject: [PATCH 02/23] fix: inverse-transform samplers never select an index
 before the first or after the last entry

A uniform draw of exactly 0 (or, with rounding of the cumulative sum, one
just below 1) made the walk over the cumulative table stop at entry 0 (or run
past its end), giving index -1 / an out-of-range element.
---
 orocos_bfl/src/pdf/discreteconditionalpdf.cpp | 2 +-
 orocos_bfl/src/pdf/discretepdf.cpp            | 4 ++--
 orocos_bfl/src/pdf/mcpdf.h                    | 4 ++--
 orocos_bfl/src/pdf/mixture.h                  | 4 ++--
 4 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/orocos_bfl/src/pdf/discreteconditionalpdf.cpp b/orocos_bfl/src/pdf/discreteconditionalpdf.cpp
index 250710e..ff49eb3 100644
--- a/orocos_bfl/src/pdf/discreteconditionalpdf.cpp
+++ b/orocos_bfl/src/pdf/discreteconditionalpdf.cpp
@@ -165,7 +165,7 @@ namespace BFL
     double unif_sample; unif_sample = runif();
     // Compare where we should be: THIS CAN BE MADE FASTER: TODO
     index = 0;
-    while ( unif_sample > _valuelist[index] )
+    while ( index < NumStatesGet() && unif_sample >= _valuelist[index] )
       {
 	assert(index <= NumStatesGet());
 	index++;
diff --git a/orocos_bfl/src/pdf/discretepdf.cpp b/orocos_bfl/src/pdf/discretepdf.cpp
index d47ebf3..7c3dd73 100644
--- a/orocos_bfl/src/pdf/discretepdf.cpp
+++ b/orocos_bfl/src/pdf/discretepdf.cpp
@@ -158,7 +158,7 @@ namespace BFL
 
 	    for ( unsigned int i = 0; i < num_samples ; i++)
 	      {
-	        while ( unif_samples[i] > *CumPDFit )
+	        while ( index < num_states && unif_samples[i] >= *CumPDFit )
 	        {
 	  	// check for internal error
 	  	assert(index <= num_states);
@@ -188,7 +188,7 @@ namespace BFL
 	  double unif_sample; unif_sample = runif();
 	  // Compare where we should be
 	  unsigned int index = 0;
-	  while ( unif_sample > _CumPDF[index] )
+	  while ( index < NumStatesGet() && unif_sample >= _CumPDF[index] )
 	    {
 	      assert(index <= NumStatesGet());
 	      index++;
diff --git a/orocos_bfl/src/pdf/mcpdf.h b/orocos_bfl/src/pdf/mcpdf.h
index e2390ff..8ba8d36 100644
--- a/orocos_bfl/src/pdf/mcpdf.h
+++ b/orocos_bfl/src/pdf/mcpdf.h
@@ -271,7 +271,7 @@ namespace BFL
 
 	    for ( unsigned int i = 0; i < numsamples ; i++)
 	      {
-		while ( unif_samples[i] > *CumPDFit )
+		while ( index < size && unif_samples[i] >= *CumPDFit )
 		  {
 		    assert(index <= size);
 		    index++; it++; CumPDFit++;
@@ -308,7 +308,7 @@ namespace BFL
 	    typename vector<double>::const_iterator CumPDFit;
 	    CumPDFit = _CumPDF.begin();
 
-	    while ( unif_sample > *CumPDFit )
+	    while ( index < size && unif_sample >= *CumPDFit )
 	      {
 		// check for internal error
 		assert(index <= size);
diff --git a/orocos_bfl/src/pdf/mixture.h b/orocos_bfl/src/pdf/mixture.h
index d43118f..1428033 100644
--- a/orocos_bfl/src/pdf/mixture.h
+++ b/orocos_bfl/src/pdf/mixture.h
@@ -317,7 +317,7 @@ template<typename T>
 
 	    for ( unsigned int i = 0; i < num_samples ; i++)
 	      {
-	        while ( unif_samples[i] > *CumPDFit )
+	        while ( index < num_states && unif_samples[i] >= *CumPDFit )
 	        {
 	  	// check for internal error
 	  	assert(index <= num_states);
@@ -347,7 +347,7 @@ template<typename T>
 	  double unif_sample; unif_sample = runif();
 	  // Compare where we should be
 	  unsigned int index = 0;
-	  while ( unif_sample > _cumWeights[index] )
+	  while ( index < NumComponentsGet() && unif_sample >= _cumWeights[index] )
 	    {
 	      assert(index <= NumComponentsGet());
 	      index++;
-- 
2.43.0


From c12fbdfc90f2548bc15b4dd572482ebd70e71fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:43 +0000
Subject: [PATCH 03/23] fix: ordered (Ripley) sampling of zero samples no
 longer writes before the buffer

---
 orocos_bfl/src/pdf/discretepdf.cpp | 1 +
 orocos_bfl/src/pdf/mcpdf.h         | 1 +
 orocos_bfl/src/pdf/mixture.h       | 1 +
 3 files changed, 3 insertions(+)

diff --git a/orocos_bfl/src/pdf/discretepdf.cpp b/orocos_bfl/src/pdf/discretepdf.cpp
index 7c3dd73..050438f 100644
--- a/orocos_bfl/src/pdf/discretepdf.cpp
+++ b/orocos_bfl/src/pdf/discretepdf.cpp
@@ -138,6 +138,7 @@ namespace BFL
       case SampleMthd::RIPLEY: // See mcpdf.cpp for more explanation
 	  {
 	    list_samples.resize(num_samples);
+	    if (num_samples == 0) return true; // nothing to draw
 	    // GENERATE N ORDERED IID UNIFORM SAMPLES
 	    std::vector<double> unif_samples(num_samples);
 	    for ( unsigned int i = 0; i < num_samples ; i++)
diff --git a/orocos_bfl/src/pdf/mcpdf.h b/orocos_bfl/src/pdf/mcpdf.h
index 8ba8d36..40d1ae4 100644
--- a/orocos_bfl/src/pdf/mcpdf.h
+++ b/orocos_bfl/src/pdf/mcpdf.h
@@ -249,6 +249,7 @@ namespace BFL
 	  */
 	  // GENERATE N ORDERED IID UNIFORM SAMPLES
 	  {
+	    if (numsamples == 0) return true; // nothing to draw
 	    std::vector<double> unif_samples(numsamples);
 	    for ( unsigned int i = 0; i < numsamples ; i++)
 	      unif_samples[i] = runif();
diff --git a/orocos_bfl/src/pdf/mixture.h b/orocos_bfl/src/pdf/mixture.h
index 1428033..fb4bce4 100644
--- a/orocos_bfl/src/pdf/mixture.h
+++ b/orocos_bfl/src/pdf/mixture.h
@@ -297,6 +297,7 @@ template<typename T>
       case SampleMthd::RIPLEY: // See mcpdf.cpp for more explanation
 	  {
 	    list_samples.resize(num_samples);
+	    if (num_samples == 0) return true; // nothing to draw
 	    // GENERATE N ORDERED IID UNIFORM SAMPLES
 	    std::vector<double> unif_samples(num_samples);
 	    for ( unsigned int i = 0; i < num_samples ; i++)
-- 
2.43.0


From 58eac461d4c1b7681ebdea89dfe4f6ae78acec69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:54 +0000
Subject: [PATCH 04/23] fix: mixture sampling with the ordered method draws
 from its components and reports component failures

---
 orocos_bfl/src/pdf/mixture.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/orocos_bfl/src/pdf/mixture.h b/orocos_bfl/src/pdf/mixture.h
index fb4bce4..abeff39 100644
--- a/orocos_bfl/src/pdf/mixture.h
+++ b/orocos_bfl/src/pdf/mixture.h
@@ -315,6 +315,7 @@ template<typename T>
 	    unsigned int num_states = NumComponentsGet();
 	    vector<double>::const_iterator CumPDFit = _cumWeights.begin();
 	    typename vector<Sample<T> >::iterator sit = list_samples.begin();
+	    bool result = true;
 
 	    for ( unsigned int i = 0; i < num_samples ; i++)
 	      {
@@ -326,10 +327,12 @@ template<typename T>
 	        }
           // index-1 is a sample of the discrete pdf of the mixture weights
           // get a sample from the index-1'th mixture component
-	      (*_componentPdfs)[index-1]->SampleFrom(*sit,method,args);
+	      // (RIPLEY only orders the choice of component, it is no method for a single draw)
+	      if (!(*_componentPdfs)[index-1]->SampleFrom(*sit,SampleMthd::DEFAULT,args))
+	        result = false;
 	      sit++;
 	      }
-	    return true;
+	    return result;
 	  }
       default:
 	    cerr << "Mixture::Samplefrom(T, void *): No such sampling method" << endl;
@@ -355,8 +358,7 @@ template<typename T>
 	    }
          // index-1 is a sample of the discrete pdf of the mixture weights
       // get a sample from the index-1'th mixture component
-	  (*_componentPdfs)[index-1]->SampleFrom(one_sample,method,args);
-	  return true;
+	  return (*_componentPdfs)[index-1]->SampleFrom(one_sample,method,args);
 	}
       default:
 	cerr << "Mixture::Samplefrom(T, void *): No such sampling method"
-- 
2.43.0


From edb98b032f33f9b613a3b0ca2f2439e7b6969aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:14:39 +0000
Subject: [PATCH 05/23] fix: mixture particle filter advanced the time step
 once per component

---
 orocos_bfl/src/filter/mixtureParticleFilter.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/orocos_bfl/src/filter/mixtureParticleFilter.cpp b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
index ca6bbf5..8121330 100644
--- a/orocos_bfl/src/filter/mixtureParticleFilter.cpp
+++ b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
@@ -185,6 +185,7 @@ MixtureParticleFilter<SV,MV>::ProposalStepInternal(SystemModel<SV> * const sysmo
     {
         result = result && this->ProposalStepInternalOne(i,sysmodel,u,measmodel,z,s);
     }
+    (this->_timestep)++;
     return result;
 }
 
@@ -237,8 +238,6 @@ MixtureParticleFilter<SV,MV>::ProposalStepInternalOne(int component, SystemModel
       _ns_it++;
     }
 
-  (this->_timestep)++;
-
   // Update the list of samples
   return (dynamic_cast<MCPdf<SV> *>(dynamic_cast<Mixture<SV> *>(this->_post)->ComponentGet(component)))->ListOfSamplesUpdate(_new_samplesVec[component]);
 
-- 
2.43.0


From ce6b5fc0b199c4c1e9b471d51a20b19f0e769255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:36 +0000
Subject: [PATCH 06/23] fix: EK particle filter kept the old weights when
 resampling and could step before the first particle

---
 orocos_bfl/src/filter/EKparticlefilter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/orocos_bfl/src/filter/EKparticlefilter.cpp b/orocos_bfl/src/filter/EKparticlefilter.cpp
index 2b017ec..4f4de9d 100644
--- a/orocos_bfl/src/filter/EKparticlefilter.cpp
+++ b/orocos_bfl/src/filter/EKparticlefilter.cpp
@@ -94,7 +94,7 @@ namespace BFL
 
     for ( int i = 0; i < numsamples ; i++)
       {
-	while ( _unif_samples[i] > *_CumPDFit )
+	while ( index < (unsigned int)numsamples && _unif_samples[i] >= *_CumPDFit )
 	  {
 	    assert(index <= (unsigned int)numsamples);
 	    index++; _oit++; _CumPDFit++; _cov_it++;
@@ -102,6 +102,7 @@ namespace BFL
 	  }
 	_oit--; _cov_it--;
 	*(_rit) = *(_oit);
+	_rit->WeightSet(1.0/numsamples);
     *_tmpCovit = *_cov_it;
 	_oit++; _cov_it++;
 
-- 
2.43.0


From 94b202625bba229ba86d176e76189330f3636113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:59 +0000
Subject: [PATCH 07/23] fix: assigning a discrete pdf shared its probabilities
 and freed them twice

---
 orocos_bfl/src/pdf/discretepdf.cpp | 12 ++++++++++++
 orocos_bfl/src/pdf/discretepdf.h   |  3 +++
 2 files changed, 15 insertions(+)

diff --git a/orocos_bfl/src/pdf/discretepdf.cpp b/orocos_bfl/src/pdf/discretepdf.cpp
index 050438f..f96dedc 100644
--- a/orocos_bfl/src/pdf/discretepdf.cpp
+++ b/orocos_bfl/src/pdf/discretepdf.cpp
@@ -56,6 +56,18 @@ namespace BFL
 #endif // __CONSTRUCTOR__
   }
 
+  DiscretePdf& DiscretePdf::operator=(const DiscretePdf & my_dpdf)
+  {
+    if (this != &my_dpdf)
+      {
+	Pdf<int>::operator=(my_dpdf);
+	_num_states = my_dpdf._num_states;
+	(*_Values_p) = (*my_dpdf._Values_p);
+	_CumPDF = my_dpdf._CumPDF;
+      }
+    return *this;
+  }
+
   DiscretePdf::~DiscretePdf()
   {
 #ifdef __CONSTRUCTOR__
diff --git a/orocos_bfl/src/pdf/discretepdf.h b/orocos_bfl/src/pdf/discretepdf.h
index 92d55c9..050603e 100644
--- a/orocos_bfl/src/pdf/discretepdf.h
+++ b/orocos_bfl/src/pdf/discretepdf.h
@@ -58,6 +58,9 @@ namespace BFL
       /// Copy Constructor
       DiscretePdf(const DiscretePdf &);
 
+      /// Assignment: takes a copy of the probabilities
+      DiscretePdf& operator=(const DiscretePdf &);
+
       /// Destructor
       virtual ~DiscretePdf();
 
-- 
2.43.0


From 0a974bf98036d8dbee896cfd9ac2935dc5768191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:24 +0000
Subject: [PATCH 08/23] fix: assigning a mixture shared its components and
 freed them twice

---
 orocos_bfl/src/pdf/mixture.h | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/orocos_bfl/src/pdf/mixture.h b/orocos_bfl/src/pdf/mixture.h
index abeff39..ea5c601 100644
--- a/orocos_bfl/src/pdf/mixture.h
+++ b/orocos_bfl/src/pdf/mixture.h
@@ -87,6 +87,9 @@ namespace BFL
 
       Mixture(const Mixture & my_mixture);
 
+      /// Assignment: takes a copy of the weights and clones of the components
+      Mixture& operator=(const Mixture & my_mixture);
+
       /// Destructor
       virtual ~Mixture();
 
@@ -243,6 +246,28 @@ Mixture<T>::Mixture(const Mixture & my_mixture):Pdf<T>(my_mixture.DimensionGet()
 #endif // __CONSTRUCTOR__
   }
 
+template<typename T>
+  Mixture<T>& Mixture<T>::operator=(const Mixture & my_mixture)
+  {
+    if (this != &my_mixture)
+      {
+	Pdf<T>::operator=(my_mixture);
+	for (int i=0; i<NumComponentsGet();i++)
+	  {
+	    delete (*_componentPdfs)[i];
+	  }
+	_numComponents = my_mixture._numComponents;
+	(*_componentWeights) = (*my_mixture._componentWeights);
+	_cumWeights = my_mixture._cumWeights;
+	_componentPdfs->resize(NumComponentsGet());
+	for (int i=0; i<NumComponentsGet();i++)
+	  {
+	    (*_componentPdfs)[i] = (*my_mixture._componentPdfs)[i]->Clone();
+	  }
+      }
+    return *this;
+  }
+
 template<typename T>
   Mixture<T>::~Mixture()
   {
-- 
2.43.0


From 5d37bec3d25b2007c12e93ba83e7e21b4d3d5d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:36 +0000
Subject: [PATCH 09/23] fix: discrete conditional pdf leaked its table and
 shared it on assignment

---
 orocos_bfl/src/pdf/discreteconditionalpdf.cpp | 30 +++++++++++++++++--
 orocos_bfl/src/pdf/discreteconditionalpdf.h   |  2 ++
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/pdf/discreteconditionalpdf.cpp b/orocos_bfl/src/pdf/discreteconditionalpdf.cpp
index ff49eb3..b342f87 100644
--- a/orocos_bfl/src/pdf/discreteconditionalpdf.cpp
+++ b/orocos_bfl/src/pdf/discreteconditionalpdf.cpp
@@ -53,8 +53,8 @@ namespace BFL
 #ifdef __DCPDFDEBUG__
     cout << "DCPdf Destructor:" << endl;
 #endif // __DCPDFDEBUG__
-    //delete _probability_p;
-    //delete _cond_arg_dims_p;
+    delete [] _probability_p;
+    delete [] _cond_arg_dims_p;
   }
 
 
@@ -80,6 +80,32 @@ namespace BFL
       }
   }
 
+  DiscreteConditionalPdf&
+  DiscreteConditionalPdf::operator=(const DiscreteConditionalPdf & pdf)
+  {
+    if (this != &pdf)
+      {
+	ConditionalPdf<int,int>::operator=(pdf);
+	delete [] _probability_p;
+	delete [] _cond_arg_dims_p;
+	_num_states = pdf._num_states;
+	_total_dimension = pdf._total_dimension;
+	_probs = pdf._probs;
+	_valuelist = pdf._valuelist;
+	_cond_arg_dims_p = new int[NumConditionalArgumentsGet()];
+	for (unsigned int arg = 0 ; arg < NumConditionalArgumentsGet(); arg++)
+	  {
+	    _cond_arg_dims_p[arg] = pdf._cond_arg_dims_p[arg];
+	  }
+	_probability_p = new double[_total_dimension];
+	for (int prob = 0 ; prob < _total_dimension ; prob++)
+	  {
+	    _probability_p[prob] = pdf._probability_p[prob];
+	  }
+      }
+    return *this;
+  }
+
   //Clone function
   DiscreteConditionalPdf* DiscreteConditionalPdf::Clone() const
   {
diff --git a/orocos_bfl/src/pdf/discreteconditionalpdf.h b/orocos_bfl/src/pdf/discreteconditionalpdf.h
index 3f743d0..a4385bf 100644
--- a/orocos_bfl/src/pdf/discreteconditionalpdf.h
+++ b/orocos_bfl/src/pdf/discreteconditionalpdf.h
@@ -92,6 +92,8 @@ namespace BFL
 			     int cond_arg_dimensions[] = NULL);
       /// Copy constructor
       DiscreteConditionalPdf(const DiscreteConditionalPdf & pdf);
+      /// Assignment: takes a copy of the probability table
+      DiscreteConditionalPdf& operator=(const DiscreteConditionalPdf & pdf);
       /// Destructor
       virtual ~DiscreteConditionalPdf();
 
-- 
2.43.0


From 1dfbde1047e0061bf153e820debc92a5906d8fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:00 +0000
Subject: [PATCH 10/23] fix: particle smoother mixed up particle indices and
 used an uninitialised total weight

---
 orocos_bfl/src/smoother/particlesmoother.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/orocos_bfl/src/smoother/particlesmoother.cpp b/orocos_bfl/src/smoother/particlesmoother.cpp
index 43d9b43..836e64b 100644
--- a/orocos_bfl/src/smoother/particlesmoother.cpp
+++ b/orocos_bfl/src/smoother/particlesmoother.cpp
@@ -79,10 +79,10 @@ ParticleSmoother<SV>::SysUpdate(SystemModel<StateVar>* const sysmodel, const Sta
                 prob(i,j) = sysmodel->ProbabilityGet(x_smo,x_fil);
               }
               gamma_loc = gamma_loc + _fs_it->WeightGet() * prob(i,j);
-              // calculate correction factors
-              gamma[j-1] = gamma_loc;
               j++;
              }
+      // correction factor of this smoothed particle
+      gamma[i-1] = gamma_loc;
       i++;
       }
       //cout << "probabilities " << prob << endl;
@@ -90,7 +90,7 @@ ParticleSmoother<SV>::SysUpdate(SystemModel<StateVar>* const sysmodel, const Sta
       _new_samples = _filtered_samples;
       // new weights for filtered samples
       i = 1 ;
-      double tot_weight; // sum of weights needed to normalize
+      double tot_weight = 0.0; // sum of weights needed to normalize
       vector<double> weight (_new_samples.size()); // vector of weights of particles
       for ( _ns_it=_new_samples.begin(); _ns_it != _new_samples.end() ; _ns_it++)
         {
@@ -99,7 +99,7 @@ ParticleSmoother<SV>::SysUpdate(SystemModel<StateVar>* const sysmodel, const Sta
           for (_os_it = _old_samples.begin(); _os_it !=_old_samples.end() ; _os_it++)
           {
               if (gamma[j-1]!=0){
-                  delta = delta + _os_it->WeightGet() * prob(i,j) / gamma[j-1];
+                  delta = delta + _os_it->WeightGet() * prob(j,i) / gamma[j-1];
               }
               else{}
               j++;
-- 
2.43.0


From a55d6561a1ecc58a36411dafddf82eec9746cc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:29 +0000
Subject: [PATCH 11/23] fix: Rauch-Tung-Striebel smoother linearised the system
 model at the smoothed state of the wrong time step

---
 orocos_bfl/src/smoother/rauchtungstriebel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/smoother/rauchtungstriebel.cpp b/orocos_bfl/src/smoother/rauchtungstriebel.cpp
index 2142169..067984a 100644
--- a/orocos_bfl/src/smoother/rauchtungstriebel.cpp
+++ b/orocos_bfl/src/smoother/rauchtungstriebel.cpp
@@ -52,8 +52,8 @@ namespace BFL
   {
     _x = _post->ExpectedValueGet();
     _xf = filtered_post->ExpectedValueGet();
-    _F = ((AnalyticSys*)sysmodel)->df_dxGet(u,_x);
-    _Q = ((AnalyticSys*)sysmodel)->CovarianceGet(u,_x);
+    _F = ((AnalyticSys*)sysmodel)->df_dxGet(u,_xf);
+    _Q = ((AnalyticSys*)sysmodel)->CovarianceGet(u,_xf);
 
     _Ppred = _F * (Matrix)filtered_post->CovarianceGet() * _F.transpose() + (Matrix)_Q;
     _Pxx = (Matrix)filtered_post->CovarianceGet() * _F.transpose();
-- 
2.43.0


From 499b39e1348a1234e8c67b5f1feb878d8f4e585e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:55 +0000
Subject: [PATCH 12/23] fix: Kalman-type and histogram filters never advanced
 their time step

---
 orocos_bfl/src/filter/histogramfilter.cpp | 6 +++++-
 orocos_bfl/src/filter/kalmanfilter.cpp    | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/orocos_bfl/src/filter/histogramfilter.cpp b/orocos_bfl/src/filter/histogramfilter.cpp
index c3f47ce..30ea994 100644
--- a/orocos_bfl/src/filter/histogramfilter.cpp
+++ b/orocos_bfl/src/filter/histogramfilter.cpp
@@ -89,7 +89,11 @@
 			       MeasurementModel<MeasVar,int>* const measmodel,
 			       const MeasVar& z, const int& s)
   {
-    if (sysmodel != NULL) 	SysUpdate(sysmodel,u);
+    if (sysmodel != NULL)
+      {
+	SysUpdate(sysmodel,u);
+	this->_timestep++;
+      }
     if (measmodel != NULL)	MeasUpdate(measmodel,z,s);
     return true;
   }
diff --git a/orocos_bfl/src/filter/kalmanfilter.cpp b/orocos_bfl/src/filter/kalmanfilter.cpp
index 04b11ed..d373797 100644
--- a/orocos_bfl/src/filter/kalmanfilter.cpp
+++ b/orocos_bfl/src/filter/kalmanfilter.cpp
@@ -154,6 +154,7 @@ namespace BFL
     if (sysmodel != NULL)
       {
 	SysUpdate(sysmodel,u);
+	_timestep++;
       }
     if (measmodel != NULL)
       {
-- 
2.43.0


From 7c9b4bd955c6e794671649e55a423fc678d2da80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:59 +0000
Subject: [PATCH 13/23] fix: square-root IEKF used transposed square roots
 (cholesky_semidefinite returns the lower factor)

---
 orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp | 3 ---
 orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h   | 6 +++---
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp
index ade6dcd..b64a84b 100644
--- a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp
+++ b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp
@@ -50,7 +50,6 @@ SRIteratedExtendedKalmanFilter::SRIteratedExtendedKalmanFilter(Gaussian* prior,
    // cout<<"post_covar\n"<<_post->CovarianceGet()<<endl;
 
     ((_post->CovarianceGet()).cholesky_semidefinite(JP));
-    JP = JP.transpose();
     // cout<<"JP3\n"<<JP<<endl;
 
   }
@@ -108,7 +107,6 @@ SRIteratedExtendedKalmanFilter::SRIteratedExtendedKalmanFilter(Gaussian* prior,
          else
          {
                      R_i.cholesky_semidefinite(R_vf);
-                     R_vf = R_vf.transpose();
          }
 
 	// numerical limitations
@@ -195,7 +193,6 @@ void
 	S_temp1.convertToSymmetricMatrix(S_temp);
 
 	S_temp.cholesky_semidefinite(Sr);
-	Sr  = Sr.transpose();
 
 	invS = Sr.inverse();
 	K_i  = JP*(JP.transpose())*(H_i.transpose())*(invS.transpose())*invS;
diff --git a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h
index 0016778..5ab355a 100644
--- a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h
+++ b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h
@@ -83,7 +83,7 @@ namespace BFL
       /** Calculate Kalman filter Measurement Update
       \f[ x_k = x_{k-} + K.(z - Z) \f]
       \f[ S=(H_k*J_k*J_k^{'}*H_k+D*R*D^{'})^{'} \f]
-      \f[ Sr=cholesky(S)^{'}\f]
+      \f[ Sr=cholesky(S)\f]
       \f[ J_k = J_k-J_k*J_k^{'}*H^{'}*inv(S)^{'}*inv(R+Sr)*H_k*J_k  \f]
       with
       \f[ K = J_{k}*J_{k}^{'}*H'*inv(S)^{'}*inv(S) \f]
@@ -92,7 +92,7 @@ namespace BFL
 
       /// Calculate K_i , invS and  Sr
       /**
-       \f[ Sr= cholesky(H_i*JP*JP^{'}*H_i^{'}+R_i)^{'}  \f]
+       \f[ Sr= cholesky(H_i*JP*JP^{'}*H_i^{'}+R_i)  \f]
        \f[ invS=inv(Sr)\f]
        \f[ K_i=JP*JP^{'}*H_i^{'}*invS^{'}*invS \f]
        */
@@ -114,7 +114,7 @@ namespace BFL
     private:
       /// Variable indicating the number of iterations of the filter
       unsigned int nr_iterations;
-      /// the upper triangular matrix cholesky decompostion of the state covariance (\f$ JP*JP^{'}=P \f$)
+      /// the lower triangular cholesky decompostion of the state covariance (\f$ JP*JP^{'}=P \f$)
       MatrixWrapper::Matrix JP;
       /// inv(S) matrix
       //BFL::Matrix invS;
-- 
2.43.0


From ae701767547e849042310b8bbf223af9acd4fb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:29 +0000
Subject: [PATCH 14/23] fix: particle filter wrote past its working list after
 a reset to more particles

---
 orocos_bfl/src/filter/particlefilter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/orocos_bfl/src/filter/particlefilter.cpp b/orocos_bfl/src/filter/particlefilter.cpp
index 6697a2e..3a0976b 100644
--- a/orocos_bfl/src/filter/particlefilter.cpp
+++ b/orocos_bfl/src/filter/particlefilter.cpp
@@ -150,6 +150,8 @@ ParticleFilter<SV,MV>::ProposalStepInternal(SystemModel<SV> * const sysmodel,
 {
   // Get all samples from the current post through proposal density
   _old_samples = (dynamic_cast<MCPdf<SV> *>(this->_post))->ListOfSamplesGet();
+  // the number of samples changes when the filter is reset
+  _new_samples.resize(_old_samples.size());
 
   _ns_it = _new_samples.begin();
   for ( _os_it=_old_samples.begin(); _os_it != _old_samples.end() ; _os_it++)
-- 
2.43.0


From fde2b83cf28b33dd7bbbac69d468189f759297a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:29 +0000
Subject: [PATCH 15/23] fix: mixture particle filter overran its working lists
 after a reset to a larger mixture

---
 orocos_bfl/src/filter/mixtureParticleFilter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/orocos_bfl/src/filter/mixtureParticleFilter.cpp b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
index 8121330..1c6f785 100644
--- a/orocos_bfl/src/filter/mixtureParticleFilter.cpp
+++ b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
@@ -158,6 +158,9 @@ MixtureParticleFilter<SV,MV>::Reset(Mixture<SV> * prior)
     this->_post = prior->Clone();
     this->_newMixtureWeights.resize(dynamic_cast<Mixture<SV> *>(this->_post)->NumComponentsGet());
     this->_sumWeights.resize(dynamic_cast<Mixture<SV> *>(this->_post)->NumComponentsGet());
+    this->_old_samplesVec.resize(dynamic_cast<Mixture<SV> *>(this->_post)->NumComponentsGet());
+    this->_new_samplesVec.resize(dynamic_cast<Mixture<SV> *>(this->_post)->NumComponentsGet());
+    this->_new_samples_unweightedVec.resize(dynamic_cast<Mixture<SV> *>(this->_post)->NumComponentsGet());
 }
 
 template <typename SV, typename MV> void
@@ -200,6 +203,9 @@ MixtureParticleFilter<SV,MV>::ProposalStepInternalOne(int component, SystemModel
   // Get all samples from the current post through proposal density
   _old_samplesVec[component]= (dynamic_cast<MCPdf<SV> *>(dynamic_cast<Mixture<SV> *>(this->_post)->ComponentGet(component)))->ListOfSamplesGet();
 
+  // the number of samples changes when the filter is reset
+  _new_samplesVec[component].resize(_old_samplesVec[component].size());
+
   _ns_it = _new_samplesVec[component].begin();
   for ( _os_it=_old_samplesVec[component].begin(); _os_it != _old_samplesVec[component].end() ; _os_it++)
     {
-- 
2.43.0


From 397bb188242b58ad4c2f0a60d750ce281342a31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:29 +0000
Subject: [PATCH 16/23] fix: histogram filter wrote past its working list after
 a reset to more states

---
 orocos_bfl/src/filter/histogramfilter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/orocos_bfl/src/filter/histogramfilter.cpp b/orocos_bfl/src/filter/histogramfilter.cpp
index 30ea994..3c8d9cd 100644
--- a/orocos_bfl/src/filter/histogramfilter.cpp
+++ b/orocos_bfl/src/filter/histogramfilter.cpp
@@ -44,6 +44,8 @@
     bool without_inputs = sysmodel->SystemWithoutInputs();
     int num_states = ( (DiscretePdf*)this->_post )->NumStatesGet();
     _old_prob = ( (DiscretePdf*)this->_post )->ProbabilitiesGet();
+    // the number of states changes when the filter is reset
+    _new_prob.resize(num_states);
 
     for (int to_state = 0; to_state< num_states ; to_state++)
     {
-- 
2.43.0


From ff8ccf45c7a5409fa0ff19282afe0512191e1d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:35 +0000
Subject: [PATCH 17/23] fix: BOOST vectors: assign() left the first element
 unset and wrote past the end

---
 orocos_bfl/src/wrappers/matrix/vector_BOOST.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/wrappers/matrix/vector_BOOST.cpp b/orocos_bfl/src/wrappers/matrix/vector_BOOST.cpp
index 51d2f11..478ddf4 100644
--- a/orocos_bfl/src/wrappers/matrix/vector_BOOST.cpp
+++ b/orocos_bfl/src/wrappers/matrix/vector_BOOST.cpp
@@ -67,7 +67,7 @@ void MyColumnVector::assign(int num_rows, double value)
   BoostColumnVector & op1 = (*this);
   op1.resize(num_rows);
   for (unsigned int i=0; i<num_rows; i++)
-    op1(i+1) = value;
+    op1(i) = value;
 }
 
 // Number of Rows / Cols
@@ -275,7 +275,7 @@ void MyRowVector::assign(int num_columns, double value)
   BoostRowVector & op1 = (*this);
   op1.resize(num_columns);
   for (unsigned int i=0; i<num_columns; i++)
-    op1(i+1) = value;
+    op1(i) = value;
 }
 
 // Number of Rows / Cols
-- 
2.43.0


From a4d1d789d92101dd55211517271893d75395630e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:35 +0000
Subject: [PATCH 18/23] fix: EIGEN Matrix: rowCopy() and columnCopy() count
 from one like all other accessors

---
 orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
index 533ca6f..f68ab2b 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
+++ b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
@@ -182,12 +182,12 @@ MyMatrix&
 
 MyRowVector MyMatrix::rowCopy(unsigned int r) const
 {
-  return (MyRowVector) (*this).row(r);
+  return (MyRowVector) (*this).row(r-1);
 }
 
 MyColumnVector MyMatrix::columnCopy(unsigned int c) const
 {
-  return (MyColumnVector) (*this).col(c);
+  return (MyColumnVector) (*this).col(c-1);
 }
 
 
-- 
2.43.0


From 174be5016ffac7dbbbf504f4a1f42583f0de7952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:35 +0000
Subject: [PATCH 19/23] fix: EIGEN Matrix: convertToSymmetricMatrix() takes the
 lower triangle as documented

---
 orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
index f68ab2b..28d2851 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
+++ b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
@@ -224,7 +224,7 @@ MyMatrix::convertToSymmetricMatrix(MySymmetricMatrix& sym)
   assert(this->rows() == this->columns());
 
   const EigenMatrix & A = (EigenMatrix &) (*this);
-  sym = MySymmetricMatrix(A.selfadjointView<Eigen::Upper>());
+  sym = MySymmetricMatrix(EigenSymmetricMatrix(A.selfadjointView<Eigen::Lower>()));
   return 0;
 }
 
-- 
2.43.0


From ed26374c49d40c64a8695ecedc277be49d01afd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:35 +0000
Subject: [PATCH 20/23] fix: EIGEN RowVector: vectorAdd() used the number of
 rows, so the result had two elements

---
 orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp b/orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp
index 0380eef..e9bf425 100644
--- a/orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp
+++ b/orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp
@@ -244,10 +244,10 @@ MyRowVector
 MyRowVector::vectorAdd(const MyRowVector& v2) const
 {
   const MyRowVector& v1 = *this;
-  MyRowVector res(v1.rows() + v2.rows());
+  MyRowVector res(v1.columns() + v2.columns());
   EigenRowVector& opl = res;
-  opl.head(v1.rows()) = (const EigenRowVector &)(v1);
-  opl.tail(v2.rows()) = (const EigenRowVector &)(v2);
+  opl.head(v1.columns()) = (const EigenRowVector &)(v1);
+  opl.tail(v2.columns()) = (const EigenRowVector &)(v2);
   return res;
 }
 
-- 
2.43.0


From 9bff934a26c7288b13badafd7c03a15aee6c92aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:41 +0000
Subject: [PATCH 21/23] fix: Uniform(dimension) left the bounds and the density
 uninitialised

---
 orocos_bfl/src/pdf/uniform.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/orocos_bfl/src/pdf/uniform.cpp b/orocos_bfl/src/pdf/uniform.cpp
index 914cd7d..98a56ee 100644
--- a/orocos_bfl/src/pdf/uniform.cpp
+++ b/orocos_bfl/src/pdf/uniform.cpp
@@ -47,6 +47,9 @@ namespace BFL
   {
     _Lower.resize(dimension);
     _Higher.resize(dimension);
+    _Lower = 0.0;
+    _Higher = 0.0;
+    _Height = 0.0;
   }
 
   Uniform::~Uniform(){}
-- 
2.43.0


From d3ea185a69783b18965093cccab34e90edabcbf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:23 +0000
Subject: [PATCH 22/23] fix: models constructed without a density left their
 members uninitialised

---
 orocos_bfl/src/model/measurementmodel.cpp | 2 ++
 orocos_bfl/src/model/systemmodel.cpp      | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/orocos_bfl/src/model/measurementmodel.cpp b/orocos_bfl/src/model/measurementmodel.cpp
index ecda9a7..f9f7772 100644
--- a/orocos_bfl/src/model/measurementmodel.cpp
+++ b/orocos_bfl/src/model/measurementmodel.cpp
@@ -24,6 +24,8 @@ using namespace std;
 // Constructor
 template<typename MeasVar, typename StateVar>
 MeasurementModel<MeasVar,StateVar>::MeasurementModel(ConditionalPdf<MeasVar,StateVar>* measurementpdf)
+  : _MeasurementPdf(NULL)
+  , _systemWithoutSensorParams(true)
 {
 #ifdef __CONSTRUCTOR__
   cout << "MeasurementModel::Constructor" << endl;
diff --git a/orocos_bfl/src/model/systemmodel.cpp b/orocos_bfl/src/model/systemmodel.cpp
index 6d2d9e8..9488d0b 100644
--- a/orocos_bfl/src/model/systemmodel.cpp
+++ b/orocos_bfl/src/model/systemmodel.cpp
@@ -19,6 +19,8 @@
 
 // Constructor
 template<typename T> SystemModel<T>::SystemModel(ConditionalPdf<T,T>* systempdf)
+  : _SystemPdf(NULL)
+  , _systemWithoutInputs(true)
 {
 #ifdef __CONSTRUCTOR__
   cout << "SystemModel::Constructor" << endl;
-- 
2.43.0


From a92f245199e8fa95cdde10dc4c60c65dc7750c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:25 +0000
Subject: [PATCH 23/23] fix: particle filters left _proposal_depends_on_meas
 uninitialised

---
 orocos_bfl/src/filter/mixtureParticleFilter.cpp | 1 +
 orocos_bfl/src/filter/particlefilter.cpp        | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/orocos_bfl/src/filter/mixtureParticleFilter.cpp b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
index 1c6f785..4f8234d 100644
--- a/orocos_bfl/src/filter/mixtureParticleFilter.cpp
+++ b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
@@ -36,6 +36,7 @@ MixtureParticleFilter<SV,MV>::MixtureParticleFilter(Mixture<SV> * prior,
   , _proposal(proposal)
   , _sample(WeightedSample<SV>(prior->DimensionGet()))
   , _resampleScheme(resamplescheme)
+  , _proposal_depends_on_meas(false)
   , _created_post(true)
   , _newMixtureWeights(prior->NumComponentsGet())
   , _sumWeights(prior->NumComponentsGet())
diff --git a/orocos_bfl/src/filter/particlefilter.cpp b/orocos_bfl/src/filter/particlefilter.cpp
index 3a0976b..d64b0f8 100644
--- a/orocos_bfl/src/filter/particlefilter.cpp
+++ b/orocos_bfl/src/filter/particlefilter.cpp
@@ -35,6 +35,7 @@ ParticleFilter<SV,MV>::ParticleFilter(MCPdf<SV> * prior,
   , _proposal(proposal)
   , _sample(WeightedSample<SV>(prior->DimensionGet()))
   , _resampleScheme(resamplescheme)
+  , _proposal_depends_on_meas(false)
   , _created_post(true)
 {
   /* Initialize Post, at time = 0, post = prior
@@ -80,6 +81,7 @@ ParticleFilter<SV,MV>::ParticleFilter(MCPdf<SV> * prior,
   : Filter<SV,MV>(prior),
     _proposal(proposal),
     _resampleScheme(resamplescheme),
+    _proposal_depends_on_meas(false),
     _created_post(false)
 {
   this->_post = post;
-- 
2.43.0

