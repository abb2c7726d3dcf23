#include "filter.h"
#include "particlefilter.h"
#include "bootstrapfilter.h"
#include "mixtureParticleFilter.h"
#include "mixtureBootstrapFilter.h"
#include "histogramfilter.h"
#include "kalmanfilter.h"
#include "mixture.h"
#include "mcpdf.h"
#include "discretepdf.h"
#include "discreteconditionalpdf.h"
#include "uniform.h"
#include "gaussian.h"
#include "linearanalyticconditionalgaussian.h"
#include "backwardfilter.h"
#include "particlesmoother.h"
#include "rauchtungstriebel.h"
using namespace MatrixWrapper;
template class BFL::Sample<ColumnVector>;
template class BFL::Sample<int>;
template class BFL::Sample<unsigned int>;
template class BFL::WeightedSample<ColumnVector>;
template class BFL::WeightedSample<int>;
template class BFL::WeightedSample<unsigned int>;
template class BFL::Pdf<ColumnVector>;
template class BFL::Pdf<int>;
template class BFL::ConditionalPdf<ColumnVector,ColumnVector>;
template class BFL::ConditionalPdf<int,int>;
template class BFL::ConditionalPdf<ColumnVector,int>;
template class BFL::MCPdf<ColumnVector>;
template class BFL::MCPdf<unsigned int>;
template class BFL::Mixture<ColumnVector>;
template class BFL::Mixture<int>;
template class BFL::SystemModel<ColumnVector>;
template class BFL::SystemModel<int>;
template class BFL::MeasurementModel<ColumnVector,ColumnVector>;
template class BFL::MeasurementModel<ColumnVector,int>;
template class BFL::Filter<ColumnVector,ColumnVector>;
template class BFL::Filter<int,ColumnVector>;
template class BFL::ParticleFilter<ColumnVector,ColumnVector>;
template class BFL::BootstrapFilter<ColumnVector,ColumnVector>;
template class BFL::MixtureParticleFilter<ColumnVector,ColumnVector>;
template class BFL::MixtureBootstrapFilter<ColumnVector,ColumnVector>;
template class BFL::HistogramFilter<ColumnVector>;
template class BFL::BackwardFilter<ColumnVector>;
template class BFL::ParticleSmoother<ColumnVector>;

/* member templates that need a concrete use to be instantiated */
namespace bflsa_driver {
  inline BFL::Mixture<ColumnVector>* use_mixture_ctor(const std::vector<BFL::Pdf<ColumnVector>*>& v) { return new BFL::Mixture<ColumnVector>(v); }
  /* clients that copy and assign */
  inline void assign_DiscretePdf(BFL::DiscretePdf& a, const BFL::DiscretePdf& b) { a = b; }
  inline BFL::DiscretePdf* copy_DiscretePdf(const BFL::DiscretePdf& b) { return new BFL::DiscretePdf(b); }
  inline void assign_DiscreteConditionalPdf(BFL::DiscreteConditionalPdf& a, const BFL::DiscreteConditionalPdf& b) { a = b; }
  inline BFL::DiscreteConditionalPdf* copy_DiscreteConditionalPdf(const BFL::DiscreteConditionalPdf& b) { return new BFL::DiscreteConditionalPdf(b); }
  inline void assign_MixtureCV(BFL::Mixture<ColumnVector>& a, const BFL::Mixture<ColumnVector>& b) { a = b; }
  inline BFL::Mixture<ColumnVector>* copy_MixtureCV(const BFL::Mixture<ColumnVector>& b) { return new BFL::Mixture<ColumnVector>(b); }
  inline void assign_MCPdfCV(BFL::MCPdf<ColumnVector>& a, const BFL::MCPdf<ColumnVector>& b) { a = b; }
  inline BFL::MCPdf<ColumnVector>* copy_MCPdfCV(const BFL::MCPdf<ColumnVector>& b) { return new BFL::MCPdf<ColumnVector>(b); }
  inline void assign_MCPdfU(BFL::MCPdf<unsigned int>& a, const BFL::MCPdf<unsigned int>& b) { a = b; }
  inline BFL::MCPdf<unsigned int>* copy_MCPdfU(const BFL::MCPdf<unsigned int>& b) { return new BFL::MCPdf<unsigned int>(b); }
  inline void assign_Gaussian(BFL::Gaussian& a, const BFL::Gaussian& b) { a = b; }
  inline BFL::Gaussian* copy_Gaussian(const BFL::Gaussian& b) { return new BFL::Gaussian(b); }
  inline void assign_Uniform(BFL::Uniform& a, const BFL::Uniform& b) { a = b; }
  inline BFL::Uniform* copy_Uniform(const BFL::Uniform& b) { return new BFL::Uniform(b); }
  inline void assign_ConditionalGaussian(BFL::ConditionalGaussian& a, const BFL::ConditionalGaussian& b) { a = b; }
  inline BFL::ConditionalGaussian* copy_ConditionalGaussian(const BFL::ConditionalGaussian& b) { return new BFL::ConditionalGaussian(b); }
  inline void assign_LinearCG(BFL::LinearAnalyticConditionalGaussian& a, const BFL::LinearAnalyticConditionalGaussian& b) { a = b; }
  inline BFL::LinearAnalyticConditionalGaussian* copy_LinearCG(const BFL::LinearAnalyticConditionalGaussian& b) { return new BFL::LinearAnalyticConditionalGaussian(b); }
  inline void assign_SampleCV(BFL::Sample<ColumnVector>& a, const BFL::Sample<ColumnVector>& b) { a = b; }
  inline BFL::Sample<ColumnVector>* copy_SampleCV(const BFL::Sample<ColumnVector>& b) { return new BFL::Sample<ColumnVector>(b); }
  inline void assign_SampleI(BFL::Sample<int>& a, const BFL::Sample<int>& b) { a = b; }
  inline BFL::Sample<int>* copy_SampleI(const BFL::Sample<int>& b) { return new BFL::Sample<int>(b); }
  inline void assign_WSampleCV(BFL::WeightedSample<ColumnVector>& a, const BFL::WeightedSample<ColumnVector>& b) { a = b; }
  inline BFL::WeightedSample<ColumnVector>* copy_WSampleCV(const BFL::WeightedSample<ColumnVector>& b) { return new BFL::WeightedSample<ColumnVector>(b); }
  inline void assign_WSampleI(BFL::WeightedSample<int>& a, const BFL::WeightedSample<int>& b) { a = b; }
  inline BFL::WeightedSample<int>* copy_WSampleI(const BFL::WeightedSample<int>& b) { return new BFL::WeightedSample<int>(b); }
  inline void assign_unweighted(BFL::WeightedSample<ColumnVector>& a, const BFL::Sample<ColumnVector>& b) { a = b; }
  inline void self_DiscretePdf(BFL::DiscretePdf& a) { a = a; }
  inline void self_DiscreteConditionalPdf(BFL::DiscreteConditionalPdf& a) { a = a; }
  inline void self_MixtureCV(BFL::Mixture<ColumnVector>& a) { a = a; }
  inline void self_MCPdfCV(BFL::MCPdf<ColumnVector>& a) { a = a; }
  inline void self_MCPdfU(BFL::MCPdf<unsigned int>& a) { a = a; }
  inline void self_Gaussian(BFL::Gaussian& a) { a = a; }
  inline void self_Uniform(BFL::Uniform& a) { a = a; }
  inline void self_ConditionalGaussian(BFL::ConditionalGaussian& a) { a = a; }
  inline void self_LinearCG(BFL::LinearAnalyticConditionalGaussian& a) { a = a; }
  inline void self_SampleCV(BFL::Sample<ColumnVector>& a) { a = a; }
  inline void self_SampleI(BFL::Sample<int>& a) { a = a; }
  inline void self_WSampleCV(BFL::WeightedSample<ColumnVector>& a) { a = a; }
  inline void self_WSampleI(BFL::WeightedSample<int>& a) { a = a; }
}
