P('P01', 'A discrete distribution is normalised and its cumulative table matches it',
  'After construction, copying, setting all probabilities or setting one probability, the state probabilities of a discrete distribution are the requested ones normalised to sum one: setting all divides each value by the total and succeeds exactly when that total is positive; setting one state gives that state the value and lets the other states share the remainder in proportion (equally if the state had probability one). The cumulative table used for sampling always has one entry per state plus one, starts at zero, ends at one, and its entries are the running sums of the current probabilities. Reading a probability, all probabilities or the number of states returns exactly the stored ones.',
  ['inputs', 'histories'], 'any number of states, any probability vector, any state and value, any earlier history of sets and copies',
  'tests sample two or three states; the running-sum and normalisation relations must hold for every size and every vector',
  ['pdf/discretepdf.h', 'pdf/discretepdf.cpp'], [('ProbabilitiesSet / ProbabilitySet / NormalizeProbs / CumPDFUpdate', 'pdf/discretepdf.cpp')], ['probabilities, number of states and drawn samples'])
P('P02', 'A sample-based distribution stays normalised with its cumulative table in step',
  'Storing or updating the list of samples of a Monte Carlo distribution keeps every value unchanged and in order, divides weighted samples by the total weight (succeeding exactly when that total is positive) and gives unweighted samples equal weights. Afterwards the recorded sum of weights is one and the cumulative table has one entry more than there are samples, starts at zero and holds the running sums of the stored weights. Resizing, copying and reading back return exactly the stored list, table and counts.',
  ['inputs', 'histories'], 'any number of samples, any sample values and non-negative weights, any sample type used by the library',
  'tests use one or two fixed lists; the table must agree with the weights for every list and update path',
  ['pdf/mcpdf.h', 'sample/weightedsample.h', 'sample/sample.h'], [('ListOfSamplesSet / ListOfSamplesUpdate / NormalizeWeights / CumPDFUpdate', 'pdf/mcpdf.h')])
P('P03', 'A mixture keeps weights, components and cumulative table consistent',
  'After building, copying, setting all or one weight, adding or deleting a component, a mixture has one weight and one component per counted component and a cumulative table of one entry more, ending at one with running sums of the weights; weights are the requested ones normalised, with untouched components keeping their mutual proportions. Components are stored as clones, a new one goes last, a deleted one leaves the others in order. The mixture density is the weighted sum of the component densities, reading weights, components and counts returns the stored ones, and the most probable component is one with the greatest weight.',
  ['inputs', 'histories'], 'any number of components, any weights with positive sum, any component index',
  'tests exercise a handful of fixed mixtures; consistency must hold after every sequence of edits',
  ['pdf/mixture.h'], [('WeightsSet / WeightSet / AddComponent / DeleteComponent / NormalizeWeights / CumWeightsUpdate', 'pdf/mixture.h')])
P('P04', 'Gaussian and uniform densities always reflect the parameters last set',
  'A Gaussian reports the mean and covariance it was last given, and its density at a point is the multivariate normal density of exactly that mean, covariance and dimension, no matter how sets, density evaluations and sampling calls were interleaved before. A uniform distribution reports the centre and width it was last given; its density is the inverse volume of that box for points inside (bounds included) and zero outside.',
  ['inputs', 'histories'], 'any mean, covariance, centre, width and point; any order of set, evaluate and sample calls',
  'cached determinants and inverses go stale only after particular orders of calls that tests do not enumerate',
  ['pdf/gaussian.cpp', 'pdf/gaussian.h', 'pdf/uniform.cpp', 'pdf/uniform.h'], [('ProbabilityGet with cached inverse and factor', 'pdf/gaussian.cpp'), ('ProbabilityGet / UniformSet', 'pdf/uniform.cpp')])
P('P08', 'Kalman-type filters apply the predict and correct equations exactly',
  'For the extended Kalman filter a system update replaces the posterior by the model prediction at the old mean with covariance F P F\' + Q, and a measurement update replaces it by the mean corrected with gain P H\'(H P H\' + R)^-1 times the innovation and covariance (I - K H) P, all evaluated at the state before that step; the iterated filter re-linearises around the latest iterate but keeps prior mean and covariance fixed. When both models are given, prediction comes first and correction starts from its result. Measurements of different dimensions may follow one another in any order. The normalised innovation squared is the innovation weighted by the inverse innovation covariance and leaves the posterior untouched.',
  ['inputs', 'histories'], 'all model functions, Jacobians, covariances, inputs, measurements and posteriors; iterated filter for one and two iterations without an innovation check',
  'tests compare one recorded trajectory with loose tolerances; swapped, stale or transposed factors survive for particular models',
  ['filter/kalmanfilter.cpp', 'filter/extendedkalmanfilter.cpp', 'filter/iteratedextendedkalmanfilter.cpp', 'filter/SRiteratedextendedkalmanfilter.cpp'],
  [('CalculateSysUpdate / CalculateMeasUpdate / PostMuSet / PostSigmaSet', 'filter/kalmanfilter.cpp'), ('SysUpdate / MeasUpdate', 'filter/extendedkalmanfilter.cpp')],
  note=PROOF + '; the iterated filter is unrolled for 1 and 2 iterations; the square-root filter only for its prediction step')
P('P09', 'Every Update call runs exactly the given models, system before measurement',
  'Each form of the filter update passes on exactly the system model, input, measurement model, measurement and sensor parameters it was given, substitutes no model for one that was not given, performs one filter step and returns that step\'s result. Within a step of the Kalman-type and histogram filters the system update runs exactly when a system model is given, the measurement update exactly when a measurement model is given, the system update first, each with its own input or measurement and sensor parameters.',
  ['inputs', 'configurations'], 'all update forms, all filter and model combinations, absent models included',
  'there are nine overloads times filter types and null combinations; tests call a few',
  ['filter/filter.h', 'filter/filter.cpp', 'filter/kalmanfilter.cpp', 'filter/histogramfilter.cpp'], [('Filter::Update overloads', 'filter/filter.cpp'), ('UpdateInternal', 'filter/kalmanfilter.cpp')])
P('P12', 'Particle filters propagate and weight every particle by the right factors',
  'In a particle or bootstrap filter update each particle is moved by one draw from the proposal conditioned on that particle\'s own old value (and the input when the system has inputs), keeping its weight; a measurement multiplies each weight by the likelihood of the measurement given that particle (and the sensor parameters when the model has them), and, for the general particle filter updating with both models, by the transition density over the proposal density, or by zero where the proposal density is zero. The number and order of particles are kept, the time step advances exactly on a system update, and the step reports success only when the posterior list updates did.',
  ['inputs', 'histories'], 'any particle set, models, inputs, measurements, sensor parameters and proposal, with resampling not due',
  'a wrong weight factor only shows for particular proposals, sensor parameters or inputs and is masked by resampling noise in tests',
  ['filter/particlefilter.h', 'filter/particlefilter.cpp', 'filter/bootstrapfilter.cpp'], [('ProposalStepInternal / UpdateWeightsInternal / UpdateWeightsUsingMeas', 'filter/particlefilter.cpp')])
P('P22', 'Sample-based and mixture moments are the weighted moments of their parts',
  'The expected value of a Monte Carlo distribution is the weighted mean of its samples (rounded to the nearest integer for integer samples) and its covariance is the weighted second moment about that mean. The expected value of a mixture is the weighted sum of its components\' expected values.',
  ['inputs'], 'any non-empty weighted sample list or mixture', 'tests compare with tolerances wide enough to hide wrong weighting on other lists',
  ['pdf/mcpdf.h', 'pdf/mixture.h'], [('ExpectedValueGet / CovarianceGet', 'pdf/mcpdf.h'), ('ExpectedValueGet', 'pdf/mixture.h')])
P('P10', 'Models condition their distribution on exactly the given state and input',
  'A system or measurement model refers to the distribution it was last given and knows whether that distribution takes one or two conditional arguments. Asking a model for a prediction, Jacobian, covariance, likelihood or simulated value conditions its distribution on exactly the given state (argument 0) and, in the two-argument forms, the given input or sensor parameter (argument 1), never on leftovers of an earlier query; a density is that of the asked value, a simulation is one draw with the requested sampling method and arguments. The matrices A, B (system) and H, J (measurement) of a linear model are the matrices of arguments 0 and 1.',
  ['inputs', 'histories'], 'any model, distribution, state, input, sensor parameter, sampling method and earlier queries',
  'a swapped or stale conditional argument shows only for distributions and histories where the arguments differ',
  ['model/systemmodel.h', 'model/measurementmodel.h', 'model/analyticsystemmodel_gaussianuncertainty.cpp', 'model/analyticmeasurementmodel_gaussianuncertainty.cpp', 'model/linearanalyticsystemmodel_gaussianuncertainty.cpp', 'model/linearanalyticmeasurementmodel_gaussianuncertainty.cpp'],
  [('Simulate / ProbabilityGet', 'model/systemmodel.h'), ('PredictionGet / df_dxGet / CovarianceGet', 'model/analyticsystemmodel_gaussianuncertainty.cpp')])
P('P11', 'A linear conditional Gaussian maps its arguments linearly and adds its noise',
  'The conditional mean of a linear conditional Gaussian is the sum over all conditional arguments of the matching matrix times that argument, plus the mean of the additive noise; its covariance is that of the noise; its Jacobian with respect to argument i is matrix i; setting a matrix or noise parameter changes exactly that parameter; building it from one or several matrices gives one argument per matrix, a zero vector with one element per column of that matrix, with the noise mean, covariance and dimension of the given Gaussian. Its density at a point is the normal density with that mean and covariance. A model holding such a distribution predicts A x + B u + noise mean with Jacobian A and the noise covariance.',
  ['inputs', 'histories'], 'any number of arguments, any matrices, noise parameters, argument values and points',
  'tests use one or two arguments with particular matrices; the sums and index pairings must hold for all',
  ['pdf/linearanalyticconditionalgaussian.cpp', 'pdf/analyticconditionalgaussian_additivenoise.cpp', 'pdf/conditionalgaussian.cpp'],
  [('ExpectedValueGet / dfGet / MatrixSet', 'pdf/linearanalyticconditionalgaussian.cpp'), ('ProbabilityGet', 'pdf/conditionalgaussian.cpp')])
P('P15', 'Every sampler draws from the distribution it belongs to and reports failure',
  'For discrete, sample-based and mixture distributions a draw with uniform number u selects the entry i with cum[i] <= u < cum[i+1], never an index outside the entries, and returns that state, that sample value, or one default-method draw from that component. A list is filled with exactly the requested number of samples, from one independent uniform each, or, with the ordered (RIPLEY) method, from the increasing sequence u_n = r_n^(1/n), u_i = r_i^(1/i) u_(i+1). Gaussians and conditional Gaussians return (conditional) mean plus the Cholesky factor of their covariance times independent standard normals, and report whether the factorisation succeeded; uniforms draw every coordinate between its own bounds. The random number functions give one number: rnorm normal with the given mean and standard deviation, runif uniform on [0,1) or between the given bounds. Sampling methods a distribution does not offer are refused (false is returned), and a mixture reports failure when a component fails.',
  ['inputs', 'histories'], 'any distribution with at least one entry, any uniform and normal draws including the ends of the interval and ties, any number of samples, every sampling method',
  'off-by-one selections and ordering mistakes appear only for particular draws and are invisible in averages that tests look at',
  ['pdf/discretepdf.cpp', 'pdf/mcpdf.h', 'pdf/mixture.h', 'pdf/gaussian.cpp', 'pdf/conditionalgaussian.cpp', 'pdf/uniform.cpp', 'pdf/pdf.h'],
  [('SampleFrom', 'pdf/mcpdf.h'), ('SampleFrom', 'pdf/discretepdf.cpp'), ('SampleFrom', 'pdf/gaussian.cpp')])
P('P26', 'A discrete conditional table has one cell per state and argument combination',
  'The table of a discrete conditional distribution has one cell per combination of state and conditional argument values. Setting a probability writes exactly the cell of the given state and argument values, reading returns the cell of the given state and the current conditional arguments, distinct combinations use distinct cells (state fastest, then the arguments in order), a copy has its own storage with the same contents, and sampling inverts the normalised cells of the current arguments.',
  ['inputs', 'histories'], 'any number of states, arguments and argument dimensions, any argument values in range, any uniform draw',
  'an addressing mistake shows only with several arguments of different dimensions',
  ['pdf/discreteconditionalpdf.h', 'pdf/discreteconditionalpdf.cpp'], [('IndexGet / ProbabilityGet / ProbabilitySet / SampleFrom', 'pdf/discreteconditionalpdf.cpp')])
P('P14', 'The histogram filter applies the discrete Bayes rule exactly',
  'A histogram filter starts with its own copy of the prior. A system update gives every state the sum over all old states of the transition probability to it (given that old state, and the input when the system has inputs) times the old probability; a measurement update multiplies every state probability by the likelihood of the measurement given that state (and the sensor parameters when the model has them); each is followed by normalisation to sum one. With both models the correction starts from the predicted probabilities; with neither the posterior is unchanged. The number of states is kept and the step reports success.',
  ['inputs', 'histories'], 'any number of states, any prior, any transition and measurement probabilities with positive total, any input and sensor parameters',
  'the tests run one small map; the sum over all state pairs must be right for every size and every model',
  ['filter/histogramfilter.h', 'filter/histogramfilter.cpp'], [('SysUpdate / MeasUpdate / UpdateInternal', 'filter/histogramfilter.cpp')])
P('P13', 'Particle filters resample exactly when scheduled, keeping the particle count',
  'A particle or bootstrap filter built with a resampling period resamples exactly at the start of every system update whose time step is a non-zero multiple of that period, before the particles are propagated; one built with a threshold (and no period) resamples exactly after a measurement update when the effective sample size 1/sum(w^2) of the weighted particles is below the threshold. Resampling replaces the particles of the posterior by as many samples drawn from it (ordered multinomial) with equal weights, the following step continues from them, and a failed list update makes the step report failure. In no other step is anything resampled.',
  ['inputs', 'histories', 'configurations'], 'any period, threshold, time step, particle list and models',
  'the tests run one period or threshold for a few steps and look at the mean; the schedule must hold at every step',
  ['filter/particlefilter.cpp', 'filter/particlefilter.h', 'filter/bootstrapfilter.cpp'], [('StaticResampleStep / DynamicResampleStep / Resample', 'filter/particlefilter.cpp')])
P('P28', 'Mixture particle filters treat each component as a filter of its own',
  'In a mixture particle or mixture bootstrap filter update every component of the posterior mixture, and each only once, is propagated, weighted and resampled like a particle filter of its own: particles move by draws from the proposal given their own old value, weights are multiplied by the likelihood (and the transition over proposal ratio when a system model is given), resampling happens for all components at the periodic schedule, or per component when its effective sample size is below the threshold. The mixture weights become the old weight of each component times the total new weight of its particles, normalised. The time step advances by one per system update and failures of a step reach the caller.',
  ['inputs', 'histories', 'configurations'], 'any number of components and particles, any period, threshold, time step and models',
  'one test runs a fixed mixture and looks at the mean; component bookkeeping must be right for every number of components',
  ['filter/mixtureParticleFilter.cpp', 'filter/mixtureParticleFilter.h', 'filter/mixtureBootstrapFilter.cpp'], [('ProposalStepInternal / UpdateWeightsInternal / Resample and their per-component forms', 'filter/mixtureParticleFilter.cpp')])
P('P29', 'Each particle of the EK particle filter is moved with its own covariance',
  'In an extended Kalman particle filter step the models of the step are given to the proposal, every particle is moved by one draw from the proposal conditioned on its own old value, its own stored covariance, the input (if the system has inputs), the measurement and the sensor parameters (if the model has them), and its stored covariance becomes that of the same proposal; weights are kept by the move and the time step advances by one. The mean and covariance of the proposal are those of the posterior after one Kalman step from a Gaussian with mean argument 0 and the given covariance, with exactly the models that are set and with input, measurement and sensor parameters taken from the conditional arguments in order. Resampling draws as many particles as there were, particle i being the one with cum[j] <= u_i < cum[j+1] for increasing uniforms u_i, copies value and covariance of the same particle, and gives equal weights. A failed list update makes the step report failure.',
  ['inputs', 'histories', 'configurations'], 'any number of particles, any models with or without inputs and sensor parameters, any uniform draws',
  'value and covariance lists can drift apart silently; a test on the mean of the particles cannot see it',
  ['filter/EKparticlefilter.cpp', 'pdf/filterproposaldensity.cpp'], [('UpdateInternal / ProposalStepInternal / Resample', 'filter/EKparticlefilter.cpp'), ('FilterStep / ExpectedValueGet / CovarianceGet', 'pdf/filterproposaldensity.cpp')])
P('P05', 'Copies, clones and assignments equal their source and share nothing with it',
  'Copying, cloning or assigning a sample, weighted sample, Gaussian, uniform, discrete, sample-based (Monte Carlo), mixture, conditional, linear conditional Gaussian or discrete conditional distribution gives an object with the same dimension, parameters, weights, samples, cumulative table, table cells, conditional arguments and components as the source, leaves the source unchanged, and uses storage of its own: components of a mixture are cloned one by one, and no table is shared. A clone has the class of its source. Self-assignment changes nothing. Assigning an unweighted sample to a weighted one takes its value with weight one.',
  ['inputs', 'histories'], 'any object of these classes in any state, any number of states, samples, components and arguments',
  'sharing or a forgotten member shows only when one of the two objects is changed or destroyed later',
  ['sample/sample.h', 'sample/weightedsample.h', 'pdf/gaussian.cpp', 'pdf/uniform.cpp', 'pdf/discretepdf.cpp', 'pdf/mcpdf.h', 'pdf/mcpdf.cpp', 'pdf/mixture.h', 'pdf/conditionalpdf.h', 'pdf/linearanalyticconditionalgaussian.cpp', 'pdf/discreteconditionalpdf.cpp'],
  [('copy constructors, operator=, Clone', 'pdf/mixture.h'), ('copy constructor, operator=', 'pdf/discretepdf.cpp'), ('operator=', 'sample/weightedsample.h')])
P('P06', 'What an object allocates it releases exactly once, and nothing else',
  'For discrete, discrete conditional and mixture distributions, Kalman-type, particle, EK particle, mixture particle and histogram filters, smoothers and filter-based proposals: the destructor releases exactly the objects the constructor allocated (with the matching form of delete), each once, never an object the caller passed in; a particle filter given a posterior by the caller does not release it. A method that replaces an owned object releases the old one once and stores an object of its own; one that keeps it does not release it. A mixture releases a component exactly when it removes it from its list, and loses none.',
  ['inputs', 'histories', 'programs'], 'any constructor, any sequence of calls followed by destruction',
  'leaks and double releases do not change any result that tests compare',
  ['pdf/discretepdf.cpp', 'pdf/discreteconditionalpdf.cpp', 'pdf/mixture.h', 'filter/kalmanfilter.cpp', 'filter/particlefilter.cpp', 'filter/EKparticlefilter.cpp', 'filter/mixtureParticleFilter.cpp', 'filter/histogramfilter.cpp', 'smoother/rauchtungstriebel.cpp', 'smoother/particlesmoother.cpp', 'pdf/EKF_proposaldensity.cpp'],
  [('destructors and constructors', 'pdf/mixture.h'), ('~ParticleFilter', 'filter/particlefilter.cpp'), ('DeleteComponent', 'pdf/mixture.h')])
P('P24', 'Smoothers apply the backward equations to each filtered distribution',
  'One Update of the Rauch-Tung-Striebel smoother with a system model, an input (or none) and a filtered Gaussian (xf, Pf) replaces the posterior (xs, Ps) by mean xf + K (xs - f(xf,u)) and covariance Pf - K (Ppred - Ps) K\', where Ppred = F Pf F\' + Q, K = Pf F\' Ppred^-1, and the prediction f, Jacobian F and noise covariance Q are all taken at the filtered mean. One Update of the particle smoother replaces the posterior particles by the filtered particles (same number, same order, same values) with weights w_i * sum_j ws_j p(x_j|x_i) / sum_l w_l p(x_j|x_l), divided by their total, where j runs over the previously smoothed particles and p is the transition density of the system model, given the input exactly when the model has inputs (smoothed particles whose denominator is zero contribute nothing). The filtered distribution is not changed, the posterior object is kept, and the update reports success. Smoothers start with a posterior equal to the given prior.',
  ['inputs', 'histories', 'configurations'], 'any system model (linear or not, with or without inputs), any dimension, any numbers of smoothed and filtered particles',
  'the tests smooth one linear system, for which where the model is linearised makes no difference and which has equal particle numbers',
  ['smoother/backwardfilter.cpp', 'smoother/rauchtungstriebel.cpp', 'smoother/particlesmoother.cpp'], [('BackwardFilter::Update', 'smoother/backwardfilter.cpp'), ('RauchTungStriebel::SysUpdate', 'smoother/rauchtungstriebel.cpp'), ('ParticleSmoother::SysUpdate', 'smoother/particlesmoother.cpp')])
P('P16', 'The square-root iterated EKF is the iterated EKF with a covariance square root',
  'A square-root iterated EKF starts with mean and covariance of the prior and a square root J with J J\' equal to that covariance. Its prediction is the EKF prediction (P08), after which J J\' equals the new covariance. Given J J\' = P before a correction with an implicit measurement model (whose noise does not enter directly, Is_Identity() != 1), the correction linearises the model once per iteration at the current iterate x (starting from the predicted mean m), uses H, h and R of the model at that linearisation, and computes x = m + K (z - (h + H (m - x))) with K = P H\' (H P H\' + R)^-1; after the last iteration the covariance is P - K H P and J J\' equals it. A correction from a given z, Z, H and R is the EKF correction with innovation z - Z; setting the state replaces mean and covariance by the given ones; the square root set is the one read back. Here the Cholesky factor L of a matrix A is the lower factor with L L\' = A.',
  ['inputs', 'histories', 'configurations'], 'any system model, any implicit measurement model, any state and measurement dimension; 1 and 2 iterations (3 in the thorough tier)',
  'no test constructs this filter; for one-dimensional states and measurements a wrong square root goes unnoticed',
  ['filter/SRiteratedextendedkalmanfilter.cpp'], [('constructor / SysUpdate / MeasUpdate', 'filter/SRiteratedextendedkalmanfilter.cpp')])
P('P27', 'Filters start and restart at their prior and count their system updates',
  'A Kalman-type, histogram, particle, bootstrap, EK particle, mixture particle or mixture bootstrap filter starts at time step 0 with a posterior of the same dimension and content as the prior it is given (mean and covariance; states and probabilities; particles with normalised weights; component weights and a clone of each component); a particle filter given its posterior object uses that one. Reset(prior) makes the posterior equal to the new prior, registers the prior, keeps the time step, and prepares the working storage for the number of components of the new prior. PostGet returns the posterior and changes nothing; TimeStepGet returns the time step. For the (iterated, square-root iterated) extended Kalman, histogram, particle, bootstrap and mixture filters every form of Update with a system model advances the time step by exactly one (unless a due resampling fails) and every measurement-only Update leaves it; no Update replaces the posterior object or the registered prior.',
  ['inputs', 'histories', 'configurations'], 'any prior, any number of particles, states and components, any sequence of updates and resets',
  'tests look at the estimate, not at the count of steps (which resampling and mixture maintenance depend on) nor at filters that are reset to a prior of another size',
  ['filter/filter.cpp', 'filter/kalmanfilter.cpp', 'filter/histogramfilter.cpp', 'filter/particlefilter.cpp', 'filter/mixtureParticleFilter.cpp', 'filter/EKparticlefilter.cpp'],
  [('constructor, Reset, TimeStepGet, Update', 'filter/filter.cpp'), ('UpdateInternal', 'filter/kalmanfilter.cpp'), ('SysUpdate / UpdateInternal', 'filter/histogramfilter.cpp'), ('Reset', 'filter/mixtureParticleFilter.cpp')])
P('P19', 'Matrix and vector operations compute what their names say in each backend',
  'For Matrix, SymmetricMatrix, ColumnVector and RowVector of the Boost and of the Eigen backend, for operands of any (matching) size: constructors give the requested size, fill value, repeated row, copy or concatenation; operator() addresses elements from one (vectors\' operator[] from zero) for reading and writing, and in a symmetric matrix an element and its mirror image are the same; rows, columns, size and capacity tell the size; + - * / with a scalar and + - with an operand of equal size work element by element, and the in-place forms change exactly the object and return it; the products matrix-matrix, matrix-vector, vector-row (outer), row-vector (dot) and multiply(a, b) are the mathematical ones; = with a scalar or operand, assign(n, value) and resize give the stated content or size; == compares the same-sized operands; transpose, vectorAdd (concatenation), rowCopy, columnCopy and sub (counted from one, both ends included) return the stated elements; convertToSymmetricMatrix takes the lower triangle; inverse and determinant are the closed forms for 1x1 and 2x2 matrices, otherwise the library\'s inverse, and the product of the diagonal of the LU factors with the sign of the row permutation (Boost) or the library determinant; pseudoinverse(eps) is V D+ U\' of the singular value decomposition, where D+ inverts the singular values not below eps; cholesky_semidefinite of a positive (semi)definite matrix reports success and gives a lower triangular L with L L\' equal to it; with a negative pivot it reports failure. Operations declared const leave their object and arguments unchanged. Not covered: the singular value decomposition itself, sums mixing symmetric and general matrices in place.',
  ['inputs', 'configurations'], 'any sizes, any element values, both backends; Cholesky for dimensions 1 to 3',
  'the tests use small, often symmetric or diagonal operands of one or two sizes, and each build selects one backend',
  ['wrappers/matrix/matrix_BOOST.cpp', 'wrappers/matrix/vector_BOOST.cpp', 'wrappers/matrix/matrix_EIGEN.cpp', 'wrappers/matrix/vector_EIGEN.cpp', 'wrappers/matrix/matrix_wrapper.cpp'],
  [('operators, sub, inverse, determinant', 'wrappers/matrix/matrix_BOOST.cpp'), ('the same', 'wrappers/matrix/matrix_EIGEN.cpp'), ('cholesky_semidefinite, pseudoinverse', 'wrappers/matrix/matrix_wrapper.cpp')],
  note='every obligation is an equality of element terms that holds for all sizes and elements, floating point treated as exact; Cholesky: symbolic evaluation for dimensions 1 to 3, the resulting terms compared under six positive definite interpretations; the uBLAS/Eigen library operations are taken by their documented meaning',
  tech='static analysis: element-wise value analysis of the type-checked program (clang AST), loops solved by inverting the index maps, equality of normal-form terms per obligation')
P('P23', 'Results depend on arguments, objects and the one random generator only',
  'What a library call returns and does to its objects depends only on its arguments, on the objects it is given and on the numbers drawn from the library\'s random number generator. No function carries anything over from an earlier call (on whatever object) in a static or global variable: such a variable is either never changed after initialisation or assigned in the same call before it is read. No function reads the clock, the process, the environment, input, or a source of randomness other than rnorm and runif of the wrapper. rnorm(mu, sigma) draws one number from the normal distribution with that mean and standard deviation, runif() one from the uniform distribution on [0, 1] and runif(min, max) one from the uniform distribution between the two, for the arguments of this very call; all draw from the same generator, which is neither copied nor seeded again.',
  ['inputs', 'histories'], 'every function of the library, every history of earlier calls on the same or other objects',
  'dependence on an earlier call shows only in particular sequences of calls on several objects; the tests use one object at a time',
  ['wrappers/rng/rng.cpp', 'pdf/mcpdf.h', 'pdf/mixture.h', 'pdf/discretepdf.cpp'],
  [('rnorm, runif', 'wrappers/rng/rng.cpp'), ('static iterators', 'pdf/mcpdf.h'), ('static iterators', 'pdf/mixture.h'), ('static iterators', 'pdf/discretepdf.cpp')],
  note='definite assignment of all variables with static storage over all functions of the library as instantiated by the driver; calls outside the library are compared with a list of sources of time, input and randomness',
  tech='static analysis: effect analysis and definite-assignment dataflow over the type-checked program (clang AST); the generator functions by value analysis')
P('P30', 'What is set is what is read back, and nothing else that can be read changes',
  'For samples and weighted samples (value, weight, dimension), densities (dimension), conditional distributions (one argument, all arguments, their number), conditional Gaussians with additive noise (noise mean, noise covariance), linear conditional Gaussians (each matrix), system and measurement models (their density), particle and mixture particle filters (proposal) and the square-root filter (covariance factor): right after a set call the matching getter returns exactly the given value, and the other getters of that object return what they returned before. The covariance of such a conditional Gaussian is that of its noise, and the sizes a model reports are those of its density. A Probability made from a number holds that number, copies and assignments keep it, and products and quotients are those of the numbers. The most probable state of a discrete distribution is a state with the greatest probability. The innovation check succeeds exactly when the squared norm of the innovation reaches the given bound. After a reset a backward filter reports the given density as its posterior.',
  ['inputs', 'histories'], 'any value, index, matrix or density given; any earlier state of the object',
  'tests read back a few values of a few classes, hardly ever next to the values that should have stayed',
  ['sample/sample.h', 'sample/weightedsample.h', 'pdf/pdf.h', 'pdf/conditionalpdf.h', 'pdf/conditionalgaussian_additivenoise.cpp', 'pdf/analyticconditionalgaussian_additivenoise.cpp', 'pdf/linearanalyticconditionalgaussian.cpp', 'model/systemmodel.cpp', 'model/measurementmodel.cpp', 'filter/particlefilter.cpp', 'filter/mixtureParticleFilter.cpp', 'filter/innovationCheck.cpp', 'pdf/discretepdf.cpp', 'bfl_constants.h', 'smoother/backwardfilter.cpp'],
  [('ValueSet / WeightSet / DimensionSet and getters', 'sample/sample.h'), ('ConditionalArgumentSet and getters', 'pdf/conditionalpdf.h'), ('Probability', 'bfl_constants.h'), ('MostProbableStateGet', 'pdf/discretepdf.cpp'), ('InnovationCheck::check', 'filter/innovationCheck.cpp')])
P('P25', 'No result depends on a number, flag or pointer that was never set',
  'After every constructor of a density, model, filter or smoother class, every data member that is a number, flag or pointer (own or inherited) either has been set, on every path through the constructor and the base class constructors and member functions it calls, or is set by each member function before that function reads it (a value kept behind a "changed" flag counts when the constructor raises that flag). No constructor reads such a member before it has been set. In every function of the library a local number, flag or pointer declared without a value is set on every path before it is read (loops are taken to run at least once). The value holders Probability, Sample and WeightedSample made without a value are exempt, as are the elements of vectors and matrices of a given size.',
  ['inputs', 'configurations'], 'every constructor, every path, every function',
  'memory that happens to be zero hides a missing initialisation in tests',
  ['filter/particlefilter.cpp', 'filter/mixtureParticleFilter.cpp', 'model/systemmodel.cpp', 'model/measurementmodel.cpp', 'pdf/uniform.cpp', 'pdf/gaussian.cpp', 'pdf/mcpdf.h', 'pdf/mixture.h', 'pdf/discretepdf.cpp', 'filter/filter.cpp'],
  [('constructors', 'filter/particlefilter.cpp'), ('constructor', 'model/systemmodel.cpp'), ('constructors', 'pdf/uniform.cpp'), ('constructors and _Sigma_changed', 'pdf/gaussian.cpp')],
  note='definite assignment over the syntax trees of all constructors and functions as instantiated by the driver; flow-sensitive, branch conditions are not interpreted except flags guarding a cached value',
  tech='static analysis: definite-assignment dataflow, interprocedural over member functions called on the object (clang AST)')
P('P40', 'Particle estimates converge to the true posterior as particles are added',
  'As the number of particles grows, expectations computed from particle, mixture particle and EK particle filters converge to those of the true Bayesian posterior, and resampling introduces no bias.',
  ['inputs'], 'any model, number of particles and seed', 'a statistical limit statement, of which a test sees single samples',
  ['filter/particlefilter.cpp', 'pdf/mcpdf.h'], [('Resample / UpdateWeightsInternal', 'filter/particlefilter.cpp')],
  na='A limit over random draws: no dataflow, type or syntax argument bounds a sampling error. The exact local facts it rests on (weights, propagation, resampling positions, one draw per particle) are decided under P12, P13, P15 and P23.')
P('P41', 'Covariances stay symmetric positive semidefinite in floating point',
  'Over any sequence of updates the covariance of every Kalman-type filter stays symmetric positive semidefinite in floating point, for every step count and conditioning of the model.',
  ['inputs', 'histories'], 'any well-posed model and history', 'rounding accumulates over histories tests do not run',
  ['filter/kalmanfilter.cpp', 'filter/SRiteratedextendedkalmanfilter.cpp'], [('CalculateMeasUpdate', 'filter/kalmanfilter.cpp')],
  na='Depends on rounding errors accumulated over unbounded histories of runtime matrices; the update P - K H P in use is not even stable in general, and no sound static bound is in reach. The exact-arithmetic update equations are decided under P08 and P16.')
P('P42', 'Inverse, pseudoinverse and SVD are accurate for ill-conditioned matrices',
  'inverse, pseudoinverse, SVD and Cholesky results satisfy their defining equations to a small multiple of machine precision for every matrix they accept, and the SVD iteration always terminates.',
  ['inputs'], 'every matrix', 'conditioning is continuous; tests use benign matrices',
  ['wrappers/matrix/matrix_wrapper.cpp', 'wrappers/matrix/matrix_BOOST.cpp'], [('SVD / pseudoinverse', 'wrappers/matrix/matrix_wrapper.cpp')],
  na='Convergence of the iterative QR sweep and floating-point error bounds quantify over runtime values; no sound static argument in reach decides them. The exact algebra of all other matrix operations is decided under P19.')
P('P43', 'Iterated filters converge to the maximum a posteriori estimate',
  'With the innovation check enabled, the iterated extended Kalman filters stop at a stationary point of the posterior density for every model and measurement.',
  ['inputs'], 'any analytic model and measurement', 'convergence depends on the model functions supplied at run time',
  ['filter/iteratedextendedkalmanfilter.cpp'], [('MeasUpdate', 'filter/iteratedextendedkalmanfilter.cpp')],
  na='Gauss-Newton iterations need not converge for arbitrary user models, so this holds only under conditions on runtime functions a static analysis cannot bound. One and two iterations are decided exactly under P08 and P16, the check itself under P30.')
