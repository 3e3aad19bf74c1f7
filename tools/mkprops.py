import json
P=[]
def p(id,title,statement,over,text,why,files,mechanism,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":m,"where":files[0]} for m in mechanism]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
S="src/bmi/samplers/"; T="src/bmi/benchmark/tasks/"; E="src/bmi/estimators/"; N=E+"neural/"
p("C01","Gaussian ground-truth mutual information is exact for every valid covariance",
"For jointly normal variables the reported mutual information equals half of log det(Sxx) + log det(Syy) - log det(S), in nats: it is non-negative, does not depend on the mean, is unchanged when coordinates are rescaled, and stays finite and correct at any scale and dimension. The two-variable special case reports -1/2 log(1 - rho^2) whatever the means and standard deviations. Parameters that do not describe such a distribution (wrong shapes, asymmetric or non-positive-definite covariance, non-positive deviations, |rho| >= 1, non-positive dimensions) are rejected.",
["inputs"],"all dimensions dim_x, dim_y >= 1, all symmetric positive-definite covariances, all means, all rho in (-1,1), all deviations > 0",
"The tests compare a few fixed matrices and seeds of small dimension; they cannot range over all dimensions, scales and block splits, and never pass an asymmetric or tiny-scale covariance.",
[S+"_splitmultinormal.py",S+"base.py",S+"_tfp/_normal.py"],["SplitMultinormal.__init__ slices mean and covariance into blocks","_Multinormal.entropy uses the (log-)determinant","_can_be_covariance","BivariateNormalSampler.mutual_information"],
observe=["mutual_information()","ValueError at construction"])
p("C02","Student-t ground-truth mutual information and covariance are exact",
"For jointly Student-t variables the reported mutual information is the Gaussian value of the dispersion matrix plus h(dim_x)+h(dim_y)-h(dim_x+dim_y), where h(k) is the differential entropy of the standard k-dimensional Student-t with the same degrees of freedom; the correction depends only on the dimensions and degrees of freedom, is symmetric in the two variables, stays finite for every positive degree of freedom and is 0 in the Gaussian limit of infinite degrees of freedom. The covariance is df/(df-2) times the dispersion for df > 2 and is refused for df <= 2. Non-positive degrees of freedom and invalid dispersions are rejected.",
["inputs"],"all dimensions, all degrees of freedom in (0, inf], all valid dispersions and means",
"Tests evaluate a handful of (dim, df) triples with small df; large and infinite df, asymmetric dimensions and non-integer df are not reached.",
[S+"_split_student_t.py",S+"_tfp/_student.py"],["_differential_entropy","SplitStudentT.mi_correction_function","SplitStudentT.covariance"])
p("C03","Closed-form mutual information of the non-Gaussian primitive samplers",
"The additive-uniform model reports 1/(4 eps) for eps > 1/2 and eps - log(2 eps) otherwise; the discrete-uniform mixture with m values reports log m - (m-1)/m log 2 and its multivariate version the sum over components; the zero-inflated Poissonization model reports its documented value (1-p)(2 log 2 - gamma - S), with S truncated at the requested number of terms. Parameters outside the documented domains (eps <= 0, m <= 0, p outside [0,1)) are rejected, and the dimensions reported are those of the samples.",
["inputs"],"all eps > 0, all m >= 1, all p in [0,1), all truncations >= 1, all finite sequences of m",
"Tests use two or three parameter values each; they cannot cover the breakpoint from both sides, every m, or every truncation.",
[S+"_additive_uniform.py",S+"_discrete_continuous.py",S+"_independent_coordinates.py"],["AdditiveUniformSampler.mutual_information_function","DiscreteUniformMixtureSampler.mutual_information","ZeroInflatedPoissonizationSampler.mutual_information"])
p("C04","Transformation preserves, and independent concatenation adds, mutual information",
"Pushing a sampler through a pair of transformations reports the base sampler's mutual information, dimensions increased exactly by the declared increments, and samples obtained by applying f to every X and g to every Y of one and the same base sample. Concatenating any sequence of samplers reports the sums of their dimensions and of their mutual informations, and its samples are the component samples in order, X with X and Y with Y, drawn independently. Negative increments are rejected.",
["inputs","configurations"],"all base samplers, all transformations, all increments, all sequences of samplers of any length, all sample sizes and seeds",
"Tests use two or three concrete base samplers; the guarantee is parametric in an arbitrary sampler, an arbitrary map and an arbitrary number of components.",
[S+"_transformed.py",S+"_independent_coordinates.py",S+"_discrete_continuous.py"],["TransformedSampler.sample/transform/mutual_information","IndependentConcatenationSampler"])
p("C05","Samples have the declared shape, are paired, and are a pure function of the seed",
"Every sampler returns, for n points, arrays of shapes (n, dim_x) and (n, dim_y) whose i-th rows come from the same joint draw in the documented model, and calling it again with the same parameters, n and seed returns the same arrays. An integer seed and the pseudorandom key built from it are interchangeable, and no random key is consumed twice, so variables documented as independent are drawn from independent streams. Sampling changes neither the sampler nor its arguments.",
["inputs","histories"],"all samplers and their parameters, all n >= 1, all seeds and keys, all call histories",
"Tests check shapes for a few n and one or two seeds; reuse of a key or mispairing keeps every marginal and shape right and is invisible to a sample-based test, and n = 1 is not exercised.",
[S+"base.py",S+"_additive_uniform.py",S+"_discrete_continuous.py",S+"_splitmultinormal.py",S+"_split_student_t.py",S+"_transformed.py",S+"_independent_coordinates.py",S+"_tfp/_core.py",S+"_tfp/_wrapper.py"],["cast_to_rng","each sampler's sample()","jax.random.split key discipline"])
p("C06","Dispersion-matrix builders have exactly the documented entries",
"The parametrised correlation matrix, the canonical-correlation covariance and the latent-variable covariance have, at every index, the documented value; the latent-variable covariance equals the mixing matrix times its transpose, is symmetric, and its correlation has unit diagonal. The advertised correlation strengths of the dense and sparse schemes equal the actual entries, labels enumerate the latent and observed variables in the order of the matrix, and out-of-range parameters are rejected.",
["inputs"],"all dimensions, all numbers of interacting components, all real weights including zero and negative, all correlations in [-1,1], all indices",
"Tests evaluate small fixed dimensions with convenient weights; the statement is about every entry of matrices of every size.",
[S+"_matrix_utils.py"],["nested index loops filling the matrices","GaussianLVMParametrization.covariance / mixing / correlation","defaults in __post_init__"])
p("C07","Benchmark tasks describe the sampler they contain",
"Every task reports the dimensions and mutual information of its own sampler, its identifier, name and parameters as documented for the factory that built it, and sampling it is sampling that sampler with the given size and seed. A derived task's identifier is the transformation's prefix followed by the base task's identifier, its parameters extend the base parameters without modifying them, and the base task itself is unchanged. The benchmark collection maps each identifier to the task carrying that identifier, without collisions.",
["inputs","configurations"],"all factory parameters (dimensions, strengths, degrees of freedom, correlations, names), all base tasks, all stacked transformations",
"Tests instantiate each factory once or twice and compare little beyond the absence of exceptions.",
["src/bmi/benchmark/task.py","src/bmi/benchmark/__init__.py","src/bmi/benchmark/task_list.py",T+"multinormal.py",T+"student.py",T+"bivariate_normal.py",T+"additive_noise.py",T+"bimodal_gaussians.py",T+"asinh.py",T+"half_cube.py",T+"normal_cdf.py",T+"power.py",T+"wiggly.py",T+"rotate.py",T+"spiral.py",T+"scaling.py",T+"embeddings.py",T+"mixtures.py"],["Task.metadata","task_* factories","transform_* factories","BENCHMARK_TASKS"])
p("C08","Built-in transformations are injective with the documented formula",
"Each built-in coordinate transformation (signed 3/2 power, signed power, inverse hyperbolic sine, Gaussian CDF, both wiggly maps, Swiss roll) computes its documented formula and is injective on its domain, strictly increasing where it is one-dimensional, so that pushing a sample through it cannot change mutual information. The same map is applied to every coordinate of every point, independently of the other points.",
["inputs"],"all real arguments, all exponents alpha > 0, all points in [0,1] for the Swiss roll, all sample sizes and dimensions",
"Tests check one or two values and invertibility on a small grid; injectivity is a statement about all pairs of reals.",
["src/bmi/transforms/simple.py",T+"wiggly.py",T+"asinh.py",T+"half_cube.py",T+"power.py",T+"normal_cdf.py",T+"embeddings.py"],["half_cube","normal_cdf","swissroll2d","wiggly_x / wiggly_y","pow in transform_power_task"])
p("C09","Rotation generators are skew-symmetric and spirals preserve the norm",
"The (i,j) canonical generator has exactly -1 at (i,j), 1 at (j,i) and 0 elsewhere and rejects n < 2 or indices outside 0 <= i < j < n; the skew-symmetric part of A is (A - A^T)/2. A spiral sends x to initial @ exp(speed ||x||^2 G) @ x, which for a skew-symmetric G and the default initial matrix preserves ||x|| and is undone by the opposite rotation, and it rejects non-square or mismatched matrices. The rotation transformation multiplies every point by one fixed orthogonal matrix.",
["inputs"],"all n >= 2, all index pairs, all square matrices, all points, all speeds",
"Tests use n <= 5 and fixed points.",
["src/bmi/transforms/_rotate.py",T+"rotate.py",T+"spiral.py"],["so_generator","skew_symmetrize","Spiral.__call__","transform_x/transform_y in rotate"])
p("C10","Numerical CDF inversion brackets the true quantile",
"For every strictly increasing function and every target between its values at the interval's ends, the returned point lies in the interval and within the requested tolerance of the unique solution, because each refinement keeps the solution inside the current bracket and halves it; targets outside the range give the nearest end within tolerance. The search always terminates, and arrays are inverted element by element.",
["inputs"],"all strictly increasing functions, all intervals, all targets, all tolerances > 0",
"Tests invert a couple of concrete CDFs at a few points; the loop invariant must hold for every function and every iteration.",
["src/bmi/transforms/_invert_cdf.py",T+"bimodal_gaussians.py"],["g_step / g_cond while_loop","invert_cdf"],state=[("(x0, x1)","bracket containing the solution")])
p("C11","Bend-and-Mix distributions keep joint, marginals and PMI consistent",
"The pointwise mutual information of a distribution is log p(x,y) - log p(x) - log p(y) with the joint and marginals of that same distribution; a mixture mixes the joints and both marginals with the same proportions in the same component order, a transformation transforms the joint blockwise and each marginal by its own map (leaving PMI invariant and the known mutual information unchanged), and a product distribution has zero mutual information. The Monte Carlo estimate is the mean of the PMI profile of a sample of the requested size with standard error std/sqrt(n), the wrapped sampler reports the given value or that estimate (computed once, never negative), and mixtures of incompatible dimensions or of mismatched proportions are rejected.",
["inputs","configurations"],"all distributions, all numbers of components and proportions, all bijectors, all keys and sample sizes",
"Tests use few concrete mixtures with statistical tolerances that cannot see an inconsistent marginal of small weight, and fixed seeds.",
[S+"_tfp/_core.py",S+"_tfp/_product.py",S+"_tfp/_normal.py",S+"_tfp/_student.py",S+"_tfp/_wrapper.py",T+"mixtures.py"],["JointDistribution.pmi","mixture","transform","monte_carlo_mi_estimate","BMMSampler.mutual_information"])
p("C12","KSG estimators compute the Kraskov formula for every dataset and chunking",
"For every dataset, set of neighbourhood sizes and choice of metrics the estimate is the mean over the distinct requested neighbourhoods k of the non-negative part of psi(k) + psi(N) - < psi(n_x+1) + psi(n_y+1) >, where n_x (n_y) counts the other points strictly closer in X (Y) than the k-th neighbour in the joint max-distance; the result does not depend on the chunk size, the order of the neighbourhoods or repetitions in the list, and the fast and the reference implementations agree. Ties and duplicated points never make a count negative or the estimate infinite. Empty or non-positive neighbourhoods, unequal sample lengths and datasets not larger than the largest neighbourhood are rejected.",
["inputs","configurations"],"all finite datasets including ties and duplicates, all neighbourhood lists, all metrics, all chunk sizes",
"Tests use continuous random data (no ties), a few k and chunk sizes.",
[E+"ksg.py","src/bmi/utils.py"],["KSGEnsembleFirstEstimator.fit chunk loop","KSGEnsembleFirstEstimatorSlow.fit point loop","validate_neighborhoods"],state=[("digammas per neighbourhood","one entry per point")])
p("C13","Histogram, kernel-density and CCA estimators compute their documented functional",
"The histogram estimator returns the plug-in sum of p(x,y) log(p(x,y)/(p(x)p(y))) over occupied cells, with marginals obtained by summing the joint and the requested number of bins per dimension; the kernel-density estimator returns h(X)+h(Y)-h(X,Y), each entropy being minus the mean log-density of the points under the estimator configured for, and fitted to, that variable; the CCA estimator returns the sum over all min(dim_x, dim_y) canonical pairs of -1/2 log(1-r^2). The default for the Y (and marginal) settings is the X (joint) setting, and the reported parameters are the ones used.",
["inputs","configurations"],"all datasets, all bin counts and dimensions, all kernels and bandwidths",
"Tests compare with loose statistical tolerances on Gaussian data of dimension 1-2.",
[E+"_histogram.py",E+"_kde.py",E+"correlation.py"],["HistogramEstimator.estimate","KDEMutualInformationEstimator.estimate_entropies","CCAMutualInformationEstimator.estimate"])
p("C14","Neural objectives equal their variational formulas for every critic and batch",
"For every critic and batch, InfoNCE is the mean over i of f(x_i,y_i) - log((1/n) sum_j exp f(x_i,y_j)) (hence at most log n), Donsker-Varadhan is the mean diagonal score minus the log of the mean exponentiated off-diagonal score, NWJ is the mean diagonal score minus the mean of exp(f-1) off the diagonal, and the memory-saving and the quadratic implementations give the same value. The MINE value uses the paired and the unpaired batch, and its gradient divides by an exponentially smoothed denominator equal to alpha times the current value plus (1 - alpha) times the previous one (0 before the first step), so a smoothing parameter closer to 1 means less smoothing. The neural critic scores a pair from exactly that pair, X coordinates first.",
["inputs"],"all critics, all batch sizes n >= 2, all batches, all smoothing parameters in (0,1) and histories of denominators",
"Tests compare the two backends on one random batch; the index structure and the log-mean normalisation must hold for every n.",
[N+"_backend_linear_memory.py",N+"_backend_quadratic_memory.py",N+"_mine_estimator.py",N+"_critics.py"],["infonce/donsker_varadhan/nwj in both backends","_mine_value_neg_grad_log_denom","log-denominator carry"])
p("C15","Training reports the best test value and stops when documented",
"The training log keeps every logged value in order, its final estimate is the largest test value logged (NaN if none was logged), and early stopping triggers exactly when it is enabled and the two most recent test values did not improve on the best. Training performs at most the maximum number of steps, one training record per step, one test evaluation every test interval and ends right after the step at which early stopping triggers. The diagnostic flags compare the smoothed training history with its maximum and with its value one window ago as documented.",
["histories","inputs"],"all histories of training and test values, all step limits, test intervals, smoothing factors",
"Tests use three or four hand-written histories.",
[N+"_training_log.py",N+"_basic_training.py",N+"_mine_estimator.py"],["TrainingLog.log_test_mi / early_stop / final_mi / detect_warnings","basic_training and mine_training loops"],state=[("best test value, non-improvement counter","summary of the whole history")])
p("C16","Neural estimators train and test on paired, split data with declared settings",
"With a split fraction each point goes to exactly one of training and test set with X and Y kept paired, and without one both are the full data; training minibatches are paired rows of the training data, shuffled negatives permute only Y. A batch larger than the training set gives NaN and a flag instead of an exception, estimating with and without extra information agrees, and each estimator uses the objective, step counts, batch size, learning rate and seed it reports in its parameters.",
["inputs","configurations"],"all datasets, split fractions, batch sizes, seeds and estimator settings",
"Tests run a few tiny trainings; a leak between train and test or an unpaired batch changes nothing they look at.",
[N+"_estimators.py",N+"_mine_estimator.py",N+"_basic_training.py"],["train_test_split","basic_training minibatch sampling","_sample_paired_unpaired","NeuralEstimatorBase.estimate_with_info"])
p("C17","Saving and reading a sample is lossless and order-preserving",
"For every pair of samples of equal length, writing them and reading the file back returns the same X and Y arrays (rows in order, columns in order, nothing moved between X and Y), and reading only the dimensions gives the numbers of X and Y columns. Arrays that are not two-dimensional or of unequal length, and files with columns that are neither X nor Y, are rejected.",
["inputs"],"all sample sizes, all dimensions (including more than ten columns), all finite values",
"Tests round-trip one or two small arrays.",
["src/bmi/utils.py","src/bmi/benchmark/task.py"],["save_sample column naming","read_sample column selection","read_sample_dims"])
p("C18","Running an estimator always yields a faithful result record",
"For every estimator and sample file, running it returns a record with the estimate, the measured time, the number of samples in the file, the given identifiers and seed, the estimator's additional information merged with the caller's, and success set exactly when the estimation did not raise; a raising estimator yields a NaN estimate, success false and the error text instead of an exception. The caller's dictionary and the sample file are not modified, estimators that read files themselves are given the path, and the record written to disk reads back equal.",
["inputs","fault_sequences"],"all estimators including ones that raise anything, all sample files, all seeds, all additional-information dictionaries",
"Tests run one succeeding and perhaps one failing estimator; they do not check merging, mutation, or the failure record for all exceptions.",
["src/bmi/benchmark/result.py","src/bmi/benchmark/utils/timer.py","src/bmi/benchmark/utils/dict_dumper.py"],["run_estimator try/except","RunResult.dump"])
p("C19","External estimator bridges pass declared parameters and parse results faithfully",
"For every parameter setting an R or Julia estimator invokes its script with the sample file, the estimator name, the dimensions of X and Y in that order and exactly the declared parameters under the script's option names, and returns the number printed by the script; a failing script or unparseable output raises instead of returning a number. In-memory samples are written to a temporary file with the same contents, and exactly the declared parameters are reported.",
["inputs","configurations"],"all parameter values, sample shapes and script outputs",
"R and Julia are not available to the tests, so the command line and the parsing are never executed there.",
[E+"external/external_estimator.py",E+"external/r_estimators.py",E+"external/julia_estimators.py"],["_run_command / _build_command","estimate via temporary file","parameter models"])
p("C20","Paired data container, chunking and noise utilities are faithful and pure",
"The paired container keeps X and Y rows paired in order for every index or slice, standardises each column of X and Y to zero mean and unit variance only when asked, rejects unequal lengths, and never modifies the caller's arrays. Chunking n items produces consecutive non-overlapping non-empty slices of at most the chunk size that cover exactly 0..n-1, and rejects non-positive sizes. Adding noise returns the input plus Gaussian noise of the given scale that depends only on the shape, scale and seed, leaving the input unchanged.",
["inputs"],"all arrays, all slices, all n and chunk sizes, all seeds and scales",
"Tests use two or three sizes and do not check the frame (caller's arrays unchanged).",
["src/bmi/utils.py"],["ProductSpace","chunker","add_noise"])
p("C21","Result tables aggregate exactly the requested runs",
"The benchmark table contains, for each task and estimator, the mean over exactly the runs with the requested number of samples, and the convergence table aggregates the estimates for each number of samples of the selected task and estimators; rows with other sample sizes, tasks or estimators never contribute. The input results are not modified.",
["inputs"],"all result tables, all sample sizes, all sets of estimators and tasks",
"The existing tests do not exercise these functions.",
["workflows/benchmark/_utils.py"],["create_benchmark_table","create_convergence_table"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
