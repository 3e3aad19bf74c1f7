"""What the proofs rest on: reported in every evidence file."""

BASE = [
    "bmivc (the verification-condition generator, its loop rule and its rewriting prover in /verif/bmivc): not itself verified; "
    "cross-checked on every run against the real code by the runtime contracts",
    "CPython executing the mechanically rewritten source (rewrite.py: literals, / and **, loops, comprehensions, stores)",
    "z3 5.3 for the arithmetic side conditions",
    "contracts assumed on NumPy/JAX/SciPy/scikit-learn/pandas/TFP functions (bmivc/shims), listed under dependency_contracts_used",
]
ASSUME = [
    "machine floating point treated as real arithmetic; integers unbounded",
    "array entries are real numbers (no NaN/inf) unless a contract says otherwise; array lengths are natural numbers",
    "no aliasing between distinct array arguments; no concurrent modification of objects",
    "@typechecked / jaxtyping run-time annotations are dropped by the extraction",
]


def base(prop, shims):
    return BASE + [f"assumed contract: {s}" for s in shims]


PER = {
    "C01": ["a symmetric matrix is positive definite iff all its eigenvalues are positive; principal blocks of a positive definite matrix are positive definite",
            "Fischer's inequality log det S <= log det Sxx + log det Syy (used for non-negativity), log det(D A D) = log det A + 2 sum log d, the 2x2 determinant"],
    "C02": ["facts of C01; gammaln and digamma opaque; the covariance method is checked entry by entry"],
    "C03": ["euler-gamma and the logarithms of the documented formula as the reals they denote; the documented zero-inflated formula is taken as given (known finding)"],
    "C05": ["the two key words of PRNGKey(seed) are the high and low words of the seed (0 for the high word of 0 <= seed < 2^32); children of split and fold_in are "
            "distinct streams; draws are functions of key, shape and parameters"],
    "C06": ["square root of a positive real as the real it denotes (correlation of the latent-variable model)"],
    "C07": ["samplers replaced by their constructors' contract: the dimensions of their arguments and a non-negative information (C01-C04, C11); the latent-variable matrices by C06",
            "identifiers and names of base tasks are non-empty texts; scikit-learn preprocessing of the rescaling tasks opaque"],
    "C08": ["erf, asinh and the power function are strictly increasing on their domains; sin and cos satisfy sin^2 + cos^2 = 1"],
    "C09": ["the exponential of a skew-symmetric matrix is orthogonal and expm(-A) expm(A) = 1"],
    "C10": ["the function inverted is monotone on the interval; real arithmetic (the stated tolerance is the real one)"],
    "C11": ["TFP Mixture/MixtureSameFamily, TransformedDistribution, Blockwise and JointDistribution densities are those documented by TFP; bijectors: inverse(forward(x)) = x",
            "marginals of multivariate normal and Student-t are those of the blocks; Cholesky factor opaque; the closed forms by C01, C02; proportions positive"],
    "C12": ["metrics satisfy d(a, a) = 0 and d >= 0; argsort/sort/partition sort; digamma opaque; neighbourhood lists of 1 to 3 entries (any integers, order, repetitions)",
            "ProductSpace by its contract (C20)"],
    "C13": ["scikit-learn KernelDensity log-densities, CCA scores and numpy histogramdd counts opaque functions of their inputs and settings"],
    "C14": ["MLP with 0 to 3 hidden layers of any widths; critics opaque"],
    "C15": ["logged values are real numbers (no NaN); optimizer, critic and objective opaque; int() truncates"],
    "C16": ["jax.random.permutation/choice draw indices in range, permutations are injective; scikit-learn train_test_split contract; 0 to 3 hidden layers; ProductSpace by C20"],
    "C17": ["pandas: to_csv writes the shortest text that identifies a value, read_csv(float_precision='round_trip') reads the value the text denotes; float32 values are "
            "compared in float32; column labels are texts"],
    "C18": ["PyYAML writes and reads represented plain values faithfully; exceptions of estimators from a list of nine kinds with arbitrary texts; clocks do not go back; "
            "timers driven by up to four operations"],
    "C19": ["subprocess runs the given arguments without a shell and returns what the program printed; tempfile gives fresh files; the output of a script is an opaque text that "
            "denotes a number or not; the R/Julia scripts' option names are read from external/rmi.R and external/mi_estimator.jl by the runtime contract only"],
    "C21": ["pandas selection, grouping and pivoting by their contracts; no NaN in the results' key columns"],
}


def assumptions(prop):
    return ASSUME + PER.get(prop, [])
