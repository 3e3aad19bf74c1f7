import json, collections, subprocess, os, glob, sys
sys.path.insert(0, '/verif')
HEAD = '''# Contract-based deductive verification of cbg-ethz/bmi

## 1. The method

No deductive verifier for Python programs over NumPy/JAX exists in this sandbox (no Nagini; Frama-C has no WP; Why3, Dafny
and Viper are absent; CrossHair is a bounded search).  `bmivc/` is therefore a purpose-built verification-condition
generator for the subset of Python this library is written in.

**What is verified is the code that runs.**  On every run `bmivc/loader.py` reads the source files under `/repo/src/bmi`
(and, for C21, `/repo/workflows/benchmark/_utils.py`), and `bmivc/rewrite.py` applies a mechanical AST pass (decimal literals become exact rationals; `/`, `**`, comprehensions,
list displays, f-strings, loops and item/attribute stores become calls of the engine; generator functions return the list of yielded values).  The extraction drops function
annotations (hence `@typechecked`/jaxtyping run-time checks) and docstrings; `warnings`, `logging` and progress bars are stubs.  Nothing is transcribed by hand; there is no model of the code.

**Symbolic execution by contract.**  CPython runs the rewritten functions on *symbolic* values (`bmivc/sym.py`, `seq.py`): reals and
integers are terms, arrays are functions of index variables with symbolic dimensions (`SArr`), lists have symbolic
segments (`VList`), dictionaries and texts may be arbitrary.  Branches on undecided conditions split the path; every path carries its
condition.  Loops over a symbolic range are not unrolled: their body is executed once at a generic iteration, the state written is
summarised (point-wise stores, sums, running maxima, appended lists, carried scalars), and where the summary needs an argument an explicit loop
invariant (`INVARIANTS`) is proved initially and preserved and then assumed (the bisection of C10, the training loops of C15).  Calls to
library functions go to *contracts* (`bmivc/shims/`), calls to unknown objects (critics, metrics, samplers, estimators, optimizers) to opaque symbols.

**Contracts.**  `bmivc/contracts/cNN.py` holds, per function, the precondition (how the symbolic inputs are built), the postcondition, exceptional
postconditions (raises *iff*), and frame conditions (arguments and receiver unchanged).  A caller is checked against the callee's contract where that callee is a
unit of its own (samplers in tasks, `ProductSpace` in the estimators, `TrainingLog` in the loops, the matrix builders in the factories).

**Discharge.**  Each postcondition on each path is one named obligation.  `bmivc/solve.py` decides it with a normaliser for arithmetic with
symbolic finite sums, piecewise terms and opaque functions, with z3 (5.3) for the order side conditions and the propositional part.  Nothing is bounded: dimensions,
lengths and iterations are symbolic unless section 3 says otherwise.

**Verdict.**  `python3-vt`-side driver `check.py`:
* every obligation proved -> exit 0, level `proof`;
* an obligation *refuted* (a numeric assignment satisfying the path condition on which the two sides differ, or an outcome contradicting the contract) ->
  the runtime contracts (`bmivc/rt/cNN.py`, executable versions of the same contracts) are run at depth on the real code to get a failing input; the VIOLATION
  line carries the replay, or `no-failing-input-found` with the named obligation and the prover's output;
* `Unsupported` (source outside the subset), `unknown` or a time limit -> *not* an alarm: the affected contract is reported as out of reach in the evidence, and the runtime contracts stand in,
  labelled bounded; they raise a VIOLATION only with a concrete failing input on the real code.
The runtime contracts are also run in every check on the unchanged tree (they cross-check the engine and the assumed library contracts against the real
NumPy/JAX/pandas), but no obligation is counted as discharged because of them.

**Cost.**  30-120 s per property (quick), 8 processes; thorough gives each contract 420 s instead of 240 s of solver time and runs the runtime contracts at depth.

## 2. Why this reaches what the tests cannot

Each property quantifies over all dimensions, sizes, parameters, user functions or histories; the tests sample a handful.  A contract is proved for
symbolic dimension and arbitrary entries, so an error that needs `dim_x != dim_y`, a last chunk of another length, a parameter that is 0, an index far from the diagonal, a
second neighbourhood, or a particular history is a failing obligation without anyone having guessed the input.

## 3. Properties
'''
SEC = {
"C01": ("Block slicing, log-determinants and the sum of entropies for symbolic dx, dy, mean and covariance; rejection *iff* (wrong shapes, asymmetric, non-positive eigenvalue, dimensions < 1); rescaling invariance and non-negativity as lemmas over the proved formula; the bivariate sampler's formula and rejections; mean independence.", "closed form of the property", "none"),
"C02": ("Entropy formula and correction for symbolic dx, dy, df (gammaln/digamma opaque), df = inf branch, df/(df-2) covariance for every entry, refused iff df <= 2, invalid parameters rejected iff.", "closed form of the property", "none"),
"C03": ("All breakpoints and truncations symbolic (the series is a sum to a symbolic bound), sequences of m of symbolic length.", "closed forms documented in the classes", "none"),
"C04": ("Opaque base sampler, opaque maps (point-wise and batch), symbolic increments; concatenation over a symbolic number of opaque samplers (dimension sums, block offsets as sums over prefixes).", "the base sampler's own values", "short concatenations additionally unrolled"),
"C05": ("Each `sample` runs on symbolic n, seed or key; key terms are tracked by the jax shim (consume/split), giving: shapes, the documented joint draw entry by entry, keys pairwise distinct and derived from the seed only, integer seed = key, frames.", "documented generative models", "none"),
"C06": ("Entry (i, j) of every builder for symbolic sizes and weights, including loops that fill matrices; LVM covariance = mixing mixing^T (finite sums over the symbolic number of latent variables), unit diagonal, labels.", "docstring formulas", "none"),
"C07": ("Every factory and every transforming factory on arbitrary base tasks (opaque sampler, arbitrary identifier, name and parameter dictionary): the sampler's class and arguments, identifier and name as texts with symbolic values in them, parameters as maps, metadata, sampling, frames. Mixtures: proportions and components for a symbolic number of components. The assembled collection is a closed term and is evaluated completely.", "documented identifiers, names, parameters", "none"),
"C08": ("The formulas entry by entry on arrays of symbolic shape; strict monotonicity/injectivity as lemmas over the proved formulas (derivative-free order arguments, wiggly maps by |sin' | bounds); each transforming factory applies the map per coordinate.", "documented formulas", "none"),
"C09": ("Generator entries for all n, i, j with rejection iff; skew part; Spiral constructor and call for a symbolic matrix (expm opaque); norm preservation and inverse as lemmas over the call's contract.", "documented formulas", "none"),
"C10": ("Loop invariant of the bisection (bracket contains the solution, halves each step, both ends stay in the interval), exit condition gives the tolerance, a variant proves termination; arrays element-wise.", "intermediate value of an opaque monotone function", "none"),
"C11": ("PMI, mixture (1, 2, 3 and a symbolic number of components), transform, product, the Gaussian/Student primitives (each marginal is the block), Monte Carlo mean and standard error, wrapper memoisation and clamping.", "TFP densities as opaque symbols with TFP's documented combinators", "none"),
"C12": ("Fast (chunked; symbolic chunk size and number of points) and reference implementation both against the Kraskov formula, hence equal; counts strict and >= 0; rejections iff.", "Kraskov's formula", "lists of 1-3 neighbourhoods (each an arbitrary integer); data, sizes and chunks unbounded"),
"C13": ("Histogram functional over opaque counts with marginals as sums; KDE entropies per variable with the right estimator, defaults; CCA sum over the canonical pairs; mi from covariance.", "documented functionals", "none"),
"C14": ("Both backends for symbolic n and an opaque critic (all index structures), InfoNCE bound as a lemma, MINE value, gradient correction and carry, MLP input order.", "variational formulas", "MLP depth 0-3"),
"C15": ("TrainingLog as a state machine: one step from an arbitrary state (best value, counter, history) gives the early-stop lemma for every history; both loops by invariant with opaque training steps: number of records, test interval, stop right after triggering; flags of detect_warnings on symbolic histories.", "documentation", "none"),
"C16": ("Split, batch sampling, paired/unpaired, each estimator's wiring of objective, steps, batch, rate and seed; batch > train gives NaN + flag; estimate = estimate_with_info; parameters reported = used.", "documentation", "hidden layer lists of length 0-3"),
"C17": ("Composition read(save(x, y)) for symbolic n, dx, dy (column labels as terms, so ten or more columns are covered), dimensions, rejections iff.", "identity", "none"),
"C18": ("run_estimator for an arbitrary estimator (value, raising, in-memory and external), file, dictionary and identifiers; record, frames; dump/represent; Timer.", "documentation", "timers: up to four operations; nine kinds of exceptions"),
"C19": ("Each bridge: the argument list handed to the subprocess (option by option), the temporary file's contents, the number returned, failure and unparseable output raise, reported parameters.", "script interfaces", "none"),
"C20": ("ProductSpace, chunker (symbolic n and chunk size), add_noise; standardisation lemma (zero mean, unit variance); frames.", "documentation", "none"),
"C21": ("Both tables on an arbitrary result table (a symbolic number of rows; opaque columns; selections, group-bys, pivots and concatenations are relational terms: a cell is a pair of a presence condition and a finite sum over the rows): present iff there are such runs, the mean / fraction of exactly those, the True MI column, the caller's frame unmodified.", "the requested selection", "none; two recorded findings"),
}
_L = []
for _p in sorted(glob.glob('/verif/seeded/*/meta.json')):
    _d = json.load(open(_p))
    _L.append(f"* `{os.path.basename(os.path.dirname(_p))}` ({_d['property']}): {_d['what_it_breaks']}; needs {_d['needs']}. Caught by check {_d['property']}.")
TAIL = open('/verif/tools/design_tail.md').read().replace('SEEDED', '\n'.join(_L))
from importlib import import_module
from bmivc.shims import np_, jax_, pyd, misc, tfp, pandas_, io_
from bmivc import vc, trusted
for f in sorted(glob.glob('/verif/bmivc/contracts/c[0-9]*.py')):
    import_module('bmivc.contracts.' + os.path.basename(f)[:-3])
per = collections.defaultdict(list)
for c in vc.CONTRACTS:
    per[c['prop']].append(c.get('name') or c['fn'].__name__)
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
out = [HEAD]
sec21 = SEC.get("C21") or ("see below", "", "")
if os.path.exists('/verif/tools/design_c21.json'):
    SEC["C21"] = tuple(json.load(open('/verif/tools/design_c21.json')))
for p in props:
    i = p['id']
    if i not in SEC:
        SEC[i] = ("Runtime contracts only (bounded): seeded result tables against an independent aggregation.", "independent aggregation", "bounded check, never counted as proved")
    a, o, b = SEC[i]
    out.append(f"### {i} {p['title']}\n\n* Proved: {a}\n* Oracle: {o}.  Bounds: {b}.\n* Contracts ({len(per[i])}): {', '.join(per[i]) or '-'}.\n"
               + "".join(f"* Assumed: {t}.\n" for t in trusted.PER.get(i, [])))
out.append(TAIL)
open('/verif/DESIGN.md', 'w').write("\n".join(out))
