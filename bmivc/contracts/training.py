"""The two training loops under contract: callee contracts for TrainingLog, the objectives and the optimizer, and the loop invariant."""
import inspect

from .c14 import Critic
from .lib import *  # noqa: F401,F403
from ..shims import jax_, misc

N = "bmi.estimators.neural."


class C(Critic):
    """a critic: its parameters, an opaque value"""
    _sym_plain = True

    def _sym_apply(self, t):
        return C(t)

    def __sym_subst__(self, m):
        return C(tm.subst(self.t, m) if isinstance(m, dict) else m(self.t))


class Log:
    """contract of TrainingLog: it keeps what it is told; early stopping can only be triggered by a test value"""
    _sym_plain = True
    made = []

    def __init__(self, max_n_steps, early_stopping, train_smooth_factor=0.1, verbose=True, enable_tqdm=True,
                 train_history_in_additional_information=False, test_history_in_additional_information=True):
        self.max_n_steps, self.es_on = max_n_steps, early_stopping
        self.extra = (train_smooth_factor, train_history_in_additional_information, test_history_in_additional_information)
        self.calls, self.es = [], False
        Log.made.append(self)
        ENG.ghost.setdefault("logs", []).append(self)

    def log_train_mi(self, n_step, mi):
        self.calls.append(("train", n_step, mi))

    def log_test_mi(self, n_step, mi):
        self.calls.append(("test", n_step, mi))
        self.es = SV(and_(tobool(self.es_on), var(f"stop!{len(self.calls)}", "B")))

    def early_stop(self):
        return self.es

    def finish(self):
        self.calls.append(("finish",))

    final_mi = property(lambda self: SV(var("final_mi", "R")))
    additional_information = property(lambda self: {"info": "of the training"})


def modules(*names):
    """the modules with TrainingLog replaced by its contract"""
    loader.reset()
    tl = loader.load(N + "_training_log")
    sig = inspect.signature(tl.TrainingLog.__init__)
    if not {"max_n_steps", "early_stopping"} <= set(sig.parameters):
        raise Unsupported("TrainingLog is constructed differently")
    tl.TrainingLog = Log
    return [loader.load(N + n) for n in names]


class LoopContract:
    """invariant of the loop over the training steps: critic, optimizer state and carried denominator are those after k steps,
    early stopping has not been triggered; every step satisfies `step`"""

    def __init__(self, v, step, carry=False):
        self.v, self.step, self.carry = v, step, carry

    def __call__(self, loop, loc):
        self.loop = loop
        return self

    def find_log(self):
        logs = ENG.ghost.get("logs", [])
        if len(logs) != 1:
            raise Unsupported("not exactly one training log")
        return logs[0]

    def init(self, loc):
        log = self.find_log()
        self.v.check("nothing is logged before the first step", not log.calls, str(log.calls)[:200])
        self.counters = {}

    def havoc(self, k, loc):
        self.k = k
        out = {}
        self.carried = None
        for x in self.loop.names:
            w = loc.get(x, seq.UNB)
            if isinstance(w, C):
                out[x] = C(app("critic_after", k))
            elif isinstance(w, misc.OptState):
                out[x] = misc.OptState(app("state_after", k))
            elif w is seq.UNB:
                out[x] = seq.UNB
            elif sym.isnum(w) and t_(w) is tm.NINF and self.carry:
                out[x] = SV(app("denom_after", k))
                self.carried = x
            elif sym.isnum(w) and not isinstance(w, SArr) and t_(w).sort == "I":
                out[x] = SV(add(t_(w), k))       # a counter; checked at the end of the step
                self.counters[x] = t_(w)
            else:
                raise Unsupported(f"the loop carries {x}")
        log = self.find_log()
        log.calls, log.es = [], False
        ENG.ghost["steps"] = []
        ENG.ghost["mode"] = ("end" if k is self.loop.n else "step", k, self.loop.n)
        return out

    def state(self, loc, k1, ctx):
        cs = [x for x in loc.values() if isinstance(x, C)]
        for x, c0 in self.counters.items():
            if not solve.prove_eq(t_(loc[x]), add(c0, k1), ctx):
                raise Unsupported(f"the loop carries {x}")
        return {x: loc.get(x) for x in self.loop.names}

    def preserve(self, k1, loc):
        log = self.find_log()
        self.step(self.v, self, self.k, log, self.state(loc, k1, ENG.ctx), False, ENG.ctx)

    def broke(self, k, loc):
        log = self.find_log()
        for x, c0 in self.counters.items():
            if not any(solve.prove_eq(t_(loc[x]), add(c0, y), ENG.ctx) for y in (k, add(k, ONE))):
                raise Unsupported(f"the loop carries {x}")
        ENG.ghost["mode"] = ("broke", k, self.loop.n)
        self.step(self.v, self, k, log, {x: loc.get(x) for x in self.loop.names}, True, ENG.ctx)


def install(mod, fn, inv):
    """the invariant applies to the loops of one function (there is one)"""
    for q in range(1, 12):
        seq.INVARIANTS[f"{mod}:{fn}#{q}"] = inv
    seq.INVARIANTS[f"{mod}:{fn}"] = inv


def logging(v, k, log, every, broke, ctx):
    """C15: the records of one step"""
    trains = [c for c in log.calls if c[0] == "train"]
    tests = [c for c in log.calls if c[0] == "test"]
    v.check("one training record per step", len(trains) == 1, str(log.calls)[:300], ctx)
    for c in trains:
        v.prove_eq("step number of the training record", c[1], add(k, ONE), ctx)
    due = eq(app("imod", add(k, ONE), every.t, sort="I"), ZERO)
    v.check("at most one test record per step", len(tests) <= 1, str(log.calls)[:300], ctx)
    v.prove("a test evaluation exactly every test interval", due if tests else not_(due), ctx)
    for c in tests:
        v.prove_eq("step number of the test record", c[1], add(k, ONE), ctx)
    v.check("not finished during the training", not [c for c in log.calls if c[0] == "finish"], "", ctx)
    stop = tobool(log.es)
    if broke:
        v.prove("training ends only when early stopping triggers", stop, ctx)
    else:
        v.prove("training ends right after the step at which early stopping triggers", not_(stop), ctx)


def ending(v, p, log_returned, critic, steps):
    """C15: what the training function returns"""
    logs = p.ghost.get("logs", [])
    v.check("one training log, returned", len(logs) == 1 and log_returned is logs[0], "", p)
    if len(logs) != 1:
        return
    log = logs[0]
    v.check("the log is finished once, at the end", [c[0] for c in log.calls].count("finish") == 1 and log.calls[-1][0] == "finish", str(log.calls)[:200], p)
    mode, k, n = p.ghost["mode"]
    if mode == "end":
        v.prove_eq("number of steps without early stopping", n, steps, p)
        v.check("nothing is logged after the last step", len(log.calls) == 1, str(log.calls)[:200], p)
        v.prove_eq("the critic after the last step is returned", seq.vterm(critic), app("critic_after", n), p)
