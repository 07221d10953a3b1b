"""Bootstrap + property runner shared by every check in /verif.

A check module defines ``PROPERTY`` (id) and ``run(ctx)``; run() calls ``ctx.prop(...)`` once per
sub-property.  A *case* is always plain JSON data produced by a Hypothesis strategy; the decision
function receives the case and raises Violation when the property is broken on it.  That keeps every
random choice inside the library and makes a replay file (property, sub, case) self-contained:
``./check C01 --replay FILE`` calls the decision function directly, without Hypothesis.
"""
import collections
import copy
import hashlib
import json
import logging
import os
import signal
import sys
import time
import traceback
import types

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("VF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
_real_time = time.time
_perf = time.perf_counter

EXIT_OK, EXIT_VIOLATION, EXIT_ERROR = 0, 1, 3


def bootstrap():
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(1200)
    # the tree under test first, hypothesis (tool venv) last
    sys.path[:] = [p for p in sys.path if os.path.realpath(p or ".") != SRC]
    sys.path.insert(0, SRC)
    if HERE not in sys.path:
        sys.path.insert(1, HERE)
    tool = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    if tool not in sys.path:
        sys.path.append(tool)
    import keyimport_shim
    keyimport_shim.install()
    import fedservice
    got = os.path.realpath(fedservice.__file__)
    if not got.startswith(os.path.realpath(SRC) + os.sep):
        raise RuntimeError(f"testing the wrong tree: {got}")
    import importlib
    import pkgutil
    # everything is imported before the first virtual clock starts: it replaces module members
    for m in pkgutil.walk_packages(fedservice.__path__, "fedservice."):
        try:
            importlib.import_module(m.name)
        except Exception:
            pass  # whoever needs it will tell
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.simplefilter("ignore")


class Violation(AssertionError):
    """The property does not hold on this case. `sig` classifies the root cause."""

    def __init__(self, msg, sig=""):
        super().__init__(msg)
        self.msg = msg
        self.sig = sig or msg.split(":")[0]


class Hang(BaseException):
    """The processor time for one case is used up (a BaseException: the code under test can not swallow it)."""


CASE_SECONDS = 40   # of processor time; a case takes less than 2


def _on_hang(*_):
    raise Hang()


class Skip(Exception):
    """Case is outside the property's domain (counted, never a failure)."""


def require(cond, msg, sig=""):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, sig)


def frames_from_sut(err):
    """True if the exception passed through the tree under test (so the code under test, not the
    harness, raised it)."""
    src = os.path.realpath(SRC) + os.sep
    tb = err.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(src):
            return True
        tb = tb.tb_next
    return False


def shapeless(err):
    """True if the check tripped, in its own lines, over a member, an element or a value that is not in the product it judges
    (not: over a name the tree does not have, or inside a library)."""
    last = traceback.extract_tb(err.__traceback__)[-1]
    if os.path.dirname(os.path.realpath(last.filename)) not in (os.path.join(ROOT, "checks"), os.path.join(ROOT, "lib")):
        return False
    return isinstance(err, (KeyError, IndexError)) or (isinstance(err, (TypeError, AttributeError)) and "NoneType" in str(err))


class Outcome(object):
    """Result of calling the code under test: value or exception (never both)."""
    __slots__ = ("value", "err")

    def __init__(self, value=None, err=None):
        self.value, self.err = value, err

    @property
    def ok(self):
        return self.err is None

    def __repr__(self):
        if self.err is None:
            return f"value {self.value!r}"
        return f"exception {type(self.err).__name__}: {self.err}"


def attempt(fn, *args, **kwargs):
    """Call fn; any exception raised by the code under test becomes an Outcome with .err"""
    try:
        return Outcome(fn(*args, **kwargs))
    except RecursionError as err:
        return Outcome(err=err)
    except Violation:
        raise
    except Exception as err:
        if frames_from_sut(err):
            return Outcome(err=err)
        raise


def canon(v):
    return json.dumps(v, sort_keys=True, default=str)


class Ctx(object):
    def __init__(self, pid, tier, seed, level="exploration"):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.evaluations = 0
        self.skipped = 0
        self.nontrivial = set()
        self.labels = collections.Counter()
        self.samples = []
        self.sub_stats = collections.OrderedDict()
        self.violation = None  # (sub, case, Violation)
        self.t0 = _perf()
        self.rules = []
        self.assumptions = []
        self.known = []
        self.known_hits = collections.Counter()
        self._cur = None
        self._case = None
        self.deadline = None
        self.props = collections.OrderedDict()
        self.only = None
        self.scale = 1.0
        path = os.path.join(ROOT, "known_findings.json")
        if os.path.exists(path):
            with open(path) as fp:
                self.known = [k for k in json.load(fp)["findings"]
                              if k["property"] == pid and k.get("status") != "fixed"]

    # --- called from decision functions -------------------------------------------------
    def label(self, *names):
        for n in names:
            self.labels[f"{self._cur}/{n}"] += 1

    def nontriv(self, key=None):
        """Mark the present case as non-trivial (distinct by key or by its JSON)."""
        h = hashlib.sha1((self._cur + canon(self._case if key is None else key)).encode()).hexdigest()
        if h not in self.nontrivial:
            self.nontrivial.add(h)
            st = self.sub_stats[self._cur]
            st["nontrivial"] += 1
            if st["samples"] < 2 or (st["samples"] < 3 and st["nontrivial"] % 50 == 0):
                st["samples"] += 1
                s = {"sub": self._cur, "case": self._case}
                if len(canon(s)) > 4000:
                    s = {"sub": self._cur, "case_json_truncated": canon(self._case)[:3500]}
                self.samples.append(copy.deepcopy(s))

    # --- sub-properties -----------------------------------------------------------------
    def prop(self, name, strategy, fn, quick, thorough=None, rule="", known_pin=None):
        """Register sub-property `name`."""
        self.props[name] = (strategy, fn, quick, thorough or quick * 12, rule)
        if rule:
            self.rules.append(f"[{name}] {rule}")

    def _judge(self, name, fn, case):
        """Run fn on one case. Returns None or a Violation that is not a known finding."""
        self._cur, self._case = name, case
        signal.signal(signal.SIGPROF, _on_hang)
        signal.setitimer(signal.ITIMER_PROF, CASE_SECONDS, 1)
        try:
            fn(copy.deepcopy(case))
        except Skip:
            self.skipped += 1
            return None
        except Hang as err:
            signal.setitimer(signal.ITIMER_PROF, 0)
            if frames_from_sut(err):
                return self._filter(name, Violation(f"the code under test does not come to an end ({CASE_SECONDS} s of processor time)", "hang"))
            raise RuntimeError(f"{name}: a case takes too long") from err
        except Violation as v:
            return self._filter(name, v)
        except RecursionError as err:
            if frames_from_sut(err):
                return self._filter(name, Violation(f"unbounded recursion in the code under test",
                                                    "recursion"))
            raise
        except Exception as err:
            if frames_from_sut(err):
                last = traceback.extract_tb(err.__traceback__)[-1]
                v = Violation(f"unexpected {type(err).__name__} from the code under test: {err} "
                              f"({os.path.basename(last.filename)}:{last.name})",
                              f"unexpected-{type(err).__name__}")
                v.__cause__ = err
                return self._filter(name, v)
            if shapeless(err):
                last = traceback.extract_tb(err.__traceback__)[-1]
                v = Violation(f"what the code under test gave lacks what is looked for in it ({type(err).__name__}: {err}; {last.line})", "shape")
                v.__cause__ = err
                return self._filter(name, v)
            raise
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)
        return None

    def _filter(self, name, v):
        for k in self.known:
            if k["sub"] == name and k["sig"] == v.sig:
                self.known_hits[k["id"]] += 1
                return None
        return v

    def run_all(self):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings
        import hypothesis.internal.conjecture.engine as engine
        engine.MAX_SHRINKING_SECONDS = 45
        budget = 700 if self.tier == "quick" else 6 * 3600
        for name, (strategy, fn, quick, thorough, rule) in self.props.items():
            if self.only and name != self.only:
                continue
            n = quick if self.tier == "quick" else thorough
            n = max(1, int(n * self.scale))
            st = self.sub_stats[name] = {"evaluations": 0, "nontrivial": 0, "samples": 0,
                                         "skipped_budget": 0, "requested": n}
            t_start = _perf()
            self._replay_saved(name, fn)
            if self.violation:
                return
            last_fail = {}

            def test(case):
                if _perf() - self.t0 > budget:
                    st["skipped_budget"] += 1
                    return
                st["evaluations"] += 1
                self.evaluations += 1
                v = self._judge(name, fn, case)
                if v is not None:
                    last_fail["case"], last_fail["v"] = copy.deepcopy(case), v
                    raise v

            test.__name__ = f"{self.pid}_{name}"
            sseed = int(hashlib.sha1(f"{self.seed}:{self.pid}:{name}".encode()).hexdigest()[:12], 16)
            wrapped = hypothesis.seed(sseed)(settings(
                max_examples=n, deadline=None, database=None, report_multiple_bugs=False,
                phases=[Phase.explicit, Phase.generate] + ([] if os.environ.get("VF_NOSHRINK") else [Phase.shrink]),
                suppress_health_check=list(HealthCheck), print_blob=False,
                verbosity=hypothesis.Verbosity.quiet)(given(strategy)(test)))
            try:
                wrapped()
            except Violation as v:
                self.violation = (name, last_fail["case"], last_fail["v"])
            except Exception:
                if last_fail:
                    # e.g. Flaky: decide by running the captured case again, outside the library
                    again = self._judge(name, fn, last_fail["case"])
                    if again is not None:
                        self.violation = (name, last_fail["case"], again)
                    else:
                        raise
                else:
                    raise
            st["wall_s"] = round(_perf() - t_start, 2)
            if self.violation:
                return

    def _replay_saved(self, name, fn):
        d = os.path.join(ROOT, "replays", self.pid)
        if not os.path.isdir(d):
            return
        for f in sorted(os.listdir(d)):
            with open(os.path.join(d, f)) as fp:
                r = json.load(fp)
            if r["sub"] != name:
                continue
            self.sub_stats[name]["evaluations"] += 1
            self.evaluations += 1
            v = self._judge(name, fn, r["case"])
            if v is not None:
                self.violation = (name, r["case"], v)
                return

    def check_known(self):
        """Every listed finding is reproduced from its pinned case."""
        for k in self.known:
            if self.only and k["sub"] != self.only:
                continue
            _, fn, _, _, _ = self.props[k["sub"]]
            self.sub_stats.setdefault(k["sub"], {"evaluations": 0, "nontrivial": 0, "samples": 0})
            self._cur, self._case = k["sub"], k["case"]
            before = self.known_hits[k["id"]]
            v = self._judge(k["sub"], fn, k["case"])
            if self.known_hits[k["id"]] > before:
                print(f"KNOWN-FINDING: property={self.pid} {k['id']}: {k['what']}")
            elif v is not None:
                self.violation = (k["sub"], k["case"], v)

    def evidence(self):
        cov = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.nontrivial),
            "rule": " ".join(self.rules),
            "samples": self.samples[:24],
            "skipped_out_of_domain": self.skipped,
            "sub_properties": {k: {x: y for x, y in v.items() if x != "samples"}
                               for k, v in self.sub_stats.items()},
            "labels": dict(sorted(self.labels.items())),
            "known_finding_hits": dict(self.known_hits),
        }
        return {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
                "coverage": cov, "assumptions": self.assumptions,
                "wall_s": round(_perf() - self.t0, 2), "violations": 1 if self.violation else 0}


def main(pid, module, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    ctx = Ctx(pid, tier, seed)
    ctx.scale = float(os.environ.get("VF_SCALE", "1"))
    ctx.only = os.environ.get("VF_ONLY")
    ev_dir = os.environ.get("VF_EVIDENCE_DIR", os.path.join(ROOT, "evidence"))
    module.run(ctx)
    if argv and argv[0] == "--replay":
        with open(argv[1]) as fp:
            r = json.load(fp)
        fn = ctx.props[r["sub"]][1]
        ctx.sub_stats[r["sub"]] = {"evaluations": 0, "nontrivial": 0, "samples": 0}
        v = ctx._judge(r["sub"], fn, r["case"])
        if v is None:
            print(f"replay: property {pid} holds on {argv[1]} (or the failure is a known finding)")
            return EXIT_OK
        print(v.msg)
        print(f"VIOLATION property={pid} replay={argv[1]}")
        return EXIT_VIOLATION
    ctx.check_known()
    if not ctx.violation:
        ctx.run_all()
    os.makedirs(ev_dir, exist_ok=True)
    with open(os.path.join(ev_dir, f"{pid}.json"), "w") as fp:
        json.dump(ctx.evidence(), fp, indent=1, default=str)
    if ctx.violation:
        name, case, v = ctx.violation
        rdir = os.path.join(ev_dir, "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{pid}-{name}.json")
        with open(path, "w") as fp:
            json.dump({"property": pid, "sub": name, "case": case, "sig": v.sig, "what": v.msg},
                      fp, indent=1, default=str)
        print(f"[{pid}/{name}] {v.msg[:1500]}")
        print(f"minimal case: {canon(case)[:2000]}")
        print(f"VIOLATION property={pid} replay={path}")
        return EXIT_VIOLATION
    for name, st in ctx.sub_stats.items():
        print(f"[{pid}/{name}] held on {st['evaluations']} cases, {st['nontrivial']} distinct "
              f"non-trivial, {st.get('wall_s', 0)} s")
    if any(st.get("skipped_budget") for st in ctx.sub_stats.values()):
        print("note: time budget reached; remaining cases not run (inconclusive, not a violation)")
    return EXIT_OK
