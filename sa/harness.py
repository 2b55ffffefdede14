"""Runs one check: collects its obligations, decides, reports, writes evidence."""
import importlib
import json
import os
import re
import sys
import time
import traceback

from . import terms as tm
from .interp import Interp, Outcome
from .interp import PyRaise
from .terms import Undecided
from .vals import NotAnObject

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Abort(Exception):
    """The scenario cannot continue; its failed obligation has been recorded."""


DRIVERS = ("tensors.py", "bnn.py", "mcmc.py", "batch.py", "drive.py")


class Ctx(object):
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.obligations = []
        self.undecided = []
        self.interps = []
        self.scenarios = []
        self.cur = ""
        self.notes = []

    # ---------------------------------------------------------------- making

    def interp(self):
        I = Interp()
        self.interps.append(I)
        return I

    def points(self, n=24):
        return n * 8 if self.thorough else n

    # ------------------------------------------------------------ obligations

    def ob(self, rule, ok, detail="", construct=None, site=None):
        self.obligations.append({"rule": rule, "construct": construct or self.cur, "ok": bool(ok),
                                 "detail": str(detail)[:1500], "site": site, "scenario": self.cur})
        return bool(ok)

    def eq(self, rule, got, want, assume=(), points=24, construct=None, site=None, what=""):
        v = tm.equal(got, want, assume=assume, points=self.points(points))
        return self.ob(rule, v.ok, (what + ": " if what else "") + v.why, construct, site)

    def holds(self, rule, cond, assume=(), points=120, construct=None, site=None, what=""):
        """`cond` is true wherever the assumptions hold."""
        v = tm.equal(tm.term(cond), tm.TRUE, assume=assume, points=self.points(points))
        return self.ob(rule, v.ok, (what + ": " if what else "") + v.why, construct, site)

    def quiet(self, out, rule="no-unexpected-exception", assume=(), construct=None):
        """No exception can leave the analysed call."""
        bad = None
        for pc, e in out.raised:
            c = tm.and_(*(list(pc) + [tm.term(a) for a in assume]))
            if tm.satisfiable(c):
                bad = (c, e)
                break
        if bad:
            self.ob(rule, False, "%r can be raised at %s when %s" % (
                bad[1].exc, bad[1].site, tm.show(bad[0], 4)), construct, bad[1].site)
            return False
        return self.ob(rule, True, "", construct)

    def must(self, out, rule="no-unexpected-exception", assume=(), construct=None):
        """As quiet; the scenario ends when the call cannot return."""
        from .vals import UNBOUND
        self.quiet(out, rule, assume, construct)
        if out.value is UNBOUND:
            raise Abort()
        return out.value

    def scenario(self, name, f, *a, **k):
        self.cur = name
        self.scenarios.append(name)
        try:
            return f(*a, **k)
        except Abort:
            pass
        except PyRaise as e:
            self.ob("no-unexpected-exception", False, "%r raised at %s" % (e.exc, e.site), name, e.site)
        except Undecided as e:
            self.undecided.append((name, "%s%s" % (e, self.where())))
        except RecursionError:
            self.undecided.append((name, "recursion limit of the analysis" + self.where()))
        except Exception as e:
            frames = traceback.extract_tb(sys.exc_info()[2])
            tb = frames[-1]
            # a check asked for an object, and the analysed code gave a plain value instead
            if isinstance(e, NotAnObject) and isinstance(e.value, (type(None), bool, int, float, str)) and \
                    (os.sep + "checks" + os.sep in frames[-2].filename or os.path.basename(frames[-2].filename) in DRIVERS):
                self.ob("kind-of-result", False, "%r where an object is required" % (e.value,), name)
                return None
            if os.environ.get("SA_DEBUG"):
                traceback.print_exc()
            self.undecided.append((name, "internal %r (%s:%s)%s" % (e, os.path.basename(tb.filename), tb.lineno,
                                                                    self.where())))
        return None

    def where(self):
        return " [at %s]" % self.interps[-1].site if self.interps else ""


def known(pid):
    """KNOWN entries: 'finding: property=<id> rule=<rule> construct=<construct> :: text'."""
    out = []
    p = os.path.join(ROOT, "known_findings")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) rule=(\S+) construct=(.+?) :: (.*)$", line.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    ctx = Ctx(pid, tier, seed)
    mod = importlib.import_module("sa.checks." + pid.lower())
    try:
        mod.run(ctx)
    except Undecided as e:
        ctx.undecided.append((ctx.cur, str(e)))
    return finish(ctx, mod, time.time() - t0)


def finish(ctx, mod, wall):
    pid = ctx.pid
    kf = known(pid)
    bad, seen_known = [], []
    for o in ctx.obligations:
        if o["ok"]:
            continue
        k = next((x for x in kf if x[0] == o["rule"] and x[1] == o["construct"]), None)
        if k is not None:
            if k not in seen_known:
                seen_known.append(k)
        else:
            bad.append(o)
    floor = getattr(mod, "FLOOR", 1)
    if ctx.thorough:
        floor = getattr(mod, "FLOOR_THOROUGH", floor)
    funcs = sorted(set().union(*[i.analysed for i in ctx.interps])) if ctx.interps else []
    wanted = getattr(mod, "ANCHORS", [])
    missing = [a for a in wanted if a not in funcs]
    rules = {}
    for o in ctx.obligations:
        r = rules.setdefault(o["rule"], [0, 0])
        r[0] += 1
        r[1] += o["ok"]
    coverage = {
        "explanation": getattr(mod, "EXPLANATION", "") +
        " Abstract interpretation of the source read from the working tree in this run; every"
        " obligation is a rule applied to a dataflow value, an event or a path condition of the"
        " analysed functions listed here. No code of the repository is executed.",
        "obligations": len(ctx.obligations),
        "discharged": sum(o["ok"] for o in ctx.obligations),
        "rules": {r: {"instances": n, "discharged": k} for r, (n, k) in sorted(rules.items())},
        "scenarios": ctx.scenarios,
        "functions_analysed": funcs,
        "call_sites_interpreted": sum(i.callsites for i in ctx.interps),
        "graph_nodes": sum(len(i.graph.nodes) for i in ctx.interps),
        "events": sum(len(i.events) for i in ctx.interps),
        "value_comparisons": dict(tm.STATS),
        "undecided": ["%s: %s" % u for u in ctx.undecided],
    }
    ev = {"property": pid, "tier": ctx.tier, "seed": ctx.seed, "level": "other", "coverage": coverage,
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + COMMON, "wall_s": round(wall, 3),
          "violations": len(bad)}
    d = os.environ.get("SA_EVIDENCE") or os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s (%s): %d obligations, %d discharged, %d functions, %d call sites, %.1f s" % (
        pid, ctx.tier, len(ctx.obligations), coverage["discharged"], len(funcs),
        coverage["call_sites_interpreted"], wall))
    for k in seen_known:
        print("KNOWN-FINDING: property=%s %s (rule %s, %s)" % (pid, k[2], k[0], k[1]))
    if bad:
        rd = os.path.join(d, "replay")
        os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s.json" % pid)
        with open(path, "w") as f:
            json.dump({"property": pid, "violations": bad}, f, indent=1)
        shown = set()
        for o in bad:
            if (o["rule"], o["construct"]) in shown:
                continue
            shown.add((o["rule"], o["construct"]))
            if len(shown) <= 12:
                print("  rule %s violated by %s%s: %s" % (
                    o["rule"], o["construct"], " at " + o["site"] if o["site"] else "", o["detail"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    for u in ctx.undecided:
        print("UNDECIDED %s: %s" % u)
    if ctx.undecided:
        return 2
    if missing:
        print("ANALYSIS-BROKEN anchors not reached: %s" % ", ".join(missing))
        return 2
    if len(ctx.obligations) < floor:
        print("ANALYSIS-BROKEN only %d obligations (at least %d expected)" % (len(ctx.obligations), floor))
        return 2
    return 0


COMMON = [
    "the models of Python, numpy and TensorFlow operations in /verif/sa are faithful for the operations used",
    "arithmetic is over the reals: rounding and overflow are not modelled; two values are equal when they have the"
    " same value graph or agree at every sampled point of the interpretation of their free symbols",
]
