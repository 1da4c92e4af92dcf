"""Obligations, verdicts, evidence."""
import json
import os
import sys
import time
import hashlib
from .terms import *
from .front import AnalysisBroken, load_units
from . import front

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
UNKNOWN = {"opaque", "phiout", "clob", "getf", "maybe", "xcall"}
OK, BAD, UND = "holds", "violated", "undecided"


HARD = UNKNOWN - {"phiout"}


def unknown(t, ops=UNKNOWN):
    # the dimensions of a bare constant are not known either
    return any(x.op in ops or x.op in ("rows", "cols", "size") and len(x.args) == 1 and x.args[0].op in ("num", "ONES", "EYE")
               for x in subterms(t))


FRESH = mk("bv", "elem", sort="i")
FRESH2 = mk("bv", "elem2", sort="i")


def equal(a, b, vec=True):
    """True / False / None(undecided)"""
    if a is b:
        return True
    if a.sort == "m" or b.sort == "m":
        if elt(lift_m(a), FRESH) is elt(lift_m(b), FRESH):
            return True
        if elt(lift_m(a), FRESH, FRESH2) is elt(lift_m(b), FRESH, FRESH2):
            return True
    from .randterm import differ
    d = differ(a, b)
    if d is False:
        return True
    if d is None:
        return None
    if unknown(a, HARD) or unknown(b, HARD):
        return None
    # a loop's result that has no closed form: the difference must not hinge on it
    po = {x for t in (a, b) for x in subterms(t) if x.op == "phiout"}
    if any(x.sort == "o" for x in po):
        return None
    if po:
        for alt in (lambda x: ZERO, lambda x: ONE if x.sort != "m" else ONES,
                    lambda x: mk("init", mk("any", "exit", sort=x.sort), sort=x.sort)):
            mp = {x: alt(x) for x in po if x.sort in ("m", "s", "i")}
            if not differ(subst(a, mp), subst(b, mp)):
                return None
    return False


def lift_m(a):
    return a


class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        if tier == "thorough":
            from . import randterm
            randterm.SCALE = 8
        self.obs = []
        self.analysed = {"functions": set(), "loops": 0, "events": 0, "summaries": 0}
        self.units = {}
        self.assumptions = []
        self.counts = {}

    soft = False      # within rules that presume one shape of the code, where another rule decides whatever the shape

    def thorough(self):
        return self.tier == "thorough"

    def unit(self, name):
        if name not in self.units:
            p = os.environ.get("SA_PICKLE")
            if p and os.path.exists(os.path.join(p, name + ".pkl")):
                import pickle
                self.units[name] = pickle.load(open(os.path.join(p, name + ".pkl"), "rb"))
            else:
                self.units[name] = load_units([name])[0]
        return self.units[name]

    def saw(self, summary):
        a = self.analysed
        a["summaries"] += 1
        a["events"] += len(summary.events)
        a["loops"] += len(summary.loops)
        a["functions"].add(summary.func.qual)
        a["functions"] |= summary.interp.inlined
        for k, v in summary.interp.unknown.items():
            self.count("unmodelled " + str(k), v)
        return summary

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def ob(self, key, where, status, detail=""):
        if status is True:
            status = OK
        elif status is False:
            status = UND if self.soft else BAD
        elif status is None:
            status = UND
        self.obs.append((key, where or "", status, detail))
        return status == OK

    def same(self, key, where, got, want, what=""):
        """the term computed by the code equals the specified one"""
        r = equal(got, want) if got is not None else None
        d = ""
        if r is not True:
            d = "%s\n      code: %s\n      rule: %s" % (what, show(got, 9)[:1500] if got is not None else "?", show(want, 9)[:1500])
            x = first_diff(got, want) if got is not None and r is False else None
            if x:
                d += "\n      differ at: %s  vs  %s" % (show(x[0], 5)[:400], show(x[1], 5)[:400])
        return self.ob(key, where, r, d)

    def under(self, key, where, pre, got, want, what=""):
        """scalar or boolean terms are equal whenever `pre` holds"""
        if got is None:
            return self.ob(key, where, None, what)
        a, b = constrain(got, pre), constrain(want, pre)
        r = a is b
        if not r:
            e = eq(a, b) if a.sort != "b" else or_(and_(a, b), and_(not_(a), not_(b)))
            if unknown(a) or unknown(b):
                r = None
            else:
                from .randterm import implied
                r = True if e is TRUE else implied(pre, e, want=400)
        d = "" if r is True else "%s\n      code: %s\n      rule: %s" % (what, show(got, 9)[:1500], show(want, 9)[:1500])
        return self.ob(key, where, r, d)

    def at(self, key, where, got, want, cases, what="", mask=None, vals=None, funcs=None, n=2, loops=None):
        """matrix terms are equal (where the mask says so) at every given choice of dimensions"""
        from .dense import compare
        if got is None:
            return self.ob(key, where, None, what)
        if got is want:
            return self.ob(key, where, True, what)
        r, why = compare(got, want, cases, mask, n * (4 if self.thorough() else 1), vals, funcs, loops)
        return self.ob(key, where, r, "%s: %s\n      code: %s\n      rule: %s" % (what, why, show(got, 9)[:1200], show(want, 9)[:1200]))

    def holds(self, key, where, cond, what=""):
        """the boolean term is valid"""
        if cond is TRUE:
            r = True
        elif unknown(cond):
            r = None
        else:
            from .randterm import valid
            r = valid(cond)
        return self.ob(key, where, r, what if r is True else "%s\n      does not follow: %s" % (what, show(cond, 7)[:1500]))

    def implied(self, key, where, pc, cond, what=""):
        """whenever pc, cond"""
        c = constrain(cond, pc) if pc is not TRUE else cond
        if c is TRUE:
            r = True
        elif unknown(c):
            r = None
        else:
            from .randterm import implied
            r = implied(pc, c)
        return self.ob(key, where, r, what if r is True else "%s\n      does not follow: %s" % (what, show(c, 7)[:1500]))


def first_diff(a, b):
    """innermost differing pair, for reporting"""
    for _ in range(60):
        if a is b:
            return None
        ca, cb = list(children(a)), list(children(b))
        if a.op != b.op or len(ca) != len(cb) or [x for x in a.args if not isinstance(x, Term) and a.op != "sum"] != \
                [x for x in b.args if not isinstance(x, Term) and b.op != "sum"]:
            return a, b
        d = [(x, y) for x, y in zip(ca, cb) if x is not y]
        if len(d) != 1:
            return a, b
        a, b = d[0]
    return a, b


# -- known findings ------------------------------------------------------------


def known_findings():
    p = os.path.join(ROOT, "known_findings.txt")
    out = {}
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding:"):
                # finding: property=<id> key=<obligation key> | text
                head, _, text = line[8:].partition("|")
                kv = dict(x.split("=", 1) for x in head.split())
                out[(kv["property"], kv["key"])] = text.strip()
    return out


def finish(ctx, mod, t0, broken=None):
    pid = ctx.pid
    ev_dir = os.path.join(ROOT, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    kf = known_findings()
    bad, known = [], []
    for o in ctx.obs:
        if o[2] == BAD:
            t = kf.get((pid, o[0]))
            (known if t is not None else bad).append(o)
    und = [o for o in ctx.obs if o[2] == UND]
    ok = [o for o in ctx.obs if o[2] == OK]
    floor = getattr(mod, "FLOOR", 1)
    cov = {
        "explanation": "static obligations decided on /repo's current source: " + (mod.__doc__ or "").strip(),
        "obligations": len(ctx.obs), "holds": len(ok), "violated": len(bad) + len(known), "undecided": len(und),
        "distinct": sorted(set(o[0].split("/")[0] for o in ctx.obs)),
        "functions_analysed": len(ctx.analysed["functions"]),
        "functions": sorted(ctx.analysed["functions"])[:80],
        "loops": ctx.analysed["loops"], "events": ctx.analysed["events"],
        "summaries": ctx.analysed["summaries"],
        "units": sorted(ctx.units),
        "undecided_keys": [o[0] for o in und][:60],
    }
    cov.update(ctx.counts)
    ev = {"property": pid, "tier": ctx.tier, "seed": ctx.seed, "level": "other", "coverage": cov,
          "wall_s": round(time.time() - t0, 2)}
    if ctx.assumptions:
        ev["assumptions"] = ctx.assumptions
    rc = 0
    lines = []
    for o in known:
        lines.append("KNOWN-FINDING: property=%s %s: %s" % (pid, o[0], kf[(pid, o[0])]))
    seen = set()
    if bad:
        rc = 1
        rep = os.path.join(ev_dir, pid + ".violation.txt")
        with open(rep, "w") as f:
            f.write("property %s: %s\n" % (pid, getattr(mod, "TITLE", "")))
            for o in bad:
                f.write("\n- obligation %s\n  at %s\n  %s\n" % (o[0], o[1], o[3]))
        ev["violations"] = [{"obligation": o[0], "where": o[1], "detail": o[3][:600]} for o in bad]
        lines.append("VIOLATION property=%s replay=%s" % (pid, rep))
        for o in bad[:8]:
            lines.append("  %s  at %s\n    %s" % (o[0], o[1], o[3][:700]))
    elif broken or len(ok) < floor:
        rc = 2
        lines.append("BROKEN property=%s %s" % (pid, broken or "only %d of at least %d obligations could be decided" % (len(ok), floor)))
    with open(os.path.join(ev_dir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for o in und[:10]:
        lines.append("  undecided: %s at %s" % (o[0], o[1]))
    lines.append("%s %s: %d obligations, %d hold, %d violated, %d known, %d undecided (%d functions, %d loops, %d events) %.1fs" % (
        pid, "ok" if rc == 0 else "FAIL", len(ctx.obs), len(ok), len(bad), len(known), len(und),
        len(ctx.analysed["functions"]), ctx.analysed["loops"], ctx.analysed["events"], time.time() - t0))
    print("\n".join(lines))
    return rc
