"""Hash-consed value terms with a canonical form.

The analyses compare *values*, never source text: two expressions denote the
same term when they are equal as (non-commutative in matrices) polynomials over
atoms, up to boolean equivalence of the guards, view algebra, min/max, and
closed forms of counted loops.  Real-number algebra is assumed (rounding order
is not tracked).
"""
from fractions import Fraction
import sys

_table = {}
_next = [0]


class Term:
    __slots__ = ("op", "args", "sort", "id", "_opq", "_hash")

    def __repr__(self):
        return show(self)

    def __hash__(self):            # not the address: iteration orders must be reproducible
        return self.id

    # arithmetic sugar for rule authors
    def __add__(self, o): return add(self, lift(o))
    def __radd__(self, o): return add(lift(o), self)
    def __sub__(self, o): return add(self, neg(lift(o)))
    def __rsub__(self, o): return add(lift(o), neg(self))
    def __mul__(self, o): return mul(self, lift(o))
    def __rmul__(self, o): return mul(lift(o), self)
    def __matmul__(self, o): return mul(self, lift(o))
    def __truediv__(self, o): return mul(self, inv(lift(o)))
    def __rtruediv__(self, o): return mul(lift(o), inv(self))
    def __neg__(self): return neg(self)
    @property
    def T(self): return transpose(self)


def mk(op, *args, sort="o"):
    key = (op, args, sort)
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op, t.args, t.sort = op, args, sort
        t.id = _next[0]
        _next[0] += 1
        t._opq = None
        _table[key] = t
    return t


def lift(x):
    if isinstance(x, Term):
        return x
    if isinstance(x, bool):
        return TRUE if x else FALSE
    return num(x)


def q(x):
    """exact coefficient: int when integral (cheaper than Fraction)"""
    if type(x) is int:
        return x
    return x.numerator if x.denominator == 1 else x


def num(x):
    if type(x) is not int:
        if isinstance(x, float):
            x = Fraction(repr(x))
        elif not isinstance(x, Fraction):
            x = Fraction(x)
        x = q(x)
    return mk("num", x, sort="s")


TRUE = mk("true", sort="b")
FALSE = mk("false", sort="b")
ZERO = num(0)
ONE = num(1)
ONES = mk("ONES", sort="m")
EYE = mk("EYE", sort="m")
NULL = mk("null")
INF = mk("inf", sort="s")
EMPTY = mk("emptyvec")

LIFT_CAP = 400


def is_num(t): return t.op == "num"


def isint(t):
    if t.op == "num":
        return t.args[0].denominator == 1
    if t.sort == "i":
        return True
    return False


# ---------------------------------------------------------------------------
# ite / BDD
_memo_ite = {}


def top_atom(t):
    if t.op == "ite":
        return t.args[0]
    if t.sort == "b" and t.op not in ("true", "false"):
        return t
    return None


def hi_lo(t, v, facts=None):
    """cofactors of t by atom v (top-level)."""
    if t.op == "ite" and t.args[0] is v:
        return t.args[1], t.args[2]
    if t is v:
        return TRUE, FALSE
    return t, t


def reduce_(v, hi, lo):
    if hi is lo:
        return hi
    if hi is TRUE and lo is FALSE:
        return v
    if v.op == "lt0" and hi.sort in "si" and lo.sort in "si" and hi.op != "ite" and lo.op != "ite" and hi.op not in ("inf",) and lo.op != "inf":
        d = v.args[0]
        diff = add(hi, neg(lo))
        r = proportional(diff, d)
        if r is not None and r != 0 and not common_part(hi, lo):
            return maxmin("max" if r < 0 else "min", [hi, lo])
    s = hi.sort if hi.sort == lo.sort else ("m" if "m" in (hi.sort, lo.sort) else
                                            "s" if set((hi.sort, lo.sort)) <= set("si") else "o")
    return mk("ite", v, hi, lo, sort=s)


def common_part(a, b):
    """a and b share a term that is not a constant: a step x -> x + d, not a clamp"""
    if a.op != "sum" and b.op != "sum":
        return False
    return bool(set((c, s, m) for c, s, m in monos(a) if s or m) & set((c, s, m) for c, s, m in monos(b) if s or m))


def proportional(a, b):
    """r with a == r*b, or None"""
    ma, mb = monos(a), monos(b)
    if ma is None or mb is None or len(ma) != len(mb) or not mb:
        return None
    da = {(s, m): c for c, s, m in ma}
    r = None
    for c, s, m in mb:
        if (s, m) not in da:
            return None
        qq = Fraction(da[(s, m)]) / c
        if r is None:
            r = qq
        elif r != qq:
            return None
    return r


_memo_impl = {}


def implied(atom, val, other):
    key = (atom, val, other)
    r = _memo_impl.get(key, 0)
    if r == 0 and r is not False:
        r = _implied(atom, val, other)
        _memo_impl[key] = r
    return r


def _implied(atom, val, other):
    """value of boolean atom `other` when `atom` has value `val`, or None"""
    if other is atom:
        return val
    if atom.op in ("lt0", "eq0") and other.op in ("lt0", "eq0"):
        d, e = atom.args[0], other.args[0]
        for s in (1, -1):
            k = add(e, neg(d) if s == 1 else d)
            if k.op != "num":
                continue
            k = k.args[0]     # e = s*d + k
            isi = isint(d)
            # interval knowledge on d
            if atom.op == "eq0":
                if val:
                    v = k
                    return (v < 0) if other.op == "lt0" else (v == 0)
                return None if not (other.op == "eq0" and k == 0) else False
            # lt0
            if val:            # d < 0
                ub = -1 if isi else 0   # d <= -1 or d < 0
                strict = not isi
                if s == 1:     # e < k (or <= k-1)
                    lim = ub + k
                    if other.op == "lt0":
                        if lim < 0 or (lim == 0 and strict):
                            return True
                    else:
                        if lim < 0 or (lim == 0 and strict):
                            return False
                else:          # e > k
                    lim = k - ub
                    if lim > 0 or (lim == 0):
                        if other.op == "lt0":
                            return False
                        if lim > 0 or strict:
                            return False
            else:              # d >= 0
                if s == 1:     # e >= k
                    if other.op == "lt0" and k >= 0:
                        return False
                    if other.op == "eq0" and k > 0:
                        return False
                else:          # e <= k
                    if other.op == "lt0" and k < 0:
                        return True
                    if other.op == "eq0" and k < 0:
                        return False
    return None


_memo_restr = {}


def restrict(t, atom, val):
    """simplify t knowing atom == val"""
    if t.op == "ite":
        key = (t, atom, val)
        r = _memo_restr.get(key)
        if r is not None:
            return r
        v = t.args[0]
        iv = implied(atom, val, v)
        if iv is True:
            r = restrict(t.args[1], atom, val)
        elif iv is False:
            r = restrict(t.args[2], atom, val)
        else:
            r = reduce_(v, restrict(t.args[1], atom, val), restrict(t.args[2], atom, val))
        _memo_restr[key] = r
        return r
    if t.sort == "b" and t.op not in ("true", "false"):
        iv = implied(atom, val, t)
        if iv is not None:
            return TRUE if iv else FALSE
    return t


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    key = (c, a, b)
    r = _memo_ite.get(key)
    if r is not None:
        return r
    v = None
    for t in (c, a, b):
        x = top_atom(t)
        if x is not None and (v is None or x.id < v.id):
            v = x
    c1, a1, b1 = restrict(c, v, True), restrict(a, v, True), restrict(b, v, True)
    c0, a0, b0 = restrict(c, v, False), restrict(a, v, False), restrict(b, v, False)
    r = reduce_(v, ite(c1, a1, b1), ite(c0, a0, b0))
    _memo_ite[key] = r
    return r


def not_(a): return ite(a, FALSE, TRUE)
def and_(*xs):
    r = TRUE
    for x in xs:
        r = ite(r, x, FALSE)
    return r
def or_(*xs):
    r = FALSE
    for x in xs:
        r = ite(r, TRUE, x)
    return r


def implies(a, b):
    return ite(a, b, TRUE) is TRUE


def constrain(f, c):
    """generalised cofactor: simplify f using that c holds"""
    if c is TRUE or c is FALSE or f.op in ("true", "false"):
        return f
    if top_atom(f) is None:
        return f
    key = (f, c)
    r = _memo_con.get(key)
    if r is None:
        r = _memo_con[key] = _constrain(f, c)
    return r


_memo_con = {}


def _constrain(f, c):
    v = None
    for t in (f, c):
        x = top_atom(t)
        if x is not None and (v is None or x.id < v.id):
            v = x
    c1, c0 = restrict(c, v, True), restrict(c, v, False)
    f1, f0 = restrict(f, v, True), restrict(f, v, False)
    if c1 is FALSE:
        return constrain(f0, c0)
    if c0 is FALSE:
        return constrain(f1, c1)
    return reduce_(v, constrain(f1, c1), constrain(f0, c0))


def forced(c):
    """{atom: value} for the atoms c decides on its own"""
    out = {}
    while c.op == "ite":
        a, h, l = c.args
        if l is FALSE:
            out[a] = TRUE
            c = h
        elif h is FALSE:
            out[a] = FALSE
            c = l
        else:
            break
    if c.sort == "b" and c.op not in ("true", "false", "ite"):
        out[c] = TRUE
    return out


_memo_under = {}


def under(f, c):
    """f simplified under the assumption c, also inside operands"""
    if c is TRUE or c is FALSE or f.op in ("true", "false"):
        return f
    key = (f, c)
    r = _memo_under.get(key)
    if r is None:
        r = constrain(f, c)
        fm = forced(c)
        if fm:
            subs = subterms(r)
            fm = {a: v for a, v in fm.items() if a in subs}
            if fm:
                r = subst(r, fm)
        _memo_under[key] = r
    return r


def size_ite(t, cap=LIFT_CAP):
    seen = set()
    st = [t]
    while st and len(seen) <= cap:
        x = st.pop()
        if x in seen or x.op != "ite":
            continue
        seen.add(x)
        st.append(x.args[1])
        st.append(x.args[2])
    return len(seen)


def map_leaves(t, fn):
    """apply fn to the leaves of a decision diagram"""
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            if x.op == "ite":
                r = reduce_(x.args[0], go(x.args[1]), go(x.args[2]))
            else:
                r = fn(x)
            memo[x] = r
        return r
    return go(t)


def lift2(f, a, b):
    """apply binary f through guards of a and b; guard order kept"""
    memo = {}

    def go(a, b):
        va = a.args[0] if a.op == "ite" else None
        vb = b.args[0] if b.op == "ite" else None
        if va is None and vb is None:
            return f(a, b)
        r = memo.get((a, b))
        if r is None:
            v = va if (vb is None or (va is not None and va.id <= vb.id)) else vb
            r = reduce_(v, go(restrict(a, v, True), restrict(b, v, True)),
                        go(restrict(a, v, False), restrict(b, v, False)))
            memo[(a, b)] = r
        return r
    return go(a, b)


def leaves(t):
    out, st, seen = [], [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "ite":
            st += [x.args[1], x.args[2]]
        else:
            out.append(x)
    return out


# ---------------------------------------------------------------------------
# polynomials


def monos(t):
    """list of (coeff, scal, mats)"""
    if t.op == "num":
        return [] if t.args[0] == 0 else [(t.args[0], (), ())]
    if t.op == "sum":
        return list(t.args[0])
    if t.op == "mprod":
        return [(1, (), t.args)]
    if t.sort == "m":
        return [(1, (), (t,))]
    return [(1, ((t, 1),), ())]


def mono_key(m):
    return (tuple(x.id for x in m[2]), tuple((x.id, e) for x, e in m[1]))


def from_monos(ms):
    acc = {}
    for c, s, m in ms:
        k = (s, m)
        acc[k] = acc[k] + c if k in acc else c
    items = [(q(c), s, m) for (s, m), c in acc.items() if c != 0]
    if not items:
        return ZERO
    items.sort(key=mono_key)
    if len(items) == 1:
        c, s, m = items[0]
        if not s and not m:
            return num(c)
        if c == 1 and not m and len(s) == 1 and s[0][1] == 1:
            return s[0][0]
        if c == 1 and not s and len(m) == 1:
            return m[0]
        if c == 1 and not s and len(m) > 1:
            return mk("mprod", *m, sort="m")
    anym = any(m for _, _, m in items)
    if anym:
        so = "m"
    else:
        so = "i" if all(c.denominator == 1 and all(x.sort == "i" and e > 0 for x, e in s)
                        for c, s, m in items) else "s"
    return mk("sum", tuple(items), sort=so)


def add(a, b):
    if (a.op == "ite" or b.op == "ite") and a.sort != "b" and b.sort != "b":
        if size_ite(a) * size_ite(b) <= LIFT_CAP or a.op != "ite" or b.op != "ite":
            return lift2(add, a, b)
    return from_monos(monos(boolnum(a)) + monos(boolnum(b)))


def boolnum(a):
    if a.sort == "b":
        if a is TRUE:
            return ONE
        if a is FALSE:
            return ZERO
        return mk("b2n", a, sort="i")
    return a


def neg(a):
    if a.op == "ite":
        return map_leaves(a, neg)
    return from_monos([(-c, s, m) for c, s, m in monos(boolnum(a))])


def _smul(s1, s2):
    d = {}
    for x, e in s1 + s2:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e != 0), key=lambda p: p[0].id))


def _mats(m1, m2):
    r = list(m1) + list(m2)
    if len(r) > 1:
        r2 = [x for x in r if x is not EYE]
        r = r2 if r2 else [EYE]
    return tuple(r)


def mul(a, b):
    if a.op == "ite" or b.op == "ite":
        return lift2(mul, a, b)
    a, b = boolnum(a), boolnum(b)
    out = []
    for c1, s1, m1 in monos(a):
        for c2, s2, m2 in monos(b):
            out.append((c1 * c2, _smul(s1, s2), _mats(m1, m2)))
    return from_monos(out)


def inv(a):
    if a.op == "ite":
        return map_leaves(a, inv)
    ms = monos(a)
    if len(ms) == 1 and not ms[0][2]:
        c, s, m = ms[0]
        return from_monos([(q(Fraction(1) / c), tuple((x, -e) for x, e in s), ())])
    if not ms:
        return mk("div0", sort="s")
    if a.sort == "m":
        return mk("minv", a, sort="m")
    # pull leading coefficient out
    c = ms[0][0]
    n = from_monos([(q(Fraction(k) / c), s, m) for k, s, m in ms])
    return from_monos([(q(Fraction(1) / c), ((n, -1),), ())])


def transpose(a):
    if a.op == "ite":
        return map_leaves(a, transpose)
    if a.sort != "m" and a.op != "sum":
        return a

    def t1(x):
        if x.op == "T":
            return x.args[0]
        if x in (ONES, EYE):
            return x
        if x.op == "blk":
            v, r, c, nr, nc = x.args
            return mk("blk", transpose(v), c, r, nc, nr, sort="m")
        if x.op == "asdiag":
            return x
        return mk("T", x, sort="m")
    return from_monos([(c, s, tuple(t1(x) for x in reversed(m))) for c, s, m in monos(a)])


def bilinear(op, a, b, sym, sort):
    if a.op == "ite" or b.op == "ite":
        return lift2(lambda x, y: bilinear(op, x, y, sym, sort), a, b)
    out = []
    for c1, s1, m1 in monos(a):
        for c2, s2, m2 in monos(b):
            x = from_monos([(1, (), m1)])
            y = from_monos([(1, (), m2)])
            if sym and y.id < x.id:
                x, y = y, x
            if op == "had" and x is ONES:
                at = y
            elif op == "had" and y is ONES:
                at = x
            else:
                at = mk(op, x, y, sort=sort)
            sm = _smul(s1, s2)
            if at.sort == "m":
                out.append((c1 * c2, sm, (at,)))
            else:
                out.append((c1 * c2, _smul(sm, ((at, 1),)), ()))
    return from_monos(out)


def dot(a, b): return bilinear("dot", a, b, True, "s")
def had(a, b): return bilinear("had", a, b, True, "m")


def canon_sign(x):
    ms = monos(x)
    return neg(x) if ms and ms[0][0] < 0 else x


def infnorm(x):
    if x.op == "ite":
        return map_leaves(x, infnorm)
    if x is ZERO:
        return ZERO
    return mk("call", "infnorm", canon_sign(x), sort="s")


def maxmin(op, xs):
    flat = []
    for x in xs:
        if x.op == op:
            flat += list(x.args)
        else:
            flat.append(x)
    for i, x in enumerate(flat):
        if x.op == "ite" and size_ite(x) < 32:
            return map_leaves(x, lambda l: maxmin(op, flat[:i] + [l] + flat[i + 1:]))
    consts = [x.args[0] for x in flat if x.op == "num"]
    rest = sorted(set(x for x in flat if x.op != "num"), key=lambda t: t.id)
    if consts:
        c = max(consts) if op == "max" else min(consts)
        rest = rest + [num(c)]
    if len(rest) == 1:
        return rest[0]
    so = "m" if any(x.sort == "m" for x in rest) else "i" if all(isint(x) for x in rest) else "s"
    return mk(op, *rest, sort=so)


# comparisons --------------------------------------------------------------


def sign_of_counters(d):
    """+1 / -1 if an affine combination of loop counters (never negative) is positive / negative throughout,
    +2 / -2 if it is at least / at most zero, else 0"""
    lo = hi = True
    c0 = 0
    for c, s, m in monos(d):
        if m:
            return 0
        if not s:
            c0 = c
            continue
        if any(x.op != "bv" or x.args[0] == "acc" or p < 1 for x, p in s):
            return 0
        if c < 0:
            lo = False
        else:
            hi = False
    if lo and c0 >= 0:
        return 1 if c0 > 0 else 2
    if hi and c0 <= 0:
        return -1 if c0 < 0 else -2
    return 0



def _norm(d):
    """scale so that the leading (non-constant) coefficient is +-1"""
    ms = monos(d)
    lead = None
    for m in ms:
        if m[1] or m[2]:
            lead = m
            break
    c = abs(lead[0])
    if isint(d) and all(m[0].denominator == 1 for m in ms):
        # divide by gcd only
        from math import gcd
        g = 0
        for m in ms:
            g = gcd(g, int(m[0]))
        c = g
    return from_monos([(q(Fraction(k) / c), s, m) for k, s, m in ms]), lead[0] > 0


def lt(a, b):
    if a.op == "ite" or b.op == "ite":
        return lift2(lt, a, b)
    if a.sort in "ob" or b.sort in "ob":
        if a.sort == "b":
            a = boolnum(a)
        if b.sort == "b":
            b = boolnum(b)
    if INF in (a, b):
        if a is b:
            return FALSE
        return mk("ltinf", a, b, sort="b")
    d = add(a, neg(b))
    if d.op == "ite":
        return map_leaves(d, lambda l: lt(l, ZERO))
    if d.op == "num":
        return TRUE if d.args[0] < 0 else FALSE
    isi = isint(d)
    if isi:
        g = sign_of_counters(d)
        if g:
            if g > 0:
                return FALSE
            if g == -1:
                return TRUE
    for c, sm, mm in monos(d):
        if not mm and len(sm) == 1 and sm[0][1] == 1 and sm[0][0].op in ("max", "min") and sm[0][0].sort in "si":
            m = sm[0][0]
            rest = add(d, neg(mul(num(c), m)))
            # the order against the largest (smallest) of several values is the order against each of them
            parts = [lt(add(rest, mul(num(c), x)), ZERO) for x in m.args]
            r = parts[0]
            for x in parts[1:]:
                r = and_(r, x) if (m.op == "max") == (c > 0) else or_(r, x)
            return r
    n, pos = _norm(d)
    if isi and not pos:
        # d < 0  <=>  !( -d-1 < 0 )
        return not_(mk("lt0", add(neg(n), num(-1)), sort="b"))
    return mk("lt0", n, sort="b")


def le(a, b): return not_(lt(b, a))
def gt(a, b): return lt(b, a)
def ge(a, b): return not_(lt(a, b))


ENUM2 = set()       # data members with exactly the two values 0 and 1 (filled by the interpreter)


def enum2(a):
    c = a.args[-1] if a.op in ("init", "phi", "phiout") else None
    return isinstance(c, Term) and c.op == "fld" and c.args[1] in ENUM2


def eq(a, b):
    if a is b:
        return TRUE
    if ENUM2:
        for x, y in ((a, b), (b, a)):
            if y is ONE and enum2(x):
                return not_(eq(x, ZERO))
    if a.op == "ite" or b.op == "ite":
        return lift2(eq, a, b)
    if a.sort == "b" and b.sort == "b":
        return ite(a, b, not_(b))
    if a.sort == "b" and b.op == "num":
        return a if b.args[0] == 1 else not_(a) if b.args[0] == 0 else FALSE
    if b.sort == "b" and a.op == "num":
        return eq(b, a)
    if "o" in (a.sort, b.sort) or INF in (a, b):
        if a.id > b.id:
            a, b = b, a
        if {a.op, b.op} <= {"str", "null", "fn"}:
            return FALSE
        if a is NULL and b.op == "addr" or b is NULL and a.op == "addr":
            return FALSE
        return mk("eqo", a, b, sort="b")
    d = add(a, neg(b))
    if d.op == "num":
        return TRUE if d.args[0] == 0 else FALSE
    if d.op == "sum" and len(d.args[0]) == 2 and d.sort == "i":
        (c1, s1, m1), (c2, s2, m2) = d.args[0]
        if c1 + c2 == 0 and not m1 and not m2 and len(s1) == 1 == len(s2) and s1[0][0].op == "enumc" and s2[0][0].op == "enumc":
            return FALSE                # enumerators of one library enumeration, by name
    if isint(d) and sign_of_counters(d) in (1, -1):
        return FALSE
    n, pos = _norm(d)
    return mk("eq0", n if pos else neg(n), sort="b")


def ne(a, b): return not_(eq(a, b))


# views ---------------------------------------------------------------------
SIZE_HOOK = [None]


def size(v):
    """number of coefficients / elements"""
    h = SIZE_HOOK[0]
    if h is not None:
        r = h("size", v)
        if r is not None:
            return r
    if v.op == "seg":
        return v.args[2]
    if v.op in ("upd",):
        return size(v.args[0])
    if v.op == "blk":
        return mul(v.args[3], v.args[4])
    if v.op == "diagv":
        return rows(v.args[0])
    if v.op == "comp":
        return v.args[0]
    if v is EMPTY:
        return ZERO
    if v.op == "call" and v.args[0] == "resize" and len(v.args) == 3:
        return v.args[2]
    if v.op == "cat":
        return add(size(v.args[0]), size(v.args[1]))
    if v.op == "app":
        return add(size(v.args[0]), ONE)
    if v.op in ("list", "veclit"):
        return num(len(v.args))
    if v.op == "ite":
        return map_leaves(v, size)
    if v.op == "updn":
        return size(v.args[3])
    if v.op == "T":
        return size(v.args[0])
    if v.op in ("sum", "mprod"):
        m = monos(v)[0][2]
        if len(m) == 1:
            return size(m[0])
        if len(m) > 1 and m[-1].op != "T":
            # matrix * vector: number of rows of the first factor
            return rows(m[0]) if isvec(m[-1]) else mk("size", v, sort="i")
    if v.op == "sized":
        return v.args[1]
    if v.op == "sized2":
        return mul(v.args[1], v.args[2])
    if v.op in ("phi", "phiout") and _entry(v) is not None:
        return size(_entry(v))
    return mk("size", v, sort="i")


def isvec(v):
    return v.op in ("seg", "diagv")


PHIDIM = {}        # (loop, cell) -> value at entry, when no round changes the dimensions


def _entry(v):
    return PHIDIM.get((v.args[0], v.args[1])) if v.op in ("phi", "phiout") else None


def rows(v):
    h = SIZE_HOOK[0]
    if h is not None:
        r = h("rows", v)
        if r is not None:
            return r
    if v.op == "blk":
        return v.args[3]
    if v.op == "seg":
        return v.args[2]
    if v.op in ("sized", "sized2"):
        return v.args[1]
    if v.op == "upd":
        return rows(v.args[0])
    if v.op == "updn":
        return rows(v.args[3])
    if v.op == "T":
        return cols(v.args[0])
    if v.op in ("tri", "symm"):
        return rows(v.args[1])
    if v.op == "ite":
        return map_leaves(v, rows)
    if v.op == "sum":
        return rows(from_monos([(1, (), monos(v)[0][2])]))
    if v.op == "mprod":
        return rows(v.args[0])
    if v.op in ("phi", "phiout") and _entry(v) is not None:
        return rows(_entry(v))
    return mk("rows", v, sort="i")


def cols(v):
    h = SIZE_HOOK[0]
    if h is not None:
        r = h("cols", v)
        if r is not None:
            return r
    if v.op == "blk":
        return v.args[4]
    if v.op in ("seg", "diagv"):
        return ONE
    if v.op == "sized2":
        return v.args[2]
    if v.op == "upd":
        return cols(v.args[0])
    if v.op == "updn":
        return cols(v.args[3])
    if v.op == "T":
        return rows(v.args[0])
    if v.op in ("tri", "symm"):
        return cols(v.args[1])
    if v.op == "ite":
        return map_leaves(v, cols)
    if v.op == "sum":
        return cols(from_monos([(1, (), monos(v)[0][2])]))
    if v.op == "mprod":
        return cols(v.args[-1])
    if v.op in ("phi", "phiout") and _entry(v) is not None:
        return cols(_entry(v))
    return mk("cols", v, sort="i")


def _lin(v, f):
    """apply f to each single-matrix monomial; None if not linear-friendly"""
    ms = monos(v)
    out = []
    for c, s, m in ms:
        if len(m) != 1:
            return None
        x = f(m[0])
        for c2, s2, m2 in monos(x):
            out.append((c * c2, _smul(s, s2), m2))
    return from_monos(out)


def nonneg(t):
    """t is a sum of nonnegative terms (sizes), syntactically"""
    for c, s, m in monos(t):
        if c < 0:
            return False
        for x, e in s:
            if not is_sizeatom(x):
                return False
    return True


def is_sizeatom(x):
    return x.sort == "i" or x.op in ("size", "rows", "cols")


def disjoint(o1, n1, o2, n2):
    a = add(o2, neg(add(o1, n1)))
    if nonneg(a):
        return True
    b = add(o1, neg(add(o2, n2)))
    return nonneg(b)


def has_bv(t):
    return any(x.op == "bv" for x in subterms(t))


def seg(v, off, n):
    if off.op == "ite" or n.op == "ite":
        return lift2(lambda o, k: seg(v, o, k), off, n)
    if v.op == "ite":
        return map_leaves(v, lambda x: seg(x, off, n))
    if v is ONES or v.op == "num":
        return v
    if v.op == "sum":
        r = _lin(v, lambda x: seg(x, off, n))
        if r is not None:
            return r
    if v.op == "seg":
        return seg(v.args[0], add(v.args[1], off), n)
    if v.op == "upd" and v.args[1].op == "vseg":
        o2, n2 = v.args[1].args
        if o2 is off and n2 is n:
            return v.args[2]
        if disjoint(off, n, o2, n2):
            return seg(v.args[0], off, n)
        # contained
        d = add(off, neg(o2))
        e = add(add(o2, n2), neg(add(off, n)))
        if nonneg(d) and nonneg(e):
            return seg(v.args[2], d, n)
    if v.op == "updn":
        r = nth_view(v, mk("vseg", off, n))
        if r is not None:
            return r
    if off is ZERO and n is size(v):
        return v
    if v.op == "diagv" and not has_bv(off) and not has_bv(n):
        return diagv(blk(v.args[0], off, off, n, n))
    if v.op == "had":
        return had(seg(v.args[0], off, n), seg(v.args[1], off, n))
    if v.op in ("max", "min"):
        return maxmin(v.op, [seg(x, off, n) if x.sort == "m" else x for x in v.args])
    return mk("seg", v, off, n, sort="m")


BVS = [mk("bv", i, sort="i") for i in range(12)]
BND = [mk("bv", "k%d" % i, sort="i") for i in range(12)]   # bound variables
BINDERS = ("comp", "updn", "psum", "pall", "pmax", "pmin")
_memo_h = {}


def height(t):
    """nesting height of binders in t"""
    r = _memo_h.get(t)
    if r is None:
        r = 0
        for c in children(t):
            r = max(r, height(c))
        if t.op in BINDERS:
            r += 1
        _memo_h[t] = r
    return r


def binder_var(t):
    """the variable bound by binder node t"""
    return BND[max([height(c) for c in children(t)] + [0])]


def close(bv, *ts):
    """replace bv by the bound variable fitting all of ts; -> (var, ts')"""
    h = max([height(t) for t in ts] + [0])
    v = BND[h]
    return v, tuple(subst(t, {bv: v}) for t in ts)


def bind(op, bv, N, *bodies, sort="o", extra=()):
    h = max([height(t) for t in bodies] + [height(N)])
    v = BND[h]
    return mk(op, N, *[subst(t, {bv: v}) for t in bodies], sort=sort)


def updn(bv, N, d, new, old):
    """`old` with view d(k) := new(k) for k < N (views of distinct k disjoint)"""
    if N is ZERO:
        return old
    if old.op == "ite":
        return map_leaves(old, lambda o: updn(bv, N, d, new, o))
    if d.op == "velt" and d.args == (bv,) and size(old) is N:
        return bind("comp", bv, N, new, sort="m")
    if new.op == "ite" and not contains(new.args[0], bv):
        c, x, y = new.args
        return ite(c, updn(bv, N, d, x, old), updn(bv, N, d, y, old))
    if new is view(old, d):
        return old
    if d.op == "velt" and d.args == (bv, bv) and not contains(old, bv):
        # the diagonal, entry by entry, of the leading block
        sub = {x: mk("elt", diagv(blk(x.args[0], ZERO, ZERO, N, N)), bv, sort="s") for x in subterms(new)
               if x.op == "elt" and x.args[1:] == (bv, bv) and not contains(x.args[0], bv)}
        w = unelt(subst(new, sub) if sub else new, bv) if sub or contains(new, bv) else mul(new, ONES)
        if w is not None:
            b = view(old, mk("vblk", ZERO, ZERO, N, N))
            return upd(old, mk("vblk", ZERO, ZERO, N, N), upd(b, mk("vdiag"), w))
    # old is not under the binder: protect it
    return bind("updn", bv, N, d, new, old, sort="m")


def nth_view(v, d):
    """view d of updn term v, or None when the index is not recognised"""
    N, D, new, old = v.args
    if D.op != d.op:
        return None
    for j in index_cands(d):
        if inst(v, D, j) is d:
            if j is N:
                return view(old, d)
            if RANGES.get(j) is N:
                return inst(v, new, j)
            GUARDED.add(j)
            return ite(lt(j, N), inst(v, new, j), view(old, d))
    return None


RANGES = {}        # index variable -> the (exclusive) bound it stays under
GUARDED = set()    # indices a view was guarded for


def ranged(name, N):
    """an arbitrary index below N"""
    v = mk("bv", name, sort="i")
    RANGES[v] = N
    return v


def index_cands(d):
    c = []
    for t in subterms(d):
        if t.op in ("bv", "num", "phi", "first", "sum") and isint(t):
            c.append(t)
        if t.op == "init" and t.sort == "i":
            c.append(t)
        if t.op in ("idx", "psum") and len(t.args) > 1:
            c.append(t.args[1] if t.op == "idx" else t.args[0])
    c = sorted(set(c), key=lambda t: t.id)
    return c


def inst(t, body, j):
    return subst(body, {binder_var(t): j})


def comp(bv, N, body):
    """container of N elements, element k = body(k)"""
    return bind("comp", bv, N, body)


def psum(bv, upper, body):
    """sum_{k<upper} body(k)"""
    if body is ZERO or upper is ZERO:
        return ZERO
    if upper.op != "num" and not contains(upper, bv):
        # counted downwards
        at0 = add(upper, add(neg(bv), num(-1)))
        if any(x is at0 for x in subterms(body)):
            b2 = subst(body, {bv: at0})
            if not any(contains(x, bv) and x.op == "sum" and contains(x, upper) for x in subterms(b2)):
                body = b2
    if not contains(body, bv):
        return mul(upper, body)
    if body.op == "ite" and not contains(body.args[0], bv):
        return ite(body.args[0], psum(bv, upper, body.args[1]), psum(bv, upper, body.args[2]))
    if body.op == "sum" and len(body.args[0]) >= 1 and body.sort != "m":
        # linear: constants and common scalar factors out
        r = ZERO
        ms = body.args[0]
        for c, s_, m in ms:
            out = tuple((x, e) for x, e in s_ if not contains(x, bv))
            ins = tuple((x, e) for x, e in s_ if contains(x, bv))
            f = from_monos([(c, out, ())])
            g = from_monos([(1, ins, m)])
            if ins or m:
                r = add(r, mul(f, _psum1(bv, upper, g)))
            else:
                r = add(r, mul(f, upper))
        return r
    return _psum1(bv, upper, body)


def unelt(t, bv):
    """vector term whose element bv is t, or None"""
    if t.op == "elt" and len(t.args) == 2 and t.args[1] is bv and not contains(t.args[0], bv):
        return t.args[0]
    if t.op in ("max", "min"):
        xs = [unelt(x, bv) if contains(x, bv) else mul(x, ONES) for x in t.args]
        return None if any(x is None for x in xs) else maxmin(t.op, xs)
    if t.op == "sum" and t.sort != "m":
        r = ZERO
        for c, sc, m in t.args[0]:
            if m:
                return None
            f, v = from_monos([(c, tuple((x, e) for x, e in sc if not contains(x, bv)), ())]), None
            for x, e in sc:
                if not contains(x, bv):
                    continue
                y = unelt(x, bv)
                if y is None or e < 0:
                    return None
                for _ in range(e):
                    v = y if v is None else had(v, y)
            r = add(r, mul(f, v if v is not None else ONES))
        return r
    return None


def vecsum(v):
    return mk("call", "sum", v, sort="s")


def _sum_as_vector(bv, upper, body):
    fs = body.args[0][0][1] if body.op == "sum" and len(body.args[0]) == 1 and not body.args[0][0][2] and \
        body.args[0][0][0] == 1 else ((body, 1),)
    if sum(e for _, e in fs) > 2 or any(e < 0 for _, e in fs):
        return None
    vs = [unelt(x, bv) for x, e in fs for _ in range(e)]
    if any(v is None for v in vs):
        return None
    if not any(size(x.args[0]) is upper for v in fs for x in subterms(v[0]) if x.op == "elt"):
        return None
    return dot(*vs) if len(vs) == 2 else vecsum(vs[0])


def _psum1(bv, upper, body):
    v = _sum_as_vector(bv, upper, body) if body.sort == "s" else None
    if v is not None:
        return v
    if body is bv:
        return mul(mul(upper, add(upper, num(-1))), num(Fraction(1, 2)))
    return bind("psum", bv, upper, body,
                sort="m" if body.sort == "m" else "i" if isint(body) else "s")


def blk(v, r, c, nr, nc):
    if v.op == "ite":
        return map_leaves(v, lambda x: blk(x, r, c, nr, nc))
    if v is ONES or v.op == "num":
        return v
    if v.op == "sum":
        x = _lin(v, lambda y: blk(y, r, c, nr, nc))
        if x is not None:
            return x
    if v.op == "blk":
        return blk(v.args[0], add(v.args[1], r), add(v.args[2], c), nr, nc)
    if v.op == "T":
        return transpose(blk(v.args[0], c, r, nc, nr))
    if v is EYE:
        if r is c and nr is nc:
            return EYE
        if disjoint(r, nr, c, nc):
            return ZERO
    if v.op == "upd" and v.args[1].op == "vblk":
        r2, c2, nr2, nc2 = v.args[1].args
        if (r2, c2, nr2, nc2) == (r, c, nr, nc):
            return v.args[2]
        if disjoint(r, nr, r2, nr2) or disjoint(c, nc, c2, nc2):
            return blk(v.args[0], r, c, nr, nc)
        ds = [add(r, neg(r2)), add(add(r2, nr2), neg(add(r, nr))),
              add(c, neg(c2)), add(add(c2, nc2), neg(add(c, nc)))]
        if all(nonneg(x) for x in ds):
            return blk(v.args[2], ds[0], ds[2], nr, nc)
    if v.op == "upd" and v.args[1].op == "vdiag":
        if r is c and nr is nc:
            return upd(blk(v.args[0], r, c, nr, nc), v.args[1], seg(v.args[2], r, nr))
        if disjoint(r, nr, c, nc):
            return blk(v.args[0], r, c, nr, nc)
    if v.op == "updn":
        x = nth_view(v, mk("vblk", r, c, nr, nc))
        if x is not None:
            return x
    if r is ZERO and c is ZERO and nr is rows(v) and nc is cols(v):
        return v
    return mk("blk", v, r, c, nr, nc, sort="m")


def diagv(v):
    if v.op == "ite":
        return map_leaves(v, diagv)
    if v is ONES or v.op == "num":
        return v
    if v is EYE:
        return ONES
    if v.op == "sum":
        x = _lin(v, diagv)
        if x is not None:
            return x
    if v.op == "upd" and v.args[1].op == "vdiag":
        return v.args[2]
    if v.op == "asdiag":
        return v.args[0]
    return mk("diagv", v, sort="m")


def elt(v, *ix):
    if v.op == "ite":
        return map_leaves(v, lambda x: elt(x, *ix))
    if v.op == "num":
        return v
    if v is ONES:
        return ONE
    if v.op == "sum":
        ms = monos(v)
        if all(len(m) == 1 for _, _, m in ms):
            r = ZERO
            for c, s, m in ms:
                r = add(r, mul(from_monos([(c, s, ())]), elt(m[0], *ix)))
            return r
    if v.op == "seg" and len(ix) == 1:
        return elt(v.args[0], add(v.args[1], ix[0]))
    if v.op == "blk" and len(ix) == 2:
        return elt(v.args[0], add(v.args[1], ix[0]), add(v.args[2], ix[1]))
    if v.op == "had":
        return mul(elt(v.args[0], *ix), elt(v.args[1], *ix))
    if v.op in ("max", "min"):
        return maxmin(v.op, [elt(x, *ix) if x.sort == "m" else x for x in v.args])
    if v.op == "T" and len(ix) == 2:
        return elt(v.args[0], ix[1], ix[0])
    if v.op == "upd" and v.args[1].op == "velt":
        if v.args[1].args == ix:
            return v.args[2]
        if any(add(a, neg(b)).op == "num" and add(a, neg(b)) is not ZERO for a, b in zip(v.args[1].args, ix)):
            return elt(v.args[0], *ix)
    if v.op == "comp" and len(ix) == 1:
        return inst(v, v.args[1], ix[0])
    if v.op == "updn" and v.args[1].op == "velt" and len(ix) == len(v.args[1].args):
        if len(ix) == 1 and v.args[1].args[0] is binder_var(v):
            return elt(v.args[3], *ix) if ix[0] is v.args[0] else inst(v, v.args[2], ix[0])
        r = nth_view(v, mk("velt", *ix))
        if r is not None:
            return r
    if v.op == "diagv" and len(ix) == 1:
        return elt(v.args[0], ix[0], ix[0])
    if v.op == "updn" and len(ix) == 2 and v.args[1].op == "vblk" and v.args[1].args[0] is binder_var(v) and \
            v.args[1].args[1] is ZERO and v.args[1].args[2] is ONE and not contains(v.args[1].args[3], binder_var(v)):
        inside = and_(not_(lt(ix[0], ZERO)), lt(ix[0], v.args[0]), not_(lt(ix[1], ZERO)), lt(ix[1], v.args[1].args[3]))
        return ite(inside, elt(inst(v, v.args[2], ix[0]), ZERO, ix[1]), elt(v.args[3], *ix))
    if v.op == "cw":
        x = elt(v.args[1], *ix)
        if v.args[0] in ("sign", "cwiseSign"):
            return ite(lt(ZERO, x), ONE, ite(lt(x, ZERO), num(-1), ZERO))
        if v.args[0] == "square":
            return mul(x, x)
        if v.args[0] == "cwiseInverse":
            return inv(x)
        return mk("call", {"cwiseSqrt": "sqrt"}.get(v.args[0], v.args[0]), x, sort="s")
    if v.op == "veclit" and ix[0].op == "num" and int(ix[0].args[0]) < len(v.args) and (len(ix) == 1 or ix[1] is ZERO):
        return v.args[int(ix[0].args[0])]
    if v.op == "cw2":
        return mul(elt(v.args[1], *ix), inv(elt(v.args[2], *ix)))
    if v.op == "cwlt":
        return lt(elt(v.args[0], *ix), ZERO)
    if v.op == "cweq":
        return eq(elt(v.args[0], *ix), ZERO)
    if v.op == "cwnot":
        return not_(elt(v.args[0], *ix))
    if v.op == "cwand":
        return and_(*[elt(x, *ix) for x in v.args])
    if v.op == "sel":
        return ite(elt(v.args[0], *ix), elt(v.args[1], *ix), elt(v.args[2], *ix))
    if v.op == "mprod" and len(v.args) == 2 and v.args[0].op == "asdiag" and len(ix) == 1:
        return mul(elt(v.args[0].args[0], *ix), elt(v.args[1], *ix))
    so = "s"
    if v.sort == "mi":
        so = "i"
    return mk("elt", v, *ix, sort=so)


def view(v, d):
    """extract view descriptor d from value v"""
    if d.op == "vseg":
        return seg(v, *d.args)
    if d.op == "vblk":
        return blk(v, *d.args)
    if d.op == "vdiag":
        return diagv(v)
    if d.op == "velt":
        return elt(v, *d.args)
    if d.op == "vT":
        return transpose(v)
    if d.op == "vtri":
        return tri(v, d.args[0])
    if d.op == "vperm":
        return map_leaves(v, lambda x: x.args[0] if x.op == "perm" else mk("permidx", x, sort="mi"))
    return mk("view", v, d, sort="m")


def tri(v, mode):
    """triangular part of a matrix (unit diagonal implied by Unit modes)"""
    if v.op == "ite":
        return map_leaves(v, lambda x: tri(x, mode))
    if v is ZERO and "Unit" not in mode:
        return v
    return mk("tri", mode, v, sort="m")


def upd(v, d, new):
    """v with view d replaced by new"""
    if d.op == "vseg":
        if d.args[0] is ZERO and d.args[1] is size(v):
            return new
    if d.op == "vblk":
        if d.args[0] is ZERO and d.args[1] is ZERO and d.args[2] is rows(v) and d.args[3] is cols(v):
            return new
    if d.op == "vT":
        return transpose(new)
    if d.op == "vperm":
        return mk("perm", new, sort="m")
    if d.op in ("vdiag", "vseg", "vblk", "velt", "vtri") and new is view(v, d):
        return v
    if v.op == "ite" or new.op == "ite":
        if size_ite(v, 80) * size_ite(new, 80) < 3000:
            return lift2(lambda a, b: upd(a, d, b), v, new)
    if d.op == "vdiag" and v.op != "upd":
        # a diagonal shifted by a constant: a multiple of the identity is added
        ms = monos(add(new, neg(diagv(v)))) if new.sort not in ("s", "i") else []
        if ms and len(ms) <= 8 and all(m == (ONES,) for _, _, m in ms):
            return add(v, mul(from_monos([(c, sc, ()) for c, sc, _ in ms]), EYE))
    if d.op == "vdiag" and (v is EYE or v.op == "sum" and any(m == (EYE,) for _, _, m in v.args[0])):
        # multiples of the identity are overwritten
        v = ZERO if v is EYE else from_monos([x for x in v.args[0] if x[2] != (EYE,)])
    if d.op == "vdiag" and v is ZERO:
        # a constant diagonal: a multiple of the identity
        if new.sort in ("s", "i"):
            return mul(new, EYE)
        ms = monos(new)
        if len(ms) == 1 and ms[0][2] == (ONES,):
            return mul(from_monos([(ms[0][0], ms[0][1], ())]), EYE)
    if d.op == "velt" and v.op == "sum" and len(v.args[0]) == 1:
        m = v.args[0][0][2]
        if len(m) == 1 and m[0].op == "upd" and m[0].args[0] is ZERO and m[0].args[1].op == "velt":
            # a multiple of a unit vector, one entry replaced
            e, x = m[0].args[1], m[0].args[2]
            if e is d:
                return upd(ZERO, d, new)
            c, sc, _ = v.args[0][0]
            v = mk("upd", ZERO, e, mul(from_monos([(c, sc, ())]), x), sort="m")
    if d.op == "velt" and v is ZERO and new.sort in ("i", "s") and new is not ONE:
        # h e_i is kept as a multiple of the unit vector
        ms = monos(new)
        if len(ms) == 1 and not ms[0][2]:
            return from_monos([(ms[0][0], ms[0][1], (mk("upd", ZERO, d, ONE, sort="m"),))])
    if v.op == "upd":
        d2 = v.args[1]
        if d2 is d:
            return upd(v.args[0], d, new)
        if d2.op == d.op and d.op in ("vseg", "vblk", "velt") and d2.id > d.id and vd_disjoint(d, d2):
            return upd(upd(v.args[0], d, new), d2, v.args[2])
    if d.op == "velt" and len(d.args) == 1 and d.args[0].op == "num":
        got, b = {d: new}, v
        while b.op == "upd" and b.args[1].op == "velt" and len(b.args[1].args) == 1 and b.args[1].args[0].op == "num":
            got.setdefault(b.args[1], b.args[2])
            b = b.args[0]
        if b.op == "sized" and b.args[1].op == "num" and len(got) == b.args[1].args[0]:
            xs = [got.get(mk("velt", num(k))) for k in range(len(got))]
            if all(x is not None and x.sort in ("s", "i") for x in xs):
                return mk("veclit", *xs, sort="m")          # every entry written
    return mk("upd", v, d, new, sort="m" if v.sort in ("s", "i") else v.sort)


def vd_disjoint(d, e):
    if d.op != e.op:
        return False
    if d.op == "vseg":
        return disjoint(d.args[0], d.args[1], e.args[0], e.args[1])
    if d.op == "vblk":
        return disjoint(d.args[0], d.args[2], e.args[0], e.args[2]) or \
            disjoint(d.args[1], d.args[3], e.args[1], e.args[3])
    if d.op == "velt" and len(d.args) == len(e.args):
        return any(add(a, neg(b)).op == "num" and add(a, neg(b)) is not ZERO
                   for a, b in zip(d.args, e.args))
    return False


# traversal -----------------------------------------------------------------


def children(t):
    if t.op == "sum":
        for c, s, m in t.args[0]:
            for x, e in s:
                yield x
            for x in m:
                yield x
    else:
        for a in t.args:
            if isinstance(a, Term):
                yield a


def subterms(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(children(x))
    return seen


_memo_contains = {}


def contains(t, x):
    if t is x:
        return True
    key = (t, x)
    r = _memo_contains.get(key)
    if r is None:
        r = any(contains(c, x) for c in children(t))
        _memo_contains[key] = r
    return r


def contains_op(t, ops):
    return any(x.op in ops for x in subterms(t))


def opaque(why, *args, sort="o"):
    _next[0] += 1
    return mk("opaque", why, _next[0], *args, sort=sort)


def has_opaque(t):
    if t._opq is None:
        if t.op == "opaque":
            t._opq = True
        else:
            t._opq = any(has_opaque(c) for c in children(t))
    return t._opq


def as_bool(r):
    if r.sort == "b":
        return r
    if r.op == "ite":
        return map_leaves(r, as_bool)
    if r.op == "elt":
        return mk("elt", *r.args, sort="b")
    return ne(r, ZERO)


def rebuild(t, args):
    """rebuild t through normalising constructors with new Term args"""
    op = t.op
    if op == "ite":
        return ite(*args)
    if op == "lt0":
        return lt(args[0], ZERO)
    if op == "eq0":
        return eq(args[0], ZERO)
    if op == "eqo":
        return eq(*args)
    if op in ("max", "min"):
        return maxmin(op, list(args))
    if op == "T":
        return transpose(args[0])
    if op == "mprod":
        r = args[0]
        for a in args[1:]:
            r = mul(r, a)
        return r
    if op == "dot":
        return dot(*args)
    if op == "had":
        return had(*args)
    if op == "seg":
        return seg(*args)
    if op == "blk":
        return blk(*args)
    if op == "diagv":
        return diagv(*args)
    if op == "elt":
        r = elt(*args)
        return as_bool(r) if t.sort == "b" else r
    if op == "upd":
        return upd(*args)
    if op == "size":
        return size(args[0])
    if op == "rows":
        return rows(args[0])
    if op == "cols":
        return cols(args[0])
    if op == "call" and t.args[0] == "infnorm":
        return infnorm(args[1])
    if op == "init":
        return mk("init", args[0], *t.args[1:], sort=t.sort)
    return mk(op, *args, sort=t.sort)


def subst(t, m, memo=None):
    """substitute terms (capture is not an issue: BOUND is handled by callers)"""
    if memo is None:
        memo = {}
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in BINDERS:
        # open the binder with a fresh variable, substitute, close again
        hit = False
        for k in m:
            if contains(t, k):
                hit = True
                break
        if not hit:
            memo[t] = t
            return t
        _next[0] += 1
        fv = mk("bv", "t%d" % _next[0], sort="i")
        bvar = binder_var(t)
        RANGES[fv] = t.args[0]
        opened = [t.args[0]] + [subst(a, {bvar: fv}) for a in t.args[1:]]
        new = [subst(a, m) for a in opened]
        if t.op == "psum":
            r = psum(fv, *new)
        elif t.op == "updn":
            r = updn(fv, *new)
        else:
            r = bind(t.op, fv, *new, sort=t.sort)
        memo[t] = r
        return r
    if t.op == "sum":
        r = ZERO
        changed = False
        for c, s, ms in t.args[0]:
            f = num(c)
            for x, e in s:
                y = subst(x, m, memo)
                changed |= y is not x
                base = y if e > 0 else inv(y)
                for _ in range(abs(e)):
                    f = mul(f, base)
            g = None
            for x in ms:
                y = subst(x, m, memo)
                changed |= y is not x
                g = y if g is None else mul(g, y)
            r = add(r, mul(f, g) if g is not None else f)
        if not changed:
            r = t
    else:
        args = []
        changed = False
        for a in t.args:
            if isinstance(a, Term):
                b = subst(a, m, memo)
                changed |= b is not a
                args.append(b)
            else:
                args.append(a)
        r = rebuild(t, tuple(args)) if changed else t
    memo[t] = r
    return r


# display -------------------------------------------------------------------


def show(t, depth=7):
    if not isinstance(t, Term):
        return str(t)
    if depth <= 0:
        return "…"
    d = depth - 1
    op = t.op
    if op == "num":
        f = t.args[0]
        if f.denominator == 1:
            return str(f.numerator)
        return "%g" % float(f)
    if op in ("true", "false", "ONES", "EYE", "null", "inf", "emptyvec"):
        return op
    if op == "sum":
        out = []
        for c, s, m in t.args[0]:
            p = []
            if c != 1 or not (s or m):
                p.append("%g" % float(c) if c.denominator != 1 else str(c.numerator))
            for x, e in s:
                p.append(show(x, d) + ("" if e == 1 else "^%d" % e))
            for x in m:
                p.append(show(x, d))
            out.append("*".join(p))
        return "(" + " + ".join(out) + ")"
    if op == "mprod":
        return "*".join(show(x, d) for x in t.args)
    if op == "T":
        return show(t.args[0], d) + "^T"
    if op == "ite":
        return "(%s ? %s : %s)" % tuple(show(x, d) for x in t.args)
    if op == "lt0":
        return "[%s<0]" % show(t.args[0], d)
    if op == "eq0":
        return "[%s==0]" % show(t.args[0], d)
    if op == "fld":
        return "%s.%s" % (show(t.args[0], d), t.args[1])
    if op == "init":
        return show(t.args[0], d)
    if op == "param":
        return str(t.args[1])
    if op == "this":
        return "this"
    if op == "idx":
        return "%s[%s]" % (show(t.args[0], d), show(t.args[1], d))
    if op == "str":
        return repr(t.args[0])
    if op == "call":
        return "%s(%s)" % (t.args[0], ", ".join(show(x, d) for x in t.args[1:]))
    if op == "out":
        return "out%s{%s}" % (t.args[0], show(t.args[1], d))
    if op == "bv":
        return "%s" % t.args[0] if isinstance(t.args[0], str) else "i%s" % t.args[0]
    return "%s(%s)" % (op, ", ".join(show(x, d) for x in t.args))
