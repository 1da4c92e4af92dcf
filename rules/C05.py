"""Copies stand alone and every buffer has one owner.  Classes whose fields view their own storage (found from the values
constructors and methods leave in fields) must not be copied member by member; user-written copies are compared field by
field with the original; a typestate analysis of the raw buffers: which functions create them, and for each that every
buffer created is released exactly once, returned, or left in a field the destructor releases."""
import re
from sa.terms import *
from sa.modlib import *
from sa.interp import root

TITLE = "Copies stand alone, one owner per buffer"
FLOOR = 8
MAKERS = ("copy", "transpose", "create_default_block_structure")     # return a structure with buffers of its own
KEEP = MAKERS + ("symbolic_deep_copy", "updateBlockPermutationMatrix", "analyzePattern", "brute_force_best_permutation",
                 "llt_in_place", "findSparsifyingPermutation", "ldlt_in_place_impl", "get_total_dim_helper")
BUF = ("m_data", "segment_lens")


def run(ctx):
    seen = set()
    for un in ("solver", "linalg", "functions", "spaces"):
        alone(ctx, ctx.unit(un), un, seen)
    u = ctx.unit("solver")
    for n in ("ResultsTpl", "history_storage"):
        if u.recname.get(n):
            copied(ctx, u, one(u, n))
    buffers(ctx, ctx.unit("linalg"))
    structures(ctx, ctx.unit("blockkind"))


def one(u, n):
    r = u.recname[n]
    return r[0] if isinstance(r, list) else r


def summ(ctx, u, f, fresh=(), noinline=KEEP):
    it = interp(u, f, noinline=noinline)
    it.copyfresh = set(fresh)
    return ctx.saw(it.run(f))


def path(c):
    """('a', 'b') for this.a.b"""
    p = []
    while c.op == "fld":
        p.append(c.args[1])
        c = c.args[0]
    return tuple(reversed(p)) if c is THIS else None


# ---------------------------------------------------------------- views of own storage
def special(r):
    """(copy ctor, copy assignment, move ctor) as 'implicit', 'deleted', 'own' or None when not declared"""
    out = {}
    for m in r.methods:
        if not copies(m):
            continue
        rv = "&&" in m.params[0]["type"]["qualType"]
        k = "move" if rv else "copy"
        if m.name == "operator=":
            k += "="
        elif m.kind != "CXXConstructorDecl":
            continue
        st = "deleted" if getattr(m, "deleted", False) or m.defaulted == "deleted" else "implicit" if m.implicit or m.defaulted else "own"
        out[k] = st
    return out


def owner(u, f, p):
    """record that holds the field this.p"""
    r = f.rec
    for x in p[:-1]:
        t = next((fl["type"].get("desugaredQualType") or fl["type"]["qualType"] for fl in r.fields if fl.get("name") == x), None)
        q = None
        if t is not None:
            t = re.sub(r"<.*>", "", t).split("::")[-1].strip(" &*")
            q = u.recname.get(t)
            q = q[0] if isinstance(q, list) and q else q
        if q is None:
            return None
        r = q
    return r


def alone(ctx, u, un, seen):
    for f in list(u.funcs.values()):
        if f.rec is None or not (f.body is not None or f.inits) or f.implicit or f.defaulted or copies(f):
            continue
        if not (f.kind == "CXXConstructorDecl" or f.name in ("init", "setup", "call") and not f.const):
            continue
        if (f.rec.name, f.where()) in seen:
            continue
        seen.add((f.rec.name, f.where()))
        try:
            s = summ(ctx, u, f)
        except Exception as x:
            ctx.ob("alone/%s" % f.rec.name, f.where(), None, "constructor: %s" % x)
            continue
        if s.final is None:
            continue
        vs = {}
        for k, v in s.final.store.items():
            p = path(k)
            if not p or not isinstance(v, Term):
                continue
            for x in subterms(v):
                if x.op == "addr":
                    c = x.args[0]
                    heap = False
                    while isinstance(c, Term) and c.op in ("vw", "idx", "fld"):
                        heap = heap or c.op in ("vw", "idx")
                        q = c
                        c = c.args[0]
                    if c is THIS and x.args[0] is not THIS and not same_object(x.args[0], k, v):
                        vs[p] = vs.get(p, True) and heap
        for p, heap in sorted(vs.items()):
            r = owner(u, f, p)
            if r is None:
                ctx.ob("alone/%s/%s" % (f.rec.name, ".".join(p)), f.where(), None, "views its object's own storage")
                continue
            # the object that holds both the view and what is viewed
            r = r if len(p) > 1 and heap else f.rec
            sp = special(r)
            t = "alone/%s/%s" % (r.name, ".".join(p))
            for k in ("copy", "copy="):
                st = sp.get(k)
                ctx.ob("%s/%s" % (t, k), f.where(), None if st is None else st != "implicit",
                       "%s views storage of its own object: a member-by-member %s would view the original's" % (".".join(p), "copy" if k == "copy" else "assignment"))
            st = sp.get("move")
            ctx.ob(t + "/move", f.where(), heap or st != "implicit", "%s refers to a member of its own object, which does not move with it" % ".".join(p))


def same_object(c, k, v):
    """a container's own iterators"""
    return c is k


# ---------------------------------------------------------------- user-written copies
def fields(u, r):
    out = [f.get("name") for f in r.fields]
    for b in r.bases:
        t = b if isinstance(b, str) else (b.get("type") or {}).get("qualType", "")
        t = re.sub(r"<.*>", "", t).split("::")[-1].strip()
        q = u.recname.get(t)
        q = q[0] if isinstance(q, list) and q else q
        if q is not None and q is not r:
            out += fields(u, q)
    return [x for x in out if x]


def copied(ctx, u, r, raw=()):
    """copy constructor and assignment of r; raw: fields that own buffers"""
    for m in r.methods:
        if not copies(m) or "&&" in m.params[0]["type"]["qualType"] or m.implicit or m.defaulted or not (m.body is not None or m.inits):
            continue
        s = summ(ctx, u, m, fresh=(r.name,))
        tag = "same/%s/%s/" % (r.name, "assign" if m.name == "operator=" else "copy")
        w = m.where()
        oc = cell(m, 0)
        whole = s.final.store.get(THIS)
        whole = whole if whole is None else constrain(whole, alias(oc))
        if whole is not None:
            ok = whole.op == "call" and whole.args[0] == "copyof"
            ctx.ob(tag + "whole", w, True if ok else None, "assignment takes over a copy: %s" % show(whole, 4))
            continue
        for n in fields(u, r):
            c, o = mk("fld", THIS, n), mk("fld", oc, n)
            v = s.final.store.get(c)
            if v is None:
                subs = [k for k in s.final.store if root(k) is THIS and path(k) and path(k)[0] == n]
                ctx.ob(tag + n, w, None if subs or not observable(r, n) else False, "%s is not copied" % n)
                continue
            v = constrain(v, alias(oc))          # into another object
            got = copied_value(u, v, c, o, oc, n in raw)
            if got[0] is None and n not in raw and not any(root(x) is root(oc) for x in atoms(v)):
                got = (False if observable(r, n) else None), "%s of the copy does not depend on the original: %s" % (n, show(v, 4))
            if isinstance(got[0], tuple):
                ctx.same(tag + n, w, got[0][0], got[0][1], got[1])
            else:
                ctx.ob(tag + n, w, *got)


def alias(oc):
    return not_(mk("eqo", mk("addr", THIS), mk("addr", oc), sort="b"))


def atoms(v):
    """locations whose contents, or addresses, v depends on (sizes of other parts do not count)"""
    if v.op == "init":
        yield v.args[0]
        return
    if v.op in ("sizedv", "sized", "sized2", "size", "rows", "cols"):
        return
    for a in v.args:
        if isinstance(a, Term):
            yield from atoms(a)
        elif isinstance(a, tuple):
            for x in a:
                for y in x if isinstance(x, tuple) else (x,):
                    if isinstance(y, Term):
                        yield from atoms(y)


def observable(r, n):
    """the field is public or some const method reads it: a copy that loses it can be told from the original"""
    import json
    fl = next((f for f in r.fields if f.get("name") == n), None)
    if fl is None or fl.get("access", "public") == "public":
        return True
    pat = '"name": "%s"' % n
    return any(m.const and m.body is not None and pat in json.dumps(m.body) for m in r.methods)


def strip_(v):
    while v.op in ("val", "conv") and v.args:
        v = v.args[0]
    return v


def copied_value(u, v, c, o, oc, raw):
    v = strip_(v)
    txt = "%s of the copy: %s" % (show(c, 3), show(v, 4))
    if v.op == "init" and v.args[0] is o or v is o:
        return (False, txt + " shares the original's buffers") if raw else (True, txt)
    if v.op == "call" and v.args[0] == "getf" or v.op == "getf":
        if v.args[0].op == "call" and v.args[0].args[0] == "copyof":
            return (True if v.args[1] == o.args[1] else False), txt
    if v.op == "init":
        return False, txt + " is not the original's"
    if raw:
        for name in ("copy", "transpose"):
            if v.op == "call" and str(v.args[0]).endswith("SymbolicBlockMatrix::" + name):
                a = strip_(v.args[1])
                if name == "transpose" and a.op == "call" and str(a.args[0]).endswith("::copy"):
                    a = strip_(a.args[1])
                ok = a.op == "init" and root(a.args[0]) is root(oc)
                return (True if ok else None), txt
        return None, txt
    if any(x.op == "addr" for x in subterms(v)):
        rs = {root(x.args[0]) for x in subterms(v) if x.op == "addr"}
        if root(oc) in rs:
            return False, txt + " views the original"
        return segments(v, o, THIS), txt + " (consecutive segments)"
        return None, txt
    if root_of(v) is root(oc):
        return None, txt
    return (None, txt)


def segments(v, o, own):
    """v views consecutive segments of the object's own storage, of the lengths of the parts of the original o; for a
    list of such lists, each views its own element"""
    if v.op != "comp":
        return None
    n, b = v.args[-2], v.args[-1]
    if not (n.op == "size" and n.args[0].op == "init" and n.args[0].args[0] is o):
        return None
    j = mk("bv", "J%d" % depth(o), sort="i")
    e = inst(v, b, j)
    if e.op != "addr":
        return None
    q = e.args[0]
    if q.op == "val" or q.op == "comp":
        while q.op == "val":
            q = q.args[0]
        return segments(q, mk("idx", o, j), own)
    if q.op == "vw" and q.args[1].op == "vseg":
        st, ln = q.args[1].args[:2]
        k = mk("bv", "q", sort="i")
        want = [x for x in subterms(o) if x.op == "bv"]
        if want and not any(x in want for x in subterms(q.args[0])):
            return False
        if ln.op != "size" or ln.args[0].op != "init" or ln.args[0].args[0] is not mk("idx", o, j):
            return None
        return st, psum(k, j, subst(ln, {j: k}))
    return None


def depth(o):
    return 1 + depth(o.args[0]) if o.op in ("fld", "idx") else 0


def root_of(v):
    for x in subterms(v):
        if x.op == "init":
            return root(x.args[0])
    return None


# ---------------------------------------------------------------- raw buffers
def maker(v):
    """the call that made this structure"""
    v = strip_(v)
    return v if v.op == "call" and str(v.args[0]).split("::")[-1] in MAKERS else None


def deleted(s):
    """(event, what it belongs to, which buffer)"""
    for e in s.events:
        if e.kind == "delete" and e.value is not None:
            v = strip_(e.value)
            if v.op == "getf":
                yield e, strip_(v.args[0]), v.args[1]
            elif v.op == "init" and v.args[0].op == "fld":
                yield e, v.args[0].args[0], v.args[0].args[1]
            else:
                yield e, v, None


def buffers(ctx, u):
    ctx.owning = set()
    for r in {id(f.rec): f.rec for f in u.funcs.values() if f.rec is not None and f.kind == "CXXDestructorDecl" and f.body is not None}.values():
        d = next(m for m in r.methods if m.kind == "CXXDestructorDecl")
        if d.body is None:
            continue
        sd = summ(ctx, u, d)
        own = {}
        for e, q, b in deleted(sd):
            p = path(q) if isinstance(q, Term) and q.op == "fld" else None
            if p and len(p) == 1:
                own.setdefault(p[0], []).append((b, e))
        if not own and not any("SymbolicBlockMatrix" in (fl["type"].get("qualType") or "") for fl in r.fields):
            continue
        raw = [fl["name"] for fl in r.fields if "SymbolicBlockMatrix" in (fl["type"].get("qualType") or "")]
        for n in raw:
            got = [b for b, e in own.get(n, ()) if e.pcabs is TRUE]
            ctx.ob("release/%s/%s" % (r.name, n), d.where(), sorted(got) == sorted(BUF), "the destructor releases both buffers of %s once: %s" % (n, ", ".join(map(str, got))))
            ctx.owning.add(n)
        for b, e in [x for v in own.values() for x in v]:
            ctx.ob("release/%s/array" % r.name, e.where, e.name == "delete[]", "arrays are released as arrays")
        copied(ctx, u, r, raw)
        sp = special(r)
        for k in ("copy", "copy="):
            ctx.ob("alone/%s/%s" % (r.name, k), d.where(), sp.get(k) in ("own", "deleted"), "a class that releases buffers writes its own copies")
        for m in r.methods:
            if m is d or m.implicit or m.defaulted or not (m.body is not None or m.inits):
                continue
            if m.kind != "CXXConstructorDecl" and not copies(m) and m.const:
                continue
            held(ctx, u, m, r, raw)
    for f in u.funcs.values():
        if f.body is not None and f.rec is None and f.kind == "FunctionDecl" and uses_structure(f):
            held(ctx, u, f, None, ())


def uses_structure(f):
    import json
    return "SymbolicBlockMatrix" in json.dumps(f.body)


def held(ctx, u, m, r, raw):
    """what becomes of every structure made in m, and of every structure a field of the object held"""
    s = summ(ctx, u, m, fresh=(r.name,) if r is not None else ())
    if s.final is None:
        return
    w = m.where()
    tag = "held/%s/" % m.name if r is None else "held/%s::%s%d/" % (r.name, m.name, len(m.params) if m.name == r.name else 0) if not copies(m) else "held/%s::%s-copy/" % (r.name, m.name)
    made = []
    for e in s.events:
        if e.kind == "call" and e.name in MAKERS:
            made.append(e)
    dels = list(deleted(s))
    rel, own_dels = {}, {}
    for e, q, b in dels:
        if maker(q) is not None:
            rel.setdefault(q, []).append((e, b))
        elif q.op == "fld" and path(q) and path(q)[0] in raw:
            own_dels.setdefault(path(q)[0], []).append((e, b))
        elif r is None or m.kind != "CXXDestructorDecl":
            ctx.ob(tag + "foreign", e.where, False if m.params and q is cell(m, 0) else None, "releases something it does not own: %s" % show(q, 4))
    fin = {n: s.final.store.get(mk("fld", THIS, n)) for n in raw}
    kept = set()
    for n, v in fin.items():
        if v is not None:
            for x in leaves(v):
                if maker(x) is not None:
                    kept.add(maker(x))
    terms = {}
    for x in set(rel) | kept:
        terms[x] = 1
    for e in s.events:
        for t in list(e.args or ()) + [e.value, e.recv]:
            if isinstance(t, Term):
                for x in subterms(t):
                    if maker(x) is x:
                        terms[x] = 1
    if s.ret is not None:
        for x in subterms(s.ret):
            if maker(x) is x:
                terms[x] = 1
    # structures inside an object whose destructor releases them
    for v in [s.ret] + [v for k, v in s.final.store.items() if root(k).op != "local"] + [e.value for e in s.events if e.kind == "new"]:
        for x in subterms(v) if isinstance(v, Term) else ():
            if x.op == "with" and x.args[1] in ctx.owning:
                kept |= {maker(y) for y in leaves(x.args[2]) if maker(y) is not None}
    returned = set()
    if s.ret is not None and m.rec is None or (m.kind != "CXXConstructorDecl" and s.ret is not None and "SymbolicBlockMatrix" in str(m.name)):
        for x in leaves(s.ret):
            if maker(x) is not None:
                returned.add(maker(x))
    # only structures made directly here: arguments of a maker are judged where they are made
    for x in sorted(terms, key=lambda t: t.id):
        n = str(x.args[0]).split("::")[-1]
        t = "%s%s" % (tag, n)
        if inner_only(x, s, r, raw):
            continue
        if x in kept:
            ctx.ob(t + "/kept", w, not rel.get(x), "the structure is left in a field that is released with the object")
            continue
        if x in returned:
            ctx.ob(t + "/returned", w, not rel.get(x), "the structure is handed to the caller")
            continue
        got = rel.get(x, [])
        bs = sorted(str(b) for e, b in got)
        ctx.ob(t + "/released", w, bs == sorted(BUF), "a structure made here is released once, both buffers: %s" % ", ".join(bs))
        mk_ = [e for e in made if e.name == n]
        for e, b in got:
            if len(mk_) == 1:
                ctx.ob("%s/always/%s" % (t, b), e.where, e.pcabs is mk_[0].pcabs or constrain(e.pcabs, mk_[0].pcabs) is TRUE or None, "whenever it was made")
        last = min((e.seq for e, b in got), default=None)
        if last is not None:
            late = [e for e in s.events if e.kind in ("call", "store") and e.seq > last and
                    any(isinstance(a, Term) and holds(a, x) for a in list(e.args or ()) + [e.recv])]
            ctx.ob(t + "/use", w, not late, "and not used afterwards%s" % (": " + late[0].name if late else ""))
    # fields overwritten
    for n in raw:
        if m.kind == "CXXConstructorDecl":
            v = fin[n]
            ok = v is not None and maker(v) is not None
            ctx.ob("%sfresh/%s" % (tag, n), w, True if ok else False if v is not None and strip_(v).op in ("init", "with") and root_of(v) is not THIS else None, "%s has buffers of its own: %s" % (n, v is not None and show(v, 4)))
            continue
        v = fin[n]
        if v is None:
            ctx.ob("%skept/%s" % (tag, n), w, not own_dels.get(n), "%s is not released while in use" % n)
            continue
        init = mk("init", mk("fld", THIS, n), sort=v.sort)
        for pc, leaf in paths(v):
            fresh = maker(leaf) is not None or strip_(leaf).op == "getf" and strip_(leaf).args[0].op == "call" and strip_(leaf).args[0].args[0] == "copyof"
            if fresh:
                ds = sorted(str(b) for e, b in own_dels.get(n, ()) if constrain(e.pcabs, pc) is TRUE)
                moved = [k for k, y in s.final.store.items() if root(k).op == "local" and strip_(y).op == "init" and strip_(y).args[0] is mk("fld", THIS, n)]
                ctx.ob("%sreplaced/%s" % (tag, n), w, bool(moved) if not ds else ds == sorted(BUF) and not moved, "the buffers %s had are released once: %s" % (n, ", ".join(ds) or "swapped out" if moved else ", ".join(ds)))
            else:
                ds = [e for e, b in own_dels.get(n, ()) if constrain(e.pcabs, pc) is not FALSE]
                foreign = strip_(leaf).op == "init" and root(strip_(leaf).args[0]) is not THIS
                ctx.ob("%skept/%s" % (tag, n), w, False if ds or foreign else True, "%s keeps its buffers%s" % (n, ": shares " + show(leaf, 4) if foreign else ""))
    for n in raw:
        e_ = own_dels.get(n, ())
        if e_:
            early = min(e.seq for e, b in e_)
            st = [e for e in s.events if e.kind == "store" and e.loc is mk("fld", THIS, n) and e.seq > early]
            nxt = min((e.seq for e in st), default=1 << 60)
            bad = [e for e in s.events if e.kind == "call" and early < e.seq < nxt and
                   any(isinstance(a, Term) and (a is mk("fld", THIS, n) or a is mk("addr", mk("fld", THIS, n)) or strip_(a).op == "init" and strip_(a).args[0] is mk("fld", THIS, n)) for a in list(e.args or ()) + [e.recv])]
            if copies(m) and m.name == "operator=":
                # an object assigned to itself
                same_ = not_(alias(cell(m, 0)))
                o = mk("fld", cell(m, 0), n)
                own = [e for e in s.events if e.kind == "call" and e.seq > early and constrain(e.pcabs, same_) is TRUE and
                       any(isinstance(a, Term) and (a is o or any(y is o for y in atoms(a)) or any(y.op == "addr" and y.args[0] is o for y in subterms(a))) for a in list(e.args or ()) + [e.recv])]
                ctx.ob("%sself/%s" % (tag, n), w, not own, "assigned to itself, released buffers are not used%s" % (": " + own[0].name if own else ""))
            ctx.ob("%suse/%s" % (tag, n), w, not bad, "released buffers are not used%s" % (": " + bad[0].name if bad else ""))


def leaves(v):
    v = strip_(v)
    if v.op == "ite":
        yield from leaves(v.args[1])
        yield from leaves(v.args[2])
    elif v.op == "with":
        yield from leaves(v.args[0])
    elif v.op == "out" and v.args[1].op == "call":
        yield v
    else:
        yield v


def paths(v, pc=TRUE):
    v = strip_(v)
    if v.op == "ite":
        yield from paths(v.args[1], and_(pc, v.args[0]))
        yield from paths(v.args[2], and_(pc, not_(v.args[0])))
    else:
        yield pc, v


def holds(a, x):
    a = strip_(a)
    return a is x or a.op == "getf" and strip_(a.args[0]) is x


def inner_only(x, s, r, raw):
    """x occurs only inside the term of another structure (its argument), made by an expanded callee"""
    return False


# ---------------------------------------------------------------- structures with buffers of their own
def structures(ctx, u):
    for f in u.funcs.values():
        if f.rec is None or f.rec.name != "SymbolicBlockMatrix" or f.body is None or f.name not in ("copy", "transpose"):
            continue
        s = summ(ctx, u, f, noinline=("symbolic_deep_copy",) + (("copy",) if f.name == "transpose" else ()))
        w = f.where()
        v = strip_(s.ret) if s.ret is not None else None
        if v is None:
            continue
        if f.name == "copy":
            if v.op == "ite":
                bad = [x for _, x in paths(v) if x.op == "init" or x.op == "self"]
                ctx.ob("deep/copy/always", w, False if bad else None, "every copy has its own buffers: %s" % show(v, 4))
                continue
            base = v.args[1].args[2] if v.op == "out" and v.args[1].op == "call" and str(v.args[1].args[0]).endswith("symbolic_deep_copy") and len(v.args[1].args) > 2 else v
            for b in BUF:
                x = base
                while x.op == "with" and x.args[1] != b:
                    x = x.args[0]
                y = x.args[2] if x.op == "with" else None
                ok = y is not None and y.op == "addr" and y.args[0].op == "new"
                bad = v.op == "init" or y is not None and (y.op == "init" and root(y.args[0]) is THIS) or v is M(so=v.sort)
                ctx.ob("deep/copy/" + b, w, True if ok else False if bad else None, "a copy has its own %s" % b)
        else:
            ok = any(maker(x) is not None for x in leaves(v))
            ctx.ob("deep/transpose", w, True if ok else False if v.op == "init" or v is THIS else None, "a transpose has its own buffers: %s" % show(v, 4))
        dl = [e for e in s.events if e.kind == "delete"]
        ctx.ob("deep/%s/alive" % f.name, w, not dl, "and keeps them")
