"""Core of the deductive verifier: types, symbolic values, heap, proof obligations.

Values are closures over z3 terms.  A heap field of type T is a list of z3
arrays (one per scalar component of T) indexed by object reference (z3 Int,
0 = None).  Sequences are (length, index -> value) pairs; they are flattened
to z3 arrays only when they are stored in the heap.
"""
from __future__ import annotations
import itertools, time, os
import z3

_ctr = itertools.count()


def fresh_name(p):
    return "%s!%d" % (p, next(_ctr))


class Unsupported(Exception):
    """The construct is outside the verifier's fragment (undecided, never a violation)."""


# --------------------------------------------------------------------- types
class T:
    pass


class _Scalar(T):
    def __init__(self, name, sort):
        self.name, self.sort = name, sort

    def __repr__(self):
        return self.name


KeySort = z3.Datatype("Key")
KeySort.declare("KInt", ("ki", z3.IntSort()))
KeySort.declare("KPair", ("ka", z3.IntSort()), ("kb", z3.IntSort()))
KeySort.declare("KNone")
KeySort = KeySort.create()

TInt = _Scalar("int", z3.IntSort())
TBool = _Scalar("bool", z3.BoolSort())
TReal = _Scalar("real", z3.RealSort())
TStr = _Scalar("str", z3.IntSort())          # opaque (interned) string
TText = _Scalar("text", z3.StringSort())     # string with contents
TAny = _Scalar("any", z3.IntSort())          # opaque value, equality only
TKey = _Scalar("key", KeySort)


class TRef(T):
    def __init__(self, cls):
        self.cls = cls

    def __repr__(self):
        return "Ref(%s)" % self.cls


class TOpt(T):
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return "Opt(%r)" % (self.t,)


class TSeq(T):
    def __init__(self, elt, kind="list"):
        self.elt, self.kind = elt, kind

    def __repr__(self):
        return "Seq(%r,%s)" % (self.elt, self.kind)


class TRec(T):
    def __init__(self, name, fields):
        self.name, self.fields = name, dict(fields)

    def __repr__(self):
        return "Rec(%s)" % self.name


class TTup(T):
    def __init__(self, ts):
        self.ts = list(ts)

    def __repr__(self):
        return "Tup%r" % (self.ts,)


class TDict(T):
    """dict with int / (tag,int) / str keys -> V.  size tracked for len()."""

    def __init__(self, k, v):
        self.k, self.v = k, v

    def __repr__(self):
        return "Dict(%r,%r)" % (self.k, self.v)


class TSet(T):
    def __init__(self, elt):
        self.elt = elt


class _Ign(T):
    """a value the contracts do not track: reads give an unknown value, writes are dropped"""

    def __repr__(self):
        return "ign"


TIgn = _Ign()


def same_type(a, b):
    return repr(a) == repr(b)


# -------------------------------------------------------------------- values
class V:
    pass


class VS(V):
    """scalar: z3 term + type"""

    def __init__(self, t, ty):
        self.t, self.ty = t, ty

    def __repr__(self):
        return "VS(%s)" % (self.t,)


def VInt(x):
    return VS(x if z3.is_expr(x) else z3.IntVal(x), TInt)


def VBool(x):
    return VS(x if z3.is_expr(x) else z3.BoolVal(x), TBool)


class VNone(V):
    def __repr__(self):
        return "None"


NONE = VNone()


class VLit(V):
    """python string / bytes / float / ellipsis literal (concrete)"""

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "VLit(%r)" % (self.v,)


class VRef(V):
    def __init__(self, t, cls, maybe_null=True):
        self.t, self.cls, self.maybe_null = t, cls, maybe_null

    def __repr__(self):
        return "VRef(%s:%s)" % (self.t, self.cls)


class VOpt(V):
    def __init__(self, none, val):
        self.none, self.val = none, val


class VSeq(V):
    def __init__(self, ln, at, elt, kind="list", items=None, arrs=None):
        self.ln = ln if z3.is_expr(ln) else z3.IntVal(ln)
        self._at, self.elt, self.kind = at, elt, kind
        self.items = items
        self.arrs = arrs
        self.base = None      # (sliced sequence, start) when this is a slice

    def at(self, i):
        if not z3.is_expr(i):
            i = z3.IntVal(i)
        if self.items is not None and z3.is_int_value(i):
            k = i.as_long()
            if 0 <= k < len(self.items):
                return self.items[k]
        return self._at(i)

    def __repr__(self):
        return "VSeq(len=%s,%s)" % (self.ln, self.kind)


class VSeq2(V):
    """2-D int tensor (transient)"""

    def __init__(self, rows, cols, at, elt):
        self.rows, self.cols, self.at, self.elt = rows, cols, at, elt


class VTup(V):
    def __init__(self, items):
        self.items = list(items)


class VRec(V):
    def __init__(self, name, fields):
        self.name, self.fields = name, dict(fields)


class VDict(V):
    def __init__(self, dom, get, size, kty, vty, arrs=None):
        # dom: key term -> Bool ; get: key term -> V ; size: Int
        self.dom, self.get, self.size, self.kty, self.vty = dom, get, size, kty, vty
        self.arrs = arrs


class VSet(V):
    def __init__(self, mem, size, elt):
        self.mem, self.size, self.elt = mem, size, elt


class VCell(V):
    """reference to a local mutable container"""

    def __init__(self, cid):
        self.cid = cid


class VLoc(V):
    """reference to a container stored in a heap field"""

    def __init__(self, cls, field, ref, ty, ver):
        self.cls, self.field, self.ref, self.ty, self.ver = cls, field, ref, ty, ver


class VFunc(V):
    def __init__(self, fn, name="", bound=None, node=None, mod=None, env=None, cls=None):
        self.fn, self.name, self.bound = fn, name, bound
        self.node, self.mod, self.env, self.cls = node, mod, env, cls


class VModule(V):
    def __init__(self, name):
        self.name = name


class VClass(V):
    def __init__(self, name, mod=None):
        self.name, self.mod = name, mod


class VOpaque(V):
    """a value we know nothing about (e.g. a logger, a device)"""

    def __init__(self, tag=""):
        self.tag = tag


# ------------------------------------------------------------------ flatten
def sorts_of(t):
    if t is TIgn:
        return []
    if isinstance(t, _Scalar):
        return [t.sort]
    if isinstance(t, TRef):
        return [z3.IntSort()]
    if isinstance(t, TOpt):
        return [z3.BoolSort()] + sorts_of(t.t)
    if isinstance(t, TRec):
        return [s for f in t.fields.values() for s in sorts_of(f)]
    if isinstance(t, TTup):
        return [s for f in t.ts for s in sorts_of(f)]
    if isinstance(t, TSeq):
        return [z3.IntSort()] + [z3.ArraySort(z3.IntSort(), s) for s in sorts_of(t.elt)]
    if isinstance(t, TDict):
        k = key_sort(t.k)
        return [z3.IntSort(), z3.ArraySort(k, z3.BoolSort())] + [z3.ArraySort(k, s) for s in sorts_of(t.v)]
    if isinstance(t, TSet):
        return [z3.IntSort(), z3.ArraySort(key_sort(t.elt), z3.BoolSort())]
    raise Unsupported("no sorts for %r" % (t,))


def key_sort(t):
    ss = sorts_of(t)
    if len(ss) != 1:
        raise Unsupported("composite dict key %r" % (t,))
    return ss[0]


def unflatten(t, cs):
    """consume terms from list cs"""
    if t is TIgn:
        return VOpaque("untracked")
    if isinstance(t, _Scalar):
        return VS(cs.pop(0), t)
    if isinstance(t, TRef):
        return VRef(cs.pop(0), t.cls)
    if isinstance(t, TOpt):
        n = cs.pop(0)
        return VOpt(n, unflatten(t.t, cs))
    if isinstance(t, TRec):
        return VRec(t.name, {k: unflatten(f, cs) for k, f in t.fields.items()})
    if isinstance(t, TTup):
        return VTup([unflatten(f, cs) for f in t.ts])
    if isinstance(t, TSeq):
        ln = cs.pop(0)
        k = len(sorts_of(t.elt))
        arrs = [cs.pop(0) for _ in range(k)]
        return VSeq(ln, lambda i: unflatten(t.elt, [sel(a, i) for a in arrs]), t.elt, t.kind, arrs=arrs)
    if isinstance(t, TDict):
        size = cs.pop(0)
        dom = cs.pop(0)
        k = len(sorts_of(t.v))
        arrs = [cs.pop(0) for _ in range(k)]
        return VDict(lambda q: sel(dom, q), lambda q: unflatten(t.v, [sel(a, q) for a in arrs]), size, t.k, t.v,
                     arrs=[dom] + arrs)
    if isinstance(t, TSet):
        size = cs.pop(0)
        m = cs.pop(0)
        return VSet(lambda q: sel(m, q), size, t.elt)
    raise Unsupported("unflatten %r" % (t,))


def sel(a, i):
    """Select with read-over-write simplification on syntactically equal / distinct literals."""
    while True:
        if z3.is_store(a):
            b, j, v = a.arg(0), a.arg(1), a.arg(2)
            if i.eq(j):
                return v
            if z3.is_int_value(i) and z3.is_int_value(j):
                a = b
                continue
        return z3.Select(a, i)


def default_term(sort):
    if sort == z3.IntSort():
        return z3.IntVal(0)
    if sort == z3.BoolSort():
        return z3.BoolVal(False)
    if sort == z3.RealSort():
        return z3.RealVal(0)
    return z3.FreshConst(sort, "dflt")


_intern = {}


def intern_str(s):
    if s not in _intern:
        _intern[s] = 1000003 + len(_intern)
    return z3.IntVal(_intern[s])


def type_of(v, st=None):
    if isinstance(v, VS):
        return v.ty
    if isinstance(v, VRef):
        return TRef(v.cls)
    if isinstance(v, VOpt):
        return TOpt(type_of(v.val, st))
    if isinstance(v, VSeq):
        return TSeq(v.elt, v.kind)
    if isinstance(v, VRec):
        return TRec(v.name, {k: type_of(x, st) for k, x in v.fields.items()})
    if isinstance(v, VTup):
        return TTup([type_of(x, st) for x in v.items])
    if isinstance(v, VDict):
        return TDict(v.kty, v.vty)
    if isinstance(v, VSet):
        return TSet(v.elt)
    if isinstance(v, VLit):
        if isinstance(v.v, str):
            return TStr
        if isinstance(v.v, float):
            return TReal
    if isinstance(v, VNone):
        return TOpt(TInt)
    if isinstance(v, (VCell, VLoc)) and st is not None:
        return type_of(st.rd(v), st)
    raise Unsupported("type of %r" % (v,))


def coerce(v, t, st=None):
    """coerce value to type t (None -> Opt, T -> Opt T, literals ...)"""
    if t is TIgn:
        return VOpaque("untracked")
    if isinstance(v, (VCell, VLoc)) and st is not None:
        v = st.rd(v)
    if isinstance(t, TOpt):
        if isinstance(v, VNone):
            cs = [default_term(s) for s in sorts_of(t.t)]
            return VOpt(z3.BoolVal(True), unflatten(t.t, cs))
        if isinstance(v, VOpt):
            return VOpt(v.none, coerce(v.val, t.t, st))
        return VOpt(z3.BoolVal(False), coerce(v, t.t, st))
    if isinstance(v, VOpt) and isinstance(t, TRef) and (z3.is_true(z3.simplify(v.none)) or isinstance(v.val, VRef)):
        return VRef(z3.IntVal(0) if z3.is_true(z3.simplify(v.none)) else z3.If(v.none, z3.IntVal(0), v.val.t), t.cls)      # None is the null reference
    if isinstance(v, VOpt):
        raise Unsupported("optional value where %r expected" % (t,))
    if isinstance(t, TRef):
        if isinstance(v, VNone):
            return VRef(z3.IntVal(0), t.cls)
        if isinstance(v, VRef):
            return v
        if isinstance(v, VOpaque):
            return VRef(z3.FreshInt("opq"), t.cls)
    if isinstance(t, _Scalar):
        if isinstance(v, VLit):
            if t is TStr and isinstance(v.v, (str, bytes)):
                return VS(intern_str(v.v), TStr)
            if t is TText and isinstance(v.v, str):
                return VS(z3.StringVal(v.v), TText)
            if t is TReal and isinstance(v.v, (int, float)):
                if v.v in (float("inf"),):
                    return VS(z3.RealVal(10**30), TReal)
                return VS(z3.RealVal(str(v.v)), TReal)
            if t is TAny:
                return VS(intern_str(repr(v.v)), TAny)
        if isinstance(v, VOpaque) :
            return VS(z3.FreshConst(t.sort, "opq"), t)
        if isinstance(v, VS):
            if v.ty is t:
                return v
            if t is TInt and v.ty is TBool:
                return VS(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)), TInt)
            if t is TBool and v.ty is TInt:
                return VS(v.t != 0, TBool)
            if t is TReal and v.ty is TInt:
                return VS(z3.ToReal(v.t), TReal)
            if t.sort == v.t.sort():
                return VS(v.t, t)
        if t is TKey:
            return VS(enc_key(v), TKey)
    if isinstance(t, TSeq) and isinstance(v, VSeq):
        if v.items is not None:
            its = [coerce(x, t.elt, st) for x in v.items]
            return mk_items(its, t.elt, t.kind)
        if same_type(v.elt, t.elt):
            r = VSeq(v.ln, v._at, v.elt, t.kind, v.items, v.arrs)
            r.base = v.base
            return r
        return VSeq(v.ln, lambda i: coerce(v.at(i), t.elt, st), t.elt, t.kind)
    if isinstance(t, TSeq) and isinstance(v, VTup):
        return mk_items([coerce(x, t.elt, st) for x in v.items], t.elt, t.kind)
    if isinstance(t, TTup) and isinstance(v, VTup) and len(v.items) == len(t.ts):
        return VTup([coerce(x, u, st) for x, u in zip(v.items, t.ts)])
    if isinstance(t, TTup) and isinstance(v, VSeq) and v.items is not None and len(v.items) == len(t.ts):
        return VTup([coerce(x, u, st) for x, u in zip(v.items, t.ts)])
    if isinstance(t, TRec) and t.name == "$dict" and isinstance(v, VRec) and v.name == "$dict" and set(t.fields) <= set(v.fields):
        return VRec("$dict", {k: coerce(v.fields[k], u, st) for k, u in t.fields.items()})     # keys the contracts do not track are left out
    if isinstance(t, TRec) and t.name == "$odict":
        if isinstance(v, VDict) and v.vty is None:
            return VRec("$odict", {k: coerce(NONE, u, st) for k, u in t.fields.items()})
        if isinstance(v, VRec) and v.name == "$dict":
            return VRec("$odict", {k: coerce(v.fields.get(k, NONE), u, st) for k, u in t.fields.items()})
    if isinstance(t, TRec) and isinstance(v, VRec):
        return VRec(v.name, {k: coerce(v.fields[k], u, st) for k, u in t.fields.items()})
    if isinstance(t, TDict) and isinstance(v, VDict):
        if v.vty is None:      # empty literal
            return empty_dict(t.k, t.v)
        return v
    if isinstance(t, TSet) and isinstance(v, VSet):
        if v.elt is None:
            return VSet(lambda q: z3.BoolVal(False), z3.IntVal(0), t.elt)
        return v
    raise Unsupported("cannot coerce %r to %r" % (v, t))


def empty_dict(k, v):
    cs = [default_term(s) for s in sorts_of(v)] if v is not None else []
    return VDict(lambda q: z3.BoolVal(False), lambda q: unflatten(v, list(cs)), z3.IntVal(0), k, v)


def enc_key(v):
    if isinstance(v, VS):
        if v.ty is TKey:
            return v.t
        if v.ty is TInt:
            return KeySort.KInt(v.t)
    if isinstance(v, VNone):
        return KeySort.KNone
    if isinstance(v, VTup) and len(v.items) == 2:
        a, b = v.items
        if isinstance(a, VOpt):
            a = a.val
        if isinstance(a, VLit):
            a = coerce(a, TStr)
        if isinstance(a, VS) and a.t.sort() == z3.IntSort() and isinstance(b, VS) and b.t.sort() == z3.IntSort():
            return KeySort.KPair(a.t, b.t)
    raise Unsupported("dict key %r" % (v,))


def mk_items(items, elt=None, kind="list"):
    items = list(items)
    if elt is None:
        elt = type_of(items[0]) if items else None

    def at(i):
        if not items:
            if elt is None:
                raise Unsupported("element of untyped empty list")
            return unflatten(elt, [z3.FreshConst(s, "oob") for s in sorts_of(elt)])
        r = items[-1]
        for k in range(len(items) - 2, -1, -1):
            r = ite(i == k, items[k], r)
        return r

    return VSeq(z3.IntVal(len(items)), at, elt, kind, items=items)


def ite(c, a, b):
    """if-then-else on values"""
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if isinstance(a, VNone) and isinstance(b, VNone):
        return a
    if isinstance(a, VNone):
        if isinstance(b, VRef):
            return VRef(z3.If(c, z3.IntVal(0), b.t), b.cls)
        bb = b if isinstance(b, VOpt) else VOpt(z3.BoolVal(False), b)
        return VOpt(z3.Or(c, bb.none), bb.val)
    if isinstance(b, VNone):
        return ite(z3.Not(c), b, a)
    if isinstance(a, VOpt) or isinstance(b, VOpt):
        aa = a if isinstance(a, VOpt) else VOpt(z3.BoolVal(False), a)
        bb = b if isinstance(b, VOpt) else VOpt(z3.BoolVal(False), b)
        return VOpt(z3.If(c, aa.none, bb.none), ite(c, aa.val, bb.val))
    if isinstance(a, VLit) and isinstance(b, VLit) and a.v == b.v:
        return a
    if isinstance(a, VLit) and isinstance(b, VS):
        a = coerce(a, b.ty)
    if isinstance(b, VLit) and isinstance(a, VS):
        b = coerce(b, a.ty)
    if isinstance(a, VLit) and isinstance(b, VLit):
        t = TReal if isinstance(a.v, float) else TStr
        a, b = coerce(a, t), coerce(b, t)
    if isinstance(a, VS) and isinstance(b, VS):
        if a.ty is not b.ty:
            if TReal in (a.ty, b.ty):
                a, b = coerce(a, TReal), coerce(b, TReal)
            elif {a.ty, b.ty} == {TInt, TBool}:
                a, b = coerce(a, TInt), coerce(b, TInt)
            else:
                raise Unsupported("ite type mismatch")
        return VS(z3.If(c, a.t, b.t), a.ty)
    if isinstance(a, VRef) and isinstance(b, VRef):
        return VRef(z3.If(c, a.t, b.t), a.cls)
    if isinstance(a, VSeq) and isinstance(b, VSeq):
        elt = a.elt if a.elt is not None else b.elt
        return VSeq(z3.If(c, a.ln, b.ln), lambda i: ite(c, a.at(i), b.at(i)), elt, a.kind)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, VRec) and x.name == "$odict" and isinstance(y, VDict) and y.vty is None:
            e = VRec("$odict", {k: VOpt(z3.BoolVal(True), f.val) for k, f in x.fields.items()})
            return ite(c, x, e) if x is a else ite(c, e, x)
    if isinstance(a, VRec) and isinstance(b, VRec) and a.name == b.name:
        return VRec(a.name, {k: ite(c, a.fields[k], b.fields[k]) for k in a.fields})
    if isinstance(a, VTup) and isinstance(b, VTup) and len(a.items) == len(b.items):
        return VTup([ite(c, x, y) for x, y in zip(a.items, b.items)])
    raise Unsupported("ite of %r / %r" % (a, b))


def flatten(v, t, st):
    """list of z3 terms for value v at type t (may add definitional axioms to st)"""
    if t is TIgn:
        return []
    v = coerce(v, t, st)
    if isinstance(t, _Scalar):
        return [v.t]
    if isinstance(t, TRef):
        return [v.t]
    if isinstance(t, TOpt):
        return [v.none] + flatten(v.val, t.t, st)
    if isinstance(t, TRec):
        return [x for k, f in t.fields.items() for x in flatten(v.fields[k], f, st)]
    if isinstance(t, TTup):
        return [x for a, f in zip(v.items, t.ts) for x in flatten(a, f, st)]
    if isinstance(t, TSeq):
        if v.arrs is not None:
            return [v.ln] + list(v.arrs)
        ss = sorts_of(t.elt)
        arrs = [z3.FreshConst(z3.ArraySort(z3.IntSort(), s), "sq") for s in ss]
        if v.items is not None:
            for k, it in enumerate(v.items):
                for a, x in zip(arrs, flatten(it, t.elt, st)):
                    st.assume(z3.Select(a, k) == x)
        else:
            i = z3.FreshInt("i")
            el = v.at(i)
            if nested(t.elt):
                # quantified definition needs closed terms: element must already be array backed
                xs = flatten_pure(el, t.elt)
            else:
                xs = flatten(el, t.elt, st)
            for n, (a, x) in enumerate(zip(arrs, xs)):
                y = z3.simplify(x)
                if z3.is_select(y) and y.arg(1).eq(i) and not _mentions(y.arg(0), i):
                    arrs[n] = y.arg(0)          # a plain copy: same array, same length
                    continue
                st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < v.ln), z3.Select(a, i) == x),
                                    patterns=[z3.Select(a, i)]))
        v.arrs = arrs
        return [v.ln] + arrs
    if isinstance(t, TDict):
        if v.arrs is not None:
            return [v.size] + list(v.arrs)
        k = key_sort(t.k)
        q = z3.FreshConst(k, "k")
        dom = z3.FreshConst(z3.ArraySort(k, z3.BoolSort()), "dom")
        st.assume(z3.ForAll([q], z3.Select(dom, q) == v.dom(q), patterns=[z3.Select(dom, q)]))
        arrs = [z3.FreshConst(z3.ArraySort(k, s), "dv") for s in sorts_of(t.v)]
        xs = flatten_pure(coerce(v.get(q), t.v, st), t.v)
        for a, x in zip(arrs, xs):
            st.assume(z3.ForAll([q], z3.Select(a, q) == x, patterns=[z3.Select(a, q)]))
        v.arrs = [dom] + arrs
        return [v.size] + v.arrs
    if isinstance(t, TSet):
        k = key_sort(t.elt)
        q = z3.FreshConst(k, "k")
        dom = z3.FreshConst(z3.ArraySort(k, z3.BoolSort()), "mem")
        st.assume(z3.ForAll([q], z3.Select(dom, q) == v.mem(q), patterns=[z3.Select(dom, q)]))
        return [v.size, dom]
    raise Unsupported("flatten %r" % (t,))


def nested(t):
    return isinstance(t, (TSeq, TDict, TSet)) or (isinstance(t, TOpt) and nested(t.t)) or (
        isinstance(t, TRec) and any(nested(x) for x in t.fields.values())) or (
        isinstance(t, TTup) and any(nested(x) for x in t.ts))


class _NoAssume:
    def assume(self, f):
        raise Unsupported("nested sequence needs array form")

    def rd(self, v):
        raise Unsupported("nested cell")


def flatten_pure(v, t):
    return flatten(v, t, _NoAssume())


def fresh(t, name="v", st=None):
    cs = [z3.Const(fresh_name(name), s) for s in sorts_of(t)]
    v = unflatten(t, list(cs))
    if st is not None:
        for f in wellformed(v, t):
            st.assume(f)
    return v


def wellformed(v, t):
    if isinstance(t, TSeq):
        return [v.ln >= 0]
    if isinstance(t, TDict):
        return [v.size >= 0]
    if isinstance(t, TSet):
        return [v.size >= 0]
    if isinstance(t, TRef):
        return [v.t >= 0]
    if isinstance(t, TOpt):
        return wellformed(v.val, t.t)
    if isinstance(t, TRec):
        return [f for k, u in t.fields.items() for f in wellformed(v.fields[k], u)]
    if isinstance(t, TTup):
        return [f for x, u in zip(v.items, t.ts) for f in wellformed(x, u)]
    return []


def v_eq(a, b, st=None):
    """z3 Bool: a == b"""
    if isinstance(a, (VCell, VLoc)):
        a = st.rd(a)
    if isinstance(b, (VCell, VLoc)):
        b = st.rd(b)
    if isinstance(a, VNone) and isinstance(b, VNone):
        return z3.BoolVal(True)
    if isinstance(a, VNone):
        a, b = b, a
    if isinstance(b, VNone):
        if isinstance(a, VOpt):
            return a.none
        if isinstance(a, VRef):
            return a.t == 0
        if isinstance(a, VOpaque):
            return z3.FreshBool("opqeq")
        return z3.BoolVal(False)
    if isinstance(a, VOpt) and isinstance(b, VOpt):
        return z3.Or(z3.And(a.none, b.none), z3.And(z3.Not(a.none), z3.Not(b.none), v_eq(a.val, b.val, st)))
    if isinstance(a, VOpt):
        return z3.And(z3.Not(a.none), v_eq(a.val, b, st))
    if isinstance(b, VOpt):
        return v_eq(b, a, st)
    if isinstance(a, VLit) and isinstance(b, VLit):
        return z3.BoolVal(a.v == b.v)
    if isinstance(a, VLit) and isinstance(b, VS):
        a, b = b, a
    if isinstance(a, VS) and isinstance(b, VLit):
        if a.ty in (TInt, TBool) and isinstance(b.v, (str, bytes)):
            return z3.BoolVal(False)
        b = coerce(b, a.ty)
    if isinstance(a, VS) and isinstance(b, VS):
        if a.ty is not b.ty:
            if TReal in (a.ty, b.ty):
                a, b = coerce(a, TReal), coerce(b, TReal)
            elif TKey in (a.ty, b.ty):
                a, b = VS(enc_key(a), TKey), VS(enc_key(b), TKey)
            elif {a.ty, b.ty} == {TInt, TBool}:
                a, b = coerce(a, TInt), coerce(b, TInt)
            elif {a.ty, b.ty} in ({TInt, TStr}, {TInt, TText}):
                return z3.BoolVal(False)
        return a.t == b.t
    if isinstance(a, VRef) and isinstance(b, VRef):
        return a.t == b.t
    if isinstance(a, VTup) and isinstance(b, VTup):
        if len(a.items) != len(b.items):
            return z3.BoolVal(False)
        return z3.And([v_eq(x, y, st) for x, y in zip(a.items, b.items)] + [z3.BoolVal(True)])
    if isinstance(a, VRec) and isinstance(b, VRec):
        return z3.And([v_eq(a.fields[k], b.fields[k], st) for k in a.fields])
    if isinstance(a, VSeq) and isinstance(b, VSeq):
        return seq_eq(a, b, st)
    if isinstance(a, VSeq) and isinstance(b, VTup) or isinstance(a, VTup) and isinstance(b, VSeq):
        return z3.BoolVal(False)
    raise Unsupported("equality of %r and %r" % (a, b))


def seq_eq(a, b, st=None):
    if a.base is not None and b.base is not None and a.base[1].eq(b.base[1]):
        # two slices that start at the same position: compare in the coordinates of the sliced lists
        (x, lo), (y, _) = a.base, b.base
        i = z3.FreshInt("q")
        c = z3.And(lo <= i, i < lo + a.ln)
        e = v_eq(x.at(i), y.at(i), st)
        return z3.And(a.ln == b.ln, forall(i, c, e))
    if a.items is not None and b.items is not None:
        if len(a.items) != len(b.items):
            return z3.BoolVal(False)
        return z3.And([v_eq(x, y, st) for x, y in zip(a.items, b.items)] + [z3.BoolVal(True)])
    for p, q in ((a, b), (b, a)):
        if p.items is not None:
            return z3.And([q.ln == len(p.items)] + [v_eq(x, q.at(z3.IntVal(k)), st) for k, x in enumerate(p.items)])
    i = z3.FreshInt("i")
    return z3.And(a.ln == b.ln, forall(i, z3.And(0 <= i, i < a.ln), v_eq(a.at(i), b.at(i), st)))


def _mentions(t, x):
    todo, seen = [t], set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if e.eq(x):
            return True
        todo.extend(e.children() if not z3.is_quantifier(e) else [e.body()])
    return False


def _logical(t):
    todo, seen = [t], set()
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e) or (z3.is_app(e) and e.num_args() and e.decl().kind() in _LOGIC):
            return True
        todo.extend(e.children())
    return False


_LOGIC = (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_IMPLIES, z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT)


def named(x, st):
    """a constant for a value that could not occur in a matching pattern"""
    y = z3.simplify(x)
    if st is None or not _logical(y):
        return y if z3.is_const(y) or _logical(x) else x
    c = z3.FreshConst(y.sort(), "val")
    st.assume(c == y)
    return c


def _mentions(t, v):
    if isinstance(t, z3.PatternRef):
        return True
    seen, todo = set(), [t]
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.eq(v):
            return True
        todo.extend(x.children())
    return False


def mpat(*ts):
    """multi-pattern, or None when a term is closed (z3 rejects those)"""
    return None if any(z3.is_int_value(t) or (z3.is_const(t) and t.num_args() == 0) for t in ts) else z3.MultiPattern(*ts)


def forall(vs, cond, body, pats=None):
    if not isinstance(vs, (list, tuple)):
        vs = [vs]
    f = z3.Implies(cond, body) if cond is not None else body
    pats = [p for p in pats or () if p is not None]
    pats = [p for p in pats if isinstance(p, z3.PatternRef) or not _logical(p)]
    pats = [p for p in pats if any(_mentions(p, v) for v in vs)]
    if pats:
        try:
            return z3.ForAll(list(vs), f, patterns=pats)
        except z3.Z3Exception:
            pass
    return z3.ForAll(list(vs), f)


# --------------------------------------------------------------------- heap
class Heap:
    """immutable-by-copy map (cls, field) -> [arrays]"""

    def __init__(self, schema):
        self.schema = schema     # cls -> {field: T}
        self.m = {}
        self.ver = {}

    def copy(self):
        h = Heap(self.schema)
        h.m = dict(self.m)
        h.ver = dict(self.ver)
        return h

    def ftype(self, cls, field):
        try:
            return self.schema[cls][field]
        except KeyError:
            raise Unsupported("no field %s.%s in the contract's schema" % (cls, field))

    def arrs(self, cls, field):
        k = (cls, field)
        if k not in self.m:
            t = self.ftype(cls, field)
            self.m[k] = [z3.Const("H0.%s.%s.%d" % (cls, field, j), z3.ArraySort(z3.IntSort(), s))
                         for j, s in enumerate(sorts_of(t))]
        return self.m[k]

    def alive(self, cls):
        k = (cls, "$alive")
        if k not in self.m:
            self.m[k] = [z3.Const("H0.%s.alive" % cls, z3.ArraySort(z3.IntSort(), z3.BoolSort()))]
        return self.m[k][0]

    def get(self, cls, field, ref):
        t = self.ftype(cls, field)
        return unflatten(t, [sel(a, ref) for a in self.arrs(cls, field)])

    def put(self, cls, field, ref, v, st):
        t = self.ftype(cls, field)
        xs = [named(x, st) for x in flatten(v, t, st)]
        self.m[(cls, field)] = [z3.Store(a, ref, x) for a, x in zip(self.arrs(cls, field), xs)]

    def havoc(self, cls, field):
        if field == "$alive":
            old = self.alive(cls)
            new = z3.Const(fresh_name("alive.%s" % cls), old.sort())
            self.m[(cls, field)] = [new]
            r = z3.FreshInt("r")
            return [z3.ForAll([r], z3.Implies(z3.Select(old, r), z3.Select(new, r)),
                              patterns=[z3.Select(new, r), z3.Select(old, r)][:1])]
        old = self.arrs(cls, field)
        self.m[(cls, field)] = [z3.Const(fresh_name("H.%s.%s" % (cls, field)), a.sort()) for a in old]
        return []

    # convenience for specs
    def i(self, cls, field, ref):
        v = self.get(cls, field, ref)
        return v.t


class St:
    def __init__(self, heap):
        self.pc = []
        self.heap = heap
        self.cells = {}
        self.env = {}
        self.new = []         # allocated (ref term, cls)
        self.writes = []      # (cls, field, ref term)
        self.ghost = {}
        self.dead = False
        self.notes = []

    def copy(self):
        s = St(self.heap.copy())
        s.pc = list(self.pc)
        s.cells = dict(self.cells)
        s.env = dict(self.env)
        s.new = list(self.new)
        s.writes = list(self.writes)
        s.ghost = dict(self.ghost)
        s.notes = list(self.notes)
        return s

    def assume(self, f):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if not z3.is_true(f):
            self.pc.append(f)

    def newcell(self, v):
        c = next(_ctr)
        self.cells[c] = v
        return VCell(c)

    def rd(self, v):
        while True:
            if isinstance(v, VCell):
                v = self.cells[v.cid]
            elif isinstance(v, VLoc):
                if self.heap.ver.get((v.cls, v.field), 0) != v.ver:
                    raise Unsupported("use of a stale alias of %s.%s" % (v.cls, v.field))
                return self.heap.get(v.cls, v.field, v.ref)
            else:
                return v

    def wr(self, loc, v):
        while isinstance(loc, VCell) and isinstance(self.cells[loc.cid], (VCell, VLoc)):
            loc = self.cells[loc.cid]
        if isinstance(loc, VCell):
            self.cells[loc.cid] = v
        elif isinstance(loc, VLoc):
            if self.heap.ver.get((loc.cls, loc.field), 0) != loc.ver:
                raise Unsupported("write through a stale alias of %s.%s" % (loc.cls, loc.field))
            self.heap.put(loc.cls, loc.field, loc.ref, v, self)
            self.writes.append((loc.cls, loc.field, loc.ref))
        else:
            raise Unsupported("mutation of a non-location")


# -------------------------------------------------------------- obligations
class Obligation:
    __slots__ = ("fn", "label", "kind", "status", "secs", "detail", "backend", "line", "model")

    def __init__(self, fn, label, kind, line=None):
        self.fn, self.label, self.kind, self.line = fn, label, kind, line
        self.status = "?"
        self.secs = 0.0
        self.detail = ""
        self.backend = ""
        self.model = None

    def d(self):
        return {"function": self.fn, "obligation": self.label, "kind": self.kind, "status": self.status,
                "secs": round(self.secs, 3), "backend": self.backend, "line": self.line, "detail": self.detail}


# ---------------------------------------------------- non-linear arithmetic
# products / quotients of two non-constant integers are opaque functions with
# the lemmas below; every lemma is proved against the real operators (see
# nl_lemma_obligations) on each run before it is used.
_I = z3.IntSort()
IMUL = z3.Function("imul", _I, _I, _I)
IDIV = z3.Function("idiv", _I, _I, _I)
IMOD = z3.Function("imod", _I, _I, _I)


def _lit(t):
    return z3.is_int_value(z3.simplify(t))


def mul(a, b):
    a = a if z3.is_expr(a) else z3.IntVal(a)
    b = b if z3.is_expr(b) else z3.IntVal(b)
    return a * b if _lit(a) or _lit(b) else IMUL(a, b)


def div(a, b):
    b = b if z3.is_expr(b) else z3.IntVal(b)
    return a / b if _lit(b) else IDIV(a, b)


def mod(a, b):
    b = b if z3.is_expr(b) else z3.IntVal(b)
    return a % b if _lit(b) else IMOD(a, b)


def _nl_lemmas(M, D, R):
    """[(name, vars, formula, patterns-or-None)] over multiplication M, division D, remainder R"""
    x, y, c, P, Q = z3.Ints("x y c P Q")
    return [
        ("mul-1", [c], M(z3.IntVal(1), c) == c, [M(z3.IntVal(1), c)]),
        ("mul-0", [c], M(z3.IntVal(0), c) == 0, [M(z3.IntVal(0), c)]),
        ("mul-comm", [x, y], M(x, y) == M(y, x), [M(x, y)]),
        ("mul-unit", [x, c], z3.Implies(c == 1, M(x, c) == x), [M(x, c)]),
        ("div-unit", [x, c], z3.Implies(c == 1, z3.And(D(x, c) == x, R(x, c) == 0)), [D(x, c)]),
        ("mod-unit", [x, c], z3.Implies(c == 1, R(x, c) == 0), [R(x, c)]),
        ("divmod", [x, c], z3.Implies(c > 0, z3.And(R(x, c) >= 0, R(x, c) < c, x == M(D(x, c), c) + R(x, c))), [D(x, c)]),
        ("divmod2", [x, c], z3.Implies(c > 0, z3.And(R(x, c) >= 0, R(x, c) < c, x == M(D(x, c), c) + R(x, c))), [R(x, c)]),
        ("div-nonneg", [x, c], z3.Implies(z3.And(c > 0, x >= 0), z3.And(D(x, c) >= 0, D(x, c) <= x)), [D(x, c)]),
        ("div-of-row", [x, P, c], z3.Implies(z3.And(c > 0, M(P, c) <= x, x < M(P, c) + c), z3.And(D(x, c) == P, R(x, c) == x - M(P, c))),
         [z3.MultiPattern(D(x, c), M(P, c))]),
        ("mul-mono", [P, Q, c], z3.Implies(z3.And(c > 0, P < Q), M(P, c) + c <= M(Q, c)), [z3.MultiPattern(M(P, c), M(Q, c))]),
        ("mul-nonneg", [P, c], z3.Implies(z3.And(c >= 0, P >= 0), M(P, c) >= 0), [M(P, c)]),
        ("mul-lower", [P, c], z3.Implies(z3.And(c >= 1, P >= 1), z3.And(M(P, c) >= P, M(P, c) >= c)), [M(P, c)]),
    ]


def nl_axioms():
    return [z3.ForAll(vs, f, patterns=ps) for _, vs, f, ps in _nl_lemmas(IMUL, IDIV, IMOD)]


def nl_lemma_obligations():
    """prove every lemma about the real operators; [(name, proved)]"""
    out = []
    x, y, c, P, Q = z3.Ints("x y c P Q")
    D, R = z3.Ints("dq rq")
    for name, vs, f, ps in _nl_lemmas(lambda a, b: a * b, lambda a, b: a / b, lambda a, b: a % b):
        ok = False
        for tac in ("", "qfnia"):
            s = z3.Solver() if not tac else z3.Tactic(tac).solver()
            s.set("timeout", 20000)
            if name == "div-of-row":
                # instance of the uniqueness of quotient and remainder
                d, r = z3.Ints("d r")
                s.add(c > 0, P * c <= x, x < P * c + c, x == d * c + r, r >= 0, r < c)
                s.add(z3.Or(z3.And(d > P, d * c >= P * c + c), z3.And(d < P, d * c + c <= P * c), d == P))
                s.add(z3.Not(z3.And(d == P, r == x - P * c)))
            elif name == "mul-mono":
                k = z3.Int("k")
                s.add(c > 0, k >= 1, k * c >= c, Q == P + k, z3.Not(P * c + c <= (P + k) * c))
            else:
                s.add(z3.Not(f))
            if s.check() == z3.unsat:
                ok = True
                break
        out.append((name, ok))
    return out


TIMEOUT_MS = int(os.environ.get("DV_TIMEOUT_MS", "8000"))
NL_AXIOMS = nl_axioms()       # proved lemmas (see nl_lemma_obligations)
AXIOMS = list(NL_AXIOMS)
MONITORS = {}      # (class, lock attribute) -> (protected fields [(cls, fld)], classes other threads allocate, invariant(heap, ref))


# ------------------------------------------------------------------ finite sums
_AI = z3.ArraySort(_I, _I)
SUM1 = z3.Function("SUM1", _AI, _I, _I)      # sum of a[0..n); SUM1 unfolds once, SUM0 does not (fuel)
SUM0 = z3.Function("SUM0", _AI, _I, _I)
_SDIFF = z3.Function("SDIFF", _AI, _AI, _I, _I)
_SNEG = z3.Function("SNEG", _AI, _I, _I, _I)


def sum_axioms():
    """facts about S(a, n) = a[0] + ... + a[n-1] (S = 0 for n <= 0); proved by sum_lemma_obligations"""
    a, b = z3.Const("a", _AI), z3.Const("b", _AI)
    n, m = z3.Ints("n m")
    return [
        z3.ForAll([a, n], SUM1(a, n) == SUM0(a, n), patterns=[SUM1(a, n)]),
        z3.ForAll([a, n], z3.Implies(n <= 0, SUM0(a, n) == 0), patterns=[SUM0(a, n)]),
        z3.ForAll([a, n], z3.Implies(n > 0, SUM1(a, n) == SUM0(a, n - 1) + a[n - 1]), patterns=[SUM1(a, n)]),
        z3.ForAll([a, b, n], z3.Or(SUM0(a, n) == SUM0(b, n), z3.And(0 <= _SDIFF(a, b, n), _SDIFF(a, b, n) < n,
                                                                  a[_SDIFF(a, b, n)] != b[_SDIFF(a, b, n)])),
                  patterns=[z3.MultiPattern(SUM0(a, n), SUM0(b, n))]),
        z3.ForAll([a, n, m], z3.Or(n > m, SUM0(a, n) <= SUM0(a, m), z3.And(0 <= _SNEG(a, n, m), n <= _SNEG(a, n, m), _SNEG(a, n, m) < m,
                                                                       a[_SNEG(a, n, m)] < 0)),
                  patterns=[z3.MultiPattern(SUM0(a, n), SUM0(a, m))]),
    ]


def sum_lemma_obligations():
    """extensionality and monotonicity of finite sums, each by induction on the upper bound"""
    S = z3.Function("S", _AI, _I, _I)
    a, b = z3.Const("a", _AI), z3.Const("b", _AI)
    n, m, k = z3.Ints("n m k")
    rec = lambda x, t: [z3.Implies(t <= 0, S(x, t) == 0), z3.Implies(t > 0, S(x, t) == S(x, t - 1) + x[t - 1])]
    agree = lambda t: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < t), a[k] == b[k]))
    out = []
    out.append(("sum-ext", rec(a, n) + rec(b, n) + [z3.Implies(z3.And(n > 0, agree(n - 1)), S(a, n - 1) == S(b, n - 1)), agree(n)], S(a, n) == S(b, n)))
    nn = lambda t: z3.ForAll([k], z3.Implies(z3.And(0 <= k, n <= k, k < t), a[k] >= 0))
    out.append(("sum-mono", rec(a, n) + rec(a, m) + [z3.Implies(z3.And(n <= m - 1, nn(m - 1)), S(a, n) <= S(a, m - 1)), nn(m), n <= m], S(a, n) <= S(a, m)))
    return out


_sum_memo = {}


def total_of(st, ln, fn):
    """term for fn(0) + ... + fn(ln-1); adds the definition of the summand array to the state"""
    i = z3.Int("sum!i")
    body = z3.simplify(fn(i))
    key = body.sexpr()
    if key not in _sum_memo:
        _sum_memo[key] = (z3.FreshConst(_AI, "summand"), body)
    arr, _ = _sum_memo[key]
    st.assume(z3.ForAll([i], arr[i] == body, patterns=[arr[i]]))
    return SUM1(arr, ln)


def _solver(timeout, mbqi):
    s = z3.Solver()
    s.set("timeout", timeout)
    s.set("random_seed", 0)
    if not mbqi:
        s.set("auto_config", False)
        s.set("smt.mbqi", False)
    return s


def simp(f):
    return z3.simplify(f) if z3.is_expr(f) else f


STATS = {}
_SOLVERS = None


def _cli():
    global _SOLVERS
    if _SOLVERS is None:
        import shutil
        _SOLVERS = [(n, c) for n, c in (("cvc5", ["cvc5", "--lang=smt2", "--tlimit=%d"]), ("z3-cli", ["z3-new", "-smt2", "-T:%d"])) if shutil.which(c[0])]
    return _SOLVERS


def portfolio(fs, timeout):
    """run the external solvers side by side on the same query; (status, backend)"""
    import subprocess, tempfile, os, time
    s = z3.Solver()
    s.add(*fs)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    fd, path = tempfile.mkstemp(suffix=".smt2", prefix="dv_", dir=os.environ.get("DV_TMP") or None)
    procs = []
    try:
        with os.fdopen(fd, "w") as f:
            f.write(txt)
        for n, c in _cli():
            arg = [x % (timeout if n == "cvc5" else max(1, timeout // 1000)) if "%d" in x else x for x in c]
            procs.append((n, subprocess.Popen(arg + [path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
        end = time.time() + timeout / 1000 + 2
        live = dict(procs)
        while live and time.time() < end:
            for n in list(live):
                if live[n].poll() is not None:
                    o = live.pop(n).stdout.read().split("\n")
                    if "unsat" in o:
                        return "unsat", n
                    if "sat" in o and n == "z3-cli":
                        return "sat", n
            time.sleep(0.02)
        return "unknown", ""
    finally:
        for n, p in procs:
            if p.poll() is None:
                p.kill()
            p.stdout.close()
            p.wait()
        os.unlink(path)


def prove(hyps, goal, timeout=None, axioms=None, want_model=False):
    """returns (status, backend, detail, model); status in proved/refuted/unknown"""
    timeout = timeout or TIMEOUT_MS
    if z3.is_true(goal):
        return "proved", "syntactic", "", None
    g = z3.simplify(goal)
    if z3.is_true(g):
        return "proved", "z3-simplify", "", None
    if z3.is_and(goal):          # conjuncts one by one
        for k in goal.children():
            r = prove(hyps, k, timeout, axioms, want_model)
            if r[0] != "proved":
                return r
        return r
    ax = AXIOMS if axioms is None else axioms
    s = _solver(min(timeout, 2500), False)
    s.add(*ax)
    s.add(*hyps)
    s.add(z3.Not(goal))
    r = s.check()
    if r == z3.unsat:
        return "proved", "z3-ematching", "", None
    if r == z3.sat:
        return "refuted", "z3-ematching", "counter-model", s.model() if want_model else None
    why = s.reason_unknown()
    if prove_split(list(ax) + list(hyps), goal, 3):
        return "proved", "z3-ematching (case split)", "", None
    r, n = portfolio(list(ax) + list(hyps) + [z3.Not(goal)], timeout)
    if r == "unsat":
        return "proved", n, "", None
    if r == "sat":
        s = _solver(timeout, True)
        s.add(*ax)
        s.add(*hyps)
        s.add(z3.Not(goal))
        if s.check() == z3.sat:
            return "refuted", "z3-mbqi", "counter-model", s.model() if want_model else None
    why2 = ""
    # look for a genuine counter-model with the real arithmetic operators
    try:
        a, b = z3.Var(0, _I), z3.Var(1, _I)
        sub = [(IMUL, a * b), (IDIV, a / b), (IMOD, a % b)]
        s = _solver(min(timeout, 4000), True)
        extra = [x for x in ax if not any(x is y for y in NL_AXIOMS)]
        for f in extra + list(hyps) + [z3.Not(goal)]:
            s.add(z3.substitute_funs(f, *sub))
        r = s.check()
        if r == z3.sat:
            return "refuted", "z3-mbqi", "counter-model", s.model() if want_model else None
        if r == z3.unsat:
            return "proved", "z3-mbqi-native", "", None
        why2 = s.reason_unknown()
    except z3.Z3Exception as e:
        why2 += " / %s" % e
    return "unknown", "z3", "%s / %s" % (why, why2), None


def _intro(goal):
    """strip outer universal quantifiers, implications: (hypotheses, conjuncts of the rest)"""
    if z3.is_quantifier(goal) and goal.is_forall():
        vs = [z3.FreshConst(goal.var_sort(i), "sk") for i in range(goal.num_vars())]
        return _intro(z3.substitute_vars(goal.body(), *reversed(vs)))
    if z3.is_implies(goal):
        h, g = _intro(goal.arg(1))
        return [goal.arg(0)] + h, g
    return [], goal


def _closed(t):
    todo, seen = [t], set()
    while todo:
        e = todo.pop()
        if z3.is_var(e) or z3.is_quantifier(e):
            return False
        if e.get_id() not in seen:
            seen.add(e.get_id())
            todo.extend(e.children())
    return True


def _find_rw(t):
    """a closed read-over-write term of t"""
    todo, seen = [t], set()
    best = None
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_quantifier(e):
            todo.append(e.body())
            continue
        if z3.is_app(e):
            if z3.is_select(e) and z3.is_store(e.arg(0)) and _closed(e) and (best is None or len(e.sexpr()) < len(best.sexpr())):
                best = e
            todo.extend(e.children())
    return best


def _quick(fs):
    for auto in (False, True):
        s = _solver(1500, False)
        if auto:
            s.set("auto_config", True)
        s.add(*fs)
        if s.check() == z3.unsat:
            return True
    return False


def prove_split(base, goal, depth):
    hs, g = _intro(goal)
    if z3.is_and(g):
        return all(prove_split(base + hs, k, depth) for k in g.children())
    if z3.is_quantifier(g) and g.is_forall() or z3.is_implies(g):
        return prove_split(base + hs, g, depth)
    t = _find_rw(g)
    if t is None:
        return False
    a, j, v = t.arg(0).arg(0), t.arg(0).arg(1), t.arg(0).arg(2)
    i = t.arg(1)
    for c, r in ((i == j, v), (i != j, z3.Select(a, i))):
        c = z3.simplify(c)
        if z3.is_false(c):
            continue
        g2 = z3.substitute(g, (t, r))
        hy = base + hs + [c]
        if c.decl().kind() == z3.Z3_OP_EQ and z3.is_const(i) and i.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            g2 = z3.substitute(g2, (i, j))
        g2 = z3.simplify(g2)
        if not _quick(hy + [z3.Not(g2)]) and (depth <= 1 or not prove_split(hy, g2, depth - 1)):
            return False
    return True


def feasible(hyps, timeout=400):
    """False only if hyps are proved contradictory"""
    s = _solver(timeout, False)
    s.add(*AXIOMS)
    s.add(*hyps)
    return s.check() != z3.unsat


WIT = z3.Function("$wit", z3.IntSort(), z3.BoolSort())


def exists_w(f, wit=()):
    """exists x. f(x), triggered on a marker so that witnesses of hypotheses are tried for goals (the marker is true everywhere)"""
    x = z3.FreshInt("x")
    return z3.Or([z3.Exists([x], z3.And(WIT(x), f(x)), patterns=[WIT(x)])] + [f(w) for w in wit])


_wx = z3.Int("wx")
AXIOMS.append(z3.ForAll([_wx], WIT(_wx), patterns=[WIT(_wx)]))
