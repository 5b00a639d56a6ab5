"""C24: tensor views (mllm/core/TensorViewImpl.cpp): shapes, row-major strides, contiguity, element counts, addresses -- contracts on clang's AST."""
import z3
from dv.core import *
from dv.pyexec import Contract
from dv import cxx
from dv.cxxlib import in_code

MOD = "cxx.TensorViewImpl"
SRC = "mllm/core/TensorViewImpl.cpp"
cxx.register(MOD, SRC, ["mllm::TensorViewImpl"])
V, S = "TensorViewImpl", "TensorStorage"
TL = TSeq(TInt, "list")
SCHEMA = {V: {"shape_len_": TInt, "storage_offset_": TInt, "shape_": TL, "stride_": TL, "storage_": TOpt(TRef(S)), "attached_views_": TDict(TInt, TInt)},
          S: {"ptr_": TInt, "dtype_": TInt, "size_": TInt, "mem_type_": TInt, "device_": TInt, "custom_32bit_uuid_": TInt, "name_": TL}}
MAXD = 16
SUF = z3.Function("suffix_product", z3.IntSort(), z3.IntSort())      # ghost: product of the dimensions k, k+1, ...
PRE = z3.Function("prefix_product", z3.IntSort(), z3.IntSort())      # ghost: product of the dimensions before k
LANES = z3.Function("lanes_of_type", z3.IntSort(), z3.IntSort())
BYTES = z3.Function("bytes_of_type", z3.IntSort(), z3.IntSort())
M31 = (1 << 31) - 1


def fld(h, f, r):
    return h.get(V, f, r)


def n_(h, r):
    return fld(h, "shape_len_", r).t


def suffix(n, dim):
    """definition of the ghost suffix products, none of which exceeds int32 (a tensor of less than 2^31 elements)"""
    k = z3.Int("k")
    return z3.And(SUF(n) == 1, forall(k, z3.And(0 <= k, k < n), SUF(k) == mul(SUF(k + 1), dim(k)), [SUF(k)]),
                  forall(k, z3.And(0 <= k, k < n), SUF(k) == mul(SUF(k + 1), dim(k)), [dim(k)]),
                  forall(k, z3.And(0 <= k, k <= n), z3.And(0 <= SUF(k), SUF(k) <= M31), [SUF(k)]))


def prefix(n, dim):
    k = z3.Int("k")
    return z3.And(PRE(0) == 1, forall(k, z3.And(0 <= k, k < n), PRE(k + 1) == mul(PRE(k), dim(k)), [dim(k)]),
                  forall(k, z3.And(0 <= k, k <= n), z3.And(0 <= PRE(k), PRE(k) < (1 << 63)), [PRE(k)]))


def dims(n, dim):
    k = z3.Int("k")
    return forall(k, z3.And(0 <= k, k < n), z3.And(0 <= dim(k), dim(k) <= M31), [dim(k)])


def seq(c, a):
    s = c.a(a)
    return s, (lambda k: s.at(k).t)


def wf(h, r):
    return z3.And(0 <= n_(h, r), n_(h, r) <= MAXD, fld(h, "shape_", r).ln == MAXD, fld(h, "stride_", r).ln == MAXD)


def own(h, r, f):
    s = fld(h, f, r)
    return lambda k: s.at(k).t


def kept(c, lst, f, nm):
    """the view's first n entries of f are those of lst"""
    r = c.res.t
    k = z3.Int("k")
    s = fld(c.h, f, r)
    return (nm, forall(k, z3.And(0 <= k, k < lst.ln), s.at(k).t == lst.at(k).t, [s.at(k).t, lst.at(k).t]))


def new(c):
    r = c.res.t
    return [("a new view", z3.And(z3.Select(c.h.alive(V), r), z3.Not(z3.Select(c.h0.alive(V), r)))), ("well-formed", wf(c.h, r))]


def pos(c, a):
    """position of shape / stride / storage / offset in the overloads of create"""
    return {"create_2": {"shape": "p0", "storage": "p1"}, "create_3": {"off": "p0", "shape": "p1", "storage": "p2"},
            "create_4": {"off": "p0", "shape": "p1", "stride": "p2", "storage": "p3"}}[a]


def req_create(name):
    p = pos(None, name)

    def f(c):
        s, d = seq(c, p["shape"])
        out = [("at most 16 dimensions", s.ln <= MAXD), ("dimensions", dims(s.ln, d))]
        if "stride" in p:
            t, _ = seq(c, p["stride"])
            i = z3.Int("i")
            out += [("one stride per dimension", t.ln == s.ln), ("strides are int32", forall(i, z3.And(0 <= i, i < t.ln), in_code(t.at(i).t, "s32"), [t.at(i).t]))]
        else:
            out.append(("ghost suffix products", suffix(s.ln, d)))
        return out
    return f


def ens_create(name):
    p = pos(None, name)

    def f(c):
        r = c.res.t
        s, d = seq(c, p["shape"])
        k = z3.Int("k")
        st = fld(c.h, "stride_", r)
        out = new(c) + [("rank", n_(c.h, r) == s.ln), kept(c, s, "shape_", "shape"),
                        ("storage offset", fld(c.h, "storage_offset_", r).t == (c.a(p["off"]).t if "off" in p else 0)),
                        ("storage", same_storage(c, fld(c.h, "storage_", r), c.a(p["storage"])))]
        if "stride" in p:
            out.append(kept(c, c.a(p["stride"]), "stride_", "strides"))
        else:
            out.append(("row-major strides: the stride of a dimension is the product of the later dimensions",
                        forall(k, z3.And(0 <= k, k < s.ln), st.at(k).t == SUF(k + 1), [st.at(k).t, SUF(k + 1)])))
        return out
    return f


def same_storage(c, a, b):
    a, b = coerce(a, TOpt(TRef(S)), c.st), coerce(b, TOpt(TRef(S)), c.st)
    return z3.And(a.none == b.none, z3.Or(a.none, a.val.t == b.val.t))


# the local view under construction, whatever its name
def local_view(c):
    for k, v in list(c.st.env.items()):
        v = c.st.rd(v)
        if isinstance(v, VOpt):
            v = v.val
        if isinstance(v, VRef) and v.cls == V and k not in ("self",):
            return v.t
    raise KeyError("no local view")


def ints(c, skip=()):
    out = []
    for k, v in list(c.st.env.items()):
        if k in c.args or k.startswith("__") or k in skip:
            continue
        v = c.st.rd(v)
        if isinstance(v, VS) and v.ty is TInt:
            out.append(v.t)
    return out


def nth(c, j):
    x = ints(c)
    if j >= len(x):
        raise KeyError("int %d" % j)
    return x[j]


def inv_create(name):
    p = pos(None, name)
    P = lambda c: c.args[p["shape"]]
    h = lambda c: c.h
    k = z3.Int("k")

    def pre(c, f, lst, m):
        s = fld(c.h, f, local_view(c))
        return forall(k, z3.And(0 <= k, k < m), s.at(k).t == lst.at(k).t, [s.at(k).t, lst.at(k).t])

    def wh(fn):
        def g(c):
            if c.loop.get("idx") is not None:
                raise KeyError("only in index loops")
            return fn(c)
        return g

    def strides(c, lo):
        s = fld(c.h, "stride_", local_view(c))
        return forall(k, z3.And(lo <= k, k < P(c).ln), s.at(k).t == SUF(k + 1), [s.at(k).t, SUF(k + 1)])
    out = [("arrays keep their sizes", lambda c: z3.And(fld(c.h, "shape_", local_view(c)).ln == MAXD, fld(c.h, "stride_", local_view(c)).ln == MAXD)),
           ("rank", lambda c: n_(c.h, local_view(c)) == P(c).ln),
           ("offset", lambda c: fld(c.h, "storage_offset_", local_view(c)).t == (c.args[p["off"]].t if "off" in p else 0)),
           ("whole shape copied", lambda c: pre(c, "shape_", P(c), P(c).ln)),
           ("shape copied so far", lambda c: pre(c, "shape_", P(c), c.i))]
    if "stride" in p:
        out += [("strides copied so far", lambda c: pre(c, "stride_", c.args[p["stride"]], c.i))]
    for j in range(3):
        out += [("counter %d is the position" % j, lambda c, j=j: nth(c, j) == c.i),
                ("counter %d within the shape" % j, wh(lambda c, j=j: z3.And(0 <= nth(c, j), nth(c, j) <= P(c).ln))),
                ("counter %d below the rank" % j, wh(lambda c, j=j: nth(c, j) < P(c).ln)),
                ("counter %d at least -1" % j, wh(lambda c, j=j: -1 <= nth(c, j))),
                ("shape copied up to counter %d" % j, wh(lambda c, j=j: pre(c, "shape_", P(c), nth(c, j))))]
        if "stride" in p:
            out.append(("strides copied up to counter %d" % j, wh(lambda c, j=j: pre(c, "stride_", c.args[p["stride"]], nth(c, j)))))
        else:
            out.append(("strides set from counter %d" % j, wh(lambda c, j=j: strides(c, nth(c, j)))))
            for i in range(3):
                if i != j:
                    out.append(("counter %d is the suffix product after counter %d" % (i, j), wh(lambda c, i=i, j=j: z3.Implies(nth(c, j) >= 0, nth(c, i) == SUF(nth(c, j) + 1)))))
    return out


# ---------------------------------------------------------------- observers
def req_self(c):
    r = c.at("self")
    return [("well-formed", wf(c.h, r)), ("dimensions", dims(n_(c.h, r), own(c.h, r, "shape_"))),
            ("ghost suffix products", suffix(n_(c.h, r), own(c.h, r, "shape_")))]


def ens_contig(c):
    r = c.at("self")
    k = z3.Int("k")
    n = n_(c.h, r)
    st = own(c.h, r, "stride_")
    lo = 0
    if "p0" in c.args:
        q = c.a0("p0").t if hasattr(c, "a0") else c.args["p0"].t
        lo = z3.If(q <= 0, n, z3.If(q > n, 0, n - q))
    full = forall(k, z3.And(lo <= k, k < n), st(k) == SUF(k + 1), [st(k)])
    return [("contiguous exactly when every (last) stride is the product of the later dimensions", c.res.t == full)]


def inv_contig(N):
    def rows(c, lo):
        r = c.args["self"].t
        k = z3.Int("k")
        st = own(c.h, r, "stride_")
        return forall(k, z3.And(lo <= k, k < n_(c.h, r)), st(k) == SUF(k + 1), [st(k)])
    n = lambda c: n_(c.h, c.args["self"].t)
    out = []
    for j in range(2):
        out += [("counter %d below the rank" % j, lambda c, j=j: z3.And(-1 <= nth(c, j), nth(c, j) < n(c))),
                ("counter %d within the rank" % j, lambda c, j=j: z3.And(0 <= nth(c, j), nth(c, j) <= n(c))),
                ("checked after counter %d" % j, lambda c, j=j: rows(c, nth(c, j) + 1)),
                ("checked from counter %d" % j, lambda c, j=j: rows(c, nth(c, j))),
                ("expected stride after counter %d" % j, lambda c, j=j: nth(c, 1 - j) == SUF(nth(c, j) + 1)),
                ("expected stride from counter %d" % j, lambda c, j=j: nth(c, 1 - j) == SUF(nth(c, j)))]
        if N:
            out.append(("counter %d not before the first checked dimension" % j, lambda c, j=j: nth(c, j) >= n(c) - c.st.rd(c.st.env["p0"]).t - 1))
    return out


def req_numel(c):
    r = c.at("self")
    return [("well-formed", wf(c.h, r)), ("dimensions", dims(n_(c.h, r), own(c.h, r, "shape_"))), ("ghost prefix products", prefix(n_(c.h, r), own(c.h, r, "shape_")))]


def inv_numel():
    n = lambda c: n_(c.h, c.args["self"].t)
    out = []
    for j in range(2):
        out += [("counter %d within the rank" % j, lambda c, j=j: z3.And(0 <= nth(c, j), nth(c, j) <= n(c))),
                ("product of the dimensions before counter %d" % j, lambda c, j=j: nth(c, 1 - j) == PRE(nth(c, j)))]
    return out


def ens_clone(c):
    r, o = c.res.t, c.at("self")
    k = z3.Int("k")
    out = new(c) + [("rank", n_(c.h, r) == n_(c.h0, o)), ("storage offset", fld(c.h, "storage_offset_", r).t == fld(c.h0, "storage_offset_", o).t),
                    ("shared storage", same_storage(c, fld(c.h, "storage_", r), fld(c.h0, "storage_", o)))]
    for f in ("shape_", "stride_"):
        a, b = fld(c.h, f, r), fld(c.h0, f, o)
        out.append((f.strip("_"), forall(k, z3.And(0 <= k, k < n_(c.h0, o)), a.at(k).t == b.at(k).t, [a.at(k).t, b.at(k).t])))
    return out


def inv_clone():
    k = z3.Int("k")

    def upto(c, f, m):
        a, b = fld(c.h, f, local_view(c)), fld(c.h0, f, c.args["self"].t)
        return forall(k, z3.And(0 <= k, k < m), a.at(k).t == b.at(k).t, [a.at(k).t, b.at(k).t])
    n = lambda c: n_(c.h0, c.args["self"].t)
    out = [("arrays keep their sizes", lambda c: z3.And(fld(c.h, "shape_", local_view(c)).ln == MAXD, fld(c.h, "stride_", local_view(c)).ln == MAXD)),
           ("rank", lambda c: n_(c.h, local_view(c)) == n(c)),
           ("offset", lambda c: fld(c.h, "storage_offset_", local_view(c)).t == fld(c.h0, "storage_offset_", c.args["self"].t).t)]
    out.append(("counter within the rank", lambda c: z3.And(0 <= nth(c, 0), nth(c, 0) <= n(c))))
    for f in ("shape_", "stride_"):
        out.append(("%s copied so far" % f, lambda c, f=f: upto(c, f, nth(c, 0))))
        out.append(("%s copied" % f, lambda c, f=f: upto(c, f, n(c))))
    return out


def ens_prefix(f):
    def g(c):
        r = c.at("self")
        s = fld(c.h, f, r)
        k = z3.Int("k")
        return [("one entry per dimension", c.res.ln == n_(c.h, r)),
                ("the view's own entries in order", forall(k, z3.And(0 <= k, k < n_(c.h, r)), c.res.at(k).t == s.at(k).t, [c.res.at(k).t]))]
    return g


def req_bare(c):
    r = c.at("self")
    s = fld(c.h, "storage_", r)
    d = c.h.get(S, "dtype_", s.val.t).t
    o = fld(c.h, "storage_offset_", r).t
    return [("has a storage", z3.And(z3.Not(s.none), z3.Select(c.h.alive(S), s.val.t))), ("element offset", z3.And(0 <= o, o <= M31)),
            ("element type", z3.And(1 <= LANES(d), LANES(d) <= 4096, 0 <= BYTES(d), BYTES(d) <= 4096, mul(div(o, LANES(d)), BYTES(d)) < (1 << 62)))]


def ens_bare(c):
    r = c.at("self")
    s = fld(c.h, "storage_", r).val.t
    d = c.h.get(S, "dtype_", s).t
    o = fld(c.h, "storage_offset_", r).t
    return [("address of the view's first element: start of the storage plus whole blocks before the offset", c.res.t == c.h.get(S, "ptr_", s).t + mul(div(o, LANES(d)), BYTES(d)))]


SELF = {"self": TRef(V)}


def con(q, **k):
    return Contract(q, MOD, **k)


def create(name, params):
    return con(V + "." + name, params=params, ret=TRef(V), requires=req_create(name), ensures=ens_create(name), allocs=[V], loops=inv_create(name), cand_ms=3000)


OS = TOpt(TRef(S))
CONTRACTS = [
    con(V + ".create_0", params={}, ret=TRef(V), ensures=lambda c: new(c) + [("empty", n_(c.h, c.res.t) == 0)], allocs=[V]),
    create("create_2", {"p0": TL, "p1": OS}), create("create_3", {"p0": TInt, "p1": TL, "p2": OS}), create("create_4", {"p0": TInt, "p1": TL, "p2": TL, "p3": OS}),
    con(V + ".isContiguous", params=SELF, ret=TBool, requires=req_self, ensures=ens_contig, loops=inv_contig(False), cand_ms=3000),
    con(V + ".isContiguousN", params=dict(SELF, p0=TInt), ret=TBool, requires=lambda c: req_self(c) + [("int", in_code(c.a("p0").t, "s32"))], ensures=ens_contig, loops=inv_contig(True), cand_ms=3000),
    con(V + ".numel", params=SELF, ret=TInt, requires=req_numel, ensures=lambda c: [("number of elements is the product of the dimensions", c.res.t == PRE(n_(c.h, c.at("self"))))], loops=inv_numel(), cand_ms=3000),
    con(V + ".clone", params=SELF, ret=TRef(V), requires=lambda c: [("well-formed", wf(c.h, c.at("self")))], ensures=ens_clone, allocs=[V], loops=inv_clone(), cand_ms=3000),
    con(V + ".shape", params=SELF, ret=TL, requires=lambda c: [("well-formed", wf(c.h, c.at("self")))], ensures=ens_prefix("shape_")),
    con(V + ".stride", params=SELF, ret=TL, requires=lambda c: [("well-formed", wf(c.h, c.at("self")))], ensures=ens_prefix("stride_")),
    con(V + ".storageOffset", params=SELF, ret=TInt, ensures=lambda c: [("its offset", c.res.t == fld(c.h, "storage_offset_", c.at("self")).t)]),
    con(V + ".barePtr", params=SELF, ret=TInt, requires=req_bare, ensures=ens_bare),
    con("lanesOfType", params={"p0": TInt}, ret=TInt, trusted=True, ensures=lambda c: [("table", c.res.t == LANES(c.a("p0").t))]),
    con("bytesOfType", params={"p0": TInt}, ret=TInt, trusted=True, ensures=lambda c: [("table", c.res.t == BYTES(c.a("p0").t))])]
VERIFY = [c.qual for c in CONTRACTS if not c.trusted]

REPLAY = "c24.py"
MIN_OBLIGATIONS = 250
FP_EXTRA = ["mllm/core/TensorViewImpl.hpp"]
CONCRETE_NOTE = "the real C++ (ASan, UBSan): create / clone / contiguity / counts / addresses of views of rank 0 to 16 against row-major index arithmetic; element types against their published block sizes"
ASSUMPTIONS = ["x86-64 Linux ABI; at most 16 dimensions, every product of trailing dimensions (and of leading ones for numel) fits its type: the code checks neither",
               "a view is not changed by another thread while it is used",
               "TensorViewImpl::ptr / offsettedPtr (templates in the header) are checked by the bounded concrete search only"]
TRUSTED = ["clang 18 AST (front end dv/cxx.py translates it; unsupported constructs make the function undecided)", "std::shared_ptr / std::vector semantics in the front end",
           "lanesOfType / bytesOfType: an arbitrary fixed table in the proof; the real table is compared with published block sizes by the concrete search"]
