"""C13: shared GPU workspace of the CUDA-IPC transport (MmItemMemoryPool) -- contracts."""
import z3
from dv.core import *
from dv.pyexec import Contract

MOD = "pymllm.orchestrator.cuda_ipc_transport"
P, K, B, T = "MmItemMemoryPool", "MmItemMemoryChunk", "ShmSyncBuffer", "$Tensor"
TL = TSeq(TRef(K), "list")
SCHEMA = {P: {"num_consumers": TInt, "available_chunks": TL, "occupied_chunks": TL, "_sync_pool": TSeq(TRef(B), "list"), "memory_pool": TSeq(TInt, "tensor"), "$held:_lock": TBool, "_stop": TBool},
          K: {"area": TTup([TInt, TInt]), "sync_flag": TRef(B)}, B: {"_arr": TReal, "meta_data": TInt}, T: {"n": TInt, "es": TInt}}


def AL(h, cls, x):
    return z3.Select(h.alive(cls), x)


def av(h, r):
    return h.get(P, "available_chunks", r)


def oc(h, r):
    return h.get(P, "occupied_chunks", r)


def sp(h, r):
    return h.get(P, "_sync_pool", r)


def s_(h, k):
    return h.get(K, "area", k).items[0].t


def e_(h, k):
    return h.get(K, "area", k).items[1].t


def fl(h, k):
    return h.get(K, "sync_flag", k).t


def val(h, b):
    return h.get(B, "_arr", b).t


def inside(q, i, lo=0):
    return z3.And(lo <= i, i < q.ln)


def one(q, f, lo=0):
    i = z3.FreshInt("i")
    return forall(i, inside(q, i, lo), f(q.at(i).t), [q.at(i).t])


def two(q, q2, f, same=False, lo=0, lo2=0):
    i, j = z3.FreshInt("i"), z3.FreshInt("j")
    g = z3.And(inside(q, i, lo), inside(q2, j, lo2), i < j) if same else z3.And(inside(q, i, lo), inside(q2, j, lo2))
    return forall([i, j], g, f(q.at(i).t, q2.at(j).t), [mpat(q.at(i).t, q2.at(j).t)])


def disj(h):
    """two chunks share no byte"""
    def f(a, b):
        return z3.Or(e_(h, a) <= s_(h, b), e_(h, b) <= s_(h, a), s_(h, a) == e_(h, a), s_(h, b) == e_(h, b))
    return f


def ne(a, b):
    return a != b


def nflag(h):
    return lambda a, b: fl(h, a) != fl(h, b)


def live(h, q, lo=0, n=None):
    return one(q, lambda k: z3.And(AL(h, K, k), AL(h, B, fl(h, k)), 0 <= s_(h, k), s_(h, k) <= e_(h, k), e_(h, k) <= n), lo)


def zero(h, q, lo=0):
    return one(q, lambda k: val(h, fl(h, k)) == 0, lo)


def size(h, r):
    return h.get(P, "memory_pool", r).ln


def chunks(h, a, o, s, n, la=0, lo=0, w=""):
    """the chunk lists a (free) and o (in use) from the given positions on, with the spare sync buffers s"""
    return [(w + "free chunks lie inside the workspace", live(h, a, la, n)), (w + "chunks in use lie inside the workspace", live(h, o, lo, n)),
            (w + "free chunks are distinct objects", two(a, a, ne, True, la, la)), (w + "chunks in use are distinct objects", two(o, o, ne, True, lo, lo)),
            (w + "no chunk is both free and in use", two(a, o, ne, lo=la, lo2=lo)),
            (w + "no byte lies in two free chunks", two(a, a, disj(h), True, la, la)),
            (w + "no byte lies in two chunks in use", two(o, o, disj(h), True, lo, lo)),
            (w + "no byte of a chunk in use is free", two(a, o, disj(h), lo=la, lo2=lo)),
            (w + "free chunks have their own sync flags", two(a, a, nflag(h), True, la, la)),
            (w + "chunks in use have their own sync flags", two(o, o, nflag(h), True, lo, lo)),
            (w + "a chunk in use shares no flag with a free one", two(a, o, nflag(h), lo=la, lo2=lo)),
            (w + "free chunks have a zero flag", zero(h, a, la))] + spare(h, a, o, s, la, lo, w)


def spare(h, a, o, s, la=0, lo=0, w=""):
    return [(w + "spare sync buffers exist", one(s, lambda b: AL(h, B, b))), (w + "spare sync buffers are distinct", two(s, s, ne, True)),
            (w + "spare sync buffers are zero", one(s, lambda b: val(h, b) == 0)),
            (w + "a spare sync buffer belongs to no free chunk", two(a, s, lambda k, b: fl(h, k) != b, lo=la)),
            (w + "a spare sync buffer belongs to no chunk in use", two(o, s, lambda k, b: fl(h, k) != b, lo=lo))]


def inv(h, r):
    return [("the pool exists", AL(h, P, r)), ("at least one consumer", h.get(P, "num_consumers", r).t >= 1)] + chunks(h, av(h, r), oc(h, r), sp(h, r), size(h, r))


def held(h, r):
    return h.get(P, "$held:_lock", r).t


def req(c):
    return [("the pool lock is held", held(c.h, c.at("self")))] + inv(c.h, c.at("self"))


def ens_slice(c):
    r, h, h0 = c.at("self"), c.h, c.h0
    m, t = c.res.items
    o, mem = oc(h, r), h.get(P, "memory_pool", r)
    k = o.at(o.ln - 1).t
    ok = z3.Not(t.none)
    i = z3.FreshInt("i")
    return [("the lock is released", z3.Not(held(h, r))), ("a flag comes with every slice and only then", m.none == t.none),
            ("the slice is the chunk in use recorded for it", z3.Implies(ok, z3.And(o.ln >= 1, t.val.ln == e_(h, k) - s_(h, k), forall(i, z3.And(0 <= i, i < t.val.ln), t.val.at(i).t == mem.at(s_(h, k) + i).t)))),
            ("the slice holds exactly the tensor's bytes", z3.Implies(ok, t.val.ln == mul(h0.get(T, "n", c.at("src")).t, h0.get(T, "es", c.at("src")).t))),
            ("the flag handed out is the chunk's own and starts at zero", z3.Implies(ok, z3.And(m.val.t == h.get(B, "meta_data", fl(h, k)).t, val(h, fl(h, k)) == 0)))]


def cov(h, q, x, wit=(), lo=0):
    i = z3.FreshInt("k")
    f = lambda w: z3.And(inside(q, w, lo), s_(h, q.at(w).t) <= x, x < e_(h, q.at(w).t))
    return z3.Or([z3.Exists([i], f(i))] + [f(w) for w in wit])


def cover_kept(h0, h, src, dst, what, wit=lambda c, i: ()):
    """every byte of the chunks in src (before) lies in a chunk of one of the lists dst (after)"""
    i, x = z3.FreshInt("i"), z3.FreshInt("x")
    k = src.at(i).t
    return (what, forall([i, x], z3.And(inside(src, i), s_(h0, k) <= x, x < e_(h0, k)), z3.Or([cov(h, d, x, w) for d, w in dst(i)])))


def buffer_same(c):
    """flags of chunks in use keep their value"""
    return ("sync flags of chunks in use are not written", one(oc(c.h0, c.at("self")), lambda k: val(c.h, fl(c.h0, k)) == val(c.h0, fl(c.h0, k))))


def need(c):
    return mul(c.h0.get(T, "n", c.at("src")).t, c.h0.get(T, "es", c.at("src")).t)


def removed(c):
    g = c.st.ghost.get("removes", [])
    return g[-1][1] if g else z3.IntVal(0)


def ens_get(c):
    r, h, h0 = c.at("self"), c.h, c.h0
    a0, o0, a, o = av(h0, r), oc(h0, r), av(h, r), oc(h, r)
    ok = z3.Not(c.res.none)
    v = c.res.val.t
    n = need(c)
    i = z3.FreshInt("i")
    rm = removed(c)
    big = lambda k: e_(h0, k) - s_(h0, k) >= n
    out = inv(h, r) + [
        ("the chunk handed out has exactly the tensor's bytes", z3.Implies(ok, z3.And(e_(h, v) - s_(h, v) == n, AL(h, K, v)))),
        ("the chunk handed out is in use", z3.Implies(ok, z3.And(o.ln == o0.ln + 1, o.at(o0.ln).t == v))),
        ("its sync flag starts at zero", z3.Implies(ok, val(h, fl(h, v)) == 0)),
        ("no byte handed out belongs to another chunk in use", z3.Implies(ok, one(o0, lambda k: z3.And(disj(h)(k, v), k != v, fl(h, k) != fl(h, v))))),
        ("its bytes were free", z3.Implies(z3.And(ok, n > 0), z3.Exists([i], z3.And(inside(a0, i), s_(h0, a0.at(i).t) <= s_(h, v), e_(h, v) <= e_(h0, a0.at(i).t))))),
        ("chunks in use stay in use", forall(i, inside(o0, i), z3.And(o.ln >= o0.ln, o.at(i).t == o0.at(i).t), [o.at(i).t])),
        ("refused only when no free chunk is large enough", z3.Implies(c.res.none, one(a0, lambda k: z3.Not(big(k))))),
        ("best fit: no smaller free chunk was large enough", z3.Implies(ok, one(a0, lambda k: z3.Implies(big(k), e_(h0, k) - s_(h0, k) >= e_(h0, a0.at(rm).t) - s_(h0, a0.at(rm).t))))),
        ("a refused request changes nothing", z3.Implies(c.res.none, z3.And(seq_eq(a, a0), seq_eq(o, o0)))),
        buffer_same(c)]
    out.append(cover_kept(h0, h, a0, lambda j: [(a, [j, j - 1, a.ln - 1]), (o, [o0.ln])], "every free byte is still managed"))
    return out


def at_(c, n):
    v = c.v(n)
    return v if isinstance(v, VSeq) else c.st.rd(v)


def l_best(c):
    """best fit so far"""
    b, q, i, h = c.v("best"), c.seq, c.i, c.h
    n = c.v("needed").t
    b = coerce(b, TOpt(TRef(K)), c.st)
    k, w = b.val.t, z3.FreshInt("w")
    sz = lambda x: e_(h, x) - s_(h, x)
    j = z3.FreshInt("j")
    return [z3.Implies(z3.Not(b.none), sz(k) >= n), z3.Implies(z3.Not(b.none), z3.Exists([w], z3.And(0 <= w, w < i, q.at(w).t == k), patterns=[q.at(w).t])),
            forall(j, z3.And(0 <= j, j < i), z3.Implies(b.none, sz(q.at(j).t) < n), [q.at(j).t]),
            forall(j, z3.And(0 <= j, j < i), z3.Implies(z3.And(z3.Not(b.none), sz(q.at(j).t) >= n), sz(k) <= sz(q.at(j).t)), [q.at(j).t])]


def cands(fn, m=30):
    def one(i):
        def f(c):
            fs = fn(c)
            fs = [x[1] if isinstance(x, tuple) else x for x in fs]
            return [fs[i]] if i < len(fs) else []
        return ("%s %d" % (fn.__name__, i), f)
    return [one(i) for i in range(m)]


def ens_new(c):
    r, h, h0 = c.at("self"), c.h, c.h0
    s0, s = sp(h0, r), sp(h, r)
    b = c.res.t
    return [("a live buffer", AL(h, B, b)), ("its counter is zero", val(h, b) == 0),
            ("a spare buffer is reused, otherwise a new one made", z3.If(s0.ln > 0, z3.And(b == s0.at(s0.ln - 1).t, s.ln == s0.ln - 1), z3.And(z3.Not(AL(h0, B, b)), s.ln == 0))),
            ("other spare buffers stay", forall(z3.Int("i"), inside(s, z3.Int("i")), s.at(z3.Int("i")).t == s0.at(z3.Int("i")).t, [s.at(z3.Int("i")).t]))]


def req_new(c):
    s = sp(c.h, c.at("self"))
    return [("spare buffers are live", one(s, lambda b: AL(c.h, B, b))), ("spare buffers are zero", one(s, lambda b: val(c.h, b) == 0))]


def ens_ret(c):
    r, h, h0 = c.at("self"), c.h, c.h0
    s0, s, b = sp(h0, r), sp(h, r), c.at("buf")
    return [("the counter is reset", val(h, b) == 0), ("the buffer becomes spare", z3.And(s.ln == s0.ln + 1, s.at(s0.ln).t == b)),
            ("other spare buffers stay", forall(z3.Int("i"), inside(s0, z3.Int("i")), s.at(z3.Int("i")).t == s0.at(z3.Int("i")).t, [s.at(z3.Int("i")).t]))]


def ens_try(c):
    b = z3.FreshInt("b")
    h, h0, k = c.h, c.h0, c.at("self")
    done = val(h0, fl(h0, k)) >= z3.ToReal(c.at("num_consumers"))
    return [("reusable exactly when every consumer is done", c.res.t == done),
            ("other counters are untouched", forall(b, b != fl(h0, k), val(h, b) == val(h0, b), [val(h, b)])),
            ("the counter is reset exactly then", val(h, fl(h0, k)) == z3.If(done, z3.RealVal(0), val(h0, fl(h0, k))))]


def done0(c, k):
    r = c.at("self")
    return val(c.h0, fl(c.h0, k)) >= z3.ToReal(c.h0.get(P, "num_consumers", r).t)


def ens_recycle(c):
    r, h, h0 = c.at("self"), c.h, c.h0
    a0, o0, a, o = av(h0, r), oc(h0, r), av(h, r), oc(h, r)
    i, j = z3.FreshInt("i"), z3.FreshInt("j")
    same = lambda k: z3.And(s_(h, k) == s_(h0, k), e_(h, k) == e_(h0, k))
    out = inv(h, r) + [
        ("a chunk some consumer still needs stays in use", forall(i, z3.And(inside(o0, i), z3.Not(done0(c, o0.at(i).t))), z3.Exists([j], z3.And(inside(o, j), o.at(j).t == o0.at(i).t)))),
        ("a chunk in use keeps its bytes, flag and count", one(o, lambda k: z3.And(same(k), fl(h, k) == fl(h0, k), val(h, fl(h, k)) == val(h0, fl(h, k)), z3.Not(done0(c, k))))),
        ("only chunks in use stay in use", forall(i, inside(o, i), z3.Exists([j], z3.And(inside(o0, j), o0.at(j).t == o.at(i).t)))),
        ("a chunk every consumer is done with becomes free", forall(i, z3.And(inside(o0, i), done0(c, o0.at(i).t)), z3.Exists([j], z3.And(inside(a, j), a.at(j).t == o0.at(i).t)))),
        ("free chunks stay free", forall(i, inside(a0, i), z3.And(a.ln >= a0.ln, a.at(i).t == a0.at(i).t, same(a.at(i).t)), [a.at(i).t])),
        ("only chunks every consumer is done with become free", forall(i, inside(a, i, a0.ln), z3.Exists([j], z3.And(inside(o0, j), o0.at(j).t == a.at(i).t, done0(c, o0.at(j).t), same(a.at(i).t))))),
    ]
    return out


def l_rec(c):
    r, h, h0 = c.at("self"), c.h, c.h0
    o0, a, a0, q, i = oc(h0, r), av(h, r), av(h0, r), c.seq, c.i
    n = at_(c, "new_occupied")
    s = sp(h, r)
    k, j = z3.FreshInt("k"), z3.FreshInt("j")
    same = lambda x: z3.And(s_(h, x) == s_(h0, x), e_(h, x) == e_(h0, x))
    keep = lambda x: z3.And(same(x), fl(h, x) == fl(h0, x), val(h, fl(h, x)) == val(h0, fl(h, x)))
    if n.elt is None:
        n = VSeq(z3.IntVal(0), lambda z: VRef(z, K), TRef(K), "list")
    return chunks(h, a, n, s, size(h, r)) + [
        one(n, lambda x: z3.And(keep(x), z3.Not(done0(c, x)))), two(n, q, ne, lo2=i), two(n, q, nflag(h), lo2=i),
        two(n, q, disj(h), lo2=i), two(a, q, ne, lo2=i), two(a, q, nflag(h), lo2=i), two(a, q, disj(h), lo2=i),
        two(q, s, lambda x, b: fl(h, x) != b, lo=i), one(q, keep, i),
        forall(k, z3.And(0 <= k, k < i, z3.Not(done0(c, q.at(k).t))), z3.Exists([j], z3.And(inside(n, j), n.at(j).t == q.at(k).t)), [q.at(k).t]),
        forall(k, z3.And(0 <= k, k < i, done0(c, q.at(k).t)), z3.Exists([j], z3.And(inside(a, j), a.at(j).t == q.at(k).t)), [q.at(k).t]),
        forall(k, inside(n, k), z3.Exists([j], z3.And(0 <= j, j < i, q.at(j).t == n.at(k).t)), [n.at(k).t]),
        a.ln >= a0.ln, forall(k, inside(a0, k), z3.And(a.at(k).t == a0.at(k).t, same(a.at(k).t)), [a.at(k).t]),
        forall(k, inside(a, k, a0.ln), z3.And(same(a.at(k).t), z3.Exists([j], z3.And(0 <= j, j < i, q.at(j).t == a.at(k).t, done0(c, q.at(j).t)))), [a.at(k).t])]


def nonempty(h, q):
    return one(q, lambda k: s_(h, k) < e_(h, k))


def perm(c):
    g = c.st.ghost.get("keyed_sorts", [])
    return g[-1][2] if g else None


def ens_merge(c):
    r, h, h0 = c.at("self"), c.h, c.h0
    a0, a, o0, o = av(h0, r), av(h, r), oc(h0, r), oc(h, r)
    same = lambda k: z3.And(s_(h, k) == s_(h0, k), e_(h, k) == e_(h0, k), fl(h, k) == fl(h0, k))
    i, x = z3.FreshInt("i"), z3.FreshInt("x")
    k = a.at(i).t
    return inv(h, r) + [
        ("chunks in use are untouched", z3.And(seq_eq(o, o0), one(o, same))), buffer_same(c),
        ("no free byte is lost", forall(i, inside(a0, i), exists_w(lambda x: z3.And(inside(a, x), s_(h, a.at(x).t) <= s_(h0, a0.at(i).t), e_(h0, a0.at(i).t) <= e_(h, a.at(x).t))), [a0.at(i).t])),
        ("adjacent free chunks are merged", z3.Implies(nonempty(h0, a0), two(a, a, lambda p, q: e_(h, p) < s_(h, q), True))),
    ]


def l_merge(c):
    r, h, h0 = c.at("self"), c.h, c.h0
    q, i, m, s, o = c.seq, c.i, at_(c, "merged"), sp(c.h, c.at("self")), oc(c.h, c.at("self"))
    if m.elt is None:
        m = VSeq(z3.IntVal(0), lambda z: VRef(z, K), TRef(K), "list")
    k, x = z3.FreshInt("k"), z3.FreshInt("x")
    ne0 = nonempty(h0, av(h0, r))
    return chunks(h, m, o, s, size(h, r)) + [
        two(m, q, ne, lo2=i), two(m, q, disj(h), lo2=i), two(m, q, nflag(h), lo2=i), two(q, s, lambda z, b: fl(h, z) != b, lo=i),
        zero(h, q, i), live(h, q, i, size(h, r)), one(o, lambda z: val(h, fl(h, z)) == val(h0, fl(h, z))),
        forall(k, z3.And(0 <= k, k < i), exists_w(lambda x: z3.And(inside(m, x), s_(h, m.at(x).t) <= s_(h, q.at(k).t), e_(h, q.at(k).t) <= e_(h, m.at(x).t)), [m.ln - 1]), [q.at(k).t]),
        z3.Implies(ne0, two(m, m, lambda a, b: e_(h, a) < s_(h, b), True)), z3.Implies(ne0, nonempty(h, m)),
        z3.Implies(ne0, two(m, q, lambda a, b: e_(h, a) <= s_(h, b), lo2=i)),
        z3.Implies(z3.And(ne0, m.ln > 0, i > 0), e_(h, m.at(m.ln - 1).t) == e_(h, q.at(i - 1).t)), z3.Implies(i > 0, m.ln > 0)]


def ens_init(c):
    r, h = c.at("self"), c.h
    a = av(h, r)
    return inv(h, r) + [("one free chunk covers the whole workspace", z3.And(a.ln == 1, s_(h, a.at(0).t) == 0, e_(h, a.at(0).t) == c.at("memory_size"))),
                        ("nothing is in use", oc(h, r).ln == 0), ("consumer count recorded", h.get(P, "num_consumers", r).t == c.at("num_consumers"))]


SELF = {"self": TRef(P)}
MOD_SP = [(P, "_sync_pool", "self")]
CH = [(K, "area"), (K, "sync_flag")]
CONTRACTS = [
    Contract(B + ".__init__", MOD, {"self": TRef(B), "byte_size": TInt}, trusted=True, modifies=[(B, "_arr", "self")], ensures=lambda c: [("counter starts at zero", val(c.h, c.at("self")) == 0)]),
    Contract(T + ".numel", MOD, {"self": TRef(T)}, ret=TInt, trusted=True, ensures=lambda c: [("elements", z3.And(c.res.t == c.h.get(T, "n", c.at("self")).t, c.res.t >= 0))]),
    Contract(T + ".element_size", MOD, {"self": TRef(T)}, ret=TInt, trusted=True, ensures=lambda c: [("bytes per element", z3.And(c.res.t == c.h.get(T, "es", c.at("self")).t, c.res.t >= 1))]),
    Contract(K + ".try_to_recycle", MOD, {"self": TRef(K), "num_consumers": TInt}, ret=TBool, requires=lambda c: [("the chunk exists", z3.And(AL(c.h, K, c.at("self")), AL(c.h, B, fl(c.h, c.at("self")))))],
             ensures=ens_try, modifies=[(B, "_arr")], hints=None),
    Contract(P + "._new_sync_buffer", MOD, SELF, ret=TRef(B), requires=req_new, ensures=ens_new, modifies=MOD_SP, allocs=[B]),
    Contract(P + "._return_sync_buffer", MOD, dict(SELF, buf=TRef(B)), requires=lambda c: [("the buffer exists", AL(c.h, B, c.at("buf")))], ensures=ens_ret, modifies=MOD_SP + [(B, "_arr", "buf")]),
    Contract(P + "._get_available_chunk", MOD, dict(SELF, src=TRef(T)), ret=TOpt(TRef(K)), requires=lambda c: req(c) + [("the tensor exists", AL(c.h, T, c.at("src")))], ensures=ens_get,
             modifies=MOD_SP + [(P, "available_chunks", "self"), (P, "occupied_chunks", "self")], allocs=[K, B], loops=cands(l_best, 6)),
    Contract(P + "._recycle_chunks", MOD, SELF, requires=req, ensures=ens_recycle, modifies=MOD_SP + [(P, "available_chunks", "self"), (P, "occupied_chunks", "self"), (K, "sync_flag"), (B, "_arr")],
             allocs=[B], loops=cands(l_rec, 34)),
    Contract(P + "._merge_chunks", MOD, SELF, requires=req, ensures=ens_merge, modifies=MOD_SP + [(P, "available_chunks", "self"), (B, "_arr")], allocs=[K], loops=cands(l_merge, 34)),
]
SHARED = [(P, f) for f in ("available_chunks", "occupied_chunks", "_sync_pool")] + CH + [(B, "_arr")]
MONITORS[(P, "_lock")] = (SHARED, [K, B], inv)
CONTRACTS += [
    Contract(P + ".get_slice_with_flag", MOD, dict(SELF, src=TRef(T)), ret=TTup([TOpt(TInt), TOpt(TSeq(TInt, "tensor"))]),
             requires=lambda c: [("the pool exists", AL(c.h, P, c.at("self"))), ("the tensor exists", AL(c.h, T, c.at("src"))), ("the caller does not hold the lock", z3.Not(held(c.h, c.at("self"))))],
             ensures=ens_slice, modifies=SHARED, allocs=[K, B]),
    Contract(P + "._recycle_loop", MOD, SELF,
             requires=lambda c: [("the pool exists", AL(c.h, P, c.at("self"))), ("the lock is free", z3.Not(held(c.h, c.at("self"))))],
             ensures=lambda c: [("the lock is free", z3.Not(held(c.h, c.at("self"))))], modifies=SHARED + [(P, "_stop"), (P, "$held:_lock", "self")], allocs=[K, B],
             loops=[("lock free", lambda c: [z3.Not(held(c.h, c.at("self")))])]),
]
CONTRACTS += [
    Contract(P + ".__init__", MOD, dict(SELF, memory_size=TInt, recycle_interval=TReal, num_consumers=TInt, device=TInt),
             requires=lambda c: [("sizes", z3.And(c.at("memory_size") >= 0, c.at("num_consumers") >= 1, c.at("device") >= 0))], ensures=ens_init,
             modifies=[(P, f, "self") for f in SCHEMA[P]] + [(B, "_arr")], allocs=[K, B])]
VERIFY = [c.qual for c in CONTRACTS if not c.trusted]
REPLAY = "c13.py"
MIN_OBLIGATIONS = 60
ASSUMPTIONS = ["a sync flag (float32) is exact up to 2^24 consumers and identified with its value; consumers only ever increment it",
               "receivers stop reading a slice when they increment its flag; a GPU copy ordered after the increment is not modelled"]
TRUSTED = ["torch.empty(n).contiguous() has n elements; tensor slicing keeps the elements", "threading.Lock gives mutual exclusion"]
