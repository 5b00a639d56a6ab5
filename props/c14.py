"""C14: who owns a KV slot -- the model runner's bookkeeping between the allocator, the prefix cache and the request table.

Ghost state: own(x) of a KV slot x (0 free, -1 prefix tree, -2 handed out and not yet recorded, r > 0 request r), pos(x) the position at which its
request uses it, rown(s) the request holding request slot s, gN(r) the number of KV positions request r occupies, hold(n) the locks on tree node n."""
import z3
from dv import core
from dv.core import *
from dv.pyexec import Contract

MOD = "pymllm.orchestrator.model_runner_process"
PM, RM, CM = "pymllm.mem_cache.memory_pool", "pymllm.mem_cache.radix_cache", "pymllm.mem_cache.chunk_cache"
M, RN, RP, A, N, G = "ModelRunnerProcess", "Runner", "ReqToTokenPool", "TokenToKVPoolAllocator", "TreeNode", "GDNPool"
TL = TSeq(TInt, "list")
TT = TSeq(TInt, "tensor")
RK = TRec("RadixKey", {"token_ids": TL, "extra_key": TOpt(TStr)})
MR = TRec("MatchResult", {"indices": TT, "last_node": TRef(N), "prefix_len": TInt, "mamba_branching_seqlen": TOpt(TInt)})
IR = TRec("InsertResult", {"prefix_len": TInt, "last_node": TRef(N), "mamba_exist": TBool})
ER = TRec("EvictResult", {"full_evicted": TInt, "swa_evicted": TInt})
META = TRec("$odict", {"rid": TStr, "input_ids": TOpt(TL)})
BATCH = TRec("$odict", {"batch_size": TInt, "seq_lens": TL})
LOCK = TTup([TRef(N), TOpt(TInt)])


def schema(C):
    s = {M: {"_runner": TRef(RN), "_radix_cache": TRef(C), "_rid_to_req_pool_idx": TDict(TStr, TInt), "_rid_to_kv_indices": TDict(TStr, TT),
             "_rid_to_input_ids": TDict(TStr, TL), "_rid_to_output_ids": TDict(TStr, TL), "_rid_to_cache_protected_len": TDict(TStr, TInt),
             "_rid_to_radix_lock": TDict(TStr, LOCK), "_rid_to_mrope_delta": TDict(TStr, TInt), "_rid_to_gdn_track_slot": TDict(TStr, TInt),
             "_node_id_to_gdn_track_slot": TDict(TInt, TInt), "_is_hybrid": TBool, "gN": TL},
         RN: {"req_to_token_pool": TRef(RP), "token_to_kv_pool_allocator": TRef(A), "gdn_pool": TRef(G), "device": TIgn},
         RP: {"req_to_token": TSeq(TT, "tensor"), "rown": TL},
         A: {"own": TL, "pos": TL, "size": TInt},
         N: {"id": TInt, "gT": TBool, "gP": TL, "gV": TL, "hold": TInt}, G: {"x": TInt}, C: {}}
    if C == "RadixCache":
        s[C] = {"page_size": TInt, "supports_swa": TBool, "pool": TRef(A)}
    return s


RECORDS = {"RadixKey": RK, "MatchResult": MR, "InsertResult": IR, "EvictResult": ER}
cnt = z3.Function("lock_count", z3.ArraySort(z3.IntSort(), z3.BoolSort()), z3.ArraySort(z3.IntSort(), z3.IntSort()), z3.IntSort(), z3.IntSort())
if not getattr(core, "_cnt_on", False):
    d, a = z3.Const("d", z3.ArraySort(z3.IntSort(), z3.BoolSort())), z3.Const("a", z3.ArraySort(z3.IntSort(), z3.IntSort()))
    r_, n_, b_ = z3.Ints("r n b")
    was = z3.If(z3.And(z3.Select(d, r_), z3.Select(a, r_) == n_), 1, 0)
    up = cnt(z3.Store(d, r_, True), z3.Store(a, r_, b_), n_)
    dn = cnt(z3.Store(d, r_, False), a, n_)
    core.AXIOMS.extend([
        z3.ForAll([d, a, n_], cnt(d, a, n_) >= 0, patterns=[cnt(d, a, n_)]),
        z3.ForAll([d, a, r_, n_], dn == cnt(d, a, n_) - was, patterns=[dn]),
        z3.ForAll([d, a, r_, n_, b_], up == cnt(d, a, n_) - was + z3.If(b_ == n_, 1, 0), patterns=[up]),
        z3.ForAll([d, a, r_, n_], z3.Implies(z3.And(z3.Select(d, r_), z3.Select(a, r_) == n_), cnt(d, a, n_) >= 1), patterns=[z3.MultiPattern(cnt(d, a, n_), z3.Select(d, r_))])])
    core._cnt_on = True


def cands(fn):
    def one(i):
        def f(c):
            fs = fn(c)
            return [fs[i][1]] if i < len(fs) else []
        return ("%s %d" % (fn.__name__, i), f)
    return [one(i) for i in range(26)]


def build(C):
    TREE = C == "RadixCache"
    S = schema(C)
    f = lambda h, n, s: h.get(M, n, s)
    own = lambda h, s, x: h.get(A, "own", al(h, s)).at(x).t
    pos = lambda h, s, x: h.get(A, "pos", al(h, s)).at(x).t
    run = lambda h, s: f(h, "_runner", s).t
    al = lambda h, s: h.get(RN, "token_to_kv_pool_allocator", run(h, s)).t
    rp = lambda h, s: h.get(RN, "req_to_token_pool", run(h, s)).t
    ch = lambda h, s: f(h, "_radix_cache", s).t
    slots = lambda h, s: f(h, "_rid_to_req_pool_idx", s)
    inp = lambda h, s: f(h, "_rid_to_input_ids", s)
    out_ = lambda h, s: f(h, "_rid_to_output_ids", s)
    cpl = lambda h, s, r: f(h, "_rid_to_cache_protected_len", s).get(r).t
    locks = lambda h, s: f(h, "_rid_to_radix_lock", s)
    lnode = lambda h, s, r: locks(h, s).get(r).items[0].t
    gN = lambda h, s, r: f(h, "gN", s).at(r).t
    row = lambda h, s, r: h.get(RP, "req_to_token", rp(h, s)).at(slots(h, s).get(r).t)
    rown = lambda h, s, x: h.get(RP, "rown", rp(h, s)).at(x).t
    T = lambda h, n: h.get(N, "gT", n).t
    P = lambda h, n: h.get(N, "gP", n)
    VV = lambda h, n: h.get(N, "gV", n)
    hold = lambda h, n: h.get(N, "hold", n).t

    def lcnt(h, s, n):
        l = locks(h, s)
        return cnt(l.arrs[0], l.arrs[1], n)

    def tree_ok(h, ownf):
        n, j = z3.Ints("n j")
        return ("slots of tree nodes belong to the tree", forall([n, j], z3.And(T(h, n), 0 <= j, j < P(h, n).ln), ownf(VV(h, n).at(j).t) == -1, [VV(h, n).at(j).t]))

    def GI(h, s):
        r, x, j, n = z3.Ints("r x j n")
        on = slots(h, s).dom(r)
        ln = inp(h, s).get(r).ln
        o = own(h, s, x)
        pools = h.get(RP, "req_to_token", rp(h, s))
        out = [("objects", z3.And(run(h, s) > 0, al(h, s) > 0, rp(h, s) > 0)),
               ("every request has its own request slot", forall(r, on, z3.And(r > 0, 0 <= slots(h, s).get(r).t, slots(h, s).get(r).t < pools.ln, rown(h, s, slots(h, s).get(r).t) == r), [on])),
               ("request bookkeeping is complete", forall(r, on, z3.And(inp(h, s).dom(r), out_(h, s).dom(r), f(h, "_rid_to_kv_indices", s).dom(r), f(h, "_rid_to_cache_protected_len", s).dom(r)), [on])),
               ("lengths", forall(r, on, z3.And(0 <= cpl(h, s, r), cpl(h, s, r) <= ln, ln <= gN(h, s, r), gN(h, s, r) <= row(h, s, r).ln, f(h, "_rid_to_kv_indices", s).get(r).ln <= gN(h, s, r)), [on])),
               ("every owned KV slot is where its request finds it", forall(x, o > 0, z3.And(slots(h, s).dom(o), cpl(h, s, o) <= pos(h, s, x), pos(h, s, x) < gN(h, s, o), row(h, s, o).at(pos(h, s, x)).t == x), [o])),
               ("requests own the KV slots behind their cached prefix", forall([r, j], z3.And(on, cpl(h, s, r) <= j, j < gN(h, s, r)), z3.And(own(h, s, row(h, s, r).at(j).t) == r, pos(h, s, row(h, s, r).at(j).t) == j), [row(h, s, r).at(j).t]))]
        if TREE:
            out += [("locked nodes are in the tree", forall(r, locks(h, s).dom(r), z3.And(ch(h, s) != 0, lnode(h, s, r) > 0, T(h, lnode(h, s, r))), [locks(h, s).dom(r)])),
                    ("a cached prefix is locked", forall(r, z3.And(on, cpl(h, s, r) > 0), z3.And(locks(h, s).dom(r), P(h, lnode(h, s, r)).ln >= cpl(h, s, r)), [on])),
                    ("a cached prefix is read from the locked tree path", forall([r, j], z3.And(on, 0 <= j, j < cpl(h, s, r)), row(h, s, r).at(j).t == VV(h, lnode(h, s, r)).at(j).t, [row(h, s, r).at(j).t])),
                    ("the locked tree path spells the request's tokens", forall([r, j], z3.And(on, 0 <= j, j < cpl(h, s, r)), inp(h, s).get(r).at(j).t == P(h, lnode(h, s, r)).at(j).t, [inp(h, s).get(r).at(j).t])),
                    ("locks held = locks recorded", forall(n, z3.BoolVal(True), hold(h, n) == lcnt(h, s, n), [hold(h, n)])),
                    tree_ok(h, lambda y: own(h, s, y)),
                    ("page size 1, full attention, one pool", z3.Implies(ch(h, s) != 0, z3.And(h.get(C, "page_size", ch(h, s)).t == 1, z3.Not(h.get(C, "supports_swa", ch(h, s)).t), h.get(C, "pool", ch(h, s)).t == al(h, s))))]
        else:
            out += [("no cache, no locks", forall(r, z3.BoolVal(True), z3.Not(locks(h, s).dom(r)), [locks(h, s).dom(r)])), ("no cache, nothing protected", forall(r, on, cpl(h, s, r) == 0, [on]))]
        return out

    DICTS = ("_rid_to_req_pool_idx", "_rid_to_kv_indices", "_rid_to_input_ids", "_rid_to_output_ids", "_rid_to_cache_protected_len", "_rid_to_radix_lock")

    def others_same(c, h0, h, s, but, names=DICTS):
        """entries of requests the call is not about"""
        r = z3.Int("r")
        out = []
        for n in names:
            d0, d1 = f(h0, n, s), f(h, n, s)
            same = z3.And([z3.Select(x, r) == z3.Select(y, r) for x, y in zip(d0.arrs[1:], d1.arrs[1:])])
            out.append(("other requests keep their entries in %s" % n, forall(r, z3.Not(but(r)), z3.And(d0.dom(r) == d1.dom(r), z3.Implies(d0.dom(r), same)), [d1.dom(r)])))
        return out

    SELF = {"self": TRef(M)}
    cons = []

    # ---------------------------------------------------------------- assumed contracts of the pools and the cache
    def witness(c, name):
        w = z3.FreshConst(z3.ArraySort(z3.IntSort(), z3.IntSort()), name)
        return lambda x: z3.Select(w, x)

    def al_(c):
        return c.at("self")

    def ens_alloc(c):
        s = al_(c)
        o0 = lambda x: c.h0.get(A, "own", s).at(x).t
        o1 = lambda x: c.h.get(A, "own", s).at(x).t
        v, ok = c.res.val, z3.Not(c.res.none)
        i, j, x = z3.Ints("i j x")
        w = witness(c, "aw")
        return [("n slots", z3.Implies(ok, v.ln == c.a("need_size").t)),
                ("handed out once", z3.Implies(ok, forall(i, z3.And(0 <= i, i < v.ln), z3.And(o0(v.at(i).t) == 0, o1(v.at(i).t) == -2, w(v.at(i).t) == i), [v.at(i).t]))),
                ("the rest is as before", forall(x, z3.BoolVal(True), z3.Or(o1(x) == o0(x), z3.And(ok, 0 <= w(x), w(x) < v.ln, v.at(w(x)).t == x)), [o1(x)]))]

    def req_free(c):
        s, v = al_(c), c.a("indices")
        i, j = z3.Ints("i j")
        o = lambda x: c.h.get(A, "own", s).at(x).t
        p = lambda x: c.h.get(A, "pos", s).at(x).t
        return [("freed slots belong to a request", forall(i, z3.And(0 <= i, i < v.ln), z3.Or(o(v.at(i).t) > 0, o(v.at(i).t) == -2), [v.at(i).t])),
                ("no slot is freed twice", forall([i, j], z3.And(0 <= i, i < j, j < v.ln), v.at(i).t != v.at(j).t, [mpat(v.at(i).t, v.at(j).t)]))]

    def ens_free(c):
        s, v = al_(c), c.a("indices")
        i, x = z3.Ints("i x")
        o0 = lambda y: c.h0.get(A, "own", s).at(y).t
        o1 = lambda y: c.h.get(A, "own", s).at(y).t
        w = witness(c, "fw")
        return [("freed", forall(i, z3.And(0 <= i, i < v.ln), o1(v.at(i).t) == 0, [v.at(i).t])),
                ("the rest is as before", forall(x, z3.BoolVal(True), z3.Or(o1(x) == o0(x), z3.And(0 <= w(x), w(x) < v.ln, v.at(w(x)).t == x)), [o1(x)]))]

    cons += [Contract(A + ".alloc", PM, {"self": TRef(A), "need_size": TInt}, ret=TOpt(TT), requires=lambda c: [("n >= 0", c.a("need_size").t >= 0)], ensures=ens_alloc,
                      modifies=[(A, "own", "self")], trusted=True),
             Contract(A + ".free", PM, {"self": TRef(A), "indices": TT}, requires=req_free, ensures=ens_free, modifies=[(A, "own", "self")], trusted=True),
             Contract(RP + ".free", PM, {"self": TRef(RP), "slot": TInt}, requires=lambda c: [("the request slot is in use", c.h.get(RP, "rown", c.at("self")).at(c.a("slot").t).t != 0)],
                      ensures=lambda c: [("slot free", (lambda o0, o1, x, k: forall(x, z3.BoolVal(True), o1.at(x).t == z3.If(x == k, 0, o0.at(x).t), [o1.at(x).t]))(
                          c.h0.get(RP, "rown", c.at("self")), c.h.get(RP, "rown", c.at("self")), z3.Int("x"), c.a("slot").t))], modifies=[(RP, "rown", "self")], trusted=True),
             Contract(RP + ".alloc", PM, {"self": TRef(RP), "n": TInt}, ret=TOpt(TL), ensures=lambda c: (lambda o0, o1, x, i, v, w: [
                 ("n slots", z3.Implies(z3.Not(c.res.none), v.ln == c.a("n").t)),
                 ("handed out once", z3.Implies(z3.Not(c.res.none), forall(i, z3.And(0 <= i, i < v.ln), z3.And(o0.at(v.at(i).t).t == 0, o1.at(v.at(i).t).t == -2, w(v.at(i).t) == i,
                     0 <= v.at(i).t, v.at(i).t < c.h.get(RP, "req_to_token", c.at("self")).ln), [v.at(i).t]))),
                 ("the rest is as before", forall(x, z3.BoolVal(True), z3.Or(o1.at(x).t == o0.at(x).t, z3.And(z3.Not(c.res.none), 0 <= w(x), w(x) < v.ln, v.at(w(x)).t == x)), [o1.at(x).t]))])(
                     c.h0.get(RP, "rown", c.at("self")), c.h.get(RP, "rown", c.at("self")), z3.Int("x"), z3.Int("i"), c.res.val, witness(c, "rw")), modifies=[(RP, "rown", "self")], trusted=True),
             Contract(G + ".free_track_slot", PM, {"self": TRef(G), "slot": TInt}, trusted=True),
             Contract(G + ".alloc_track_slot", PM, {"self": TRef(G)}, ret=TOpt(TInt), trusted=True),
             Contract(G + ".copy_states", PM, {"self": TRef(G), "src_index": TInt, "dst_index": TInt}, trusted=True),
             Contract(G + ".reset_states", PM, {"self": TRef(G), "req_pool_indices": TIgn}, trusted=True)]

    if TREE:
        CS = {"self": TRef(C)}
        po = lambda h, s: h.get(C, "pool", s).t
        ow = lambda h, s: (lambda x: h.get(A, "own", po(h, s)).at(x).t)
        ktok = lambda c: c.a("key").fields["token_ids"]
        TG = [(N, "gT"), (N, "gP"), (N, "gV"), (N, "id")]

        def kept(h0, h):
            n, j = z3.Ints("n j")
            return [("tree nodes stay", forall(n, T(h0, n), T(h, n), [T(h0, n)])), ("path lengths stay", forall(n, T(h0, n), P(h, n).ln == P(h0, n).ln, [T(h0, n)])),
                    ("paths stay", forall([n, j], z3.And(T(h0, n), 0 <= j, j < P(h0, n).ln), z3.And(P(h, n).at(j).t == P(h0, n).at(j).t, VV(h, n).at(j).t == VV(h0, n).at(j).t), [P(h, n).at(j).t])),
                    ("paths stay ", forall([n, j], z3.And(T(h0, n), 0 <= j, j < P(h0, n).ln), VV(h, n).at(j).t == VV(h0, n).at(j).t, [VV(h, n).at(j).t])),
                    ("paths stay  ", forall([n, j], z3.And(T(h0, n), 0 <= j, j < P(h0, n).ln), VV(h, n).at(j).t == VV(h0, n).at(j).t, [VV(h0, n).at(j).t]))]

        def req_ins(c):
            h, s, k, v, pr = c.h, c.at("self"), ktok(c), c.a("value"), c.a("prev_prefix_len").t
            n, i, j = z3.Ints("n i j")
            o = ow(h, s)
            return [("a slot per token", v.ln == k.ln), ("protected length", z3.And(0 <= pr, pr <= k.ln)), tree_ok(h, o),
                    ("the protected prefix is in the tree", z3.Or(pr == 0, z3.Exists([n], z3.And(T(h, n), P(h, n).ln >= pr, forall(j, z3.And(0 <= j, j < pr), P(h, n).at(j).t == k.at(j).t, [k.at(j).t]))))),
                    ("the slots behind it belong to a request", forall(i, z3.And(pr <= i, i < v.ln), o(v.at(i).t) > 0, [v.at(i).t])),
                    ("each once", forall([i, j], z3.And(pr <= i, i < j, j < v.ln), v.at(i).t != v.at(j).t, [mpat(v.at(i).t, v.at(j).t)]))]

        def ens_ins(c):
            h0, h, s, k, v, pr = c.h0, c.h, c.at("self"), ktok(c), c.a("value"), c.a("prev_prefix_len").t
            p, e = c.res.fields["prefix_len"].t, c.res.fields["last_node"].t
            x, j = z3.Ints("x j")
            o0, o1 = ow(h0, s), ow(h, s)
            w = witness(c, "iw")
            return [("already cached", z3.And(pr <= p, p <= k.ln)),
                    ("the rest of the slots goes to the tree", forall(j, z3.And(p <= j, j < v.ln), z3.And(o1(v.at(j).t) == -1, w(v.at(j).t) == j), [v.at(j).t])),
                    ("no other slot changes hands", forall(x, z3.BoolVal(True), z3.Or(o1(x) == o0(x), z3.And(p <= w(x), w(x) < v.ln, v.at(w(x)).t == x)), [o1(x)])),
                    tree_ok(h, o1),
                    ("the whole key is cached", z3.Implies(k.ln > 0, z3.And(e > 0, T(h, e), P(h, e).ln == k.ln, forall(j, z3.And(0 <= j, j < k.ln), P(h, e).at(j).t == k.at(j).t, [P(h, e).at(j).t]))))] + kept(h0, h)

        def ens_match(c):
            h0, h, s, k = c.h0, c.h, c.at("self"), ktok(c)
            v, e = c.res.fields["indices"], c.res.fields["last_node"].t
            n, i, j = z3.Ints("n i j")
            return [("no longer than the key", z3.And(v.ln <= k.ln, v.ln == c.res.fields["prefix_len"].t)),
                    ("the node ends the match", z3.Implies(v.ln > 0, z3.And(e > 0, T(h, e), P(h, e).ln == v.ln))),
                    ("slots of the path", forall(j, z3.And(0 <= j, j < v.ln), z3.And(VV(h, e).at(j).t == v.at(j).t, P(h, e).at(j).t == k.at(j).t), [v.at(j).t])),
                    ("slots of the path ", forall(j, z3.And(0 <= j, j < v.ln), z3.And(VV(h, e).at(j).t == v.at(j).t, P(h, e).at(j).t == k.at(j).t), [VV(h, e).at(j).t])),
                    ("slots of the path  ", forall(j, z3.And(0 <= j, j < v.ln), z3.And(VV(h, e).at(j).t == v.at(j).t, P(h, e).at(j).t == k.at(j).t), [P(h, e).at(j).t])),
                    ("longest cached prefix", forall(n, z3.And(T(h0, n), P(h0, n).ln <= k.ln, forall(j, z3.And(0 <= j, j < P(h0, n).ln), P(h0, n).at(j).t == k.at(j).t, [P(h0, n).at(j).t])), v.ln >= P(h0, n).ln, [T(h0, n)])),
                    ("one slot per cached prefix", forall([n, j], z3.And(T(h0, n), 0 <= j, j < v.ln, j < P(h0, n).ln, forall(i, z3.And(0 <= i, i <= j), P(h0, n).at(i).t == k.at(i).t, [P(h0, n).at(i).t])),
                                                          v.at(j).t == VV(h0, n).at(j).t, [VV(h0, n).at(j).t])),
                    tree_ok(h, ow(h, s))] + kept(h0, h)

        def ens_evict(c):
            h0, h, s = c.h0, c.h, c.at("self")
            n, x, j = z3.Ints("n x j")
            o0, o1 = ow(h0, s), ow(h, s)
            return [("only cached slots become free", forall(x, z3.BoolVal(True), z3.Or(o1(x) == o0(x), z3.And(o0(x) == -1, o1(x) == 0)), [o1(x)])),
                    ("nodes leave the tree, none joins", forall(n, T(h, n), T(h0, n), [T(h, n)])), ("locked nodes stay", forall(n, z3.And(T(h0, n), hold(h0, n) >= 1), T(h, n), [T(h, n)])),
                    ("locked nodes stay ", forall(n, z3.And(T(h0, n), hold(h0, n) >= 1), T(h, n), [T(h0, n)])), tree_ok(h, o1)]

        def hold_by(d):
            return lambda c: [("lock count", (lambda n, k: forall(n, z3.BoolVal(True), hold(c.h, n) == hold(c.h0, n) + z3.If(n == k, d, 0), [hold(c.h, n)]))(z3.Int("n"), c.at("node")))]

        cons += [Contract(C + ".insert", RM, dict(CS, key=RK, value=TT, prev_prefix_len=TInt), ret=IR, requires=req_ins, ensures=ens_ins, modifies=TG + [(A, "own")], trusted=True),
                 Contract(C + ".match_prefix", RM, dict(CS, key=RK), ret=MR, requires=lambda c: [tree_ok(c.h, ow(c.h, c.at("self")))], ensures=ens_match, modifies=TG, trusted=True),
                 Contract(C + ".evict", RM, dict(CS, num_tokens=TInt, swa_num_tokens=TInt), ret=ER, requires=lambda c: [tree_ok(c.h, ow(c.h, c.at("self")))], ensures=ens_evict,
                          modifies=[(N, "gT"), (A, "own"), (M, "_node_id_to_gdn_track_slot")], trusted=True),
                 Contract(C + ".evictable_size", RM, CS, ret=TInt, trusted=True),
                 Contract(C + ".protected_size", RM, CS, ret=TInt, trusted=True),
                 Contract(C + ".inc_lock_ref", RM, dict(CS, node=TRef(N)), ret=TOpt(TInt), requires=lambda c: [("node is in the tree", z3.And(c.at("node") > 0, T(c.h, c.at("node"))))], ensures=hold_by(1), modifies=[(N, "hold")], trusted=True),
                 Contract(C + ".dec_lock_ref", RM, dict(CS, node=TRef(N), swa_boundary_id=TOpt(TInt)), requires=lambda c: [("node is in the tree", z3.And(c.at("node") > 0, T(c.h, c.at("node")))), ("the node is locked", hold(c.h, c.at("node")) >= 1)],
                          ensures=hold_by(-1), modifies=[(N, "hold")], trusted=True)]
    TREEMOD = [(N, "gT"), (N, "gP"), (N, "gV"), (N, "id"), (N, "hold")] if TREE else []

    # ---------------------------------------------------------------- _free_rid_resources
    def req_frr(c):
        h, s, r = c.h, c.at("self"), c.a("rid").t
        o = out_(h, s)
        dec = z3.If(z3.And(o.dom(r), o.get(r).ln > 0), o.get(r).ln - 1, 0)
        return GI(h, s) + [("rid", r > 0), ("the request occupies its prompt and its fed-back outputs", z3.Implies(slots(h, s).dom(r), gN(h, s, r) == inp(h, s).get(r).ln + dec)),
                           ("request slots are handed out with the request", z3.Implies(z3.Not(slots(h, s).dom(r)), z3.Not(f(h, "_rid_to_kv_indices", s).dom(r))))]

    def ens_frr(c):
        h0, h, s, r = c.h0, c.h, c.at("self"), c.a("rid").t
        x, n = z3.Ints("x n")
        o0, o1 = own(h0, s, x), own(h, s, x)
        sl = slots(h0, s)
        out = [("nothing is recorded for the request any more", z3.And([z3.Not(f(h, d, s).dom(r)) for d in DICTS])),
                          ("other owners keep their KV slots", forall(x, o0 != r, o1 == o0, [o1])),
                          ("the request's KV slots are free or cached", forall(x, o0 == r, z3.Or(o1 == 0, o1 == -1), [o1]))] + GI(h, s) + [
                          ("the request slot is free again, no other one", forall(x, z3.BoolVal(True), rown(h, s, x) == z3.If(z3.And(sl.dom(r), x == sl.get(r).t), 0, rown(h0, s, x)), [rown(h, s, x)]))]
        if TREE:
            out.append(("its lock is given back once", forall(n, z3.BoolVal(True), hold(h, n) == hold(h0, n) - z3.If(z3.And(locks(h0, s).dom(r), lnode(h0, s, r) == n), 1, 0), [hold(h, n)])))
        else:
            out.append(("every KV slot of the request is free", forall(x, o0 == r, o1 == 0, [o1])))
        return out + others_same(c, h0, h, s, lambda q: q == r)

    cons.append(Contract(M + "._free_rid_resources", MOD, dict(SELF, rid=TStr), requires=req_frr, ensures=ens_frr,
                         modifies=[(M, d, "self") for d in DICTS + ("_rid_to_mrope_delta", "_rid_to_gdn_track_slot")] + [(A, "own"), (RP, "rown")] + TREEMOD))

    # ---------------------------------------------------------------- _alloc_kv_with_eviction
    def ens_akv(c):
        h0, h, s = c.h0, c.h, c.at("self")
        v, ok = c.res.val, z3.Not(c.res.none)
        i, j, x = z3.Ints("i j x")
        o0, o1 = (lambda y: own(h0, s, y)), (lambda y: own(h, s, y))
        out = GI(h, s) + [("as many slots as asked for", z3.Implies(ok, v.ln == c.a("num_tokens").t)),
                          ("the slots handed out were free or cached", z3.Implies(ok, forall(i, z3.And(0 <= i, i < v.ln), z3.And(z3.Or(o0(v.at(i).t) == 0, o0(v.at(i).t) == -1), o1(v.at(i).t) == -2), [v.at(i).t]))),
                          ("the slots handed out are distinct", z3.Implies(ok, forall([i, j], z3.And(0 <= i, i < j, j < v.ln), v.at(i).t != v.at(j).t, [mpat(v.at(i).t, v.at(j).t)]))),
                          ("requests keep their slots", forall(x, z3.Or(o0(x) > 0, o0(x) == -2), o1(x) == o0(x), [o1(x)])),
                          ("slots become free, or are handed out", forall(x, o1(x) != o0(x), z3.Or(o1(x) == 0, o1(x) == -2), [o1(x)])),
                          ("nothing leaks", forall(x, z3.And(o1(x) == -2, o0(x) != -2), z3.And(ok, z3.Exists([i], z3.And(0 <= i, i < v.ln, v.at(i).t == x))), [o1(x)]))]
        return out

    def inv_akv(c):
        h0, h, s = c.h0, c.h, c.at("self")
        x = z3.Int("x")
        o0, o1 = own(h0, s, x), own(h, s, x)
        return GI(h, s) + [("only cached slots became free", forall(x, z3.BoolVal(True), z3.Or(o1 == o0, z3.And(o0 == -1, o1 == 0)), [o1]))]

    cons.append(Contract(M + "._alloc_kv_with_eviction", MOD, dict(SELF, num_tokens=TInt), ret=TOpt(TT), requires=lambda c: GI(c.h, c.at("self")) + [("num_tokens >= 0", c.a("num_tokens").t >= 0)],
                         ensures=ens_akv, modifies=[(A, "own"), (M, "_node_id_to_gdn_track_slot")] + ([(N, "gT")] if TREE else []), loops=cands(inv_akv)))

    # ---------------------------------------------------------------- _allocate_decode
    def metas(c, n="requests_meta"):
        return c.a(n)

    def rid(q, i):
        return q.at(i).fields["rid"].t

    def ridx(c):
        """the position of a request in the batch"""
        return c.st.ghost.setdefault(("ridx",), z3.Function("batch_index", z3.IntSort(), z3.IntSort()))

    def distinct_rids(c, q):
        i = z3.Int("i")
        g = ridx(c)
        return ("one entry per request", forall(i, z3.And(0 <= i, i < q.ln), g(rid(q, i)) == i, [rid(q, i)]))

    def inb(c, q, r, lo=0, hi=None):
        g = ridx(c)(r)
        return z3.And(lo <= g, g < (q.ln if hi is None else hi), rid(q, g) == r)

    def req_dec(c):
        h, s, q = c.h, c.at("self"), metas(c)
        b = c.a("batch").fields
        i = z3.Int("i")
        return GI(h, s) + [distinct_rids(c, q), ("one sequence length per request", z3.And(b["batch_size"].t == q.ln, b["seq_lens"].ln == q.ln)),
                           ("requests of the batch hold their slots", forall(i, z3.And(0 <= i, i < q.ln), z3.And(rid(q, i) > 0, slots(h, s).dom(rid(q, i)), b["seq_lens"].at(i).t == gN(h, s, rid(q, i)) + 1,
                                                                                                        b["seq_lens"].at(i).t <= row(h, s, rid(q, i)).ln), [rid(q, i)]))]

    def ghost_dec(c):
        h, s, q = c.h, c.at("self"), metas(c)
        g = c.h.arrs(M, "gN")
        n0 = f(h, "gN", s)
        x, r = z3.FreshInt("x"), z3.FreshInt("r")
        new = z3.FreshConst(z3.ArraySort(z3.IntSort(), z3.IntSort()), "gN")
        c.st.assume(z3.ForAll([r], z3.Select(new, r) == n0.at(r).t + z3.If(inb(c, q, r), 1, 0), patterns=[z3.Select(new, r)]))
        h.put(M, "gN", s, VSeq(n0.ln, lambda k: VInt(z3.Select(new, k)), TInt, "list", arrs=[new]), c.st)
        a = al(h, s)
        v = c.res
        o0, p0 = h.get(A, "own", a), h.get(A, "pos", a)
        no, np_, w = (z3.FreshConst(z3.ArraySort(z3.IntSort(), z3.IntSort()), k) for k in ("own", "pos", "w"))
        i = z3.FreshInt("i")
        c.st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < v.ln), z3.Select(w, v.at(i).t) == i), patterns=[v.at(i).t]))
        isn = lambda y: z3.And(0 <= z3.Select(w, y), z3.Select(w, y) < v.ln, v.at(z3.Select(w, y)).t == y)
        c.st.assume(z3.ForAll([x], z3.Select(no, x) == z3.If(isn(x), rid(q, z3.Select(w, x)), o0.at(x).t), patterns=[z3.Select(no, x)]))
        c.st.assume(z3.ForAll([x], z3.Select(np_, x) == z3.If(isn(x), c.a("batch").fields["seq_lens"].at(z3.Select(w, x)).t - 1, p0.at(x).t), patterns=[z3.Select(np_, x)]))
        h.put(A, "own", a, VSeq(o0.ln, lambda k: VInt(z3.Select(no, k)), TInt, "list", arrs=[no]), c.st)
        h.put(A, "pos", a, VSeq(p0.ln, lambda k: VInt(z3.Select(np_, k)), TInt, "list", arrs=[np_]), c.st)

    def ens_dec(c):
        h0, h, s, q = c.h0, c.h, c.at("self"), metas(c)
        v = c.res
        i, x, r, j = z3.Ints("i x r j")
        lens = c.a("batch").fields["seq_lens"]
        o0, o1 = own(h0, s, x), own(h, s, x)
        return GI(h, s) + [("one new slot per request", v.ln == q.ln),
                           ("the new slot is the request's next position", forall(i, z3.And(0 <= i, i < q.ln), row(h, s, rid(q, i)).at(lens.at(i).t - 1).t == v.at(i).t, [v.at(i).t])),
                           ("requests keep the KV slots they have", forall([r, j], z3.And(slots(h0, s).dom(r), 0 <= j, j < gN(h0, s, r)), row(h, s, r).at(j).t == row(h0, s, r).at(j).t, [row(h, s, r).at(j).t])),
                           ("owned slots stay owned", forall(x, o0 > 0, o1 == o0, [o1])),
                           ("nothing is left in flight", forall(x, o1 == -2, o0 == -2, [o1]))] + others_same(c, h0, h, s, lambda k: z3.BoolVal(False), DICTS[:1] + DICTS[2:])

    def exc_dec(c):
        x = z3.Int("x")
        o0, o1 = own(c.h0, c.at("self"), x), own(c.h, c.at("self"), x)
        return z3.And([g for _, g in GI(c.h, c.at("self"))] + [forall(x, o0 > 0, o1 == o0, [o1]), forall(x, o1 == -2, o0 == -2, [o1])])

    def inv_dec(c):
        h0, h, hl, s, q = c.h0, c.h, c.hl, c.at("self"), metas(c)
        i, r, j, x = z3.Ints("i r j x")
        lens = c.a("batch").fields["seq_lens"]
        v = c.v("out_cache_loc")
        v = v.val if isinstance(v, VOpt) else v
        rows0, rows = h0.get(RP, "req_to_token", rp(h0, s)), h.get(RP, "req_to_token", rp(h, s))
        return [("rows", z3.And(rows.ln == rows0.ln)), ("row lengths", forall(j, z3.BoolVal(True), rows.at(j).ln == rows0.at(j).ln, [rows.at(j).ln])),
                ("written", forall(i, z3.And(0 <= i, i < c.i), row(h, s, rid(q, i)).at(lens.at(i).t - 1).t == v.at(i).t, [rid(q, i)])),
                ("written ", forall(i, z3.And(0 <= i, i < c.i), row(h, s, rid(q, i)).at(lens.at(i).t - 1).t == v.at(i).t, [v.at(i).t])),
                ("kept", forall([r, j], z3.And(slots(h0, s).dom(r), 0 <= j, j < gN(h0, s, r)), row(h, s, r).at(j).t == row(h0, s, r).at(j).t, [row(h, s, r).at(j).t])),
                ("tracked", forall(r, f(h0, "_rid_to_kv_indices", s).dom(r), f(h, "_rid_to_kv_indices", s).dom(r), [f(h, "_rid_to_kv_indices", s).dom(r)])),
                ("counted", forall(r, f(h0, "_rid_to_kv_indices", s).dom(r), f(h, "_rid_to_kv_indices", s).get(r).ln == f(h0, "_rid_to_kv_indices", s).get(r).ln + z3.If(inb(c, q, r, 0, c.i), 1, 0),
                                   [f(h, "_rid_to_kv_indices", s).get(r).ln]))]

    cons.append(Contract(M + "._allocate_decode", MOD, dict(SELF, batch=BATCH, requests_meta=TSeq(META, "list")), ret=TT, requires=req_dec, ensures=ens_dec, ghost_exit=ghost_dec, loops=cands(inv_dec),
                         modifies=[(A, "own"), (A, "pos"), (M, "gN", "self"), (M, "_node_id_to_gdn_track_slot"), (M, "_rid_to_kv_indices", "self"), (RP, "req_to_token")] + ([(N, "gT")] if TREE else []),
                         raises={"RuntimeError": exc_dec}))

    # ---------------------------------------------------------------- _unlock_matched_nodes
    def req_unl(c):
        h, s, q = c.h, c.at("self"), metas(c)
        i = z3.Int("i")
        return GI(h, s) + [distinct_rids(c, q), ("requests that have no slots yet", forall(i, z3.And(0 <= i, i < q.ln), z3.And(rid(q, i) > 0, z3.Not(slots(h, s).dom(rid(q, i)))), [rid(q, i)]))]

    def ens_unl(c):
        h0, h, s, q = c.h0, c.h, c.at("self"), metas(c)
        i, r, n = z3.Ints("i r n")
        return GI(h, s) + [("no lock is left for the batch", forall(i, z3.And(0 <= i, i < q.ln), z3.Not(locks(h, s).dom(rid(q, i))), [rid(q, i)]))] + others_same(c, h0, h, s, lambda k: inb(c, q, k))

    def inv_unl(c):
        h0, h, s, q = c.h0, c.h, c.at("self"), metas(c)
        i, r = z3.Ints("i r")
        return GI(h, s) + [("unlocked", forall(i, z3.And(0 <= i, i < c.i), z3.Not(locks(h, s).dom(rid(q, i))), [rid(q, i)]))] + others_same(c, h0, h, s, lambda k: inb(c, q, k, 0, c.i), DICTS[-1:])

    if TREE:
        cons.append(Contract(M + "._unlock_matched_nodes", MOD, dict(SELF, requests_meta=TSeq(META, "list")), requires=req_unl, ensures=ens_unl, loops=cands(inv_unl),
                             modifies=[(M, "_rid_to_radix_lock", "self"), (N, "hold")]))

    # ---------------------------------------------------------------- _insert_into_radix_cache
    def req_ins_rc(c):
        h, s, q = c.h, c.at("self"), metas(c)
        i = z3.Int("i")
        return GI(h, s) + [distinct_rids(c, q), ("requests of the batch were just prefilled", forall(i, z3.And(0 <= i, i < q.ln), z3.And(rid(q, i) > 0,
            z3.Implies(slots(h, s).dom(rid(q, i)), gN(h, s, rid(q, i)) == inp(h, s).get(rid(q, i)).ln)), [rid(q, i)]))]

    def done_part(c, q, hi):
        h0, h, s = c.h0, c.h, c.at("self")
        i, x, r = z3.Ints("i x r")
        o0, o1 = own(h0, s, x), own(h, s, x)
        rows0, rows = h0.get(RP, "req_to_token", rp(h0, s)), h.get(RP, "req_to_token", rp(h, s))
        j = z3.Int("j")
        return [("ownership only moves from the batch's requests to the tree or the free list", forall(x, o1 != o0, z3.And(o0 > 0, inb(c, q, o0, 0, hi), z3.Or(o1 == 0, o1 == -1)), [o1])),
                ("rows of other requests stay", forall(r, z3.And(slots(h0, s).dom(r), z3.Not(inb(c, q, r, 0, hi))), z3.And(row(h, s, r).ln == row(h0, s, r).ln, forall(j, z3.BoolVal(True), row(h, s, r).at(j).t == row(h0, s, r).at(j).t, [row(h, s, r).at(j).t])), [slots(h, s).dom(r)]))] + \
            others_same(c, h0, h, s, lambda k: inb(c, q, k, 0, hi), DICTS[4:])

    def ens_ins_rc(c):
        h0, h, s, q = c.h0, c.h, c.at("self"), metas(c)
        i = z3.Int("i")
        r = rid(q, i)
        out = GI(h, s) + done_part(c, q, q.ln)
        if TREE:
            out.append(("prefilled prompts are cached and read from the tree", z3.Implies(ch(h, s) != 0, forall(i, z3.And(0 <= i, i < q.ln, slots(h0, s).dom(r)), cpl(h, s, r) == inp(h, s).get(r).ln, [r]))))
        return out

    def inv_ins_rc(c):
        h, s, q = c.h, c.at("self"), metas(c)
        i = z3.Int("i")
        r = rid(q, i)
        out = GI(h, s) + done_part(c, q, c.i)
        if TREE:
            out.append(("done so far", forall(i, z3.And(0 <= i, i < c.i, slots(c.h0, s).dom(r)), cpl(h, s, r) == inp(h, s).get(r).ln, [r])))
        return out

    cons.append(Contract(M + "._insert_into_radix_cache", MOD, dict(SELF, requests_meta=TSeq(META, "list")), requires=req_ins_rc, ensures=ens_ins_rc, loops=cands(inv_ins_rc),
                         modifies=[(M, "_rid_to_cache_protected_len", "self"), (M, "_rid_to_radix_lock", "self"), (M, "_rid_to_gdn_track_slot", "self"), (M, "_node_id_to_gdn_track_slot", "self"),
                                   (A, "own"), (RP, "req_to_token")] + TREEMOD))
    for c in cons:
        c.name_args = c.trusted
    return dict(CONTRACTS=cons, SCHEMA=S, RECORDS=RECORDS, VERIFY=[c.qual for c in cons if not c.trusted])


SUITES = {"radix": build("RadixCache"), "none": build("ChunkCache")}
REPLAY = "c14.py"
MIN_OBLIGATIONS = 800
CONCRETE_NOTE = "serving histories of the real scheduler + model runner + pools + caches (plain radix, sliding window, hybrid, no cache) with a fake model whose output depends on the KV contents it reads; audited after every step"
ASSUMPTIONS = ["_allocate_extend, hybrid (recurrent state) slot hand-over, sliding-window and paged caches in the runner: bounded replay only",
               "pools and RadixCache are used through assumed contracts (their own contracts are proved under C01-C04 in a different vocabulary; the correspondence is by reading)",
               "one batch entry per request; page_size 1"]
