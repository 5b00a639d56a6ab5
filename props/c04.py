"""C04: locking, eviction and token accounting of the radix cache (page size 1, full attention)."""
from props.radix import *
from props import radix as _r
import copy

PO = "Pool"
SCHEMA = copy.deepcopy(_r.SCHEMA)
SCHEMA = {k: dict(v) for k, v in _r.SCHEMA.items()}
SCHEMA[C]["pool"] = TRef(PO)
SCHEMA[C]["gMark"] = TInt          # ghost: how many freed slots are accounted to removed nodes
SCHEMA[PO] = {"gF": TL}            # ghost: the slots given back to the pool, in order
RECORDS = dict(_r.RECORDS, EvictResult=TRec("EvictResult", {"full_evicted": TInt, "swa_evicted": TInt, "mamba_evicted": TInt}))


def pool(h, s):
    return h.get(C, "pool", s).t


def gF(h, s):
    return h.get(PO, "gF", pool(h, s))


def mark(h, s):
    return h.get(C, "gMark", s).t


def lock(h, n):
    return nf(h, "lock_ref", n).t


def leaf(h, n):
    q = z3.Const("q", KeySort)
    return forall([q], z3.BoolVal(True), z3.Not(kids(h, n).dom(q)), [kids(h, n).dom(q)])


def ev_sz(h, s):
    return h.get(C, "_evictable_size", s).t


def pr_sz(h, s):
    return h.get(C, "_protected_size", s).t


AI, AB = z3.ArraySort(z3.IntSort(), z3.IntSort()), z3.ArraySort(z3.IntSort(), z3.BoolSort())
ANC, U = z3.Const("ancestors", AB), z3.Const("U", AI)


def is_anc(h, s, node):
    """ANC = the nodes on the path from node to the root"""
    R = root(h, s)
    m, k = z3.Ints("m k")
    D = lambda x: P(h, x).ln
    return [("path contains the node", ANC[node]), ("path is closed under parents", forall(m, z3.And(ANC[m], m != R), z3.And(T(h, m), ANC[par(h, m)]), [ANC[m]])),
            ("path members are in the tree", forall(m, ANC[m], z3.And(T(h, m), D(m) <= D(node)), [ANC[m]])),
            ("path has one node per depth", forall([m, k], z3.And(ANC[m], ANC[k], D(m) == D(k)), m == k, [z3.MultiPattern(ANC[m], ANC[k])])),
            ("path has no gaps", forall([m, k], z3.And(ANC[m], ANC[k], D(k) < D(m)), D(k) <= D(par(h, m)), [z3.MultiPattern(ANC[m], ANC[k])]))]


def psum(h, s, cond):
    """U(n) = tokens on the path of n whose node satisfies cond"""
    R = root(h, s)
    m = z3.Int("m")
    return [("U of the root", U[R] == 0), ("U along the path", forall(m, z3.And(ANC[m], m != R), U[m] == U[par(h, m)] + z3.If(cond(m), key(h, m).ln, 0), [ANC[m]]))]


def locks_after(h0, h, s, d, depth=None):
    m = z3.Int("m")
    R = root(h, s)
    up = z3.And(ANC[m], m != R)
    if depth is not None:
        up = z3.And(up, P(h0, m).ln > depth)
    return forall(m, T(h0, m), lock(h, m) == lock(h0, m) + z3.If(up, d, 0), [lock(h, m)])


def nonneg(h, s):
    m = z3.Int("m")
    return ("lock counts are never negative", forall(m, T(h, m), lock(h, m) >= 0, [T(h, m)]))


def req_inc(c):
    h, s, n = c.h, c.at("self"), c.at("node")
    return cfg(h, s) + tree(h, s) + [("node is in the tree", T(h, n)), nonneg(h, s)] + is_anc(h, s, n) + psum(
        h, s, lambda m: lock(h, m) == 0)


def ens_inc(c):
    h, h0, s, n = c.h, c.h0, c.at("self"), c.at("node")
    return [("every node on the path is locked once more, no other", locks_after(h0, h, s, 1)),
            ("newly protected tokens leave the evictable count", ev_sz(h, s) == ev_sz(h0, s) - U[n]), ("newly protected tokens join the protected count", pr_sz(h, s) == pr_sz(h0, s) + U[n]),
            ("no lock token without a sliding window", c.res.none), nonneg(h, s)]


def up_cur(c):
    h, h0, s = c.h, c.h0, c.at("self")
    cur = c.v("cur").t
    return [z3.And(cur > 0, T(h, cur), ANC[cur])]


def up_lock(d):
    def f(c):
        h, h0, s = c.h, c.h0, c.at("self")
        cur = c.v("cur").t
        return [locks_after(h0, h, s, d, P(h0, cur).ln)]
    return f


def up_cnt(d):
    def f(c):
        h, h0, s, n = c.h, c.h0, c.at("self"), c.at("node")
        cur = c.v("cur").t
        return [ev_sz(h, s) == ev_sz(h0, s) - d * (U[n] - U[cur]), pr_sz(h, s) == pr_sz(h0, s) + d * (U[n] - U[cur])]
    return f


LK = [(N, "lock_ref"), (C, "_evictable_size"), (C, "_protected_size")]
inc = Contract(C + ".inc_lock_ref", MOD, dict(SELF, node=TRef(N)), ret=TOpt(TInt), requires=req_inc, ensures=ens_inc, modifies=LK,
               loops=[("on the path", up_cur), ("locks below are taken", up_lock(1)), ("counts follow the locks", up_cnt(1))])


def req_dec(c):
    h, s, n = c.h, c.at("self"), c.at("node")
    m = z3.Int("m")
    return cfg(h, s) + tree(h, s) + [("node is in the tree", T(h, n)), nonneg(h, s), ("the path is locked", forall(m, z3.And(ANC[m], m != root(h, s)), lock(h, m) >= 1, [ANC[m]]))] + is_anc(h, s, n) + psum(
        h, s, lambda m: lock(h, m) == 1)


def ens_dec(c):
    h, h0, s, n = c.h, c.h0, c.at("self"), c.at("node")
    m = z3.Int("m")
    return [("every node on the path is locked once less, no other", locks_after(h0, h, s, -1)),
            ("released tokens join the evictable count", ev_sz(h, s) == ev_sz(h0, s) + U[n]), ("released tokens leave the protected count", pr_sz(h, s) == pr_sz(h0, s) - U[n]),
            nonneg(h, s)]


dec = Contract(C + ".dec_lock_ref", MOD, dict(SELF, node=TRef(N)), requires=req_dec, ensures=ens_dec, modifies=LK,
               loops=[("on the path", up_cur), ("locks below are released", up_lock(-1)), ("counts follow the locks", up_cnt(-1))])

# ------------------------------------------------------------------ eviction


def cat1(a, b, r):
    """r = a ++ b"""
    i = z3.Int("i")
    return [r.ln == a.ln + b.ln, forall(i, z3.And(0 <= i, i < a.ln), r.at(i).t == a.at(i).t, [r.at(i).t]),
            forall(i, z3.And(a.ln <= i, i < r.ln), r.at(i).t == b.at(i - a.ln).t, [r.at(i).t])]


pfree = Contract(PO + ".free", MOD, {"self": TRef(PO), "indices": TT}, trusted=True, modifies=[(PO, "gF", "self")],
                 ensures=lambda c: [("free", z3.And(cat1(c.h0.get(PO, "gF", c.at("self")), c.a("indices"), c.h.get(PO, "gF", c.at("self")))))])


def ens_fi(c):
    h, h0, s = c.h, c.h0, c.at("self")
    ix = c.a("indices")
    return [("exactly these slots go back to the pool", z3.Implies(pool(h, s) != 0, z3.And(cat1(gF(h0, s), ix, gF(h, s)))))]


fi = Contract(C + "._free_indices", MOD, dict(SELF, indices=TT), ensures=ens_fi, modifies=[(PO, "gF")])


def just_freed(h, s, n):
    j = z3.Int("j")
    F = gF(h, s)
    ln = key(h, n).ln
    return z3.Implies(pool(h, s) != 0, z3.And(F.ln == mark(h, s) + ln, mark(h, s) >= 0,
                                             forall(j, z3.And(0 <= j, j < ln), val(h, n).at(j).t == F.at(mark(h, s) + j).t, [val(h, n).at(j).t])))


def req_del(c):
    h, s, n = c.h, c.at("self"), c.at("node")
    return cfg(h, s) + tree(h, s) + [("only a tree node below the root is removed", z3.And(T(h, n), n != root(h, s))), ("only an unlocked node is removed", lock(h, n) == 0),
                                     ("only a leaf is removed", leaf(h, n)),
                                     ("exactly its own slots were just given back", just_freed(h, s, n))]


def ghost_del(c):
    h, h0, s, n = c.h, c.h0, c.at("self"), c.at("node")
    h.put(N, "gT", n, VBool(False), c.st)
    h.put(C, "gMark", s, VInt(z3.If(pool(h, s) != 0, gF(h, s).ln, mark(h, s))), c.st)


def still(h0, h, s):
    """nodes that stay: path, tokens, slots, lock unchanged; removed nodes were unlocked and are marked evicted"""
    n = z3.Int("n")
    return [("no node joins the tree", forall(n, T(h, n), T(h0, n), [T(h, n)])), ("the root stays", T(h, root(h, s))),
            ("removed nodes were unlocked", forall(n, z3.And(T(h0, n), z3.Not(T(h, n))), z3.And(lock(h0, n) == 0, nf(h, "value", n).none), [T(h0, n)])),
            ("nodes that stay keep their slots", forall(n, T(h, n), z3.And([x == y for x, y in zip(flatten_pure(nf(h, "value", n), SCHEMA[N]["value"]), flatten_pure(nf(h0, "value", n), SCHEMA[N]["value"]))]), [T(h, n)]))]


def sub_kids(h0, h):
    n = z3.Int("n")
    q = z3.Const("q", KeySort)
    return [("nodes only lose children", forall([n, q], z3.And(T(h0, n), kids(h, n).dom(q)), z3.And(kids(h0, n).dom(q), kids(h, n).get(q).t == kids(h0, n).get(q).t), [kids(h, n).dom(q)]))]


def ens_del(c):
    h, h0, s, n = c.h, c.h0, c.at("self"), c.at("node")
    m = z3.Int("m")
    return tree(h, s) + still(h0, h, s) + sub_kids(h0, h) + [
        ("exactly this node is removed", forall(m, T(h0, m), z3.Or(T(h, m), m == n), [T(h0, m)])), ("the node is gone", z3.Not(T(h, n))),
        ("its tokens leave the evictable count", ev_sz(h, s) == ev_sz(h0, s) - key(h0, n).ln), ("the mark moves to the end", z3.Implies(pool(h, s) != 0, mark(h, s) == gF(h, s).ln))]


dele = Contract(C + "._delete_leaf", MOD, dict(SELF, node=TRef(N)), requires=req_del, ensures=ens_del,
                modifies=[(N, "children"), (N, "value", "node"), (C, "_evictable_size"), (N, "gT"), (C, "gMark")], ghost_exit=ghost_del)

NL = TSeq(TRef(N), "list")


def cand(h, s, n):
    return z3.And(n > 0, z3.Select(h.alive(N), n), n != root(h, s), z3.Or(z3.And(T(h, n), leaf(h, n)), z3.And(z3.Not(T(h, n)), nf(h, "value", n).none)))


def ens_col(c):
    h, s = c.h, c.at("self")
    r = c.res
    i = z3.Int("i")
    return [("only unlocked leaves are collected", forall(i, z3.And(0 <= i, i < r.ln), z3.And(r.at(i).t > 0, T(h, r.at(i).t), r.at(i).t != root(h, s), leaf(h, r.at(i).t), lock(h, r.at(i).t) == 0), [r.at(i).t]))]


def col_inv(n, extra):
    def f(c):
        h, s = c.h, c.at("self")
        r = c.v(n)
        if r.items is not None and not r.items:
            return []
        i = z3.Int("i")
        x = r.at(i).t
        return [forall(i, z3.And(0 <= i, i < r.ln), z3.And([x > 0, T(h, x)] + ([x != root(h, s), leaf(h, x), lock(h, x) == 0] if extra else [])), [x])]
    return f


def col_kid(c):
    i = z3.Int("i")
    sq = c.seq
    b = c.v("has_live_child")
    b = b.t if isinstance(b, VS) else z3.BoolVal(bool(b.v))
    return [z3.Implies(c.i > 0, b)]


col = Contract(C + "._collect_evictable_leaves", MOD, SELF, ret=NL, requires=lambda c: tree(c.h, c.at("self")), ensures=ens_col,
               loops=[("stack holds tree nodes", col_inv("stack", False)), ("collected nodes are unlocked leaves", col_inv("leaves", True)), ("a child was seen", col_kid)])


def req_ev(c):
    h, s = c.h, c.at("self")
    return cfg(h, s) + tree(h, s) + [("every freed slot is accounted for", z3.Implies(pool(h, s) != 0, mark(h, s) == gF(h, s).ln)), ("num_tokens >= 0", c.a("num_tokens").t >= 0), nonneg(h, s)]


def ens_ev(c):
    h, h0, s = c.h, c.h0, c.at("self")
    fe = c.res.fields["full_evicted"].t
    return tree(h, s) + still(h0, h, s) + [nonneg(h, s),
        ("every freed slot belongs to exactly one removed node", z3.Implies(pool(h, s) != 0, mark(h, s) == gF(h, s).ln)),
        ("the reported count is what was given back", z3.Implies(pool(h, s) != 0, fe == gF(h, s).ln - gF(h0, s).ln)), ("the reported count leaves the evictable count", ev_sz(h, s) == ev_sz(h0, s) - fe)]


def ev_tree(c):
    return [f for _, f in tree(c.h, c.at("self")) + still(c.h0, c.h, c.at("self"))]


def ev_heap(c):
    h, s = c.h, c.at("self")
    r = c.v("heap")
    i = z3.Int("i")
    return [forall(i, z3.And(0 <= i, i < r.ln), cand(h, s, r.at(i).items[1].t), [r.at(i).items[1].t])]


def ev_cnt(c):
    h, h0, s = c.h, c.h0, c.at("self")
    fe = c.v("full_evicted").t
    return [z3.Implies(pool(h, s) != 0, z3.And(mark(h, s) == gF(h, s).ln, fe == gF(h, s).ln - gF(h0, s).ln)), ev_sz(h, s) == ev_sz(h0, s) - fe]


evict = Contract(C + ".evict", MOD, dict(SELF, num_tokens=TInt), ret=RECORDS["EvictResult"], requires=req_ev, ensures=ens_ev,
                 modifies=[(N, "children"), (N, "value"), (C, "_evictable_size"), (N, "gT"), (C, "gMark"), (PO, "gF")],
                 loops=[("tree invariant", ev_tree), ("heap holds leaves or removed nodes", ev_heap), ("counts", ev_cnt)])
CONTRACTS = [nid, keymatch, split, add, insn, ins, reset, inc, dec, pfree, fi, dele, col, evict]
VERIFY = [c.qual for c in CONTRACTS if not c.trusted]
REPLAY = "c04.py"
MIN_OBLIGATIONS = 150
CONCRETE_NOTE = "seeded random insert/lock/unlock/evict histories on the real RadixCache (with and without sliding window) against a model that counts locks per token prefix and tracks every freed slot"
ASSUMPTIONS = ["contracts cover page_size 1 without a sliding window; sliding-window locks and tombstones are covered by the bounded concrete search only",
               "the pool's free() returns exactly the given slots (C01)", "a caller unlocks only what it locked (precondition of dec_lock_ref: the whole path is locked)",
               "heapq.heapify/heappop/heappush permute, remove and add elements (assumed contracts)"]
TRUSTED = ["Pool.free: appends exactly the given slots to the ghost history"]
