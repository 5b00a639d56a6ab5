"""Shared vocabulary of the radix-cache contracts (C03, C04): page_size 1, full attention (no sliding window).

Ghost fields of a tree node n: gT (n is part of the tree), gP (the tokens on the path from the root to the end of n),
gV (the KV slots on that path).  Everything the contracts say about paths follows from local parent/child invariants."""
import z3
from dv import core
from dv.core import *
from dv.pyexec import Contract

KM = "pymllm.mem_cache.radix_cache"
if globals().get("MAMBA"):
    MOD, N, C, LOCK, EVS = "pymllm.mem_cache.mamba_radix_cache", "MambaTreeNode", "MambaRadixCache", "full_lock_ref", "_full_evictable"
else:
    MOD, N, C, LOCK, EVS = KM, "TreeNode", "RadixCache", "lock_ref", "_evictable_size"
    MAMBA = False
TL = TSeq(TInt, "list")
TT = TSeq(TInt, "tensor")
RK = TRec("RadixKey", {"token_ids": TL, "extra_key": TOpt(TStr)})
MR = TRec("MatchResult", {"indices": TT, "last_node": TRef(N), "prefix_len": TInt, "mamba_branching_seqlen": TOpt(TInt)})
IR = TRec("InsertResult", {"prefix_len": TInt, "last_node": TRef(N), "mamba_exist": TBool})
SCHEMA = {
    N: {"children": TDict(TKey, TRef(N)), "parent": TRef(N), "key": TOpt(RK), "value": TOpt(TT), "lock_ref": TInt, "swa_lock_ref": TInt,
        "swa_tombstone": TBool, "swa_boundary_id": TOpt(TInt), "last_access_time": TReal, "hit_count": TInt, "hash_values": TOpt(TSeq(TStr, "list")), "id": TInt,
        "gT": TBool, "gP": TL, "gV": TL},
    C: {"page_size": TInt, "sliding_window_size": TOpt(TInt), "pool": TAny, "on_node_evict": TAny, "root_node": TRef(N),
        "_evictable_size": TInt, "_protected_size": TInt, "_swa_evictable_size": TInt, "_swa_protected_size": TInt, "_swa_boundary_counter": TInt}}
if MAMBA:
    SCHEMA = {
        N: {"children": TDict(TKey, TRef(N)), "parent": TRef(N), "key": TOpt(RK), "value": TOpt(TT), "mamba_value": TOpt(TT), "full_lock_ref": TInt, "mamba_lock_ref": TInt,
            "last_access_time": TReal, "hit_count": TInt, "id": TInt, "prev": TRef(N), "next": TRef(N), "mamba_prev": TRef(N), "mamba_next": TRef(N),
            "gT": TBool, "gP": TL, "gV": TL, "gFL": TBool, "gML": TBool},
        C: {"page_size": TInt, "pool": TAny, "mamba_pool": TAny, "on_node_evict": TAny, "root_node": TRef(N), "full_lru": TRef("LRUList"), "mamba_lru": TRef("LRUList"),
            "_full_evictable": TInt, "_full_protected": TInt, "_mamba_evictable": TInt, "_mamba_protected": TInt},
        "LRUList": {"mamba": TBool}}
RECORDS = {"RadixKey": RK, "MatchResult": MR, "InsertResult": IR}


def nf(h, f, r):
    return h.get(N, f, r)


def T(h, r):
    return nf(h, "gT", r).t


def key(h, r):
    return nf(h, "key", r).val.fields["token_ids"]


def ext(h, r):
    return nf(h, "key", r).val.fields["extra_key"]


def val(h, r):
    return nf(h, "value", r).val


def P(h, r):
    return nf(h, "gP", r)


def VV(h, r):
    return nf(h, "gV", r)


def par(h, r):
    return nf(h, "parent", r).t


def kids(h, r):
    return nf(h, "children", r)


def same_ext(a, b):
    return z3.And(a.none == b.none, z3.Or(a.none, a.val.t == b.val.t))


def ck(e, tok):
    return z3.If(e.none, KeySort.KInt(tok), KeySort.KPair(e.val.t, tok))


def root(h, s):
    return h.get(C, "root_node", s).t


def tree(h, s):
    """the radix-tree invariant"""
    R = root(h, s)
    n, j = z3.Int("n"), z3.Int("j")
    q = z3.Const("q", KeySort)
    kid = kids(h, n).get(q).t
    nr = z3.And(T(h, n), n != R)
    p = par(h, n)
    return [
        ("the root is an empty node", z3.And(R > 0, T(h, R), key(h, R).ln == 0, val(h, R).ln == 0, P(h, R).ln == 0, VV(h, R).ln == 0)),
        ("tree nodes hold one KV slot per token", forall(n, T(h, n), z3.And(n > 0, z3.Select(h.alive(N), n), z3.Not(nf(h, "value", n).none), z3.Not(nf(h, "key", n).none), val(h, n).ln == key(h, n).ln), [T(h, n)])),
        ("a tree node is its parent's child", forall(n, nr, z3.And(T(h, p), p != n, key(h, n).ln >= 1, kids(h, p).dom(ck(ext(h, n), key(h, n).at(z3.IntVal(0)).t)),
                                                                 kids(h, p).get(ck(ext(h, n), key(h, n).at(z3.IntVal(0)).t)).t == n), [T(h, n)])),
        ("children of tree nodes are tree nodes", forall([n, q], z3.And(T(h, n), kids(h, n).dom(q)),
                                                     z3.And(T(h, kid), kid != R, par(h, kid) == n, q == ck(ext(h, kid), key(h, kid).at(z3.IntVal(0)).t)), [kids(h, n).dom(q)])),
        ("path lengths", forall(n, nr, z3.And(P(h, n).ln == P(h, p).ln + key(h, n).ln, VV(h, n).ln == P(h, n).ln), [T(h, n)])),
        ("paths extend the parent's path", forall([n, j], z3.And(nr, 0 <= j, j < P(h, p).ln), z3.And(P(h, n).at(j).t == P(h, p).at(j).t), [P(h, n).at(j).t])),
        ("slot paths extend the parent's path", forall([n, j], z3.And(nr, 0 <= j, j < P(h, p).ln), VV(h, n).at(j).t == VV(h, p).at(j).t, [VV(h, n).at(j).t])),
        ("paths end with the node's tokens", forall([n, j], z3.And(nr, P(h, p).ln <= j, j < P(h, n).ln), P(h, n).at(j).t == key(h, n).at(j - P(h, p).ln).t, [P(h, n).at(j).t])),
        ("slot paths end with the node's slots", forall([n, j], z3.And(nr, P(h, p).ln <= j, j < P(h, n).ln), VV(h, n).at(j).t == val(h, n).at(j - P(h, p).ln).t, [VV(h, n).at(j).t])),
        ("a path stays in one namespace", forall(n, z3.And(nr, p != R), same_ext(ext(h, n), ext(h, p)), [T(h, n)]))] + (lru(h, s) if MAMBA else [])


def lru(h, s):
    """the LRU lists hold exactly the nodes below the root (with a state, for the state list)"""
    FL, ML = h.get(C, "full_lru", s).t, h.get(C, "mamba_lru", s).t
    n = z3.Int("n")
    return [("two distinct LRU lists", z3.And(FL > 0, ML > 0, FL != ML, z3.Not(h.get("LRUList", "mamba", FL).t), h.get("LRUList", "mamba", ML).t)),
            ("the KV list holds the nodes below the root", forall(n, z3.BoolVal(True), nf(h, "gFL", n).t == z3.And(T(h, n), n != root(h, s)), [nf(h, "gFL", n).t])),
            ("tree nodes are in the KV list", forall(n, z3.And(T(h, n), n != root(h, s)), nf(h, "gFL", n).t, [T(h, n)])),
            ("the state list holds the nodes with a state", forall(n, n != root(h, s), nf(h, "gML", n).t == z3.And(T(h, n), z3.Not(nf(h, "mamba_value", n).none)), [nf(h, "gML", n).t])),
            ("the root is in no list", z3.Not(nf(h, "gML", root(h, s)).t)),
            ("nodes with a state are in the state list", forall(n, z3.And(T(h, n), n != root(h, s), z3.Not(nf(h, "mamba_value", n).none)), nf(h, "gML", n).t, [T(h, n)]))]


def cfg(h, s):
    return [("page size 1", h.get(C, "page_size", s).t == 1)] + ([] if MAMBA else [("full attention", h.get(C, "sliding_window_size", s).none)])


def nkey(c, n="key"):
    return c.a(n).fields["token_ids"], c.a(n).fields["extra_key"]


def kept(h0, h):
    """nodes of the tree stay in the tree with the same path"""
    n, j = z3.Int("n"), z3.Int("j")
    return [("tree nodes stay in the tree", forall(n, T(h0, n), T(h, n), [T(h0, n)])),
            ("nodes keep their path length", forall(n, T(h0, n), z3.And(P(h, n).ln == P(h0, n).ln, VV(h, n).ln == VV(h0, n).ln), [T(h0, n)])),
            ("nodes keep their path tokens", forall([n, j], z3.And(T(h0, n), 0 <= j, j < P(h0, n).ln), P(h, n).at(j).t == P(h0, n).at(j).t, [P(h, n).at(j).t])),
            ("nodes keep their path slots", forall([n, j], z3.And(T(h0, n), 0 <= j, j < P(h0, n).ln), VV(h, n).at(j).t == VV(h0, n).at(j).t, [VV(h, n).at(j).t])),
            ("nodes keep their namespace", forall(n, T(h0, n), same_ext(ext(h, n), ext(h0, n)), [T(h0, n)]))]


GH = [(N, "gT"), (N, "gP"), (N, "gV")] + ([(N, "gFL"), (N, "gML")] if MAMBA else [])


# ------------------------------------------------------------------ _split_node
def req_split(c):
    h, s, ch, k = c.h, c.at("self"), c.at("child"), c.a("split_len").t
    kt, ke = nkey(c)
    return cfg(h, s) + tree(h, s) + [("child is a tree node below the root", z3.And(T(h, ch), ch != root(h, s))),
                                     ("split inside the node", z3.And(0 < k, k < key(h, ch).ln)),
                                     ("key is the child's key", z3.And(seq_eq(kt, key(h, ch)), same_ext(ke, ext(h, ch))))]


def ghost_split(c):
    h, h0, ch = c.h, c.h0, c.at("child")
    r = c.res.t
    k = c.a("split_len").t
    d = P(h0, par(h0, ch)).ln
    h.put(N, "gT", r, VBool(True), c.st)
    a, b = P(h0, ch), VV(h0, ch)
    h.put(N, "gP", r, VSeq(d + k, a._at, TInt, "list", arrs=a.arrs), c.st)
    h.put(N, "gV", r, VSeq(d + k, b._at, TInt, "list", arrs=b.arrs), c.st)


def ens_split(c):
    h, h0, s, ch, k = c.h, c.h0, c.at("self"), c.at("child"), c.a("split_len").t
    r = c.res.t
    n, j = z3.Int("n"), z3.Int("j")
    d = P(h0, par(h0, ch)).ln
    q = z3.Const("q", KeySort)
    oth = forall(n, z3.And(T(h, n), n != r), T(h0, n), [T(h, n)])
    return tree(h, s) + kept(h0, h) + [
        ("the new node is in the tree", z3.And(T(h, r), z3.Not(T(h0, r)), z3.Not(z3.Select(h0.alive(N), r)), r != root(h, s))), ("no other node joins the tree", oth),
        ("the new node ends after split_len tokens", P(h, r).ln == d + k),
        ("the new node has the child's path", forall(j, z3.And(0 <= j, j < d + k), z3.And(P(h, r).at(j).t == P(h0, ch).at(j).t, VV(h, r).at(j).t == VV(h0, ch).at(j).t), [P(h, r).at(j).t])),
        ("the new node is in the child's namespace", same_ext(ext(h, r), ext(h0, ch))),
        ("the child stays below the new node", z3.And(par(h, ch) == r, par(h, r) == par(h0, ch))),
        ("the only child of the new node is the split child", forall(q, kids(h, r).dom(q), kids(h, r).get(q).t == ch, [kids(h, r).dom(q)])),
        ("the child keeps the rest of its tokens", z3.And(key(h, ch).at(z3.IntVal(0)).t == key(h0, ch).at(k).t, same_ext(ext(h, ch), ext(h0, ch)))),
        ("lock counts are inherited", z3.And(nf(h, LOCK, r).t == nf(h0, LOCK, ch).t)),
        ("the token counts add up", z3.And(key(h, r).ln == k, key(h, ch).ln == key(h0, ch).ln - k)),
        ("other nodes keep their tokens", forall(n, z3.And(T(h0, n), n != ch), z3.And(key(h, n).ln == key(h0, n).ln, par(h, n) == par(h0, n)), [T(h0, n)]))]


CH = [(N, "children"), (N, "parent"), (N, "key"), (N, "value")] + ([] if MAMBA else [(N, "swa_boundary_id"), (N, "hash_values")])
SELF = {"self": TRef(C)}
FRESH = [(N, f) for f in ("lock_ref", "swa_lock_ref", "swa_tombstone", "last_access_time", "hit_count", "id")]

split = Contract(C + "._split_node", MOD, dict(SELF, key=RK, child=TRef(N), split_len=TInt), ret=TRef(N), requires=req_split, ensures=ens_split,
                 modifies=CH + GH, ghost_exit=ghost_split, allocs=[N])
nid = Contract("_next_node_id", KM, {}, ret=TInt, trusted=True)


# ------------------------------------------------------------------ _key_match
def ens_km(c):
    a, ea = nkey(c, "key0")
    b, eb = nkey(c, "key1")
    r = c.res.t
    i = z3.Int("i")
    mn = z3.If(a.ln < b.ln, a.ln, b.ln)
    same = same_ext(ea, eb)
    p = c.a("page_size").t
    return [("keys of different namespaces share nothing", z3.Implies(z3.Not(same), r == 0)), ("never more tokens than the keys have", z3.And(0 <= r, r <= mn)),
            ("the shared tokens agree", forall(i, z3.And(0 <= i, i < r), a.at(i).t == b.at(i).t, [a.at(i).t])),
            ("the match is maximal", z3.Implies(z3.And(same, p == 1, r < mn), a.at(r).t != b.at(r).t))]


def km_inv(c):
    a, _ = nkey(c, "key0")
    b, _ = nkey(c, "key1")
    i = c.v("i").t
    k = z3.Int("k")
    return [forall(k, z3.And(0 <= k, k < i, k < a.ln, k < b.ln), a.at(k).t == b.at(k).t, [a.at(k).t])]


def km_idx(c):
    return [c.v("i").t == c.i]


def km_rng(c):
    return [z3.And(c.v("i").t >= 0)]


keymatch = Contract("_key_match", KM, {"key0": RK, "key1": RK, "page_size": TInt}, ret=TInt, requires=lambda c: [("page_size >= 1", c.a("page_size").t >= 1)], ensures=ens_km,
                    loops=[("position counter", km_idx), ("position not negative", km_rng), ("tokens before the position agree", km_inv)])


# ------------------------------------------------------------------ _add_leaf
def req_add(c):
    h, s, p = c.h, c.at("self"), c.at("parent")
    kt, ke = nkey(c)
    v = c.a("value")
    return cfg(h, s) + tree(h, s) + [("parent is a tree node", T(h, p)), ("something to add", kt.ln >= 1), ("one KV slot per token", v.ln == kt.ln),
                                     ("no child starts with this token", z3.Not(kids(h, p).dom(ck(ke, kt.at(z3.IntVal(0)).t)))),
                                     ("same namespace as the parent", z3.Or(p == root(h, s), same_ext(ke, ext(h, p))))]


def ghost_add(c):
    h, h0, p = c.h, c.h0, c.at("parent")
    r = c.res.t
    kt, ke = nkey(c)
    v = c.a("value")
    h.put(N, "gT", r, VBool(True), c.st)
    d = P(h0, p).ln
    for f, old, ad in (("gP", P(h0, p), kt), ("gV", VV(h0, p), v)):
        h.put(N, f, r, VSeq(d + kt.ln, lambda i, old=old, ad=ad: VS(z3.If(i < d, old.at(i).t, ad.at(i - d).t), TInt), TInt, "list"), c.st)


def ens_add(c):
    h, h0, s, p = c.h, c.h0, c.at("self"), c.at("parent")
    kt, ke = nkey(c)
    v = c.a("value")
    r = c.res.t
    n, j = z3.Int("n"), z3.Int("j")
    q = z3.Const("q", KeySort)
    d = P(h0, p).ln
    return tree(h, s) + kept(h0, h) + [
        ("the new node is in the tree", z3.And(T(h, r), z3.Not(T(h0, r)), z3.Not(z3.Select(h0.alive(N), r)), r != root(h, s))), ("no other node joins the tree", forall(n, z3.And(T(h, n), n != r), T(h0, n), [T(h, n)])),
        ("the new node extends the parent", z3.And(par(h, r) == p, P(h, r).ln == d + kt.ln)),
        ("path = parent's path + tokens", forall(j, z3.And(0 <= j, j < P(h, r).ln), P(h, r).at(j).t == z3.If(j < d, P(h0, p).at(j).t, kt.at(j - d).t), [P(h, r).at(j).t])),
        ("slots = parent's slots + value", forall(j, z3.And(0 <= j, j < P(h, r).ln), VV(h, r).at(j).t == z3.If(j < d, VV(h0, p).at(j).t, v.at(j - d).t), [VV(h, r).at(j).t])),
        ("the new node is in the key's namespace", same_ext(ext(h, r), ke)),
        ("the new node is an unlocked leaf", z3.And(nf(h, LOCK, r).t == 0, forall(q, z3.BoolVal(True), z3.Not(kids(h, r).dom(q)), [kids(h, r).dom(q)]))),
        ("exactly the new tokens become evictable", h.get(C, EVS, s).t == h0.get(C, EVS, s).t + kt.ln),
        ("other nodes keep their tokens", forall(n, T(h0, n), z3.And(key(h, n).ln == key(h0, n).ln, par(h, n) == par(h0, n)), [T(h0, n)]))]


add = Contract(C + "._add_leaf", MOD, dict(SELF, parent=TRef(N), key=RK, value=TT, swa_tombstone=TBool), ret=TRef(N), requires=req_add, ensures=ens_add,
               modifies=[(N, "children"), (C, EVS)] + GH, ghost_exit=ghost_add, allocs=[N])


# ------------------------------------------------------------------ _match_normal / match_prefix
if not getattr(core, "_sum_on", False):
    core.AXIOMS.extend(sum_axioms())
    core._sum_on = True
TTL = TSeq(TT, "list")


def off(st, vs, k):
    if vs.items is not None and not vs.items:
        return z3.IntVal(0)
    return total_of(st, k, lambda i: vs.at(i).ln)


def agrees(h, n, kt):
    """the path of n is a prefix of the key"""
    j = z3.Int("j")
    return forall(j, z3.And(0 <= j, j < P(h, n).ln), P(h, n).at(j).t == kt.at(j).t, [P(h, n).at(j).t])


def holds_slots(h, n, vs, st):
    k, j = z3.Ints("k j")
    if vs.items is not None and not vs.items:
        return z3.BoolVal(True)
    return forall([k, j], z3.And(0 <= k, k < vs.ln, 0 <= j, j < vs.at(k).ln), VV(h, n).at(off(st, vs, k) + j).t == vs.at(k).at(j).t, [vs.at(k).at(j).t])


def inside(h, n, vs, st):
    k = z3.Int("k")
    if vs.items is not None and not vs.items:
        return z3.BoolVal(True)
    return forall(k, z3.And(0 <= k, k < vs.ln), z3.And(0 <= off(st, vs, k), off(st, vs, k) + vs.at(k).ln <= P(h, n).ln), [vs.at(k).ln])


def grows(h0, h, s):
    """what matching may do to the tree: split nodes"""
    return tree(h, s) + kept(h0, h)


def node_for(h, s, n, kt, ke):
    return [("the node is in the tree", z3.And(n > 0, T(h, n))), ("the node's path is not longer than the key", P(h, n).ln <= kt.ln), ("the node's path is a prefix of the key", agrees(h, n, kt)),
            ("the node is in the key's namespace", z3.Or(n == root(h, s), same_ext(ext(h, n), ke)))]


def no_longer(h, n, kt, ke):
    L = P(h, n).ln
    return z3.Or(L == kt.ln, z3.Not(kids(h, n).dom(ck(ke, kt.at(L).t))))


def req_match(c):
    return cfg(c.h, c.at("self")) + tree(c.h, c.at("self"))


def ens_match(c):
    h, h0, s = c.h, c.h0, c.at("self")
    kt, ke = nkey(c)
    vs, n = c.res.items[0], c.res.items[1].t
    vs = c.rd(vs)
    return grows(h0, h, s) + node_for(h, s, n, kt, ke) + [
        ("no longer cached prefix exists", no_longer(h, n, kt, ke)),
        ("the returned slots cover the path", off(c.st, vs, vs.ln) == P(h, n).ln),
        ("every returned part lies inside the path", inside(h, n, vs, c.st)),
        ("the returned slots are the path's slots, in order", holds_slots(h, n, vs, c.st))]


def m_tree(c):
    return [f for _, f in tree(c.h, c.at("self"))]


def m_kept(c):
    return [f for _, f in kept(c.h0, c.h)]


def m_node(c):
    n = c.v("node").t
    kt, ke = nkey(c)
    return [f for _, f in node_for(c.h, c.at("self"), n, kt, ke)]


def m_key(c):
    """the rest of the key starts where the node's path ends"""
    n = c.v("node").t
    kt, ke = nkey(c)
    k = c.v("key")
    r, e = k.fields["token_ids"], k.fields["extra_key"]
    r = c.rd(r)
    j = z3.Int("j")
    L = P(c.h, n).ln
    return [same_ext(e, ke), r.ln == kt.ln - L, forall(j, z3.And(0 <= j, j < r.ln), r.at(j).t == kt.at(L + j).t, [r.at(j).t]),
            forall(j, z3.And(L <= j, j < kt.ln), r.at(j - L).t == kt.at(j).t, [kt.at(j).t])]


def m_vals(c):
    n = c.v("node").t
    vs = c.v("values")
    return [off(c.st, vs, vs.ln) == P(c.h, n).ln, inside(c.h, n, vs, c.st), holds_slots(c.h, n, vs, c.st)]


MM = CH + GH + [(N, "hit_count")] + ([] if MAMBA else [(N, "last_access_time")])
LOOPS = [("tree invariant", m_tree), ("tree only grows by splits", m_kept), ("the node matches", m_node), ("the rest of the key", m_key), ("slots so far", m_vals)]
match = Contract(C + "._match_normal", MOD, dict(SELF, key=RK), ret=TTup([TTL, TRef(N)]), requires=req_match, ensures=ens_match, modifies=MM, allocs=[N], loops=LOOPS)


def ens_mp(c):
    h, h0, s = c.h, c.h0, c.at("self")
    kt, ke = nkey(c)
    n = c.res.fields["last_node"].t
    ix = c.res.fields["indices"]
    j = z3.Int("j")
    return grows(h0, h, s) + node_for(h, s, n, kt, ke) + [
        ("no longer cached prefix exists", no_longer(h, n, kt, ke)),
        ("one slot per matched token", z3.And(ix.ln == P(h, n).ln, c.res.fields["prefix_len"].t == ix.ln)),
        ("the slots are those cached for exactly these tokens", forall(j, z3.And(0 <= j, j < ix.ln), ix.at(j).t == VV(h, n).at(j).t, [ix.at(j).t]))]


matchp = Contract(C + ".match_prefix", MOD, dict(SELF, key=RK), ret=MR, requires=req_match, ensures=ens_mp, modifies=MM, allocs=[N])


# ------------------------------------------------------------------ _insert_normal / insert
def req_ins(c):
    h, s = c.h, c.at("self")
    kt, ke = nkey(c)
    return cfg(h, s) + tree(h, s) + [("one KV slot per token", c.a("value").ln == kt.ln)] + ([("insertion starts at the root", c.at("node") == root(h, s))] if "node" in c.args else [])


def ens_ins(c, n, pl):
    h, h0, s = c.h, c.h0, c.at("self")
    kt, ke = nkey(c)
    v = c.a("value")
    j = z3.Int("j")
    return grows(h0, h, s) + node_for(h, s, n, kt, ke) + [
        ("the whole key is cached", P(h, n).ln == kt.ln), ("the reused prefix is part of the key", z3.And(0 <= pl, pl <= kt.ln)),
        ("new tokens get the caller's slots", forall(j, z3.And(pl <= j, j < kt.ln), VV(h, n).at(j).t == v.at(j).t, [VV(h, n).at(j).t])),
        ("the reused prefix was cached before, with the same slots", was(h0, h, n, kt, pl)),
        ("exactly the new tokens become evictable", h.get(C, EVS, s).t == h0.get(C, EVS, s).t + kt.ln - pl)]


def was(h0, h, n, kt, pl):
    """an old node (its path is kept, see kept()) already had the first pl tokens of the key, with the slots that n has for them"""
    m, j = z3.FreshInt("m"), z3.Int("j")
    return z3.Exists([m], z3.And(T(h0, m), P(h, m).ln >= pl, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < pl), z3.And(P(h, m).at(j).t == kt.at(j).t, VV(h, m).at(j).t == VV(h, n).at(j).t)), patterns=[P(h, m).at(j).t])), patterns=[T(h0, m)])


def i_pref(c):
    return [c.v("total_prefix").t == P(c.h, c.v("node").t).ln]


def i_val(c):
    n = c.v("node").t
    L = P(c.h, n).ln
    v, r = c.a("value"), c.v("value")
    j = z3.Int("j")
    return [r.ln == v.ln - L, forall(j, z3.And(0 <= j, j < r.ln), r.at(j).t == v.at(L + j).t, [r.at(j).t]), forall(j, z3.And(L <= j, j < v.ln), r.at(j - L).t == v.at(j).t, [v.at(j).t])]


def i_was(c):
    """the node is old, or the upper part of an old node that was split"""
    n = c.v("node").t
    m = z3.FreshInt("m")
    return [z3.Or(T(c.h0, n), z3.Exists([m], z3.And(T(c.h0, m), T(c.h, m), m != root(c.h, c.at("self")), par(c.h, m) == n), patterns=[T(c.h0, m)]))]


def i_ck(c):
    k = c.v("key")
    r, e = c.rd(k.fields["token_ids"]), k.fields["extra_key"]
    q = enc_key(c.v("ck"))
    return [z3.Implies(r.ln > 0, q == ck(e, r.at(z3.IntVal(0)).t))]


def i_new(c):
    n = c.v("node").t
    x = z3.Int("n")
    k = c.v("key")
    r, e = c.rd(k.fields["token_ids"]), k.fields["extra_key"]
    return [z3.Or(forall(x, T(c.h, x), T(c.h0, x), [T(c.h, x)]), r.ln == 0, z3.Not(kids(c.h, n).dom(ck(e, r.at(z3.IntVal(0)).t))))]


MI = MM + [(C, EVS)]
insn = Contract(C + "._insert_normal", MOD, dict(SELF, node=TRef(N), key=RK, value=TT), ret=TTup([TInt, TRef(N)]), requires=req_ins,
                ensures=lambda c: ens_ins(c, c.res.items[1].t, c.res.items[0].t), modifies=MI, allocs=[N],
                loops=LOOPS[:4] + [("prefix counter", i_pref), ("the rest of the value", i_val), ("prefix cached before", i_was), ("child key", i_ck), ("at most one split", i_new)])
ins = Contract(C + ".insert", MOD, dict(SELF, key=RK, value=TT), ret=IR, requires=req_ins,
               ensures=lambda c: ens_ins(c, c.res.fields["last_node"].t, c.res.fields["prefix_len"].t), modifies=MI, allocs=[N])


# ------------------------------------------------------------------ reset
def ghost_reset(c):
    h, s = c.h, c.at("self")
    r = root(h, s)
    h.m[(N, "gT")] = [z3.Store(z3.K(z3.IntSort(), z3.BoolVal(False)), r, z3.BoolVal(True))]
    for f in ("gP", "gV"):
        h.put(N, f, r, VSeq(z3.IntVal(0), lambda i: VInt(0), TInt, "list"), c.st)


def ens_reset(c):
    h, s = c.h, c.at("self")
    n = z3.Int("n")
    q = z3.Const("q", KeySort)
    R = root(h, s)
    return tree(h, s) + [("nothing is cached", z3.And(forall(n, T(h, n), n == R, [T(h, n)]), forall(q, z3.BoolVal(True), z3.Not(kids(h, R).dom(q)), [kids(h, R).dom(q)]))),
                         ("the root is new", z3.Not(z3.Select(c.h0.alive(N), R))), ("the root is never evicted", nf(h, "lock_ref", R).t >= 1),
                         ("no token is counted", z3.And([h.get(C, f, s).t == 0 for f in ("_evictable_size", "_protected_size", "_swa_evictable_size", "_swa_protected_size")]))]


reset = Contract(C + ".reset", MOD, SELF, ensures=ens_reset, modifies=[(C, f) for f in ("root_node", "_evictable_size", "_protected_size", "_swa_evictable_size", "_swa_protected_size")] + GH,
                 ghost_exit=ghost_reset, allocs=[N])
