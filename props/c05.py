"""C05: the dual (KV + recurrent state) radix cache (page size 1)."""
from props.mradix import R
globals().update({k: v for k, v in vars(R).items() if not k.startswith("__")})
LR = "LRUList"
PO, MPO = "Pool", "MPool"
SCHEMA = {k: dict(v) for k, v in R.SCHEMA.items()}
SCHEMA[C].update({"pool": TRef(PO), "mamba_pool": TRef(MPO), "gMark": TInt, "gMMark": TInt})
SCHEMA[PO] = {"gF": TL}
SCHEMA[MPO] = {"gF": TL}
RECORDS = dict(R.RECORDS, EvictResult=TRec("EvictResult", {"full_evicted": TInt, "swa_evicted": TInt, "mamba_evicted": TInt}))


def mv(h, n):
    return nf(h, "mamba_value", n)


def inl(h, L, n):
    return z3.If(h.get(LR, "mamba", L).t, nf(h, "gML", n).t, nf(h, "gFL", n).t)


def only(h0, h, L, n, b):
    """list L: membership of n becomes b, nothing else changes"""
    m = z3.Int("n")
    fl, ml = z3.Not(h0.get(LR, "mamba", L).t), h0.get(LR, "mamba", L).t
    return z3.And(forall(m, z3.BoolVal(True), nf(h, "gFL", m).t == z3.If(z3.And(fl, m == n), z3.BoolVal(b), nf(h0, "gFL", m).t), [nf(h, "gFL", m).t]),
                  forall(m, z3.BoolVal(True), nf(h, "gML", m).t == z3.If(z3.And(ml, m == n), z3.BoolVal(b), nf(h0, "gML", m).t), [nf(h, "gML", m).t]))


PTR = [(N, f) for f in ("prev", "next", "mamba_prev", "mamba_next")]
GM = [(N, "gFL"), (N, "gML")]
LS = {"self": TRef(LR)}
l_ins = Contract(LR + ".insert_mru", MOD, dict(LS, node=TRef(N)), trusted=True, modifies=PTR + GM,
                 requires=lambda c: [("not in the list yet", z3.Not(inl(c.h, c.at("self"), c.at("node"))))], ensures=lambda c: [("in the list", only(c.h0, c.h, c.at("self"), c.at("node"), True))])
l_rem = Contract(LR + ".remove", MOD, dict(LS, node=TRef(N)), trusted=True, modifies=PTR + GM,
                 requires=lambda c: [("in the list", inl(c.h, c.at("self"), c.at("node")))], ensures=lambda c: [("left the list", only(c.h0, c.h, c.at("self"), c.at("node"), False))])
l_has = Contract(LR + ".__contains__", MOD, dict(LS, node=TRef(N)), ret=TBool, trusted=True,
                 ensures=lambda c: [("membership", c.res.t == z3.And(c.at("node") != 0, inl(c.h, c.at("self"), c.at("node"))))])
l_touch = Contract(LR + ".touch_node_and_parents_mru", MOD, dict(LS, node=TRef(N), root=TRef(N)), trusted=True, modifies=PTR)


def leaf(h, n):
    q = z3.Const("q", KeySort)
    return forall([q], z3.BoolVal(True), z3.Not(kids(h, n).dom(q)), [kids(h, n).dom(q)])


def ens_lru(lk, lf):
    def f(c):
        h, s, r = c.h, c.at("self"), c.res.t
        n = z3.Int("n")
        g = "gFL" if lf else "gML"
        q = z3.Const("q", KeySort)
        some = lambda x: z3.Or([z3.Not(nf(h, g, x).t), nf(h, lk, x).t != 0] + ([z3.Exists([q], kids(h, x).dom(q))] if lf else []))
        ok = [nf(h, g, r).t, nf(h, lk, r).t == 0] + ([leaf(h, r)] if lf else [])
        return [("a listed node nobody holds" + (", without children" if lf else ""), z3.Implies(r != 0, z3.And(ok))),
                ("nothing is returned only if there is none", z3.Implies(r == 0, forall(n, nf(h, g, n).t, some(n), [nf(h, g, n).t])))]
    return f


l_leaf = Contract(LR + ".get_lru_leaf_unlocked", MOD, LS, ret=TRef(N), trusted=True, requires=lambda c: [("KV list", z3.Not(c.h.get(LR, "mamba", c.at("self")).t))], ensures=ens_lru("full_lock_ref", True))
l_unl = Contract(LR + ".get_lru_unlocked", MOD, LS, ret=TRef(N), trusted=True, requires=lambda c: [("state list", c.h.get(LR, "mamba", c.at("self")).t)], ensures=ens_lru("mamba_lock_ref", False))
LRU = [l_ins, l_rem, l_has, l_touch, l_leaf, l_unl]


# ------------------------------------------------------------------ tree operations
def with_ens(c0, extra, **kw):
    c = copy.copy(c0)
    e0 = c0.ensures
    c.ensures = lambda x: e0(x) + extra(x)
    for k, v in kw.items():
        setattr(c, k, v)
    return c


import copy


def ens_split_m(c):
    h, r = c.h, c.res.t
    return [("a state stays at the end of its tokens", z3.And(mv(h, r).none, nf(h, "mamba_lock_ref", r).t == 0))]


split = with_ens(R.split, ens_split_m)
split.modifies = R.split.modifies + PTR


def opt_same(a, b):
    j = z3.Int("j")
    return z3.And(a.none == b.none, z3.Or(a.none, z3.And(a.val.ln == b.val.ln, forall(j, z3.And(0 <= j, j < a.val.ln), a.val.at(j).t == b.val.at(j).t, [a.val.at(j).t]))))


def ln_of(o):
    return z3.If(o.none, 0, o.val.ln)


def me(h, s):
    return h.get(C, "_mamba_evictable", s).t


def mp(h, s):
    return h.get(C, "_mamba_protected", s).t


def ens_add_m(c):
    h, r, s = c.h, c.res.t, c.at("self")
    g = c.a("mamba_value")
    return [("the new node has the given state", opt_same(mv(h, r), g)), ("nobody holds the new state", nf(h, "mamba_lock_ref", r).t == 0), ("exactly the given state entries become evictable", me(h, s) == me(c.h0, s) + ln_of(g))]


add = with_ens(R.add, ens_add_m)
add.params = dict(SELF, parent=TRef(N), key=RK, value=TT, mamba_value=TOpt(TT))
add.modifies = R.add.modifies + PTR + [(C, "_mamba_evictable")]

matchp = copy.copy(R.matchp)
matchp.modifies = R.matchp.modifies + PTR
matchp.loops = R.LOOPS
matchp.hints = {"torch.cat": R.m_vals}


def ins_req(c):
    return R.req_ins(c)


def ens_ins_m(c):
    h, h0, s = c.h, c.h0, c.at("self")
    n = c.res.fields["last_node"].t
    kt, ke = nkey(c)
    g = c.a("mamba_value")
    m = z3.Int("n")
    return [("the key's node gets the given state if it had none", z3.Implies(z3.And(kt.ln > 0, z3.Not(g.none)), z3.And(z3.Not(mv(h, n).none), z3.Or(T(h0, n), opt_same(mv(h, n), g))))),
            ("other states stay", forall(m, z3.And(T(h0, m), z3.Or(m != n, z3.Not(mv(h0, m).none))), opt_same(mv(h, m), mv(h0, m)), [T(h0, m)])),
            ("exactly the added state entries become evictable", z3.Or(me(h, s) == me(h0, s), z3.And(z3.Not(g.none), me(h, s) == me(h0, s) + g.val.ln, opt_same(mv(h, n), g))))]


def ens_ins_all(c):
    kt, _ = nkey(c)
    some = kt.ln > 0
    return [(l, z3.Implies(some, f)) for l, f in R.ens_ins(c, c.res.fields["last_node"].t, c.res.fields["prefix_len"].t) + ens_ins_m(c)] + [
        (l, z3.Implies(kt.ln == 0, f)) for l, f in R.grows(c.h0, c.h, c.at("self")) + [("nothing to insert", z3.And(c.res.fields["prefix_len"].t == 0, me(c.h, c.at("self")) == me(c.h0, c.at("self")), c.h.get(C, EVS, c.at("self")).t == c.h0.get(C, EVS, c.at("self")).t))]]


ins = copy.copy(R.ins)
ins.ensures = ens_ins_all
ins.params = dict(SELF, key=RK, value=TT, mamba_value=TOpt(TT))
ins.modifies = R.ins.modifies + PTR + [(C, "_mamba_evictable"), (N, "mamba_value")]


def i_state(c):
    n = c.v("node").t
    return [z3.Implies(z3.Not(T(c.h0, n)), mv(c.h, n).none)]


ins.loops = R.insn.loops + [("a node made by a split has no state", i_state)]

# ------------------------------------------------------------------ locks (see c04)
AI, AB = z3.ArraySort(z3.IntSort(), z3.IntSort()), z3.ArraySort(z3.IntSort(), z3.BoolSort())
ANC, U = z3.Const("ancestors", AB), z3.Const("U", AI)


def lock(h, n):
    return nf(h, "full_lock_ref", n).t


def mlock(h, n):
    return nf(h, "mamba_lock_ref", n).t


def ev_sz(h, s):
    return h.get(C, EVS, s).t


def pr_sz(h, s):
    return h.get(C, "_full_protected", s).t


def is_anc(h, s, node):
    """ANC = the nodes on the path from node to the root"""
    Rt = root(h, s)
    m, k = z3.Ints("m k")
    D = lambda x: P(h, x).ln
    return [("path contains the node", ANC[node]), ("path is closed under parents", forall(m, z3.And(ANC[m], m != Rt), z3.And(T(h, m), ANC[par(h, m)]), [ANC[m]])),
            ("path members are in the tree", forall(m, ANC[m], z3.And(T(h, m), D(m) <= D(node)), [ANC[m]])),
            ("path has one node per depth", forall([m, k], z3.And(ANC[m], ANC[k], D(m) == D(k)), m == k, [z3.MultiPattern(ANC[m], ANC[k])])),
            ("path has no gaps", forall([m, k], z3.And(ANC[m], ANC[k], D(k) < D(m)), D(k) <= D(par(h, m)), [z3.MultiPattern(ANC[m], ANC[k])]))]


def psum(h, s, cond):
    """U(n) = tokens on the path of n whose node satisfies cond"""
    Rt = root(h, s)
    m = z3.Int("m")
    return [("U of the root", U[Rt] == 0), ("U along the path", forall(m, z3.And(ANC[m], m != Rt), U[m] == U[par(h, m)] + z3.If(cond(m), key(h, m).ln, 0), [ANC[m]]))]


def locks_after(h0, h, s, d, depth=None):
    m = z3.Int("m")
    up = z3.And(ANC[m], m != root(h, s))
    if depth is not None:
        up = z3.And(up, P(h0, m).ln > depth)
    return forall(m, T(h0, m), lock(h, m) == lock(h0, m) + z3.If(up, d, 0), [lock(h, m)])


def nonneg(h, s):
    m = z3.Int("m")
    return [("KV locks are never negative", forall(m, T(h, m), lock(h, m) >= 0, [T(h, m)])),
            ("a held state is held with its KV", forall(m, z3.And(T(h, m), m != root(h, s)), z3.And(0 <= mlock(h, m), mlock(h, m) <= lock(h, m)), [T(h, m)])),
            ("the root is never evicted", mlock(h, root(h, s)) >= 1)]


def req_inc(c):
    h, s, n = c.h, c.at("self"), c.at("node")
    return cfg(h, s) + tree(h, s) + [("node is in the tree", T(h, n))] + nonneg(h, s) + is_anc(h, s, n) + psum(h, s, lambda m: lock(h, m) == 0)


def mlock_after(h0, h, n, d):
    m = z3.Int("m")
    return forall(m, T(h0, m), mlock(h, m) == z3.If(m == n, d, mlock(h0, m)), [mlock(h, m)])


def ens_inc(c):
    h, h0, s, n = c.h, c.h0, c.at("self"), c.at("node")
    has = z3.Not(mv(h0, n).none)
    x = z3.If(z3.And(has, mlock(h0, n) == 0), mv(h0, n).val.ln, 0)
    return [("every node on the path is locked once more, no other", locks_after(h0, h, s, 1)),
            ("newly protected tokens leave the evictable count", ev_sz(h, s) == ev_sz(h0, s) - U[n]), ("newly protected tokens join the protected count", pr_sz(h, s) == pr_sz(h0, s) + U[n]),
            ("only the node's own state is held once more", mlock_after(h0, h, n, mlock(h0, n) + z3.If(has, 1, 0))),
            ("a newly held state leaves the evictable states", me(h, s) == me(h0, s) - x), ("a newly held state joins the protected states", mp(h, s) == mp(h0, s) + x)] + nonneg(h, s)


def up_cur(c):
    h, cur = c.h, c.v("cur").t
    return [z3.And(cur > 0, T(h, cur), ANC[cur])]


def up_lock(d):
    return lambda c: [locks_after(c.h0, c.h, c.at("self"), d, P(c.h0, c.v("cur").t).ln)]


def up_cnt(d):
    def f(c):
        h, h0, s, n = c.h, c.h0, c.at("self"), c.at("node")
        cur = c.v("cur").t
        return [ev_sz(h, s) == ev_sz(h0, s) - d * (U[n] - U[cur]), pr_sz(h, s) == pr_sz(h0, s) + d * (U[n] - U[cur])]
    return f


LK = [(N, "full_lock_ref"), (N, "mamba_lock_ref"), (C, EVS), (C, "_full_protected"), (C, "_mamba_evictable"), (C, "_mamba_protected")]
inc = Contract(C + ".inc_lock_ref", MOD, dict(SELF, node=TRef(N)), requires=req_inc, ensures=ens_inc, modifies=LK,
               loops=[("on the path", up_cur), ("locks below are taken", up_lock(1)), ("counts follow the locks", up_cnt(1))])


def req_dec(c):
    h, s, n = c.h, c.at("self"), c.at("node")
    m = z3.Int("m")
    return cfg(h, s) + tree(h, s) + [("node is in the tree", T(h, n))] + nonneg(h, s) + [
        ("the path is locked", forall(m, z3.And(ANC[m], m != root(h, s)), lock(h, m) >= 1, [ANC[m]])), ("the caller's hold is on top of the states held on the path", forall(m, z3.And(ANC[m], m != root(h, s), m != n), lock(h, m) >= mlock(h, m) + 1, [ANC[m]])),
        ("the root's own hold is never given back", mlock(h, root(h, s)) >= 2)
    ] + is_anc(h, s, n) + psum(h, s, lambda m: lock(h, m) == 1)


def ens_dec(c):
    h, h0, s, n = c.h, c.h0, c.at("self"), c.at("node")
    x = z3.If(z3.And(z3.Not(mv(h0, n).none), mlock(h0, n) == 1), mv(h0, n).val.ln, 0)
    return [("every node on the path is locked once less, no other", locks_after(h0, h, s, -1)),
            ("released tokens join the evictable count", ev_sz(h, s) == ev_sz(h0, s) + U[n]), ("released tokens leave the protected count", pr_sz(h, s) == pr_sz(h0, s) - U[n]),
            ("only the node's own state is held once less", mlock_after(h0, h, n, z3.If(mlock(h0, n) > 0, mlock(h0, n) - 1, mlock(h0, n)))),
            ("a released state joins the evictable states", me(h, s) == me(h0, s) + x), ("a released state leaves the protected states", mp(h, s) == mp(h0, s) - x)] + nonneg(h, s)


dec = Contract(C + ".dec_lock_ref", MOD, dict(SELF, node=TRef(N)), requires=req_dec, ensures=ens_dec, modifies=LK,
               loops=[("on the path", up_cur), ("locks below are released", up_lock(-1)), ("counts follow the locks", up_cnt(-1))])


# ------------------------------------------------------------------ eviction
def pool(h, s):
    return h.get(C, "pool", s).t


def mpool(h, s):
    return h.get(C, "mamba_pool", s).t


def gF(h, s):
    return h.get(PO, "gF", pool(h, s))


def gM(h, s):
    return h.get(MPO, "gF", mpool(h, s))


def mark(h, s):
    return h.get(C, "gMark", s).t


def cat1(a, b, r):
    """r = a ++ b"""
    i = z3.Int("i")
    return [r.ln == a.ln + b.ln, forall(i, z3.And(0 <= i, i < a.ln), r.at(i).t == a.at(i).t, [r.at(i).t]),
            forall(i, z3.And(a.ln <= i, i < r.ln), r.at(i).t == b.at(i - a.ln).t, [r.at(i).t])]


pfree = Contract(PO + ".free", MOD, {"self": TRef(PO), "indices": TT}, trusted=True, modifies=[(PO, "gF", "self")],
                 ensures=lambda c: [("free", z3.And(cat1(c.h0.get(PO, "gF", c.at("self")), c.a("indices"), c.h.get(PO, "gF", c.at("self")))))])
mfree = Contract(MPO + ".free_track_slot", MOD, {"self": TRef(MPO), "slot": TInt}, trusted=True, modifies=[(MPO, "gF", "self")],
                 ensures=lambda c: [("free", z3.And(cat1(c.h0.get(MPO, "gF", c.at("self")), VSeq(z3.IntVal(1), lambda i: c.a("slot"), TInt, "list"), c.h.get(MPO, "gF", c.at("self")))))])
fi = Contract(C + "._free_full_indices", MOD, dict(SELF, indices=TT), modifies=[(PO, "gF")],
              ensures=lambda c: [("exactly these slots go back to the pool", z3.Implies(pool(c.h, c.at("self")) != 0, z3.And(cat1(gF(c.h0, c.at("self")), c.a("indices"), gF(c.h, c.at("self"))))))])


def fm_inv(c):
    h, h0, s = c.h, c.h0, c.at("self")
    a, b, v = gM(h0, s), gM(h, s), c.a("mamba_value")
    i = z3.Int("i")
    return [b.ln == a.ln + c.i, forall(i, z3.And(0 <= i, i < a.ln), b.at(i).t == a.at(i).t, [b.at(i).t]), forall(i, z3.And(a.ln <= i, i < b.ln), b.at(i).t == v.at(i - a.ln).t, [b.at(i).t])]


fm = Contract(C + "._free_mamba_value", MOD, dict(SELF, mamba_value=TT), modifies=[(MPO, "gF")], loops=[("states freed so far", fm_inv)],
              ensures=lambda c: [("exactly these states go back to the pool", z3.Implies(mpool(c.h, c.at("self")) != 0, z3.And(cat1(gM(c.h0, c.at("self")), c.a("mamba_value"), gM(c.h, c.at("self"))))))])


def just_freed(h, s, n):
    j = z3.Int("j")
    F, G, v, w = gF(h, s), gM(h, s), val(h, n), mv(h, n)
    ln = key(h, n).ln
    return [("exactly its own slots were just given back", z3.Implies(pool(h, s) != 0, z3.And(F.ln == mark(h, s) + ln, mark(h, s) >= 0,
                                             forall(j, z3.And(0 <= j, j < ln), v.at(j).t == F.at(mark(h, s) + j).t, [v.at(j).t])))),
            ("exactly its own state was just given back", z3.Implies(z3.And(mpool(h, s) != 0, z3.Not(w.none)), z3.And(G.ln >= w.val.ln,
                                             forall(j, z3.And(0 <= j, j < w.val.ln), w.val.at(j).t == G.at(G.ln - w.val.ln + j).t, [w.val.at(j).t]))))]


def req_del(c):
    h, s, n = c.h, c.at("self"), c.at("node")
    return cfg(h, s) + tree(h, s) + [("only a tree node below the root is removed", z3.And(T(h, n), n != root(h, s))), ("only an unlocked node is removed", z3.And(lock(h, n) == 0, mlock(h, n) == 0)),
                                     ("only a leaf is removed", leaf(h, n))] + just_freed(h, s, n)


def ghost_del(c):
    h, h0, s, n = c.h, c.h0, c.at("self"), c.at("node")
    h.put(N, "gT", n, VBool(False), c.st)
    h.put(C, "gMark", s, VInt(z3.If(pool(h, s) != 0, gF(h, s).ln, mark(h, s))), c.st)


def same_flat(a, b, t):
    return z3.And([x == y for x, y in zip(flatten_pure(a, t), flatten_pure(b, t))])


def still(h0, h, s):
    n = z3.Int("n")
    return [("no node joins the tree", forall(n, T(h, n), T(h0, n), [T(h, n)])), ("the root stays", T(h, root(h, s))),
            ("removed nodes were unlocked", forall(n, z3.And(T(h0, n), z3.Not(T(h, n))), z3.And(lock(h0, n) == 0, mlock(h0, n) == 0, nf(h, "value", n).none, mv(h, n).none), [T(h0, n)])),
            ("nodes that stay keep their slots", forall(n, T(h, n), same_flat(nf(h, "value", n), nf(h0, "value", n), SCHEMA[N]["value"]), [T(h, n)])),
            ("states that stay are unchanged", forall(n, T(h, n), z3.Or(mv(h, n).none, same_flat(mv(h, n), mv(h0, n), SCHEMA[N]["mamba_value"])), [T(h, n)])),
            ("held states stay", forall(n, z3.And(T(h, n), mlock(h0, n) > 0), mv(h, n).none == mv(h0, n).none, [T(h, n)]))]


def ens_del(c):
    h, h0, s, n = c.h, c.h0, c.at("self"), c.at("node")
    m = z3.Int("m")
    q = z3.Const("q", KeySort)
    return tree(h, s) + still(h0, h, s) + [
        ("exactly this node is removed", forall(m, T(h0, m), z3.Or(T(h, m), m == n), [T(h0, m)])), ("the node is gone", z3.Not(T(h, n))),
        ("other states stay", forall(m, z3.And(T(h0, m), m != n), mv(h, m).none == mv(h0, m).none, [T(h0, m)])),
        ("nodes only lose children", forall([m, q], z3.And(T(h0, m), kids(h, m).dom(q)), z3.And(kids(h0, m).dom(q), kids(h, m).get(q).t == kids(h0, m).get(q).t), [kids(h, m).dom(q)])),
        ("its tokens leave the evictable count", ev_sz(h, s) == ev_sz(h0, s) - key(h0, n).ln), ("its state leaves the evictable states", me(h, s) == me(h0, s) - ln_of(mv(h0, n))),
        ("the mark moves to the end", z3.Implies(pool(h, s) != 0, mark(h, s) == gF(h, s).ln))]


dele = Contract(C + "._delete_leaf", MOD, dict(SELF, node=TRef(N)), requires=req_del, ensures=ens_del,
                modifies=[(N, "children"), (N, "value", "node"), (N, "mamba_value", "node"), (C, EVS), (C, "_mamba_evictable"), (N, "gT"), (C, "gMark")] + PTR + GM, ghost_exit=ghost_del)


def req_ev(c):
    h, s = c.h, c.at("self")
    return cfg(h, s) + tree(h, s) + nonneg(h, s) + [("every freed slot is accounted for", z3.Implies(pool(h, s) != 0, mark(h, s) == gF(h, s).ln)), ("num_tokens >= 0", c.a("num_tokens").t >= 0)]


def no_leaf(h, s):
    n = z3.Int("n")
    q = z3.Const("q", KeySort)
    return forall(n, z3.And(T(h, n), n != root(h, s)), z3.Or(lock(h, n) != 0, z3.Exists([q], kids(h, n).dom(q))), [T(h, n)])


def no_state(h, s):
    n = z3.Int("n")
    return forall(n, z3.And(T(h, n), n != root(h, s)), z3.Or(mlock(h, n) != 0, mv(h, n).none), [T(h, n)])


def counts(c, fe, ma):
    h, h0, s = c.h, c.h0, c.at("self")
    return [("every freed slot belongs to exactly one removed node", z3.Implies(pool(h, s) != 0, mark(h, s) == gF(h, s).ln)),
            ("the reported tokens are what was given back", z3.Implies(pool(h, s) != 0, fe == gF(h, s).ln - gF(h0, s).ln)), ("the reported tokens leave the evictable count", ev_sz(h, s) == ev_sz(h0, s) - fe),
            ("the reported states are what was given back", z3.Implies(mpool(h, s) != 0, ma == gM(h, s).ln - gM(h0, s).ln)), ("the reported states leave the evictable states", me(h, s) == me(h0, s) - ma)]


def ens_ev(c):
    h, h0, s = c.h, c.h0, c.at("self")
    fe, ma = c.res.fields["full_evicted"].t, c.res.fields["mamba_evicted"].t
    return tree(h, s) + nonneg(h, s) + still(h0, h, s) + counts(c, fe, ma) + [
        ("it stops early only when no leaf is unlocked", z3.Or(fe >= c.a("num_tokens").t, no_leaf(h, s))), ("it stops early only when no state is unlocked", z3.Or(ma >= c.a("swa_num_tokens").t, no_state(h, s)))]


def ev_tree(c):
    return [f for _, f in tree(c.h, c.at("self")) + still(c.h0, c.h, c.at("self"))]


def ev_cnt(c):
    return [f for _, f in counts(c, c.v("full_evicted").t, c.v("mamba_evicted").t)]


def ev_one(c):
    return [z3.Or(c.v("full_evicted").t >= c.a("num_tokens").t, no_leaf(c.h, c.at("self")))]


evict = Contract(C + ".evict", MOD, dict(SELF, num_tokens=TInt, swa_num_tokens=TInt), ret=RECORDS["EvictResult"], requires=req_ev, ensures=ens_ev,
                 modifies=[(N, "children"), (N, "value"), (N, "mamba_value"), (C, EVS), (C, "_mamba_evictable"), (N, "gT"), (C, "gMark"), (PO, "gF"), (MPO, "gF")] + PTR + GM,
                 loops=[("tree invariant", ev_tree), ("counts", ev_cnt), ("evicted counts", lambda c: [c.v("mamba_evicted").t >= 0, c.v("full_evicted").t >= 0]), ("first phase done", ev_one)])

# ------------------------------------------------------------------ reset
def ens_linit(c):
    h, h0, l, m = c.h, c.h0, c.at("self"), c.a("mamba").t
    n = z3.Int("n")
    return [("an empty list of the asked kind", z3.And(h.get(LR, "mamba", l).t == m, forall(n, z3.BoolVal(True), nf(h, "gFL", n).t == z3.And(m, nf(h0, "gFL", n).t), [nf(h, "gFL", n).t]),
                                                       forall(n, z3.BoolVal(True), nf(h, "gML", n).t == z3.And(z3.Not(m), nf(h0, "gML", n).t), [nf(h, "gML", n).t])))]


l_init = Contract(LR + ".__init__", MOD, dict(LS, mamba=TBool), trusted=True, modifies=[(LR, "mamba", "self")] + GM, ensures=ens_linit)


def ghost_reset(c):
    h, s = c.h, c.at("self")
    r = root(h, s)
    h.m[(N, "gT")] = [z3.Store(z3.K(z3.IntSort(), z3.BoolVal(False)), r, z3.BoolVal(True))]
    for f in ("gP", "gV"):
        h.put(N, f, r, VSeq(z3.IntVal(0), lambda i: VInt(0), TInt, "list"), c.st)


def ens_reset(c):
    h, s = c.h, c.at("self")
    n = z3.Int("n")
    q = z3.Const("q", KeySort)
    Rt = root(h, s)
    return tree(h, s) + nonneg(h, s) + [("nothing is cached", z3.And(forall(n, T(h, n), n == Rt, [T(h, n)]), forall(q, z3.BoolVal(True), z3.Not(kids(h, Rt).dom(q)), [kids(h, Rt).dom(q)]))),
                         ("the root is new", z3.Not(z3.Select(c.h0.alive(N), Rt))), ("no token is counted", z3.And([h.get(C, f, s).t == 0 for f in ("_full_evictable", "_full_protected", "_mamba_evictable", "_mamba_protected")]))]


reset = Contract(C + ".reset", MOD, SELF, ensures=ens_reset, modifies=[(C, f) for f in ("root_node", "_full_evictable", "_full_protected", "_mamba_evictable", "_mamba_protected", "full_lru", "mamba_lru")] + R.GH + [(LR, "mamba")],
                 ghost_exit=ghost_reset, allocs=[N, LR])
CONTRACTS = [nid, keymatch, split, add, matchp, ins, inc, dec, pfree, mfree, fi, fm, dele, evict, reset, l_init] + LRU
VERIFY = [c.qual for c in CONTRACTS if not c.trusted]
from props import lrulist
SUITES = {"tree": {"CONTRACTS": CONTRACTS, "SCHEMA": SCHEMA, "RECORDS": RECORDS, "VERIFY": VERIFY}, "lru_kv": lrulist.suite(False), "lru_state": lrulist.suite(True)}


def static_checks():
    """the representation of LRUList is written only by LRUList and the node constructor, and its sentinels never leave it"""
    import ast, os
    src = open(os.path.join(os.environ.get("DV_REPO", "/repo"), "pymllm/mem_cache/mamba_radix_cache.py")).read()
    F = {"prev", "next", "mamba_prev", "mamba_next", "_cache", "_prv", "_nxt", "_lock", "head", "tail"}
    bad = []
    for cls in ast.parse(src).body:
        if isinstance(cls, ast.ClassDef) and cls.name != "LRUList":
            for fn in cls.body:
                for n in ast.walk(fn):
                    if isinstance(n, ast.Attribute) and n.attr in F and not (cls.name == "MambaTreeNode" and getattr(fn, "name", "") == "__init__"):
                        bad.append("%s:%d %s" % (cls.name, n.lineno, n.attr))
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr":
                        bad.append("%s:%d setattr" % (cls.name, n.lineno))
    return [("LRU links are touched only inside LRUList", not bad, "; ".join(bad))]


REPLAY = "c05.py"
MIN_OBLIGATIONS = 900
CONCRETE_NOTE = "seeded random insert/lookup/lock/unlock/evict histories on the real MambaRadixCache (page sizes 1-3) against a model of locks, KV slots and state slots, with full audits of both LRU chains"
ASSUMPTIONS = ["contracts cover page_size 1; page_size > 1 is covered by the bounded concrete search only", "the pools' free functions return exactly the given slots (C01, C02)",
               "a caller gives back only what it took (preconditions of dec_lock_ref)", "node ids are unique (a global counter hands them out)",
               "the tree-level contracts of LRUList speak about list membership; LRUList's own methods are verified against a ghost sequence separately, and the link fields are written only there (syntactic check)",
               "partial correctness: termination of the walks is not proved"]
TRUSTED = ["Pool.free / MPool.free_track_slot: append exactly the given slots to the ghost history"]
