"""LRUList against a ghost sequence of its nodes (head sentinel first, tail sentinel last), for one flavour of links."""
from props.mradix import R
globals().update({k: v for k, v in vars(R).items() if not k.startswith("__")})
LR = "LRUList"


def suite(mamba):
    PV, NX, LKF, G, POS = ("mamba_prev", "mamba_next", "mamba_lock_ref", "gML", "gMp") if mamba else ("prev", "next", "full_lock_ref", "gFL", "gFp")
    S = {k: dict(v) for k, v in R.SCHEMA.items()}
    S[N].update({"gFp": TInt, "gMp": TInt})
    S[LR] = {"mamba": TBool, "_prv": TStr, "_nxt": TStr, "_lock": TStr, "head": TRef(N), "tail": TRef(N), "_cache": TDict(TInt, TRef(N)), "gL": TSeq(TRef(N), "list")}
    g = lambda h, f, n: h.get(N, f, n).t
    L_ = lambda h, f, l: h.get(LR, f, l)
    sv = lambda x: coerce(VLit(x), TStr).t

    def inn(h, l, n):
        """n is in the chain (sentinels included)"""
        q = L_(h, "gL", l)
        p = g(h, POS, n)
        return z3.And(0 <= p, p < q.ln, q.at(p).t == n)

    def chain(h, l):
        q = L_(h, "gL", l)
        n, i = z3.Ints("n i")
        hd, tl = L_(h, "head", l).t, L_(h, "tail", l).t
        p = g(h, POS, n)
        return [("links of this flavour", z3.And(L_(h, "mamba", l).t == z3.BoolVal(mamba), L_(h, "_prv", l).t == sv(PV), L_(h, "_nxt", l).t == sv(NX), L_(h, "_lock", l).t == sv(LKF))),
                ("sentinels", z3.And(hd > 0, tl > 0, hd != tl, q.ln >= 2, q.at(z3.IntVal(0)).t == hd, q.at(q.ln - 1).t == tl)),
                ("positions", forall(i, z3.And(0 <= i, i < q.ln), z3.And(g(h, POS, q.at(i).t) == i, q.at(i).t > 0), [q.at(i).t])),
                ("next links", forall(n, z3.And(inn(h, l, n), n != tl), g(h, NX, n) == q.at(p + 1).t, [g(h, NX, n)])),
                ("previous links", forall(n, z3.And(inn(h, l, n), n != hd), g(h, PV, n) == q.at(p - 1).t, [g(h, PV, n)])),
                ("members", forall(n, z3.BoolVal(True), g(h, G, n) == z3.And(inn(h, l, n), n != hd, n != tl), [g(h, G, n)])),
                ("members ", forall(n, z3.And(inn(h, l, n), n != hd, n != tl), g(h, G, n), [g(h, POS, n)]))]

    def cache(h, l):
        d = L_(h, "_cache", l)
        n, k = z3.Ints("n k")
        return [("members are indexed", forall(n, g(h, G, n), z3.And(d.dom(g(h, "id", n)), d.get(g(h, "id", n)).t == n), [g(h, G, n)])),
                ("only members are indexed", forall(k, d.dom(k), z3.And(g(h, G, d.get(k).t), g(h, "id", d.get(k).t) == k), [d.dom(k)]))]

    def ids(h):
        n, m = z3.Ints("n m")
        return [("node ids are unique", forall([n, m], z3.And(n > 0, m > 0, g(h, "id", n) == g(h, "id", m)), n == m, [z3.MultiPattern(g(h, "id", n), g(h, "id", m))]))]

    def member(h0, h, upd):
        m = z3.Int("n")
        return [("membership", forall(m, z3.BoolVal(True), g(h, G, m) == upd(m), [g(h, G, m)]))]

    def setpos(c, f):
        """ghost: new positions"""
        h = c.h
        old = h.arrs(N, POS)[0]
        new = z3.FreshConst(old.sort(), "pos")
        m = z3.FreshInt("m")
        c.st.assume(z3.ForAll([m], z3.Select(new, m) == f(m, z3.Select(old, m)), patterns=[z3.Select(new, m)]))
        h.m[(N, POS)] = [new]

    def setmem(c, n, b):
        c.h.put(N, G, n, VBool(b), c.st)

    def setlist(c, l, ln, at):
        arr = z3.FreshConst(z3.ArraySort(z3.IntSort(), z3.IntSort()), "gl")
        i = z3.FreshInt("i")
        c.st.assume(z3.ForAll([i], z3.Select(arr, i) == at(i), patterns=[z3.Select(arr, i)]))
        c.h.put(LR, "gL", l, VSeq(ln, lambda x: VRef(z3.Select(arr, x), N), TRef(N), "list", arrs=[arr]), c.st)

    LS = {"self": TRef(LR)}
    PTRS = [(N, PV), (N, NX), (N, G), (N, POS), (LR, "gL", "self")]
    at = lambda c, n: c.at(n)

    # ---- _unlink / _add_after
    def gx_unlink(c):
        h0, l, n = c.h0, c.at("self"), c.at("node")
        q = L_(h0, "gL", l)
        p = g(h0, POS, n)
        a = q.at
        setlist(c, l, q.ln - 1, lambda i: z3.If(i < p, a(i).t, a(i + 1).t))
        setpos(c, lambda m, o: z3.If(m == n, -1, z3.If(z3.And(inn(h0, l, m), o > p), o - 1, o)))
        setmem(c, n, False)

    def kept_pos(c, n):
        """relative order of the other nodes is kept"""
        h, h0, l = c.h, c.h0, c.at("self")
        m = z3.Int("n")
        return [("the other nodes stay in the chain", forall(m, m != n, inn(h, l, m) == inn(h0, l, m), [g(h, POS, m)]))]
    unlink = Contract(LR + "._unlink", MOD, dict(LS, node=TRef(N)), modifies=PTRS, ghost_exit=gx_unlink,
                      requires=lambda c: chain(c.h, c.at("self")) + [("the node is in the list", g(c.h, G, c.at("node")))],
                      ensures=lambda c: chain(c.h, c.at("self")) + member(c.h0, c.h, lambda m: z3.And(g(c.h0, G, m), m != c.at("node"))) + kept_pos(c, c.at("node")) + [("it left the chain", z3.Not(inn(c.h, c.at("self"), c.at("node"))))])

    def gx_add(c):
        h0, l, n, o = c.h0, c.at("self"), c.at("new"), c.at("old")
        q = L_(h0, "gL", l)
        p = g(h0, POS, o) + 1
        a = q.at
        setlist(c, l, q.ln + 1, lambda i: z3.If(i < p, a(i).t, z3.If(i == p, n, a(i - 1).t)))
        setpos(c, lambda m, x: z3.If(m == n, p, z3.If(z3.And(inn(h0, l, m), x >= p), x + 1, x)))
        setmem(c, n, True)
    addafter = Contract(LR + "._add_after", MOD, dict(LS, old=TRef(N), new=TRef(N)), modifies=PTRS, ghost_exit=gx_add,
                        requires=lambda c: chain(c.h, c.at("self")) + [("the anchor is in the chain, not the tail", z3.And(inn(c.h, c.at("self"), c.at("old")), c.at("old") != L_(c.h, "tail", c.at("self")).t)),
                                                                       ("the new node is not in the chain", z3.And(c.at("new") > 0, z3.Not(inn(c.h, c.at("self"), c.at("new")))))],
                        ensures=lambda c: chain(c.h, c.at("self")) + member(c.h0, c.h, lambda m: z3.Or(g(c.h0, G, m), m == c.at("new"))) + kept_pos(c, c.at("new")) + [
                            ("it is next to the anchor", g(c.h, POS, c.at("new")) == g(c.h0, POS, c.at("old")) + 1), ("it is in the chain", inn(c.h, c.at("self"), c.at("new")))])

    def wf(c):
        return chain(c.h, c.at("self")) + cache(c.h, c.at("self"))

    CA = [(LR, "_cache", "self")]
    insm = Contract(LR + ".insert_mru", MOD, dict(LS, node=TRef(N)), modifies=PTRS + CA,
                    requires=lambda c: wf(c) + ids(c.h) + [("not in the list yet", z3.And(c.at("node") > 0, z3.Not(inn(c.h, c.at("self"), c.at("node")))))],
                    ensures=lambda c: wf(c) + member(c.h0, c.h, lambda m: z3.Or(g(c.h0, G, m), m == c.at("node"))) + [("it is the most recently used", g(c.h, POS, c.at("node")) == 1)])
    rem = Contract(LR + ".remove", MOD, dict(LS, node=TRef(N)), modifies=PTRS + CA,
                   requires=lambda c: wf(c) + ids(c.h) + [("in the list", g(c.h, G, c.at("node")))],
                   ensures=lambda c: wf(c) + member(c.h0, c.h, lambda m: z3.And(g(c.h0, G, m), m != c.at("node"))))
    has = Contract(LR + ".__contains__", MOD, dict(LS, node=TRef(N)), ret=TBool, requires=lambda c: wf(c) + ids(c.h),
                   ensures=lambda c: [("membership", c.res.t == z3.And(c.at("node") != 0, g(c.h, G, c.at("node"))))])
    touch = Contract(LR + ".touch_mru", MOD, dict(LS, node=TRef(N)), modifies=PTRS, requires=lambda c: wf(c) + ids(c.h) + [("a node", c.at("node") > 0)],
                     ensures=lambda c: wf(c) + member(c.h0, c.h, lambda m: g(c.h0, G, m)) + [("a listed node becomes the most recently used", z3.Implies(g(c.h0, G, c.at("node")), g(c.h, POS, c.at("node")) == 1))])

    # ---- walking up
    def req_up(c):
        h, l, rt = c.h, c.at("self"), c.at("root")
        n = z3.Int("n")
        p = par(h, n)
        return wf(c) + ids(h) + [("node is in the tree", T(h, c.at("node"))), ("parents of tree nodes are shallower tree nodes", forall(n, z3.And(T(h, n), n != rt), z3.And(T(h, p), p > 0, P(h, p).ln < P(h, n).ln), [T(h, n)])),
                                 ("the root is not listed", z3.And(rt > 0, z3.Not(g(h, G, rt)))), ("sentinels are not tree nodes", z3.And(z3.Not(T(h, L_(h, "head", l).t)), z3.Not(T(h, L_(h, "tail", l).t)))),
                                 ("tree nodes exist", forall(n, T(h, n), n > 0, [T(h, n)]))]

    def up_wf(c):
        return [f for _, f in wf(c) + member(c.h0, c.h, lambda m: g(c.h0, G, m))]

    def up_cur(c):
        return [z3.And(T(c.h, c.v("cur").t), c.v("cur").t > 0)]

    def up_prev(c):
        p = c.v("prev").t
        return [z3.And(inn(c.h, c.at("self"), p), p != L_(c.h, "tail", c.at("self")).t, z3.Or(p == L_(c.h, "head", c.at("self")).t, z3.And(T(c.h, p), P(c.h, c.v("cur").t).ln < P(c.h, p).ln)))]
    def up_oth(c):
        r = z3.FreshInt("r")
        return [z3.ForAll([r], z3.Implies(r != c.at("self"), z3.Select(x, r) == z3.Select(y, r)), patterns=[z3.Select(x, r)]) for x, y in zip(c.h.arrs(LR, "gL"), c.h0.arrs(LR, "gL"))]
    up = Contract(LR + ".touch_node_and_parents_mru", MOD, dict(LS, node=TRef(N), root=TRef(N)), modifies=PTRS, requires=req_up, ensures=lambda c: wf(c) + member(c.h0, c.h, lambda m: g(c.h0, G, m)),
                  loops=[("list intact", up_wf), ("on the path", up_cur), ("anchor", up_prev), ("other lists", up_oth)])

    # ---- queries
    def leaf(h, n):
        q = z3.Const("q", KeySort)
        return forall([q], z3.BoolVal(True), z3.Not(kids(h, n).dom(q)), [kids(h, n).dom(q)])

    def query(lf):
        def busy(h, x):
            q = z3.Const("q", KeySort)
            return z3.Or([g(h, LKF, x) != 0] + ([z3.Exists([q], kids(h, x).dom(q))] if lf else []))

        def ens(c):
            h, r = c.h, c.res.t
            n = z3.Int("n")
            return [("a listed node nobody holds" + (", without children" if lf else ""), z3.Implies(r != 0, z3.And([g(h, G, r), g(h, LKF, r) == 0] + ([leaf(h, r)] if lf else [])))),
                    ("nothing is returned only if there is none", z3.Implies(r == 0, forall(n, g(h, G, n), busy(h, n), [g(h, G, n)]))),
                    ("the least recently used one is returned", z3.Implies(r != 0, forall(n, z3.And(g(h, G, n), g(h, POS, n) > g(h, POS, r)), busy(h, n), [g(h, G, n)])))]

        def inv(c):
            h, x, l = c.h, c.v("x").t, c.at("self")
            n = z3.Int("n")
            return [z3.And(inn(h, l, x), x != L_(h, "tail", l).t), forall(n, z3.And(g(h, G, n), g(h, POS, n) > g(h, POS, x)), busy(h, n), [g(h, G, n)])]
        return Contract(LR + (".get_lru_leaf_unlocked" if lf else ".get_lru_unlocked"), MOD, LS, ret=TRef(N), requires=lambda c: wf(c), ensures=ens, loops=[("nodes used less recently are in use", inv)])

    # ---- constructor
    def gx_init(c):
        h, l = c.h, c.at("self")
        hd, tl = L_(h, "head", l).t, L_(h, "tail", l).t
        setlist(c, l, z3.IntVal(2), lambda i: z3.If(i == 0, hd, tl))
        setpos(c, lambda m, o: z3.If(m == hd, 0, z3.If(m == tl, 1, -1)))
        c.h.m[(N, G)] = [z3.K(z3.IntSort(), z3.BoolVal(False))]
    init = Contract(LR + ".__init__", MOD, dict(LS, mamba=TBool), modifies=PTRS + CA + [(LR, f, "self") for f in ("mamba", "_prv", "_nxt", "_lock", "head", "tail")], allocs=[N], ghost_exit=gx_init,
                    requires=lambda c: [("flavour", c.a("mamba").t == z3.BoolVal(mamba))],
                    ensures=lambda c: wf(c) + [("the list is empty", forall(z3.Int("n"), z3.BoolVal(True), z3.Not(g(c.h, G, z3.Int("n"))), [g(c.h, G, z3.Int("n"))])),
                                              ("the sentinels are new nodes", z3.And(z3.Not(z3.Select(c.h0.alive(N), L_(c.h, "head", c.at("self")).t)), z3.Not(z3.Select(c.h0.alive(N), L_(c.h, "tail", c.at("self")).t))))])
    CON = [nid, unlink, addafter, insm, rem, has, touch, up, query(False), init] + ([query(True)] if not mamba else [])
    return {"CONTRACTS": CON, "SCHEMA": S, "RECORDS": R.RECORDS, "VERIFY": [c.qual for c in CON if not c.trusted]}
