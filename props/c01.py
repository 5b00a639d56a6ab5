"""C01: KV token-slot allocator (TokenToKVPoolAllocator) -- contracts."""
import z3
from dv.core import *
from dv.pyexec import Contract

MOD = "pymllm.mem_cache.memory_pool"
CLS = "TokenToKVPoolAllocator"
TT = TSeq(TInt, "tensor")
SCHEMA = {CLS: {"size": TInt, "page_size": TInt, "need_sort": TBool, "free_slots": TT, "release_slots": TT,
                "_is_not_in_free_group": TBool, "_free_group": TSeq(TT, "list")}}
STATE = [(CLS, "free_slots"), (CLS, "release_slots"), (CLS, "_is_not_in_free_group"), (CLS, "_free_group")]


def F(h, r, f):
    return h.get(CLS, f, r)


def ex_in(seq, x, wit=()):
    """x occurs in seq (the optional witnesses only help instantiation: each disjunct implies the existential)"""
    i = z3.FreshInt("k")
    return z3.Or([z3.Exists([i], z3.And(0 <= i, i < seq.ln, seq.at(i).t == x))] +
                 [z3.And(0 <= w, w < seq.ln, seq.at(w).t == x) for w in wit])


def in_pool(h, r, x, wit=()):
    """x is a free unit (slot, or page when page_size > 1)"""
    return z3.Or(ex_in(F(h, r, "free_slots"), x, wit), ex_in(F(h, r, "release_slots"), x, wit))


def wits(c, i):
    """candidate witnesses (positions in the new sequences) for an element that came from position i"""
    r = c.at("self")
    f0, r0 = F(c.h0, r, "free_slots").ln, F(c.h0, r, "release_slots").ln
    base = [i]
    for (src, n, arr, w, p) in c.st.ghost.get("uniques", [])[-1:]:
        base.append(p(i))
    out = []
    for b in base:
        out += [b, f0 + b, r0 + b]
    for (src, arr, p, q) in c.st.ghost.get("sorts", [])[-1:]:
        out += [z3.Select(q, b) for b in list(out)]
    return out


def ncap(h, r):
    s, p = F(h, r, "size").t, F(h, r, "page_size").t
    return z3.If(p == 1, s, z3.If(div(s + 1, p) - 1 > 0, div(s + 1, p) - 1, 0))


def inv(h, r):
    """representation invariant: all free units are distinct and lie in [1, capacity]"""
    fr, rl = F(h, r, "free_slots"), F(h, r, "release_slots")
    i, j = z3.Ints("i j")
    cap = ncap(h, r)
    out = [("page size >= 1", F(h, r, "page_size").t >= 1), ("size >= 0", F(h, r, "size").t >= 0),
           ("free slots in range", forall(i, z3.And(0 <= i, i < fr.ln), z3.And(1 <= fr.at(i).t, fr.at(i).t <= cap), [fr.at(i).t])),
           ("release slots in range", forall(i, z3.And(0 <= i, i < rl.ln), z3.And(1 <= rl.at(i).t, rl.at(i).t <= cap), [rl.at(i).t])),
           ("free slots distinct", forall([i, j], z3.And(0 <= i, i < j, j < fr.ln), fr.at(i).t != fr.at(j).t,
                                          [z3.MultiPattern(fr.at(i).t, fr.at(j).t)])),
           ("release slots distinct", forall([i, j], z3.And(0 <= i, i < j, j < rl.ln), rl.at(i).t != rl.at(j).t,
                                             [z3.MultiPattern(rl.at(i).t, rl.at(j).t)])),
           ("free and release disjoint", forall([i, j], z3.And(0 <= i, i < fr.ln, 0 <= j, j < rl.ln), fr.at(i).t != rl.at(j).t,
                                                [z3.MultiPattern(fr.at(i).t, rl.at(j).t)]))]
    return out


def total(h, r):
    return F(h, r, "free_slots").ln + F(h, r, "release_slots").ln


def same_pool(c, h0, h, r):
    """free units before == free units after (as sets)"""
    x = z3.Int("x")
    out = []
    for f in ("free_slots", "release_slots"):
        s = F(h0, r, f)
        i = z3.Int("i")
        out.append(("every previously free unit is still free (%s)" % f,
                    forall(i, z3.And(0 <= i, i < s.ln), in_pool(h, r, s.at(i).t, wits(c, i)))))
        s = F(h, r, f)
        out.append(("every free unit was free before (%s)" % f,
                    forall(i, z3.And(0 <= i, i < s.ln), in_pool(h0, r, s.at(i).t))))
    return out


def sel_(c):
    return c.at("self")


def req_inv(c):
    return inv(c.h, c.at("self"))


def ens_clear(c):
    r = c.at("self")
    cap = ncap(c.h, r)
    x = z3.Int("x")
    return inv(c.h, r) + [
        ("all units are free after clear", forall(x, z3.And(1 <= x, x <= cap), in_pool(c.h, r, x, [x - 1]))),
        ("free count equals capacity", total(c.h, r) == cap),
        ("not in a free group", F(c.h, r, "_is_not_in_free_group").t),
        ("no deferred frees", F(c.h, r, "_free_group").ln == 0)]


def ens_init(c):
    r = c.at("self")
    return [("size recorded", F(c.h, r, "size").t == c.a("size").t),
            ("page size recorded", F(c.h, r, "page_size").t == c.a("page_size").t)] + ens_clear(c)


def ens_merge(c):
    r = c.at("self")
    return inv(c.h, r) + same_pool(c, c.h0, c.h, r) + [
        ("release list empty", F(c.h, r, "release_slots").ln == 0),
        ("free count preserved", total(c.h, r) == total(c.h0, r))]


def units(c, n):
    p = F(c.h0, c.at("self"), "page_size").t
    return z3.If(p == 1, n, div(n + p - 1, p))


def ens_alloc(c):
    r = c.at("self")
    n = c.a("need_size").t
    p = F(c.h0, r, "page_size").t
    res = c.res
    k = units(c, n)
    i, j = z3.Ints("i j")
    out = inv(c.h, r)
    tot0 = total(c.h0, r)
    ok = z3.Not(res.none)
    v = res.val
    out += [("None exactly when fewer units are free than needed", res.none == (k > tot0)),
            ("nothing changes on failure", z3.Implies(res.none, total(c.h, r) == tot0))]
    out += [(l + " on failure", z3.Implies(res.none, f)) for l, f in same_pool(c, c.h0, c.h, r)]
    out += [("exactly the requested number of slots", z3.Implies(ok, v.ln == n)),
            ("free count drops by the units handed out", z3.Implies(ok, total(c.h, r) == tot0 - k)),
            ("slots handed out are distinct",
             z3.Implies(ok, forall([i, j], z3.And(0 <= i, i < j, j < v.ln), v.at(i).t != v.at(j).t))),
            ("slots handed out lie in [1, size]",
             z3.Implies(ok, forall(i, z3.And(0 <= i, i < v.ln), z3.And(1 <= v.at(i).t, v.at(i).t <= F(c.h0, r, "size").t)))),
            ("units handed out were free",
             z3.Implies(ok, forall(i, z3.And(0 <= i, i < v.ln), in_pool(c.h0, r, div(v.at(i).t, p))))),
            ("units handed out are no longer free",
             z3.Implies(ok, forall(i, z3.And(0 <= i, i < v.ln), z3.Not(in_pool(c.h, r, div(v.at(i).t, p))))))]
    for f in ("free_slots", "release_slots"):
        s = F(c.h, r, f)
        out.append(("every unit still free was free before (%s)" % f,
                    z3.Implies(ok, forall(i, z3.And(0 <= i, i < s.ln), in_pool(c.h0, r, s.at(i).t)))))
    return out


def req_free(c):
    """the caller returns units it owns: whole pages, not already free, no repetition"""
    r = c.at("self")
    x = c.a("indices")
    p = F(c.h, r, "page_size").t
    i, j = z3.Ints("i j")
    return inv(c.h, r) + [
        ("returned slots are distinct", forall([i, j], z3.And(0 <= i, i < j, j < x.ln), x.at(i).t != x.at(j).t,
                                               [z3.MultiPattern(x.at(i).t, x.at(j).t)])),
        ("returned units are in range", forall(i, z3.And(0 <= i, i < x.ln), z3.And(1 <= div(x.at(i).t, p), div(x.at(i).t, p) <= ncap(c.h, r)),
                                               [x.at(i).t])),
        ("returned units are not free", forall(i, z3.And(0 <= i, i < x.ln), z3.Not(in_pool(c.h, r, div(x.at(i).t, p))), [x.at(i).t]))]


def ens_free(c):
    r = c.at("self")
    x = c.a("indices")
    p = F(c.h0, r, "page_size").t
    i = z3.Int("i")
    now = F(c.h0, r, "_is_not_in_free_group").t
    g0, g1 = F(c.h0, r, "_free_group"), F(c.h, r, "_free_group")
    out = inv(c.h, r)
    out += [("every returned unit is free again", z3.Implies(now, forall(i, z3.And(0 <= i, i < x.ln), in_pool(c.h, r, div(x.at(i).t, p), wits(c, i))))),
            ("free count grows by the returned slots (page_size 1)", z3.Implies(z3.And(now, p == 1), total(c.h, r) == total(c.h0, r) + x.ln)),
            ("deferred frees leave the pool alone", z3.Implies(z3.Not(now), total(c.h, r) == total(c.h0, r))),
            ("group flag unchanged", F(c.h, r, "_is_not_in_free_group").t == now),
            ("deferred frees are recorded", z3.Implies(z3.And(z3.Not(now), x.ln > 0), z3.And(
                g1.ln == g0.ln + 1, seq_eq(g1.at(g0.ln), x)))),
            ("earlier deferred frees kept", forall(i, z3.And(0 <= i, i < g0.ln), seq_eq(g1.at(i), g0.at(i)))),
            ("immediate frees do not touch the group", z3.Implies(z3.Or(now, x.ln == 0), g1.ln == g0.ln))]
    for f in ("free_slots", "release_slots"):
        s, s1 = F(c.h0, r, f), F(c.h, r, f)
        out.append(("every previously free unit is still free (%s)" % f,
                    forall(i, z3.And(0 <= i, i < s.ln), in_pool(c.h, r, s.at(i).t))))
        k = z3.Int("k")
        out.append(("only returned units become free (%s)" % f,
                    forall(i, z3.And(0 <= i, i < s1.ln), z3.Or(in_pool(c.h0, r, s1.at(i).t),
                                                               z3.And(now, z3.Exists([k], z3.And(0 <= k, k < x.ln, div(x.at(k).t, p) == s1.at(i).t)))))))
    return out


def ens_avail(c):
    r = c.at("self")
    return [("available_size counts every free slot", c.res.t == mul(total(c.h, r), F(c.h, r, "page_size").t))]


def ens_begin(c):
    r = c.at("self")
    return inv(c.h, r) + [("group open", z3.Not(F(c.h, r, "_is_not_in_free_group").t)),
                          ("group empty", F(c.h, r, "_free_group").ln == 0)]


def grp_elems_req(c):
    """what the deferred frees satisfy: distinct units, in range, not free"""
    r = c.at("self")
    g = F(c.h, r, "_free_group")
    p = F(c.h, r, "page_size").t
    a, b, i, j = z3.Ints("a b i j")
    A, B = g.at(a), g.at(b)
    return inv(c.h, r) + [
        ("page_size 1", p == 1),
        ("group elements well formed", forall(a, z3.And(0 <= a, a < g.ln), A.ln >= 0, [A.ln])),
        ("deferred distinct", forall([a, b, i, j], z3.And(0 <= a, a < g.ln, 0 <= b, b < g.ln, 0 <= i, i < A.ln, 0 <= j, j < B.ln,
                                                          z3.Or(a != b, i != j)), A.at(i).t != B.at(j).t,
                                     [z3.MultiPattern(A.at(i).t, B.at(j).t)])),
        ("deferred in range", forall([a, i], z3.And(0 <= a, a < g.ln, 0 <= i, i < A.ln),
                                     z3.And(1 <= A.at(i).t, A.at(i).t <= ncap(c.h, r)), [A.at(i).t])),
        ("deferred not free", forall([a, i], z3.And(0 <= a, a < g.ln, 0 <= i, i < A.ln), z3.Not(in_pool(c.h, r, A.at(i).t)), [A.at(i).t]))]


def ens_end(c):
    r = c.at("self")
    g = F(c.h0, r, "_free_group")
    a, i = z3.Ints("a i")
    A = g.at(a)
    out = inv(c.h, r) + [
        ("group closed", F(c.h, r, "_is_not_in_free_group").t),
        ("no deferred frees left", F(c.h, r, "_free_group").ln == 0),
        ("every deferred free is now free",
         forall([a, i], z3.And(0 <= a, a < g.ln, 0 <= i, i < A.ln), in_pool(c.h, r, A.at(i).t)))]
    for f in ("free_slots", "release_slots"):
        s = F(c.h0, r, f)
        out.append(("every previously free unit is still free (%s)" % f,
                    forall(i, z3.And(0 <= i, i < s.ln), in_pool(c.h, r, s.at(i).t))))
    return out


SELF = {"self": TRef(CLS)}
CONTRACTS = [
    Contract(CLS + ".__init__", MOD, dict(SELF, size=TInt, device=TAny, page_size=TInt, need_sort=TBool),
             requires=lambda c: [("size >= 0", c.a("size").t >= 0), ("page_size >= 1", c.a("page_size").t >= 1)],
             ensures=ens_init, modifies=STATE + [(CLS, "size"), (CLS, "page_size"), (CLS, "need_sort")]),
    Contract(CLS + ".clear", MOD, SELF, ensures=ens_clear, modifies=STATE,
             requires=lambda c: [("size >= 0", F(c.h, c.at("self"), "size").t >= 0), ("page_size >= 1", F(c.h, c.at("self"), "page_size").t >= 1)]),
    Contract(CLS + ".available_size", MOD, SELF, ret=TInt, requires=req_inv, ensures=ens_avail),
    Contract(CLS + ".merge_and_sort_free", MOD, SELF, requires=req_inv, ensures=ens_merge,
             modifies=[(CLS, "free_slots"), (CLS, "release_slots")]),
    Contract(CLS + ".alloc", MOD, dict(SELF, need_size=TInt), ret=TOpt(TT),
             requires=lambda c: req_inv(c) + [("need_size >= 0", c.a("need_size").t >= 0)], ensures=ens_alloc,
             modifies=[(CLS, "free_slots"), (CLS, "release_slots")]),
    Contract(CLS + ".free", MOD, dict(SELF, indices=TT), requires=req_free, ensures=ens_free,
             modifies=[(CLS, "free_slots"), (CLS, "release_slots"), (CLS, "_free_group")]),
    Contract(CLS + ".free_group_begin", MOD, SELF, ensures=ens_begin, modifies=STATE[2:],
             requires=lambda c: req_inv(c) + [("no group open", F(c.h, c.at("self"), "_is_not_in_free_group").t)]),
    Contract(CLS + ".free_group_end", MOD, SELF, requires=grp_elems_req, ensures=ens_end, modifies=STATE),
]
VERIFY = [c.qual for c in CONTRACTS]
REPLAY = "c01.py"
MIN_OBLIGATIONS = 300
CONCRETE_NOTE = "seeded random alloc/free/free-group histories (<= 40 operations, sizes <= 100, page sizes <= 16) on the real allocator and KVPool against a set model"
ASSUMPTIONS = ["callers return only slots they own, each once, whole pages in paged mode (precondition of free)",
               "free_group_end is proved for page_size 1 (the paged group path is covered by the bounded search only)"]
