"""C02: request slots (ReqToTokenPool) and recurrent-state track slots (GDNPool)."""
import z3
from dv.core import *
from dv.pyexec import Contract

MOD = "pymllm.mem_cache.memory_pool"
R, G = "ReqToTokenPool", "GDNPool"
TL = TSeq(TInt, "list")
SCHEMA = {R: {"size": TInt, "max_context_len": TInt, "_free_slots": TL},
          G: {"max_reqs": TInt, "max_track_slots": TInt, "_track_slot_base": TInt, "_free_track_slots": TL, "num_gdn_layers": TInt}}


def lst(h, r):
    return h.get(R, "_free_slots", r)


def trk(h, r):
    return h.get(G, "_free_track_slots", r)


def distinct(s):
    i, j = z3.Ints("i j")
    return forall([i, j], z3.And(0 <= i, i < j, j < s.ln), s.at(i).t != s.at(j).t, [z3.MultiPattern(s.at(i).t, s.at(j).t)])


def in_range(s, lo, hi):
    i = z3.Int("i")
    return forall(i, z3.And(0 <= i, i < s.ln), z3.And(lo <= s.at(i).t, s.at(i).t < hi), [s.at(i).t])


def mem(s, x, wit=()):
    i = z3.FreshInt("k")
    return z3.Or([z3.Exists([i], z3.And(0 <= i, i < s.ln, s.at(i).t == x))] + [z3.And(0 <= w, w < s.ln, s.at(w).t == x) for w in wit])


def inv_r(h, r):
    s = lst(h, r)
    return [("size >= 0", h.get(R, "size", r).t >= 0), ("free request slots in [0, max_reqs)", in_range(s, 0, h.get(R, "size", r).t)),
            ("free request slots distinct", distinct(s))]


def inv_g(h, r):
    s = trk(h, r)
    base, n = h.get(G, "_track_slot_base", r).t, h.get(G, "max_track_slots", r).t
    return [("sizes", z3.And(n >= 0, h.get(G, "max_reqs", r).t >= 0)),
            ("track slots start after the working slots", base == h.get(G, "max_reqs", r).t + 1),
            ("free track slots in the track region", in_range(s, base, base + n)), ("free track slots distinct", distinct(s))]


def full_r(h, r):
    s = lst(h, r)
    x = z3.Int("x")
    n = h.get(R, "size", r).t
    return [("every slot is free", forall(x, z3.And(0 <= x, x < n), mem(s, x, [x]))), ("free count is max_reqs", s.ln == n)]


def ens_alloc_r(c):
    r = c.at("self")
    s0, s1, v = lst(c.h0, r), lst(c.h, r), c.res.val
    n = c.a("n").t
    ok = z3.Not(c.res.none)
    i, j = z3.Ints("i j")
    return inv_r(c.h, r) + [
        ("None exactly when fewer slots are free than requested", c.res.none == (n > s0.ln)),
        ("failure changes nothing", z3.Implies(c.res.none, seq_eq(s1, s0))),
        ("exactly n slots", z3.Implies(ok, v.ln == n)),
        ("free count drops by n", z3.Implies(ok, s1.ln == s0.ln - n)),
        ("slots handed out are distinct", z3.Implies(ok, distinct(v))),
        ("slots handed out were free", z3.Implies(ok, forall(i, z3.And(0 <= i, i < v.ln), mem(s0, v.at(i).t)))),
        ("slots handed out are no longer free", z3.Implies(ok, forall([i, j], z3.And(0 <= i, i < v.ln, 0 <= j, j < s1.ln), v.at(i).t != s1.at(j).t))),
        ("slots not handed out stay free", z3.Implies(ok, forall(i, z3.And(0 <= i, i < s0.ln), z3.Or(mem(s1, s0.at(i).t, [i - n]), mem(v, s0.at(i).t, [i]))))),
        ("no slot is invented", z3.Implies(ok, forall(i, z3.And(0 <= i, i < s1.ln), mem(s0, s1.at(i).t, [i + n]))))]


def ens_free1(get, inv):
    def f(c):
        r = c.at("self")
        s0, s1 = get(c.h0, r), get(c.h, r)
        x = c.a("slot").t
        i = z3.Int("i")
        return inv(c.h, r) + [("the slot is free again", mem(s1, x, [s0.ln])), ("free count grows by one", s1.ln == s0.ln + 1),
                              ("free slots stay free", forall(i, z3.And(0 <= i, i < s0.ln), mem(s1, s0.at(i).t, [i]))),
                              ("nothing else becomes free", forall(i, z3.And(0 <= i, i < s1.ln), z3.Or(s1.at(i).t == x, mem(s0, s1.at(i).t, [i]))))]
    return f


def ens_alloc_g(c):
    r = c.at("self")
    s0, s1 = trk(c.h0, r), trk(c.h, r)
    ok = z3.Not(c.res.none)
    x = c.res.val.t
    i = z3.Int("i")
    b = c.h0.get(G, "_track_slot_base", r).t
    return inv_g(c.h, r) + [
        ("None exactly when no track slot is free", c.res.none == (s0.ln == 0)), ("failure changes nothing", z3.Implies(c.res.none, seq_eq(s1, s0))),
        ("the slot was free", z3.Implies(ok, mem(s0, x, [s0.ln - 1]))), ("free count drops by one", z3.Implies(ok, s1.ln == s0.ln - 1)),
        ("the slot lies in the track region", z3.Implies(ok, z3.And(b <= x, x < b + c.h0.get(G, "max_track_slots", r).t))),
        ("the slot is no longer free", z3.Implies(ok, forall(i, z3.And(0 <= i, i < s1.ln), s1.at(i).t != x))),
        ("other slots stay free", z3.Implies(ok, forall(i, z3.And(0 <= i, i < s0.ln), z3.Or(s0.at(i).t == x, mem(s1, s0.at(i).t, [i])))))]


def req_free_r(c):
    r = c.at("self")
    s, x = lst(c.h, r), c.a("slot").t
    i = z3.Int("i")
    return inv_r(c.h, r) + [("slot in range", z3.And(0 <= x, x < c.h.get(R, "size", r).t)),
                            ("slot is not free", forall(i, z3.And(0 <= i, i < s.ln), s.at(i).t != x, [s.at(i).t]))]


def req_free_g(c):
    r = c.at("self")
    s, x = trk(c.h, r), c.a("slot").t
    i = z3.Int("i")
    b = c.h.get(G, "_track_slot_base", r).t
    return inv_g(c.h, r) + [("slot in the track region", z3.And(b <= x, x < b + c.h.get(G, "max_track_slots", r).t)),
                            ("slot is not free", forall(i, z3.And(0 <= i, i < s.ln), s.at(i).t != x, [s.at(i).t]))]


def ens_init_g(c):
    r = c.at("self")
    s = trk(c.h, r)
    x = z3.Int("x")
    b, n = c.h.get(G, "_track_slot_base", r).t, c.a("max_track_slots").t
    return inv_g(c.h, r) + [("sizes recorded", z3.And(c.h.get(G, "max_reqs", r).t == c.a("max_reqs").t, c.h.get(G, "max_track_slots", r).t == n)),
                            ("every track slot is free", forall(x, z3.And(b <= x, x < b + n), mem(s, x, [x - b]))), ("free count", s.ln == n)]


SR, SG = {"self": TRef(R)}, {"self": TRef(G)}
CONTRACTS = [
    Contract(R + ".__init__", MOD, dict(SR, max_reqs=TInt, max_context_len=TInt, device=TAny), requires=lambda c: [("max_reqs >= 0", c.a("max_reqs").t >= 0), ("max_context_len >= 0", c.a("max_context_len").t >= 0)],
             ensures=lambda c: inv_r(c.h, c.at("self")) + full_r(c.h, c.at("self")) + [("size recorded", c.h.get(R, "size", c.at("self")).t == c.a("max_reqs").t)],
             modifies=[(R, "size"), (R, "max_context_len"), (R, "_free_slots")]),
    Contract(R + ".available_size", MOD, SR, ret=TInt, requires=lambda c: inv_r(c.h, c.at("self")),
             ensures=lambda c: [("counts the free slots", c.res.t == lst(c.h, c.at("self")).ln)]),
    Contract(R + ".alloc", MOD, dict(SR, n=TInt), ret=TOpt(TL), requires=lambda c: inv_r(c.h, c.at("self")) + [("n >= 0", c.a("n").t >= 0)],
             ensures=ens_alloc_r, modifies=[(R, "_free_slots")]),
    Contract(R + ".free", MOD, dict(SR, slot=TInt), requires=req_free_r, ensures=ens_free1(lst, inv_r), modifies=[(R, "_free_slots")]),
    Contract(R + ".clear", MOD, SR, requires=lambda c: [("size >= 0", c.h.get(R, "size", c.at("self")).t >= 0)],
             ensures=lambda c: inv_r(c.h, c.at("self")) + full_r(c.h, c.at("self")), modifies=[(R, "_free_slots")]),
    Contract(G + ".__init__", MOD, dict(SG, max_reqs=TInt, num_gdn_layers=TInt, num_v_heads=TInt, head_k_dim=TInt, head_v_dim=TInt, conv_dim=TInt,
                                        conv_kernel_size=TInt, device=TAny, dtype=TAny, max_track_slots=TInt),
             requires=lambda c: [("sizes", z3.And(c.a("max_reqs").t >= 0, c.a("max_track_slots").t >= 0))],
             ensures=ens_init_g, modifies=[(G, f) for f in SCHEMA[G]]),
    Contract(G + ".mem_bytes", MOD, SG, ret=TInt, trusted=True),
    Contract(G + ".alloc_track_slot", MOD, SG, ret=TOpt(TInt), requires=lambda c: inv_g(c.h, c.at("self")), ensures=ens_alloc_g, modifies=[(G, "_free_track_slots")]),
    Contract(G + ".free_track_slot", MOD, dict(SG, slot=TInt), requires=req_free_g, ensures=ens_free1(trk, inv_g), modifies=[(G, "_free_track_slots")]),
]
VERIFY = [c.qual for c in CONTRACTS if not c.trusted]
REPLAY = "c02.py"
MIN_OBLIGATIONS = 60
CONCRETE_NOTE = "seeded random alloc/free/clear/write histories on the real pools against a set model, plus row contents, state reset and state copy of GDNPool on CPU"
ASSUMPTIONS = ["callers free only slots they hold, each once (precondition of free)",
               "req_to_token rows, reset_states and copy_states (multi-dimensional tensor writes) are outside the verified subset: bounded search only"]
