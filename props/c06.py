"""C06: admission and the token budget of the scheduler."""
from props.sched import *
from props import sched as _s

SCHEMA = _s.SCHEMA


def req_next(c):
    s = c.at("self")
    return inv(c, c.h, s) + [("at most max_running requests run", z3.Or(run(c.h, s).ln <= c.h.get(S, "_max_running_requests", s).t)), ]


def cap(c, h, s):
    return h.get(S, "_max_running_requests", s).t, h.get(S, "_max_total_tokens", s).t, h.get(S, "_max_prefill_tokens", s).t


def ens_next(c):
    s = c.at("self")
    h, h0 = c.h, c.h0
    R0, P0, R, P = run(h0, s), pend(h0, s), run(h, s), pend(h, s)
    mr, mt, mp = cap(c, h0, s)
    b = c.res.t
    reqs = h.get(B, "reqs", b)
    mode = h.get(B, "forward_mode", b).fields["$enum"].t
    ext = z3.And(b != 0, mode == EXT)
    st = c.st
    i, j = z3.Ints("i j")
    out = [("no batch exactly when nothing runs and nothing was admitted", z3.Implies(b == 0, z3.And(R.ln == 0, P.ln == P0.ln))),
           ("a batch is a prefill or a decode batch", z3.Implies(b != 0, z3.Or(mode == EXT, mode == DEC))),
           ("batches are never empty", z3.Implies(b != 0, reqs.ln > 0)),
           ("decode batch = the running requests", z3.Implies(z3.And(b != 0, mode == DEC), z3.And(seq_eq(reqs, R), P.ln == P0.ln)))]
    x = z3.If(ext, reqs.ln, 0)
    ex = VSeq(x, reqs._at, reqs.elt, "list")
    out += [(l, f) for l, f in inv(c, h, s, ex)]
    out += [("at most max_running requests run or start", z3.Implies(ext, R.ln + reqs.ln <= mr)),
            ("an admission never exceeds max_total_tokens", z3.Implies(ext, used(h, s) <= mt)),
            ("a prefill batch never exceeds max_prefill_tokens", z3.Implies(ext, total(st, reqs, lambda r: inlen(h, r)) <= mp)),
            ("every pending request is admitted or stays pending", forall(i, z3.And(0 <= i, i < P0.ln), z3.Or(mem(P, P0.at(i).t), z3.And(ext, mem(reqs, P0.at(i).t))))),
            ("only pending requests are admitted", z3.Implies(ext, every(reqs, lambda r: mem(P0, r), False))),
            ("nothing joins the pending queue", every(P, lambda r: mem(P0, r), False)),
            ("unfinished running requests keep running", every(R0, lambda r: z3.Or(fin(h0, r), mem(R, r)), False)),
            ("only unfinished requests keep running", every(R, lambda r: z3.And(z3.Not(fin(h, r)), mem(R0, r)), False)),
            ("a request is left pending only when it does not fit",
             every(P, lambda r: z3.Or(R.ln + x >= mr, used(h, s) + inlen(h, r) > mt, inlen(h, r) > mp - z3.If(ext, total(st, reqs, lambda q: inlen(h, q)), 0)), False))]
    return out


def L(c, n):
    if n == "still_running" and "new_prefill" in c.st.env:
        raise KeyError(n)          # an invariant of the first loop
    return c.v(n)


# ---- loop invariant candidates of get_next_batch_to_run
def still_inv(c):
    s = c.at("self")
    st, sq, i = L(c, "still_running"), c.seq, c.i
    h = c.h
    return [z3.And(st.ln >= 0, st.ln <= i), distinct(st), alive(h, st), every(st, lambda r: z3.Not(fin(h, r)))]


def still_mem(c):
    st, sq, i = L(c, "still_running"), c.seq, c.i
    k = z3.Int("i")
    return [every(st, lambda r: mem(VSeq(i, sq._at, sq.elt), r), True),
            forall(k, z3.And(0 <= k, k < i), z3.Or(fin(c.h, sq.at(k).t), mem(st, sq.at(k).t, [st.ln - 1])), [sq.at(k).t])]


def still_rank(c):
    """the kept requests come from earlier positions (distinctness)"""
    st, sq, i = L(c, "still_running"), c.seq, c.i
    k, j = z3.Ints("i j")
    if nil(st):
        return []
    return [forall([k, j], z3.And(0 <= k, k < st.ln, i <= j, j < sq.ln), st.at(k).t != sq.at(j).t, [z3.MultiPattern(st.at(k).t, sq.at(j).t)])]


def still_sum(c):
    s = c.at("self")
    st, sq, i = L(c, "still_running"), c.seq, c.i
    fn = lambda r: charge(c.h, r)
    pre = VSeq(i, sq._at, sq.elt)
    return [used(c.h, s) == total(c.st, sq, fn) - total(c.st, pre, fn) + total(c.st, st, fn)]


def adm(c):
    return L(c, "new_prefill"), L(c, "remaining_pending"), c.seq, c.i


def adm_basic(c):
    n, r, sq, i = adm(c)
    return [z3.And(n.ln >= 0, r.ln >= 0, n.ln + r.ln == i)]


def adm_distinct(c):
    n, r, sq, i = adm(c)
    return [distinct(n), distinct(r), disjoint(n, r)]


def adm_rank(c):
    n, r, sq, i = adm(c)
    k, j = z3.Ints("i j")
    if nil(n) or nil(r):
        return []
    return [forall([k, j], z3.And(0 <= k, k < n.ln, i <= j, j < sq.ln), n.at(k).t != sq.at(j).t, [z3.MultiPattern(n.at(k).t, sq.at(j).t)]),
            forall([k, j], z3.And(0 <= k, k < r.ln, i <= j, j < sq.ln), r.at(k).t != sq.at(j).t, [z3.MultiPattern(r.at(k).t, sq.at(j).t)])]


def adm_from(k):
    def fn(c):
        n, r, sq, i = adm(c)
        return [every((n, r)[k], lambda x: mem(VSeq(i, sq._at, sq.elt), x, [i - 1]))]
    return fn


def adm_mem(c):
    n, r, sq, i = adm(c)
    k = z3.Int("i")
    return [forall(k, z3.And(0 <= k, k < i), z3.Or(mem(n, sq.at(k).t, [n.ln - 1]), mem(r, sq.at(k).t, [r.ln - 1])), [sq.at(k).t])]


def adm_state(c):
    n, r, sq, i = adm(c)
    h = c.h
    R = run(h, c.at("self"))
    return [alive(h, n), alive(h, r), good(h, n), good(h, r), fresh_req(h, n), fresh_req(h, r), disjoint(R, n), disjoint(R, r)]


def adm_sum(c):
    n, r, sq, i = adm(c)
    s = c.at("self")
    il = lambda x: inlen(c.h, x)
    return [L(c, "prefill_token_budget").t == c.h.get(S, "_max_prefill_tokens", s).t - total(c.st, n, il)]


def adm_nonneg(c):
    n, r, sq, i = adm(c)
    s = c.at("self")
    return [z3.Or(n.ln == 0, L(c, "prefill_token_budget").t >= 0)]


def adm_used(c):
    n, r, sq, i = adm(c)
    s = c.at("self")
    return [used(c.h, s) == used(c.hl, s) + total(c.st, n, lambda x: charge(c.h, x))]


def adm_caps(c):
    n, r, sq, i = adm(c)
    s = c.at("self")
    mr, mt, mp = cap(c, c.h, s)
    R = run(c.h, s)
    return [z3.Or(n.ln == 0, z3.And(R.ln + n.ln <= mr, used(c.h, s) <= mt))]


def adm_fit(c):
    n, r, sq, i = adm(c)
    s = c.at("self")
    mr, mt, mp = cap(c, c.h, s)
    R = run(c.h, s)
    return [every(r, lambda x: z3.Or(R.ln + n.ln >= mr, used(c.h, s) + inlen(c.h, x) > mt, inlen(c.h, x) > L(c, "prefill_token_budget").t))]


def ens_free(c):
    s, r = c.at("self"), c.at("req")
    return [("the request's whole charge is released", used(c.h, s) == used(c.h0, s) - charge(c.h0, r))]


def req_proc(c):
    s, b = c.at("self"), c.at("batch")
    h = c.h
    reqs = h.get(B, "reqs", b)
    mode = h.get(B, "forward_mode", b).fields["$enum"].t
    ext = mode == EXT
    x = VSeq(z3.If(ext, reqs.ln, 0), reqs._at, reqs.elt, "list")
    outs = c.a("result").fields["outputs"].val
    i, j = z3.Ints("i j")
    o = lambda k: outs.at(k).fields
    R = run(h, s)
    return inv(c, h, s, x) + [
        ("prefill or decode", z3.Or(ext, mode == DEC)), ("a decode batch is the running list", z3.Implies(z3.Not(ext), seq_eq(reqs, R))),
        ("batch requests distinct", distinct(reqs)), ("batch bookkeeping", good(h, reqs)), ("batch exists", alive(h, reqs)),
        ("request ids distinct", forall([i, j], z3.And(0 <= i, i < j, j < reqs.ln), qf(h, "rid", reqs.at(i).t).t != qf(h, "rid", reqs.at(j).t).t,
                                        [z3.MultiPattern(reqs.at(i).t, reqs.at(j).t)])),
        ("results present", z3.Not(c.a("result").fields["outputs"].none)), ("one result per request, in batch order", z3.And(outs.ln == reqs.ln, forall(i, z3.And(0 <= i, i < reqs.ln), o(i)["rid"].t == qf(h, "rid", reqs.at(i).t).t, [reqs.at(i).t, o(i)["rid"].t]))),
        ("results well formed", forall(i, z3.And(0 <= i, i < outs.ln), z3.And(o(i)["output_token_ids"].ln >= 0, z3.Implies(z3.And(ext, z3.Not(o(i)["prefix_len"].none)), z3.And(o(i)["prefix_len"].val.t >= 0, o(i)["prefix_len"].val.t <= inlen(h, reqs.at(i).t)))), [o(i)["rid"].t]))]


def ens_proc(c):
    s, b = c.at("self"), c.at("batch")
    reqs = c.h0.get(B, "reqs", b)
    R = run(c.h, s)
    ext = c.h0.get(B, "forward_mode", b).fields["$enum"].t == EXT
    return inv(c, c.h, s) + [
        ("every unfinished request of the batch keeps running", every(reqs, lambda r: z3.Or(fin(c.h, r), mem(R, r)), False)),
        ("requests that were running keep their place in a prefill step", z3.Implies(ext, every(run(c.h0, s), lambda r: mem(R, r), False))),
        ("no finished request of the batch keeps running", every(R, lambda r: z3.Or(z3.Not(fin(c.h, r)), z3.And(ext, mem(run(c.h0, s), r))), False)),
        ("nothing joins or leaves the pending queue", seq_eq(pend(c.h, s), pend(c.h0, s)))]


def first_loop(c):
    if not isinstance(c.seq.elt, TRec):
        raise KeyError("the loop over the results")
    return c.h0.get(B, "reqs", c.at("batch"))


def route_loop(c):
    """the loop that keeps or retires the batch's requests: (kept list, sequence, position)"""
    if not isinstance(c.seq.elt, TRef):
        raise KeyError("a loop over requests")
    acc = c.v("new_running") if "new_running" in c.st.env else run(c.h, c.at("self"))
    return acc, c.seq, c.i


def pr_lookup(c):
    reqs = first_loop(c)
    d = c.v("rid_to_req")
    k = z3.Int("i")
    rid = qf(c.h, "rid", reqs.at(k).t).t
    return [forall(k, z3.And(0 <= k, k < reqs.ln), z3.And(d.dom(rid), d.get(rid).t == reqs.at(k).t), [reqs.at(k).t])]


def same_field(c, f, r):
    return z3.And([z3.Select(x, r) == z3.Select(y, r) for x, y in zip(c.h.arrs(Q, f), c.h0.arrs(Q, f))])


def pr_later(c):
    """requests at later positions are untouched"""
    reqs = first_loop(c)
    k = z3.Int("i")
    return [forall(k, z3.And(c.i <= k, k < reqs.ln), z3.And([same_field(c, f, reqs.at(k).t) for f in ("seq_len", "prefix_len", "output_ids")]), [reqs.at(k).t])]


def pr_good(c):
    return [good(c.h, first_loop(c))]


def pr_frame(f):
    """requests outside the batch are untouched"""
    def fn(c):
        reqs = first_loop(c)
        k = z3.Int("i")
        sv = c.at("self")
        R, P = run(c.h0, sv), pend(c.h0, sv)
        ext = c.h0.get(B, "forward_mode", c.at("batch")).fields["$enum"].t == EXT
        return [z3.Implies(ext, forall(k, z3.And(0 <= k, k < R.ln), same_field(c, f, R.at(k).t), [R.at(k).t])),
                forall(k, z3.And(0 <= k, k < P.ln), same_field(c, f, P.at(k).t), [P.at(k).t])]
    return fn


def pr_sum(c):
    s = c.at("self")
    reqs = first_loop(c)
    pre = VSeq(c.i, reqs._at, reqs.elt)
    return [used(c.h, s) == used(c.h0, s) + total(c.st, pre, lambda r: charge(c.h, r)) - total(c.st, pre, lambda r: charge(c.h0, r))]


def pr_enough(c):
    s = c.at("self")
    reqs = first_loop(c)
    pre = VSeq(c.i, reqs._at, reqs.elt)
    return [used(c.h, s) >= total(c.st, reqs, lambda r: charge(c.h0, r)) - total(c.st, pre, lambda r: charge(c.h0, r))]


def pr_next(c):
    """the next request's charge is covered (a fact about sums)"""
    reqs = first_loop(c)
    fn = lambda r: charge(c.h0, r)
    a, b, n = (total(c.st, VSeq(k, reqs._at, reqs.elt), fn) for k in (c.i, c.i + 1, reqs.ln))
    return [z3.Implies(c.i < reqs.ln, z3.And(b == a + fn(reqs.at(c.i).t), b <= n))]


def rt_nonneg(c):
    """what the kept requests hold, and what the requests still to be looked at hold, is not negative"""
    acc, sq, i = route_loop(c)
    return [lower(c, acc), total(c.st, acc, lambda r: charge(c.h, r)) >= 0]


def lower(c, acc):
    fn = lambda r: charge(c.h, r)
    if nil(acc):
        return z3.BoolVal(True)
    return total_of(c.st, z3.IntVal(0), lambda i: fn(acc.at(i).t)) <= total_of(c.st, acc.ln, lambda i: fn(acc.at(i).t))


def still_nonneg(c):
    st, sq, i = L(c, "still_running"), c.seq, c.i
    fn = lambda r: charge(c.h, r)
    a, b, n = (total(c.st, VSeq(k, sq._at, sq.elt), fn) for k in (i, i + 1, sq.ln))
    return [total(c.st, st, fn) >= 0, z3.Implies(i < sq.ln, z3.And(b == a + fn(sq.at(i).t), b <= n))]


def rt_next(c):
    acc, sq, i = route_loop(c)
    fn = lambda r: charge(c.h, r)
    a, b, n = (total(c.st, VSeq(k, sq._at, sq.elt), fn) for k in (i, i + 1, sq.ln))
    return [z3.Implies(i < sq.ln, z3.And(b == a + fn(sq.at(i).t), b <= n))]


def rt_state(c):
    acc, sq, i = route_loop(c)
    return [acc.ln >= 0, distinct(acc), alive(c.h, acc), good(c.h, acc), disjoint(acc, pend(c.h, c.at("self")))]


def rt_rank(c):
    acc, sq, i = route_loop(c)
    if nil(acc):
        return []
    k, j = z3.Ints("i j")
    return [forall([k, j], z3.And(0 <= k, k < acc.ln, i <= j, j < sq.ln), acc.at(k).t != sq.at(j).t, [z3.MultiPattern(acc.at(k).t, sq.at(j).t)])]


def rt_only(c):
    acc, sq, i = route_loop(c)
    old = run(c.h0, c.at("self"))
    ext = c.h0.get(B, "forward_mode", c.at("batch")).fields["$enum"].t == EXT
    return [every(acc, lambda r: z3.Or(z3.Not(fin(c.h, r)), z3.And(ext, mem(old, r))))]


def rt_kept(c):
    acc, sq, i = route_loop(c)
    k = z3.Int("i")
    return [forall(k, z3.And(0 <= k, k < i), z3.Or(fin(c.h, sq.at(k).t), mem(acc, sq.at(k).t)), [sq.at(k).t])]


def rt_old(c):
    acc, sq, i = route_loop(c)
    old = run(c.h0, c.at("self"))
    ext = c.h0.get(B, "forward_mode", c.at("batch")).fields["$enum"].t == EXT
    k = z3.Int("i")
    return [z3.Implies(ext, z3.And(acc.ln >= old.ln, forall(k, z3.And(0 <= k, k < old.ln), acc.at(k).t == old.at(k).t, [old.at(k).t])))] if not nil(acc) else [z3.Not(ext)]


def rt_sum(c):
    s = c.at("self")
    acc, sq, i = route_loop(c)
    pre = VSeq(i, sq._at, sq.elt)
    fn = lambda r: charge(c.h, r)
    return [used(c.h, s) == total(c.st, acc, fn) + total(c.st, sq, fn) - total(c.st, pre, fn)]


SS = {"self": TRef(S)}
RESULT = TRec("$odict", {"outputs": TOpt(TSeq(OUT, "list"))})
METRICS = [(S, f) for f in ("_num_prefill_tokens", "_num_prefill_cache_tokens", "_num_decode_tokens", "_num_prefill_reqs", "_forward_ct_decode",
                            "_last_prefill_stats_tic", "_last_decode_stats_tic")]
CONTRACTS = [
    Contract(S + "._free_req_resources", MOD, dict(SS, req=TRef(Q)), requires=lambda c: [("charge is not negative", charge(c.h, c.at("req")) >= 0), ("the budget in use covers the charge", used(c.h, c.at("self")) >= charge(c.h, c.at("req")))],
             ensures=ens_free, modifies=[(S, "_used_tokens", "self"), (Q, "req_pool_idx", "req")]),
    Contract(S + "._collect_finished_output", MOD, dict(SS, req=TRef(Q)), trusted=True),
    Contract(S + "._log_prefill_stats", MOD, SS, trusted=True, modifies=METRICS),
    Contract(S + "._log_decode_stats", MOD, SS, trusted=True, modifies=METRICS),
    Contract(Q + ".check_finished", MOD, {"self": TRef(Q)}, ret=TBool, modifies=[(Q, "finished_reason", "self")], trusted=True),
    Contract(S + ".get_next_batch_to_run", MOD, SS, ret=TRef(B), requires=req_next, ensures=ens_next, allocs=[B],
             modifies=[(S, "_running_batch"), (S, "_pending_queue"), (S, "_used_tokens"), (S, "_next_req_pool_idx"), (Q, "req_pool_idx"), (B, "reqs"), (B, "forward_mode")],
             loops=[("kept requests", still_inv), ("kept = unfinished", still_mem), ("kept rank", still_rank), ("kept charge while filtering", still_nonneg), ("budget while filtering", still_sum),
                    ("admission split", adm_basic), ("admitted distinct", adm_distinct), ("admission rank", adm_rank), ("admitted from the queue", adm_from(0)), ("deferred from the queue", adm_from(1)), ("admission membership", adm_mem),
                    ("admission state", adm_state), ("prefill budget", adm_sum), ("prefill budget not exceeded", adm_nonneg), ("budget while admitting", adm_used),
                    ("limits respected", adm_caps), ("refused only when it does not fit", adm_fit)]),
    Contract(S + ".process_batch_result", MOD, dict(SS, batch=TRef(B), result=RESULT), requires=req_proc, ensures=ens_proc,
             modifies=METRICS + [(S, "_running_batch"), (S, "_used_tokens")] + [(Q, f) for f in ("req_pool_idx", "output_ids", "seq_len", "prefix_len",
                      "finished_reason", "is_prefilled", "vit_prefill_ms", "vit_prefill_tokens", "llm_prefill_ms", "llm_decode_ms", "decode_start_tic")],
             loops=[("lookup by request id", pr_lookup), ("later requests untouched", pr_later), ("batch bookkeeping", pr_good)] +
                   [("frame " + f, pr_frame(f)) for f in ("seq_len", "prefix_len", "output_ids", "finished_reason")] +
                   [("next charge", pr_next), ("enough budget", pr_enough), ("budget while applying results", pr_sum),
                    ("kept requests", rt_state), ("kept rank", rt_rank), ("kept are unfinished", rt_only), ("unfinished are kept", rt_kept),
                    ("old requests stay", rt_old), ("kept charge", rt_nonneg), ("next retired charge", rt_next), ("budget while retiring", rt_sum)]),
]
VERIFY = [S + "._free_req_resources", S + ".get_next_batch_to_run", S + ".process_batch_result"]
REPLAY = "c06.py"
MIN_OBLIGATIONS = 60


def lemmas():
    return sum_lemma_obligations()

CONCRETE_NOTE = "serving histories"
