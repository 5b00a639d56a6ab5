"""C07: what each request is given to the client: stop set, finish reason, streamed chunks, accounting."""
from props.sched import *
from props import sched as _s

RAW, SOCK = "TokenizedGenerateReqInput", "$Socket"
DMSG = MSG
SCHEMA = {k: dict(v) for k, v in _s.SCHEMA.items()}
SCHEMA[S].update({"_waiting_queue": TSeq(TRef(RAW), "list"), "_finished": TSeq(DMSG, "list"), "_send_to_detokenizer": TRef(SOCK)})
SCHEMA[RAW] = {"rid": TStr, "input_ids": TL, "input_text": TAny, "sampling_params": TOpt(SP), "mm_inputs": TAny, "stream": TBool,
               "return_logprob": TAny, "logprob_start_len": TAny, "top_logprobs_num": TAny}
# ghost: how many tokens of each request id the client has been sent
SCHEMA[SOCK] = {"$sent": TDict(TStr, TInt)}


def stops(h, r):
    return qf(h, "stop_token_ids", r)


def outs(h, r):
    return qf(h, "output_ids", r)


def reason(h, r):
    return qf(h, "finished_reason", r)


EOS, LEN_, ABORT = intern_str("eos"), intern_str("length"), intern_str("abort")


def imem(s, x, wit=()):
    i = z3.FreshInt("k")
    if nil(s):
        return z3.BoolVal(False)
    return z3.Or([z3.Exists([i], z3.And(0 <= i, i < s.ln, s.at(i).t == x))] + [z3.And(0 <= w, w < s.ln, s.at(w).t == x) for w in wit])


def ens_check(c):
    r = c.at("self")
    h, h0 = c.h, c.h0
    o, w0, w = outs(h0, r), reason(h0, r), reason(h, r)
    last = z3.And(o.ln > 0, imem(stops(h0, r), o.at(o.ln - 1).t))
    lim = o.ln >= qf(h0, "max_new_tokens", r).t
    return [("a finished request keeps its reason", z3.Implies(z3.Not(w0.none), z3.And(z3.Not(w.none), w.val.t == w0.val.t))),
            ("a stop token ends the request with reason eos", z3.Implies(z3.And(w0.none, last), z3.And(z3.Not(w.none), w.val.t == EOS))),
            ("the length limit ends the request with reason length", z3.Implies(z3.And(w0.none, z3.Not(last), lim), z3.And(z3.Not(w.none), w.val.t == LEN_))),
            ("otherwise the request goes on", z3.Implies(z3.And(w0.none, z3.Not(last), z3.Not(lim)), w.none)),
            ("reports whether the request is finished", c.res.t == z3.Not(w.none))]


def f(m, k):
    v = m.fields[k]
    return v.items[0] if k not in ("decode_ids", "output_ids") else v


def msg_for(h, r, m, off):
    """message m reports request r whose client already has `off` tokens"""
    o = outs(h, r)
    i = z3.Int("tok")
    d = m.fields["decode_ids"]
    return [("request id", f(m, "rids").t == qf(h, "rid", r).t), ("read offset = tokens sent before", f(m, "read_offsets").t == off),
            ("new tokens start where the client stopped", z3.And(d.ln == o.ln - off, forall(i, z3.And(0 <= i, i < d.ln), d.at(i).t == o.at(off + i).t))),
            ("all tokens so far", seq_eq(m.fields["output_ids"], o)), ("completion count", f(m, "completion_tokens").t == o.ln),
            ("prompt count", f(m, "prompt_tokens").t == qf(h, "prompt_len", r).t)]


def req_collect(c):
    r = c.at("req")
    off = qf(c.h, "read_offset", r).t
    return [("read offset in range", z3.And(0 <= off, off <= outs(c.h, r).ln))]


def ens_collect(c):
    s, r = c.at("self"), c.at("req")
    q0, q = c.h0.get(S, "_finished", s), c.h.get(S, "_finished", s)
    m = q.at(q0.ln)
    i = z3.Int("i")
    w = reason(c.h0, r)
    fr = f(m, "finished_reasons")
    return [("exactly one final message is queued", q.ln == q0.ln + 1)] + \
           [("final message: " + l, x) for l, x in msg_for(c.h0, r, m, qf(c.h0, "read_offset", r).t)] + \
           [("final message: finish reason", z3.And(fr.none == w.none, z3.Implies(z3.Not(w.none), fr.val.t == w.val.t)))]


def sent(h, s):
    return h.get(SOCK, "$sent", h.get(S, "_send_to_detokenizer", s).t)


def proto(d, m):
    """the message continues the stream of its request exactly where it stopped"""
    rid = f(m, "rids").t
    off = f(m, "read_offsets").t
    i = z3.Int("tok")
    dd, o = m.fields["decode_ids"], m.fields["output_ids"]
    return [("the request is known", d.dom(rid)), ("stream continues where it stopped", d.get(rid).t == off),
            ("no token is skipped or repeated", z3.And(dd.ln == o.ln - off, forall(i, z3.And(0 <= i, i < dd.ln), dd.at(i).t == o.at(off + i).t))),
            ("completion count", f(m, "completion_tokens").t == o.ln)]


def req_send(c):
    d = c.h.get(SOCK, "$sent", c.at("self"))
    return proto(d, c.a("obj"))


def ens_send(c):
    d0, d = c.h0.get(SOCK, "$sent", c.at("self")), c.h.get(SOCK, "$sent", c.at("self"))
    m = c.a("obj")
    x = z3.Int("x")
    rid = f(m, "rids").t
    return [("advance", z3.And(d.dom(rid), d.get(rid).t == m.fields["output_ids"].ln)),
            ("others", forall(x, x != rid, z3.And(d.dom(x) == d0.dom(x), d.get(x).t == d0.get(x).t), [d.get(x).t]))]


def live(h, s):
    """running requests: ids distinct, the client has exactly read_offset tokens"""
    R = run(h, s)
    d = sent(h, s)
    i, j = z3.Ints("i j")
    rid = lambda k: qf(h, "rid", R.at(k).t).t
    return [("running requests", distinct(R)), ("running requests exist", alive(h, R)),
            ("running ids distinct", forall([i, j], z3.And(0 <= i, i < j, j < R.ln), rid(i) != rid(j), [z3.MultiPattern(R.at(i).t, R.at(j).t)])),
            ("read offset = tokens the client has", every(R, lambda r: z3.And(d.dom(qf(h, "rid", r).t), d.get(qf(h, "rid", r).t).t == qf(h, "read_offset", r).t,
                                                                          qf(h, "read_offset", r).t >= 0, qf(h, "read_offset", r).t <= outs(h, r).ln)))]


def queued(h, s, q=None):
    """queued final messages continue their streams; their requests no longer run"""
    q = h.get(S, "_finished", s) if q is None else q
    d = sent(h, s)
    R = run(h, s)
    i, j = z3.Ints("i j")
    rid = lambda k: f(q.at(k), "rids").t
    x = z3.Int("x")
    return [("final messages for distinct requests", forall([i, j], z3.And(0 <= i, i < j, j < q.ln), rid(i) != rid(j), [z3.MultiPattern(rid(i), rid(j))])),
            ("finished requests do not run", forall([i, j], z3.And(0 <= i, i < q.ln, 0 <= j, j < R.ln), rid(i) != qf(h, "rid", R.at(j).t).t, [z3.MultiPattern(rid(i), R.at(j).t)])),
            ("final messages continue their streams", forall(i, z3.And(0 <= i, i < q.ln), z3.And([x for _, x in proto(d, q.at(i))]), [rid(i)]))]


def req_stream(c):
    s = c.at("self")
    return [("connected", c.h.get(S, "_send_to_detokenizer", s).t > 0)] + live(c.h, s) + queued(c.h, s)


def ens_stream(c):
    s = c.at("self")
    h, h0 = c.h, c.h0
    q0 = h0.get(S, "_finished", s)
    d = sent(h, s)
    R = run(h, s)
    i = z3.Int("i")
    return live(h, s) + [("every final message is sent", h.get(S, "_finished", s).ln == 0),
                         ("clients of finished requests have every token", forall(i, z3.And(0 <= i, i < q0.ln), d.get(f(q0.at(i), "rids").t).t == q0.at(i).fields["output_ids"].ln, [f(q0.at(i), "rids").t])),
                         ("streaming clients have every token generated so far", every(R, lambda r: z3.Implies(z3.And(qf(h, "stream", r).t, z3.Or(reason(h, r).none, reason(h, r).val.t != ABORT)),
                                                                                                      d.get(qf(h, "rid", r).t).t == outs(h, r).ln), False)),
                         ("clients that did not ask for streaming get nothing early", every(R, lambda r: z3.Implies(z3.Not(qf(h, "stream", r).t), d.get(qf(h, "rid", r).t).t == sent(h0, s).get(qf(h, "rid", r).t).t), False))]


def in_for(c):
    c.seq
    return True


def st_live(c):
    in_for(c)
    return [x for _, x in live(c.h, c.at("self"))]


def st_queued(c):
    if c.loop.get("seq") is not None:
        return [x for _, x in queued(c.h, c.at("self"))]
    return [x for _, x in queued(c.h, c.at("self"))] + [x for _, x in live(c.h, c.at("self"))]


def st_done(c):
    s = c.at("self")
    h = c.h
    R = run(h, s)
    d = sent(h, s)
    d0 = sent(c.h0, s)
    n = c.i if c.loop.get("seq") is not None else R.ln
    i = z3.Int("i")
    r = lambda k: R.at(k).t
    return [forall(i, z3.And(0 <= i, i < n), z3.Implies(z3.And(qf(h, "stream", r(i)).t, z3.Or(reason(h, r(i)).none, reason(h, r(i)).val.t != ABORT)),
                                                        d.get(qf(h, "rid", r(i)).t).t == outs(h, r(i)).ln), [r(i)]),
            forall(i, z3.And(0 <= i, i < R.ln), z3.Implies(z3.Not(qf(h, "stream", r(i)).t), d.get(qf(h, "rid", r(i)).t).t == d0.get(qf(h, "rid", r(i)).t).t), [r(i)])]


def st_rest(c):
    """final messages still queued are the last ones of the original queue; the others were delivered"""
    s = c.at("self")
    if c.loop.get("seq") is not None:
        raise KeyError("for")
    q0, q = c.h0.get(S, "_finished", s), c.h.get(S, "_finished", s)
    d = sent(c.h, s)
    i = z3.Int("i")
    off = q0.ln - q.ln
    same = lambda a, b: eq_term(a, b)
    return [z3.And(0 <= q.ln, q.ln <= q0.ln), forall(i, z3.And(0 <= i, i < q.ln), same(q.at(i), q0.at(off + i)), [f(q.at(i), "rids").t]),
            forall(i, z3.And(0 <= i, i < off), d.get(f(q0.at(i), "rids").t).t == q0.at(i).fields["output_ids"].ln, [f(q0.at(i), "rids").t])]


def eq_term(a, b):
    return z3.And([f(a, k).t == f(b, k).t for k in ("rids", "read_offsets", "completion_tokens")] + [a.fields["output_ids"].ln == b.fields["output_ids"].ln])


def waiting(h, s):
    return h.get(S, "_waiting_queue", s)


def given_stop(h, raw):
    """(is given, list) of the caller's stop tokens"""
    sp = h.get(RAW, "sampling_params", raw)
    st = sp.val.fields["stop_token_ids"]
    return z3.And(z3.Not(sp.none), z3.Not(st.none)), st.val


def given_new(h, raw):
    sp = h.get(RAW, "sampling_params", raw)
    mn = sp.val.fields["max_new_tokens"]
    return z3.And(z3.Not(sp.none), z3.Not(mn.none)), mn.val.t


def made_from(h, s, r, raw, h0):
    """request r is what the client asked for in raw (raw and the scheduler's defaults read in heap h0)"""
    has, st = given_stop(h0, raw)
    hasn, n = given_new(h0, raw)
    eos = h0.get(S, "_eos_token_ids", s)
    t, u, w = z3.Ints("t u w")
    got = stops(h, r)
    a = [("a request object is created", z3.And(r > 0, z3.Select(h.alive(Q), r))), ("request id", qf(h, "rid", r).t == h0.get(RAW, "rid", raw).t),
         ("prompt", seq_eq(qf(h, "input_ids", r), h0.get(RAW, "input_ids", raw))), ("streaming choice", qf(h, "stream", r).t == h0.get(RAW, "stream", raw).t),
         ("length limit is the caller's, or the model default", qf(h, "max_new_tokens", r).t == z3.If(hasn, n, h0.get(S, "_default_max_new_tokens", s).t)),
         ("every model EOS token stops the request", forall(t, z3.And(0 <= t, t < eos.ln), imem(got, eos.at(t).t), [eos.at(t).t])),
         ("every stop token of the caller stops the request", z3.Implies(has, forall(u, z3.And(0 <= u, u < st.ln), imem(got, st.at(u).t), [st.at(u).t]))),
         ("nothing else stops the request", forall(w, z3.And(0 <= w, w < got.ln), z3.Or(imem(eos, got.at(w).t), z3.And(has, imem(st, got.at(w).t, [w]))), [got.at(w).t])),
         ("starts unprocessed", z3.And(outs(h, r).ln == 0, reason(h, r).none, qf(h, "read_offset", r).t == 0, qf(h, "prefix_len", r).t == 0,
                                       qf(h, "prompt_len", r).t == inlen(h, r), qf(h, "seq_len", r).t == inlen(h, r)))]
    return a


def req_input(c):
    s = c.at("self")
    W = waiting(c.h, s)
    i = z3.Int("i")
    return [("queued requests exist", forall(i, z3.And(0 <= i, i < W.ln), z3.And(W.at(i).t > 0, z3.Select(c.h.alive(RAW), W.at(i).t)), [W.at(i).t])),
            ("pending requests exist", alive(c.h, pend(c.h, s))), ("pending requests distinct", distinct(pend(c.h, s)))]


def done_input(c, n):
    s = c.at("self")
    h, h0 = c.h, c.h0
    P0, P, W0 = pend(h0, s), pend(h, s), waiting(h0, s)
    i = z3.Int("i")
    made = made_from(h, s, P.at(i).t, W0.at(i - P0.ln).t, h0)
    return [("one pending request per received request", P.ln == P0.ln + n), ("pending requests keep their place", forall(i, z3.And(0 <= i, i < P0.ln), P.at(i).t == P0.at(i).t, [P.at(i).t])),
            ("pending requests exist", alive(h, P)), ("pending requests distinct", distinct(P))] + \
           [("in arrival order: " + l, forall(i, z3.And(P0.ln <= i, i < P0.ln + n), x, [P.at(i).t])) for l, x in made]


def ens_input(c):
    s = c.at("self")
    return [("no received request is left behind", waiting(c.h, s).ln == 0)] + done_input(c, waiting(c.h0, s).ln)


def in_rest(c):
    s = c.at("self")
    if c.loop.get("seq") is not None:
        raise KeyError("inner loop")
    W0, W = waiting(c.h0, s), waiting(c.h, s)
    n = W0.ln - W.ln
    i = z3.Int("i")
    return [z3.And(0 <= W.ln, W.ln <= W0.ln), forall(i, z3.And(0 <= i, i < W.ln), W.at(i).t == W0.at(n + i).t, [W.at(i).t])]


def in_done(k):
    def fn(c):
        s = c.at("self")
        if c.loop.get("seq") is not None:
            raise KeyError("inner loop")
        xs = done_input(c, waiting(c.h0, s).ln - waiting(c.h, s).ln)
        if k >= len(xs):
            raise KeyError(k)
        return [xs[k][1]]
    return fn


def in_stop(c):
    """inner loop: the merged stop list has the caller's tokens and the EOS tokens looked at so far"""
    if c.loop.get("seq") is None:
        raise KeyError("outer loop")
    st, st0, eos = c.v("stop_ids"), c.lv("stop_ids"), c.seq
    t = z3.Int("t")
    w = z3.Int("w")
    pre = VSeq(c.i, eos._at, eos.elt)
    out = [st.ln >= st0.ln, forall(t, z3.And(0 <= t, t < c.i), imem(st, eos.at(t).t, [st.ln - 1]), [eos.at(t).t])]
    if not nil(st0):
        out.append(forall(t, z3.And(0 <= t, t < st0.ln), st.at(t).t == st0.at(t).t, [st0.at(t).t]))
    if not nil(st):
        out.append(forall(w, z3.And(st0.ln <= w, w < st.ln), imem(pre, st.at(w).t, [c.i - 1]), [st.at(w).t]))
    return out


def req_abort(c):
    s = c.at("self")
    return [("running requests exist", alive(c.h, run(c.h, s))), ("pending requests exist", alive(c.h, pend(c.h, s)))]


def ens_abort(c):
    s, rid = c.at("self"), c.at("rid")
    h, h0 = c.h, c.h0
    P0, P, R = pend(h0, s), pend(h, s), run(h0, s)
    is_ = lambda r: qf(h0, "rid", r).t == rid
    return [("the request leaves the pending queue", every(P, lambda r: z3.Not(is_(r)), False)),
            ("other pending requests stay", every(P0, lambda r: z3.Or(is_(r), mem(P, r)), False)),
            ("nothing joins the pending queue", every(P, lambda r: mem(P0, r), False)),
            ("other running requests go on", every(R, lambda r: z3.Or(is_(r), z3.And(reason(h, r).none == reason(h0, r).none, reason(h, r).val.t == reason(h0, r).val.t)), False)),
            ("a running request with that id is stopped", z3.Implies(z3.Not(every(R, lambda r: z3.Not(is_(r)), False)),
                                                                     z3.Not(every(R, lambda r: z3.Not(z3.And(is_(r), z3.Not(reason(h, r).none), reason(h, r).val.t == ABORT)), False))))]


def ab_pend(c):
    s, rid = c.at("self"), c.at("rid")
    R = run(c.h0, s)
    i = z3.Int("i")
    return [forall(i, z3.And(0 <= i, i < c.i), qf(c.h0, "rid", R.at(i).t).t != rid, [R.at(i).t]),
            forall(i, z3.And(0 <= i, i < R.ln), z3.And(reason(c.h, R.at(i).t).none == reason(c.h0, R.at(i).t).none, reason(c.h, R.at(i).t).val.t == reason(c.h0, R.at(i).t).val.t), [R.at(i).t])]


def req_dec(c):
    reqs = c.h.get(B, "reqs", c.at("self"))
    i = z3.Int("i")
    h = c.h
    return [("requests exist", alive(h, reqs)), ("prompts are not empty", forall(i, z3.And(0 <= i, i < reqs.ln), inlen(h, reqs.at(i).t) > 0, [reqs.at(i).t]))]


DEC_LISTS = {"input_ids": "all_input_ids", "positions": "all_positions", "req_pool_indices": "req_pool_indices", "seq_lens": "seq_lens"}


def dec_rows(c, get, n):
    h = c.h
    reqs = h.get(B, "reqs", c.at("self"))
    k = z3.Int("k")
    r = reqs.at(k).t
    o = outs(h, r)
    I = qf(h, "input_ids", r)
    ids, pos, pool, seq = (get(x) for x in ("input_ids", "positions", "req_pool_indices", "seq_lens"))
    out = [("one row per request", z3.And([x.ln == n for x in (ids, pos, pool, seq)]))]
    if any(nil(x) for x in (ids, pos, pool, seq)):
        return out
    rows = lambda f: forall(k, z3.And(0 <= k, k < n), f, [r])
    return out + [("each request is fed its last generated token", rows(ids.at(k).t == z3.If(o.ln > 0, o.at(o.ln - 1).t, I.at(I.ln - 1).t))),
                  ("position = sequence length", rows(pos.at(k).t == qf(h, "seq_len", r).t)), ("sequence lengths", rows(seq.at(k).t == qf(h, "seq_len", r).t)),
                  ("request slots", rows(pool.at(k).t == qf(h, "req_pool_idx", r).t))]


def ens_dec(c):
    reqs = c.h.get(B, "reqs", c.at("self"))
    return dec_rows(c, lambda n: c.st.rd(c.res.fields[n]), reqs.ln) + [("batch size", c.st.rd(c.res.fields["batch_size"]).t == reqs.ln)]


def dec_inv(k):
    def fn(c):
        xs = dec_rows(c, lambda n: c.v(DEC_LISTS[n]), c.i)
        return [xs[k][1] if k < len(xs) else z3.BoolVal(True)]
    return fn


EXT_LISTS = {"input_ids": "all_input_ids", "positions": "all_positions", "req_pool_indices": "req_pool_indices", "seq_lens": "seq_lens", "extend_seq_lens": "extend_seq_lens",
             "extend_prefix_lens": "extend_prefix_lens"}


def ext_rows(c, get, n):
    h = c.h
    reqs = h.get(B, "reqs", c.at("self"))
    k, t = z3.Ints("k t")
    r = reqs.at(k).t
    I = qf(h, "input_ids", r)
    ls = {x: get(x) for x in EXT_LISTS}
    off = lambda m: total_of(c.st, m, lambda j: inlen(h, reqs.at(j).t))
    out = [("one row per request", z3.And([ls[x].ln == n for x in ("req_pool_indices", "seq_lens", "extend_seq_lens", "extend_prefix_lens")])),
           ("all prompt tokens", z3.And(ls["input_ids"].ln == off(n), ls["positions"].ln == off(n)))]
    if any(nil(x) for x in ls.values()):
        return out
    rows = lambda f: forall(k, z3.And(0 <= k, k < n), f, [r])
    toks = lambda f: forall([k, t], z3.And(0 <= k, k < n, 0 <= t, t < I.ln), z3.And(off(k) >= 0, off(k) + t < off(n), f), [I.at(t).t])
    return out + [("each request's whole prompt, in order", toks(ls["input_ids"].at(off(k) + t).t == I.at(t).t)),
                  ("each request's whole prompt, with positions from 0", toks(z3.And(ls["input_ids"].at(off(k) + t).t == I.at(t).t, ls["positions"].at(off(k) + t).t == t))),
                  ("request slots", rows(ls["req_pool_indices"].at(k).t == qf(h, "req_pool_idx", r).t)), ("sequence lengths", rows(ls["seq_lens"].at(k).t == qf(h, "seq_len", r).t)),
                  ("prompt lengths", rows(ls["extend_seq_lens"].at(k).t == I.ln)), ("no prefix is trimmed by the scheduler", rows(ls["extend_prefix_lens"].at(k).t == 0))]


def ens_ext(c):
    reqs = c.h.get(B, "reqs", c.at("self"))
    return ext_rows(c, lambda n: c.st.rd(c.res.fields[n]), reqs.ln) + [("batch size", c.st.rd(c.res.fields["batch_size"]).t == reqs.ln)]


def ext_inv(k):
    def fn(c):
        xs = ext_rows(c, lambda n: c.v(EXT_LISTS[n]), c.i)
        return [xs[k][1] if k < len(xs) else z3.BoolVal(True)]
    return fn


SS = {"self": TRef(S)}
CONTRACTS = [
    Contract(B + ".prepare_for_extend", MOD, {"self": TRef(B)}, requires=req_dec, ensures=ens_ext,
             loops=[("rows so far %d" % k, ext_inv(k)) for k in range(8)]),
    Contract(B + ".prepare_for_decode", MOD, {"self": TRef(B)}, requires=req_dec, ensures=ens_dec,
             loops=[("rows so far %d" % k, dec_inv(k)) for k in range(5)]),
    Contract(Q + ".check_finished", MOD, {"self": TRef(Q)}, ret=TBool, ensures=ens_check, modifies=[(Q, "finished_reason", "self")]),
    Contract(Q + ".abort", MOD, {"self": TRef(Q)}, modifies=[(Q, "finished_reason", "self")],
             ensures=lambda c: [("reason abort", z3.And(z3.Not(reason(c.h, c.at("self")).none), reason(c.h, c.at("self")).val.t == ABORT))]),
    Contract(S + ".process_input_requests", MOD, SS, requires=req_input, ensures=ens_input, allocs=[Q], modifies=[(S, "_waiting_queue"), (S, "_pending_queue")],
             loops=[("rest of the received requests", in_rest)] + [("processed so far %d" % k, in_done(k)) for k in range(13)] + [("merged stop tokens", in_stop)]),
    Contract(S + "._abort_request", MOD, dict(SS, rid=TStr), requires=req_abort, ensures=ens_abort, modifies=[(S, "_pending_queue"), (Q, "finished_reason")],
             loops=[("earlier requests differ", ab_pend)]),
    Contract(S + "._collect_finished_output", MOD, dict(SS, req=TRef(Q)), requires=req_collect, ensures=ens_collect, modifies=[(S, "_finished")]),
    Contract(SOCK + ".send_pyobj", MOD, {"self": TRef(SOCK), "obj": DMSG}, requires=req_send, ensures=ens_send, modifies=[(SOCK, "$sent")], trusted=True),
    Contract(S + ".stream_output", MOD, SS, requires=req_stream, ensures=ens_stream, modifies=[(S, "_finished"), (Q, "read_offset"), (SOCK, "$sent")],
             loops=[("live streams", st_live), ("queued final messages", st_queued), ("delivered so far", st_done), ("rest of the final queue", st_rest)]),
]
VERIFY = [B + ".prepare_for_extend", B + ".prepare_for_decode", S + ".process_input_requests", S + "._abort_request", Q + ".check_finished", Q + ".abort", S + "._collect_finished_output", S + ".stream_output"]
REPLAY = "c07.py"
MIN_OBLIGATIONS = 60


def lemmas():
    return sum_lemma_obligations()

CONCRETE_NOTE = "request life cycles and served streams"
