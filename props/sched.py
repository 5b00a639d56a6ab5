"""Shared vocabulary of the scheduler contracts (C06, C07)."""
import z3
from dv import core
from dv.core import *
from dv.pyexec import Contract

if not getattr(core, "_sum_on", False):
    core.AXIOMS.extend(sum_axioms())
    core._sum_on = True

MOD = "pymllm.orchestrator.scheduler_process"
S, Q, B = "SchedulerProcess", "Req", "ScheduleBatch"
TL = TSeq(TInt, "list")
TRL = TSeq(TRef(Q), "list")
MODE = TRec("ForwardMode", {"$enum": TStr})
EXT, DEC = intern_str("ForwardMode.EXTEND"), intern_str("ForwardMode.DECODE")
ANYF = ["input_text", "mm_inputs", "stream_", "return_logprob", "logprob_start_len", "top_logprobs_num"]
SP = TRec("$odict", {"max_new_tokens": TOpt(TInt), "temperature": TOpt(TReal), "top_p": TOpt(TReal), "top_k": TOpt(TInt), "stop_token_ids": TOpt(TL)})
OUT = TRec("$odict", {"rid": TStr, "output_token_ids": TL, "prefix_len": TOpt(TInt), "vit_prefill_ms": TOpt(TIgn),
                      "vit_prefill_tokens": TOpt(TIgn), "llm_prefill_ms": TOpt(TIgn), "llm_decode_ms": TOpt(TIgn)})
MSG = TRec("$dict", {"rids": TTup([TStr]), "finished_reasons": TTup([TOpt(TStr)]), "decode_ids": TL, "read_offsets": TTup([TInt]), "output_ids": TL,
                     "prompt_tokens": TTup([TInt]), "completion_tokens": TTup([TInt])})
SCHEMA = {
    Q: {"rid": TStr, "input_ids": TL, "input_text": TAny, "sampling_params": SP, "mm_inputs": TAny, "stream": TBool, "return_logprob": TAny,
        "logprob_start_len": TAny, "top_logprobs_num": TAny, "req_pool_idx": TInt, "seq_len": TInt, "prefix_len": TInt, "output_ids": TL,
        "finished_reason": TOpt(TStr), "is_prefilled": TBool, "max_new_tokens": TInt, "temperature": TReal, "top_p": TReal, "top_k": TInt,
        "stop_token_ids": TL, "read_offset": TInt, "prompt_len": TInt, "vit_prefill_ms": TIgn, "vit_prefill_tokens": TIgn,
        "llm_prefill_ms": TIgn, "llm_decode_ms": TIgn, "decode_start_tic": TIgn},
    B: {"reqs": TRL, "forward_mode": MODE},
    S: {"_running_batch": TRL, "_pending_queue": TRL, "_used_tokens": TInt, "_max_running_requests": TInt, "_max_prefill_tokens": TInt,
        "_max_total_tokens": TInt, "_next_req_pool_idx": TInt, "_eos_token_ids": TL, "_default_max_new_tokens": TInt,
        "_num_prefill_tokens": TInt, "_num_prefill_cache_tokens": TInt, "_num_decode_tokens": TInt, "_num_prefill_reqs": TInt,
        "_forward_ct_decode": TInt, "_decode_log_interval": TInt, "_last_prefill_stats_tic": TReal, "_last_decode_stats_tic": TReal}}


def qf(h, f, r):
    return h.get(Q, f, r)


def run(h, s):
    return h.get(S, "_running_batch", s)


def pend(h, s):
    return h.get(S, "_pending_queue", s)


def used(h, s):
    return h.get(S, "_used_tokens", s).t


def charge(h, r):
    return qf(h, "seq_len", r).t - qf(h, "prefix_len", r).t


def inlen(h, r):
    return qf(h, "input_ids", r).ln


def nil(s):
    """an empty list literal (its element type is not known yet)"""
    return s.items is not None and len(s.items) == 0


def total(st, seq, fn):
    if nil(seq):
        return z3.IntVal(0)
    i = z3.FreshInt("k")
    t = seq.at(i).t
    # a list that was just appended to: one more summand
    if z3.is_select(t) and z3.is_store(t.arg(0)) and t.arg(1).eq(i):
        a, j, v = t.arg(0).arg(0), t.arg(0).arg(1), t.arg(0).arg(2)
        if z3.is_true(z3.simplify(seq.ln == j + 1)):
            j = z3.simplify(j)
            return z3.If(j < 0, 0, total(st, VSeq(j, lambda k: VS(z3.Select(a, k), TInt), seq.elt), fn) + fn(v))
    return total_of(st, seq.ln, lambda i: fn(seq.at(i).t))


def fin(h, r):
    return z3.Not(qf(h, "finished_reason", r).none)


def distinct(s):
    if nil(s):
        return z3.BoolVal(True)
    i, j = z3.Ints("i j")
    return forall([i, j], z3.And(0 <= i, i < j, j < s.ln), s.at(i).t != s.at(j).t, [z3.MultiPattern(s.at(i).t, s.at(j).t)])


def disjoint(a, b):
    if nil(a) or nil(b):
        return z3.BoolVal(True)
    i, j = z3.Ints("i j")
    return forall([i, j], z3.And(0 <= i, i < a.ln, 0 <= j, j < b.ln), a.at(i).t != b.at(j).t, [z3.MultiPattern(a.at(i).t, b.at(j).t)])


def every(s, fn, pat=True):
    if nil(s):
        return z3.BoolVal(True)
    i = z3.Int("i")
    return forall(i, z3.And(0 <= i, i < s.ln), fn(s.at(i).t), [s.at(i).t] if pat else None)


def mem(s, x, wit=()):
    if nil(s):
        return z3.BoolVal(False)
    i = z3.FreshInt("k")
    t = s.at(i).t
    # membership in a list that was just appended to: the new element or the list before (an equivalence)
    if z3.is_select(t) and z3.is_store(t.arg(0)) and t.arg(1).eq(i):
        a, j, v = t.arg(0).arg(0), t.arg(0).arg(1), t.arg(0).arg(2)
        if z3.is_true(z3.simplify(s.ln == j + 1)):
            return z3.Or(v == x, mem(VSeq(z3.simplify(j), lambda k: VS(z3.Select(a, k), TInt), s.elt), x, wit))
    return z3.Or([z3.Exists([i], z3.And(0 <= i, i < s.ln, s.at(i).t == x))] + [z3.And(0 <= w, w < s.ln, s.at(w).t == x) for w in wit])


def alive(h, s):
    return every(s, lambda r: z3.And(r > 0, z3.Select(h.alive(Q), r)))


def good(h, s):
    """request bookkeeping: what the request occupies"""
    return every(s, lambda r: z3.And(qf(h, "prefix_len", r).t >= 0, qf(h, "prefix_len", r).t <= inlen(h, r), qf(h, "prompt_len", r).t == inlen(h, r),
                                     qf(h, "seq_len", r).t == inlen(h, r) + qf(h, "output_ids", r).ln))


def fresh_req(h, s):
    return every(s, lambda r: z3.And(qf(h, "prefix_len", r).t == 0, qf(h, "output_ids", r).ln == 0, qf(h, "finished_reason", r).none,
                                     qf(h, "read_offset", r).t == 0))


def inv(c, h, s, extra=None):
    """scheduler invariant between steps; extra = admitted batch that is not in the running list yet"""
    R, P = run(h, s), pend(h, s)
    t = total(c.st, R, lambda r: charge(h, r))
    if extra is not None:
        t = t + total(c.st, extra, lambda r: charge(h, r))
    out = [("token budget in use = sum over admitted requests of (sequence length - reused prefix)", used(h, s) == t),
           ("running requests distinct", distinct(R)), ("pending requests distinct", distinct(P)), ("running and pending disjoint", disjoint(R, P)),
           ("running requests exist", alive(h, R)), ("pending requests exist", alive(h, P)),
           ("running bookkeeping", good(h, R)), ("pending bookkeeping", good(h, P)), ("pending requests not started", fresh_req(h, P)),
           ]
    if extra is not None:
        out += [("admitted distinct", distinct(extra)), ("admitted disjoint from running", disjoint(R, extra)),
                ("admitted disjoint from pending", disjoint(extra, P)), ("admitted exist", alive(h, extra)), ("admitted bookkeeping", good(h, extra)),
                ("admitted not started", fresh_req(h, extra))]
    return out
