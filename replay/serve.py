"""End-to-end serving harness: the real SchedulerProcess + ModelRunnerProcess + pools + prefix caches on CPU, with a
stand-in model whose next token is a hash of exactly the KV rows (and recurrent state) the request would attend to."""
from common import *
import logging, types
logging.disable(logging.CRITICAL)
import torch
import zmq
from pymllm.engine.forward_batch import ForwardMode
from pymllm.engine.io_struct import TokenizedGenerateReqInput
from pymllm.orchestrator import scheduler_process as SP
from pymllm.orchestrator.model_runner_process import ModelRunnerProcess
from pymllm.mem_cache.memory_pool import ReqToTokenPool, TokenToKVPoolAllocator, GDNPool
from pymllm.executor.model_runner import ModelRunner

M = (1 << 61) - 1
VOCAB = 11


def kv_of(prev, tok):
    return (prev * 1000003 + tok * 7919 + 12345) % M


def st_of(s, tok):
    return (s * 31 + tok + 1) % 999983


def pick(rows, state):
    h = 17
    for r in rows:
        h = (h * 1000033 + r) % M
    return (h ^ (h >> 7) ^ (state * 2654435761)) % VOCAB


def reference(prompt, n_max, stop, hybrid):
    """tokens the request gets when it is served alone, without any cache"""
    rows, p, s = [], 0, 0
    for t in prompt:
        p = kv_of(p, t)
        rows.append(p)
        s = st_of(s, t)
    out = []
    while True:
        t = pick(rows, s if hybrid else 0)
        out.append(t)
        if t in stop:
            return out, "eos"
        if len(out) >= n_max:
            return out, "length"
        p = kv_of(p, t)
        rows.append(p)
        s = st_of(s, t)


class Runner:
    """what ModelRunnerProcess needs from the ModelRunner; batch preparation and sampling are the real methods"""
    prepare_forward_batch_extend = ModelRunner.prepare_forward_batch_extend
    prepare_forward_batch_decode = ModelRunner.prepare_forward_batch_decode
    sample = ModelRunner.sample
    attn_backend = None

    def __init__(self, c):
        self.device = "cpu"
        self.num_gdn_layers = 1 if c["hybrid"] else 0
        self.sliding_window_size = c.get("window")
        self.req_to_token_pool = ReqToTokenPool(c["max_reqs"], c["max_ctx"], device="cpu")
        self.token_to_kv_pool = None
        self.token_to_kv_pool_allocator = TokenToKVPoolAllocator(c["kv"], device="cpu", page_size=1, need_sort=c["sort"])
        self.gdn_pool = GDNPool(c["max_reqs"], 1, 1, 1, 1, 1, 2, device="cpu", max_track_slots=c["track"]) if c["hybrid"] else None
        self.rows = {}
        self.steps = 0

    def forward(self, fb):
        self.steps += 1
        ext = fb.forward_mode == ForwardMode.EXTEND
        B = fb.batch_size
        seq, pool = fb.seq_lens.tolist(), fb.req_pool_indices.tolist()
        check(len(set(pool)) == len(pool), "two requests of one batch share request slot")
        ids, loc, pos = fb.input_ids.tolist(), fb.out_cache_loc.tolist(), fb.positions.tolist()
        n_new = fb.extend_seq_lens.tolist() if ext else [1] * B
        pre = fb.extend_prefix_lens.tolist() if ext else [s - 1 for s in seq]
        check(len(ids) == len(loc) == len(pos) == sum(n_new), "batch of %d tokens has %d KV slots, %d positions" % (len(ids), len(loc), len(pos)))
        check(len(set(loc)) == len(loc), "two tokens of a batch write the same KV slot")
        check(fb.seq_lens_sum == sum(seq) and fb.seq_lens_cpu.tolist() == seq, "seq_lens metadata")
        if ext:
            st = [sum(n_new[:i]) for i in range(B)]
            check(fb.extend_start_loc.tolist() == st, "extend_start_loc %s, expected %s" % (fb.extend_start_loc.tolist(), st))
        logits = torch.zeros(B, VOCAB)
        off = 0
        for i in range(B):
            check(n_new[i] >= 1, "request with an empty extend")
            check(pre[i] + n_new[i] == seq[i], "prefix %d + new %d != sequence length %d" % (pre[i], n_new[i], seq[i]))
            table = self.req_to_token_pool.req_to_token[pool[i], :seq[i]].tolist()
            check(table[pre[i]:] == loc[off:off + n_new[i]], "new KV slots are not what the request table says")
            check(pos[off:off + n_new[i]] == list(range(pre[i], seq[i])), "token positions %s, expected from %d" % (pos[off:off + n_new[i]], pre[i]))
            p = self.rows[table[pre[i] - 1]] if pre[i] else 0
            s = int(self.gdn_pool.recurrent_state[0, pool[i]].item()) if self.gdn_pool is not None else 0
            for k in range(n_new[i]):
                t = ids[off + k]
                p = kv_of(p, t)
                s = st_of(s, t)
                self.rows[loc[off + k]] = p
            if self.gdn_pool is not None:
                self.gdn_pool.recurrent_state[0, pool[i]] = float(s)
            off += n_new[i]
            logits[i, pick([self.rows[x] for x in table], s if self.gdn_pool is not None else 0)] = 1.0
        return types.SimpleNamespace(next_token_logits=logits)

    def shutdown(self):
        pass


class Done(Exception):
    pass


class Sock:
    def __init__(self):
        self.inbox, self.sent = [], []

    def recv_pyobj(self, *a):
        return self.inbox.pop(0)

    def send_pyobj(self, o, *a):
        self.sent.append(o)


class Poll:
    def __init__(self, h):
        self.h = h

    def poll(self, timeout=0):
        self.h.tick()
        return [(self.h.rx, zmq.POLLIN)] if self.h.rx.inbox else []


class Harness:
    def __init__(self, c, audit=None):
        self.c = c
        cfg = types.SimpleNamespace(disable_radix_cache=c["cache"] == "none", enable_mamba_cache=c["cache"] == "mamba", radix_cache_page_size=1, decode_log_interval=3)
        self.mr = ModelRunnerProcess(server_config=cfg)
        self.runner = Runner(c)
        self.mr._runner = self.runner
        self.mr._radix_cache = self.mr._create_prefix_cache()
        self.sp = SP.SchedulerProcess("x", "y", server_config=cfg, max_running_requests=c["max_run"], max_prefill_tokens=c["max_prefill"],
                                      max_total_tokens=c["max_total"], eos_token_ids=c["eos"], default_max_new_tokens=c["dflt_new"])
        self.sp._model_runner = self.mr
        self.rx, self.tx = Sock(), Sock()
        self.sp._recv_from_tokenizer, self.sp._send_to_detokenizer, self.sp._poller = self.rx, self.tx, Poll(self)
        self.sp._idle_sleeper = types.SimpleNamespace(sleep=self.idle)
        self.step = 0
        self.last = -1
        self.todo = sorted(c["arrivals"], key=lambda a: a["at"])
        self.aborts = sorted(c["aborts"], key=lambda a: a[0])
        self.aborted = set()
        self.audit = audit
        rb, pr = self.sp.run_batch, self.sp.process_batch_result

        def run_batch(batch):
            if self.audit:
                self.audit(self, batch)
            return rb(batch)
        self.sp.run_batch = run_batch

    def tick(self):
        # called by every poll; a step starts when the inbox is empty
        if self.rx.inbox or self.runner.steps == self.last:
            return
        self.last = self.runner.steps
        self.step += 1
        if self.step > 3000:
            raise Fail("requests still unserved after 3000 scheduling steps")
        self.inject()

    def inject(self):
        while self.todo and self.todo[0]["at"] <= self.step:
            a = self.todo.pop(0)
            sp = dict(temperature=0.0)
            if a["max_new"] is not None:
                sp["max_new_tokens"] = a["max_new"]
            if a["stop"]:
                sp["stop_token_ids"] = list(a["stop"])
            self.rx.inbox.append(TokenizedGenerateReqInput(rid=a["rid"], input_ids=list(a["ids"]), sampling_params=sp, stream=a["stream"]))
        while self.aborts and self.aborts[0][0] <= self.step:
            rid = self.aborts.pop(0)[1]
            if any(x["rid"] == rid for x in self.c["arrivals"]) and not any(x["rid"] == rid for x in self.todo):
                self.aborted.add(rid)
                self.rx.inbox.append({"rid": rid, "abort": True})

    def idle(self):
        if self.todo or self.aborts:
            self.step = max(self.step, min([a["at"] for a in self.todo] + [a[0] for a in self.aborts]))
            self.inject()
            if self.rx.inbox or self.todo or self.aborts:
                return
        if self.rx.inbox:
            return
        raise Done()

    def go(self):
        try:
            self.sp.event_loop()
        except Done:
            self.sp.stream_output()


def gen_case(rng, i, abort=True):
    cache = rng.choice(["radix"] * 5 + ["none", "mamba"])
    hybrid = rng.random() < 0.3
    window = rng.randint(1, 6) if cache == "radix" and not hybrid and rng.random() < 0.25 else None
    alpha = rng.choice([1, 2, 4])
    max_new = rng.choice([1, 2, 4, 7])
    max_len = rng.choice([4, 8, 12])
    max_run = rng.choice([1, 2, 3, 5])
    seen, arr = [], []
    for k in range(rng.randint(1, 8)):
        if seen and rng.random() < 0.6:
            b = rng.choice(seen)
            ids = b[:rng.randint(0, len(b))] + [rng.randint(0, alpha) for _ in range(rng.randint(0, 3))]
        else:
            ids = [rng.randint(0, alpha) for _ in range(rng.randint(1, max_len))]
        ids = ids[:max_len] or [0]
        seen.append(ids)
        arr.append({"rid": "r%d" % k, "at": rng.randint(0, 12), "ids": ids, "max_new": rng.choice([None, max_new, rng.randint(1, max_new)]),
                    "stop": [rng.randint(0, VOCAB - 1)] if rng.random() < 0.3 else [], "stream": rng.random() < 0.5})
    aborts = [[rng.randint(0, 14), "r%d" % rng.randint(0, 7)] for _ in range(rng.choice([0, 0, 1, 2]))] if abort else []
    per = max_len + max_new + 1
    need = max_run * per
    kv = need + rng.choice([0, 1, 3, 10, 40])
    return {"cache": cache, "hybrid": hybrid, "window": window, "arrivals": arr, "aborts": aborts, "max_run": max_run, "max_reqs": max_run + rng.randint(0, 2),
            "max_ctx": per + 2, "kv": kv, "sort": rng.random() < 0.5, "track": rng.choice([max_run, max_run, 2 * max_run, 0]), "max_prefill": max(max_len, rng.choice([1, 8, 64])),
            "max_total": rng.choice([need, need, 2 * max_len, max_len]), "eos": [rng.randint(0, VOCAB - 1)] if rng.random() < 0.5 else [], "dflt_new": max_new,
            "_shrink": ["arrivals", "aborts"]}


def outputs(h):
    """rid -> (stream chunks, final messages)"""
    chunks, final = {}, {}
    for o in h.tx.sent:
        for rid in o["rids"]:
            (final if o["finished_reasons"][0] is not None else chunks).setdefault(rid, []).append(o)
    return chunks, final


def want(h, a):
    stop = set(a["stop"]) | set(h.c["eos"])
    n = a["max_new"] if a["max_new"] is not None else h.c["dflt_new"]
    return reference(a["ids"], n, stop, h.c["hybrid"])
