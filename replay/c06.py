"""C06: admission and token budget of the real SchedulerProcess, against an independent recount after every step."""
from common import *
import copy, logging, types
logging.disable(logging.CRITICAL)
from pymllm.orchestrator import scheduler_process as SP
from pymllm.engine.forward_batch import ForwardMode
from pymllm.engine.io_struct import TokenizedGenerateReqInput


class Model:
    def __init__(self):
        self.freed = []

    def _free_rid_resources(self, rid):
        self.freed.append(rid)


def gen(rng, i):
    n = rng.randint(1, 9)
    c = {"max_run": rng.choice([1, 2, 3, 6]), "max_prefill": rng.choice([4, 8, 20]), "max_total": rng.choice([6, 12, 30, 80]),
         "eos": rng.choice([[], [1]]), "interval": rng.choice([0, 1, 2]),
         "arrivals": [{"at": rng.randint(0, 8), "rid": "r%d" % k, "n": rng.randint(1, 9), "new": rng.choice([0, 1, 2, 3, 5]), "stream": rng.random() < 0.5} for k in range(n)],
         "aborts": [[rng.randint(0, 12), "r%d" % rng.randint(0, n - 1)] for _ in range(rng.choice([0, 0, 1, 2]))], "seed": rng.randint(0, 10 ** 9),
         "mode": rng.choice(["outputs", "split", "int", "multi"]), "_shrink": ["arrivals", "aborts"]}
    return c


def audit(sp, where):
    """recount everything the scheduler says it occupies"""
    R, P = sp._running_batch, sp._pending_queue
    want = sum(len(r.input_ids) + len(r.output_ids) - r.prefix_len for r in R)
    check(sp._used_tokens == want, "%s: token budget in use is %d, the running requests occupy %d" % (where, sp._used_tokens, want))
    ids = [id(r) for r in R] + [id(r) for r in P]
    check(len(set(ids)) == len(ids), "%s: a request is queued or running twice" % where)
    for r in R:
        check(r.seq_len == len(r.input_ids) + len(r.output_ids), "%s: seq_len %d of a request with %d prompt and %d generated tokens" % (where, r.seq_len, len(r.input_ids), len(r.output_ids)))


def run(c):
    rng = random.Random(c["seed"])
    sp = SP.SchedulerProcess("x", "y", server_config=types.SimpleNamespace(decode_log_interval=c["interval"]), max_running_requests=c["max_run"], max_prefill_tokens=c["max_prefill"],
                             max_total_tokens=c["max_total"], eos_token_ids=c["eos"], default_max_new_tokens=3)
    sp._model_runner = Model()
    todo = sorted(c["arrivals"], key=lambda a: a["at"])
    out = {}
    for step in range(200):
        for a in [a for a in todo if a["at"] <= step]:
            todo.remove(a)
            sp._waiting_queue.append(TokenizedGenerateReqInput(rid=a["rid"], input_ids=[rng.randint(2, 9) for _ in range(a["n"])], stream=a["stream"],
                                                               sampling_params={"max_new_tokens": a["new"]}))
        sp.process_input_requests()
        for at, rid in c["aborts"]:
            if at == step:
                sp._abort_request(rid)
        P0, R0 = list(sp._pending_queue), list(sp._running_batch)
        dead = [r for r in R0 if r.finished_reason is not None]
        audit(sp, "before scheduling")
        b = sp.get_next_batch_to_run()
        new = list(b.reqs) if b is not None and b.forward_mode == ForwardMode.EXTEND else []
        R, P = sp._running_batch, sp._pending_queue
        check(sorted(id(r) for r in R) == sorted(id(r) for r in R0 if r not in dead), "scheduling changed which unfinished requests run")
        check(sorted(x.rid for x in dead) == sorted(sp._model_runner.freed), "resources of the finished requests were not released exactly once")
        sp._model_runner.freed = []
        charge = lambda q: len(q.input_ids) + len(q.output_ids) - q.prefix_len
        used = sum(charge(q) for q in R) + sum(charge(q) for q in new)
        check(sp._used_tokens == used, "after admission the budget in use is %d, admitted requests occupy %d" % (sp._used_tokens, used))
        check(sorted(map(id, P0)) == sorted(map(id, P + new)), "a pending request was lost, duplicated or invented by admission")
        if new:
            check(len(R) + len(new) <= c["max_run"], "%d requests admitted to run, limit %d" % (len(R) + len(new), c["max_run"]))
            check(used <= c["max_total"], "admission takes %d tokens, limit max_total_tokens %d" % (used, c["max_total"]))
            check(sum(len(q.input_ids) for q in new) <= c["max_prefill"], "prefill batch of %d tokens, limit %d" % (sum(len(q.input_ids) for q in new), c["max_prefill"]))
        left = c["max_prefill"] - sum(len(q.input_ids) for q in new)
        for q in P:
            check(len(R) + len(new) >= c["max_run"] or used + len(q.input_ids) > c["max_total"] or len(q.input_ids) > left, "request %s is kept waiting although it fits" % q.rid)
        check((b is None) == (not R and not new), "no batch although requests are ready, or a batch out of nothing")
        if b is None:
            if not todo:
                break
            continue
        check(len(b.reqs) > 0, "empty batch")
        if b.forward_mode == ForwardMode.DECODE:
            check(sorted(id(r) for r in b.reqs) == sorted(id(r) for r in R), "decode batch is not the set of running requests")
        # what the model runner reports
        outs = []
        before = {q.rid: (list(q.output_ids), q.prefix_len) for q in b.reqs}
        for q in b.reqs:
            toks = [rng.randint(0, 9)]
            if c["mode"] == "multi":
                toks = [rng.randint(0, 9) for _ in range(rng.randint(0, 3))]
            o = {"rid": q.rid, "output_token_ids": toks[0] if c["mode"] == "int" else toks}
            if new:
                o["prefix_len"] = rng.randint(0, len(q.input_ids))
            outs.append(o)
            out[q.rid] = toks
        prefix = {o["rid"]: o.get("prefix_len", 0) for o in outs}
        if c["mode"] == "split":
            res = {"finished": outs[::2], "unfinished": outs[1::2]}
        else:
            res = {"outputs": outs}
        nfin = len(sp._finished)
        sp.process_batch_result(b, res)
        for q in b.reqs:
            check(q.output_ids == before[q.rid][0] + out[q.rid], "generated tokens of %s not appended exactly once" % q.rid)
            if new:
                check(q.prefix_len == prefix[q.rid], "reused prefix of %s is %d, reported %d" % (q.rid, q.prefix_len, prefix[q.rid]))
        done = [q for q in b.reqs if q.finished_reason is not None]
        audit(sp, "after the step")
        exp = ([] if b.forward_mode == ForwardMode.DECODE else R) and list(R0 and [r for r in R0 if r not in dead]) or []
        exp = exp + [q for q in b.reqs if q.finished_reason is None]
        check(sorted(id(r) for r in sp._running_batch) == sorted(id(r) for r in exp), "running requests after the step are %s, expected %s" % ([r.rid for r in sp._running_batch], [r.rid for r in exp]))
        check(sorted(sp._model_runner.freed) == sorted(q.rid for q in done), "model resources released for %s, finished %s" % (sp._model_runner.freed, [q.rid for q in done]))
        sp._model_runner.freed = []
        check(sorted(x["rids"][0] for x in list(sp._finished)[nfin:]) == sorted(q.rid for q in done), "finished outputs collected for the wrong requests")
        check(sorted(map(id, sp._pending_queue)) == sorted(map(id, P)), "processing results changed the pending queue")


if __name__ == "__main__":
    main("C06", [("scheduling histories", gen, run, 3000, 60000)])
