"""C07: every request's output stream: finish reason, token accounting, streaming chunks, against an independent oracle."""
from serve import *
import copy
from types import SimpleNamespace


def run_serve(c):
    h = Harness(c)
    h.go()
    chunks, final = outputs(h)
    for a in c["arrivals"]:
        rid = a["rid"]
        msgs = [o for o in h.tx.sent if rid in o["rids"]]
        if rid in h.aborted:
            check(len(final.get(rid, [])) <= 1, "aborted request %s has more than one final message" % rid)
            continue
        out, why = want(h, a)
        f = final.get(rid, [])
        check(len(f) == 1, "request %s got %d final messages" % (rid, len(f)))
        check(msgs[-1]["finished_reasons"] == [why], "request %s finished with reason %s, expected %s" % (rid, msgs[-1]["finished_reasons"], why))
        check(a["stream"] or len(msgs) == 1, "non-streaming request %s got intermediate output" % rid)
        got = []
        for o in msgs:
            check(o["rids"] == [rid], "message mixes requests")
            check(o["read_offsets"] == [len(got)], "request %s: read offset %s, %d tokens sent before" % (rid, o["read_offsets"], len(got)))
            got += o["decode_ids"]
            check(o["output_ids"] == got, "request %s: output_ids %s but the chunks sent so far are %s" % (rid, o["output_ids"], got))
            check(o["prompt_tokens"] == [len(a["ids"])], "request %s: prompt_tokens %s for %d prompt tokens" % (rid, o["prompt_tokens"], len(a["ids"])))
            check(o["completion_tokens"] == [len(got)], "request %s: completion_tokens %s, %d tokens generated" % (rid, o["completion_tokens"], len(got)))
        check(got == out, "request %s: streamed tokens %s, generated %s" % (rid, got, out))


def gen_req(rng, i):
    return {"prompt": [rng.randint(0, 5) for _ in range(rng.randint(1, 5))], "max_new": rng.choice([None, 0, 1, 2, 4]), "stop": rng.choice([None, [], [1], [1, 2], [2, 2]]),
            "eos": rng.choice([[], [1], [3, 1]]), "dflt": rng.randint(1, 4), "toks": [[rng.randint(0, 5) for _ in range(rng.choice([0, 1, 1, 2]))] for _ in range(8)],
            "stream": [rng.random() < 0.6 for _ in range(8)], "extra": rng.random() < 0.5, "interval": rng.choice([1, 1, 2, 40]), "_shrink": ["toks"]}


def run_req(c):
    sp = SP.SchedulerProcess("x", "y", server_config=SimpleNamespace(decode_log_interval=c["interval"]), eos_token_ids=list(c["eos"]), default_max_new_tokens=c["dflt"])
    sp._send_to_detokenizer = Sock()
    d = {"temperature": 0.5} if c["extra"] else {}
    if c["max_new"] is not None:
        d["max_new_tokens"] = c["max_new"]
    if c["stop"] is not None:
        d["stop_token_ids"] = list(c["stop"])
    keep = copy.deepcopy(d)
    other = TokenizedGenerateReqInput(rid="b", input_ids=[9], sampling_params=None)
    sp._waiting_queue.append(TokenizedGenerateReqInput(rid="a", input_ids=list(c["prompt"]), sampling_params=d, stream=True))
    sp._waiting_queue.append(other)
    sp.process_input_requests()
    check([r.rid for r in sp._pending_queue] == ["a", "b"] and not sp._waiting_queue, "waiting requests did not all become pending, in order")
    q = sp._pending_queue[0]
    check(d == keep, "the caller's sampling parameters were changed")
    want_stop = set(c["stop"] or []) | set(c["eos"])
    n = c["max_new"] if c["max_new"] is not None else c["dflt"]
    check(set(q.stop_token_ids) == want_stop, "stop tokens %s, expected %s" % (q.stop_token_ids, want_stop))
    check(set(sp._pending_queue[1].stop_token_ids) == set(c["eos"]), "stop tokens of one request leak into another")
    check(sp._eos_token_ids == c["eos"], "model EOS list changed")
    check(q.max_new_tokens == n and sp._pending_queue[1].max_new_tokens == c["dflt"], "max_new_tokens %s, expected %s" % (q.max_new_tokens, n))
    check(q.input_ids == c["prompt"] and q.prompt_len == len(c["prompt"]) == q.seq_len and q.prefix_len == 0 and q.output_ids == [] and q.finished_reason is None, "request starts in a wrong state")
    sp._running_batch = [q]
    sp._pending_queue = []
    sent = []
    for toks, st in zip(c["toks"], c["stream"]):
        q.output_ids.extend(toks)
        q.seq_len += len(toks)
        r = q.check_finished()
        out = q.output_ids
        why = "eos" if out and out[-1] in want_stop else "length" if len(out) >= n else None
        check(q.finished_reason == why and bool(r) == (why is not None), "after %s (limit %d, stop %s) finish reason is %s, expected %s" % (out, n, sorted(want_stop), q.finished_reason, why))
        b = SP.ScheduleBatch([q], ForwardMode.DECODE).to_batch_dict()
        check(b["input_ids"] == [(out or q.input_ids)[-1]] and b["seq_lens"] == [q.seq_len], "decode batch feeds %s" % b["input_ids"])
        if why:
            sp._collect_finished_output(q)
            sp._running_batch = []
        if st or why:
            sp.stream_output()
        for o in sp._send_to_detokenizer.sent:
            check(o["read_offsets"] == [len(sent)], "read offset %s after %d tokens" % (o["read_offsets"], len(sent)))
            sent += o["decode_ids"]
            check(o["output_ids"] == sent == out and o["completion_tokens"] == [len(out)], "streamed %s, generated %s" % (sent, out))
        sp._send_to_detokenizer.sent = []
        if why:
            check(sent == out, "tokens lost at the end of the stream")
            q.output_ids.append(0)
            check(q.check_finished() and q.finished_reason == why, "a finished request changes its reason")
            return


if __name__ == "__main__":
    main("C07", [("request life cycles", gen_req, run_req, 4000, 40000), ("served streams", gen_case, run_serve, 200, 4000)])
