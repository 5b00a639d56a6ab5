from serve import *


def audit(h, batch):
    r = h.runner
    al = r.token_to_kv_pool_allocator
    free = al.free_slots.tolist() + al.release_slots.tolist()
    check(len(free) == len(set(free)), "a KV slot is free twice")
    fs = set(free)
    tree = []
    if hasattr(h.mr._radix_cache, "root_node"):
        st = [h.mr._radix_cache.root_node]
        while st:
            n = st.pop()
            if n.value is not None:
                tree += n.value.tolist()
            st.extend(n.children.values())
    check(len(tree) == len(set(tree)), "the prefix cache holds a KV slot twice")
    check(not fs & set(tree), "KV slots %s are both free and cached" % sorted(fs & set(tree)))
    for rid, slot in h.mr._rid_to_req_pool_idx.items():
        req = [q for q in h.sp._running_batch if q.rid == rid]
        if not req:
            continue
        used = r.req_to_token_pool.req_to_token[slot, :req[0].seq_len - 1].tolist()
        check(not fs & set(used), "running request %s reads freed KV slots %s" % (rid, sorted(fs & set(used))))
        check(len(set(used)) == len(used), "running request uses a KV slot for two positions")


def run(c):
    h = Harness(c, audit)
    h.go()
    chunks, final = outputs(h)
    for a in c["arrivals"]:
        if a["rid"] in h.aborted:
            continue
        out, why = want(h, a)
        got = final.get(a["rid"])
        check(bool(got), "request %s never finished" % a["rid"])
        check(got[0]["output_ids"] == out, "request %s (prompt %s) generated %s; served alone without a cache it generates %s" % (a["rid"], a["ids"], got[0]["output_ids"], out))
    r, cache, al = h.runner, h.mr._radix_cache, h.runner.token_to_kv_pool_allocator
    check(r.req_to_token_pool.available_size() == c["max_reqs"], "request slots leaked: %d of %d free after all requests finished" % (r.req_to_token_pool.available_size(), c["max_reqs"]))
    check(cache.protected_size() == 0, "%d cached tokens stay locked after all requests finished" % cache.protected_size())
    check(al.available_size() + cache.total_size() == c["kv"], "KV slots lost: %d free + %d cached of %d" % (al.available_size(), cache.total_size(), c["kv"]))
    for d in ("_rid_to_req_pool_idx", "_rid_to_kv_indices", "_rid_to_input_ids", "_rid_to_output_ids", "_rid_to_radix_lock"):
        check(not getattr(h.mr, d), "per-request state left in %s" % d)
    cache.evict(10 ** 6)
    check(al.available_size() == c["kv"], "after evicting the cache %d of %d KV slots are free" % (al.available_size(), c["kv"]))
    free = al.free_slots.tolist() + al.release_slots.tolist()
    check(sorted(free) == list(range(1, c["kv"] + 1)), "free KV slots are not exactly 1..size")
    if r.gdn_pool is not None:
        fr = r.gdn_pool._free_track_slots
        check(len(set(fr)) == len(fr), "state track slot free twice")
        check(len(fr) == c["track"], "state track slots leaked: %d of %d free" % (len(fr), c["track"]))


# ------------------------------------------------------------------ the runner's bookkeeping driven directly, with scarce slots
def gen_scarce(rng, i):
    ops, n = [], 0
    alpha = rng.choice([1, 2])
    seen = []
    for _ in range(rng.randint(2, 16)):
        w = rng.random()
        if w < 0.5:
            batch = []
            for _ in range(rng.randint(1, 3)):
                b = rng.choice(seen)[:rng.randint(0, 10)] if seen and rng.random() < 0.7 else []
                ids = (b + [rng.randint(0, alpha) for _ in range(rng.randint(0 if b else 1, 4))])[:12]
                seen.append(ids)
                batch.append(["r%d" % n, ids])
                n += 1
            ops.append(["prefill", batch])
        elif w < 0.8:
            ops.append(["decode", rng.random()])
        else:
            ops.append(["finish", rng.random()])
    return {"cache": rng.choice(["radix", "radix", "radix", "none"]), "kv": rng.randint(4, 30), "max_reqs": rng.randint(2, 5), "ops": ops, "max_ctx": 40, "hybrid": False, "sort": rng.random() < 0.5,
            "track": 0, "_shrink": ["ops"]}


def run_scarce(c):
    mr = ModelRunnerProcess(server_config=types.SimpleNamespace(disable_radix_cache=c["cache"] == "none", enable_mamba_cache=False, radix_cache_page_size=1, decode_log_interval=3))
    r = Runner(c)
    mr._runner, mr._radix_cache = r, None
    mr._radix_cache = mr._create_prefix_cache()
    live, outs = {}, {}
    al, cache = r.token_to_kv_pool_allocator, mr._radix_cache
    content = {}

    def row(rid, n):
        return r.req_to_token_pool.req_to_token[mr._rid_to_req_pool_idx[rid], :n].tolist()

    def fill(rid, lo, hi):
        # each KV slot holds a hash of the token prefix it was computed for
        p = content[row(rid, lo)[-1]] if lo else 0
        for j, s in enumerate(row(rid, hi)[lo:]):
            p = kv_of(p, live[rid][lo + j])
            content[s] = p

    def audit(when):
        free = al.free_slots.tolist() + al.release_slots.tolist()
        check(len(free) == len(set(free)), "%s: a KV slot is free twice" % when)
        tree, locked = [], 0
        if hasattr(cache, "root_node"):
            st = [cache.root_node]
            while st:
                n = st.pop()
                tree += n.value.tolist() if n.value is not None else []
                st.extend(n.children.values())
        used = set(tree)
        check(len(used) == len(tree), "%s: the prefix cache holds a KV slot twice" % when)
        for rid, toks in live.items():
            sl = row(rid, len(toks))
            check(len(set(sl)) == len(sl), "%s: request %s uses a KV slot for two positions" % (when, rid))
            p = 0
            for j, s in enumerate(sl):
                p = kv_of(p, toks[j])
                check(content.get(s) == p, "%s: KV slot %d of request %s position %d holds another prefix's entry" % (when, s, rid, j))
            own = set(sl) - set(tree)
            check(not own & (used - set(tree)), "%s: two requests own a KV slot" % when)
            used |= own
        check(not used & set(free), "%s: KV slots %s are free and in use" % (when, sorted(used & set(free))))
        check(len(used) + len(free) == c["kv"], "%s: KV slots lost: %d free + %d in use of %d" % (when, len(free), len(used), c["kv"]))
        check(r.req_to_token_pool.available_size() == c["max_reqs"] - len(live), "%s: request slots: %d free of %d with %d requests" % (when, r.req_to_token_pool.available_size(), c["max_reqs"], len(live)))
        check(set(mr._rid_to_req_pool_idx) == set(live), "%s: requests holding slots" % when)
        check(set(mr._rid_to_radix_lock) <= set(live), "%s: a lock is recorded for a request that is not running" % when)
        if not live:
            check(cache.protected_size() == 0, "%s: %d cached tokens stay locked with no request running" % (when, cache.protected_size()))

    for k, op in enumerate(c["ops"]):
        when = "op %d %s" % (k, op[0])
        if op[0] == "prefill":
            batch = [(rid, ids) for rid, ids in op[1] if ids]
            if not batch:
                continue
            meta = [{"rid": rid, "input_ids": list(ids)} for rid, ids in batch]
            try:
                loc, pre, ext = mr._allocate_extend({"batch_size": len(meta), "seq_lens": [len(m["input_ids"]) for m in meta]}, meta)
            except RuntimeError:
                audit(when + " (out of slots)")
                continue
            check(len(loc) == sum(ext) and len(pre) == len(ext) == len(batch), when + ": sizes")
            off = 0
            for (rid, ids), p, e in zip(batch, pre, ext):
                check(p + e == len(ids) and e >= 1, when + ": prefix + new = prompt")
                live[rid] = list(ids)
                check(row(rid, len(ids))[p:] == loc[off:off + e].tolist(), when + ": new slots in the request's row")
                fill(rid, p, len(ids))
                off += e
            audit(when)
            mr._insert_into_radix_cache(meta)
            for rid, ids in batch:
                mr._rid_to_output_ids[rid].append(1)
        elif op[0] == "decode" and live:
            rids = sorted(live)[: 1 + int(op[1] * len(live))]
            try:
                loc = mr._allocate_decode({"batch_size": len(rids), "seq_lens": [len(live[x]) + 1 for x in rids]}, [{"rid": x} for x in rids])
            except RuntimeError:
                audit(when + " (out of slots)")
                continue
            check(len(loc) == len(rids), when + ": one slot per request")
            for x, s in zip(rids, loc.tolist()):
                live[x].append(mr._rid_to_output_ids[x][-1])
                check(row(x, len(live[x]))[-1] == s, when + ": the new slot is at the request's next position")
                fill(x, len(live[x]) - 1, len(live[x]))
                mr._rid_to_output_ids[x].append(k % 3)
        elif op[0] == "finish" and live:
            x = sorted(live)[int(op[1] * len(live)) % len(live)]
            mr._free_rid_resources(x)
            del live[x]
        audit(when)
    for x in sorted(live):
        mr._free_rid_resources(x)
        del live[x]
    audit("at the end")
    cache.evict(10 ** 6)
    check(al.available_size() == c["kv"], "after evicting the cache %d of %d KV slots are free" % (al.available_size(), c["kv"]))


if __name__ == "__main__":
    main("C14", [("serving histories", gen_case, run, 1200, 12000), ("scarce slots", gen_scarce, run_scarce, 6000, 60000)])
