from radix import *


def gen(rng, i):
    page = rng.choice([1, 1, 1, 2, 3])
    alpha = rng.choice([1, 1, 2])
    seen, ops = [], []
    for _ in range(rng.randint(1, 32)):
        k = rng.random()
        key = rand_key(rng, alpha, 12, seen, page)
        ns = rng.choice([None, None, None, "a", ""])
        if k < 0.45:
            ops.append(["insert", ns, key])
            seen.append(key)
        elif k < 0.6:
            ops.append(["match", ns, key])
        elif k < 0.75:
            ops.append(["lock", ns, key])
        elif k < 0.85:
            ops.append(["unlock", rng.randint(0, 99)])
        elif k < 0.98:
            ops.append(["evict", rng.choice([1, 1, 2, 3, 6, 100])])
        else:
            ops.append(["reset"])
    return {"page": page, "ops": ops}


def audit(cache, m, where):
    un, lk = m.size(lambda l: l == 0), m.size(lambda l: l > 0)
    check(cache.evictable_size() == un, "after %s: evictable_size %d, unlocked cached tokens %d" % (where, cache.evictable_size(), un))
    check(cache.protected_size() == lk, "after %s: protected_size %d, locked cached tokens %d" % (where, cache.protected_size(), lk))
    check(cache.total_size() == un + lk, "after %s: total_size %d, cached tokens %d" % (where, cache.total_size(), un + lk))


def run(c):
    page = c["page"]
    pool = Pool()
    evs = []
    cache = RadixCache(page_size=page, token_to_kv_pool_allocator=pool, on_node_evict=evs.append)
    m = Model(page)
    locks = []
    for op in c["ops"]:
        if op[0] == "insert":
            ns, key = op[1], op[2]
            val = pool.take(len(key))
            r = cache.insert(RadixKey(list(key), ns), val)
            m.insert(ns, key, val.tolist())
            dup = [x for x in val.tolist()[:r.prefix_len]]
            pool.free(torch.tensor(dup, dtype=torch.int64))
            pool.freed.clear()
        elif op[0] in ("match", "lock"):
            ns, key = op[1], op[2]
            r = cache.match_prefix(RadixKey(list(key), ns))
            if op[0] == "lock":
                syms = symbols(key[:r.prefix_len], page)
                tok = cache.inc_lock_ref(r.last_node)
                m.lock(ns, syms, 1)
                locks.append((r.last_node, tok, ns, syms))
        elif op[0] == "unlock" and locks:
            node, tok, ns, syms = locks.pop(op[1] % len(locks))
            cache.dec_lock_ref(node, tok)
            m.lock(ns, syms, -1)
        elif op[0] == "evict":
            un = m.size(lambda l: l == 0)
            pool.freed.clear()
            nev = len(evs)
            ids = {n.id: list(n.value.tolist()) for n in nodes(cache) if n is not cache.root_node}
            r = cache.evict(op[1])
            gone = set(pool.freed)
            check(r.full_evicted == len(gone), "evict reported %d tokens, freed %d" % (r.full_evicted, len(gone)))
            check(r.full_evicted >= min(op[1], un), "evict(%d) freed %d tokens although %d are unlocked" % (op[1], r.full_evicted, un))
            left = {k: v for k, v in m.e.items() if not (set(v[0]) & gone)}
            for k, v in m.e.items():
                if k not in left:
                    check(v[1] == 0, "evict freed tokens of the locked prefix %s" % (k,))
                    check(set(v[0]) <= gone, "page freed partially")
                else:
                    check(all((k[0], k[1][:j]) in left for j in range(1, len(k[1]))), "evict removed a prefix of %s but kept the rest" % (k,))
            m.e = left
            cb = [x for i in evs[nev:] for x in ids.get(i, [None])]
            check(sorted(map(str, cb)) == sorted(map(str, gone)), "eviction callbacks name the wrong nodes")
        elif op[0] == "reset":
            cache.reset()
            m = Model(page)
            locks = []
        audit(cache, m, op[0])
        live = {x for n in nodes(cache) if n.value is not None for x in n.value.tolist()}
        want = {x for v in m.e.values() for x in v[0]}
        check(live == want, "tree holds KV slots %s, expected %s" % (sorted(live), sorted(want)))
        check(live <= pool.out, "tree holds freed KV slots %s" % sorted(live - pool.out))
    for node, tok, ns, syms in locks:
        cache.dec_lock_ref(node, tok)
        m.lock(ns, syms, -1)
    audit(cache, m, "releasing all locks")
    pool.freed.clear()
    cache.evict(10 ** 6)
    check(cache.evictable_size() == 0 == cache.total_size() == cache.protected_size(), "cache not empty after evicting everything")
    check(set(pool.freed) == {x for v in m.e.values() for x in v[0]}, "evicting everything did not free every cached slot")


def gen_swa(rng, i):
    alpha = rng.choice([1, 2])
    seen, ops = [], []
    for _ in range(rng.randint(1, 14)):
        key = rand_key(rng, alpha, 9, seen, 1)
        k = rng.random()
        if k < 0.45:
            ops.append(["insert", key])
            seen.append(key)
        elif k < 0.6:
            ops.append(["lock", key])
        elif k < 0.75:
            ops.append(["unlock", rng.randint(0, 99)])
        else:
            ops.append(["evict", rng.choice([0, 0, rng.randint(1, 5)]), rng.randint(0, 6)])
    return {"win": rng.randint(1, 4), "ops": ops}


def run_swa(c):
    pool = Pool()
    cache = RadixCache(sliding_window_size=c["win"], token_to_kv_pool_allocator=pool)
    locks = []
    for op in c["ops"]:
        if op[0] == "insert":
            key = op[1]
            cache.insert(RadixKey(list(key)), pool.take(len(key)))
        elif op[0] == "lock":
            r = cache.match_prefix(RadixKey(list(op[1])))
            locks.append((r.last_node, cache.inc_lock_ref(r.last_node), r.indices.tolist()))
        elif op[0] == "unlock" and locks:
            n, t, _ = locks.pop(op[1] % len(locks))
            cache.dec_lock_ref(n, t)
        elif op[0] == "evict":
            cache.evict(op[1], op[2])
        ns = [n for n in nodes(cache) if n is not cache.root_node]
        full = lambda p: sum(len(n.value) for n in ns if p(n))
        check(cache.evictable_size() == full(lambda n: n.lock_ref == 0), "evictable_size %d after %s" % (cache.evictable_size(), op[0]))
        check(cache.protected_size() == full(lambda n: n.lock_ref > 0), "protected_size after %s" % op[0])
        check(cache.swa_evictable_size() == full(lambda n: n.swa_lock_ref == 0 and not n.swa_tombstone),
              "swa_evictable_size %d, unlocked live window tokens %d after %s" % (cache.swa_evictable_size(), full(lambda n: n.swa_lock_ref == 0 and not n.swa_tombstone), op[0]))
        check(cache.swa_protected_size() == full(lambda n: n.swa_lock_ref > 0), "swa_protected_size %d after %s" % (cache.swa_protected_size(), op[0]))
        live = [x for n in ns for x in n.value.tolist()]
        check(len(set(live)) == len(live) and set(live) <= pool.out, "tree holds freed or repeated KV slots after %s" % op[0])
        for n, t, idx in locks:
            check(set(idx) <= set(live), "locked KV slots %s left the cache after %s" % (sorted(set(idx) - set(live)), op[0]))
        sw = {x for n in ns if n.swa_tombstone for x in n.value.tolist()}
        check(all((x in sw) == (x in pool.swa_freed) for x in live), "tombstone flags disagree with the freed window slots after %s" % op[0])


main("C04", [("radix accounting", gen, run, 1500, 20000), ("sliding window accounting", gen_swa, run_swa, 600, 6000)])
