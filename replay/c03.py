from radix import *


def gen(rng, i):
    page = rng.choice([1, 1, 1, 2, 3, 4])
    alpha = rng.choice([1, 1, 2, 5])
    seen, ops = [], []
    for _ in range(rng.randint(1, 30)):
        k = rng.random()
        key = rand_key(rng, alpha, 14, seen, page)
        ns = rng.choice([None, None, None, "a", "b", ""])
        if k < 0.5:
            ops.append(["insert", ns, key])
            seen.append(key)
        elif k < 0.85:
            ops.append(["match", ns, key])
        elif k < 0.97:
            ops.append(["evict", rng.randint(1, 12)])
        else:
            ops.append(["reset"])
    return {"page": page, "ops": ops, "pool": rng.random() < 0.7, "hash": rng.random() < 0.3}


def probe(cache, m, page, ns, key):
    r = cache.match_prefix(RadixKey(list(key), ns))
    full = len(key) // page * page
    syms = symbols(key[:full], page)
    k = m.longest(ns, syms)
    want = m.slots(ns, syms[:k])
    got = r.indices.tolist()
    check(r.prefix_len == len(got), "prefix_len %d but %d indices" % (r.prefix_len, len(got)))
    check(got == want, "lookup of %s in namespace %r returned KV slots %s, cached prefix has %s" % (key, ns, got, want))
    node, path = r.last_node, []
    while node is not cache.root_node:
        path = list(node.key.token_ids) + path
        node = node.parent
    check(path == list(key[:len(got)]), "last_node spells %s, matched prefix is %s" % (path, key[:len(got)]))


def run(c):
    page = c["page"]
    pool = Pool()
    cache = RadixCache(page_size=page, token_to_kv_pool_allocator=pool if c["pool"] else None)
    m = Model(page)
    keys = []
    for op in c["ops"]:
        if op[0] == "insert":
            ns, key = op[1], op[2]
            val = pool.take(len(key))
            r = cache.insert(RadixKey(list(key), ns), val)
            want = m.insert(ns, key, val.tolist())
            val.fill_(-7)       # the caller's buffer is its own
            check(r.prefix_len == want, "insert of %s reported %d tokens already cached, expected %d" % (key, r.prefix_len, want))
            node, path = r.last_node, []
            while node is not None and node is not cache.root_node:
                path = list(node.key.token_ids) + path
                node = node.parent
            check(len(path) >= len(key) // page * page and path == list(key[:len(path)]), "last_node of insert(%s) spells %s" % (key, path))
            keys.append((ns, key))
        elif op[0] == "match":
            probe(cache, m, page, op[1], op[2])
            keys.append((op[1], op[2]))
        elif op[0] == "evict":
            before = len(pool.freed)
            r = cache.evict(op[1])
            if c["pool"]:
                gone = set(pool.freed[before:])
                m.e = {k: v for k, v in m.e.items() if not (set(v[0]) & gone)}
            else:
                live = {x for n in nodes(cache) for x in n.value.tolist()}
                m.e = {k: v for k, v in m.e.items() if set(v[0]) <= live}
        elif op[0] == "reset":
            cache.reset()
            m = Model(page)
        for ns, key in keys[-6:]:
            probe(cache, m, page, ns, key)
    if c["hash"]:
        for n in nodes(cache):
            if n is not cache.root_node and n.parent is not None:
                cache.compute_node_hash(n)


# ---- sliding-window mode ----------------------------------------------------
def gen_swa(rng, i):
    alpha = rng.choice([1, 2])
    seen, ops = [], []
    for _ in range(rng.randint(1, 16)):
        key = rand_key(rng, alpha, 10, seen, 1)
        k = rng.random()
        if k < 0.6:
            ops.append(["insert", key])
            seen.append(key)
        elif k < 0.8:
            ops.append(["match", key])
        else:
            ops.append(["evict", rng.choice([0, 0, rng.randint(1, 6)]), rng.randint(0, 8)])
    return {"win": rng.randint(1, 5), "ops": ops}


def run_swa(c):
    """sliding-window lookups: every returned slot was stored for exactly that token prefix and is still held, and the tail window is not tombstoned"""
    pool = Pool()
    cache = RadixCache(sliding_window_size=c["win"], token_to_kv_pool_allocator=pool)
    ctx = {}            # slot -> token prefix it was computed for
    for op in c["ops"]:
        if op[0] == "insert":
            key = op[1]
            val = pool.take(len(key))
            for j, x in enumerate(val.tolist()):
                ctx[x] = tuple(key[:j + 1])
            cache.insert(RadixKey(list(key)), val)
        elif op[0] == "evict":
            cache.evict(op[1], op[2])
        else:
            key = op[1]
            r = cache.match_prefix(RadixKey(list(key)))
            got = r.indices.tolist()
            check(r.prefix_len == len(got) <= len(key), "prefix_len")
            for j, x in enumerate(got):
                check(ctx[x] == tuple(key[:j + 1]), "KV slot computed for prefix %s returned for %s" % (ctx[x], key[:j + 1]))
                check(x in pool.out, "freed KV slot %d returned by a lookup" % x)
            dead = set(pool.swa_freed)
            tail = got[-c["win"]:]
            if dead & set(got):
                check(not dead & set(tail), "matched prefix %s has tombstoned slots %s inside the last %d tokens" % (key[:len(got)], sorted(dead & set(tail)), c["win"]))


main("C03", [("radix lookups", gen, run, 1500, 20000), ("sliding window lookups", gen_swa, run_swa, 800, 8000)])
