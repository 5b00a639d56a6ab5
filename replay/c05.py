from radix import *
from pymllm.mem_cache.mamba_radix_cache import MambaRadixCache


class MPool:
    def __init__(self):
        self.out, self.n, self.freed = set(), 0, []

    def take(self, k):
        r = list(range(1000 + self.n, 1000 + self.n + k))
        self.n += k
        self.out |= set(r)
        return torch.tensor(r, dtype=torch.int64)

    def free_track_slot(self, s):
        check(s in self.out, "state slot %d freed twice" % s)
        self.out.discard(s)
        self.freed.append(s)


def gen(rng, i):
    page = rng.choice([1, 1, 1, 2, 3])
    alpha = rng.choice([1, 1, 2])
    seen, ops = [], []
    for _ in range(rng.randint(1, 30)):
        k = rng.random()
        key = rand_key(rng, alpha, 10, seen, page)
        if k < 0.45:
            ops.append(["insert", None if rng.random() < 0.8 else "a", key, rng.choice([0, 0, 1, 1, 2, -1])])
            seen.append(key)
        elif k < 0.58:
            ops.append(["match", None, key])
        elif k < 0.75:
            ops.append(["lock", None, key])
        elif k < 0.86:
            ops.append(["unlock", rng.randint(0, 99)])
        else:
            ops.append(["evict", rng.choice([0, 1, 2, 5]), rng.choice([0, 0, 1, 3, 50])])
    return {"page": page, "ops": ops}


def chain(lru, prv, nxt):
    fwd, x = [], getattr(lru.head, nxt)
    while x is not lru.tail:
        check(x is not None and len(fwd) < 10000, "LRU chain broken")
        check(getattr(getattr(x, nxt), prv) is x, "LRU back link broken")
        fwd.append(x)
        x = getattr(x, nxt)
    check(getattr(lru.head, nxt) is x if not fwd else getattr(fwd[0], prv) is lru.head, "LRU head link broken")
    return fwd


def audit(cache, m, pool, mpool, where):
    ns = [n for n in nodes(cache) if n is not cache.root_node]
    un, lk = m.size(lambda l: l == 0), m.size(lambda l: l > 0)
    check(cache.evictable_size() == un, "after %s: evictable_size %d, unlocked cached tokens %d" % (where, cache.evictable_size(), un))
    check(cache.protected_size() == lk, "after %s: protected_size %d, locked cached tokens %d" % (where, cache.protected_size(), lk))
    check(cache.total_size() == un + lk, "after %s: total_size %d of %d" % (where, cache.total_size(), un + lk))
    ml = lambda p: sum(len(n.mamba_value) for n in ns if n.mamba_value is not None and p(n))
    check(cache.mamba_evictable_size() == ml(lambda n: n.mamba_lock_ref == 0),
          "after %s: mamba_evictable_size %d, unlocked state entries %d" % (where, cache.mamba_evictable_size(), ml(lambda n: n.mamba_lock_ref == 0)))
    check(cache.mamba_protected_size() == ml(lambda n: n.mamba_lock_ref > 0),
          "after %s: mamba_protected_size %d, locked state entries %d" % (where, cache.mamba_protected_size(), ml(lambda n: n.mamba_lock_ref > 0)))
    a, b = chain(cache.full_lru, "prev", "next"), chain(cache.mamba_lru, "mamba_prev", "mamba_next")
    check(sorted(n.id for n in a) == sorted(n.id for n in ns) and len(cache.full_lru) == len(ns), "after %s: full LRU list holds %d of %d nodes" % (where, len(a), len(ns)))
    w = [n.id for n in ns if n.mamba_value is not None]
    check(sorted(n.id for n in b) == sorted(w) and len(cache.mamba_lru) == len(w), "after %s: state LRU list holds %d of %d nodes" % (where, len(b), len(w)))
    live = [x for n in ns for x in n.value.tolist()]
    check(len(live) == len(set(live)) and set(live) <= pool.out, "tree holds freed or repeated KV slots")
    check(set(live) == {x for v in m.e.values() for x in v[0]}, "tree holds the wrong KV slots after %s" % where)
    ms = [x for n in ns if n.mamba_value is not None for x in n.mamba_value.tolist()]
    check(len(ms) == len(set(ms)) and set(ms) <= mpool.out, "tree holds freed or repeated state slots after %s" % where)
    for n in ns:
        check(n.full_lock_ref >= n.mamba_lock_ref >= 0, "state locked more often than KV after %s" % where)
    return set(ms)


def run(c):
    page = c["page"]
    pool, mpool = Pool(), MPool()
    cache = MambaRadixCache(page_size=page, token_to_kv_pool_allocator=pool, mamba_pool=mpool)
    m = Model(page)
    locks = []
    ms = set()
    for op in c["ops"]:
        mpool.freed.clear()
        pool.freed.clear()
        if op[0] == "insert":
            ns, key = op[1], op[2]
            k = len(key) if op[3] == -1 else op[3]
            before = cache.match_prefix(RadixKey(list(key), ns)).prefix_len if len(key) else 0
            val, mv = pool.take(len(key)), (mpool.take(k) if k else None)
            r = cache.insert(RadixKey(list(key), ns), val, mamba_value=mv)
            want = m.insert(ns, key, val.tolist())
            check(r.prefix_len == want, "insert reported prefix %d, expected %d" % (r.prefix_len, want))
            pool.free(val[:want])
            pool.freed.clear()
        elif op[0] in ("match", "lock"):
            ns, key = op[1], op[2]
            r = cache.match_prefix(RadixKey(list(key), ns))
            syms = symbols(key[:len(key) // page * page], page)
            k = m.longest(ns, syms)
            check(r.indices.tolist() == m.slots(ns, syms[:k]) and r.prefix_len == len(r.indices), "lookup of %s returned %s" % (key, r.indices.tolist()))
            if op[0] == "lock":
                node = r.last_node
                held = node.mamba_value.tolist() if node.mamba_value is not None and node is not cache.root_node else []
                if node is cache.root_node or node.mamba_value is not None or node.mamba_lock_ref == 0:
                    tok = cache.inc_lock_ref(node)
                    m.lock(ns, syms[:k], 1)
                    locks.append((node, tok, ns, syms[:k], held))
        elif op[0] == "unlock" and locks:
            node, tok, ns, syms, _ = locks.pop(op[1] % len(locks))
            cache.dec_lock_ref(node, tok)
            m.lock(ns, syms, -1)
        elif op[0] == "evict":
            un = m.size(lambda l: l == 0)
            mun = cache.mamba_evictable_size()
            r = cache.evict(op[1], op[2])
            gone, mg = set(pool.freed), set(mpool.freed)
            check(r.full_evicted == len(gone), "evict reported %d tokens, freed %d" % (r.full_evicted, len(gone)))
            check(len(gone) >= min(op[1], un), "evict(%d) freed %d of %d unlocked tokens" % (op[1], len(gone), un))
            check(r.mamba_evicted == len(mg), "evict reported %d state entries, freed %d" % (r.mamba_evicted, len(mg)))
            check(len(mg) >= min(op[2], mun), "evict freed %d state entries, asked for %d of %d" % (len(mg), op[2], mun))
            left = {k: v for k, v in m.e.items() if not (set(v[0]) & gone)}
            for k, v in m.e.items():
                if k not in left:
                    check(v[1] == 0, "evicted the locked prefix %s" % (k,))
                else:
                    check(all((k[0], k[1][:j]) in left for j in range(1, len(k[1]))), "evicted a prefix of %s but kept the rest" % (k,))
            m.e = left
        ms = audit(cache, m, pool, mpool, op[0])
        for node, tok, ns, syms, held in locks:
            check(set(held) & mpool.out == set(held), "locked state slots %s were freed by %s" % (sorted(set(held) - mpool.out), op[0]))
    for node, tok, ns, syms, _ in locks:
        cache.dec_lock_ref(node, tok)
        m.lock(ns, syms, -1)
    audit(cache, m, pool, mpool, "releasing all locks")
    check(cache.mamba_protected_size() == 0, "%d state entries stay protected after every lock was released" % cache.mamba_protected_size())


main("C05", [("mamba radix cache", gen, run, 1500, 20000)])
