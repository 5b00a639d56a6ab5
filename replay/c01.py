from common import *
import logging
logging.disable(logging.CRITICAL)
import torch
from pymllm.mem_cache.memory_pool import TokenToKVPoolAllocator, make_full_attention_net_mem_pool


def gen(rng, i):
    page = rng.choice([1, 1, 1, 2, 3, 4, 5, 8, 16])
    size = rng.choice([0, 1, 2, 3, 5, 8, 13, 16, 31, 32, 40, 64, 100])
    ops = []
    for _ in range(rng.randint(1, 40)):
        k = rng.random()
        if k < 0.45:
            ops.append(["alloc", rng.choice([0, 1, 1, 2, 3, rng.randint(0, size + 2), page, page + 1, size])])
        elif k < 0.85:
            ops.append(["free", rng.randint(0, 50), rng.random() < 0.5, rng.randint(0, 99)])
        elif k < 0.90:
            ops.append(["begin"])
        elif k < 0.96:
            ops.append(["end"])
        elif k < 0.98:
            ops.append(["merge"])
        else:
            ops.append(["clear"])
    return {"size": size, "page": page, "need_sort": rng.random() < 0.6, "ops": ops, "kv": i % 10 == 0}


def run(c):
    size, page = c["size"], c["page"]
    rows = None
    if c["kv"]:
        pool, al = make_full_attention_net_mem_pool(size, 1, 1, 2, 1, 2, device="cpu", dtype=torch.float32,
                                                    page_size=page, need_sort=c["need_sort"], pin_memory=False)
        rows = min(pool.k_buffer[0].shape[0], pool.v_buffer[0].shape[0])
        check(rows >= size + 1, "KV pool has fewer than size+1 rows")
    else:
        al = TokenToKVPoolAllocator(size, device="cpu", page_size=page, need_sort=c["need_sort"])
    cap = al.available_size()
    check(cap % page == 0, "capacity not page aligned")
    if page == 1:
        check(cap == size, "fresh allocator offers %d of %d slots" % (cap, size))
    else:
        check(size - 2 * page < cap <= size, "fresh paged allocator offers %d of %d slots" % (cap, size))
    owned = []          # list of lists of slots held by a caller
    deferred = []       # freed inside a group
    out = set()         # units (pages) owned or deferred
    group = False

    def unit(x):
        return x // page

    for op in c["ops"]:
        free_units = cap // page - len(out)
        check(al.available_size() == free_units * page,
              "available_size() = %d but %d slots are free" % (al.available_size(), free_units * page))
        if op[0] == "alloc":
            n = op[1]
            r = al.alloc(n)
            need = (n + page - 1) // page
            if need > free_units:
                check(r is None, "alloc(%d) succeeded with %d units free" % (n, free_units))
                continue
            check(r is not None, "alloc(%d) failed although %d units are free" % (n, free_units))
            r = r.tolist()
            check(len(r) == n, "alloc(%d) returned %d slots" % (n, len(r)))
            check(len(set(r)) == n, "alloc returned a slot twice")
            for x in r:
                check(1 <= x <= size, "slot %d outside [1, %d]" % (x, size))
                check(rows is None or x < rows, "slot %d outside the KV buffer" % x)
                check(unit(x) not in out, "slot %d handed out while still owned" % x)
            for k in range(0, n, page):
                seg = r[k:k + page]
                check(seg == list(range(seg[0], seg[0] + len(seg))) and (page == 1 or seg[0] % page == 0), "page not contiguous")
            out |= {unit(x) for x in r}
            if n:
                owned.append(r)
        elif op[0] == "free":
            if not owned:
                continue
            h = owned.pop(op[1] % len(owned))
            if page == 1 and op[2] and len(h) > 1:
                k = 1 + op[3] % (len(h) - 1)
                owned.append(h[k:])
                h = h[:k]
            if op[3] % 3 == 1 and owned:
                h = h + owned.pop(op[3] % len(owned))   # one call returning two blocks
            if op[3] % 2:
                h = [h[(j * 7 + op[3]) % len(h)] for j in range(len(h))] if len(h) % 7 else h[::2] + h[1::2]
            al.free(torch.tensor(h, dtype=torch.int32))
            if group:
                deferred += h
            else:
                out -= {unit(x) for x in h}
        elif op[0] == "begin":
            if not group:
                al.free_group_begin()
                group, deferred = True, []
        elif op[0] == "end":
            if group:
                al.free_group_end()
                out -= {unit(x) for x in deferred}
                group, deferred = False, []
        elif op[0] == "merge":
            al.merge_and_sort_free()
        elif op[0] == "clear":
            al.clear()
            owned, deferred, out, group = [], [], set(), False
    if group:
        al.free_group_end()
        out -= {unit(x) for x in deferred}
    for h in owned:
        al.free(torch.tensor(h, dtype=torch.int32))
    check(al.available_size() == cap, "after returning everything only %d of %d slots are free" % (al.available_size(), cap))
    r = al.alloc(cap)
    check(r is not None and len(set(r.tolist())) == cap and all(1 <= x <= size for x in r.tolist()), "final full allocation is not a permutation of the pool")


main("C01", [("histories", gen, run, 1500, 20000)])
