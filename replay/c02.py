from common import *
import logging
logging.disable(logging.CRITICAL)
import torch
from pymllm.mem_cache.memory_pool import ReqToTokenPool, GDNPool, make_req_to_token_pool


def gen(rng, i):
    n = rng.choice([0, 1, 2, 3, 5, 8, 16])
    ops = []
    for _ in range(rng.randint(1, 40)):
        k = rng.random()
        if k < 0.4:
            ops.append(["alloc", rng.choice([1, 1, 1, 0, 2, 3, n, n + 1])])
        elif k < 0.7:
            ops.append(["free", rng.randint(0, 99)])
        elif k < 0.95:
            a, b = sorted([rng.randint(0, 12), rng.randint(0, 12)])
            ops.append(["write", rng.randint(0, 99), a, b, rng.randint(1, 10 ** 6)])
        else:
            ops.append(["clear"])
    return {"n": n, "ops": ops, "factory": rng.random() < 0.5}


def run(c):
    n, L = c["n"], 12
    p = make_req_to_token_pool(n, L, "cpu") if c["factory"] else ReqToTokenPool(n, L, device="cpu")
    check(tuple(p.req_to_token.shape) == (n, L), "table shape %s" % (tuple(p.req_to_token.shape),))
    held, rows = [], {}
    check(p.available_size() == n, "fresh pool offers %d of %d" % (p.available_size(), n))
    for op in c["ops"]:
        if op[0] == "alloc":
            free = n - len(held)
            r = p.alloc(op[1])
            if op[1] > free:
                check(r is None, "over-allocation succeeded")
            else:
                check(r is not None and len(r) == op[1], "alloc(%d) with %d free gave %r" % (op[1], free, r))
                check(len(set(r)) == len(r) and not set(r) & set(held), "slot handed out twice: %r held %r" % (r, held))
                check(all(0 <= x < n for x in r), "slot out of range: %r" % (r,))
                held += r
        elif op[0] == "free" and held:
            s = held.pop(op[1] % len(held))
            p.free(s)
            rows.pop(s, None)
        elif op[0] == "write" and held:
            s = held[op[1] % len(held)]
            vals = list(range(op[4], op[4] + op[3] - op[2]))
            p.write((s, slice(op[2], op[3])), torch.tensor(vals, dtype=torch.int32))
            row = rows.setdefault(s, {})
            for k, v in zip(range(op[2], op[3]), vals):
                row[k] = v
        elif op[0] == "clear":
            p.clear()
            held, rows = [], {}
            check(int(p.req_to_token.abs().sum()) == 0, "clear left mappings behind")
        check(p.available_size() == n - len(held), "free count %d, expected %d" % (p.available_size(), n - len(held)))
        for s, row in rows.items():
            for k, v in row.items():
                check(int(p.req_to_token[s, k]) == v, "mapping of slot %d position %d is %d, wrote %d" % (s, k, int(p.req_to_token[s, k]), v))


def gen_g(rng, i):
    ops = []
    for _ in range(rng.randint(1, 30)):
        ops.append([rng.choice(["alloc", "alloc", "free", "copy", "reset", "set"]), rng.randint(0, 99), rng.randint(0, 99), rng.randint(1, 1000)])
    return {"reqs": rng.randint(0, 5), "track": rng.randint(0, 5), "layers": rng.randint(1, 3), "ops": ops}


def run_g(c):
    R, K = c["reqs"], c["track"]
    p = GDNPool(R, c["layers"], 1, 2, 3, 4, 3, device="cpu", dtype=torch.float32, max_track_slots=K)
    total = p.recurrent_state.shape[1]
    check(total >= R + 1 + K and p.conv_state.shape[1] == total, "pool has %d rows for %d working + 1 padding + %d track slots" % (total, R, K))
    model = {s: 0.0 for s in range(total)}
    held = []
    for kind, a, b, v in c["ops"]:
        if kind == "alloc":
            s = p.alloc_track_slot()
            if len(held) == K:
                check(s is None, "track slot handed out from an exhausted pool")
            else:
                check(s is not None and s not in held, "alloc_track_slot gave %r while %r are held" % (s, held))
                check(R + 1 <= s < total, "track slot %r overlaps the working slots" % s)
                held.append(s)
        elif kind == "free" and held:
            p.free_track_slot(held.pop(a % len(held)))
        elif kind == "copy":
            s, d = a % total, b % total
            p.copy_states(s, d)
            model[d] = model[s]
        elif kind == "reset":
            idx = sorted({a % total, b % total}) if v % 3 else []
            p.reset_states(torch.tensor(idx, dtype=torch.int64))
            for s in idx:
                model[s] = 0.0
        elif kind == "set":
            s = a % total
            rec, conv = p.get_layer_state(0)
            for l in range(c["layers"]):
                rec, conv = p.get_layer_state(l)
                rec[s] = float(v + l)
                conv[s] = float(v + l)
            model[s] = float(v)
        for s in range(total):
            for l in range(c["layers"]):
                want = model[s] + l if model[s] else 0.0
                check(bool((p.recurrent_state[l, s] == want).all()) and bool((p.conv_state[l, s] == want).all()),
                      "state of slot %d layer %d differs after %s" % (s, l, kind))


main("C02", [("request slots", gen, run, 800, 10000), ("gdn pool", gen_g, run_g, 400, 5000)])
