"""C24: drives the real C++ TensorViewImpl (ASan/UBSan build of /repo's current source) against row-major index arithmetic."""
import os
from common import main, check
from cxxrun import Harness

H = None
# enum value -> (elements per block, bytes per block), from the published formats
TYPES = {0: (1, 4), 1: (1, 2), 2: (32, 18), 8: (32, 34), 12: (256, 144), 14: (256, 210), 15: (256, 292), 16: (1, 1), 17: (1, 2), 18: (1, 4), 23: (256, 110),
         24: (256, 84), 26: (256, 66), 129: (1, 1), 130: (1, 2), 131: (1, 4), 132: (1, 8), 133: (1, 8), 134: (1, 1), 201: (1, 8), 202: (1, 16)}


def h():
    global H
    if H is None:
        H = Harness(os.path.join(os.path.dirname(os.path.abspath(__file__)), "c24_h.cpp"), ["mllm/core/TensorViewImpl.cpp", "mllm/core/DataTypes.cpp", "mllm/utils/Log.cpp"])
    return H


def enc(v):
    return "%d %s" % (len(v), " ".join(map(str, v)))


def rowmajor(sh):
    out, acc = [], 1
    for d in reversed(sh):
        out.insert(0, acc)
        acc *= d
    return out


def gen(rng, i):
    n = rng.choice([0, 1, 1, 2, 3, 3, 4, 4, 5, 6, 8, 16])
    sh, prod = [], 1
    for _ in range(n):
        d = rng.choice([1, 1, 2, 3, 4, 5, 7, 16, 0, 31, 256, 1000, 40000])
        if prod * max(d, 1) > (1 << 31) - 1:
            d = 1
        sh.append(d)
        prod *= max(d, 1)
    rng.shuffle(sh)
    kind = rng.randrange(3)
    st = rowmajor(sh)
    if kind == 2:
        m = rng.randrange(3)
        if m == 0 and n:
            p = list(range(n))
            rng.shuffle(p)
            sh, st = [sh[j] for j in p], [st[j] for j in p]
        elif m == 1 and n:
            st[rng.randrange(n)] = rng.choice([0, 1, 2, 8, 64])
    dt = rng.choice(sorted(TYPES))
    off = 0 if kind == 0 else rng.choice([0, 0, 1, 5, TYPES[dt][0], 3 * TYPES[dt][0], rng.randrange(1 << 20)])
    ix = [rng.randrange(d) if d else 0 for d in sh]
    if sum(a * b for a, b in zip(ix, st)) > (1 << 31) - 1:
        ix = [0] * n
    return {"kind": kind, "shape": sh, "stride": st, "dtype": dt, "offset": off, "index": ix}


def run(c):
    sh, st, n = c["shape"], c["stride"], len(c["shape"])
    r = list(map(int, h().ask("V %d %d %d %s %s %s" % (c["kind"], c["offset"], c["dtype"], enc(sh), enc(st), enc(c["index"]))).split()))
    it = iter(r)
    nx = lambda: next(it)
    lst = lambda: [nx() for _ in range(nx())]
    check(lst() == sh, "the view's shape is not the given shape %s" % sh)
    got = lst()
    check(got == st, "shape %s: strides %s instead of %s" % (sh, got, st))
    check(nx() == c["offset"], "shape %s: storage offset is not %d" % (sh, c["offset"]))
    num = 1
    for d in sh:
        num *= d
    got = nx()
    check(got == num, "shape %s: %d elements instead of %d" % (sh, got, num))
    rm = rowmajor(sh)
    got = bool(nx())
    check(got == (st == rm), "shape %s strides %s: isContiguous is %s" % (sh, st, got))
    for k in range(-1, n + 2):
        want = k <= 0 or st[n - min(k, n):] == rm[n - min(k, n):]
        got = bool(nx())
        check(got == want, "shape %s strides %s: isContiguousN(%d) is %s" % (sh, st, k, got))
    la, by = TYPES[c["dtype"]]
    base = c["offset"] // la * by
    got = nx()
    check(got == base, "offset %d, %d bytes per %d elements: the data starts at byte %d instead of %d" % (c["offset"], by, la, got, base))
    got = nx()
    check(got == base, "ptr<>() is at byte %d instead of %d" % (got, base))
    e = base + sum(a * b for a, b in zip(c["index"], st)) // la * by
    got = nx()
    check(got == e, "shape %s strides %s: element %s is at byte %d instead of %d" % (sh, st, c["index"], got, e))
    check(lst() == sh, "a clone has another shape than %s" % sh)
    check(lst() == st, "a clone has other strides than %s" % st)
    check(nx() == c["offset"], "a clone has another offset")
    check(nx() == 1, "a view and its clone do not share the storage")
    check(nx() == 1, "a view does not report its storage's size, name, id, type or address")


def run_types(c):
    for dt, want in TYPES.items():
        got = tuple(map(int, h().ask("T %d" % dt).split()))
        check(got == want, "element type %d: %d bytes per %d elements instead of %d per %d" % (dt, got[1], got[0], want[1], want[0]))
    r = list(map(int, h().ask("E").split()))
    check(r == [0, 0, 0, 1, 1], "an empty view is %s" % r)


if __name__ == "__main__":
    h()
    main("C24", [("views", gen, run, 6000, 100000), ("element types", lambda rng, i: {} if i == 0 else None, run_types, 1, 1)])
