"""C10: the real V2 model file writer; the file is read back with the structs of the real C++ header (compiled)."""
import os, sys, tempfile, types, atexit, shutil, importlib
from common import main, check, REPO, Fail
from cxxrun import Harness
import numpy as np
import torch

for name, path in (("pymllm.mobile", "pymllm/mobile"), ("pymllm.mobile.convertor", "pymllm/mobile/convertor")):
    m = types.ModuleType(name)
    m.__path__ = [os.path.join(REPO, path)]
    sys.modules[name] = m
ffi = types.ModuleType("pymllm.mobile.ffi")


class MTensor:
    """stands for mllm's own tensor (its library is not built here): shape, dtype.to_pod(), tobytes()"""

    def __init__(self, arr, code):
        self.arr, self.code = arr, code
        self.shape = arr.shape
        self.dtype = types.SimpleNamespace(to_pod=lambda: code)

    def tobytes(self):
        return self.arr.tobytes()


ffi.Tensor, ffi.MLLM_FIND_NUMPY_AVAILABLE, ffi.MLLM_FIND_TORCH_AVAILABLE = MTensor, True, True
sys.modules["pymllm.mobile.ffi"] = ffi

W = importlib.import_module("pymllm.mobile.convertor.model_file_v2")

D = tempfile.mkdtemp(prefix="c10-")
atexit.register(shutil.rmtree, D, True)
H = None
ENUM = None
TORCH = {"float32": "kFloat32", "float16": "kFloat16", "bfloat16": "kBFloat16", "int8": "kInt8", "int16": "kInt16", "int32": "kInt32", "int64": "kInt64",
         "uint8": "kUInt8", "bool": "kUInt8", "uint16": "kUInt16"}
NUMPY = {"float32": "kFloat32", "float16": "kFloat16", "int8": "kInt8", "int16": "kInt16", "int32": "kInt32", "int64": "kInt64", "uint8": "kUInt8", "bool_": "kUInt8",
         "complex64": "kComplexFloat32", "complex128": "kComplexFloat64"}


def h():
    global H, ENUM
    if H is None:
        H = Harness(os.path.join(os.path.dirname(os.path.abspath(__file__)), "c10_h.cpp"),
                    ["mllm/core/ParameterFile.cpp", "mllm/core/MappedFile.cpp", "mllm/core/TensorViewImpl.cpp", "mllm/core/DataTypes.cpp", "mllm/utils/Log.cpp"],
                    ["-ffunction-sections", "-Wl,--gc-sections"])
        ENUM = dict(x.split("=") for x in H.ask("enum").split())
        ENUM = {k: int(v) for k, v in ENUM.items()}
    return H


def tensor(rng):
    kind = rng.choice(["torch", "torch", "numpy", "mllm"])
    nd = rng.choice([0, 1, 1, 2, 2, 3, 4, 16])
    return {"kind": kind, "dtype": rng.choice(sorted(TORCH if kind == "torch" else NUMPY)), "shape": [rng.choice([1, 1, 2] if nd > 4 else [0, 1, 2, 3, 5]) if rng.random() < .9 else 7 for _ in range(nd)] if nd <= 4 else [1] * 14 + [2, 1],
            "layout": rng.choice(["plain", "plain", "T", "slice", "neg"]), "fill": rng.randrange(1 << 16)}


ALPH = ["w", ".", "0", "model", "é", "层", "🤖", "_", "a"]


def gen(rng, i):
    n = rng.choice([0, 1, 1, 2, 3, 5, 8])
    nm = lambda lim: "".join(rng.choice(ALPH) for _ in range(rng.choice([0, 1, 3, 8])))
    names = []
    for k in range(n):
        s = nm(256) + str(k)
        if rng.random() < .15:
            s = ("x" * (256 - len(str(k)))) + str(k)
        names.append(s)
    mode = rng.choice(["Static", "Streaming"])
    model = nm(512) if rng.random() < .85 else "m" * rng.choice([511, 512])
    return {"mode": mode, "model": model, "names": names, "tensors": [tensor(rng) for _ in names],
            "cap": rng.choice([n, n, n + 1, n + 5, max(n - 1, 0)]), "default_cap": rng.random() < .1, "_shrink": []}


def build(t):
    g = np.random.RandomState(t["fill"])
    sh = list(t["shape"])
    if t["kind"] == "torch":
        dt = getattr(torch, t["dtype"])
        n = int(np.prod(sh)) if sh else 1
        raw = torch.from_numpy(g.randint(0, 2 if t["dtype"] == "bool" else 256, size=max(n, 1) * 16).astype(np.uint8))
        sz = torch.empty(0, dtype=dt).element_size()
        a = raw[:n * sz].clone().view(dt).reshape(sh)
        if t["layout"] == "T" and a.dim() >= 2:
            a = a.transpose(0, a.dim() - 1)
        elif t["layout"] == "slice" and a.dim() >= 1 and a.shape[0] > 1:
            a = a[::2]
        return a, list(a.shape), a.clone(memory_format=torch.contiguous_format).reshape(-1).view(torch.uint8).numpy().tobytes() if a.numel() else b"", TORCH[t["dtype"]]
    dt = np.dtype(getattr(np, t["dtype"]))
    n = int(np.prod(sh)) if sh else 1
    a = np.frombuffer(g.randint(0, 2 if t["dtype"] == "bool_" else 256, size=n * dt.itemsize).astype(np.uint8).tobytes(), dtype=dt).reshape(sh)
    if t["layout"] == "T" and a.ndim >= 2:
        a = a.swapaxes(0, a.ndim - 1)
    elif t["layout"] == "slice" and a.ndim >= 1 and a.shape[0] > 1:
        a = a[::2]
    elif t["layout"] == "neg" and a.ndim >= 1:
        a = a[::-1]
    want = np.ascontiguousarray(a).tobytes()
    if t["kind"] == "mllm":
        return MTensor(a, ENUM[NUMPY[t["dtype"]]]), list(a.shape), want, NUMPY[t["dtype"]]
    return a, list(a.shape), want, NUMPY[t["dtype"]]


def run(c):
    h()
    path = os.path.join(D, "m.mllm")
    built = [build(t) for t in c["tensors"]]
    refused = False
    cap = 1024 if c["default_cap"] else c["cap"]
    written = len(built)
    if c["mode"] == "Static":
        w = W.ModelFileV2(path, c["model"], "Static")
        w.static_write({n: b[0] for n, b in zip(c["names"], built)})
    else:
        w = W.ModelFileV2(path, c["model"], "Streaming", **({} if c["default_cap"] else {"max_params_descriptor_buffer_num": cap}))
        for k, (n, b) in enumerate(zip(c["names"], built)):
            try:
                w.streaming_write(n, b[0])
            except AssertionError:
                check(k >= cap, "a tensor is refused although the table has room (%d of %d used)" % (k, cap))
                written, refused = k, True
                break
            check(k < cap, "tensor %d is accepted although the table holds only %d entries" % (k, cap))
    w.finalize()
    w.file_handler.close()
    f = h().ask(path).split()
    check(f[0] == "ok", "the file is too short for a header: %s" % f)
    size, magic, ver, num, off = int(f[1]), f[2], f[3], int(f[4]), int(f[5])
    check(magic == "1" and ver == "1", "magic number or version is not the one the reader expects")
    check(num == written, "the header says %d parameters, %d were written" % (num, written))
    nm = c["model"].encode()
    check(bytes.fromhex(f[6]) == nm.ljust(512, b"\0"), "the header's model name is not %r" % c["model"])
    check("table-out-of-file" not in f, "the parameter table lies outside the file")
    tab = (off, off + 352 * (num if c["mode"] == "Static" else cap))
    check(off >= 532, "the parameter table overlaps the header")
    pos, used = 7, [tab, (0, 532)]
    for k in range(written):
        _, shape, data, dt = built[k]
        pid, ty, sz, o, sl = map(int, f[pos:pos + 5])
        shp = list(map(int, f[pos + 5:pos + 21]))
        name = b"" if f[pos + 21] == "-" else bytes.fromhex(f[pos + 21])
        got = f[pos + 22]
        pos += 23
        check(pid == k, "entry %d carries id %d" % (k, pid))
        check(ty == ENUM[dt], "entry %d carries type %d, the reader's code of %s is %d" % (k, ty, dt, ENUM[dt]))
        check(name == c["names"][k].encode(), "entry %d is named %r instead of %r" % (k, name, c["names"][k]))
        check(sl == len(shape) and shp[:sl] == shape and not any(shp[sl:]), "entry %d has shape %s/%d instead of %s" % (k, shp, sl, shape))
        check(got != "out-of-file", "the data of entry %d lies outside the file" % k)
        check(sz == len(data), "entry %d has %d bytes instead of %d" % (k, sz, len(data)))
        check((b"" if got == "-" else bytes.fromhex(got)) == data, "the data of entry %d (%s, shape %s) is not the tensor's row-major bytes" % (k, dt, shape))
        if sz:
            for a, b in used:
                check(o + sz <= a or b <= o, "the data of entry %d overlaps other parts of the file" % k)
            used.append((o, o + sz))
    check(pos == len(f), "more entries than parameters")
    if all(b[3] != "kBFloat16" for b in built[:written]):       # the C++ side does not implement bfloat16 ("no such type right now")
        roundtrip(c, path, built, written)
    os.unlink(path)


def read_back(path, mapped, want, what):
    """the real C++ reader returns every tensor with its name, type, shape and bytes"""
    f = h().ask("read %d %s" % (mapped, path)).split()
    check(f[:1] == ["ok"], "%s cannot be read" % what)
    pos, seen = 1, set()
    unhex = lambda x: b"" if x == "-" else bytes.fromhex(x)
    while pos < len(f):
        name, sname, ty, sz, nd = unhex(f[pos]), unhex(f[pos + 1]), int(f[pos + 2]), int(f[pos + 3]), int(f[pos + 4])
        shp, data = list(map(int, f[pos + 5:pos + 5 + nd])), unhex(f[pos + 5 + nd])
        pos += 6 + nd
        check(name in want, "%s: the reader returns a tensor %r that was not written" % (what, name))
        shape, wdata, wty = want[name]
        check(sname == name, "%s: tensor %r calls itself %r" % (what, name, sname))
        check(ty == wty and shp == shape, "%s: %r is read with type %d shape %s instead of %d %s" % (what, name, ty, shp, wty, shape))
        check(data == wdata, "%s: the elements of %r (shape %s) change" % (what, name, shape))
        seen.add(name)
    check(seen == set(want), "%s: %d of %d tensors are returned" % (what, len(seen), len(want)))


def roundtrip(c, path, built, written):
    want = {c["names"][k].encode(): (built[k][1], built[k][2], ENUM[built[k][3]]) for k in range(written)}
    for mapped in (0, 1):
        read_back(path, mapped, want, "reading (%s)" % ("mapped" if mapped else "copied"))
    if all(len(n) < 256 for n in want):
        mapped = c["tensors"][0]["fill"] % 2 if c["tensors"] else 0
        check(h().ask("copy %d %s" % (mapped, path)) == "ok", "the C++ writer fails")
        read_back(path + ".copy", 1 - mapped, want, "reading what the C++ writer wrote")
        os.unlink(path + ".copy")


def gen_bad(rng, i):
    return {"k": i % 4, "_shrink": []} if i < 12 else None


def run_bad(c):
    """objects that are no tensors, and tensors of unmapped types or too many dimensions, are refused"""
    h()
    path = os.path.join(D, "b.mllm")
    w = W.ModelFileV2(path, "m", "Streaming", max_params_descriptor_buffer_num=4)
    w.streaming_write("a", torch.arange(4, dtype=torch.int32))
    bad = [[1, 2], None, torch.zeros(2, dtype=torch.float64), np.zeros(2, dtype="U3")][c["k"]]
    try:
        w.streaming_write("b", bad)
        check(False, "%r is written as a parameter" % type(bad))
    except (TypeError, KeyError):
        pass
    w.streaming_write("c", torch.arange(3, dtype=torch.int8))
    w.finalize()
    w.file_handler.close()
    f = h().ask(path).split()
    os.unlink(path)
    check(int(f[4]) == 2, "a refused tensor leaves an entry")
    check(bytes.fromhex(f[7 + 22]) == np.arange(4, dtype=np.int32).tobytes() and bytes.fromhex(f[30 + 22]) == bytes([0, 1, 2]), "a refused tensor disturbs the others")


main("C10", [("files", gen, run, 700, 20000), ("refused objects", gen_bad, run_bad, 12, 12)])
