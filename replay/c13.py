from common import *
import contextlib, logging, tempfile, threading, types
logging.disable(logging.CRITICAL)
import torch
import pymllm.orchestrator.cuda_ipc_transport as X

_DIR = tempfile.mkdtemp(prefix="c13-")
import atexit, shutil
atexit.register(shutil.rmtree, _DIR, True)


class FakeTorch:
    """torch without a GPU: the workspace lives in host memory"""
    cuda = types.SimpleNamespace(device=lambda d: contextlib.nullcontext())

    def __getattr__(self, n):
        return getattr(torch, n)

    def empty(self, *a, **k):
        k.pop("device", None)
        return torch.zeros(*a, **k)


class NoThread:
    def __init__(self, *a, **k):
        pass

    def start(self):
        pass

    def is_alive(self):
        return False


X.torch = FakeTorch()
if hasattr(X, "_SHM_LOCK_FILE"):
    X._SHM_LOCK_FILE = os.path.join(_DIR, "lock")
DT = {1: torch.int8, 2: torch.float16, 4: torch.float32, 8: torch.int64}


def gen(rng, i):
    size = rng.choice([1, 7, 16, 33, 64, 64, 100, 128])
    ops = []
    for _ in range(rng.randint(2, 40)):
        k = rng.random()
        if k < 0.45:
            ops.append(["get", rng.choice([1, 1, 2, 3, 4, 5, 8, 16, 25, size]), rng.choice([1, 1, 2, 4, 8])])
        elif k < 0.8:
            ops.append(["consume", rng.randint(0, 9)])
        else:
            ops.append(["recycle"])
    return {"size": size, "consumers": rng.choice([1, 1, 2, 3]), "ops": ops}


class Stop(BaseException):
    pass


def one_round(pool):
    """one iteration of the recycler thread's own loop"""
    old = X.time

    class T:
        @staticmethod
        def sleep(s):
            raise Stop()

        def __getattr__(self, n):
            return getattr(old, n)
    X.time = T()
    errs = []
    lg = X.logger.warning
    X.logger.warning = lambda *a, **k: errs.append(a)
    try:
        pool._recycle_loop()
    except Stop:
        pass
    finally:
        X.time, X.logger.warning = old, lg
    check(not errs, "the recycler fails: %s" % (errs and str(errs[0][1:]),))


def mk(c, thread=NoThread):
    old = X.threading
    X.threading = types.SimpleNamespace(Lock=threading.Lock, RLock=threading.RLock, Thread=thread)
    try:
        return X.MmItemMemoryPool(c["size"], recycle_interval=c.get("interval", 0.1), num_consumers=c["consumers"], device=0)
    finally:
        X.threading = old


def flag(meta):
    shm, arr = X.ShmSyncBuffer.open(meta)
    v = float(arr[0])
    del arr
    shm.close()
    return v


def gaps(size, used):
    out, p = [], 0
    for s, e in sorted(used):
        if s > p:
            out.append((p, s))
        p = max(p, e)
    if p < size:
        out.append((p, size))
    return out


def run(c):
    pool = mk(c)
    base = pool.memory_pool.storage_offset()
    live = []        # [start, end, meta, remaining consumers, fill]
    n = 0
    for k, op in enumerate(c["ops"]):
        tag = "op %d %s: " % (k, op[0])
        if op[0] == "get":
            t = torch.zeros(op[1], dtype=DT[op[2]])
            need = op[1] * op[2]
            free = gaps(c["size"], [(a[0], a[1]) for a in live])
            meta, sl = pool.get_slice_with_flag(t)
            check((meta is None) == (sl is None), tag + "flag and slice do not come together")
            fits = [b - a for a, b in free if b - a >= need]
            if sl is None:
                check(not fits, tag + "refused %d bytes although %d consecutive bytes are free" % (need, max(fits or [0])))
                continue
            check(sl.numel() * sl.element_size() == need and sl.dtype == torch.int8, tag + "slice of %d bytes for %d" % (sl.numel(), need))
            check(sl.untyped_storage().data_ptr() == pool.memory_pool.untyped_storage().data_ptr(), tag + "slice is not part of the workspace")
            s = sl.storage_offset() - base
            check(0 <= s and s + need <= c["size"], tag + "slice outside the workspace")
            for a in live:
                check(s + need <= a[0] or a[1] <= s, tag + "bytes [%d, %d) overlap bytes [%d, %d), still needed by %d consumers" % (s, s + need, a[0], a[1], a[3]))
                check(a[2]["handle"] != meta["handle"], tag + "two slices in use share a sync flag")
            g = [b - a for a, b in free if a <= s and s + need <= b]
            check(g and g[0] == min(fits), tag + "not the smallest free run that fits")
            check(flag(meta) == 0, tag + "the sync flag of a fresh slice is %s" % flag(meta))
            n = n % 100 + 1
            sl.fill_(n)
            live.append([s, s + need, meta, c["consumers"], n])
        elif op[0] == "consume":
            p = [a for a in live if a[3] > 0]
            if p:
                a = p[op[1] % len(p)]
                check(bool((pool.memory_pool[a[0]:a[1]] == a[4]).all()), tag + "bytes of a slice in use were overwritten")
                X._increment_sync_flag(a[2])
                a[3] -= 1
        else:
            one_round(pool)
            live = [a for a in live if a[3] > 0]
            got = sorted((x.start, x.end) for x in pool.available_chunks)
            check(got == gaps(c["size"], [(a[0], a[1]) for a in live]), tag + "free runs are %s, expected %s" % (got, gaps(c["size"], [(a[0], a[1]) for a in live])))
            for a in live:
                check(flag(a[2]) == c["consumers"] - a[3], tag + "consumer count of a slice in use changed")
                check(any(x.start == a[0] and x.end == a[1] and x.sync_flag.meta_data["handle"] == a[2]["handle"] for x in pool.occupied_chunks), tag + "a slice in use is not tracked")


def gen_thr(rng, i):
    return {"size": rng.choice([64, 200]), "consumers": rng.choice([1, 2]), "interval": 0.0, "threads": 3, "rounds": 60, "seed": rng.randint(0, 10 ** 6)}


def run_thr(c):
    pool = mk(c, threading.Thread)
    sys.setswitchinterval(1e-5)
    errs = []

    def work(w):
        r = random.Random("%d/%d" % (c["seed"], w))
        try:
            for k in range(c["rounds"]):
                t = torch.zeros(r.choice([1, 3, 8, 20]), dtype=torch.int8)
                meta, sl = pool.get_slice_with_flag(t)
                if sl is None:
                    time.sleep(0)
                    continue
                v = 1 + w
                sl.fill_(v)
                for _ in range(c["consumers"]):
                    if r.random() < 0.3:
                        time.sleep(0)
                    if not bool((sl == v).all()):
                        errs.append("bytes of a slice in use were overwritten by another sender")
                    X._increment_sync_flag(meta)
        except Exception as e:
            errs.append("%s: %s" % (type(e).__name__, e))
    ts = [threading.Thread(target=work, args=(w,)) for w in range(c["threads"])]
    [t.start() for t in ts]
    [t.join(60) for t in ts]
    pool.shutdown()
    sys.setswitchinterval(0.005)
    check(not errs, errs[0] if errs else "")
    one_round_stop(pool)
    got = sorted((x.start, x.end) for x in pool.available_chunks)
    check(got == [(0, c["size"])], "after everything is consumed and recycled the free runs are %s" % got)


def one_round_stop(pool):
    pool._stop = False
    one_round(pool)


def gen_fb(rng, i):
    return {"shape": rng.choice([[3], [2, 3], [1], [4, 1, 2]]), "es": rng.choice([1, 2, 4, 8]), "seed": rng.randint(0, 999), "consumers": 1, "size": 256, "reads": rng.randint(1, 3)}


def run_fb(c):
    """no IPC handle available: the proxy carries the tensor itself"""
    pool = mk(c)
    g = torch.Generator().manual_seed(c["seed"])
    t = torch.randint(-100, 100, c["shape"], generator=g).to(DT[c["es"]])
    p = X._wrap_recursive({"a": [t, (1, "x")]}, "cuda_ipc_pool", pool)
    check(p["a"][0] is t and p["a"][1] == (1, "x"), "host tensors must pass unchanged")
    meta, sl = pool.get_slice_with_flag(t)
    sl.copy_(t.view(torch.int8).view(-1) if c["es"] == 1 else t.contiguous().view(torch.int8).view(-1))
    px = X.CudaIpcTensorTransportProxy(data=sl, info_data=t, sync_buffer_meta=meta)
    for _ in range(c["reads"]):
        r = X._unwrap_recursive([px], None)[0]
        check(r.dtype == t.dtype and tuple(r.shape) == tuple(t.shape) and torch.equal(r, t), "the receiver gets %s %s instead of %s %s" % (r.dtype, tuple(r.shape), t.dtype, tuple(t.shape)))
    check(flag(meta) == 1, "the receiver signalled %s times" % flag(meta))


main("C13", [("pool histories", gen, run, 1500, 20000), ("direct tensor fallback", gen_fb, run_fb, 150, 1000), ("concurrent senders", gen_thr, run_thr, 6, 40)])
