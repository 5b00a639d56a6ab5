"""C10: V2 model files (pymllm/mobile/convertor/model_file_v2.py): header, parameter table, tensor data -- contracts over a file of blocks."""
import ast, os, subprocess, tempfile
import z3
from dv.core import *
from dv.pyexec import Contract, VStarArgs, conc_int
from dv.pyexec import VOpaque

MOD = "pymllm.mobile.convertor.model_file_v2"
W, HD, PD, F, T = "ModelFileV2", "ModelFileV2Descriptor", "ModelFileV2ParamsDescriptor", "$File", "$Obj"
TB = TSeq(TInt, "bytes")
TL = TSeq(TInt, "list")
BLK = TDict(TInt, TB)
SCHEMA = {W: {"file_path": TAny, "model_name": TStr, "update_mode": TStr, "max_params_descriptor_buffer_num": TInt, "v2_param_descriptor": TSeq(TRef(PD), "list"),
              "v2_file_header": TRef(HD), "file_handler": TRef(F)},
          HD: {"magic": TInt, "version": TInt, "model_name": TStr, "num_params": TInt, "params_desc_offset": TInt},
          PD: {"param_id": TInt, "param_type": TInt, "param_size": TInt, "param_offset": TInt, "shape_len": TInt, "shape": TL, "name": TStr},
          # a file: its size, the position, and what stands at each offset where a piece was written and not overwritten since
          F: {"size": TInt, "pos": TInt, "blk": BLK, "flushed": TBool},
          # an object passed as a tensor: kind 0 torch, 1 numpy, 2 mllm's own, else anything; dtype its element type, bytes its elements in row-major order
          T: {"kind": TInt, "dtype": TInt, "shape": TL, "bytes": TB}}
I = z3.IntSort()
LE = z3.Function("little_endian_byte", I, I, I)          # LE(x, k): byte k of x
ULEN = z3.Function("utf8_len", I, I)
UTF8 = z3.Function("utf8_byte", I, I, I)
HAS = z3.Function("type_is_mapped", I, z3.BoolSort())    # MLLM_TYPE_MAPPING (compared with the C++ enum by static_checks)
CODE = z3.Function("type_code", I, I)
NPT = z3.Function("numpy_scalar_type", I, I)
POD = z3.Function("mllm_type_pod", I, I)
HSZ, PSZ, MAXD, NAME, MNAME = 532, 352, 16, 256, 512     # the C++ structs (static_checks)
U32, U64 = 1 << 32, 1 << 64


def fl(h, f, r):
    return h.get(F, f, r)


def g(h, cls, f, r):
    return h.get(cls, f, r)


# ------------------------------------------------------------- library models
def lib_fstr(ex, st, n, fr):
    s = ""
    for v in n.values:
        if isinstance(v, ast.Constant):
            s += str(v.value)
        else:
            r = ex.ev(st, v.value, fr)
            if len(r) != 1:
                return None
            try:
                s += str(conc_int(r[0][1]))
            except Exception:
                return None
    return [(st, VLit(s))]


def as_bytes(v):
    if isinstance(v, VLit) and isinstance(v.v, bytes):
        if len(v.v) == 1:
            return mk_items([VInt(v.v[0])], TInt, "bytes")
        return mk_items([VInt(x) for x in v.v], TInt, "bytes")
    return v


def pack(ex, st, args, line):
    """struct.pack with a standard-size little-endian format"""
    fmt = args[0].v if isinstance(args[0], VLit) else None
    if not isinstance(fmt, str) or not fmt.startswith("<"):
        raise Unsupported("struct.pack format")
    vals = list(args[1:])
    fields, n, off = [], "", 0
    states = [st]

    def need(cond, what):
        for s in ex.guard(st, cond, "struct.error", "struct.pack: " + what, line):
            pass
    for ch in fmt[1:]:
        if ch.isdigit():
            n += ch
            continue
        cnt, n = (int(n) if n else None), ""
        if ch == "s":
            v = as_bytes(st.rd(vals.pop(0)))
            k = 1 if cnt is None else cnt
            if not isinstance(v, VSeq):
                raise Unsupported("struct.pack %ds of " % k + repr(v))
            fields.append((off, k, lambda i, v=v: z3.If(i < v.ln, v.at(i).t, 0)))
            off += k
        elif ch in "IQiqHhBb":
            w = {"I": 4, "i": 4, "Q": 8, "q": 8, "H": 2, "h": 2, "B": 1, "b": 1}[ch]
            lo, hi = (0, 1 << (8 * w)) if ch.isupper() else (-(1 << (8 * w - 1)), 1 << (8 * w - 1))
            left = 1 if cnt is None else cnt
            while left:
                v = vals.pop(0)
                if isinstance(v, VStarArgs):
                    s = v.seq
                    need(s.ln == left, "%d values for %d fields" % (left, left))
                    j = z3.FreshInt("j")
                    need(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < left), z3.And(lo <= s.at(j).t, s.at(j).t < hi))), "values fit %s" % ch)
                    fields.append((off, left * w, lambda i, s=s, w=w: LE(s.at(i / w).t, i % w)))
                    off += left * w
                    left = 0
                    break
                t = ex.num(st, st.rd(v), line).t
                need(z3.And(lo <= t, t < hi), "value fits %s" % ch)
                fields.append((off, w, lambda i, t=t: LE(t, i)))
                off += w
                left -= 1
        else:
            raise Unsupported("struct.pack code " + ch)
    if vals:
        raise Unsupported("struct.pack: too many values")
    ex.trusted.add("struct.pack writes each field little-endian, packed, strings padded with zeros")

    def at(i):
        r = z3.IntVal(0)
        c = z3.simplify(i)
        if z3.is_int_value(c):
            for o, k, f in fields:
                if o <= c.as_long() < o + k:
                    return VInt(f(z3.IntVal(c.as_long() - o)))
        for o, k, f in reversed(fields):
            r = z3.If(i < o + k, f(i - o if o else i), r)
        return VInt(r)
    return [(st, VSeq(z3.IntVal(off), at, TInt, "bytes"))]


def lib_call(ex, st, f, args, kw, line):
    name = f.name
    if name == "struct.pack":
        return pack(ex, st, args, line)
    if name == "open":
        if len(args) != 2 or not (isinstance(args[1], VLit) and args[1].v == "wb"):
            raise Unsupported("open mode")
        ex.trusted.add("open(path, 'wb') gives an empty file")
        r = z3.FreshInt("new_file")
        al = st.heap.alive(F)
        st.assume(z3.And(r > 0, z3.Not(z3.Select(al, r))))
        st.heap.m[(F, "$alive")] = [z3.Store(al, r, z3.BoolVal(True))]
        st.new.append((r, F))
        for k, v in (("size", VInt(0)), ("pos", VInt(0)), ("flushed", VBool(True)), ("blk", empty_dict(TInt, TB))):
            st.heap.put(F, k, r, v, st)
        return [(st, VRef(r, F, maybe_null=False))]
    if name == "bytes" and len(args) == 1:
        v = st.rd(args[0])
        if isinstance(v, VS) and v.ty is TInt:
            out = []
            for s in ex.guard(st, v.t >= 0, "ValueError", "bytes(n): n >= 0", line):
                out.append((s, VSeq(v.t, lambda i: VInt(0), TInt, "bytes")))
            return out
    b = st.rd(f.bound) if f.bound is not None else None
    if name == ".encode" and isinstance(b, VS) and b.ty is TStr:
        ex.trusted.add("str.encode('utf-8') is a fixed function of the string")
        s = b.t
        st.assume(ULEN(s) >= 0)
        return [(st, VSeq(ULEN(s), lambda i: VInt(UTF8(s, i)), TInt, "bytes"))]
    if name == ".ljust" and isinstance(as_bytes(b), VSeq):
        v, n, pad = as_bytes(b), ex.num(st, st.rd(args[0]), line).t, as_bytes(args[1])
        c = pad.items[0].t
        return [(st, VSeq(z3.If(v.ln < n, n, v.ln), lambda i: VInt(z3.If(i < v.ln, v.at(i).t, c)), TInt, "bytes"))]
    if name == ".to_pod" and isinstance(b, VS):
        return [(st, VInt(POD(b.t)))]
    if name == ".get" and isinstance(b, VOpaque) and b.tag == "kwargs":
        return None
    return None


def lib_vattr(ex, st, b, v, attr, line):
    if attr == "type" and isinstance(v, VS) and v.ty is TInt:
        return [(st, VInt(NPT(v.t)))]
    return None


def lib_attr_T(ex, st):
    return None


def lib_binop(ex, st, op, a, b, line):
    a2, b2 = as_bytes(a), as_bytes(b)
    if isinstance(op, ast.Mult) and isinstance(a2, VSeq) and a2 is not a and isinstance(b, VS):
        return [(st, ex.seq_repeat(st, a2, b.t))]
    if isinstance(op, ast.Mult) and isinstance(b2, VSeq) and b2 is not b and isinstance(a, VS):
        return [(st, ex.seq_repeat(st, b2, a.t))]
    if (a2 is not a or b2 is not b) and isinstance(op, ast.Add) and isinstance(a2, VSeq) and isinstance(b2, VSeq):
        return [(st, ex.seq_cat(st, [a2, b2], "bytes"))]
    return None


def lib_isinstance(ex, st, v, names):
    if isinstance(v, VRef) and v.cls == T:
        k = st.heap.get(T, "kind", v.t).t
        out = []
        for n in names:
            out.append({"torch.Tensor": k == 0, "np.ndarray": k == 1, "numpy.ndarray": k == 1, "Tensor": k == 2}.get(n))
        if None in out:
            raise Unsupported("isinstance of a tensor: %s" % names)
        return z3.Or(out)
    return None


LIBS = {"call": lib_call, "fstr": lib_fstr, "vattr": lib_vattr, "binop": lib_binop, "isinstance": lib_isinstance, "attrs": {"os.SEEK_END": VInt(2), "os.SEEK_SET": VInt(0)}}
GLOBALS = {"MLLM_FIND_TORCH_AVAILABLE": VBool(True), "MLLM_FIND_NUMPY_AVAILABLE": VBool(True),
           "MLLM_TYPE_MAPPING": VDict(lambda q: HAS(q), lambda q: VInt(CODE(q)), z3.Int("type_mapping_size"), TInt, TInt)}


# -------------------------------------------------------------------- file
def disj(o, n, p, m):
    return z3.Or(o + n <= p, p + m <= o)


def ens_write(c):
    r, b = c.at("self"), c.a("b")
    d0, d1 = fl(c.h0, "blk", r), fl(c.h, "blk", r)
    p = fl(c.h0, "pos", r).t
    o = z3.Int("o")
    v0, v1 = d0.get(o), d1.get(o)
    same = z3.And([x == y for x, y in zip(flatten(v0, TB, c.st), flatten(v1, TB, c.st))])
    sz = fl(c.h0, "size", r).t
    return [("position moves on", fl(c.h, "pos", r).t == p + b.ln), ("size", fl(c.h, "size", r).t == z3.If(p + b.ln > sz, p + b.ln, sz)),
            ("the piece stands at the position", z3.And(d1.dom(p), z3.And([x == y for x, y in zip(flatten(d1.get(p), TB, c.st), flatten(b, TB, c.st))]))),
            ("pieces that do not overlap stay", forall(o, z3.And(d0.dom(o), disj(o, v0.ln, p, b.ln), o != p), z3.And(d1.dom(o), same), [d0.dom(o)])),
            ("pieces that overlap are gone", forall(o, z3.And(d1.dom(o), o != p), z3.And(d0.dom(o), disj(o, v0.ln, p, b.ln), same), [d1.dom(o)]))]


def req_write(c):
    r = c.at("self")
    return [("no hole is left in the file", fl(c.h, "pos", r).t <= fl(c.h, "size", r).t)]


def ens_seek(c):
    r = c.at("self")
    wh = c.args.get("whence")
    wh = wh.t if wh is not None else z3.IntVal(0)
    base = z3.If(wh == 2, fl(c.h0, "size", r).t, 0)
    return [("position", fl(c.h, "pos", r).t == base + c.a("offset").t)]


def req_seek(c):
    wh = c.args.get("whence")
    return [("seek from the start or the end", z3.BoolVal(True) if wh is None else z3.Or(wh.t == 0, wh.t == 2)), ("seek inside the file", c.a("offset").t >= 0)]


SF = {"self": TRef(F)}
FILE = [Contract(F + ".write", MOD, dict(SF, b=TB), requires=req_write, ensures=ens_write, trusted=True, name_args=True,
                 modifies=[(F, "blk", "self"), (F, "pos", "self"), (F, "size", "self")]),
        Contract(F + ".seek", MOD, dict(SF, offset=TInt, whence=TInt), requires=req_seek, ensures=ens_seek, trusted=True, modifies=[(F, "pos", "self")]),
        Contract(F + ".tell", MOD, SF, ret=TInt, trusted=True, ensures=lambda c: [("position", c.res.t == fl(c.h, "pos", c.at("self")).t)]),
        Contract(F + ".flush", MOD, SF, trusted=True),
        Contract(T + ".tobytes", MOD, {"self": TRef(T)}, ret=TB, trusted=True, requires=lambda c: [("numpy or mllm tensor", z3.Or(g(c.h, T, "kind", c.at("self")).t == 1, g(c.h, T, "kind", c.at("self")).t == 2))],
                 ensures=lambda c: [("row-major bytes", seq_same(c.res, g(c.h, T, "bytes", c.at("self")), c.st))]),
        Contract("_torch_tensor_bytes", MOD, {"tensor": TRef(T)}, ret=TB, trusted=True, requires=lambda c: [("torch tensor", g(c.h, T, "kind", c.at("tensor")).t == 0)],
                 ensures=lambda c: [("row-major bytes", seq_same(c.res, g(c.h, T, "bytes", c.at("tensor")), c.st))])]


def seq_same(a, b, st):
    return z3.And([x == y for x, y in zip(flatten(a, TSeq(TInt, a.kind), st), flatten(b, TSeq(TInt, b.kind), st))])


# ----------------------------------------------------- what a reader finds
AI = z3.ArraySort(I, I)
ENTRY = z3.Function("is_entry", I, AI, I, I, I, I, I, AI, I, z3.BoolSort())
HEADER = z3.Function("is_header", I, AI, I, I, I, z3.BoolSort())


def le(arr, at, n, x):
    return z3.And([z3.Select(arr, at + k) == LE(x, k) for k in range(n)])


def definitions():
    """the layout of the two C++ structs (offsets and sizes are compared with the real header by static_checks)"""
    ln, a, pid, ty, sz, off, sl, sh, nm = [z3.Const(n, s) for n, s in zip("ln a pid ty sz off sl sh nm".split(), [I, AI, I, I, I, I, I, AI, I])]
    i = z3.Int("i")
    e = ENTRY(ln, a, pid, ty, sz, off, sl, sh, nm)
    body = z3.And(ln == PSZ, le(a, 0, 4, pid), le(a, 4, 4, ty), le(a, 8, 8, sz), le(a, 16, 8, off), le(a, 24, 8, sl),
                  z3.And([le(a, 32 + 4 * s, 4, z3.If(s < sl, z3.Select(sh, s), 0)) for s in range(MAXD)]),
                  z3.ForAll([i], z3.Implies(z3.And(96 <= i, i < PSZ), z3.Select(a, i) == z3.If(i - 96 < ULEN(nm), UTF8(nm, i - 96), 0)), patterns=[z3.Select(a, i)]))
    d1 = z3.ForAll([ln, a, pid, ty, sz, off, sl, sh, nm], e == body, patterns=[e])
    num, po = z3.Ints("num po")
    h = HEADER(ln, a, nm, num, po)
    hb = z3.And(ln == HSZ, le(a, 0, 4, z3.IntVal(0x519A)), le(a, 4, 4, z3.IntVal(2)),
                z3.ForAll([i], z3.Implies(z3.And(8 <= i, i < 8 + MNAME), z3.Select(a, i) == z3.If(i - 8 < ULEN(nm), UTF8(nm, i - 8), 0)), patterns=[z3.Select(a, i)]),
                le(a, 520, 4, num), le(a, 524, 8, po))
    d2 = z3.ForAll([ln, a, nm, num, po], h == hb, patterns=[h])
    return z3.And(d1, d2)


def arrs(v, st):
    f = flatten(v, TSeq(TInt, v.kind), st)
    return f[0], f[1]


def descs(h, r):
    return g(h, W, "v2_param_descriptor", r)


def file_(h, r):
    return g(h, W, "file_handler", r).t


def hdr(h, r):
    return g(h, W, "v2_file_header", r).t


def entry_at(c, h, blk, pos, d):
    """the piece at pos is the parameter-table entry of descriptor d"""
    b = blk.get(pos)
    s = g(h, PD, "shape", d)
    bl, ba = arrs(b, c.st)
    sl, sa = arrs(s, c.st)
    return z3.And(blk.dom(pos), ENTRY(bl, ba, g(h, PD, "param_id", d).t, g(h, PD, "param_type", d).t, g(h, PD, "param_size", d).t,
                                      g(h, PD, "param_offset", d).t, g(h, PD, "shape_len", d).t, sa, g(h, PD, "name", d).t), g(h, PD, "shape_len", d).t == sl)


def inv_pd(c, h, r, n, cap, table=True):
    """descriptors 0 .. n-1 of a file whose table has room for cap"""
    ds, f = descs(h, r), file_(h, r)
    blk, size = fl(h, "blk", f), fl(h, "size", f).t
    j, k, o = z3.Ints("j k o")
    D = ds.at(j).t
    E = ds.at(k).t
    st = HSZ + PSZ * cap
    off = lambda d: g(h, PD, "param_offset", d).t
    siz = lambda d: g(h, PD, "param_size", d).t
    rg = z3.And(0 <= j, j < n)
    out = [("descriptors exist", forall(j, rg, z3.And(D > 0, z3.Select(h.alive(PD), D)), [D])),
           ("ids count up from 0", forall(j, rg, g(h, PD, "param_id", D).t == j, [D])),
           ("data lies after the table, inside the file", forall(j, rg, z3.And(st <= off(D), siz(D) >= 0, off(D) + siz(D) <= size), [D])),
           ("data of different parameters does not overlap", forall([j, k], z3.And(0 <= j, j < k, k < n), off(D) + siz(D) <= off(E), [z3.MultiPattern(D, E)])),
           ("data stands where its descriptor says", forall(j, z3.And(rg, siz(D) > 0), z3.And(blk.dom(off(D)), blk.get(off(D)).ln == siz(D)), [D]))]
    if table:
        out += [("every parameter has its table entry", forall(j, rg, entry_at(c, h, blk, HSZ + PSZ * j, D), [D]))]
    return out


def inv_w(c, h, r):
    """a writer between two operations"""
    ds, f, hd = descs(h, r), file_(h, r), hdr(h, r)
    cap = g(h, W, "max_params_descriptor_buffer_num", r).t
    return [("parts exist", z3.And(f > 0, z3.Select(h.alive(F), f), hd > 0, z3.Select(h.alive(HD), hd))), ("capacity", z3.And(cap >= 0, ds.ln <= cap)),
            ("the file ends at the position", fl(h, "pos", f).t == fl(h, "size", f).t), ("room for header and table", fl(h, "size", f).t >= HSZ + PSZ * cap),
            ("the table follows the header", g(h, HD, "params_desc_offset", hd).t == HSZ),
            ("magic and version", z3.And(g(h, HD, "magic", hd).t == 0x519A, g(h, HD, "version", hd).t == 2)),
            ("the header counts the parameters", g(h, HD, "num_params", hd).t == ds.ln)] + inv_pd(c, h, r, ds.ln, cap)


def blocks_sane(c, h, r):
    """pieces have non-negative lengths"""
    o = z3.Int("o")
    blk = fl(h, "blk", file_(h, r))
    return [("pieces lie inside the file", forall(o, blk.dom(o), z3.And(o >= 0, blk.get(o).ln >= 0, o + blk.get(o).ln <= fl(h, "size", file_(h, r)).t), [blk.dom(o)]))]


def tensor_ok(h, t):
    s = g(h, T, "shape", t)
    i = z3.Int("i")
    return z3.And(s.ln <= MAXD, forall(i, z3.And(0 <= i, i < s.ln), z3.And(0 <= s.at(i).t, s.at(i).t < 1 << 31), [s.at(i).t]))


def code_of(h, t):
    k, d = g(h, T, "kind", t).t, g(h, T, "dtype", t).t
    return z3.If(k == 0, CODE(d), z3.If(k == 1, CODE(NPT(d)), POD(d)))


def codes_fit():
    q = z3.Int("q")
    return [("type codes are 32 bit", z3.And(forall(q, z3.BoolVal(True), z3.And(0 <= CODE(q), CODE(q) < U32), [CODE(q)]), forall(q, z3.BoolVal(True), z3.And(0 <= POD(q), POD(q) < U32), [POD(q)])))]


def req_stream(c):
    r = c.at("self")
    t = c.at("tensor_obj")
    f = file_(c.h, r)
    return [("definition of the layout", definitions())] + inv_w(c, c.h, r) + blocks_sane(c, c.h, r) + codes_fit() + [
        ("at most 16 dimensions of at most 2^31 - 1", tensor_ok(c.h, t)), ("the name fits", z3.And(0 <= ULEN(c.a("tensor_name").t), ULEN(c.a("tensor_name").t) <= NAME)),
        ("the file stays below 2^63 bytes", fl(c.h, "size", f).t + g(c.h, T, "bytes", t).ln < 1 << 63), ("capacity fits 32 bit", g(c.h, W, "max_params_descriptor_buffer_num", r).t < 1 << 31)]


def new_desc(c, h, d, f, name, t, ht):
    """descriptor d describes tensor t under this name and its data stands in the file"""
    b = g(ht, T, "bytes", t)
    blk = fl(h, "blk", f)
    off = g(h, PD, "param_offset", d).t
    return [("its name", g(h, PD, "name", d).t == name), ("its type is the reader's code", g(h, PD, "param_type", d).t == code_of(ht, t)),
            ("its size is the number of bytes", g(h, PD, "param_size", d).t == b.ln),
            ("its shape", seq_eq(g(h, PD, "shape", d), g(ht, T, "shape", t))), ("its shape length", g(h, PD, "shape_len", d).t == g(ht, T, "shape", t).ln),
            ("its data is the tensor's bytes", z3.Implies(b.ln > 0, z3.And(blk.dom(off), seq_eq(blk.get(off), b))))]


def kept(c, h0, h, r, n):
    """parameters written before keep their descriptors and their data"""
    j = z3.Int("j")
    ds0, ds1, f = descs(h0, r), descs(h, r), file_(h0, r)
    D = ds0.at(j).t
    b0, b1 = fl(h0, "blk", f), fl(h, "blk", f)
    off = g(h0, PD, "param_offset", D).t
    return [("earlier descriptors stay", forall(j, z3.And(0 <= j, j < n), ds1.at(j).t == D, [D])),
            ("earlier data stays", forall(j, z3.And(0 <= j, j < n, g(h0, PD, "param_size", D).t > 0), z3.And(b1.dom(off), seq_same(b0.get(off), b1.get(off), c.st)), [D]))]


def ens_stream(c):
    r, t = c.at("self"), c.at("tensor_obj")
    ds0, ds1 = descs(c.h0, r), descs(c.h, r)
    d = ds1.at(ds0.ln).t
    return inv_w(c, c.h, r) + blocks_sane(c, c.h, r) + [("one parameter more", ds1.ln == ds0.ln + 1), ("same file and header", z3.And(file_(c.h, r) == file_(c.h0, r), hdr(c.h, r) == hdr(c.h0, r)))] + \
        new_desc(c, c.h, d, file_(c.h0, r), c.a("tensor_name").t, t, c.h0) + kept(c, c.h0, c.h, r, ds0.ln)


def exc_type(c):
    return z3.Not(z3.And(0 <= g(c.h0, T, "kind", c.at("tensor_obj")).t, g(c.h0, T, "kind", c.at("tensor_obj")).t <= 2))


def exc_key(c):
    k, d = g(c.h0, T, "kind", c.at("tensor_obj")).t, g(c.h0, T, "dtype", c.at("tensor_obj")).t
    return z3.Or(z3.And(k == 0, z3.Not(HAS(d))), z3.And(k == 1, z3.Not(HAS(NPT(d)))))


def unchanged(c, cond):
    """a refused tensor leaves the file and the table as they were"""
    r = c.at("self")
    f = file_(c.h0, r)
    b0, b1 = fl(c.h0, "blk", f), fl(c.h, "blk", f)
    o = z3.Int("o")
    return z3.And(cond, seq_eq(descs(c.h, r), descs(c.h0, r)), fl(c.h, "size", f).t == fl(c.h0, "size", f).t, fl(c.h, "pos", f).t == fl(c.h0, "pos", f).t,
                  forall(o, z3.BoolVal(True), b0.dom(o) == b1.dom(o), [b1.dom(o)]))


def full(c):
    r = c.at("self")
    return descs(c.h0, r).ln >= g(c.h0, W, "max_params_descriptor_buffer_num", r).t


def req_final(c):
    r = c.at("self")
    nm = g(c.h, HD, "model_name", hdr(c.h, r)).t
    return [("definition of the layout", definitions())] + inv_w(c, c.h, r) + blocks_sane(c, c.h, r) + [
        ("the model name fits", z3.And(0 <= ULEN(nm), ULEN(nm) <= MNAME)), ("32 bit count", descs(c.h, r).ln < U32)]


def ens_final(c):
    r = c.at("self")
    f, hd = file_(c.h, r), hdr(c.h, r)
    blk = fl(c.h, "blk", f)
    b = blk.get(z3.IntVal(0))
    bl, ba = arrs(b, c.st)
    ds = descs(c.h, r)
    return [("the header stands at the start: magic, version, model name, number of parameters, table offset", z3.And(
        blk.dom(z3.IntVal(0)), HEADER(bl, ba, g(c.h0, HD, "model_name", hd).t, ds.ln, z3.IntVal(HSZ)))),
        ("the file keeps its size", fl(c.h, "size", f).t == fl(c.h0, "size", f).t)] + \
        inv_pd(c, c.h, r, ds.ln, g(c.h, W, "max_params_descriptor_buffer_num", r).t) + kept(c, c.h0, c.h, r, ds.ln)


# ------------------------------------------------------------ static files
TD = TDict(TStr, TRef(T))


def bad_tensor(c):
    """the tensor at hand is of no supported kind / of an unmapped type"""
    out = []
    for v in c.st.env.values():
        try:
            v = c.st.rd(v)
        except Unsupported:
            continue
        if isinstance(v, VOpt):
            v = v.val
        if isinstance(v, VRef) and v.cls == T:
            k, d = g(c.h0, T, "kind", v.t).t, g(c.h0, T, "dtype", v.t).t
            out.append((z3.Not(z3.And(0 <= k, k <= 2)), z3.Or(z3.And(k == 0, z3.Not(HAS(d))), z3.And(k == 1, z3.Not(HAS(NPT(d)))))))
    return z3.Or([x for x, _ in out]), z3.Or([y for _, y in out])


def req_static(c):
    r = c.at("self")
    d = c.a("tensor_obj")
    f, hd = file_(c.h, r), hdr(c.h, r)
    q = z3.Int("q")
    return [("definition of the layout", definitions())] + codes_fit() + [
        ("parts exist", z3.And(f > 0, z3.Select(c.h.alive(F), f), hd > 0, z3.Select(c.h.alive(HD), hd))),
        ("a new file", z3.And(fl(c.h, "size", f).t == 0, fl(c.h, "pos", f).t == 0, forall(q, z3.BoolVal(True), z3.Not(fl(c.h, "blk", f).dom(q)), [fl(c.h, "blk", f).dom(q)]))),
        ("magic and version", z3.And(g(c.h, HD, "magic", hd).t == 0x519A, g(c.h, HD, "version", hd).t == 2)),
        ("fewer than 2^31 tensors", z3.And(0 <= d.size, d.size < 1 << 31)),
        ("tensors exist", forall(q, d.dom(q), z3.And(d.get(q).t > 0, z3.Select(c.h.alive(T), d.get(q).t)), [d.dom(q)])),
        ("at most 16 dimensions of at most 2^31 - 1, names fit", forall(q, d.dom(q), z3.And(tensor_ok(c.h, d.get(q).t), 0 <= ULEN(q), ULEN(q) <= NAME), [d.dom(q)])),
        ("byte counts fit 63 bit", forall(q, d.dom(q), z3.And(0 <= g(c.h, T, "bytes", d.get(q).t).ln, g(c.h, T, "bytes", d.get(q).t).ln < 1 << 63), [d.dom(q)]))]


def described(c, j, D, name, t):
    h, f = c.h, file_(c.h, c.at("self"))
    return z3.And([x for _, x in new_desc(c, h, D, f, name, t, c.h0)])


def the_dict(c):
    return c.args["tensor_obj"]


def key_of(v):
    """key and tensor of one element of the iterated sequence, whichever of items(), keys() and enumerate the loop uses"""
    ks = [x for x in flat_items(v)]
    name = next(x.t for x in ks if isinstance(x, VS) and x.ty is TStr)
    return name


def flat_items(v):
    if isinstance(v, VTup):
        for x in v.items:
            yield from flat_items(x)
    else:
        yield v


def done_so_far(c, n):
    """descriptors 0 .. n-1 describe the first n tensors of the iteration"""
    ds = descs(c.h, c.at("self"))
    j = z3.Int("j")
    d = the_dict(c)
    name = key_of(c.seq.at(j))
    D = ds.at(j).t
    return forall(j, z3.And(0 <= j, j < n), described(c, j, D, name, d.get(name).t), [D])


def keys_seq(c):
    ks, pos = c.st.ghost["denum"][-1]
    return ks, pos


def all_described(c):
    ds = descs(c.h, c.at("self"))
    d = the_dict(c)
    ks, _ = keys_seq(c)
    j = z3.Int("j")
    D = ds.at(j).t
    name = ks.at(j).t
    return forall(j, z3.And(0 <= j, j < d.size), described(c, j, D, name, d.get(name).t), [D])


def S_(c):
    return c.at("self")


def local_refs_last(c):
    raise KeyError("none")


def first_loop(c):
    if isinstance(c.seq.elt, TRef):
        raise KeyError("not the data loop")
    return c.i


def second_loop(c):
    if not isinstance(c.seq.elt, TRef):
        raise KeyError("not the table loop")
    return c.i


def st_parts(c):
    r = S_(c)
    f, hd = file_(c.h, r), hdr(c.h, r)
    return z3.And(f > 0, z3.Select(c.h.alive(F), f), hd > 0, z3.Select(c.h.alive(HD), hd))


def st_hdr(c):
    r = S_(c)
    hd = hdr(c.h, r)
    return z3.And(g(c.h, HD, "magic", hd).t == 0x519A, g(c.h, HD, "version", hd).t == 2, g(c.h, HD, "params_desc_offset", hd).t == HSZ)


def pd_inv(lab, n):
    def f(c):
        k = n(c)
        return dict(inv_pd(c, c.h, S_(c), k, the_dict(c).size))[lab]
    return f


def counter_is(k):
    def f(c):
        first_loop(c)
        xs = [v.t for v in (c.st.rd(v) for n, v in c.st.env.items() if n not in c.args) if isinstance(v, VS) and v.ty is TInt]
        if k >= len(xs):
            raise KeyError("counter")
        return xs[k] == c.i
    return f


LAB = ["descriptors exist", "ids count up from 0", "data lies after the table, inside the file", "data of different parameters does not overlap", "data stands where its descriptor says"]
LOOPS = [("parts exist", st_parts), ("header", st_hdr), ("one descriptor per tensor", lambda c: descs(c.h, S_(c)).ln == the_dict(c).size),
         ("room for header and table", lambda c: fl(c.h, "size", file_(c.h, S_(c))).t >= HSZ + PSZ * the_dict(c).size),
         ("the file ends at the position", lambda c: (first_loop(c), fl(c.h, "pos", file_(c.h, S_(c))).t == fl(c.h, "size", file_(c.h, S_(c))).t)[1]),
         ("the position is inside the file", lambda c: (second_loop(c), fl(c.h, "pos", file_(c.h, S_(c))).t <= fl(c.h, "size", file_(c.h, S_(c))).t)[1]),
         ("pieces lie inside the file", lambda c: blocks_sane(c, c.h, S_(c))[0][1]),
         ("written so far describe the tensors", lambda c: done_so_far(c, first_loop(c))),
         ("all describe the tensors", lambda c: (second_loop(c), all_described(c))[1])] + \
        [("counter %d is the number of tensors done" % k, counter_is(k)) for k in range(6)] + \
        [("so far: " + l, pd_inv(l, first_loop)) for l in LAB] + \
        [("all: " + l, pd_inv(l, lambda c: (second_loop(c), the_dict(c).size)[1])) for l in LAB] + \
        [("so far: every parameter has its table entry", pd_inv("every parameter has its table entry", second_loop))]


def ens_static(c):
    r = S_(c)
    f, hd, d = file_(c.h, r), hdr(c.h, r), the_dict(c)
    ds = descs(c.h, r)
    q, j = z3.Ints("q j")
    wit = []
    if "denum" in c.st.ghost:
        wit = [keys_seq(c)[1](q)]

    def has(j):
        return z3.And(0 <= j, j < ds.ln, described(c, j, ds.at(j).t, q, d.get(q).t))
    return [("one parameter per tensor", ds.ln == d.size), ("the header counts the parameters", g(c.h, HD, "num_params", hd).t == d.size), ("header", st_hdr(c)),
            ("every tensor is written under its name", forall(q, d.dom(q), z3.Or([z3.Exists([j], has(j))] + [has(w) for w in wit]), [d.dom(q)])),
            ("the file ends at the position", fl(c.h, "pos", f).t == fl(c.h, "size", f).t)] + blocks_sane(c, c.h, r) + inv_pd(c, c.h, r, ds.ln, d.size)


# ------------------------------------------------------------- constructor
KWHAS, KW = z3.Bool("cap_given"), z3.Int("cap_value")


def lib_opaque(ex, st, f, args, kw, line):
    if f.tag == "kwargs.get" and isinstance(args[0], VLit) and args[0].v == "max_params_descriptor_buffer_num":
        d = args[1] if len(args) > 1 else None
        if d is None:
            return None
        return [(st, VInt(z3.If(KWHAS, KW, ex.num(st, d, line).t)))]
    return None


LIBS["opaque_call"] = lib_opaque
STATIC, STREAM = intern_str("Static"), intern_str("Streaming")


def ens_init(c):
    r = c.at("self")
    f, hd = file_(c.h, r), hdr(c.h, r)
    m = c.a("update_mode").t
    q = z3.Int("q")
    st = m == STREAM
    out = [("header carries the model's name", g(c.h, HD, "model_name", hd).t == c.a("model_name").t), ("no parameters yet", descs(c.h, r).ln == 0),
           ("mode recorded", g(c.h, W, "update_mode", r).t == m), ("a known mode", z3.Or(m == STATIC, st)),
           ("capacity as given", z3.Implies(z3.And(st, KWHAS), g(c.h, W, "max_params_descriptor_buffer_num", r).t == KW)),
           ("magic and version recorded", z3.And(g(c.h, HD, "magic", hd).t == 0x519A, g(c.h, HD, "version", hd).t == 2)),
           ("the header counts no parameters", g(c.h, HD, "num_params", hd).t == 0),
           ("static: a new file", z3.Implies(m == STATIC, z3.And(fl(c.h, "size", f).t == 0, fl(c.h, "pos", f).t == 0, forall(q, z3.BoolVal(True), z3.Not(fl(c.h, "blk", f).dom(q)), [fl(c.h, "blk", f).dom(q)]))))]
    return out + [("streaming: " + l, z3.Implies(st, x)) for l, x in inv_w(c, c.h, r)] + blocks_sane(c, c.h, r)


MODF = [(F, "blk"), (F, "pos"), (F, "size")]
CONTRACTS = FILE + [
    Contract(W + ".streaming_write", MOD, {"self": TRef(W), "tensor_name": TStr, "tensor_obj": TRef(T)}, requires=req_stream, ensures=ens_stream,
             modifies=MODF + [(W, "v2_param_descriptor", "self"), (HD, "num_params")], allocs=[PD],
             raises={"TypeError": lambda c: unchanged(c, exc_type(c)), "KeyError": lambda c: unchanged(c, exc_key(c)), "AssertionError": lambda c: unchanged(c, full(c))}),
    Contract(W + ".finalize", MOD, {"self": TRef(W)}, requires=req_final, ensures=ens_final, modifies=MODF),
    Contract(W + ".static_write", MOD, {"self": TRef(W), "tensor_obj": TD}, requires=req_static, ensures=ens_static, loops=LOOPS,
             modifies=MODF + [(W, "v2_param_descriptor", "self"), (HD, "num_params"), (HD, "params_desc_offset")] + [(PD, x) for x in SCHEMA[PD]], allocs=[PD],
             raises={"TypeError": lambda c: bad_tensor(c)[0], "KeyError": lambda c: bad_tensor(c)[1],
                     "struct.error": lambda c: fl(c.h, "size", file_(c.h, S_(c))).t >= 1 << 63}),
    Contract(W + ".__init__", MOD, {"self": TRef(W), "file_path": TAny, "model_name": TStr, "update_mode": TStr},
             requires=lambda c: [("definition of the layout", definitions()), ("capacity", z3.And(KW >= 0, KW < 1 << 31))], ensures=ens_init,
             modifies=MODF + [(W, x) for x in SCHEMA[W]] + [(HD, x) for x in SCHEMA[HD]], allocs=[HD, F],
             raises={"AssertionError": lambda c: z3.Not(z3.Or(c.a("update_mode").t == STATIC, c.a("update_mode").t == STREAM))}),
]
VERIFY = [c.qual for c in CONTRACTS if not c.trusted]
REPLAY = "c10.py"
MIN_OBLIGATIONS = 40
FP_EXTRA = ["mllm/core/schema/ModelFileV2.hpp"]
CONCRETE_NOTE = "the real writer (static and streaming) with torch, numpy and mllm-like tensors of every mapped type, rank 0 to 16, any memory layout; the file is read back with the structs of the real C++ header (ASan, UBSan)"
ASSUMPTIONS = ["names take at most 256 bytes (model name 512) in UTF-8 and tensors have at most 16 dimensions: longer ones are cut or rejected by struct.pack",
               "the file is used by one writer, and writes to it succeed completely", "static_write is called once, on the new file; streaming_write only in streaming mode",
               "a file is a map from offsets to the pieces last written there: a piece survives until a later write overlaps it"]
TRUSTED = ["struct.pack / bytes / str.encode / str.ljust (models in props/c10.py)", "_torch_tensor_bytes and tobytes() give the row-major bytes of the elements (compared with numpy by the concrete search)",
           "MLLM_TYPE_MAPPING is an arbitrary fixed table in the proof; the real one is compared with the C++ enum by the concrete search"]

LAYOUT = [(HD, "magic_number", 0), (HD, "version", 4), (HD, "model_name", 8), (HD, "num_params", 520), (HD, "params_desc_offset", 524),
          (PD, "parameter_id", 0), (PD, "parameter_type", 4), (PD, "parameter_size", 8), (PD, "parameter_offset", 16), (PD, "shape_len", 24), (PD, "shape", 32), (PD, "name", 96)]


def static_checks():
    """the layout the contracts use is the one of the C++ structs in /repo's header (decided by the compiler)"""
    repo = os.environ.get("DV_REPO", "/repo")
    src = '#include <cstddef>\n#include "mllm/core/schema/ModelFileV2.hpp"\nusing namespace mllm;\n'
    src += "static_assert(sizeof(%s) == %d, \"size\");\nstatic_assert(sizeof(%s) == %d, \"size\");\n" % (HD, HSZ, PD, PSZ)
    src += "static_assert(MLLM_MODEL_FILE_V2_MAGIC_NUMBER == 0x519A && MLLM_MODEL_FILE_V2_VERSION == 2, \"magic\");\n"
    src += "".join('static_assert(offsetof(%s, %s) == %d, "offset");\n' % x for x in LAYOUT)
    r = subprocess.run(["g++", "-std=gnu++20", "-w", "-I" + repo, "-fsyntax-only", "-x", "c++", "-"], input=src, capture_output=True, text=True)
    if r.returncode and "static assertion failed" not in r.stderr:
        return []          # the structs were renamed or moved: the concrete search decides
    return [("table and header layout of the contracts is the layout of the C++ reader's structs", r.returncode == 0, r.stderr[:400])]
