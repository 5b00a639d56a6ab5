"""C22: C++ text codec of the tokenizers (mllm/preprocessor/tokenizers/Unicode.cpp): UTF-8 <-> wide strings, byte map."""
import z3
from dv.core import *
from dv.pyexec import Contract
from dv import cxx

MOD = "cxx.Unicode"
SRC = "mllm/preprocessor/tokenizers/Unicode.cpp"
cxx.register(MOD, SRC, ["mllm::preprocessor::ord", "mllm::preprocessor::chr", "wideString2Utf8String", "utf8string2WideString", "makeBytes2UnicodeMap"])
TL = TSeq(TInt, "list")
OFF = z3.Function("utf8_offset", z3.IntSort(), z3.IntSort())     # ghost: where the code of the k-th character starts
MAXCP = 0x10FFFF


def L(w):
    """length of the UTF-8 code of w; 0 when w is no code point"""
    return z3.If(z3.Or(w < 0, w > MAXCP), 0, z3.If(w <= 0x7F, 1, z3.If(w <= 0x7FF, 2, z3.If(w <= 0xFFFF, 3, 4))))


def sb(u):
    return z3.If(u >= 128, u - 256, u)


def enc(at, o, w):
    """the UTF-8 code of w stands at offset o (signed chars)"""
    c = lambda d: 0x80 + (w / d) % 64
    return z3.And(
        z3.Implies(z3.And(0 <= w, w <= 0x7F), at(o) == w),
        z3.Implies(z3.And(0x80 <= w, w <= 0x7FF), z3.And(at(o) == sb(0xC0 + w / 64), at(o + 1) == sb(c(1)))),
        z3.Implies(z3.And(0x800 <= w, w <= 0xFFFF), z3.And(at(o) == sb(0xE0 + w / 4096), at(o + 1) == sb(c(64)), at(o + 2) == sb(c(1)))),
        z3.Implies(z3.And(0x10000 <= w, w <= MAXCP), z3.And(at(o) == sb(0xF0 + w / 262144), at(o + 1) == sb(c(4096)), at(o + 2) == sb(c(64)), at(o + 3) == sb(c(1)))))


def int_at(s):
    return lambda i: s.at(i).t


def ghost_offsets(w, n):
    """definition of the ghost offsets (a recursive definition: satisfiable for every w)"""
    k = z3.Int("k")
    return z3.And(OFF(0) == 0, forall(k, z3.And(0 <= k, k < n), OFF(k + 1) == OFF(k) + L(w(k)), [w(k)]))


def is_code(s, code):
    from dv.cxxlib import in_code
    i = z3.Int("i")
    return forall(i, z3.And(0 <= i, i < s.ln), in_code(s.at(i).t, code), [s.at(i).t])


def encoded(s, w, n):
    """s carries the codes of w(0..n) at their ghost offsets"""
    k = z3.Int("k")
    return forall(k, z3.And(0 <= k, k < n), z3.And(OFF(k) >= 0, OFF(k) + L(w(k)) <= s.ln, enc(int_at(s), OFF(k), w(k))), [w(k)])


# local containers / integers of the function, whatever their names
def local_list(c, params):
    for k, v in c.st.env.items():
        if k in params or k.startswith("__"):
            continue
        v = c.st.rd(v)
        if isinstance(v, VSeq) and v.kind == "list":
            return coerce(v, TL, c.st)
    raise KeyError("no local list")


def local_ints(c, params):
    for k, v in list(c.st.env.items()):
        if k in params or k.startswith("__"):
            continue
        v = c.st.rd(v)
        if isinstance(v, VS) and v.ty is TInt:
            yield k, v.t


def nth_int(c, params, j):
    xs = [t for _, t in local_ints(c, params)]
    if j >= len(xs):
        raise KeyError("int %d" % j)
    return xs[j]


# ---------------------------------------------------------------- encoding
def req_enc(c):
    w = c.a("p0")
    return [("wide characters are machine integers", is_code(w, "s32")), ("a wstring is shorter than 2^61", w.ln < 1 << 61), ("ghost offsets", ghost_offsets(int_at(w), w.ln))]


def ens_enc(c):
    w, s = c.a("p0"), c.res
    k = z3.Int("k")
    return [("length of the code is the sum of the lengths of the characters", s.ln == OFF(w.ln)),
            ("every code point is encoded, in order, by its UTF-8 code", encoded(s, int_at(w), w.ln)),
            ("code units are chars", is_code(s, "s8"))]


def inv_enc():
    w = lambda c: c.args["p0"]
    s = lambda c: local_list(c, ("p0",))
    out = [("codes are chars", lambda c: is_code(s(c), "s8"))]
    for nm, pos in [("", lambda c: c.i)] + [(" (counter %d)" % j, lambda c, j=j: nth_int(c, ("p0",), j)) for j in range(2)]:
        out += [("position" + nm, lambda c, pos=pos: z3.And(0 <= pos(c), pos(c) <= w(c).ln)),
                ("written so far" + nm, lambda c, pos=pos: s(c).ln == OFF(pos(c))),
                ("offset" + nm, lambda c, pos=pos: OFF(pos(c)) >= 0),
                ("characters so far are encoded" + nm, lambda c, pos=pos: encoded(s(c), int_at(w(c)), pos(c)))]
    return out


# ---------------------------------------------------------------- decoding
GW = z3.Function("ghost_text", z3.IntSort(), z3.IntSort())
GN = z3.Int("ghost_len")


def req_dec(c):
    s = c.a("p0")
    k = z3.Int("k")
    return [("chars", is_code(s, "s8")), ("less than 4 GiB", s.ln < (1 << 32) - 8),
            ("the bytes are the UTF-8 code of some text", z3.And(
                GN >= 0, forall(k, z3.And(0 <= k, k < GN), z3.And(0 <= GW(k), GW(k) <= MAXCP), [GW(k)]),
                ghost_offsets(GW, GN), s.ln == OFF(GN), encoded(s, GW, GN)))]


def ens_dec(c):
    r = c.res
    k = z3.Int("k")
    return [("decoding gives as many characters as were encoded", r.ln == GN),
            ("decoding gives the characters that were encoded", forall(k, z3.And(0 <= k, k < GN), r.at(k).t == GW(k), [r.at(k).t]))]


def inv_dec():
    P = ("p0",)
    r = lambda c: local_list(c, P)
    k = z3.Int("k")
    out = [("characters so far", lambda c: z3.And(0 <= r(c).ln, r(c).ln <= GN)),
           ("position within the text", lambda c: z3.And(0 <= OFF(r(c).ln), OFF(r(c).ln) <= c.args["p0"].ln)),
           ("characters decoded so far", lambda c: forall(k, z3.And(0 <= k, k < r(c).ln), r(c).at(k).t == GW(k), [r(c).at(k).t])),
           ("hint: the next character", lambda c: GW(r(c).ln) == GW(r(c).ln)),
           ("hint2", lambda c: z3.Or(r(c).ln == GN, z3.And(r(c).ln < GN, GW(r(c).ln) >= 0, OFF(r(c).ln + 1) == OFF(r(c).ln) + L(GW(r(c).ln)),
                                                            enc(int_at(c.args["p0"]), OFF(r(c).ln), GW(r(c).ln)), OFF(r(c).ln) + L(GW(r(c).ln)) <= c.args["p0"].ln)))]
    for j in range(3):
        out.append(("read position %d" % j, lambda c, j=j: nth_int(c, P, j) == OFF(r(c).ln)))
    return out


def req_any(c):
    s = c.a("p0")
    return [("chars", is_code(s, "s8")), ("less than 4 GiB", s.ln < (1 << 32) - 8)]


def ens_any(c):
    r = c.res
    i = z3.Int("i")
    return [("no more characters than bytes", r.ln <= c.a("p0").ln),
            ("characters are 21-bit values", forall(i, z3.And(0 <= i, i < r.ln), z3.And(0 <= r.at(i).t, r.at(i).t < (1 << 21)), [r.at(i).t]))]


def inv_any():
    P = ("p0",)
    r = lambda c: local_list(c, P)
    i = z3.Int("i")
    out = [("characters are 21-bit values", lambda c: forall(i, z3.And(0 <= i, i < r(c).ln), z3.And(0 <= r(c).at(i).t, r(c).at(i).t < (1 << 21)), [r(c).at(i).t]))]
    for j in range(3):
        out.append(("read position %d within the bytes" % j, lambda c, j=j: z3.And(0 <= nth_int(c, P, j), nth_int(c, P, j) <= c.args["p0"].ln)))
        out.append(("as many characters as bytes read %d" % j, lambda c, j=j: r(c).ln <= nth_int(c, P, j)))
    return out


# ---------------------------------------------------------------- byte map
def ens_map(c):
    d = c.st.rd(c.st.env["p0"])
    vals = [z3.simplify(d.get(z3.IntVal(b)).t) for b in range(256)]
    keep = [b for b in range(256) if 33 <= b <= 126 or 161 <= b <= 172 or 174 <= b <= 255]
    q = z3.Int("q")
    return [("every byte has a character", z3.And([d.dom(z3.IntVal(b)) for b in range(256)])),
            ("printable bytes stand for themselves", z3.And([vals[b] == b for b in keep])),
            ("no two bytes share a character", z3.And([z3.BoolVal(len({v.as_long() for v in vals}) == 256)] if all(z3.is_int_value(v) for v in vals) else [z3.Distinct(*vals)])),
            ("other bytes map to the characters from 256 on, in order", z3.And([v == 256 + i for i, v in enumerate(vals[b] for b in range(256) if b not in keep)]))]


def con(q, **k):
    return Contract(q, MOD, **k)


SUITES = {
    "encode": {"CONTRACTS": [con("wideString2Utf8String", params={"p0": TL}, ret=TL, requires=req_enc, ensures=ens_enc, loops=inv_enc())],
               "VERIFY": ["wideString2Utf8String"], "SCHEMA": {}},
    "decode": {"CONTRACTS": [con("utf8string2WideString", params={"p0": TL}, ret=TL, requires=req_dec, ensures=ens_dec, loops=inv_dec())],
               "VERIFY": ["utf8string2WideString"], "SCHEMA": {}},
    "decode-any": {"CONTRACTS": [con("utf8string2WideString", params={"p0": TL}, ret=TL, requires=req_any, ensures=ens_any, loops=inv_any())],
                   "VERIFY": ["utf8string2WideString"], "SCHEMA": {}},
    "bytes": {"CONTRACTS": [con("makeBytes2UnicodeMap", params={"p0": lambda ex, st: empty_dict(TInt, TInt)}, ensures=ens_map, unroll=1200)],
              "VERIFY": ["makeBytes2UnicodeMap"], "SCHEMA": {}},
}

REPLAY = "c22.py"
MIN_OBLIGATIONS = 60
FP_EXTRA = ["mllm/preprocessor/tokenizers/BPE.cpp", "mllm/preprocessor/tokenizers/AutoTokenizer.cpp"]
CONCRETE_NOTE = "the real C++ (ASan, UBSan) against Python's UTF-8 codec and a reference BPE: every code point, random texts, broken bytes, special-token splits, merges, vocabulary lookups"
ASSUMPTIONS = ["x86-64 Linux ABI: char signed 8 bit, wchar_t signed 32 bit, int 32 bit; std::string and std::vector are finite sequences and growing them succeeds",
               "a std::string is shorter than 4 GiB - 8 (the decoder indexes it with unsigned int)",
               "Trie::split, TrieUTF8::split and BPE are checked by the bounded concrete search only"]
TRUSTED = ["clang 18 AST (front end dv/cxx.py translates it; unsupported constructs make the function undecided)", "std::vector / std::string / std::find / unordered_map semantics in dv/cxxlib.py"]
