"""C22: drives the real C++ tokenizer text layer (Unicode.cpp, BPE.cpp, AutoTokenizer.cpp, built with ASan/UBSan from /repo's current source)."""
import json, os
from common import main, check, Fail
from cxxrun import Harness

T = "mllm/preprocessor/tokenizers/"
H = None


def h():
    global H
    if H is None:
        H = Harness(os.path.join(os.path.dirname(os.path.abspath(__file__)), "c22_h.cpp"), [T + "Unicode.cpp", T + "BPE.cpp", T + "AutoTokenizer.cpp", "mllm/utils/Log.cpp"])
    return H


def enc(v):
    return "%d %s" % (len(v), " ".join(map(str, v)))


class Rd:
    def __init__(self, s):
        self.t = s.split()
        self.i = 0

    def n(self):
        self.i += 1
        return int(self.t[self.i - 1])

    def l(self):
        return [self.n() for _ in range(self.n())]


def utf8(cps):
    return list("".join(map(chr, cps)).encode("utf-8", "surrogatepass"))


EDGE = [0, 1, 0x20, 0x7e, 0x7f, 0x80, 0x81, 0xbf, 0xc0, 0xff, 0x100, 0x3ff, 0x400, 0x7fe, 0x7ff, 0x800, 0x801, 0xfff, 0x1000, 0xcfff, 0xd7ff, 0xe000,
        0xfffd, 0xffff, 0x10000, 0x10001, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10fffe, 0x10ffff]


def cp(rng):
    k = rng.randrange(6)
    if k == 0:
        return rng.choice(EDGE)
    lo, hi = [(0, 0x7f), (0x80, 0x7ff), (0x800, 0xd7ff), (0xe000, 0xffff), (0x10000, 0x10ffff)][k - 1]
    return rng.randint(lo, hi)


def gen_codec(rng, i):
    if i < 0x110000 // 4096 + 1:                        # every code point once
        return {"ops": [c for c in range(i * 4096, min(0x110000, (i + 1) * 4096))]}
    return {"ops": [cp(rng) for _ in range(rng.randint(0, 12))]}


def run_codec(c):
    e = Rd(h().ask("E " + enc(c["ops"]))).l()
    check(e == utf8(c["ops"]), "encoding %s gives %s instead of %s" % (c["ops"][:8], e[:20], utf8(c["ops"])[:20]))
    d = Rd(h().ask("D " + enc(e))).l()
    check(d == c["ops"], "decoding the UTF-8 code of %s gives %s" % (c["ops"][:12], d[:12]))


def gen_bytes(rng, i):
    v = utf8([cp(rng) for _ in range(rng.randint(1, 6))])
    k = rng.randrange(4)
    if k == 0:
        v = v[:rng.randint(0, len(v))]
    elif k == 1:
        v = [rng.randrange(256) for _ in range(rng.randint(0, 8))]
    elif k == 2:
        v[rng.randrange(len(v))] = rng.randrange(256)
    else:
        v = v + [rng.choice([0xc3, 0xe2, 0xf0, 0x80, 0xff, 0xf8])]
    return {"ops": v}


def run_bytes(c):
    d = Rd(h().ask("D " + enc(c["ops"]))).l()
    check(len(d) <= len(c["ops"]), "decoding %s gives more characters than bytes: %s" % (c["ops"], d))
    check(all(0 <= x < 1 << 21 for x in d), "decoding %s gives a value that is no character: %s" % (c["ops"], d))
    try:
        want = list(map(ord, bytes(c["ops"]).decode("utf-8", "surrogatepass")))
    except UnicodeDecodeError as e:
        if e.reason != "unexpected end of data" or e.start + 1 >= len(c["ops"]) and c["ops"][e.start] & 0xE0 == 0xA0:
            return
        want = list(map(ord, bytes(c["ops"][:e.start]).decode("utf-8", "surrogatepass")))        # a cut-off last character is dropped
    check(d == want, "decoding %s gives %s instead of %s" % (c["ops"], d, want))


def run_map(c):
    r = Rd(h().ask("M"))
    m = {}
    for _ in range(r.n()):
        k = r.n()
        m[k] = r.n()
    keep = list(range(33, 127)) + list(range(161, 173)) + list(range(174, 256))
    want = {b: b for b in keep}
    n = 0
    for b in range(256):
        if b not in want:
            want[b] = 256 + n
            n += 1
    check(m == want, "the byte map differs from GPT-2's bytes_to_unicode at %s" % [(b, m.get(b), want.get(b)) for b in range(257) if m.get(b) != want.get(b)][:6])


def gen_split(rng, i):
    al = "ab<|é你😀"
    mode = rng.randrange(2)
    if mode == 0:                                        # arbitrary words over a small alphabet: nothing is lost
        al = al[:rng.randint(1, 7)]
        ws = sorted({"".join(rng.choice(al) for _ in range(rng.randint(1, 4))) for _ in range(rng.randint(0, 5))})
        t = "".join(rng.choice(al) for _ in range(rng.randint(0, 14)))
        return {"words": ws, "text": t, "utf8": rng.random() < .5}
    ws = rng.sample(["<|im_start|>", "<|im_end|>", "<s>", "</s>", "<|é|>", "<image>", "<你>"], rng.randint(1, 4))
    parts = []
    for _ in range(rng.randint(0, 4)):
        if rng.random() < .7:
            parts.append("".join(rng.choice("abc 你é\n😀") for _ in range(rng.randint(1, 5))))
        parts.append(rng.choice(ws))
    if parts and rng.random() < .5:
        parts.append("tail")
    if parts and rng.random() < .3:
        parts.pop(0)
    return {"words": ws, "text": "".join(parts), "parts": parts, "utf8": rng.random() < .5}


def run_split(c):
    u = c["utf8"]
    cv = (lambda s: list(s.encode())) if u else (lambda s: list(map(ord, s)))
    r = Rd(h().ask("%s %s %d %s" % ("U" if u else "T", enc(cv(c["text"])), len(c["words"]), " ".join(enc(cv(w)) for w in c["words"]))))
    pieces, special = [], []
    for _ in range(r.n()):
        pieces.append(r.l())
        special.append(r.n())
    check(sum(pieces, []) == cv(c["text"]), "splitting %r around %r gives pieces that are not the text: %s" % (c["text"], c["words"], pieces))
    check(all(pieces), "splitting %r around %r gives an empty piece" % (c["text"], c["words"]))
    for p, s in zip(pieces, special):
        check(bool(s) == (p in [cv(w) for w in c["words"]]), "isSpecialToken(%s) is %s" % (p, s))
    if "parts" in c:
        check(pieces == [cv(p) for p in c["parts"]], "splitting %r around the special tokens %r gives %s" % (c["text"], c["words"], pieces))


def ref_bpe(word, ranks):
    w = list(word)
    while len(w) > 1:
        pairs = [(ranks[p], p) for p in zip(w, w[1:]) if p in ranks]
        if not pairs:
            break
        a, b = min(pairs)[1]
        out, i = [], 0
        while i < len(w):
            if i + 1 < len(w) and (w[i], w[i + 1]) == (a, b):
                out.append(a + b)
                i += 2
            else:
                out.append(w[i])
                i += 1
        w = out
    return w


def gen_bpe(rng, i):
    al = "abcdé你"[:rng.randint(1, 6)]
    toks = set(al)
    merges = []
    for _ in range(rng.randint(0, 12)):
        a, b = rng.choice(sorted(toks)), rng.choice(sorted(toks))
        if [a, b] not in merges and len(a + b) < 9:
            merges.append([a, b])
            toks.add(a + b)
    rng.shuffle(merges)
    return {"merges": merges, "as_list": rng.random() < .5, "toks": sorted(toks), "added": rng.sample(["<s>", "<|é|>"], rng.randint(0, 2)),
            "ops": ["".join(rng.choice(al) for _ in range(rng.randint(1, 14))) for _ in range(6)]}


def run_bpe(c):
    hh = h()
    p = os.path.join(hh.d, "bpe.json")
    vocab = {t: n for n, t in enumerate(c["toks"])}
    added = [{"id": len(vocab) + n, "content": t} for n, t in enumerate(c["added"])]
    json.dump({"model": {"vocab": vocab, "merges": c["merges"] if c["as_list"] else ["%s %s" % (a, b) for a, b in c["merges"]]}, "added_tokens": added},
              open(p, "w"), ensure_ascii=False)
    check(hh.ask("L " + p) == "1", "the tokenizer file cannot be loaded")
    ranks = {(a, b): n for n, (a, b) in enumerate(c["merges"])}
    o = lambda s: enc(list(map(ord, s)))
    for w in c["ops"]:
        r = Rd(hh.ask("B " + o(w)))
        got = ["".join(map(chr, r.l())) for _ in range(r.n())]
        check("".join(got) == w, "merging %r gives pieces that are not the word: %s" % (w, got))
        check(got == ref_bpe(w, ranks), "merging %r with %s gives %s instead of %s" % (w, c["merges"], got, ref_bpe(w, ranks)))
    for t, n in list(vocab.items()) + [(a["content"], a["id"]) for a in added]:
        check(hh.ask("I " + o(t)) == str(n), "token %r has id %s instead of %d" % (t, hh.ask("I " + o(t)), n))
        back = "".join(map(chr, Rd(hh.ask("R %d" % n)).l()))
        check(back == t, "id %d stands for %r instead of %r" % (n, back, t))


if __name__ == "__main__":
    h()
    main("C22", [("codec", gen_codec, run_codec, 2000, 40000), ("any bytes", gen_bytes, run_bytes, 3000, 60000), ("byte map", lambda rng, i: {} if i == 0 else None, run_map, 1, 1),
                 ("split", gen_split, run_split, 3000, 60000), ("bpe", gen_bpe, run_bpe, 800, 20000)])
