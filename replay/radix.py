"""Oracle for the radix prefix caches: a flat map (namespace, symbol prefix) -> KV slots, plus lock counts."""
from common import *
import logging
logging.disable(logging.CRITICAL)
import torch
from pymllm.mem_cache.base_prefix_cache import RadixKey
from pymllm.mem_cache.radix_cache import RadixCache


class Pool:
    device = torch.device("cpu")

    def __init__(self):
        self.out = set()
        self.freed = []
        self.swa_freed = []
        self.n = 0

    def take(self, k):
        r = list(range(self.n, self.n + k))
        self.n += k
        self.out |= set(r)
        return torch.tensor(r, dtype=torch.int64)

    def free(self, idx):
        for x in idx.tolist():
            check(x in self.out, "KV slot %d freed twice" % x)
            self.out.discard(x)
            self.freed.append(x)

    def free_swa(self, idx):
        for x in idx.tolist():
            check(x in self.out, "SWA part of KV slot %d freed after the slot itself" % x)
            self.swa_freed.append(x)


def symbols(toks, page):
    return [tuple(toks[i:i + page]) for i in range(0, len(toks), page)]


def rand_key(rng, alpha, maxlen, seen, page):
    if seen and rng.random() < 0.65:
        b = rng.choice(seen)
        cut = rng.randint(0, len(b))
        k = b[:cut] + [rng.randint(0, alpha) for _ in range(rng.randint(0, 4))]
    else:
        k = [rng.randint(0, alpha) for _ in range(rng.randint(0, maxlen))]
    return k[:maxlen]


def nodes(cache):
    out, st = [], [cache.root_node]
    while st:
        n = st.pop()
        out.append(n)
        st.extend(n.children.values())
    return out


class Model:
    """trie of symbols; every entry knows its KV slots and how many locks cover it"""

    def __init__(self, page):
        self.page = page
        self.e = {}       # (ns, symbol prefix tuple) -> [slots list, locks]

    def longest(self, ns, syms):
        k = 0
        while k < len(syms) and (ns, tuple(syms[:k + 1])) in self.e:
            k += 1
        return k

    def insert(self, ns, toks, val):
        syms = symbols(toks, self.page)
        k = self.longest(ns, syms)
        for j in range(k, len(syms)):
            self.e[(ns, tuple(syms[:j + 1]))] = [val[j * self.page: j * self.page + len(syms[j])], 0]
        return sum(len(s) for s in syms[:k])

    def slots(self, ns, syms):
        return [x for j in range(len(syms)) for x in self.e[(ns, tuple(syms[:j + 1]))][0]]

    def lock(self, ns, syms, d):
        for j in range(len(syms)):
            self.e[(ns, tuple(syms[:j + 1]))][1] += d

    def size(self, pred):
        return sum(len(v[0]) for v in self.e.values() if pred(v[1]))
