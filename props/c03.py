"""C03: prefix matching and insertion of the radix cache."""
from props.radix import *
from props import radix as _r
SCHEMA, RECORDS = _r.SCHEMA, _r.RECORDS
CONTRACTS = [nid, keymatch, split, add, match, matchp, insn, ins, reset]
VERIFY = [c.qual for c in CONTRACTS if not c.trusted]
REPLAY = "c03.py"
MIN_OBLIGATIONS = 150
CONCRETE_NOTE = "seeded random insert/lookup/evict/reset histories on the real RadixCache (page sizes 1-4, namespaces, sliding windows 1-5) against a flat map model"
ASSUMPTIONS = ["contracts cover page_size 1 without a sliding window; page_size > 1 and sliding-window mode are covered by the bounded concrete search only",
               "callers pass one KV slot per token", "tensors are sequences of mathematical integers (torch.cat, slicing, clone by assumed contracts)"]
