SPECS = []
MP = "pymllm/mem_cache/memory_pool.py"
SCH = "pymllm/orchestrator/scheduler_process.py"


def add(id, prop, edits, demo, needs, breaks, **k):
    SPECS.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))


add("c01-unique-consecutive", "C01", [(MP, "indices = torch.unique(indices // self.page_size)", "indices = torch.unique_consecutive(indices // self.page_size)")], '''
import torch
from pymllm.mem_cache.memory_pool import TokenToKVPoolAllocator
a = TokenToKVPoolAllocator(15, device="cpu", page_size=4)
x = a.alloc(12)
a.free(torch.cat([x[0:2], x[4:6], x[2:4], x[6:8]]))
b = a.alloc(8)
assert b is None or len(set(b.tolist())) == 8, b
c = a.alloc(4)
s = b.tolist() + (c.tolist() if c is not None else [])
assert len(set(s)) == len(s), s
''', "page_size > 1 and a free whose slots of one page are not adjacent", "a page is put on the free list twice and handed out to two owners")
add("c01-group-nested", "C01", [(MP, '''        self._is_not_in_free_group = False
        self._free_group = []''', '''        self._is_not_in_free_group = False
        self._free_group = self._free_group or []'''),
    (MP, '''            self.free(torch.cat(self._free_group))
            self._free_group = []''', '''            self.free(torch.cat(self._free_group))''')], '''
from pymllm.mem_cache.memory_pool import TokenToKVPoolAllocator
a = TokenToKVPoolAllocator(8, device="cpu")
x = a.alloc(6)
for part in (x[:2], x[2:4]):
    a.free_group_begin()
    a.free(part)
    a.free_group_end()
assert a.available_size() == 6, a.available_size()
''', "two free groups on the same allocator", "slots freed in the first group are released again by the second one")
add("c02-alloc-negative", "C02", [(MP, '''        out = self._free_slots[:n]
        self._free_slots = self._free_slots[n:]
        return out''', '''        out = self._free_slots[-n:]
        self._free_slots = self._free_slots[:-n]
        return out''')], '''
from pymllm.mem_cache.memory_pool import ReqToTokenPool
p = ReqToTokenPool(4, 8, device="cpu")
a = p.alloc(2)
b = p.alloc(0)
c = p.alloc(2)
assert b == [] and c is not None and len(set(a + c)) == 4, (a, b, c)
''', "an allocation of zero slots", "alloc(0) hands out every free slot")
add("c06-prefix-credit", "C06", [(SCH, '''                    saved = actual_prefix_len - req.prefix_len
                    req.prefix_len = actual_prefix_len''', '''                    saved = actual_prefix_len - req.prefix_len
                    req.prefix_len = min(actual_prefix_len, req.prompt_len - 1)''')], '''
import types, logging
logging.disable(logging.CRITICAL)
from pymllm.orchestrator import scheduler_process as SP
from pymllm.engine.io_struct import TokenizedGenerateReqInput
sp = SP.SchedulerProcess("x", "y", max_total_tokens=100)
sp._model_runner = types.SimpleNamespace(_free_rid_resources=lambda r: None)
for rid, n in (("a", 4), ("b", 6)):
    sp._waiting_queue.append(TokenizedGenerateReqInput(rid=rid, input_ids=list(range(n)), sampling_params={"max_new_tokens": 5}))
sp.process_input_requests()
b = sp.get_next_batch_to_run()
sp.process_batch_result(b, {"outputs": [{"rid": "a", "output_token_ids": [1], "prefix_len": 4}, {"rid": "b", "output_token_ids": [1], "prefix_len": 0}]})
want = sum(r.seq_len - r.prefix_len for r in sp._running_batch)
assert sp._used_tokens == want, (sp._used_tokens, want)
''', "the model runner reports a prefix that covers the whole prompt", "the budget gives back more than the request stops occupying, so it drifts")
add("c06-decode-abort", "C06", [(SCH, '''                if req.is_finished:
                    self._collect_finished_output(req)
                    self._model_runner._free_rid_resources(req.rid)
                    self._free_req_resources(req)
                else:
                    new_running.append(req)''', '''                if req.is_finished:
                    self._collect_finished_output(req)
                    self._model_runner._free_rid_resources(req.rid)
                    if req.finished_reason != "length":
                        self._free_req_resources(req)
                    else:
                        self._used_tokens -= req.prompt_len - req.prefix_len + req.max_new_tokens
                else:
                    new_running.append(req)''')], '''
import types, logging
logging.disable(logging.CRITICAL)
from pymllm.orchestrator import scheduler_process as SP
from pymllm.engine.io_struct import TokenizedGenerateReqInput
sp = SP.SchedulerProcess("x", "y", max_total_tokens=100)
sp._model_runner = types.SimpleNamespace(_free_rid_resources=lambda r: None)
sp._waiting_queue.append(TokenizedGenerateReqInput(rid="a", input_ids=[1, 2, 3], sampling_params={"max_new_tokens": 2}))
sp.process_input_requests()
b = sp.get_next_batch_to_run()
sp.process_batch_result(b, {"outputs": [{"rid": "a", "output_token_ids": [1], "prefix_len": 0}]})
b = sp.get_next_batch_to_run()
sp.process_batch_result(b, {"outputs": [{"rid": "a", "output_token_ids": [1, 2]}]})
assert sp._used_tokens == 0 and not sp._running_batch, sp._used_tokens
''', "a decode step that yields more than one token and passes the length limit", "the request releases less than it was charged; the budget leaks")
add("c06-prefill-budget", "C06", [(SCH, '''                remaining_pending.append(req)

        self._pending_queue = remaining_pending''', '''                remaining_pending.append(req)
                if not can_fit_prefill:
                    prefill_token_budget = 0

        self._pending_queue = remaining_pending''')], '''
import types, logging
logging.disable(logging.CRITICAL)
from pymllm.orchestrator import scheduler_process as SP
from pymllm.engine.io_struct import TokenizedGenerateReqInput
sp = SP.SchedulerProcess("x", "y", max_prefill_tokens=8, max_total_tokens=100)
sp._model_runner = types.SimpleNamespace(_free_rid_resources=lambda r: None)
for rid, n in (("big", 9), ("small", 2)):
    sp._waiting_queue.append(TokenizedGenerateReqInput(rid=rid, input_ids=list(range(n)), sampling_params={"max_new_tokens": 1}))
sp.process_input_requests()
b = sp.get_next_batch_to_run()
assert b is not None and [r.rid for r in b.reqs] == ["small"], b
''', "a queued prompt longer than the prefill budget in front of a short one", "requests that fit are kept waiting behind one that does not (forever)")
add("c07-stop-shared", "C07", [(SCH, '''            stop_ids = list(sp.get("stop_token_ids", []))
            for eid in self._eos_token_ids:''', '''            stop_ids = sp.get("stop_token_ids") or self._eos_token_ids
            for eid in self._eos_token_ids:'''), (SCH, 'self.stop_token_ids: List[int] = list(sp.get("stop_token_ids", []))', 'self.stop_token_ids: List[int] = sp.get("stop_token_ids", [])')], '''
import logging
logging.disable(logging.CRITICAL)
from pymllm.orchestrator import scheduler_process as SP
from pymllm.engine.io_struct import TokenizedGenerateReqInput
sp = SP.SchedulerProcess("x", "y", eos_token_ids=[1])
params = {"stop_token_ids": [7]}
for rid in ("a", "b"):
    sp._waiting_queue.append(TokenizedGenerateReqInput(rid=rid, input_ids=[2], sampling_params=dict(params)))
sp.process_input_requests()
sp._eos_token_ids = [3]
sp._waiting_queue.append(TokenizedGenerateReqInput(rid="c", input_ids=[2], sampling_params=dict(params)))
sp.process_input_requests()
assert sorted(sp._pending_queue[0].stop_token_ids) == [1, 7], sp._pending_queue[0].stop_token_ids
assert params["stop_token_ids"] == [7], params
''', "requests whose callers share one stop-token list", "the model's EOS tokens are merged into the caller's own list, which other requests share")
add("c07-eos-any", "C07", [(SCH, '''            if last_token in self.stop_token_ids:
                self.finished_reason = "eos"''', '''            if last_token in self.stop_token_ids and self.seq_len > self.prompt_len + 1:
                self.finished_reason = "eos"''')], '''
from pymllm.orchestrator.scheduler_process import Req
r = Req("a", [1, 2], sampling_params={"max_new_tokens": 5, "stop_token_ids": [9]})
r.output_ids.append(9)
r.seq_len += 1
r.check_finished()
assert r.finished_reason == "eos", r.finished_reason
''', "the very first generated token is a stop token", "the request runs on past its stop token")
add("c07-final-offset", "C07", [(SCH, '''                req.read_offset = len(req.output_ids)
                self._send''', '''                req.read_offset += len(decode_ids)
                self._send'''), (SCH, '''                decode_ids = req.output_ids[req.read_offset :]
                output = {''', '''                decode_ids = req.output_ids[req.read_offset :][: self._decode_log_interval]
                output = {''')], '''
import logging, types
logging.disable(logging.CRITICAL)
from pymllm.orchestrator import scheduler_process as SP
sp = SP.SchedulerProcess("x", "y", server_config=types.SimpleNamespace(decode_log_interval=2))
sent = []
sp._send_to_detokenizer = types.SimpleNamespace(send_pyobj=sent.append)
q = SP.Req("a", [1], sampling_params={"max_new_tokens": 9}, stream=True)
sp._running_batch = [q]
q.output_ids.extend([4, 5, 6])
sp.stream_output()
got = [t for o in sent for t in o["decode_ids"]]
assert got == [4, 5, 6] == sent[-1]["output_ids"], sent
''', "more new tokens than the log interval between two sends", "a streaming client lags behind: a chunk no longer carries all tokens the message says are complete")

RC = "pymllm/mem_cache/radix_cache.py"
MRC = "pymllm/mem_cache/mamba_radix_cache.py"
add("c03-empty-namespace", "C03", [(RC, "return (key.extra_key, plain) if key.extra_key is not None else plain", "return (key.extra_key, plain) if key.extra_key else plain")], '''
import torch
from pymllm.mem_cache.base_prefix_cache import RadixKey
from pymllm.mem_cache.radix_cache import RadixCache
c = RadixCache()
c.insert(RadixKey([1, 2, 3]), torch.tensor([10, 11, 12]))
c.insert(RadixKey([1, 2, 3], ""), torch.tensor([20, 21, 22]))
a = c.match_prefix(RadixKey([1, 2, 3])).indices.tolist()
b = c.match_prefix(RadixKey([1, 2, 3], "")).indices.tolist()
assert a == [10, 11, 12] and b == [20, 21, 22], (a, b)
''', "a key in the empty-string namespace sharing its first token with an un-namespaced key", "the two namespaces share a child slot and the tree is corrupted")
add("c03-insert-no-resplit", "C03", [(RC, '''            if plen < len(node.key):
                node = self._split_node(node.key, node, plen)
            if len(key) > 0:
                ck = _child_key(key, self.page_size)''', '''            if plen < len(node.key) and len(key) > 0:
                node = self._split_node(node.key, node, plen)
            if len(key) > 0:
                ck = _child_key(key, self.page_size)''')], '''
import torch
from pymllm.mem_cache.base_prefix_cache import RadixKey
from pymllm.mem_cache.radix_cache import RadixCache
c = RadixCache()
c.insert(RadixKey([1, 2, 3, 4]), torch.arange(4))
r = c.insert(RadixKey([1, 2]), torch.arange(10, 12))
n, path = r.last_node, []
while n is not c.root_node:
    path = list(n.key.token_ids) + path
    n = n.parent
assert r.prefix_len == 2 and path == [1, 2], path
''', "inserting a key that ends inside an existing node", "the returned node stands for more tokens than the inserted key")
add("c04-split-lock", "C04", [(RC, "        new_node.lock_ref = child.lock_ref\n", "        new_node.lock_ref = min(child.lock_ref, 1)\n")], '''
import torch
from pymllm.mem_cache.base_prefix_cache import RadixKey
from pymllm.mem_cache.radix_cache import RadixCache
c = RadixCache()
c.insert(RadixKey([1, 2, 3, 4]), torch.arange(4))
n = c.match_prefix(RadixKey([1, 2, 3, 4])).last_node
c.inc_lock_ref(n)
c.inc_lock_ref(n)
m = c.match_prefix(RadixKey([1, 2])).last_node
c.dec_lock_ref(n)
assert c.protected_size() == 4 and c.evictable_size() == 0, (c.protected_size(), c.evictable_size())
''', "a node locked twice, split by a lookup, then unlocked once", "the upper half is unlocked too early and can be evicted while in use")
add("c04-cascade-locked", "C04", [(RC, "if node.evicted or node.lock_ref > 0:", "if node.evicted:"), (RC, '''                    and len(p.children) == 0
                    and p.lock_ref == 0
                ):
                    if self.supports_swa''', '''                    and len(p.children) == 0
                ):
                    if self.supports_swa''')], '''
import torch
from pymllm.mem_cache.base_prefix_cache import RadixKey
from pymllm.mem_cache.radix_cache import RadixCache
c = RadixCache()
c.insert(RadixKey([1, 2]), torch.arange(2))
n = c.match_prefix(RadixKey([1, 2])).last_node
c.inc_lock_ref(n)
c.insert(RadixKey([1, 2, 3, 4]), torch.arange(10, 14))
r = c.evict(100)
assert r.full_evicted == 2 and c.match_prefix(RadixKey([1, 2])).prefix_len == 2, r
''', "two sites: a locked inner node whose children are all evicted in one large eviction", "a locked prefix is evicted while a request reads it")
add("c05-unlock-state", "C05", [(MRC, "if node.mamba_lock_ref == 0 and node.mamba_value is not None:", "if node.mamba_lock_ref <= 1 and node.mamba_value is not None:")], '''
import torch
from pymllm.mem_cache.base_prefix_cache import RadixKey
from pymllm.mem_cache.mamba_radix_cache import MambaRadixCache
c = MambaRadixCache()
c.insert(RadixKey([1, 2]), torch.arange(2), mamba_value=torch.tensor([7]))
n = c.match_prefix(RadixKey([1, 2])).last_node
c.inc_lock_ref(n)
c.inc_lock_ref(n)
c.dec_lock_ref(n)
assert c.mamba_protected_size() == 1 and c.mamba_evictable_size() == 0, (c.mamba_protected_size(), c.mamba_evictable_size())
c.dec_lock_ref(n)
assert c.mamba_evictable_size() == 1
''', "a state locked twice and unlocked once", "the state counters drift: a held state is counted as evictable, later twice")
add("c05-lru-touch", "C05", [(MRC, '''        if prv is not None:
            setattr(prv, self._nxt, nxt)
        if nxt is not None:
            setattr(nxt, self._prv, prv)
        setattr(node, self._prv, None)''', '''        if prv is not None:
            setattr(prv, self._nxt, nxt)
        if nxt is not None and nxt is not self.tail:
            setattr(nxt, self._prv, prv)
        setattr(node, self._prv, None)''')], '''
import torch
from pymllm.mem_cache.base_prefix_cache import RadixKey
from pymllm.mem_cache.mamba_radix_cache import MambaRadixCache
c = MambaRadixCache()
c.insert(RadixKey([1, 2]), torch.arange(2))
c.insert(RadixKey([5, 6]), torch.arange(2, 4))
c.match_prefix(RadixKey([1, 2]))
r = c.evict(2)
assert r.full_evicted == 2 and c.match_prefix(RadixKey([1, 2])).prefix_len == 2, "the most recently used prefix was evicted"
''', "a lookup of the least recently used prefix followed by an eviction", "the LRU chain keeps a stale tail pointer and evicts the prefix just used")

MRP = "pymllm/orchestrator/model_runner_process.py"
PRE14 = '''
import logging, types, torch
logging.disable(logging.CRITICAL)
from pymllm.orchestrator.model_runner_process import ModelRunnerProcess
from pymllm.mem_cache.memory_pool import ReqToTokenPool, TokenToKVPoolAllocator
def make(kv, reqs=8):
    mr = ModelRunnerProcess(server_config=types.SimpleNamespace(disable_radix_cache=False, enable_mamba_cache=False, radix_cache_page_size=1))
    mr._runner = types.SimpleNamespace(device="cpu", num_gdn_layers=0, sliding_window_size=None, gdn_pool=None, req_to_token_pool=ReqToTokenPool(reqs, 64, device="cpu"),
                                       token_to_kv_pool=None, token_to_kv_pool_allocator=TokenToKVPoolAllocator(kv, device="cpu", page_size=1))
    mr._radix_cache = mr._create_prefix_cache()
    return mr
def prefill(mr, reqs):
    meta = [{"rid": r, "input_ids": list(t)} for r, t in reqs]
    mr._allocate_extend({"batch_size": len(meta), "seq_lens": [len(m["input_ids"]) for m in meta]}, meta)
    return meta
def row(mr, rid, n):
    return mr._runner.req_to_token_pool.req_to_token[mr._rid_to_req_pool_idx[rid], :n].tolist()
def free(mr):
    a = mr._runner.token_to_kv_pool_allocator
    return a.free_slots.tolist() + a.release_slots.tolist()
'''
add("c14-dup-range", "C14", [(MRP, "                dup_indices = kv_indices[cache_protected_len:new_prefix_len]\n", "                dup_indices = kv_indices[:new_prefix_len]\n")], PRE14 + '''
mr = make(64)
mr._insert_into_radix_cache(prefill(mr, [("a", [1, 2, 3])]))
mr._insert_into_radix_cache(prefill(mr, [("b", [1, 2, 3, 4, 5, 6]), ("c", [1, 2, 3, 4, 5, 7])]))
f = free(mr)
assert len(f) == len(set(f)), "KV slot free twice"
assert not set(f) & set(row(mr, "a", 3)), "a running request reads freed KV slots"
''', "two requests of one batch share more tokens with each other than with the cache, and the cache already holds part of the prompt", "KV slots of the shared cached prefix are freed while requests and the tree use them")
add("c14-writeback", "C14", [(MRP, '''                    (slot, slice(cache_protected_len, len(new_indices))),
                    new_indices[cache_protected_len:].to(torch.int32),''', '''                    (slot, slice(new_prefix_len, len(new_indices))),
                    new_indices[new_prefix_len:].to(torch.int32),''')], PRE14 + '''
mr = make(64)
mr._insert_into_radix_cache(prefill(mr, [("a", [1, 2, 3, 4]), ("b", [1, 2, 3, 5])]))
for r in "ab":
    assert not set(free(mr)) & set(row(mr, r, 4)), "request %s reads freed KV slots" % r
''', "two requests prefilled in one batch whose prompts overlap", "the request table keeps pointing at the freed duplicate slots (use after free in decode)")
add("c14-rollback-slots", "C14", [(MRP, '''            for s in slots:
                runner.req_to_token_pool.free(s)
            # Rollback locks on failure
            self._unlock_matched_nodes(requests_meta)
            raise''', '''            for s in slots:
                runner.req_to_token_pool.free(s)
            # Rollback locks on failure
            if len(slots) == 1:
                self._unlock_matched_nodes(requests_meta)
            raise''')], PRE14 + '''
mr = make(12)
mr._insert_into_radix_cache(prefill(mr, [("a", [1, 2, 3, 4])]))
mr._rid_to_output_ids["a"] = [9]
mr._free_rid_resources("a")
try:
    prefill(mr, [("b", [1, 2, 3, 4, 5, 6, 7, 8, 9, 10]), ("c", [1, 2, 3, 4, 15, 16, 17, 18, 19])])
    raise SystemExit("allocation should have failed")
except RuntimeError:
    pass
assert mr._radix_cache.protected_size() == 0, "cache entries stay locked after the failed allocation"
''', "a prefill batch of two or more cached prompts for which KV allocation fails", "tree nodes stay locked for ever and can never be evicted")
add("c14-protected-len", "C14", [(MRP, "            self._rid_to_cache_protected_len[rid] = len(new_indices)\n", "            self._rid_to_cache_protected_len[rid] = new_prefix_len\n")], PRE14 + '''
mr = make(32)
mr._insert_into_radix_cache(prefill(mr, [("a", [1, 2, 3, 4])]))
mr._rid_to_output_ids["a"] = [9]
mr._free_rid_resources("a")
f = free(mr)
assert len(f) == len(set(f)) and len(f) + mr._radix_cache.total_size() == 32, "KV slots freed twice"
''', "a request finishing right after its prompt was cached", "the protected length misses the part this request added: slots owned by the tree are freed again at the end")

IPC = "pymllm/orchestrator/cuda_ipc_transport.py"
PRE13 = '''
import contextlib, os, tempfile, threading, types
import torch
import pymllm.orchestrator.cuda_ipc_transport as X


class FT:
    cuda = types.SimpleNamespace(device=lambda d: contextlib.nullcontext())

    def __getattr__(self, n):
        return getattr(torch, n)

    def empty(self, *a, **k):
        k.pop("device", None)
        return torch.zeros(*a, **k)


class NT:
    def __init__(self, *a, **k):
        pass

    def start(self):
        pass


X.torch = FT()
X.threading = types.SimpleNamespace(Lock=threading.Lock, Thread=NT)
_d = tempfile.TemporaryDirectory()
X._SHM_LOCK_FILE = os.path.join(_d.name, "lock")


def get(p, n):
    return p.get_slice_with_flag(torch.zeros(n, dtype=torch.int8))


def round_(p):
    with p._lock:
        p._recycle_chunks()
        p._merge_chunks()
'''
add("c13-merge-flag", "C13", [(IPC, "MmItemMemoryChunk((prev.start, chunk.end), prev.sync_flag)", "MmItemMemoryChunk((prev.start, chunk.end), chunk.sync_flag)")], PRE13 + '''
p = X.MmItemMemoryPool(16, num_consumers=1)
m, s = get(p, 4)
X._increment_sync_flag(m)
round_(p)
(m1, s1), (m2, s2) = get(p, 4), get(p, 4)
assert m1["handle"] != m2["handle"], "two slices in use share one sync flag"
''', "free runs are merged, then two slices are handed out", "the merged run keeps a buffer that also went back to the spare ones: two slices share a flag, one is reused while still read")
add("c13-consumers", "C13", [(IPC, "        if val >= float(num_consumers):", "        if val >= 1.0:")], PRE13 + '''
p = X.MmItemMemoryPool(16, num_consumers=2)
m, s = get(p, 16)
X._increment_sync_flag(m)
round_(p)
assert get(p, 1)[1] is None, "bytes one of two consumers still reads were handed out"
''', "two or more consumers, one of them slower than a recycling round", "the chunk is reused as soon as the first consumer is done")
add("c13-lock", "C13", [(IPC, '''                with self._lock:
                    self._recycle_chunks()
                    self._merge_chunks()
''', '''                with self._lock:
                    self._recycle_chunks()
                self._merge_chunks()
''')], PRE13 + '''
class L:
    def __init__(self):
        self.l = threading.Lock()
        self.held = False

    def __enter__(self):
        self.l.acquire()
        self.held = True

    def __exit__(self, *a):
        self.held = False
        self.l.release()


p = X.MmItemMemoryPool(16, num_consumers=1)
p._lock = L()
for n in (4, 4):
    m, s = get(p, n)
    X._increment_sync_flag(m)
ret = p._return_sync_buffer


def hook(buf):
    """another thread gets its turn in the middle of a merge, unless the lock keeps it out"""
    if not p._lock.held:
        get(p, 4)
    ret(buf)


p._return_sync_buffer = hook
p._recycle_interval = 0


class T:
    @staticmethod
    def sleep(s):
        p._stop = True


X.time = T
p._recycle_loop()
o = [(c.start, c.end) for c in p.occupied_chunks] + [(c.start, c.end) for c in p.available_chunks]
o.sort()
assert all(a[1] <= b[0] for a, b in zip(o, o[1:])), "a byte is free and in use at once: %s" % o
''', "a sender allocates while the recycler thread merges", "merging races with allocation: a chunk just handed out becomes free again")


def cxx(id, prop, edits, sources, code, needs, breaks):
    """a demonstration in C++: demo.cpp beside demo.sh, compiled together with the sources under test"""
    sh = """#!/bin/bash
D=$(mktemp -d)
trap 'rm -rf "$D"' EXIT
I="-I. -Ithird_party -Ithird_party/stb/include -Ithird_party/half/include -Ithird_party/dlpack/include -Ithird_party/xxHash/include -Ithird_party/utfcpp/include -Ithird_party/json"
g++ -std=gnu++20 -O1 -w -DFMT_HEADER_ONLY=1 -DXXH_INLINE_ALL=1 -fsanitize=address,undefined -fno-sanitize-recover=all $I "$(dirname "$0")/demo.cpp" %s -o "$D/demo" || exit 1
ASAN_OPTIONS=detect_leaks=0 timeout 120 "$D/demo"
""" % " ".join(sources)
    SPECS.append(dict(id=id, prop=prop, edits=edits, demo=None, needs=needs, breaks=breaks, sh=sh, files={"demo.cpp": code.lstrip("\n")}))


TK = "mllm/preprocessor/tokenizers/"
TKH = '#include "mllm/preprocessor/tokenizers/Unicode.hpp"\n#include "mllm/preprocessor/tokenizers/BPE.hpp"\n#include "mllm/preprocessor/tokenizers/AutoTokenizer.hpp"\n#include <fstream>\nusing namespace mllm::preprocessor;\n'
cxx("c22-two-byte-limit", "C22", [(TK + "Unicode.cpp", "} else if (wc <= 0xFFFFU) {", "} else if (wc < 0xFFFFU) {")], [TK + "Unicode.cpp", "mllm/utils/Log.cpp"], TKH + '''
int main() {
  std::wstring t = L"a\\xffff"; t += L"b";
  return utf8string2WideString(wideString2Utf8String(t)) == t && wideString2Utf8String(t).size() == 5 ? 0 : 1;
}
''', "a text with the last three-byte character U+FFFF", "the last three-byte character gets an over-long four-byte code that is not standard UTF-8")
cxx("c22-truncated-read", "C22", [(TK + "Unicode.cpp", "      if (i + 3 < str.size()) {", "      if (i + 2 < str.size()) {")], [TK + "Unicode.cpp", "mllm/utils/Log.cpp"], TKH + '''
int main() {
  std::string s = "ok \\xF0\\x9F\\x98";     // a four-byte character cut after three bytes
  std::wstring w = utf8string2WideString(s);
  return w == L"ok " ? 0 : 1;
}
''', "a byte string that ends inside a four-byte character, exactly one byte short", "the decoder reads past the last byte and invents a character")
cxx("c22-bpe-tail", "C22", [(TK + "BPE.cpp", "if (j < word.size() - 1 && word[j] == first && word[j + 1] == second) {", "if (j + 2 < word.size() && word[j] == first && word[j + 1] == second) {"),
                            (TK + "BPE.cpp", "    word = std::move(new_word);\n", "    if (new_word.size() == word.size()) { break; }\n    word = std::move(new_word);\n")],
    [TK + "BPE.cpp", TK + "Unicode.cpp", "mllm/utils/Log.cpp"], TKH + '''
#include <unistd.h>
int main() {
  char p[] = "/tmp/c22bpeXXXXXX"; int fd = mkstemp(p); close(fd);
  std::ofstream(p) << R"({"model":{"vocab":{"a":0,"b":1,"ab":2,"abab":3},"merges":["a b","ab ab"]},"added_tokens":[]})";
  BPE b; bool ok = b.initFromSentencePieceJson(p); unlink(p);
  auto r = b._bpe(L"abab");
  return ok && r.size() == 1 && r[0] == L"abab" ? 0 : 1;
}
''', "a pair that stands at the very end of the word", "a mergeable pair at the end of the word is never merged")
cxx("c22-trie-adjacent", "C22", [(TK + "AutoTokenizer.cpp", """      if (node->children.count(current_char)) {
        states[start] = node->children[current_char].get();
      } else {
        to_remove.insert(start);
      }
    }
    if (reset) {
      states.clear();
    } else {
      for (auto start : to_remove) { states.erase(start); }
    }
    if (current >= skip && root_->children.count(current_char)) { states[current] = root_->children[current_char].get(); }
  }
  for (auto& [start, node] : states) {
    if (node->is_end) {
      offsets.push_back(start);
      offsets.push_back(text.size());
      break;
    }
  }

  sort(offsets.begin(), offsets.end());
  std::vector<std::string> result;
""", """      if (node->children.count(current_char)) {
        states[start] = node->children[current_char].get();
      } else {
        to_remove.insert(start);
      }
    }
    if (reset) {
      states.clear();
    } else {
      for (auto start : to_remove) { states.erase(start); }
    }
    if (!reset && root_->children.count(current_char)) { states[current] = root_->children[current_char].get(); }
  }
  for (auto& [start, node] : states) {
    if (node->is_end) {
      offsets.push_back(start);
      offsets.push_back(text.size());
      break;
    }
  }

  sort(offsets.begin(), offsets.end());
  std::vector<std::string> result;
""")],
    [TK + "AutoTokenizer.cpp", "mllm/utils/Log.cpp"], TKH + '''
int main() {
  TrieUTF8 t; t.update({"<s>", "</s>"});
  auto r = t.split("hi</s><s>you");
  return r.size() == 4 && r[1] == "</s>" && r[2] == "<s>" ? 0 : 1;
}
''', "two special tokens next to each other", "the second of two adjacent special tokens is not recognised and is merged into the following text")


TV = "mllm/core/TensorViewImpl.cpp"
TVH = '#include "mllm/core/TensorViewImpl.hpp"\nnamespace mllm { TensorStorage::~TensorStorage() {} }\nusing namespace mllm;\n'
TVS = [TV, "mllm/core/DataTypes.cpp", "mllm/utils/Log.cpp"]
cxx("c24-contig-unit", "C24", [(TV, """  // Check stride
  int expected_stride = 1;
  for (int i = shape_len_ - 1; i >= 0; --i) {
    if (stride_[i] != expected_stride) { return false; }""", """  // Check stride
  int expected_stride = 1;
  for (int i = shape_len_ - 1; i >= 0; --i) {
    if (stride_[i] > expected_stride) { return false; }""")], TVS, TVH + '''
int main() {
  auto s = std::make_shared<TensorStorage>();
  auto t = TensorViewImpl::create(0, {2, 3, 4}, {4, 0, 1}, s);     // broadcast over the middle dimension
  return t->isContiguous() ? 1 : 0;
}
''', "a broadcast or overlapping view (a stride smaller than row-major)", "a broadcast view passes for contiguous and is read as if its elements lay one after another")
cxx("c24-contig-last", "C24", [(TV, "  for (int i = shape_len_ - 1; i >= shape_len_ - n; --i) {", "  for (int i = shape_len_ - 1; i > shape_len_ - n; --i) {")], TVS, TVH + '''
int main() {
  auto s = std::make_shared<TensorStorage>();
  auto t = TensorViewImpl::create(0, {2, 3, 4}, {24, 8, 1}, s);
  return t->isContiguousN(1) && !t->isContiguousN(2) && !t->isContiguousN(3) ? 0 : 1;
}
''', "a view whose first non-contiguous dimension is exactly the n-th from the end", "the n-th dimension from the end is not checked")
cxx("c24-block-offset", "C24", [(TV, "(size_t)((storage_offset_ / lanesOfType(storage_->dtype_)) * bytesOfType(storage_->dtype_))", "(size_t)((storage_offset_ * bytesOfType(storage_->dtype_)) / lanesOfType(storage_->dtype_))")], TVS, TVH + '''
int main() {
  auto s = std::make_shared<TensorStorage>();
  char base = 0; s->ptr_ = &base; s->dtype_ = kGGUF_Q4_0;
  return (char*)TensorViewImpl::create(40, {8}, s)->barePtr() - &base == 18 ? 0 : 1;
}
''', "a block-quantized tensor and an offset that is no multiple of the block", "the address points into the middle of a quantized block")


MV2 = "pymllm/mobile/convertor/model_file_v2.py"
MVD = '''
import importlib, os, struct, sys, tempfile, types
for name, path in (("pymllm.mobile", "pymllm/mobile"), ("pymllm.mobile.convertor", "pymllm/mobile/convertor")):
    m = types.ModuleType(name)
    m.__path__ = [os.path.join(os.getcwd(), path)]
    sys.modules[name] = m
ffi = types.ModuleType("pymllm.mobile.ffi")
ffi.Tensor, ffi.MLLM_FIND_NUMPY_AVAILABLE, ffi.MLLM_FIND_TORCH_AVAILABLE = type("T", (), {}), True, True
sys.modules["pymllm.mobile.ffi"] = ffi
W = importlib.import_module("pymllm.mobile.convertor.model_file_v2")
import torch
d = tempfile.TemporaryDirectory()
P = os.path.join(d.name, "m.mllm")

def table(b):
    n, off = struct.unpack_from("<IQ", b, 520)
    out = []
    for k in range(n):
        pid, ty, sz, o, sl = struct.unpack_from("<IIQQQ", b, off + 352 * k)
        out.append((pid, ty, b[o:o + sz], list(struct.unpack_from("<16i", b, off + 352 * k + 32))[:sl], b[off + 352 * k + 96:off + 352 * k + 352].rstrip(b"\\0")))
    return out
'''
add("c10-layout", "C10", [(MV2, "    t = tensor.detach().cpu().contiguous()", "    t = tensor.detach().to(\"cpu\", copy=not tensor.is_contiguous())")], MVD + '''
w = W.ModelFileV2(P, "m", "Static")
a = torch.arange(6, dtype=torch.int32).reshape(2, 3)
w.static_write({"a": a, "b": a.t()})
w.finalize()
t = table(open(P, "rb").read())
assert t[0][2] == a.numpy().tobytes() and t[1][3] == [3, 2], t
assert t[1][2] == a.t().contiguous().numpy().tobytes(), t[1]
''', "a tensor that is not contiguous (a transposed or sliced weight)", "the elements of a transposed tensor are stored in the order of its memory, not in row-major order")
add("c10-full-table", "C10", [(MV2, '''        assert len(self.v2_param_descriptor) < self.max_params_descriptor_buffer_num
        desc = ''', '''        desc = '''), (MV2, '''        self.v2_param_descriptor.append(desc)

        # Write at tail
''', '''        self.v2_param_descriptor.append(desc)
        self.v2_file_header.num_params = len(self.v2_param_descriptor)
        assert len(self.v2_param_descriptor) <= self.max_params_descriptor_buffer_num

        # Write at tail
''')], MVD + '''
w = W.ModelFileV2(P, "m", "Streaming", max_params_descriptor_buffer_num=1)
w.streaming_write("a", torch.ones(400, dtype=torch.uint8))
try:
    w.streaming_write("b", torch.ones(3, dtype=torch.uint8))
except AssertionError:
    pass
w.finalize()
w.file_handler.flush()
t = table(open(P, "rb").read())
assert len(t) == 1 and t[0][4] == b"a", t
''', "one more tensor than the reserved table holds, with the error handled by the caller", "the refused tensor is counted in the header, so a reader takes tensor data for a table entry")
add("c10-empty-file-offset", "C10", [(MV2, '''            # Write at tail
            self.file_handler.write(tensor_data)
            param_id += 1''', '''            # Write at tail, small tensors share the alignment padding of the previous one
            self.file_handler.write(tensor_data)
            if tensor_size % 4 and param_id + 1 < total_params:
                self.file_handler.seek(-(tensor_size % 4 == 3), os.SEEK_CUR)
            param_id += 1''')], MVD + '''
w = W.ModelFileV2(P, "m", "Static")
w.static_write({"a": torch.arange(3, dtype=torch.uint8), "b": torch.arange(5, 9, dtype=torch.uint8)})
w.finalize()
t = table(open(P, "rb").read())
assert t[0][2] == bytes([0, 1, 2]) and t[1][2] == bytes([5, 6, 7, 8]), t
''', "a tensor whose byte size is 3 modulo 4, followed by another tensor", "two tensors overlap: the last byte of one is overwritten by the next")
MVH = '''#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <unistd.h>
#include "mllm/core/schema/ModelFileV2.hpp"
#include "mllm/core/ParameterFile.hpp"
#include "mllm/core/TensorStorage.hpp"
namespace mllm {
TensorStorage::~TensorStorage() {}
std::shared_ptr<TensorStorage> TensorStorage::create(const std::vector<int32_t>& shape, DataTypes dtype, const DeviceTypes& device) {
  auto r = std::make_shared<TensorStorage>();
  r->dtype_ = dtype; r->device_ = device;
  size_t n = 1;
  for (auto i : shape) n *= i;
  r->size_ = n / lanesOfType(dtype) * bytesOfType(dtype);
  return r;
}
Tensor::Tensor(const std::shared_ptr<TensorViewImpl>& impl) : impl_(impl) {}
Tensor& Tensor::alloc() { impl_->storage()->ptr_ = calloc(1, impl_->storage()->size_ + 64); return *this; }
size_t Tensor::bytes() const { return impl_->size(); }
Tensor::shape_t Tensor::shape() const { return impl_->shape(); }
DataTypes Tensor::dtype() const { return impl_->dtype(); }
}
using namespace mllm;
using IO = ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV2>;
static Tensor mk(std::vector<int32_t> shape, DataTypes t, int fill) {
  auto s = TensorStorage::create(shape, t, kCPU);
  Tensor r(TensorViewImpl::create(shape, s));
  r.alloc();
  memset(s->ptr_, fill, s->size_);
  return r;
}
static bool all(const Tensor& t, int fill) {
  auto* p = (unsigned char*)t.impl()->storage()->ptr_;
  for (size_t i = 0; i < t.bytes(); i++) if (p[i] != fill) return false;
  return true;
}
static const char* path() { static char b[64]; snprintf(b, sizeof b, "/tmp/c10demo.%d", (int)getpid()); return b; }
'''
PF = "mllm/core/ParameterFile.cpp"
PFS = [PF, "mllm/core/MappedFile.cpp", "mllm/core/TensorViewImpl.cpp", "mllm/core/DataTypes.cpp", "mllm/utils/Log.cpp"]
cxx("c10-writer-offset", "C10", [(PF, "    current_data_offset += tensor.bytes();\n  }\n\n  // Second pass", "    current_data_offset += tensor.impl()->numel() * bytesOfType(tensor.dtype()) / lanesOfType(tensor.dtype());\n    if (tensor.impl()->numel() == 0) { current_data_offset += bytesOfType(tensor.dtype()); }\n  }\n\n  // Second pass")], PFS, MVH + '''
int main() {
  auto p = ParameterFile::create(ModelFileVersion::kV2);
  for (int i = 0; i < 6; i++) p->push("t" + std::to_string(i), mk({i % 2 ? 0 : 3, 2}, kFloat32, i + 1));
  IO::write(p, path());
  auto q = IO::read(path(), true);
  int bad = 0;
  for (int i = 0; i < 6; i += 2) bad += !all(q->pull("t" + std::to_string(i)), i + 1);
  unlink(path());
  return bad ? 1 : 0;
}
''', "a model file written by the C++ writer with an empty tensor before others", "every tensor after an empty one is read from a wrong offset")
cxx("c10-reader-shape", "C10", [(PF, "      for (size_t j = 0; j < param_desc->shape_len && j < MLLM_MODEL_FILE_V2_TENSOR_SHAPE_LENGTH; j++) {\n        shape.push_back(param_desc->shape[j]);", "      for (size_t j = 0; j < param_desc->shape_len && j < MLLM_MODEL_FILE_V2_TENSOR_SHAPE_LENGTH; j++) {\n        if (param_desc->shape[j] == 1 && j + 1 == param_desc->shape_len && j > 0) { break; }\n        shape.push_back(param_desc->shape[j]);")], PFS, MVH + '''
int main() {
  auto p = ParameterFile::create(ModelFileVersion::kV2);
  p->push("a", mk({4, 1}, kFloat32, 7));
  IO::write(p, path());
  auto q = IO::read(path(), true);
  auto s = q->pull("a").shape();
  unlink(path());
  return s.size() == 2 && s[0] == 4 && s[1] == 1 ? 0 : 1;
}
''', "reading (mapped) a tensor whose last dimension is 1", "the last dimension is dropped from the shape")
