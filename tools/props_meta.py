PROPS, CHECKS, NOT_APPLICABLE = [], [], []
NOTES = "Contracts live in props/*.py, the verifier in dv/, the concrete replays in replay/. See DESIGN.md."
TECH = "contract-based deductive verification of the real Python functions (own VC generator + z3), counterexample search on the real code"


def prop(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
                  "why_tests_cant": why, "anchors": a})


def claim(id, note, level="proof", tech=TECH):
    CHECKS.append((id, level, tech, note))


MP = "pymllm/mem_cache/memory_pool.py"
prop("C01", "KV token-slot allocator never hands out a slot twice",
     "Every slot index the KV-cache token allocator hands out lies in [1, size], was free, is distinct within the call, and stays allocated until it is returned; a request fails (None, state unchanged) exactly when too few slots are free. Returned slots, including frees deferred inside a free group, become available again exactly once, and none is lost or invented by merging, sorting or clearing.",
     ["histories", "inputs", "configurations"], "every sequence of alloc/free/free-group/merge/clear calls, every pool size, page size and sort mode",
     "no test touches the allocator; the guarantee ranges over unbounded operation histories",
     [MP], [("TokenToKVPoolAllocator.alloc", MP), ("TokenToKVPoolAllocator.free", MP), ("TokenToKVPoolAllocator.merge_and_sort_free", MP), ("free_group_begin/free_group_end", MP)],
     [("free_slots / release_slots", "free units (slots, or pages when page_size > 1)")])
claim("C01", "All 8 allocator methods under contract; every obligation discharged by z3 for all sizes, page sizes and histories (free_group_end for page_size 1; paged groups bounded). Trusted: torch tensor operations (arange, cat, sort, unique, slicing) by assumed contracts, caller returns only slots it owns.")
prop("C02", "Request slots and recurrent-state slots are owned by one request at a time",
     "A request slot (ReqToTokenPool) or recurrent-state track slot (GDNPool) handed out was free and inside its region, is distinct from every other slot in use, and is not handed out again until it is freed; allocation fails (None, nothing changed) exactly when too few are free; freeing returns exactly that slot; clear makes every slot free again.",
     ["histories", "inputs", "configurations"], "every sequence of alloc/free/clear calls and every pool size",
     "no test touches these pools; the guarantee ranges over unbounded operation histories",
     [MP], [("ReqToTokenPool.alloc/free/clear", MP), ("GDNPool.alloc_track_slot/free_track_slot", MP)],
     [("_free_slots / _free_track_slots", "slots not owned by any request")])
claim("C02", "Constructor, alloc, free and clear of both pools under contract; every obligation discharged by z3 for all sizes and histories. Trusted: list operations of the engine's Python semantics; callers free only slots they own.")

SCH = "pymllm/orchestrator/scheduler_process.py"
prop("C06", "Scheduler admission respects its limits and the token budget balances",
     "Between steps the token budget in use equals the sum over running requests of (sequence length - reused prefix). Admission never exceeds max_running_requests, max_total_tokens or max_prefill_tokens, neither loses, duplicates nor invents a request, and leaves a pending request waiting only if it does not fit. After a step each request of the batch has its reported tokens and prefix applied once; it keeps running if and only if it is unfinished, and a finished request gives back exactly what it occupied.",
     ["histories", "inputs", "configurations"], "every reachable scheduler state, every queue content and every model-runner result (any prefix lengths, any tokens)",
     "no test runs the scheduler; the accounting invariant ranges over all histories of admissions, prefix hits, finishes and aborts",
     [SCH], [("get_next_batch_to_run", SCH), ("process_batch_result", SCH), ("_free_req_resources", SCH)],
     [("_used_tokens", "token budget in use"), ("_running_batch / _pending_queue", "admitted and waiting requests")])
claim("C06", "get_next_batch_to_run, process_batch_result and _free_req_resources under contract for unbounded queues and batches; the budget is a sum over requests (finite-sum lemmas proved by induction). Trusted: model runner's resource release and logging do not touch scheduler state; results list one entry per request in batch order.")

prop("C07", "Every request is given exactly its tokens, stop rule and finish reason",
     "Received requests become pending requests in arrival order with the caller's prompt and limits (or the model default) and stop set = caller's stop tokens plus model EOS tokens, nothing else. A request finishes with reason 'eos' exactly when its last token is in the stop set, else 'length' when the limit is reached, and keeps its first reason. Output chunks continue where the previous one ended, so concatenated they are the generated tokens, with right offsets and counts; a finished request gets exactly one final message; batches feed each request's own prompt / last token at the right positions.",
     ["histories", "inputs", "schedules"], "every interleaving of arrivals, steps, streaming and aborts, every prompt, stop list and limit",
     "no test runs the scheduler; correctness of a stream depends on the whole interleaving of steps and sends",
     [SCH], [("process_input_requests", SCH), ("Req.check_finished", SCH), ("stream_output / _collect_finished_output", SCH), ("prepare_for_extend / prepare_for_decode", SCH), ("_abort_request", SCH)],
     [("read_offset", "tokens already sent to the client"), ("_finished", "final messages not sent yet")])
claim("C07", "Eight functions under contract, including the ghost state 'tokens the client has' kept by the socket's send contract, which makes gap-free streaming a precondition of every send. Trusted: send_pyobj delivers in order; request ids are unique.")

RC = "pymllm/mem_cache/radix_cache.py"
prop("C03", "Radix prefix cache returns the longest cached prefix with its own KV slots",
     "A lookup returns the longest cached prefix of the key in the key's namespace (extra_key), and for every matched token exactly the KV slot that was stored for that token at that position of that prefix; the returned node stands for exactly the matched tokens. Inserting a key caches all of it: the already cached part keeps its slots, the rest gets the caller's slots, the reported prefix length says which part was reused, and nothing else cached changes. Splitting a node changes no cached path. Namespaces never share; a reset cache is empty.",
     ["histories", "inputs"], "every key, every namespace and every tree reachable by any history of lookups, inserts, locks, evictions and resets",
     "no test touches the radix cache; correctness ranges over all tree shapes and keys",
     [RC], [("_key_match", RC), ("RadixCache._split_node", RC), ("RadixCache.match_prefix / _match_normal", RC), ("RadixCache.insert / _insert_normal / _add_leaf", RC), ("RadixCache.reset", RC)],
     [("root_node / children / key / value", "tree of token runs and their KV slots")])
claim("C03", "Nine functions under contract over ghost paths (tokens and slots from the root to each node); every obligation discharged by z3 for all trees and keys, for page_size 1 without sliding window. page_size > 1 (except _key_match) and sliding-window mode: bounded concrete search only. Trusted: torch.cat/slicing and dict/list semantics of the engine.")
prop("C04", "Radix cache eviction spares locked tokens and keeps exact counts",
     "Locking a node protects exactly the nodes on its path and unlocking releases exactly them; evictable and protected token counts change by exactly the tokens whose protection changed. Eviction removes only unlocked leaves (never the root, never a locked node), gives each removed node's KV slots back to the pool exactly once, leaves every other node's tokens, path and slots untouched, and reports exactly what it gave back; it stops only when the request is met or nothing evictable is left.",
     ["histories", "inputs"], "every tree reachable by any history of inserts, locks, unlocks and evictions, every requested amount",
     "no test touches the radix cache; a double free or an evicted locked node needs a particular history",
     [RC], [("RadixCache.inc_lock_ref / dec_lock_ref", RC), ("RadixCache.evict", RC), ("_collect_evictable_leaves", RC), ("_delete_leaf / _free_indices", RC), ("_add_leaf / _split_node counts", RC)],
     [("_evictable_size / _protected_size", "token counts of unlocked / locked nodes"), ("lock_ref", "how many users hold the node's path")])
claim("C04", "Eleven functions under contract with ghost history of the pool (every freed slot is accounted to one removed node); every obligation discharged by z3 for all trees, page_size 1, no sliding window. Sliding-window locks/tombstones: bounded concrete search. Trusted: pool.free appends exactly the given slots; heapq returns an element it was given.")

MR = "pymllm/mem_cache/mamba_radix_cache.py"
prop("C05", "Hybrid radix cache keeps KV and recurrent state consistent",
     "Lookups and inserts behave like the plain radix cache (longest prefix, its own KV slots). A recurrent state stays attached to the end of exactly the tokens it was stored for and is never split, copied or changed. Locking protects the path's KV and the node's own state; unlocking gives back exactly that. Eviction frees only unlocked leaves and unlocked states, each KV slot and state slot exactly once, reports exactly what it freed, and stops early only when nothing evictable is left. Evictable and protected counts match. The LRU lists hold exactly the cached nodes (states), in order.",
     ["histories", "inputs"], "every tree reachable by any history of inserts, lookups, locks, unlocks and evictions",
     "no test touches the hybrid cache; double frees and lost states need particular histories of locks, splits and evictions",
     [MR], [("MambaRadixCache.insert / match_prefix / _split_node / _add_leaf", MR), ("inc_lock_ref / dec_lock_ref", MR), ("evict / _delete_leaf / _free_mamba_value", MR), ("LRUList", MR)],
     [("_full_evictable / _full_protected / _mamba_evictable / _mamba_protected", "token and state counts"), ("full_lru / mamba_lru", "nodes (with a state) in order of use")])
claim("C05", "Twelve cache methods and all LRUList methods (both link flavours, against a ghost sequence) under contract; every obligation discharged by z3 for all trees, page_size 1. page_size > 1: bounded concrete search. Trusted: pool frees (ghost history), unique node ids, torch sequence semantics; LRU link encapsulation checked syntactically.")

MRP = "pymllm/orchestrator/model_runner_process.py"
prop("C14", "Every KV slot has one owner: free list, prefix cache or one request",
     "At every step each KV slot is free, held by the prefix cache, or used by exactly one running request at exactly one position; a request's row in the request table names, position by position, the slots holding its own tokens (cached prefix slots read from a locked tree path, the rest its own). Decoding adds one fresh slot at the request's next position. Finishing, failing or aborting a request gives back its request slot, its lock and every slot it owned exactly once (freed or handed to the cache), and touches no other request. So cached serving generates what uncached serving would.",
     ["histories", "inputs", "schedules"], "every history of prefills, decodes, cache hits, evictions, allocation failures and finishes, any batch composition",
     "no test runs the model runner's bookkeeping; use-after-free of a KV slot needs particular overlaps of requests and evictions",
     [MRP], [("_free_rid_resources", MRP), ("_insert_into_radix_cache", MRP), ("_allocate_decode / _alloc_kv_with_eviction", MRP), ("_unlock_matched_nodes", MRP), ("_allocate_extend (bounded)", MRP)],
     [("_rid_to_req_pool_idx / req_to_token", "which slot holds which position"), ("_rid_to_cache_protected_len", "prefix owned by the cache"), ("_rid_to_radix_lock", "lock held per request")])
claim("C14", "Five runner functions under contract, with and without a prefix cache, over ghost ownership (owner and position of every KV slot, owner of every request slot, lock counts); all obligations discharged by z3 for all batches and histories. _allocate_extend, hybrid state slots, sliding window and paging: bounded replay. Trusted: contracts of pools and RadixCache (proved separately under C01-C04).")

IPC = "pymllm/orchestrator/cuda_ipc_transport.py"
prop("C13", "Shared GPU workspace never hands out bytes somebody still reads",
     "Every slice the workspace (MmItemMemoryPool) hands out has exactly the tensor's bytes, lies inside the workspace, starts with a zero sync flag of its own, and shares no byte with any slice still in use. A slice is reused only after every consumer has signalled once; until then its bytes, flag and count stay as they are. No byte is ever lost: after a recycling round all bytes not in use form maximal free runs, and a request is refused only when no free run is large enough (best fit otherwise). This holds whatever senders and the recycler thread interleave. A receiver gets the tensor that was sent and signals exactly once.",
     ["histories", "schedules", "inputs"], "every sequence and interleaving of allocations, consumer signals and recycling rounds, every workspace and tensor size",
     "no test touches the pool; overlapping slices or an early reuse need particular histories of splits, merges and signals",
     [IPC], [("MmItemMemoryPool._get_available_chunk", IPC), ("get_slice_with_flag", IPC), ("_recycle_chunks / _merge_chunks", IPC), ("MmItemMemoryChunk.try_to_recycle", IPC), ("CudaIpcTensorTransportProxy (bounded)", IPC)],
     [("available_chunks / occupied_chunks", "free runs and slices in use"), ("_sync_pool", "spare sync buffers")])
claim("C13", "All nine pool functions under contract; the pool lock is a monitor (protected state is arbitrary at every acquisition, the invariant is an obligation at every release), so the proof covers every thread interleaving; every obligation discharged by z3. The proxy's receive path needs a GPU: only its direct-tensor fallback is checked, bounded. Trusted: Lock, torch slicing, flag arithmetic.")

TK = "mllm/preprocessor/tokenizers/"
prop("C22", "Tokenizer text layer loses nothing: UTF-8 codec, byte map, splits, merges",
     "Converting text to wide characters and back is the identity: every code point becomes exactly its standard UTF-8 bytes, in order, and the bytes of any text decode to exactly its characters; truncated or invalid bytes never make the decoder read outside its input, loop, or produce more characters than bytes, and a cut-off last character is dropped. The byte map gives each of the 256 bytes its own character (printable bytes themselves, the others 256, 257, ... in order). Splitting around special tokens gives non-empty pieces that join to the text, each (non-overlapping) special token in the text its own piece. Byte-pair merging applies the lowest-ranked pair first, everywhere, left to right, and its pieces join to the word. Tokens and ids of the vocabulary map to each other.",
     ["inputs"], "every text, every byte string, every vocabulary, merge table and set of special tokens",
     "no test covers the codec; an error shows only on particular code points, truncations or merge tables",
     [TK + "Unicode.cpp", TK + "BPE.cpp", TK + "AutoTokenizer.cpp"],
     [("wideString2Utf8String / utf8string2WideString", TK + "Unicode.cpp"), ("makeBytes2UnicodeMap", TK + "Unicode.cpp"), ("BPE::_bpe", TK + "BPE.cpp"), ("Trie::split / TrieUTF8::split", TK + "AutoTokenizer.cpp")],
     [("bpe_ranks_ / vocab_ / vocab_inverse_", "merge order, token ids")])
claim("C22", "Codec and byte map under contract on clang's AST of the real C++ with machine integers (wrap, signed overflow, bounds are obligations); every obligation discharged by z3 for all texts and all byte strings (decode against a ghost text). Trie::split and BPE: bounded concrete search (ASan/UBSan build of the real sources against references).")

TV = "mllm/core/TensorViewImpl.cpp"
prop("C24", "Tensor views: row-major strides, contiguity, element counts and addresses",
     "A view created from a shape keeps that shape, has row-major strides (each the product of the later dimensions), the given offset and the given storage; a view created with strides keeps exactly those. The number of elements is the product of the dimensions. A view is reported contiguous (in its last n dimensions) exactly when those strides are row-major. A clone is a new view with the same shape, strides and offset on the same storage. The address of a view is its storage plus the whole blocks before its offset, and the address of an element adds the blocks spanned by index times stride. No shape, including the empty one, makes these read or write outside the view's arrays or overflow.",
     ["inputs"], "every shape of up to 16 dimensions and fewer than 2^31 elements, every stride, offset and element type",
     "no test covers views; a wrong stride or overflow shows only for particular shapes",
     [TV, "mllm/core/TensorViewImpl.hpp", "mllm/core/DataTypes.cpp"],
     [("TensorViewImpl::create (4 overloads)", TV), ("numel / isContiguous / isContiguousN", TV), ("clone / shape / stride / barePtr", TV), ("ptr / offsettedPtr (bounded)", "mllm/core/TensorViewImpl.hpp"), ("lanesOfType / bytesOfType (bounded)", "mllm/core/DataTypes.cpp")],
     [("shape_ / stride_ / shape_len_", "dimensions of the view"), ("storage_offset_ / storage_", "where its data starts")])
claim("C24", "Twelve methods under contract on clang's AST of the real C++ with machine integers and array bounds as obligations; every obligation discharged by z3 for all shapes and strides via ghost suffix products. The templated ptr / offsettedPtr and the element-type table: bounded concrete search (ASan/UBSan build of the real sources).")

MV2 = "pymllm/mobile/convertor/model_file_v2.py"
prop("C10", "A V2 model file gives back exactly the tensors written to it",
     "A model file written in static or streaming mode holds, for every tensor written, one table entry (ids 0, 1, ... in the order written) with its full name, the reader's type code, its shape, and the offset and size of its data, and at that offset exactly the tensor's elements in row-major order, whatever its memory layout. The header carries the reader's magic number and version, the model's name, the number of tensors and the table's offset. Header, table and the data of different tensors never overlap; writing a tensor leaves earlier ones as they are. A full table or an object that is not a supported tensor is refused with an error and leaves the file as it was. All fields sit where the C++ reader's structs have them. The C++ reader, mapped or copying, returns exactly these tensors (name, type, shape, bytes) for every element type it implements, also from a file its own writer produced.",
     ["inputs", "histories"], "every set and sequence of tensors (any type, rank up to 16, any layout), every table capacity, names up to 256 bytes (model name 512; C++ writer 255)",
     "no test writes or reads a V2 file; a shifted field or an overlap shows only for particular counts, types or layouts",
     [MV2, "pymllm/mobile/convertor/mllm_type_mapping.py", "mllm/core/schema/ModelFileV2.hpp"],
     [("ModelFileV2.__init__ / streaming_write / static_write / finalize", MV2), ("_pack_descriptor", MV2), ("_torch_tensor_bytes (bounded)", MV2), ("ParameterFileIOImpl<kCPU, kV2>::read / write (bounded)", "mllm/core/ParameterFile.cpp"), ("struct layout", "mllm/core/schema/ModelFileV2.hpp")],
     [("v2_param_descriptor / v2_file_header", "table and header to be written")])
claim("C10", "Constructor, streaming_write, static_write and finalize (with _pack_descriptor inlined) under contract over a file modelled as surviving pieces; every obligation discharged by z3 for all tensor counts, shapes and names. The layout is checked against the C++ structs by the compiler. Bounded: bytes of a torch tensor, type table, the C++ reader and writer.")
