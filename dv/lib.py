"""Trusted contracts of builtins and library functions (torch, heapq, time ...).

Every model used in a run is named in Exec.trusted and ends up in the evidence.
"""
import ast
import z3
from . import core
from .core import *
from .pyexec import Frame, VSlice, VStarArgs, conc_int, type_of_safe


def use(ex, s):
    ex.trusted.add(s)


def _len(ex, st, v, line):
    v = st.rd(v)
    if isinstance(v, VOpt):
        v = ex.unopt(st, v, line)
    if isinstance(v, VSeq):
        return VInt(v.ln)
    if isinstance(v, VDict):
        if v.kty is not None:
            q = z3.FreshConst(key_sort(v.kty), "q")
            d = v.dom(q)
            ok = z3.is_app(d) and d.decl().kind() == z3.Z3_OP_SELECT
            st.assume(z3.ForAll([q], z3.Implies(d, v.size > 0), patterns=[d]) if ok else z3.ForAll([q], z3.Implies(d, v.size > 0)))
            st.assume(z3.Or(v.size == 0, z3.Exists([q], d)))
        return VInt(v.size)
    if isinstance(v, VSet):
        return VInt(v.size)
    if isinstance(v, VTup):
        return VInt(len(v.items))
    if isinstance(v, VLit):
        return VInt(len(v.v))
    if isinstance(v, VS) and v.ty is TText:
        return VInt(z3.Length(v.t))
    if isinstance(v, VSeq2):
        return VInt(v.rows)
    if isinstance(v, VOpaque):
        n = z3.FreshInt("opqlen")
        st.assume(n >= 0)
        return VInt(n)
    return None


def range_seq(lo, hi):
    n = z3.simplify(z3.If(hi - lo > 0, hi - lo, z3.IntVal(0)))
    return VSeq(n, lambda i: VInt(lo + i), TInt, "range")


def empty_tensor(elt=TInt):
    return mk_items([], elt, "tensor")


def permutation_sort(ex, st, c, name="sort", descending=False):
    """torch.sort / sorted on an int sequence: an ascending permutation of the input"""
    n = c.ln
    arr = z3.FreshConst(z3.ArraySort(z3.IntSort(), z3.IntSort()), "sorted")
    p = z3.FreshConst(z3.ArraySort(z3.IntSort(), z3.IntSort()), "perm")
    q = z3.FreshConst(z3.ArraySort(z3.IntSort(), z3.IntSort()), "iperm")
    i, j = z3.FreshInt("i"), z3.FreshInt("j")
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n),
              z3.And(0 <= p[i], p[i] < n, q[p[i]] == i, arr[i] == c.at(p[i]).t)), patterns=[arr[i]]))
    st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And(0 <= q[j], q[j] < n, p[q[j]] == j)), patterns=[q[j]]))
    st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), arr[i] >= arr[j] if descending else arr[i] <= arr[j]),
                        patterns=[z3.MultiPattern(arr[i], arr[j])]))
    st.ghost.setdefault("sorts", []).append((c, arr, p, q))
    out = VSeq(n, lambda x: VInt(z3.Select(arr, x)), TInt, c.kind, arrs=[arr])
    idx = VSeq(n, lambda x: VInt(z3.Select(p, x)), TInt, "tensor", arrs=[p])
    return out, idx


def keyed_sort(ex, st, c, kw, line):
    """sorted(xs, key=lambda x: <int>): a stable permutation ascending (descending) in the key"""
    key, rev = kw.get("key"), kw.get("reverse")
    if not (isinstance(key, VFunc) and isinstance(key.node, ast.Lambda)) or c.elt is None:
        return None
    desc = False
    if rev is not None:
        b = z3.simplify(ex.truth(st, rev))
        if not (z3.is_true(b) or z3.is_false(b)):
            return None
        desc = z3.is_true(b)
    arg = key.node.args.args[0].arg
    idx = z3.FreshInt("ki")
    g = ast.comprehension(target=ast.copy_location(ast.Name(arg, ast.Store()), key.node), iter=None, ifs=[], is_async=0)
    s2 = st.copy()
    s2.env = dict(key.env or {})
    fr = Frame(key.mod, key.cls if not isinstance(key.cls, str) else None, key.name)
    kv, facts = ex.elem_fn(s2, key.node.body, g, c, fr, idx)
    for k, x in s2.heap.m.items():
        st.heap.m.setdefault(k, x)
    if not isinstance(kv, VS) or kv.ty not in (TInt, TReal):
        return None
    for f in facts:
        st.assume(z3.ForAll([idx], z3.Implies(z3.And(0 <= idx, idx < c.ln), f)))
    use(ex, "sorted(key=...): stable permutation ordered by the key")
    K = lambda i: z3.substitute(kv.t, (idx, i))
    n = c.ln
    p = z3.FreshConst(z3.ArraySort(z3.IntSort(), z3.IntSort()), "perm")
    q = z3.FreshConst(z3.ArraySort(z3.IntSort(), z3.IntSort()), "iperm")
    i, j = z3.FreshInt("i"), z3.FreshInt("j")
    base = isinstance(c.elt, TRef) or c.elt is TInt
    if base:
        arr = z3.FreshConst(z3.ArraySort(z3.IntSort(), z3.IntSort()), "sorted")
        mkv = (lambda y: VInt(y)) if c.elt is TInt else (lambda y: VRef(y, c.elt.cls))
        el = lambda x: mkv(z3.Select(arr, x))
        pats = [[arr[i]], [arr[i], arr[j]]]
        extra = [arr[i] == c.at(p[i]).t]
    else:
        el = lambda x: c.at(z3.Select(p, x))
        pats = [[p[i]], [p[i], p[j]]]
        extra = []
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And([0 <= p[i], p[i] < n, q[p[i]] == i] + extra)), patterns=pats[0]))
    pq = [q[j]]
    if base and z3.is_app_of(c.at(j).t, z3.Z3_OP_SELECT) and not core._logical(c.at(j).t):
        pq.append(c.at(j).t)
    st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), z3.And([0 <= q[j], q[j] < n, p[q[j]] == j] + ([arr[q[j]] == c.at(j).t] if base else []))), patterns=pq))
    ki, kj = K(p[i]), K(p[j])
    st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), z3.And(ki >= kj if desc else ki <= kj, z3.Implies(ki == kj, p[i] < p[j]))),
                        patterns=[z3.MultiPattern(*pats[1])]))
    st.ghost.setdefault("keyed_sorts", []).append((c, p, q))
    return VSeq(n, el, c.elt, "list", arrs=[arr] if base else None)


def tensor_unary(ex, st, c, f):
    return VSeq(c.ln, lambda i: VInt(f(c.at(i).t)), TInt, "tensor")


def call(ex, st, f, args, kw, line):
    name = f.name
    A = [st.rd(a) if isinstance(a, (VCell, VLoc)) else a for a in args]

    def one(v):
        return [(st, v)]

    if name.startswith("__"):
        from . import cxxlib
        r = cxxlib.call(ex, st, name, A, args, line)
        if r is not None:
            return r
    # ------------------------------------------------------------- builtins
    if name == "len":
        v = A[0]
        if isinstance(v, VOpt):
            v = ex.unopt(st, v, line)
        if isinstance(v, (VRec, VRef)) and not (isinstance(v, VRec) and v.name == "$dict"):
            return ex.call_method(st, v, "__len__", [], {}, line)
        r = _len(ex, st, v, line)
        return one(r) if r is not None else None
    if name == "range":
        ts = [ex.num(st, a, line).t for a in A]
        if len(ts) == 1:
            return one(range_seq(z3.IntVal(0), ts[0]))
        if len(ts) == 2:
            return one(range_seq(ts[0], ts[1]))
        step = z3.simplify(ts[2])
        lo, hi = ts[0], ts[1]
        if z3.is_int_value(step) and step.as_long() == 1:
            return one(range_seq(lo, hi))
        if not ex.entails(st, step > 0):
            raise Unsupported("range step")
        n = z3.If(hi > lo, div(hi - lo + step - 1, step), z3.IntVal(0))
        return one(VSeq(n, lambda i: VInt(lo + mul(i, step)), TInt, "range"))
    if name in ("min", "max") and not kw:
        if len(A) == 1:
            return None
        vs = [ex.num(st, a, line) for a in A]
        if any(isinstance(v, VLit) or v.ty is TReal for v in vs):
            vs = [coerce(v, TReal) for v in vs]
        if name == "max" and len(vs) == 2 and vs[0].ty is TInt and getattr(core, "_sum_on", False):
            for a, b in ((vs[0], vs[1]), (vs[1], vs[0])):
                if z3.is_int_value(z3.simplify(a.t)) and not z3.is_int_value(z3.simplify(b.t)) and \
                        core.prove(list(st.pc), b.t >= a.t, 8000)[0] == "proved":
                    st.pc.append(b.t >= a.t)
                    return one(b)
        r = vs[0]
        for v in vs[1:]:
            r = VS(z3.If(v.t < r.t if name == "min" else v.t > r.t, v.t, r.t), r.ty)
        return one(r)
    if name == "abs":
        v = ex.num(st, A[0], line)
        return one(VS(z3.If(v.t < 0, -v.t, v.t), v.ty))
    if name == "int":
        v = A[0]
        if isinstance(v, VOpt):
            v = ex.unopt(st, v, line)
        if isinstance(v, VS) and v.ty is TInt:
            return one(v)
        if isinstance(v, VS) and v.ty is TBool:
            return one(coerce(v, TInt))
        if isinstance(v, VS) and v.ty is TReal:
            return one(VInt(z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t))))
        return None
    if name == "float":
        v = A[0]
        if isinstance(v, VLit):
            try:
                return one(VLit(float(v.v)))
            except ValueError:
                return None
        if isinstance(v, VS) and v.ty in (TInt, TReal):
            return one(coerce(v, TReal))
    if name == "bool":
        return one(VBool(ex.truth(st, A[0])))
    if name in ("str", "repr"):
        if isinstance(A[0], VS) and A[0].ty in (TText, TStr):
            return one(A[0])
        if isinstance(A[0], VLit) and isinstance(A[0].v, str):
            return one(A[0])
        return one(VOpaque("str()"))
    if name == "list":
        if not A:
            return one(st.newcell(mk_items([], None, "list")))
        s = ex.iter_seq(st, A[0], line)
        return one(st.newcell(VSeq(s.ln, s._at, s.elt, "list", s.items, s.arrs)))
    if name == "tuple":
        if not A:
            return one(VTup([]))
        s = ex.iter_seq(st, A[0], line)
        return one(VSeq(s.ln, s._at, s.elt, "tuple", s.items, s.arrs))
    if name == "iter":
        return one(A[0])
    if name == "zip":
        ss = [ex.iter_seq(st, a, line) for a in A]
        n = ss[0].ln
        for s in ss[1:]:
            n = z3.If(s.ln < n, s.ln, n)
        elt = TTup([s.elt for s in ss])
        if all(s.items is not None for s in ss):
            m = min(len(s.items) for s in ss)
            return one(mk_items([VTup([s.items[k] for s in ss]) for k in range(m)], elt))
        return one(VSeq(z3.simplify(n), lambda i: VTup([s.at(i) for s in ss]), elt, "zip"))
    if name == "slice" and not kw:
        a = [st.rd(x) for x in args]
        return [(st, VSlice(a[0] if len(a) > 1 else NONE, a[0] if len(a) == 1 else a[1], a[2] if len(a) > 2 else NONE))]
    if name == "enumerate":
        s = ex.iter_seq(st, A[0], line)
        start = A[1].t if len(A) > 1 else (kw["start"].t if "start" in kw else z3.IntVal(0))
        its = [VTup([VInt(z3.simplify(start + k)), x]) for k, x in enumerate(s.items)] if s.items is not None else None
        return one(VSeq(s.ln, lambda i: VTup([VInt(start + i), s.at(i)]), TTup([TInt, s.elt]), "enum", items=its))
    if name == "reversed":
        s = ex.iter_seq(st, A[0], line)
        its = list(reversed(s.items)) if s.items is not None else None
        return one(VSeq(s.ln, lambda i: s.at(s.ln - 1 - i), s.elt, "rev", items=its))
    if name == "sum":
        s = ex.iter_seq(st, A[0], line)
        if s.items is not None:
            t = z3.IntVal(0)
            for x in s.items:
                t = t + ex.num(st, x, line).t
            return one(VInt(z3.simplify(t)))
        return None
    if name in ("any", "all"):
        s = ex.iter_seq(st, A[0], line)
        if s.items is not None:
            ts = [ex.truth(st, x) for x in s.items]
            return one(VBool(z3.Or(ts + [z3.BoolVal(False)]) if name == "any" else z3.And(ts + [z3.BoolVal(True)])))
        i = z3.FreshInt("i")
        b = ex.truth(st, s.at(i))
        r = z3.And(0 <= i, i < s.ln)
        return one(VBool(z3.Exists([i], z3.And(r, b)) if name == "any" else z3.ForAll([i], z3.Implies(r, b))))
    if name == "dict" and len(A) == 1 and isinstance(A[0], VRec) and A[0].name == "$odict":
        return one(st.newcell(A[0]))
    if name == "dict" and len(A) == 1 and isinstance(A[0], VOpt) and isinstance(A[0].val, VRec) and A[0].val.name == "$odict":
        return one(st.newcell(ex.unopt(st, A[0], line)))
    if name == "dict" and not A and not kw:
        return one(st.newcell(VDict(lambda q: z3.BoolVal(False), lambda q: NONE, z3.IntVal(0), None, None)))
    if name == "set" and not A:
        return one(st.newcell(VSet(lambda q: z3.BoolVal(False), z3.IntVal(0), None)))
    if name in ("collections.defaultdict", "collections.OrderedDict"):
        return one(st.newcell(VDict(lambda q: z3.BoolVal(False), lambda q: NONE, z3.IntVal(0), None, None)))
    if name == "collections.deque":
        s = ex.iter_seq(st, A[0], line) if A else mk_items([], None)
        use(ex, "collections.deque behaves as a list with popleft/appendleft")
        return one(st.newcell(VSeq(s.ln, s._at, s.elt, "list", s.items, s.arrs)))
    if name == "id":
        return one(VInt(A[0].t)) if isinstance(A[0], VRef) else None
    if name == "sorted" and not kw:
        s = ex.iter_seq(st, A[0], line)
        if s.elt is TInt:
            use(ex, "sorted(): ascending permutation")
            o, _ = permutation_sort(ex, st, s)
            return one(st.newcell(VSeq(o.ln, o._at, TInt, "list", arrs=o.arrs)))
    if name == "sorted" and set(kw) <= {"key", "reverse"}:
        s = ex.iter_seq(st, A[0], line)
        o = keyed_sort(ex, st, s, kw, line)
        if o is not None:
            return one(st.newcell(o))
    if name == "divmod":
        out = []
        for s1, q in ex.binop(st, ast.FloorDiv(), A[0], A[1], line):
            for s2, r in ex.binop(s1, ast.Mod(), A[0], A[1], line):
                out.append((s2, VTup([q, r])))
        return out
    if name == "math.ceil" and isinstance(A[0], VS) and A[0].ty is TReal:
        return one(VInt(-z3.ToInt(-A[0].t)))
    # ------------------------------------------------------------- time / misc
    if name in ("time.monotonic", "time.time", "time.perf_counter"):
        use(ex, "time functions return an arbitrary real")
        return one(VS(z3.FreshReal("now"), TReal))
    if name == "time.sleep":
        return one(NONE)
    if name in ("threading.Lock", "threading.RLock", "threading.Thread"):
        return one(VOpaque(name))
    if name.startswith("gc.") or name.startswith("torch.cuda."):
        return one(VOpaque(name))
    # ------------------------------------------------------------- torch
    if name in ("torch.device", "torch.Size", "torch.get_default_dtype"):
        return one(VOpaque(name))
    if name == "torch.arange":
        use(ex, "torch.arange(a,b): a, a+1, .. b-1")
        ts = [ex.num(st, a, line).t for a in A]
        if "end" in kw:
            ts.append(kw["end"].t)
        s = range_seq(z3.IntVal(0), ts[0]) if len(ts) == 1 else range_seq(ts[0], ts[1])
        if len(ts) > 2:
            raise Unsupported("arange step")
        # torch raises if the upper bound is below the lower bound
        lo, hi = (z3.IntVal(0), ts[0]) if len(ts) == 1 else (ts[0], ts[1])
        out = []
        for s2 in ex.guard(st, hi >= lo, "RuntimeError", "torch.arange bounds", line):
            n = z3.simplify(hi - lo)
            out.append((s2, VSeq(n, lambda i: VInt(lo + i), TInt, "tensor")))
        return out
    if name in ("torch.empty", "torch.zeros") and A:
        a = A[0]
        dims = a.items if isinstance(a, VTup) else [a] + A[1:]
        if isinstance(a, VSeq) and a.items is not None:
            dims = a.items
        use(ex, "torch.zeros/empty of shape (n,): length n")
        if len(dims) == 1:
            n = ex.num(st, dims[0], line).t
            ns = z3.simplify(n)
            if z3.is_int_value(ns) and ns.as_long() == 0:
                return one(empty_tensor())
            if name == "torch.zeros":
                return one(VSeq(n, lambda i: VInt(0), TInt, "tensor"))
            arr = z3.FreshConst(z3.ArraySort(z3.IntSort(), z3.IntSort()), "uninit")
            return one(VSeq(n, lambda i: VInt(z3.Select(arr, i)), TInt, "tensor", arrs=[arr]))
        return one(VOpaque("tensor"))
    if name == "torch.tensor":
        a = A[0]
        if isinstance(a, VSeq):
            use(ex, "torch.tensor(list): same elements")
            if a.elt is None:
                return one(empty_tensor())
            return one(VSeq(a.ln, a._at, a.elt, "tensor", a.items, a.arrs))
        return None
    if name in ("torch.cat", "torch.concat"):
        use(ex, "torch.cat: concatenation")
        a = A[0]
        if isinstance(a, VTup):
            parts = [st.rd(x) for x in a.items]
        elif isinstance(a, VSeq) and a.items is not None:
            parts = [st.rd(x) for x in a.items]
        elif isinstance(a, VSeq):
            return one(cat_all(ex, st, a))
        else:
            return None
        parts = [ex.unopt(st, p, line) for p in parts]
        if not all(isinstance(p, VSeq) for p in parts):
            return None
        if not parts:
            raise Unsupported("torch.cat of nothing")
        return one(ex.seq_cat(st, parts, "tensor"))
    if name == "torch.sort":
        use(ex, "torch.sort: ascending permutation of its input")
        o, ix = permutation_sort(ex, st, A[0])
        return one(VTup([o, ix]))
    if name == "torch.unique":
        use(ex, "torch.unique: strictly ascending sequence with the same element set")
        return one(unique(ex, st, A[0]))
    # ------------------------------------------------------------- heapq
    if name == "heapq.heapify":
        use(ex, "heapq.heapify permutes the list")
        return one(NONE)
    if name == "heapq.heappop":
        # some element is removed (which one depends only on the order)
        c = A[0]
        use(ex, "heapq.heappop removes and returns one element of the list (order not modelled)")
        out = []
        for s in ex.guard(st, c.ln > 0, "IndexError", "heappop from a non-empty heap", line):
            k = z3.FreshInt("pop")
            s.assume(z3.And(0 <= k, k < c.ln))
            v = c.at(k)
            s.wr(args[0], VSeq(c.ln - 1, lambda i: ite(i < k, c.at(i), c.at(i + 1)), c.elt, "list"))
            out.append((s, ex.nn(v)))
        return out
    if name == "heapq.heappush":
        c = A[0]
        use(ex, "heapq.heappush adds one element")
        st.wr(args[0], ex.seq_cat(st, [c, mk_items([A[1]], type_of_safe(A[1], st))], "list"))
        return one(NONE)
    # ------------------------------------------------------------- methods
    if f.bound is not None and name.startswith("."):
        r = method(ex, st, f.bound, st.rd(f.bound) if isinstance(f.bound, (VCell, VLoc)) else f.bound, name[1:], args, A, kw, line)
        return r
    return None


def cat_all(ex, st, a):
    """torch.cat of a symbolic list of tensors: uninterpreted concatenation with offset function"""
    off = z3.Function(fresh_name("off"), z3.IntSort(), z3.IntSort())
    tot = z3.FreshInt("catlen")
    arr = z3.FreshConst(z3.ArraySort(z3.IntSort(), z3.IntSort()), "cat")
    i, j = z3.FreshInt("i"), z3.FreshInt("j")
    own = z3.Function(fresh_name("own"), z3.IntSort(), z3.IntSort())
    st.assume(off(z3.IntVal(0)) == 0)
    st.assume(off(a.ln) == tot)
    from . import core
    if getattr(core, "_sum_on", False):      # the offset of part i is the total length of the parts before it
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i <= a.ln), off(i) == core.total_of(st, i, lambda k: a.at(k).ln)), patterns=[off(i)]))
    st.assume(tot >= 0)
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < a.ln), z3.And(off(i + 1) == off(i) + a.at(i).ln, off(i) >= 0, off(i) + a.at(i).ln <= tot)), patterns=[off(i)]))
    st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < a.ln, 0 <= j, j < a.at(i).ln), arr[off(i) + j] == a.at(i).at(j).t), patterns=[a.at(i).at(j).t]))
    st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < tot), z3.And(0 <= own(j), own(j) < a.ln, off(own(j)) <= j, j < off(own(j)) + a.at(own(j)).ln, arr[j] == a.at(own(j)).at(j - off(own(j))).t)), patterns=[arr[j]]))
    r = VSeq(tot, lambda x: VInt(z3.Select(arr, x)), TInt, "tensor", arrs=[arr])
    st.ghost.setdefault("cats", []).append((a, r, off, own))
    return r


def unique(ex, st, c):
    n = z3.FreshInt("ulen")
    arr = z3.FreshConst(z3.ArraySort(z3.IntSort(), z3.IntSort()), "uniq")
    w = z3.FreshConst(z3.ArraySort(z3.IntSort(), z3.IntSort()), "uw")
    p = z3.Function(fresh_name("upos"), z3.IntSort(), z3.IntSort())
    i, j = z3.FreshInt("i"), z3.FreshInt("j")
    st.assume(z3.And(0 <= n, n <= c.ln, z3.Implies(c.ln > 0, n > 0)))
    st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= w[i], w[i] < c.ln, c.at(w[i]).t == arr[i])), patterns=[arr[i]]))
    st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n), arr[i] < arr[j]), patterns=[z3.MultiPattern(arr[i], arr[j])]))
    st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < c.ln), z3.And(0 <= p(j), p(j) < n, arr[p(j)] == c.at(j).t)), patterns=[p(j)]))
    st.ghost.setdefault("uniques", []).append((c, n, arr, w, p))
    return VSeq(n, lambda x: VInt(z3.Select(arr, x)), TInt, "tensor", arrs=[arr])


def method(ex, st, base, v, m, args, A, kw, line):
    def one(x):
        return [(st, x)]
    if isinstance(v, VOpt):
        v = ex.unopt(st, v, line)
    if isinstance(v, VS) and m == "item":
        use(ex, "a one-element array is identified with its value")
        return one(v)
    if isinstance(v, VSeq) and v.kind == "tensor":
        if m in ("numel", "nelement"):
            return one(VInt(v.ln))
        if m in ("clone", "detach", "contiguous", "cpu", "cuda", "view", "flatten", "ravel"):
            use(ex, "tensor clone/view keep the elements")
            return one(v)
        if m == "to":
            use(ex, "tensor.to keeps the elements (no overflow in the dtype change)")
            return one(v)
        if m in ("int", "long"):
            return one(v)
        if m == "tolist":
            return one(st.newcell(VSeq(v.ln, v._at, v.elt, "list", v.items, v.arrs)))
        if m == "size":
            return one(VInt(v.ln))
        if m == "reshape":
            return one(v)
        if m == "item":
            ex.oblige(st, v.ln == 1, "item() of a one-element tensor", "safety", line)
            return one(v.at(z3.IntVal(0)))
        if m == "unique":
            return one(unique(ex, st, v))
    if isinstance(v, VSeq2):
        if m == "reshape":
            n = z3.FreshInt("flat")
            st.assume(n == mul(v.rows, v.cols))
            cols = v.cols
            use(ex, "reshape(-1) of an r x c tensor is its row-major flattening")
            return one(VSeq(n, lambda i: v.at(div(i, cols), mod(i, cols)), v.elt, "tensor"))
    if isinstance(v, VSeq) and v.kind == "list":
        if m == "append":
            x = A[0]
            elt = v.elt
            xv = st.rd(x)
            if isinstance(xv, VOpt) and isinstance(xv.val, VSeq) and not isinstance(elt, TOpt) and (
                    ex.scout or ex.entails(st, z3.Not(xv.none), 3000) or isinstance(elt, TSeq) and ex.entails(st, z3.Not(xv.none), 8000)):
                x = xv.val
            if elt is None:
                elt = type_of_safe(x, st)
                v = mk_items([], elt, "list")
            st.wr(base, ex.seq_cat(st, [v, mk_items([coerce(x, elt, st)], elt)], "list"))
            return one(NONE)
        if m in ("extend", "extendleft"):
            s = ex.as_seq(st, A[0], line)
            if v.elt is None:
                v = mk_items([], s.elt, "list")
            if s.elt is None:
                return one(NONE)
            st.wr(base, ex.seq_cat(st, [v, s], "list"))
            return one(NONE)
        if m in ("pop", "popleft"):
            out = []
            for s in ex.guard(st, v.ln > 0, "IndexError", "pop from a non-empty list", line):
                front = m == "popleft"
                if A:
                    k = conc_int(A[0])
                    if k == 0:
                        front = True
                    elif k != -1:
                        raise Unsupported("list.pop(k)")
                if v.items is not None:
                    x = v.items[0] if front else v.items[-1]
                    s.wr(base, mk_items(v.items[1:] if front else v.items[:-1], v.elt, "list"))
                elif front:
                    x = v.at(z3.IntVal(0))
                    s.wr(base, VSeq(v.ln - 1, lambda i: v.at(i + 1), v.elt, "list"))
                else:
                    x = v.at(v.ln - 1)
                    s.wr(base, VSeq(v.ln - 1, v._at, v.elt, "list", arrs=v.arrs))
                out.append((s, ex.nn(x)))
            return out
        if m == "appendleft":
            x = A[0]
            st.wr(base, ex.seq_cat(st, [mk_items([coerce(x, v.elt, st)], v.elt), v], "list"))
            return one(NONE)
        if m == "clear":
            st.wr(base, mk_items([], v.elt, "list"))
            return one(NONE)
        if m == "copy":
            return one(st.newcell(v))
        if m == "insert" and conc_int(A[0]) == 0:
            st.wr(base, ex.seq_cat(st, [mk_items([coerce(A[1], v.elt, st)], v.elt), v], "list"))
            return one(NONE)
        if m == "reverse":
            st.wr(base, VSeq(v.ln, lambda i: v.at(v.ln - 1 - i), v.elt, "list",
                             items=list(reversed(v.items)) if v.items is not None else None))
            return one(NONE)
        if m == "sort" and "key" in kw:
            o = keyed_sort(ex, st, v, kw, line)
            if o is not None:
                st.wr(base, o)
                return one(NONE)
        if m == "remove" and (v.elt is TInt or isinstance(v.elt, TRef) and not ex.defines_eq(v.elt.cls)):
            x = coerce(A[0], v.elt, st).t
            if ex.scout:
                st.wr(base, VSeq(v.ln - 1, v._at, v.elt, "list"))
                return one(NONE)
            use(ex, "list.remove(): removes the first equal element (identity for objects without __eq__)")
            k = z3.FreshInt("rmk")
            out = []
            for s in ex.guard(st, z3.Exists([k], z3.And(0 <= k, k < v.ln, v.at(k).t == x)), "ValueError", "the removed element is in the list", line):
                r, j, i = z3.FreshInt("rm"), z3.FreshInt("j"), z3.FreshInt("i")
                s.assume(z3.And(0 <= r, r < v.ln, v.at(r).t == x))
                s.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < r), v.at(j).t != x)))
                arr = z3.FreshConst(z3.ArraySort(z3.IntSort(), z3.IntSort()), "removed")
                s.assume(z3.ForAll([i], arr[i] == z3.If(i < r, v.at(i).t, v.at(i + 1).t), patterns=[arr[i]]))
                s.ghost.setdefault("removes", []).append((v, r, arr))
                mkv = (lambda y: VInt(y)) if v.elt is TInt else (lambda y: VRef(y, v.elt.cls))
                s.wr(base, VSeq(v.ln - 1, lambda q: mkv(z3.Select(arr, q)), v.elt, "list", arrs=[arr]))
                out.append((s, NONE))
            return out
        if m == "sort" and v.elt is TInt:
            desc = "reverse" in kw and z3.is_true(z3.simplify(ex.truth(st, kw["reverse"])))
            o, _ = permutation_sort(ex, st, v, descending=desc)
            use(ex, "list.sort(): sorted permutation")
            st.wr(base, VSeq(o.ln, o._at, TInt, "list", arrs=o.arrs))
            return one(NONE)
    if isinstance(v, VDict):
        if m == "get":
            if v.vty is None:
                return one(A[1] if len(A) > 1 else NONE)
            q = ex.key_term(A[0], v)
            d = A[1] if len(A) > 1 else NONE
            x = v.get(q)
            if isinstance(d, VCell) or isinstance(x, VSeq):
                pass
            return one(ite(v.dom(q), x, d))
        if m == "pop":
            q = ex.key_term(A[0], v)
            x = v.get(q)
            if len(A) > 1:
                r = ite(v.dom(q), x, A[1])
                st.wr(base, ex.dict_remove(v, q))
                return one(r)
            out = []
            for s in ex.guard(st, v.dom(q), "KeyError", "key present for pop", line):
                s.wr(base, ex.dict_remove(v, q))
                out.append((s, ex.nn(x)))
            return out
        if m == "values":
            return one(ex.dict_enum(st, v)[1])
        if m == "keys":
            return one(ex.dict_enum(st, v)[0])
        if m == "items":
            k, x = ex.dict_enum(st, v)
            if v.vty is None:
                return one(mk_items([], TInt))
            return one(VSeq(k.ln, lambda i: VTup([k.at(i), x.at(i)]), TTup([k.elt, x.elt]), "items"))
        if m == "clear":
            st.wr(base, empty_dict(v.kty, v.vty) if v.vty is not None else v)
            return one(NONE)
        if m == "setdefault":
            q = ex.key_term(A[0], v)
            out = []
            for s, b in ex.fork(st, v.dom(q)):
                if b:
                    out.append((s, v.get(q)))
                else:
                    s.wr(base, ex.dict_store(s, v, q, A[1]))
                    out.append((s, A[1]))
            return out
    if isinstance(v, VSet):
        if m in ("add", "discard", "remove"):
            elt = v.elt if v.elt is not None else type_of_safe(A[0], st)
            q = flatten_pure(coerce(A[0], elt), elt)[0]
            mem = v.mem
            if m == "add":
                nv = VSet(lambda x: z3.Or(x == q, mem(x)), z3.If(mem(q), v.size, v.size + 1), elt)
            else:
                nv = VSet(lambda x: z3.And(x != q, mem(x)), z3.If(mem(q), v.size - 1, v.size), elt)
            if m == "remove":
                out = []
                for s in ex.guard(st, mem(q), "KeyError", "element present for remove", line):
                    s.wr(base, nv)
                    out.append((s, NONE))
                return out
            st.wr(base, nv)
            return one(NONE)
        if m == "clear":
            st.wr(base, VSet(lambda x: z3.BoolVal(False), z3.IntVal(0), v.elt))
            return one(NONE)
    if isinstance(v, VRec) and v.name == "$odict":
        if m == "get" and isinstance(A[0], VLit):
            d = A[1] if len(A) > 1 else NONE
            if A[0].v not in v.fields:
                return one(d)
            f = v.fields[A[0].v]
            if not isinstance(f, VOpt):
                return one(f)
            dv = st.rd(d)
            if isinstance(dv, VSeq):
                dv = coerce(dv, type_of(f.val, st), st)
            return one(ite(z3.Not(f.none), f.val, dv))
        if m == "copy":
            return one(st.newcell(v))
    if isinstance(v, VRec) and v.name == "$dict":
        if m == "get" and isinstance(A[0], VLit):
            if A[0].v in v.fields:
                return one(v.fields[A[0].v])
            return one(A[1] if len(A) > 1 else NONE)
    if isinstance(v, VS) and v.ty is TText or isinstance(v, VLit) and isinstance(v.v, str):
        t = coerce(v, TText).t
        if m == "find":
            sub = coerce(A[0], TText).t
            start = A[1].t if len(A) > 1 else z3.IntVal(0)
            return one(VInt(z3.IndexOf(t, sub, start)))
        if m == "startswith":
            return one(VBool(z3.PrefixOf(coerce(A[0], TText).t, t)))
        if m == "endswith":
            return one(VBool(z3.SuffixOf(coerce(A[0], TText).t, t)))
    if isinstance(v, VLit):
        return one(VOpaque("str." + m))
    if isinstance(v, VOpaque):
        return one(VOpaque("%s.%s()" % (v.tag, m)))
    return None


def is_tensor(v):
    return isinstance(v, VSeq) and v.kind == "tensor"


def tensor_getitem(ex, st, c, k, line):
    if not is_tensor(c):
        return None
    if isinstance(k, VTup) and len(k.items) == 2:
        a, b = [st.rd(x) for x in k.items]
        if isinstance(c.elt, TSeq) and isinstance(b, VSlice) and isinstance(a, (VS, VOpt)):
            return [(s, ex.seq_slice(s, c.at(i), b, line)) for s, i in ex.norm_index(st, c, a, line)]
        if isinstance(a, VSlice) and isinstance(b, VNone):
            s = ex.seq_slice(st, c, a, line)
            use(ex, "t[:, None] is the column view of t")
            return [(st, VSeq2(s.ln, z3.IntVal(1), lambda i, j: s.at(i), s.elt))]
        if isinstance(b, VSlice) and isinstance(a, VNone):
            s = ex.seq_slice(st, c, b, line)
            return [(st, VSeq2(z3.IntVal(1), s.ln, lambda i, j: s.at(j), s.elt))]
    return None


def tensor_binop(ex, st, op, a, b, line):
    if not (is_tensor(a) or is_tensor(b) or isinstance(a, VSeq2) or isinstance(b, VSeq2)):
        return None
    if isinstance(a, VOpt) or isinstance(b, VOpt):
        return None
    use(ex, "elementwise integer tensor arithmetic without overflow")
    F = {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: mul}
    if isinstance(op, (ast.FloorDiv, ast.Mod)) and isinstance(b, VS):
        if not ex.entails(st, b.t > 0):
            raise Unsupported("tensor division by a possibly non-positive value")
        f = div if isinstance(op, ast.FloorDiv) else mod
    elif type(op) in F:
        f = F[type(op)]
    else:
        raise Unsupported("tensor operator %s" % type(op).__name__)

    def scal(v):
        return isinstance(v, VS) and v.ty is TInt
    if is_tensor(a) and scal(b):
        return [(st, VSeq(a.ln, lambda i: VInt(f(a.at(i).t, b.t)), TInt, "tensor"))]
    if scal(a) and is_tensor(b):
        return [(st, VSeq(b.ln, lambda i: VInt(f(a.t, b.at(i).t)), TInt, "tensor"))]
    if is_tensor(a) and is_tensor(b):
        ex.oblige(st, a.ln == b.ln, "elementwise operands have the same length", "safety", line)
        return [(st, VSeq(a.ln, lambda i: VInt(f(a.at(i).t, b.at(i).t)), TInt, "tensor"))]
    if isinstance(a, VSeq2) and scal(b):
        return [(st, VSeq2(a.rows, a.cols, lambda i, j: VInt(f(a.at(i, j).t, b.t)), TInt))]
    if scal(a) and isinstance(b, VSeq2):
        return [(st, VSeq2(b.rows, b.cols, lambda i, j: VInt(f(a.t, b.at(i, j).t)), TInt))]

    def as2(v):
        return v if isinstance(v, VSeq2) else VSeq2(z3.IntVal(1), v.ln, lambda i, j: v.at(j), TInt)
    if (is_tensor(a) or isinstance(a, VSeq2)) and (is_tensor(b) or isinstance(b, VSeq2)):
        x, y = as2(a), as2(b)

        def dim(p, q):
            ps, qs = z3.simplify(p), z3.simplify(q)
            if z3.is_int_value(ps) and ps.as_long() == 1:
                return q, True, False
            if z3.is_int_value(qs) and qs.as_long() == 1:
                return p, False, True
            ex.oblige(st, p == q, "broadcast dimensions agree", "safety", line)
            return p, False, False
        r, xr, yr = dim(x.rows, y.rows)
        c, xc, yc = dim(x.cols, y.cols)
        z = z3.IntVal(0)
        return [(st, VSeq2(r, c, lambda i, j: VInt(f(x.at(z if xr else i, z if xc else j).t,
                                                     y.at(z if yr else i, z if yc else j).t)), TInt))]
    raise Unsupported("tensor operands")
