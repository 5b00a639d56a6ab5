"""Symbolic executor / VC generator over the Python ast of /repo's current source.

Functions under contract are verified one at a time: parameters and heap are
arbitrary values satisfying the precondition; callees under contract are
replaced by their contract (precondition obligation, frame havoc, assumed
postcondition); callees without a contract are inlined; loops are cut by
invariants taken from the contract's candidate pool (Houdini: a candidate is
kept only if it is proved on entry and proved inductive).
"""
from __future__ import annotations
import ast, os, sys, time, traceback
import z3
from .core import *
from . import core

REPO = os.environ.get("DV_REPO", "/repo")


class ModuleInfo:
    def __init__(self, path, name):
        self.path, self.name = path, name
        self.src = open(path).read()
        self.tree = ast.parse(self.src)
        self.funcs, self.classes, self.consts, self.imports = {}, {}, {}, {}
        self._scan(self.tree.body)

    def _scan(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs[n.name] = n
            elif isinstance(n, ast.ClassDef):
                self.classes[n.name] = ClassInfo(n, self)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.consts[n.targets[0].id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.consts[n.target.id] = n.value
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name.split(".")[0]] = (a.name if a.asname else a.name.split(".")[0], None)
            elif isinstance(n, ast.ImportFrom):
                mod = n.module or ""
                if n.level:
                    base = self.name.split(".")
                    base = base[: len(base) - n.level]
                    mod = ".".join(base + ([n.module] if n.module else []))
                for a in n.names:
                    self.imports[a.asname or a.name] = (mod, a.name)
            elif isinstance(n, (ast.Try, ast.If)):
                self._scan(n.body)
                for h in getattr(n, "handlers", []):
                    pass
                self._scan(getattr(n, "orelse", []))


class ClassInfo:
    def __init__(self, node, mod):
        self.node, self.mod, self.name = node, mod, node.name
        self.methods, self.props, self.statics, self.classm, self.consts, self.fields = {}, set(), set(), set(), {}, []
        self.dataclass = any("dataclass" in ast.unparse(d) for d in node.decorator_list)
        self.bases = [ast.unparse(b) for b in node.bases]
        for n in node.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                decs = [ast.unparse(d) for d in n.decorator_list]
                if any(d.endswith(".setter") for d in decs):
                    continue
                self.methods[n.name] = n
                if "property" in decs or any(d.endswith("cached_property") for d in decs):
                    self.props.add(n.name)
                if "staticmethod" in decs:
                    self.statics.add(n.name)
                if "classmethod" in decs:
                    self.classm.add(n.name)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                self.fields.append((n.target.id, n.value))
                if n.value is not None:
                    self.consts[n.target.id] = n.value
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                self.consts[n.targets[0].id] = n.value


_modcache = {}
LAZY = {}                       # modules produced by another front end (dv/cxx.py)


def load_module(name):
    """dotted module name -> ModuleInfo or None (not in /repo)"""
    if name in _modcache:
        return _modcache[name]
    if name in LAZY:
        _modcache[name] = LAZY[name]()
        return _modcache[name]
    rel = name.replace(".", "/")
    r = None
    for base in (REPO, os.path.join(REPO, "mllm-kernel")):
        for cand in (os.path.join(base, rel + ".py"), os.path.join(base, rel, "__init__.py")):
            if os.path.isfile(cand):
                r = ModuleInfo(cand, name)
                break
        if r:
            break
    _modcache[name] = r
    return r


class Contract:
    def __init__(self, qual, mod, params=None, ret=None, requires=None, ensures=None, modifies=(), raises=None,
                 loops=(), ghost_exit=None, inline=False, trusted=False, allocs=(), cases=None, note="",
                 opaque_calls=None, unroll=0, defaults_any=False, hints=None, ghost_entry=None, name_args=False, cand_ms=None):
        self.qual, self.mod = qual, mod
        self.params = params or {}
        self.ret = ret
        self.requires = requires
        self.ensures = ensures
        self.modifies = list(modifies)
        self.raises = raises or {}
        self.loops = list(loops)
        self.ghost_exit = ghost_exit
        self.ghost_entry = ghost_entry
        self.inline, self.trusted = inline, trusted
        self.allocs = list(allocs)
        self.note = note
        self.unroll = unroll
        self.hints = hints
        self.name_args = name_args
        self.cand_ms = cand_ms          # solver time per loop candidate


class Ctx:
    """what a specification function sees"""

    def __init__(self, ex, st, h0, args, res=None, loop=None):
        self.ex, self.st, self.h, self.h0, self.args, self.res = ex, st, st.heap, h0, args, res
        self.loop = loop
        self.exc = None

    def a(self, n):
        v = self.args[n]
        return v

    def at(self, n):
        """z3 term of scalar/ref argument"""
        return self.args[n].t

    def v(self, n):
        if n not in self.st.env:
            raise KeyError(n)
        v = self.st.env[n]
        return self.st.rd(v)

    def lv(self, n):
        return self.loop["env"][n]

    @property
    def hl(self):
        return self.loop["heap"]

    @property
    def i(self):
        if self.loop.get("idx") is None:
            raise KeyError("idx")
        return self.loop["idx"]

    @property
    def seq(self):
        if self.loop.get("seq") is None:
            raise KeyError("seq")
        return self.loop["seq"]

    def rd(self, v):
        return self.st.rd(v)


class Frame:
    def __init__(self, mod, cls, qual):
        self.mod, self.cls, self.qual = mod, cls, qual


class Exec:
    MAXPATHS = 400
    MAXDEPTH = 14

    def __init__(self, contracts, schema, records=(), libs=None, opaque_methods=(), lib_attrs=None, timeout=None,
                 globals_=None, concrete_enums=(), sinks=()):
        self.contracts = {}
        for c in contracts:
            self.contracts[(c.mod, c.qual)] = c
        self.schema = {k: dict(v) for k, v in schema.items()}
        self.declared = {k: set(v) for k, v in schema.items()}
        self.records = dict(records) if not isinstance(records, (list, tuple)) else {r: None for r in records}
        self.libs = libs or {}
        self.obls = []
        self.mode = "check"        # check | quiet
        self.cur = None
        self.exc = [[]]
        self.handled = []          # stack of exception-name tuples handled
        self.trusted = set()
        self.dropped = []
        self.kept = []
        self.timeout = timeout or core.TIMEOUT_MS
        self.scout = False
        self.globals_ = globals_ or {}
        self.depth = 0
        self.nfeas = 0
        self.ent_cache = {}
        self.deadline = None
        self.sinks = set(sinks)
        self.opaque_ok = {"device", "dtype", "logger"}

    # ------------------------------------------------------------ obligations
    def check_deadline(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget for this function exhausted")

    def oblige(self, st, goal, label, kind="safety", line=None):
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if self.mode != "check":
            st.assume(goal)
            return
        if kind == "safety" and z3.is_true(z3.simplify(goal)):
            return
        self.check_deadline()
        o = Obligation(self.cur or "?", label, kind, line)
        t = time.time()
        o.status, o.backend, o.detail, o.model = prove(st.pc, goal, self.timeout, want_model=True)
        o.secs = time.time() - t
        if o.status == "refuted" and st.notes:
            o.detail += " (imprecise: %s)" % "; ".join(st.notes[:3])
            o.status = "unknown"
        if o.status != "proved":
            o.detail += self.model_str(o.model)
            if os.environ.get("DV_DEBUG"):
                sys.stderr.write("FAIL %s %s %s line %s\n" % (o.fn, o.label, o.status, line))
        o.model = None
        self.obls.append(o)
        st.assume(goal)

    def model_str(self, m):
        if m is None:
            return ""
        out = []
        for d in m.decls()[:400]:
            if d.arity() == 0:
                v = m[d]
                s = str(v).replace("\n", " ")
                if len(s) < 120 and not d.name().startswith("k!"):
                    out.append("%s=%s" % (d.name(), s))
        return " model: " + ", ".join(sorted(out)[:40])

    def entails(self, st, f, timeout=300):
        f = z3.simplify(f)
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        s = core._solver(timeout, False)
        s.add(*core.AXIOMS)
        s.add(*st.pc)
        s.add(z3.Not(f))
        return s.check() == z3.unsat

    def feas(self, st, cond):
        c = z3.simplify(cond)
        if z3.is_false(c):
            return False
        if z3.is_true(c):
            return True
        if self.scout:
            so = z3.Solver()
            so.set("rlimit", 200000)     # not a timeout: z3's timer thread can crash on very short limits
            so.add(*[f for f in st.pc if not z3.is_quantifier(f)])
            so.add(cond)
            return so.check() != z3.unsat
        self.nfeas += 1
        self.check_deadline()
        return feasible(st.pc + [cond])

    def fork(self, st, cond):
        """[(state, True/False)]"""
        c = z3.simplify(cond)
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        t = self.feas(st, cond)
        f = self.feas(st, z3.Not(cond)) if t else True
        out = []
        if t and f:
            s2 = st.copy()
            st.assume(cond)
            s2.assume(z3.Not(cond))
            return [(st, True), (s2, False)]
        if t:
            st.assume(cond)
            return [(st, True)]
        st.assume(z3.Not(cond))
        return [(st, False)]

    def raise_(self, st, name, line=None):
        self.exc[-1].append((st, ("raise", name, line)))

    def guard(self, st, cond, excname, label, line):
        """implicit exception `excname` unless cond"""
        if self.is_handled(excname):
            out = []
            for s, ok in self.fork(st, cond):
                if ok:
                    out.append(s)
                else:
                    self.raise_(s, excname, line)
            return out
        allowed = self.cur_contract_raises(excname)
        if allowed:
            out = []
            for s, ok in self.fork(st, cond):
                if ok:
                    out.append(s)
                else:
                    self.raise_(s, excname, line)
            return out
        self.oblige(st, cond, label, "safety", line)
        return [st]

    def is_handled(self, name):
        for hs in self.handled:
            if any(exc_matches(name, h) for h in hs):
                return True
        return False

    def cur_contract_raises(self, name):
        c = getattr(self, "cur_contract", None)
        return c is not None and any(exc_matches(name, h) for h in c.raises)

    # ------------------------------------------------------------ verification
    def verify(self, qual, mod, deadline_s=240):
        """verify one function against its contract. Returns dict."""
        c = self.contracts[(mod, qual)]
        self.cur = qual
        self.cur_contract = c
        self.deadline = time.time() + deadline_s
        n0 = len(self.obls)
        info = {"function": "%s:%s" % (mod, qual), "status": "ok", "reason": ""}
        try:
            m, cls, node = self.resolve(mod, qual)
            self.verify_body(c, m, cls, node)
        except Unsupported as e:
            info["status"] = "unsupported"
            info["reason"] = str(e)
            if os.environ.get("DV_DEBUG"):
                traceback.print_exc()
        except (z3.Z3Exception, RecursionError, KeyError, AttributeError, TypeError, ValueError, IndexError, AssertionError) as e:
            info["status"] = "unsupported"
            info["reason"] = "engine: %s: %s" % (type(e).__name__, e)
            if os.environ.get("DV_DEBUG"):
                traceback.print_exc()
        self.deadline = None
        info["obligations"] = len(self.obls) - n0
        return info

    def resolve(self, mod, qual):
        m = load_module(mod)
        if m is None:
            raise Unsupported("module %s not found" % mod)
        if "." in qual:
            cn, fn = qual.split(".", 1)
            ci = m.classes.get(cn)
            if ci is None:
                raise Unsupported("class %s.%s not found" % (mod, cn))
            k = self.find_method(ci, fn)
            if k is None:
                raise Unsupported("method %s.%s not found" % (cn, fn))
            return k[0].mod, ci, k[1]
        if qual not in m.funcs:
            raise Unsupported("function %s not found in %s" % (qual, mod))
        return m, None, m.funcs[qual]

    def find_method(self, ci, name, seen=None):
        if name in ci.methods:
            return ci, ci.methods[name]
        for b in ci.bases:
            bi = self.find_class(ci.mod, b.split(".")[-1])
            if bi is not None:
                r = self.find_method(bi, name)
                if r:
                    return r
        return None

    def find_class(self, mod, name):
        if name in mod.classes:
            return mod.classes[name]
        if name in mod.imports:
            mn, orig = mod.imports[name]
            m2 = load_module(mn)
            if m2 is not None and orig:
                return self.find_class(m2, orig)
        return None

    def defines_eq(self, name):
        """may == on objects of this class be something else than identity?"""
        ci = self.class_by_name(name)
        return ci is None or "__eq__" in ci.methods or ci.dataclass or any(b not in ("object",) for b in ci.bases)

    def class_by_name(self, name):
        for m in list(_modcache.values()):
            if m is not None and name in m.classes:
                return m.classes[name]
        for m in list(_modcache.values()):
            if m is not None and m.imports.get(name, (None, None))[1] == name:
                m2 = load_module(m.imports[name][0])
                if m2 is not None and name in m2.classes:
                    return m2.classes[name]
        for m in sorted({c.mod for c in self.contracts.values() if c.mod}):
            m2 = load_module(m)
            if m2 is not None and name in m2.classes:
                return m2.classes[name]
        return None

    def param_names(self, node):
        a = node.args
        return [x.arg for x in a.posonlyargs + a.args], [x.arg for x in a.kwonlyargs], a

    def verify_body(self, c, m, cls, node):
        st = St(Heap(self.schema))
        for cl, flds in list(self.schema.items()):
            st.heap.alive(cl)
            self.wf_heap(st, cl, "$alive")
            for fl in flds:
                st.heap.arrs(cl, fl)
                self.wf_heap(st, cl, fl)
        pos, kwo, a = self.param_names(node)
        args = {}
        alln = pos + kwo
        for n, t in c.params.items():
            if n not in alln:
                raise Unsupported("contract parameter %s is not a parameter of %s any more" % (n, c.qual))
        for n in alln:
            if n in c.params:
                t = c.params[n]
                if callable(t) and not isinstance(t, T):
                    v = t(self, st)
                else:
                    v = fresh(t, n, st)
                    if isinstance(t, TRef):
                        v.maybe_null = False
                        st.assume(v.t > 0)
                        st.assume(z3.Select(st.heap.alive(t.cls), v.t))
                args[n] = v
            else:
                d = self.default_for(node, n, m, st)
                if d is None:
                    raise Unsupported("no contract type for parameter %s of %s" % (n, c.qual))
                args[n] = d
        if a.vararg:
            args[a.vararg.arg] = VTup([])
        if a.kwarg:
            args[a.kwarg.arg] = VOpaque("kwargs")
        h0 = st.heap.copy()
        for key in list(self.touch(c)):
            st.heap.arrs(*key)
            h0.arrs(*key)
        ctx = Ctx(self, st, h0, dict(args))
        if c.requires:
            for lab, f in c.requires(ctx):
                st.assume(f)
        # vacuity guard: the precondition must be satisfiable (not refutable)
        if self.mode == "check":
            o = Obligation(c.qual, "precondition is not contradictory", "vacuity")
            t = time.time()
            ok = feasible(st.pc, 2000)
            o.status = "proved" if ok else "unknown"
            o.backend = "z3"
            o.secs = time.time() - t
            self.obls.append(o)
        if c.ghost_entry:
            c.ghost_entry(ctx)
        self.entry_h0, self.entry_args = h0, args
        # env: parameters (lists/dicts/sets become local cells for mutation)
        for n, v in args.items():
            st.env[n] = self.to_cell(st, v)
        outs = self.run_body(st, node, Frame(m, cls, c.qual))
        live = 0
        for s, o in outs:
            if o is not None and o[0] == "raise":
                name, line = o[1], o[2]
                cond = None
                for en, cf in c.raises.items():
                    if exc_matches(name, en):
                        cond = cf
                if cond is None:
                    self.oblige(s, z3.BoolVal(False), "no exception %s escapes" % name, "exception", line)
                else:
                    cx = Ctx(self, s, h0, args)
                    self.oblige(s, cond(cx) if callable(cond) else z3.BoolVal(True),
                                "exception %s only when allowed" % name, "exception", line)
                continue
            live += 1
            res = NONE
            if o is not None and o[0] == "ret":
                res = o[1]
            res = s.rd(res) if isinstance(res, (VCell, VLoc)) else res
            if c.ret is not None:
                try:
                    res = coerce(res, c.ret, s)
                except Unsupported as e:
                    raise Unsupported("return value of %s: %s" % (c.qual, e))
            self.finish_path(c, s, h0, args, res)
        if self.mode == "check" and live == 0 and not c.raises:
            raise Unsupported("no normally returning path")

    def touch(self, c):
        for k in c.modifies:
            yield k[:2]

    def finish_path(self, c, s, h0, args, res):
        cx = Ctx(self, s, h0, args, res)
        if c.ghost_exit:
            c.ghost_exit(cx)
            cx = Ctx(self, s, h0, args, res)
        if c.ensures:
            for lab, f in c.ensures(cx):
                if lab.startswith("@assume"):
                    s.assume(f)
                else:
                    self.oblige(s, f, lab, "post")
        # frame
        mods = {k[:2] for k in c.modifies if len(k) == 2}
        only = {}
        for k in c.modifies:
            if len(k) == 3:
                only.setdefault(k[:2], []).append(cx.at(k[2]))
        for (cls, fld), arrs in list(s.heap.m.items()):
            if fld == "$alive" or (cls, fld) in mods:
                continue
            if fld not in self.declared.get(cls, ()):
                continue
            old = h0.arrs(cls, fld)
            if all(x.eq(y) for x, y in zip(old, arrs)):
                continue
            r = z3.FreshInt("r")
            for x, y in zip(old, arrs):
                newr = [r != nr for nr, nc in s.new if nc == cls] + [r != a for a in only.get((cls, fld), ())]
                self.oblige(s, z3.ForAll([r], z3.Implies(z3.And([z3.Select(h0.alive(cls), r)] + newr),
                                                         z3.Select(x, r) == z3.Select(y, r))),
                            "frame: %s.%s unchanged" % (cls, fld), "frame")

    def default_for(self, node, n, m, st):
        a = node.args
        pos = a.posonlyargs + a.args
        ds = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
        for p, d in zip(pos, ds):
            if p.arg == n and d is not None:
                return self.eval_const(d, m, st)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg == n and d is not None:
                return self.eval_const(d, m, st)
        return None

    def eval_const(self, d, m, st):
        s = st
        env, s.env = s.env, {}
        try:
            r = self.ev(s, d, Frame(m, None, "<default>"))
        finally:
            s.env = env
        if len(r) != 1:
            raise Unsupported("default value")
        return r[0][1]

    def to_cell(self, st, v):
        if isinstance(v, (VDict, VSet)) or (isinstance(v, VSeq) and v.kind == "list") or (isinstance(v, VRec) and v.name == "$odict"):
            return st.newcell(v)
        return v

    # ------------------------------------------------------------ statements
    def run_body(self, st, node, fr):
        if self.depth > self.MAXDEPTH:
            raise Unsupported("inlining depth")
        self.depth += 1
        self.exc.append([])
        try:
            for sub in ast.walk(node):
                if isinstance(sub, (ast.Yield, ast.YieldFrom, ast.Await)):
                    raise Unsupported("generator/async function %s" % getattr(node, "name", "?"))
            outs = self.block([(st, None)], node.body, fr)
        finally:
            ex = self.exc.pop()
            self.depth -= 1
        return outs + ex

    def block(self, states, stmts, fr):
        cur = states
        done = []
        for s in stmts:
            nxt = []
            for st, o in cur:
                if o is not None:
                    done.append((st, o))
                else:
                    nxt.append(st)
            cur = []
            if not nxt:
                break
            for st in nxt:
                cur += self.stmt(st, s, fr)
            if len(cur) + len(done) > self.MAXPATHS:
                raise Unsupported("path explosion")
        return done + cur

    def stmt(self, st, n, fr):
        self.check_deadline()
        self.exc.append([])
        try:
            m = getattr(self, "s_" + type(n).__name__, None)
            if m is None:
                raise Unsupported("statement %s at line %d" % (type(n).__name__, n.lineno))
            outs = m(st, n, fr)
        finally:
            ex = self.exc.pop()
        return outs + ex

    def s_Pass(self, st, n, fr):
        return [(st, None)]

    def s_Global(self, st, n, fr):
        return [(st, None)]

    s_Nonlocal = s_Global

    def s_Import(self, st, n, fr):
        for a in n.names:
            st.env[a.asname or a.name.split(".")[0]] = VModule(a.name if a.asname else a.name.split(".")[0])
        return [(st, None)]

    def s_ImportFrom(self, st, n, fr):
        for a in n.names:
            st.env[a.asname or a.name] = self.import_name(n.module or "", a.name)
        return [(st, None)]

    def s_FunctionDef(self, st, n, fr):
        st.env[n.name] = VFunc(None, n.name, node=n, mod=fr.mod, env=st.env, cls=fr.cls)
        return [(st, None)]

    def s_Expr(self, st, n, fr):
        if isinstance(n.value, ast.Constant):
            return [(st, None)]
        return [(s, None) for s, v in self.ev(st, n.value, fr)]

    def s_Return(self, st, n, fr):
        if n.value is None:
            return [(st, ("ret", NONE))]
        return [(s, ("ret", v)) for s, v in self.ev(st, n.value, fr)]

    def s_Break(self, st, n, fr):
        return [(st, ("brk",))]

    def s_Continue(self, st, n, fr):
        return [(st, ("cont",))]

    def s_Raise(self, st, n, fr):
        name = "Exception"
        if n.exc is not None:
            e = n.exc
            if isinstance(e, ast.Call):
                e = e.func
            name = ast.unparse(e).split(".")[-1]
        return [(st, ("raise", name, n.lineno))]

    def s_Assert(self, st, n, fr):
        out = []
        for s, v in self.ev(st, n.test, fr):
            c = self.truth(s, v)
            for s2 in self.guard(s, c, "AssertionError", "assert at line holds: " + ast.unparse(n.test)[:60], n.lineno):
                out.append((s2, None))
        return out

    def s_Delete(self, st, n, fr):
        outs = [st]
        for t in n.targets:
            nx = []
            for s in outs:
                if isinstance(t, ast.Name):
                    s.env.pop(t.id, None)
                    nx.append(s)
                elif isinstance(t, ast.Subscript):
                    for s2, base in self.ev(s, t.value, fr):
                        for s3, k in self.ev(s2, t.slice, fr):
                            nx += self.del_item(s3, base, k, t.lineno)
                else:
                    raise Unsupported("del")
            outs = nx
        return [(s, None) for s in outs]

    def del_item(self, st, base, k, line):
        c = st.rd(base)
        if isinstance(c, VDict):
            q = self.key_term(k, c)
            r = []
            for s in self.guard(st, c.dom(q), "KeyError", "key present for del", line):
                s.wr(base, self.dict_remove(c, q))
                r.append(s)
            return r
        raise Unsupported("del item of %r" % (c,))

    def dict_remove(self, c, q):
        if c.arrs is not None:
            arrs = [z3.Store(c.arrs[0], q, z3.BoolVal(False))] + list(c.arrs[1:])
            return unflatten(TDict(c.kty, c.vty), [z3.If(c.dom(q), c.size - 1, c.size)] + arrs)
        return VDict(lambda x: z3.And(c.dom(x), x != q), c.get, z3.If(c.dom(q), c.size - 1, c.size), c.kty, c.vty)

    def dict_store(self, st, c, q, v):
        vt = c.vty
        if isinstance(v, VOpt) and not isinstance(vt, (TOpt, TRef)):
            v = self.unopt(st, v, 0)
        v = coerce(v, vt, st)
        size = z3.If(c.dom(q), c.size, c.size + 1)
        if c.arrs is not None and not nested(vt):
            arrs = [z3.Store(c.arrs[0], q, z3.BoolVal(True))] + [
                z3.Store(a, q, x) for a, x in zip(c.arrs[1:], flatten(v, vt, st))]
            return unflatten(TDict(c.kty, vt), [size] + arrs)
        if c.arrs is not None:
            arrs = [z3.Store(c.arrs[0], q, z3.BoolVal(True))] + [
                z3.Store(a, q, x) for a, x in zip(c.arrs[1:], flatten(v, vt, st))]
            return unflatten(TDict(c.kty, vt), [size] + arrs)
        return VDict(lambda x: z3.Or(x == q, c.dom(x)), lambda x: ite(x == q, v, c.get(x)), size, c.kty, vt)

    def key_term(self, k, c, st=None):
        kt = c.kty
        if kt is TKey:
            return enc_key(k)
        return flatten_pure(coerce(k, kt), kt)[0]

    def s_If(self, st, n, fr):
        out = []
        for s, v in self.ev(st, n.test, fr):
            for s2, b in self.fork(s, self.truth(s, v)):
                if b:
                    self.refine(s2, n.test, True, fr)
                    out += self.block([(s2, None)], n.body, fr)
                else:
                    self.refine(s2, n.test, False, fr)
                    out += self.block([(s2, None)], n.orelse, fr) if n.orelse else [(s2, None)]
        return self.merge_same(out)

    def merge_same(self, outs):
        """join states that differ in their path conditions only (the joined state keeps the common facts: it is weaker, so sound)"""
        res = []
        for s, o in outs:
            done = False
            if o is None:
                for k, (t, p) in enumerate(res):
                    if p is None and self.same_state(s, t):
                        j = 0
                        while j < len(s.pc) and j < len(t.pc) and s.pc[j] is t.pc[j]:
                            j += 1
                        es, et = s.pc[j:], t.pc[j:]
                        m = t.copy()
                        m.pc = t.pc[:j]
                        if es and et:
                            m.assume(z3.Or(z3.And(es), z3.And(et)))
                        m.notes = t.notes + [x for x in s.notes if x not in t.notes]
                        res[k] = (m, None)
                        done = True
                        break
            if not done:
                res.append((s, o))
        return res

    def same_state(self, a, b):
        def same(x, y):
            if x is y:
                return True
            if type(x) is not type(y):
                return False
            if isinstance(x, VS):
                return x.t.eq(y.t)
            if isinstance(x, VCell):
                return x.cid == y.cid
            if isinstance(x, VRef):
                return x.cls == y.cls and x.t.eq(y.t)
            if isinstance(x, VOpaque):
                return True
            if isinstance(x, VLit):
                return x.v == y.v
            if isinstance(x, VNone):
                return True
            if isinstance(x, VLoc):
                return x.cls == y.cls and x.field == y.field and x.ref.eq(y.ref) and x.ver == y.ver
            if isinstance(x, VSeq) and x.arrs is not None and y.arrs is not None and len(x.arrs) == len(y.arrs):
                return x.ln.eq(y.ln) and all(p.eq(q) for p, q in zip(x.arrs, y.arrs))
            return False
        if set(a.env) != set(b.env) or set(a.cells) != set(b.cells) or len(a.new) != len(b.new) or a.dead != b.dead:
            return False
        if set(a.ghost) != set(b.ghost) or any(a.ghost[k] is not b.ghost[k] for k in a.ghost):
            return False
        if not all(same(a.env[k], b.env[k]) for k in a.env) or not all(same(a.cells[k], b.cells[k]) for k in a.cells):
            return False
        if a.heap.ver != b.heap.ver or len(a.writes) != len(b.writes):
            return False
        ks = set(a.heap.m) | set(b.heap.m)
        for k in ks:
            x, y = a.heap.m.get(k), b.heap.m.get(k)
            if x is y:
                continue
            if x is None or y is None:
                return False
            if isinstance(x, (list, tuple)):
                if len(x) != len(y) or not all(p.eq(q) for p, q in zip(x, y)):
                    return False
            elif not x.eq(y):
                return False
        return True

    def refine(self, st, test, pos, fr):
        """drop the Opt wrapper of a local after a None test"""
        for nm in list(st.env):
            v = st.env[nm]
            if isinstance(v, VOpt):
                if any(p.eq(z3.Not(v.none)) for p in st.pc[-3:]) or z3.is_false(z3.simplify(v.none)):
                    st.env[nm] = v.val
                elif z3.is_true(z3.simplify(v.none)) or any(p.eq(v.none) for p in st.pc[-3:]):
                    st.env[nm] = NONE

    def s_Assign(self, st, n, fr):
        out = []
        for s, v in self.ev(st, n.value, fr):
            ss = [s]
            for t in n.targets:
                ss = [x for y in ss for x in self.assign(y, t, v, fr)]
            out += [(x, None) for x in ss]
        return out

    def s_AnnAssign(self, st, n, fr):
        if n.value is None:
            return [(st, None)]
        out = []
        for s, v in self.ev(st, n.value, fr):
            out += [(x, None) for x in self.assign(s, n.target, v, fr)]
        return out

    def s_AugAssign(self, st, n, fr):
        t = n.target
        load = None
        out = []
        if isinstance(t, ast.Name):
            for s, cur in self.ev(st, ast.copy_location(ast.Name(t.id, ast.Load()), t), fr):
                for s2, r in self.ev(s, n.value, fr):
                    out += self.aug(s2, cur, r, n, lambda s3, v: self.assign(s3, t, v, fr))
            return out
        if isinstance(t, ast.Attribute):
            for s, base in self.ev(st, t.value, fr):
                for s1, cur in self.getattr_(s, base, t.attr, fr, t.lineno):
                    for s2, r in self.ev(s1, n.value, fr):
                        out += self.aug(s2, cur, r, n, lambda s3, v: self.setattr_(s3, base, t.attr, v, t.lineno))
            return out
        if isinstance(t, ast.Subscript):
            for s, base in self.ev(st, t.value, fr):
                for s1, k in self.ev(s, t.slice, fr):
                    for s2, cur in self.getitem(s1, base, k, fr, t.lineno):
                        for s3, r in self.ev(s2, n.value, fr):
                            out += self.aug(s3, cur, r, n, lambda s4, v: self.setitem(s4, base, k, v, t.lineno))
            return out
        raise Unsupported("augmented assignment")

    def aug(self, s, cur, r, n, store):
        c = s.rd(cur)
        if isinstance(cur, (VCell, VLoc)) and isinstance(c, VSeq) and isinstance(n.op, ast.Add):
            rr = self.as_seq(s, r)
            s.wr(cur, self.seq_cat(s, [c, rr], "list"))
            return [(s, None)]
        out = []
        for s2, v in self.binop(s, n.op, c, s.rd(r), n.lineno):
            out += [(x, None) for x in store(s2, v)]
        return out

    def assign(self, st, t, v, fr):
        if isinstance(t, ast.Name):
            if isinstance(v, VRef) and z3.is_app_of(v.t, z3.Z3_OP_ITE):
                x = z3.FreshInt(t.id)          # name the reference: keeps if-then-else terms out of heap indices
                st.assume(x == v.t)
                v = VRef(x, v.cls)
            st.env[t.id] = self.own(st, v)
            return [st]
        if isinstance(t, ast.Attribute):
            return [y for s, b in self.ev(st, t.value, fr) for y in self.setattr_(s, b, t.attr, v, t.lineno)]
        if isinstance(t, ast.Subscript):
            out = []
            for s, b in self.ev(st, t.value, fr):
                for s2, k in self.ev_index(s, t.slice, fr):
                    out += self.setitem(s2, b, k, v, t.lineno)
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(st, v, t.elts, t.lineno)
            ss = [st]
            for e, x in zip(t.elts, vals):
                if isinstance(e, ast.Starred):
                    e = e.value
                ss = [y for s in ss for y in self.assign(s, e, x, fr)]
            return ss
        raise Unsupported("assignment target")

    def own(self, st, v):
        if isinstance(v, (VDict, VSet)) or (isinstance(v, VSeq) and v.kind == "list") or (isinstance(v, VRec) and v.name == "$odict"):
            if isinstance(v, VSeq) and v.items is None and v.arrs is None and v.elt is not None and not nested(v.elt):
                try:
                    e = v.at(z3.Int("i!own"))
                    if isinstance(e, VS) and core._logical(z3.simplify(e.t)):
                        fl = flatten(v, TSeq(v.elt, "list"), st)         # a list whose elements are conditional terms gets its own array
                        n = named(v.ln, st)
                        v = unflatten(TSeq(v.elt, "list"), [n] + fl[1:])
                except Unsupported:
                    pass
            return st.newcell(v)
        return v

    def unpack(self, st, v, elts, line):
        v = st.rd(v)
        if isinstance(v, VOpt):
            v = st.rd(self.unopt(st, v, line))
        k = len(elts)
        if isinstance(v, VTup):
            if len(v.items) != k:
                raise Unsupported("unpack arity")
            return v.items
        if isinstance(v, VSeq):
            if any(isinstance(e, ast.Starred) for e in elts):
                raise Unsupported("starred unpack")
            self.oblige(st, v.ln == k, "unpack length", "safety", line)
            return [v.at(z3.IntVal(j)) for j in range(k)]
        if isinstance(v, VOpaque):
            return [VOpaque(v.tag) for _ in elts]
        raise Unsupported("unpack %r" % (v,))

    def setattr_(self, st, base, attr, v, line):
        base = st.rd(base)
        if isinstance(base, VOpt):
            base = self.unopt(st, base, line)
        if isinstance(base, VOpaque):
            return [st]
        if not isinstance(base, VRef):
            raise Unsupported("attribute store on %r" % (base,))
        self.nonnull(st, base, line)
        cls = base.cls
        if attr not in self.schema.get(cls, {}):
            vv = st.rd(v)
            if isinstance(vv, (VOpaque, VFunc, VClass, VModule)):
                st.ghost[("attr", cls, attr)] = vv
                return [st]
            try:
                self.schema.setdefault(cls, {})[attr] = type_of(vv, st)
            except Unsupported:
                st.ghost[("attr", cls, attr)] = vv
                return [st]
        ty = self.schema[cls][attr]
        if ty is TIgn:
            return [st]
        st.heap.put(cls, attr, base.t, v, st)
        st.heap.ver[(cls, attr)] = st.heap.ver.get((cls, attr), 0) + 1
        st.writes.append((cls, attr, base.t))
        if isinstance(v, VCell) and isinstance(ty, (TSeq, TDict, TSet)):
            st.cells[v.cid] = VLoc(cls, attr, base.t, ty, st.heap.ver[(cls, attr)])
        return [st]

    def setitem(self, st, base, k, v, line):
        c = st.rd(base)
        if isinstance(c, VOpt):
            c = self.unopt(st, c, line)
        if isinstance(c, VOpaque):
            return [st]
        if isinstance(c, VRec) and c.name == "$odict":
            kk = st.rd(k)
            if not isinstance(kk, VLit):
                raise Unsupported("dict store at a computed key")
            if kk.v in c.fields:
                f = dict(c.fields)
                old = f[kk.v]
                if isinstance(old, VOpt):
                    f[kk.v] = VOpt(z3.BoolVal(False), coerce(v, type_of(old.val, st), st))
                else:
                    f[kk.v] = coerce(v, type_of(old, st), st)
                st.wr(base, VRec("$odict", f))
            return [st]
        if isinstance(c, VDict):
            if c.vty is None:
                kv = st.rd(k)
                kt = type_of(kv, st) if not isinstance(kv, (VTup,)) else TKey
                c = empty_dict(kt, type_of(st.rd(v), st))
            st.wr(base, self.dict_store(st, c, self.key_term(st.rd(k), c), v))
            return [st]
        if isinstance(c, VSeq) and c.kind == "tensor" and isinstance(c.elt, TSeq):
            kk = st.rd(k)
            if not (isinstance(kk, VTup) and len(kk.items) == 2 and isinstance(st.rd(kk.items[1]), VSlice)):
                raise Unsupported("2-D tensor store")
            self.trusted.add("t[i, a:b] = v writes v into columns a..b of row i, and raises when the shapes differ")
            sl, vv = st.rd(kk.items[1]), st.rd(v)
            out = []
            for s, ix in self.norm_index(st, c, kk.items[0], line):
                row = c.at(ix)
                lo, hi = self.bound(s, sl.lo, row.ln, z3.IntVal(0), line), self.bound(s, sl.hi, row.ln, row.ln, line)
                if isinstance(vv, VSeq):
                    n = vv.ln
                    at = lambda j: vv.at(j - lo)
                    ok = n == z3.If(hi < lo, 0, hi - lo)
                else:
                    at, ok = (lambda j: coerce(vv, c.elt.elt, s)), z3.BoolVal(True)
                for s2 in self.guard(s, ok, "RuntimeError", "stored values fit the row slice", line):
                    new = VSeq(row.ln, lambda j: ite(z3.And(lo <= j, j < hi), at(j), row.at(j)), c.elt.elt, "tensor")
                    s2.wr(base, self.seq_store(s2, c, ix, new))
                    out.append(s2)
            return out
        if isinstance(c, VSeq) and c.kind == "list":
            i = self.norm_index(st, c, k, line)
            out = []
            for s, ix in i:
                vv = coerce(v, c.elt, s)
                if c.items is not None and z3.is_int_value(ix):
                    its = list(c.items)
                    its[ix.as_long()] = vv
                    s.wr(base, mk_items(its, c.elt, c.kind))
                else:
                    s.wr(base, self.seq_store(s, c, ix, vv))
                out.append(s)
            return out
        h = self.libs.get("setitem")
        if h:
            r = h(self, st, base, c, k, v, line)
            if r is not None:
                return r
        raise Unsupported("item assignment on %r" % (c,))

    def seq_store(self, st, c, ix, vv):
        if c.arrs is not None:
            xs = flatten(vv, c.elt, st)
            return unflatten(TSeq(c.elt, c.kind), [c.ln] + [z3.Store(a, ix, x) for a, x in zip(c.arrs, xs)])
        return VSeq(c.ln, lambda i: ite(i == ix, vv, c.at(i)), c.elt, c.kind)

    def nonnull(self, st, ref, line):
        if ref.maybe_null:
            self.oblige(st, ref.t != 0, "no attribute access on None", "safety", line)

    def unopt(self, st, v, line, what="optional value is not None"):
        if isinstance(v, VOpt):
            if z3.is_false(z3.simplify(v.none)):
                return v.val
            self.oblige(st, z3.Not(v.none), what, "safety", line)
            return v.val
        return v

    def s_With(self, st, n, fr):
        states = [(st, ())]
        for it in n.items:
            nx = []
            for s, locks in states:
                e = it.context_expr
                mon = None
                if isinstance(e, ast.Attribute) and core.MONITORS and any(k[1] == e.attr for k in core.MONITORS):
                    for s1, b in self.ev(s, e.value, fr):
                        b = s1.rd(b)
                        if isinstance(b, VRef) and (b.cls, e.attr) in core.MONITORS:
                            self.acquire(s1, b, e.attr, n.lineno)
                            nx.append((s1, locks + ((b, e.attr),)))
                        else:
                            nx.append((s1, locks))
                    continue
                for s2, v in self.ev(s, e, fr):
                    if it.optional_vars is not None:
                        nx += [(x, locks) for x in self.assign(s2, it.optional_vars, v, fr)]
                    else:
                        nx.append((s2, locks))
            states = nx
        out = []
        for s, locks in states:
            for s2, o in self.block([(s, None)], n.body, fr):
                for b, attr in reversed(locks):
                    self.release(s2, b, attr, n.lineno, o)
                out.append((s2, o))
        return out

    def set_held(self, st, b, attr, v):
        f = "$held:" + attr
        st.heap.put(b.cls, f, b.t, VS(z3.BoolVal(v), TBool), st)
        st.heap.ver[(b.cls, f)] = st.heap.ver.get((b.cls, f), 0) + 1
        st.writes.append((b.cls, f, b.t))

    def acquire(self, st, b, attr, line):
        """lock taken: protected fields hold whatever other threads left there, restricted by the monitor invariant"""
        fields, allocs, inv = core.MONITORS[(b.cls, attr)]
        self.nonnull(st, b, line)
        self.oblige(st, z3.Not(st.heap.get(b.cls, "$held:" + attr, b.t).t), "the lock is not held already", "lock", line)
        self.trusted.add("threading.Lock gives mutual exclusion (%s.%s is a monitor)" % (b.cls, attr))
        self.havoc_monitor(st, b, attr)
        for lab, f in inv(st.heap, b.t):
            st.assume(f)
        self.set_held(st, b, attr, True)

    def havoc_monitor(self, st, b, attr):
        fields, allocs, inv = core.MONITORS[(b.cls, attr)]
        for k in fields:
            for f in st.heap.havoc(*k):
                st.assume(f)
            self.wf_heap(st, *k)
            st.heap.ver[k] = st.heap.ver.get(k, 0) + 1
        for c in allocs:
            for f in st.heap.havoc(c, "$alive"):
                st.assume(f)
            self.wf_heap(st, c, "$alive")

    def release(self, st, b, attr, line, o):
        fields, allocs, inv = core.MONITORS[(b.cls, attr)]
        for lab, f in inv(st.heap, b.t):
            self.oblige(st, f, "at the release of the lock: " + lab, "lock", line)
        self.set_held(st, b, attr, False)
        if o is None:
            self.havoc_monitor(st, b, attr)

    def s_Try(self, st, n, fr):
        names = []
        for h in n.handlers:
            names.append(self.handler_names(h))
        self.handled.append(tuple(x for y in names for x in y))
        try:
            outs = self.block([(st, None)], n.body, fr)
        finally:
            self.handled.pop()
        res = []
        for s, o in outs:
            if o is not None and o[0] == "raise":
                for h, hn in zip(n.handlers, names):
                    if any(exc_matches(o[1], x) for x in hn):
                        if h.name:
                            s.env[h.name] = VOpaque("exc:" + o[1])
                        res += self.block([(s, None)], h.body, fr)
                        break
                else:
                    res.append((s, o))
            elif o is None and n.orelse:
                res += self.block([(s, None)], n.orelse, fr)
            else:
                res.append((s, o))
        if n.finalbody:
            fin = []
            for s, o in res:
                for s2, o2 in self.block([(s, None)], n.finalbody, fr):
                    fin.append((s2, o2 if o2 is not None else o))
            res = fin
        return res

    def handler_names(self, h):
        if h.type is None:
            return ("BaseException",)
        if isinstance(h.type, ast.Tuple):
            return tuple(ast.unparse(x).split(".")[-1] for x in h.type.elts)
        return (ast.unparse(h.type).split(".")[-1],)

    # ------------------------------------------------------------ loops
    def s_For(self, st, n, fr):
        out = []
        for s, it in self.ev(st, n.iter, fr):
            out += self.for_over(s, n, it, fr)
        return out

    def for_over(self, st, n, it, fr):
        seq = self.iter_seq(st, it, n.lineno)
        concrete = seq.items
        if concrete is None:
            ln = z3.simplify(seq.ln)
            if z3.is_int_value(ln) and ln.as_long() <= 64:
                concrete = [seq.at(z3.IntVal(k)) for k in range(ln.as_long())]
        if concrete is not None:
            cur = [(st, None)]
            done = []
            broke = []
            for x in concrete:
                nx = []
                for s, o in cur:
                    for s2 in self.assign(s, n.target, x, fr):
                        for s3, o3 in self.block([(s2, None)], n.body, fr):
                            if o3 is None or o3[0] == "cont":
                                nx.append((s3, None))
                            elif o3[0] == "brk":
                                broke.append((s3, None))
                            else:
                                done.append((s3, o3))
                cur = nx
                if len(cur) > self.MAXPATHS:
                    raise Unsupported("path explosion in unrolled loop")
            if n.orelse:
                cur = self.block(cur, n.orelse, fr)
            return done + broke + cur
        return self.cut_loop(st, n, fr, seq)

    def s_While(self, st, n, fr):
        k = self.cur_contract.unroll if self.cur_contract else 0
        if k and not self.scout:
            r = self.unroll_while(st, n, fr, k)
            if r is not None:
                return r
        return self.cut_loop(st, n, fr, None)

    def unroll_while(self, st, n, fr, k):
        """execute a loop whose condition is decided by literals, iteration by iteration (exact, no bound is assumed)"""
        out = []
        s = st
        for it in range(k):
            self.check_deadline()
            r = self.ev(s, n.test, fr)
            if len(r) != 1:
                return None
            s, v = r[0]
            t = z3.simplify(self.truth(s, v))
            if z3.is_false(t):
                return out + (self.block([(s, None)], n.orelse, fr) if n.orelse else [(s, None)])
            if not z3.is_true(t):
                return None
            nx = None
            for s3, o in self.block([(s, None)], n.body, fr):
                if o is None or o[0] == "cont":
                    if nx is not None:
                        return None
                    nx = s3
                elif o[0] == "brk":
                    out.append((s3, None))
                else:
                    out.append((s3, o))
            if nx is None:
                return out
            s = nx
        return None

    def assigned(self, body):
        names = set()
        for b in body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                    names.add(x.id)
                elif isinstance(x, (ast.FunctionDef,)):
                    names.add(x.name)
        return names

    def one_iter(self, st, n, fr, seq, idx):
        """run one guarded iteration; returns (continue-states, exit-states, other outcomes)"""
        cont, ext, other = [], [], []
        if seq is None:
            for s, v in self.ev(st, n.test, fr):
                for s2, b in self.fork(s, self.truth(s, v)):
                    if not b:
                        ext.append(s2)
                        continue
                    self.refine(s2, n.test, True, fr)
                    for s3, o in self.block([(s2, None)], n.body, fr):
                        if o is None or o[0] == "cont":
                            cont.append(s3)
                        elif o[0] == "brk":
                            other.append((s3, None))
                        else:
                            other.append((s3, o))
        else:
            for s2, b in self.fork(st, idx < seq.ln):
                if not b:
                    ext.append(s2)
                    continue
                for s in self.assign(s2, n.target, seq.at(idx), fr):
                    for s3, o in self.block([(s, None)], n.body, fr):
                        if o is None or o[0] == "cont":
                            cont.append(s3)
                        elif o[0] == "brk":
                            other.append((s3, None))
                        else:
                            other.append((s3, o))
        return cont, ext, other

    def cut_loop(self, st, n, fr, seq):
        con = self.cur_contract
        cands = list(con.loops) if con else []
        if seq is not None:
            cands = [("index in range", lambda c: z3.And(0 <= c.i, c.i <= c.seq.ln))] + cands
        names = self.assigned(n.body) | (self.assigned([n.test]) if seq is None else set())
        cands = list(cands)
        if seq is not None:
            names |= self.assigned([ast.Expr(n.target)]) if False else {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        # ---- scout
        save_mode, save_scout = self.mode, self.scout
        self.mode, self.scout = "quiet", True
        self.exc.append([])
        try:
            tys, cellty, fields, allocs = self.scout_loop(st, n, fr, seq, names)
        finally:
            self.exc.pop()
            self.mode, self.scout = save_mode, save_scout
        mods = {k[:2] for k in con.modifies} if con else set()
        for mm in (con.modifies if con else ()):
            if len(mm) == 3 and mm[:2] in {k[:2] for k in fields}:
                cands.append(("frame of other objects' %s.%s" % mm[:2], lambda c, mm=mm: self.frame_others(c, *mm)))
        for cls in sorted(allocs):
            cands.append(("objects created before stay %s" % cls, lambda c, cls=cls: self.frame_alive(c, cls)))
            for (fc, fld) in sorted(k for k in fields if k[0] == cls and k not in mods and k[1] != "$alive" and k[1] in self.declared.get(cls, ())):
                cands.append(("frame %s.%s" % (fc, fld), lambda c, cls=fc, fld=fld: self.frame_field(c, cls, fld)))
        for cls in sorted(set(con.allocs if con else ()) - set(allocs)):       # written objects may be ones the function allocated before the loop
            for (fc, fld) in sorted(k[:2] for k in fields if k[0] == cls and k[:2] not in mods and k[1] != "$alive" and k[1] in self.declared.get(cls, ())):
                cands.append(("frame %s.%s" % (fc, fld), lambda c, cls=fc, fld=fld: self.frame_field(c, cls, fld)))
        loop = {"heap": st.heap.copy(), "env": {k: self.try_rd(st, v) for k, v in st.env.items()}, "seq": seq, "idx": None}
        entry = st
        head0 = self.havoc_head(st, names, tys, cellty, fields, allocs)
        idx0 = None
        if seq is not None:
            idx0 = z3.FreshInt("it")
        h0 = self.entry_h0
        args = self.entry_args
        # ---- candidates true on entry
        live = []
        est = []                 # candidates established so far
        for lab, fn in ([] if self.scout else cands):      # while scouting only the shape of the state matters
            loop["idx"] = z3.IntVal(0) if seq is not None else None
            fs = self.eval_inv(fn, entry, h0, args, loop)
            if fs is None:
                continue
            ok = True
            for f in fs:
                r = prove(entry.pc + est, f, (con and con.cand_ms) or self.timeout)
                if r[0] != "proved":
                    ok = False
                    break
                est.append(f)
            if ok:
                live.append((lab, fn))
            else:
                self.dropped.append((self.cur, lab, "not established on entry (line %d)" % n.lineno))
        # ---- houdini
        rounds = 0
        while True:
            self.check_deadline()
            rounds += 1
            head = head0.copy()
            loop["idx"] = idx0
            for lab, fn in live:
                fs = self.eval_inv(fn, head, h0, args, loop)
                if fs is None:
                    continue
                for f in fs:
                    head.assume(f)
            self.mode, save_mode = "quiet", self.mode
            self.exc.append([])
            try:
                cont, ext, other = self.one_iter(head, n, fr, seq, idx0)
            finally:
                self.exc.pop()
                self.mode = save_mode
            bad = []
            loop["idx"] = idx0 + 1 if seq is not None else None
            for lab, fn in live:
                ok = True
                for s in cont:
                    fs = self.eval_inv(fn, s, h0, args, loop)
                    if fs is None:
                        ok = False
                        break
                    for f in fs:
                        r = prove(s.pc, f, (con and con.cand_ms) or self.timeout)
                        if r[0] != "proved":
                            ok = False
                            if os.environ.get("DV_DUMPINV") == lab:
                                import pickle
                                so = z3.Solver()
                                so.add(s.pc)
                                so.add(z3.Not(f))
                                open("/tmp/inv.smt2", "w").write(so.sexpr() + "\n(check-sat)\n")
                                open("/tmp/inv.txt", "w").write("\n".join(str(z3.simplify(x)).replace("\n", " ") for x in s.pc) + "\n----\n" + str(f))
                                sys.exit(3)
                            if os.environ.get("DV_DEBUG"):
                                sys.stderr.write("INV %s not preserved (%s): %s\n" % (lab, r[0], str(f)[:300]))
                            break
                    if not ok:
                        break
                if not ok:
                    bad.append(lab)
                    self.dropped.append((self.cur, lab, "not preserved (line %d)" % n.lineno))
            if not bad:
                break
            live = [x for x in live if x[0] not in bad]
            if rounds > 12:
                live = []
        # ---- final
        head = head0.copy()
        loop["idx"] = idx0
        for lab, fn in live:
            fs = self.eval_inv(fn, head, h0, args, loop)
            for f in fs or []:
                head.assume(f)
            if self.mode == "check":
                self.kept.append((self.cur, lab))
                o = Obligation(self.cur, "loop invariant (line %d): %s" % (n.lineno, lab), "invariant", n.lineno)
                o.status, o.backend = "proved", "z3"
                self.obls.append(o)
        cont, ext, other = self.one_iter(head, n, fr, seq, idx0)
        out = list(other)
        for s in ext:
            if n.orelse:
                out += self.block([(s, None)], n.orelse, fr)
            else:
                out.append((s, None))
        return out

    def frame_alive(self, c, cls):
        r = z3.FreshInt("r")
        return [z3.ForAll([r], z3.Implies(z3.Select(c.h0.alive(cls), r), z3.Select(c.h.alive(cls), r)), patterns=[z3.Select(c.h0.alive(cls), r)])]

    def frame_field(self, c, cls, fld):
        r = z3.FreshInt("r")
        return [z3.ForAll([r], z3.Implies(z3.Select(c.h0.alive(cls), r), z3.Select(x, r) == z3.Select(y, r)), patterns=[z3.Select(y, r)])
                for x, y in zip(c.h0.arrs(cls, fld), c.h.arrs(cls, fld)) if not x.eq(y)] or [z3.BoolVal(True)]

    def frame_others(self, c, cls, fld, arg):
        r, me = z3.FreshInt("r"), c.at(arg)
        return [z3.ForAll([r], z3.Implies(r != me, z3.Select(x, r) == z3.Select(y, r)), patterns=[z3.Select(y, r)])
                for x, y in zip(c.h0.arrs(cls, fld), c.h.arrs(cls, fld)) if not x.eq(y)] or [z3.BoolVal(True)]

    def try_rd(self, st, v):
        try:
            return st.rd(v)
        except Unsupported:
            return None

    def eval_inv(self, fn, st, h0, args, loop):
        try:
            cx = Ctx(self, st, h0, args, None, loop)
            r = fn(cx)
        except (KeyError, Unsupported, AttributeError, TypeError, z3.Z3Exception, IndexError):
            return None
        if r is None:
            return None
        return r if isinstance(r, list) else [r]

    def scout_loop(self, st, n, fr, seq, names):
        tys = {}
        cellty = {}
        fields = set()
        allocs = set()
        s0 = st.copy()
        base = s0
        for rnd in range(3):
            head = self.havoc_head(s0, names, tys, cellty, fields, allocs)
            nw, nn = len(head.writes), len(head.new)
            idx = z3.FreshInt("it") if seq is not None else None
            h_cells = dict(head.cells)
            hv0 = dict(head.heap.m)
            env0 = dict(head.env)
            cont, ext, other = self.one_iter(head, n, fr, seq, idx)
            changed = False
            for s in cont + ext:
                for k in s.writes[nw:]:
                    if k[:2] not in fields:
                        fields.add(k[:2])
                        changed = True
                for (r, c) in s.new[nn:]:
                    if c not in allocs:
                        allocs.add(c)
                        changed = True
                for nm in names:
                    if nm in s.env and nm in st.env:
                        v = s.env[nm]
                        if isinstance(v, VCell):
                            v0 = st.env.get(nm)
                            if isinstance(v0, VCell) and v0.cid == v.cid:
                                continue
                        try:
                            t = self.join(tys.get(nm), st.env[nm] if nm not in tys else None, v, s, st)
                        except Unsupported:
                            t = None
                        if t is not None and repr(t) != repr(tys.get(nm)):
                            tys[nm] = t
                            changed = True
                for cid in st.cells:
                    if s.cells.get(cid) is not h_cells.get(cid):
                        v = s.rd(VCell(cid))
                        if isinstance(v, VSeq) and v.elt is None:
                            continue
                        if isinstance(v, VDict) and v.vty is None:
                            continue
                        if isinstance(s.cells.get(cid), (VCell, VLoc)):
                            continue
                        t = type_of(v, s)
                        if repr(cellty.get(cid)) != repr(t):
                            cellty[cid] = t
                            changed = True
            if not changed:
                break
        return tys, cellty, fields, allocs

    def join(self, t, v0, v, s, st):
        def ty(x, s):
            if isinstance(x, VNone):
                return None
            if isinstance(x, (VCell, VLoc)):
                return type_of(s.rd(x), s)
            if isinstance(x, VTup):
                return TTup([type_of(y, s) for y in x.items])
            return type_of(x, s)
        a = t if t is not None else (ty(v0, st) if v0 is not None else None)
        a_none = t is None and isinstance(v0, VNone)
        b = ty(v, s)
        b_none = isinstance(v, VNone)
        if a is None and b is None:
            return None
        if a is None:
            r = b
        elif b is None:
            r = a
        elif repr(a) == repr(b):
            r = a
        else:
            core_a = a.t if isinstance(a, TOpt) else a
            core_b = b.t if isinstance(b, TOpt) else b
            if repr(core_a) == repr(core_b):
                r = TOpt(core_a)
            elif {repr(core_a), repr(core_b)} == {"int", "real"}:
                r = TReal
            elif {repr(core_a), repr(core_b)} == {"int", "bool"}:
                r = TInt
            elif isinstance(core_a, TSeq) and isinstance(core_b, TSeq):
                r = core_a
            else:
                raise Unsupported("join of %r and %r" % (a, b))
        if (a_none or b_none) and not isinstance(r, (TRef, TOpt)):
            r = TOpt(r)
        return r

    def havoc_head(self, st, names, tys, cellty, fields, allocs):
        h = st.copy()
        for nm in sorted(names):
            if nm not in h.env:
                continue
            v = h.env[nm]
            if isinstance(v, VCell) and nm not in tys:
                continue            # rebound only to the same cell; contents handled by cellty
            if nm in tys:
                t = tys[nm]
                nv = fresh(t, nm, h)
                if isinstance(t, TSeq) and t.kind == "list" or isinstance(t, (TDict, TSet)):
                    nv = h.newcell(nv)
                h.env[nm] = nv
            elif isinstance(v, (VS, VRef, VOpt, VSeq, VRec, VTup, VLit)):
                t = type_of(v, h) if not isinstance(v, VLit) else (TReal if isinstance(v.v, float) else None)
                if t is None:
                    continue
                h.env[nm] = fresh(t, nm, h)
            elif isinstance(v, VNone):
                pass
            else:
                pass
        for cid, t in cellty.items():
            if cid in h.cells:
                h.cells[cid] = fresh(t, "cell", h)
        for k in sorted(fields):
            for f in h.heap.havoc(*k):
                h.assume(f)
            self.wf_heap(h, *k)
        for c in sorted(allocs):
            for f in h.heap.havoc(c, "$alive"):
                h.assume(f)
            self.wf_heap(h, c, "$alive")
        return h

    def wf_heap(self, st, cls, fld):
        """type invariants of a heap field: lengths and sizes are non-negative"""
        if fld == "$alive":
            st.assume(z3.Not(z3.Select(st.heap.alive(cls), 0)))
            return
        t = self.schema[cls][fld]
        arrs = list(st.heap.arrs(cls, fld))
        for f in wf_arrays(t, arrs, []):
            st.assume(f)

    # ------------------------------------------------------------ expressions
    def ev(self, st, n, fr):
        m = getattr(self, "e_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("expression %s at line %s" % (type(n).__name__, getattr(n, "lineno", "?")))
        return m(st, n, fr)

    def ev_list(self, st, nodes, fr):
        """[(state, [values])]"""
        res = [(st, [])]
        for x in nodes:
            nx = []
            for s, vs in res:
                for s2, v in self.ev(s, x, fr):
                    nx.append((s2, vs + [v]))
            res = nx
        return res

    def ev_index(self, st, n, fr):
        return self.ev(st, n, fr)

    def e_Constant(self, st, n, fr):
        v = n.value
        if v is None:
            return [(st, NONE)]
        if isinstance(v, bool):
            return [(st, VBool(v))]
        if isinstance(v, int):
            return [(st, VInt(v))]
        return [(st, VLit(v))]

    def e_Name(self, st, n, fr):
        return [(st, self.lookup(st, n.id, fr))]

    def lookup(self, st, name, fr):
        if name in st.env:
            return st.env[name]
        if name in self.globals_:
            g = self.globals_[name]
            return g(self, st) if callable(g) and not isinstance(g, V) else g
        return self.mod_name(st, fr.mod, name)

    def mod_name(self, st, m, name):
        g = ("glob", m.name, name)
        if g in st.ghost:
            return st.ghost[g]
        if name in m.funcs:
            return VFunc(None, name, node=m.funcs[name], mod=m)
        if name in m.classes:
            return VClass(name, m)
        if name in m.consts:
            node = m.consts[name]
            try:
                v = self.eval_const(node, m, st)
            except Unsupported:
                v = VOpaque("global " + name)
            return v
        if name in m.imports:
            mn, orig = m.imports[name]
            if orig is None:
                return VModule(mn)
            return self.import_name(mn, orig, st)
        if name in BUILTINS or (name.startswith("__") and m.name in LAZY):
            return VFunc(None, name)
        if name in EXC_NAMES:
            return VClass(name)
        raise Unsupported("name %s" % name)

    def import_name(self, mn, orig, st=None):
        m2 = load_module(mn)
        if m2 is not None:
            if orig in m2.funcs:
                return VFunc(None, orig, node=m2.funcs[orig], mod=m2)
            if orig in m2.classes:
                return VClass(orig, m2)
            if orig in m2.imports and m2.imports[orig][1]:
                return self.import_name(*m2.imports[orig])
            if orig in m2.consts and st is not None:
                return self.mod_name(st, m2, orig)
            sub = load_module(mn + "." + orig)
            if sub is not None:
                return VModule(mn + "." + orig)
            return VOpaque(mn + "." + orig)
        key = mn + "." + orig
        return VFunc(None, key)

    def e_Attribute(self, st, n, fr):
        out = []
        for s, b in self.ev(st, n.value, fr):
            out += self.getattr_(s, b, n.attr, fr, n.lineno)
        return out

    def getattr_(self, st, b, attr, fr, line):
        if isinstance(b, VModule):
            m2 = load_module(b.name)
            if m2 is not None:
                return [(st, self.mod_name(st, m2, attr))]
            key = b.name + "." + attr
            la = self.libs.get("attrs", {})
            if key in la:
                return [(st, la[key])]
            return [(st, VFunc(None, key))]
        if isinstance(b, VFunc):
            key = b.name + "." + attr
            la = self.libs.get("attrs", {})
            if key in la:
                return [(st, la[key])]
            return [(st, VFunc(None, key))]
        if isinstance(b, VClass):
            ci = b.mod.classes.get(b.name) if b.mod else None
            if ci is not None:
                if attr in ci.methods:
                    return [(st, VFunc(None, attr, node=ci.methods[attr], mod=ci.mod, cls=ci))]
                if attr in ci.consts:
                    if any(x.endswith("Enum") for x in ci.bases):
                        return [(st, VRec(b.name, {"$enum": VS(intern_str("%s.%s" % (b.name, attr)), TStr)}))]
                    return [(st, self.eval_const(ci.consts[attr], ci.mod, st))]
            return [(st, VOpaque("%s.%s" % (b.name, attr)))]
        if isinstance(b, VOpaque):
            return [(st, VOpaque("%s.%s" % (b.tag, attr)))]
        v = st.rd(b)
        if isinstance(v, VOpt):
            v = self.unopt(st, v, line, "no attribute access on None (.%s)" % attr)
            b = v
        if isinstance(v, VNone):
            r = self.guard(st, z3.BoolVal(False), "AttributeError", "no attribute access on None (.%s)" % attr, line)
            return []
        if isinstance(v, VRef):
            self.nonnull(st, v, line)
            return self.ref_attr(st, v, attr, fr, line)
        if isinstance(v, VRec) and v.name in ("$dict", "$odict"):
            return [(st, VFunc(None, "." + attr, bound=b))]
        if isinstance(v, VRec):
            if attr in v.fields:
                return [(st, v.fields[attr])]
            ci = self.class_by_name(v.name)
            if ci is not None:
                k = self.find_method(ci, attr)
                if k:
                    f = VFunc(None, attr, bound=v, node=k[1], mod=k[0].mod, cls=ci)
                    if attr in k[0].props:
                        return self.call_func(st, f, [], {}, line)
                    return [(st, f)]
            raise Unsupported("record attribute %s.%s" % (v.name, attr))
        ta = self.libs.get("vattr")
        if ta:
            r = ta(self, st, b, v, attr, line)
            if r is not None:
                return r
        return [(st, VFunc(None, "." + attr, bound=b))]

    def ref_attr(self, st, v, attr, fr, line):
        cls = v.cls
        if attr in self.schema.get(cls, {}):
            ty = self.schema[cls][attr]
            if isinstance(ty, (TDict, TSet)) or isinstance(ty, TSeq) and (ty.kind == "list" or isinstance(ty.elt, TSeq)):
                return [(st, VLoc(cls, attr, v.t, ty, st.heap.ver.get((cls, attr), 0)))]
            val = st.heap.get(cls, attr, v.t)
            return [(st, val)]
        if ("attr", cls, attr) in st.ghost:
            return [(st, st.ghost[("attr", cls, attr)])]
        ci = self.class_by_name(cls)
        if ci is not None:
            k = self.find_method(ci, attr)
            if k:
                f = VFunc(None, attr, bound=v, node=k[1], mod=k[0].mod, cls=ci)
                if attr in k[0].props:
                    return self.call_func(st, f, [], {}, line)
                if attr in k[0].statics:
                    f.bound = None
                return [(st, f)]
            if attr in ci.consts:
                return [(st, self.eval_const(ci.consts[attr], ci.mod, st))]
        con = self.find_contract_for_method(cls, attr)
        if con is not None:
            return [(st, VFunc(None, attr, bound=v, cls=cls))]
        if ci is not None and ("self.%s" % attr) in ast.unparse(ci.node):
            st.notes.append("unmodelled attribute %s.%s" % (cls, attr)) if attr not in self.opaque_ok else None
            return [(st, VOpaque("%s.%s" % (cls, attr)))]
        raise Unsupported("attribute %s.%s is not in the contract's schema" % (cls, attr))

    def find_contract_for_method(self, cls, attr):
        for (m, q), c in self.contracts.items():
            if q == "%s.%s" % (cls, attr):
                return c
        return None

    # truthiness
    def truth(self, st, v):
        v = st.rd(v)
        if isinstance(v, VS):
            if v.ty is TBool:
                return v.t
            if v.ty is TInt:
                return v.t != 0
            if v.ty is TReal:
                return v.t != 0
            if v.ty is TText:
                return z3.Length(v.t) > 0
            if v.ty is TStr:
                return v.t != intern_str("")
            if v.ty is TAny:
                return z3.FreshBool("truth")
        if isinstance(v, VNone):
            return z3.BoolVal(False)
        if isinstance(v, VLit):
            return z3.BoolVal(bool(v.v))
        if isinstance(v, VRef):
            return v.t != 0
        if isinstance(v, VOpt):
            return z3.And(z3.Not(v.none), self.truth(st, v.val))
        if isinstance(v, VSeq):
            if v.kind == "tensor":
                raise Unsupported("truth value of a tensor")
            return v.ln > 0
        if isinstance(v, VDict):
            return v.size > 0
        if isinstance(v, VSet):
            return v.size > 0
        if isinstance(v, VTup):
            return z3.BoolVal(len(v.items) > 0)
        if isinstance(v, VOpaque):
            return z3.FreshBool("opqtruth")
        if isinstance(v, VRec) and v.name == "$odict":
            return z3.Or([z3.Not(f.none) if isinstance(f, VOpt) else z3.BoolVal(True) for f in v.fields.values()] + [z3.BoolVal(False)])
        if isinstance(v, VRec):
            ci = self.class_by_name(v.name)
            if ci is not None and self.find_method(ci, "__len__"):
                r = self.call_method(st, v, "__len__", [], {}, None)
                return r[0][1].t != 0
            return z3.BoolVal(True)
        return z3.BoolVal(True)

    def pure_same(self, a, b):
        return a.cells == b.cells and len(a.writes) == len(b.writes) and len(a.new) == len(b.new) and \
            all(a.heap.m.get(k) is v or (k not in a.heap.m) for k, v in b.heap.m.items())

    def cond_eval(self, st, cond, node, fr):
        """evaluate node under cond; if effect free return (value, extra facts), else None"""
        if not self.feas(st, cond):
            return "infeasible", None
        s = st.copy()
        s.assume(cond)
        n0 = len(s.pc)
        cells0, w0, nw0, h0 = s.cells, len(s.writes), len(s.new), s.heap.m
        snap_cells, snap_heap = dict(s.cells), dict(s.heap.m)
        self.exc.append([])
        try:
            r = self.ev(s, node, fr)
        finally:
            ex = self.exc.pop()
        if ex or len(r) != 1:
            return "impure", None
        s2, v = r[0]
        if len(s2.writes) != w0 or len(s2.new) != nw0:
            return "impure", None
        if any(s2.cells.get(k) is not x for k, x in snap_cells.items()):
            return "impure", None
        for k, x in s2.heap.m.items():
            if k in snap_heap and x is not snap_heap[k]:
                return "impure", None
        for k, x in s2.heap.m.items():
            if k not in st.heap.m:
                st.heap.m[k] = x
        for k, x in s2.cells.items():
            if k not in st.cells:
                st.cells[k] = x
        for f in s2.pc[n0:]:
            st.assume(z3.Implies(cond, f))
        return "ok", v

    def e_BoolOp(self, st, n, fr):
        isand = isinstance(n.op, ast.And)
        return self._bool(st, n.values, isand, fr)

    def _bool(self, st, vals, isand, fr):
        out = []
        for s, v in self.ev(st, vals[0], fr):
            if len(vals) == 1:
                out.append((s, v))
                continue
            t = self.truth(s, v)
            c = t if isand else z3.Not(t)
            rest = vals[1] if len(vals) == 2 else ast.copy_location(
                ast.BoolOp(ast.And() if isand else ast.Or(), vals[1:]), vals[1])
            nob = len(self.obls)
            kind, w = self.cond_eval_try(s, c, rest, fr)
            if kind == "infeasible":
                s.assume(z3.Not(c))
                out.append((s, v))
                continue
            if kind == "ok":
                try:
                    vv, ww = s.rd(v), s.rd(w)
                    if isinstance(vv, VS) and vv.ty is TBool or isinstance(ww, VS) and ww.ty is TBool:
                        vt, wt = self.truth(s, vv), self.truth(s, ww)
                        out.append((s, VBool(z3.And(vt, wt) if isand else z3.Or(vt, wt))))
                        continue
                    out.append((s, ite(c, ww, vv)))
                    continue
                except Unsupported:
                    pass
            del self.obls[nob:]
            for s2, b in self.fork(s, c):
                if b:
                    out += self.ev(s2, rest, fr)
                else:
                    out.append((s2, v))
        return out

    def cond_eval_try(self, s, c, node, fr):
        nob = len(self.obls)
        kind, w = self.cond_eval(s, c, node, fr)
        if kind == "impure":
            del self.obls[nob:]
        return kind, w

    def e_IfExp(self, st, n, fr):
        out = []
        for s, v in self.ev(st, n.test, fr):
            c = self.truth(s, v)
            cs = z3.simplify(c)
            if not z3.is_true(cs) and not z3.is_false(cs):
                nob = len(self.obls)
                k1, a = self.cond_eval_try(s, c, n.body, fr)
                k2, b = (None, None)
                if k1 != "impure":
                    k2, b = self.cond_eval_try(s, z3.Not(c), n.orelse, fr)
                if k1 == "infeasible" and k2 == "ok":
                    s.assume(z3.Not(c))
                    out.append((s, b))
                    continue
                if k2 == "infeasible" and k1 == "ok":
                    s.assume(c)
                    out.append((s, a))
                    continue
                if k1 == "ok" and k2 == "ok":
                    try:
                        out.append((s, ite(c, s.rd(a), s.rd(b))))
                        continue
                    except Unsupported:
                        pass
                del self.obls[nob:]
            for s2, b in self.fork(s, c):
                out += self.ev(s2, n.body if b else n.orelse, fr)
        return out

    def e_NamedExpr(self, st, n, fr):
        out = []
        for s, v in self.ev(st, n.value, fr):
            for s2 in self.assign(s, n.target, v, fr):
                out.append((s2, v))
        return out

    def e_UnaryOp(self, st, n, fr):
        out = []
        for s, v in self.ev(st, n.operand, fr):
            v = s.rd(v)
            if isinstance(n.op, ast.Not):
                out.append((s, VBool(z3.Not(self.truth(s, v)))))
            elif isinstance(n.op, ast.USub) and isinstance(v, VS):
                if v.ty is TBool:
                    v = coerce(v, TInt)
                out.append((s, VS(-v.t, v.ty)))
            elif isinstance(n.op, ast.USub) and isinstance(v, VLit):
                out.append((s, VLit(-v.v)))
            elif isinstance(n.op, ast.UAdd):
                out.append((s, v))
            elif isinstance(n.op, ast.Invert) and isinstance(v, VS) and v.ty is TInt:
                out.append((s, VInt(-v.t - 1)))
            else:
                raise Unsupported("unary op")
        return out

    def e_BinOp(self, st, n, fr):
        out = []
        for s, a in self.ev(st, n.left, fr):
            for s2, b in self.ev(s, n.right, fr):
                out += self.binop(s2, n.op, s2.rd(a), s2.rd(b), n.lineno)
        return out

    def num(self, st, v, line):
        if isinstance(v, VOpt):
            v = self.unopt(st, v, line)
        if isinstance(v, VLit) and isinstance(v.v, (float,)):
            return coerce(v, TReal)
        if isinstance(v, VS) and v.ty is TBool:
            return coerce(v, TInt)
        return v

    def binop(self, st, op, a, b, line):
        from . import lib
        r = lib.tensor_binop(self, st, op, a, b, line)
        if r is not None:
            return r
        h = self.libs.get("binop")
        if h:
            r = h(self, st, op, a, b, line)
            if r is not None:
                return r
        if isinstance(a, VOpaque) or isinstance(b, VOpaque):
            return [(st, VOpaque("binop"))]
        if isinstance(a, VLit) and isinstance(b, VLit):
            try:
                return [(st, VLit({ast.Add: lambda x, y: x + y, ast.Mult: lambda x, y: x * y, ast.Div: lambda x, y: x / y,
                                   ast.Sub: lambda x, y: x - y, ast.Mod: lambda x, y: x % y}[type(op)](a.v, b.v)))]
            except Exception:
                raise Unsupported("literal arithmetic")
        a0, b0 = a, b
        a, b = self.num(st, a, line), self.num(st, b, line)
        # text
        if isinstance(op, ast.Add):
            if isinstance(a, VS) and a.ty is TText or isinstance(b, VS) and b.ty is TText:
                a, b = coerce(a, TText), coerce(b, TText)
                return [(st, VS(z3.Concat(a.t, b.t), TText))]
            if isinstance(a, VSeq) and isinstance(b, VSeq) and a.kind != "tensor":
                return [(st, self.seq_cat(st, [a, b], a.kind))]
            if isinstance(a, VTup) and isinstance(b, VTup):
                return [(st, VTup(a.items + b.items))]
            if isinstance(a, VSeq) and isinstance(b, VTup) or isinstance(a, VTup) and isinstance(b, VSeq):
                return [(st, self.seq_cat(st, [self.as_seq(st, a), self.as_seq(st, b)], "tuple"))]
        if isinstance(op, ast.Mod) and (isinstance(a, VLit) and isinstance(a.v, str)):
            return [(st, VOpaque("fmt"))]
        if isinstance(op, ast.Mult) and isinstance(a, VSeq) and isinstance(b, VS):
            return [(st, self.seq_repeat(st, a, b.t))]
        if not (isinstance(a, VS) and isinstance(b, VS)):
            raise Unsupported("binary %s on %r, %r (line %s)" % (type(op).__name__, a0, b0, line))
        if a.ty is TReal or b.ty is TReal or isinstance(op, ast.Div):
            x, y = coerce(a, TReal).t, coerce(b, TReal).t
            if isinstance(op, ast.Add):
                return [(st, VS(x + y, TReal))]
            if isinstance(op, ast.Sub):
                return [(st, VS(x - y, TReal))]
            if isinstance(op, ast.Mult):
                return [(st, VS(x * y, TReal))]
            if isinstance(op, ast.Div):
                return [(s, VS(x / y, TReal)) for s in self.guard(st, y != 0, "ZeroDivisionError", "no division by zero", line)]
            raise Unsupported("real op")
        x, y = a.t, b.t
        if isinstance(op, ast.Add):
            return [(st, VInt(x + y))]
        if isinstance(op, ast.Sub):
            return [(st, VInt(x - y))]
        if isinstance(op, ast.Mult):
            return [(st, VInt(mul(x, y)))]
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            out = []
            for s in self.guard(st, y != 0, "ZeroDivisionError", "no division by zero", line):
                if not self.entails(s, y > 0):
                    raise Unsupported("division by a possibly negative divisor (line %s)" % line)
                out.append((s, VInt(div(x, y) if isinstance(op, ast.FloorDiv) else mod(x, y))))
            return out
        ys = z3.simplify(y)
        xs = z3.simplify(x)
        if isinstance(op, ast.LShift) and z3.is_int_value(ys):
            return [(st, VInt(x * (1 << ys.as_long())))]
        if isinstance(op, ast.RShift) and z3.is_int_value(ys):
            return [(st, VInt(x / (1 << ys.as_long())))]
        if isinstance(op, ast.BitAnd) and z3.is_int_value(ys) and (ys.as_long() + 1) & ys.as_long() == 0 and ys.as_long() >= 0:
            return [(st, VInt(x % (ys.as_long() + 1)))]
        if z3.is_int_value(xs) and z3.is_int_value(ys):
            p, q = xs.as_long(), ys.as_long()
            f = {ast.BitAnd: p & q, ast.BitOr: p | q, ast.BitXor: p ^ q}
            if type(op) in f:
                return [(st, VInt(f[type(op)]))]
            if isinstance(op, ast.Pow) and q >= 0:
                return [(st, VInt(p ** q))]
            if isinstance(op, ast.LShift):
                return [(st, VInt(p << q))]
        if isinstance(op, ast.BitAnd) and a0.ty is TBool and b0.ty is TBool:
            return [(st, VBool(z3.And(a0.t, b0.t)))]
        if isinstance(op, ast.BitOr) and a0.ty is TBool and b0.ty is TBool:
            return [(st, VBool(z3.Or(a0.t, b0.t)))]
        raise Unsupported("binary op %s" % type(op).__name__)

    def e_Compare(self, st, n, fr):
        out = []
        for s, vs in self.ev_list(st, [n.left] + n.comparators, fr):
            vs = [x if isinstance(x, (VFunc, VClass)) else x for x in vs]
            acc = [(s, z3.BoolVal(True))]
            single = None
            for op, a, b in zip(n.ops, vs, vs[1:]):
                nx = []
                for s1, t in acc:
                    for s2, c in self.compare(s1, op, a, b, n.lineno):
                        if isinstance(c, V):
                            single = c
                            nx.append((s2, t))
                        else:
                            nx.append((s2, z3.And(t, c)))
                acc = nx
            for s1, t in acc:
                out.append((s1, single if single is not None and len(n.ops) == 1 else VBool(z3.simplify(t))))
        return out

    def compare(self, st, op, a, b, line):
        h = self.libs.get("compare")
        if h:
            r = h(self, st, op, st.rd(a), st.rd(b), line)
            if r is not None:
                return r
        if isinstance(op, (ast.In, ast.NotIn)):
            vb = st.rd(b)
            if isinstance(vb, VRef):
                r = self.call_method(st, vb, "__contains__", [st.rd(a)], {}, line)
                return [(s, z3.Not(v.t) if isinstance(op, ast.NotIn) else v.t) for s, v in r]
            c = self.contains(st, st.rd(a), vb, line)
            return [(st, z3.Not(c) if isinstance(op, ast.NotIn) else c)]
        a, b = st.rd(a), st.rd(b)
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            if isinstance(a, (VFunc, VClass, VModule)) or isinstance(b, (VFunc, VClass, VModule)):
                na, nb = getattr(a, "name", a), getattr(b, "name", b)
                if isinstance(a, VNone) or isinstance(b, VNone):
                    c = z3.BoolVal(False)
                elif isinstance(na, str) and isinstance(nb, str):
                    c = z3.BoolVal(na == nb)
                else:
                    c = z3.FreshBool("cmp")
            elif isinstance(a, VOpaque) or isinstance(b, VOpaque):
                c = z3.FreshBool("opqeq")
            else:
                c = v_eq(a, b, st)
            return [(st, z3.Not(c) if isinstance(op, (ast.IsNot, ast.NotEq)) else c)]
        if isinstance(a, VOpaque) or isinstance(b, VOpaque):
            return [(st, z3.FreshBool("opqcmp"))]
        if isinstance(a, VRef) and isinstance(b, VRef):
            ci = self.class_by_name(a.cls)
            if ci is not None and isinstance(op, ast.Lt) and self.find_method(ci, "__lt__"):
                r = self.call_method(st, a, "__lt__", [b], {}, line)
                return [(s, v.t) for s, v in r]
        a, b = self.num(st, a, line), self.num(st, b, line)
        if isinstance(a, VLit):
            a = coerce(a, b.ty if isinstance(b, VS) else TReal)
        if isinstance(b, VLit):
            b = coerce(b, a.ty if isinstance(a, VS) else TReal)
        if isinstance(a, VS) and isinstance(b, VS):
            x, y = a, b
            if TReal in (a.ty, b.ty):
                x, y = coerce(a, TReal), coerce(b, TReal)
            x, y = x.t, y.t
            f = {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}
            return [(st, f[type(op)]())]
        raise Unsupported("comparison of %r and %r (line %s)" % (a, b, line))

    def contains(self, st, x, c, line):
        if isinstance(c, VOpt):
            c = self.unopt(st, c, line)
        if isinstance(c, VRec) and c.name in ("$dict", "$odict") and isinstance(x, VLit):
            if x.v not in c.fields:
                return z3.BoolVal(False)
            return z3.Not(c.fields[x.v].none) if isinstance(c.fields[x.v], VOpt) and c.name == "$odict" else z3.BoolVal(True)
        if isinstance(c, VDict):
            if c.vty is None:
                return z3.BoolVal(False)
            return c.dom(self.key_term(x, c))
        if isinstance(c, VSet):
            if c.elt is None:
                return z3.BoolVal(False)
            return c.mem(flatten_pure(coerce(x, c.elt), c.elt)[0])
        if isinstance(c, VTup):
            return z3.Or([v_eq(x, y, st) for y in c.items] + [z3.BoolVal(False)])
        if isinstance(c, VSeq):
            if c.items is not None:
                return z3.Or([v_eq(x, y, st) for y in c.items] + [z3.BoolVal(False)])
            i = z3.FreshInt("i")
            return z3.Exists([i], z3.And(0 <= i, i < c.ln, v_eq(c.at(i), x, st)))
        if isinstance(c, VS) and c.ty is TText:
            return z3.Contains(c.t, coerce(x, TText).t)
        if isinstance(c, VLit) and isinstance(x, VLit):
            return z3.BoolVal(x.v in c.v)
        if isinstance(c, VLit) and isinstance(c.v, str) and isinstance(x, VS) and x.ty is TText:
            return z3.Contains(z3.StringVal(c.v), x.t)
        if isinstance(c, VOpaque):
            return z3.FreshBool("opqin")
        raise Unsupported("membership in %r" % (c,))

    def e_Tuple(self, st, n, fr):
        return [(s, VTup([self.val(s, x) for x in vs])) for s, vs in self.ev_list(st, n.elts, fr)]

    def val(self, s, v):
        return v

    def e_List(self, st, n, fr):
        if any(isinstance(x, ast.Starred) for x in n.elts):
            out = []
            for s, vs in self.ev_list(st, [x.value if isinstance(x, ast.Starred) else x for x in n.elts], fr):
                parts = []
                for x, v in zip(n.elts, vs):
                    parts.append(self.as_seq(s, v) if isinstance(x, ast.Starred) else mk_items([s.rd(v)]))
                out.append((s, s.newcell(self.seq_cat(s, parts, "list"))))
            return out
        return [(s, s.newcell(self.mk_list(s, vs))) for s, vs in self.ev_list(st, n.elts, fr)]

    def mk_list(self, s, vs):
        vs = [s.rd(v) for v in vs]
        try:
            elt = type_of(vs[0], s) if vs else None
            for v in vs[1:]:
                t = type_of(v, s)
                if repr(t) != repr(elt):
                    if isinstance(v, VNone) and not isinstance(elt, TOpt):
                        elt = TOpt(elt)
                    elif isinstance(elt, TOpt) and repr(elt.t) == repr(t):
                        pass
                    else:
                        elt = None
                        break
        except Unsupported:
            elt = None
        if elt is None and vs:
            r = mk_items(vs, type_of_safe(vs[0], s), "list")
            return r
        if elt is not None:
            try:
                vs = [coerce(v, elt, s) for v in vs]
            except Unsupported:
                pass
        return mk_items(vs, elt, "list")

    def e_Set(self, st, n, fr):
        out = []
        for s, vs in self.ev_list(st, n.elts, fr):
            vs = [s.rd(v) for v in vs]
            elt = type_of(vs[0], s)
            ts = [flatten_pure(coerce(v, elt), elt)[0] for v in vs]
            out.append((s, s.newcell(VSet(lambda q, ts=ts: z3.Or([q == t for t in ts]), z3.FreshInt("sz"), elt))))
        return out

    def e_Dict(self, st, n, fr):
        if not n.keys:
            return [(st, st.newcell(VDict(lambda q: z3.BoolVal(False), lambda q: NONE, z3.IntVal(0), None, None)))]
        h = self.libs.get("dictlit")
        if h:
            r = h(self, st, n, fr)
            if r is not None:
                return r
        out = []
        if any(k is None for k in n.keys):
            raise Unsupported("dict unpacking")
        for s, ks in self.ev_list(st, n.keys, fr):
            for s2, vs in self.ev_list(s, n.values, fr):
                if all(isinstance(k, VLit) for k in ks):
                    out.append((s2, VRec("$dict", {k.v: s2.rd(v) for k, v in zip(ks, vs)})))
                else:
                    raise Unsupported("dict literal")
        return out

    def e_JoinedStr(self, st, n, fr):
        h = self.libs.get("fstr")
        if h:
            r = h(self, st, n, fr)
            if r is not None:
                return r
        return [(st, VOpaque("fstring"))]

    def e_Lambda(self, st, n, fr):
        return [(st, VFunc(None, "<lambda>", node=n, mod=fr.mod, env=st.env, cls=fr.cls))]

    def e_Starred(self, st, n, fr):
        raise Unsupported("starred")

    def e_Slice(self, st, n, fr):
        out = []
        parts = [x if x is not None else ast.Constant(None) for x in (n.lower, n.upper, n.step)]
        for s, vs in self.ev_list(st, parts, fr):
            out.append((s, VSlice(*[s.rd(v) for v in vs])))
        return out

    def e_Subscript(self, st, n, fr):
        out = []
        for s, b in self.ev(st, n.value, fr):
            for s2, k in self.ev(s, n.slice, fr):
                out += self.getitem(s2, b, k, fr, n.lineno)
        return out

    def norm_index(self, st, c, k, line):
        k = st.rd(k)
        if isinstance(k, VOpt):
            k = self.unopt(st, k, line)
        if isinstance(k, VS) and k.ty is TBool:
            k = coerce(k, TInt)
        if not (isinstance(k, VS) and k.ty is TInt):
            raise Unsupported("index %r (line %s)" % (k, line))
        i = z3.simplify(k.t)
        if z3.is_int_value(i):
            if i.as_long() < 0:
                i = z3.simplify(c.ln + i)
            out = []
            for s in self.guard(st, z3.And(0 <= i, i < c.ln), "IndexError", "index in bounds", line):
                out.append((s, i))
            return out
        out = []
        if self.entails(st, i >= 0):
            for s in self.guard(st, i < c.ln, "IndexError", "index in bounds", line):
                out.append((s, i))
            return out
        for s in self.guard(st, z3.And(-c.ln <= i, i < c.ln), "IndexError", "index in bounds", line):
            out.append((s, z3.If(i < 0, i + c.ln, i)))
        return out

    def getitem(self, st, b, k, fr, line):
        c = st.rd(b)
        if isinstance(c, VOpt):
            c = self.unopt(st, c, line)
        from . import lib
        r = lib.tensor_getitem(self, st, c, st.rd(k), line)
        if r is not None:
            return r
        h = self.libs.get("getitem")
        if h:
            r = h(self, st, c, k, line)
            if r is not None:
                return r
        if isinstance(c, VOpaque):
            return [(st, VOpaque(c.tag + "[]"))]
        if isinstance(c, (VClass, VFunc)):
            return [(st, VOpaque("generic"))]
        if isinstance(c, VRec):
            if c.name == "$odict":
                kk = st.rd(k)
                if isinstance(kk, VLit) and kk.v in c.fields:
                    f = c.fields[kk.v]
                    if not isinstance(f, VOpt):
                        return [(st, f)]
                    return [(s, f.val) for s in self.guard(st, z3.Not(f.none), "KeyError", "key %r present" % kk.v, line)]
                raise Unsupported("dict lookup of undeclared key")
            if c.name == "$dict":
                kk = st.rd(k)
                if isinstance(kk, VLit) and kk.v in c.fields:
                    return [(st, c.fields[kk.v])]
                raise Unsupported("dict literal lookup")
            return self.call_method(st, c, "__getitem__", [k], {}, line)
        if isinstance(c, VRef):
            return self.call_method(st, c, "__getitem__", [k], {}, line)
        if isinstance(c, VTup):
            kk = st.rd(k)
            if isinstance(kk, VSlice):
                lo, hi = (None if isinstance(x, VNone) else conc_int(x) for x in (kk.lo, kk.hi))
                return [(st, VTup(c.items[lo:hi]))]
            i = conc_int(kk)
            return [(st, c.items[i])]
        if isinstance(c, VDict):
            q = self.key_term(st.rd(k), c)
            out = []
            for s in self.guard(st, c.dom(q), "KeyError", "key present", line):
                v = c.get(q)
                if isinstance(v, VRef):
                    v.maybe_null = False
                    s.assume(v.t > 0)
                out.append((s, v))
            return out
        if isinstance(c, VSeq):
            kk = st.rd(k)
            if isinstance(kk, VSlice):
                r = self.seq_slice(st, c, kk, line)
                if c.kind == "list":
                    return [(st, st.newcell(r))]
                return [(st, r)]
            return [(s, c.at(i)) for s, i in self.norm_index(st, c, k, line)]
        if isinstance(c, VS) and c.ty is TText:
            kk = st.rd(k)
            if isinstance(kk, VSlice):
                return [(st, self.text_slice(st, c, kk, line))]
            out = []
            ln = z3.Length(c.t)
            i = z3.simplify(kk.t)
            if z3.is_int_value(i) and i.as_long() < 0:
                i = ln + i
            for s in self.guard(st, z3.And(0 <= i, i < ln), "IndexError", "index in bounds", line):
                out.append((s, VS(z3.SubString(c.t, i, 1), TText)))
            return out
        raise Unsupported("subscript of %r (line %s)" % (c, line))

    def bound(self, st, v, ln, dflt, line):
        if isinstance(v, VNone):
            return dflt
        if isinstance(v, VOpt):
            v = self.unopt(st, v, line)
        t = z3.simplify(v.t)
        if z3.is_int_value(t):
            k = t.as_long()
            if k >= 0:
                if z3.is_int_value(ln):
                    return z3.IntVal(min(k, ln.as_long()))
                if k == 0:
                    return z3.IntVal(0)
                if self.entails(st, t <= ln):
                    return t
                return z3.If(t < ln, t, ln)
            if self.entails(st, ln + t >= 0):
                return ln + t
            return z3.If(ln + t < 0, z3.IntVal(0), ln + t)
        if self.entails(st, z3.And(0 <= t, t <= ln)):
            return t
        if self.entails(st, 0 <= t):
            return z3.If(t < ln, t, ln)
        pos = z3.If(t < ln, t, ln)
        neg = z3.If(ln + t < 0, z3.IntVal(0), ln + t)
        return z3.If(t < 0, neg, pos)

    def seq_slice(self, st, c, sl, line):
        ln = z3.simplify(c.ln)
        if not isinstance(sl.step, VNone):
            k = conc_int(sl.step)
            if k == -1 and isinstance(sl.lo, VNone) and isinstance(sl.hi, VNone):
                its = list(reversed(c.items)) if c.items is not None else None
                return VSeq(c.ln, lambda i: c.at(c.ln - 1 - i), c.elt, c.kind, items=its)
            if k != 1:
                raise Unsupported("slice step")
        lo = self.bound(st, sl.lo, ln, z3.IntVal(0), line)
        hi = self.bound(st, sl.hi, ln, ln, line)
        lo, hi = z3.simplify(lo), z3.simplify(hi)
        if c.items is not None and z3.is_int_value(lo) and z3.is_int_value(hi):
            return mk_items(c.items[lo.as_long():hi.as_long()], c.elt, c.kind)
        d = z3.simplify(hi - lo)
        n = d if self.entails(st, d >= 0) else z3.If(d < 0, z3.IntVal(0), d)
        if z3.is_int_value(lo) and lo.as_long() == 0:
            return VSeq(n, c._at if c.items is None else c.at, c.elt, c.kind, arrs=c.arrs)
        r = VSeq(n, lambda i: c.at(i + lo), c.elt, c.kind)
        r.base = (c, lo)
        return r

    def text_slice(self, st, c, sl, line):
        ln = z3.Length(c.t)
        if not isinstance(sl.step, VNone):
            raise Unsupported("text slice step")
        lo = self.bound(st, sl.lo, ln, z3.IntVal(0), line)
        hi = self.bound(st, sl.hi, ln, ln, line)
        n = z3.If(hi - lo < 0, z3.IntVal(0), hi - lo)
        return VS(z3.SubString(c.t, lo, n), TText)

    def seq_cat(self, st, parts, kind):
        parts = [p for p in parts if not (p.items is not None and len(p.items) == 0)] or parts[:1]
        if len(parts) == 1:
            p = parts[0]
            return VSeq(p.ln, p._at, p.elt, kind, p.items, p.arrs)
        elt = next((p.elt for p in parts if p.elt is not None), None)
        if all(p.items is not None for p in parts):
            return mk_items([coerce(x, elt, st) if elt is not None else x for p in parts for x in p.items], elt, kind)
        a, b = parts[0], self.seq_cat(st, parts[1:], kind)
        if not same_type(a.elt, b.elt):
            if a.items is not None:
                a = mk_items([coerce(x, b.elt, st) for x in a.items], b.elt, kind)
            elif b.items is not None:
                b = mk_items([coerce(x, a.elt, st) for x in b.items], a.elt, kind)
        if b.items is not None and a.arrs is not None:
            arrs = list(a.arrs)
            for j, it in enumerate(b.items):
                arrs = [z3.Store(ar, a.ln + j, x) for ar, x in zip(arrs, flatten(it, a.elt, st))]
            return unflatten(TSeq(a.elt, kind), [a.ln + len(b.items)] + arrs)
        al = a.ln
        return VSeq(z3.simplify(a.ln + b.ln), lambda i: ite(i < al, a.at(i), b.at(i - al)), elt, kind)

    def seq_repeat(self, st, a, n):
        m = z3.simplify(n)
        if z3.is_int_value(m) and a.items is not None and len(a.items) == 1 and 0 <= m.as_long() <= 1024:
            return mk_items(list(a.items) * m.as_long(), a.elt, a.kind)
        if a.items is not None and len(a.items) == 1:
            x = a.items[0]
            return VSeq(z3.If(n < 0, z3.IntVal(0), n), lambda i: x, a.elt, a.kind)
        raise Unsupported("sequence repetition")

    def as_seq(self, st, v, line=None):
        v = st.rd(v)
        if isinstance(v, VOpt):
            v = self.unopt(st, v, line)
        if isinstance(v, VSeq):
            return v
        if isinstance(v, VTup):
            return mk_items([st.rd(x) for x in v.items], type_of_safe(v.items[0], st) if v.items else None, "tuple")
        return self.iter_seq(st, v, line)

    def iter_seq(self, st, v, line):
        v = st.rd(v)
        if isinstance(v, VOpt):
            v = self.unopt(st, v, line)
        if isinstance(v, VSeq):
            return v
        if isinstance(v, VTup):
            return mk_items([x for x in v.items], None if not v.items else type_of_safe(v.items[0], st), "tuple")
        if isinstance(v, VRec):
            r = self.call_method(st, v, "__iter__", [], {}, line)
            if len(r) == 1:
                return self.iter_seq(r[0][0], r[0][1], line)
        if isinstance(v, VDict):
            return self.dict_enum(st, v)[0]
        h = self.libs.get("iter")
        if h:
            r = h(self, st, v, line)
            if r is not None:
                return r
        raise Unsupported("iteration over %r (line %s)" % (v, line))

    def dict_enum(self, st, d):
        """trusted model of dict iteration: some enumeration without repetition of the current keys"""
        if d.vty is None:
            return mk_items([], TInt), mk_items([], TInt)
        ks = key_sort(d.kty)
        n = z3.FreshInt("dn")
        karr = z3.FreshConst(z3.ArraySort(z3.IntSort(), ks), "dk")
        pos = z3.Function(fresh_name("dpos"), ks, z3.IntSort())
        i = z3.FreshInt("i")
        q = z3.FreshConst(ks, "q")
        st.assume(n == d.size)
        st.assume(n >= 0)
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n),
                                            z3.And(d.dom(karr[i]), pos(karr[i]) == i)), patterns=[karr[i]]))
        body = z3.Implies(d.dom(q), z3.And(0 <= pos(q), pos(q) < n, karr[pos(q)] == q))
        pats = [d.dom(q)] if not z3.is_quantifier(d.dom(q)) and z3.is_app(d.dom(q)) and d.dom(q).decl().kind() == z3.Z3_OP_SELECT else None
        st.assume(z3.ForAll([q], body, patterns=pats) if pats else z3.ForAll([q], body, patterns=[pos(q)]))
        st.assume(z3.ForAll([q], z3.Implies(d.dom(q), n > 0), patterns=pats) if pats else z3.BoolVal(True))
        keys = VSeq(n, lambda x: unflatten(d.kty, [z3.Select(karr, x)]), d.kty, "list", arrs=[karr])
        vals = VSeq(n, lambda x: self.nn(d.get(z3.Select(karr, x))), d.vty, "list")
        st.ghost.setdefault("denum", []).append((keys, pos))
        self.trusted.add("dict iteration enumerates each key exactly once, order unspecified")
        return keys, vals

    def nn(self, v):
        if isinstance(v, VRef):
            v.maybe_null = False
        return v

    def e_ListComp(self, st, n, fr):
        return [(s, s.newcell(v) if isinstance(v, VSeq) else v) for s, v in self.comp(st, n, fr)]

    def e_GeneratorExp(self, st, n, fr):
        return self.comp(st, n, fr)

    def e_DictComp(self, st, n, fr):
        h = self.libs.get("dictcomp")
        if h:
            r = h(self, st, n, fr)
            if r is not None:
                return r
        if len(n.generators) != 1 or n.generators[0].ifs:
            raise Unsupported("dict comprehension (line %d)" % n.lineno)
        g = n.generators[0]
        out = []
        for s, it in self.ev(st, g.iter, fr):
            seq = self.iter_seq(s, it, n.lineno)
            idx = z3.FreshInt("di")
            k, facts = self.elem_fn(s, n.key, g, seq, fr, idx)
            v, facts2 = self.elem_fn(s, n.value, g, seq, fr, idx)
            for f in facts + facts2:
                s.assume(z3.ForAll([idx], z3.Implies(z3.And(0 <= idx, idx < seq.ln), f)))
            kt, vt = type_of(k, s), type_of(v, s)
            ks = key_sort(kt)
            kq = lambda i: flatten_pure(subst(k, kt, idx, i, s), kt)[0]
            last = z3.Function(fresh_name("dlast"), ks, z3.IntSort())
            dom = z3.Function(fresh_name("ddom"), ks, z3.BoolSort())
            q, i = z3.FreshConst(ks, "q"), z3.FreshInt("i")
            s.assume(z3.ForAll([q], z3.Implies(dom(q), z3.And(0 <= last(q), last(q) < seq.ln, kq(last(q)) == q)), patterns=[dom(q)]))
            s.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < seq.ln), z3.And(dom(kq(i)), last(kq(i)) >= i)), patterns=[kq(i)]))
            size = z3.FreshInt("dsize")
            s.assume(z3.And(size >= 0, size <= seq.ln))
            out.append((s, s.newcell(VDict(lambda x: dom(x), lambda x: subst(v, vt, idx, last(x), s), size, kt, vt))))
        return out

    def e_SetComp(self, st, n, fr):
        raise Unsupported("set comprehension (line %d)" % n.lineno)

    def comp(self, st, n, fr):
        if len(n.generators) != 1:
            raise Unsupported("nested comprehension")
        g = n.generators[0]
        out = []
        for s, it in self.ev(st, g.iter, fr):
            seq = self.iter_seq(s, it, n.lineno)
            conc = seq.items
            if conc is None:
                ln = z3.simplify(seq.ln)
                if z3.is_int_value(ln) and ln.as_long() <= 64:
                    conc = [seq.at(z3.IntVal(k)) for k in range(ln.as_long())]
            if conc is not None:
                out += self.comp_conc(s, n, g, conc, fr)
            elif not g.ifs:
                out += self.comp_map(s, n, g, seq, fr)
            else:
                out += self.comp_filter(s, n, g, seq, fr)
        return out

    def comp_conc(self, st, n, g, conc, fr):
        res = [(st, [])]
        for x in conc:
            nx = []
            for s, acc in res:
                saved = dict(s.env)
                for s1 in self.assign(s, g.target, x, fr):
                    cur = [(s1, True)]
                    for c in g.ifs:
                        c2 = []
                        for s2, b in cur:
                            if not b:
                                c2.append((s2, False))
                                continue
                            for s3, v in self.ev(s2, c, fr):
                                c2 += self.fork(s3, self.truth(s3, v))
                        cur = c2
                    for s2, b in cur:
                        if b:
                            for s3, v in self.ev(s2, n.elt, fr):
                                s3.env = dict(saved)
                                nx.append((s3, acc + [s3.rd(v)]))
                        else:
                            s2.env = dict(saved)
                            nx.append((s2, acc))
            res = nx
        return [(s, self.mk_list(s, acc)) for s, acc in res]

    def elem_fn(self, st, n_elt, g, seq, fr, idx):
        """evaluate elt at symbolic index; must be pure and single-path"""
        s = st.copy()
        s.assume(z3.And(0 <= idx, idx < seq.ln))
        n0 = len(s.pc)
        ss = self.assign(s, g.target, seq.at(idx), fr)
        if len(ss) != 1:
            raise Unsupported("comprehension target")
        w0, nw0 = len(ss[0].writes), len(ss[0].new)
        r = self.ev(ss[0], n_elt, fr)
        if len(r) != 1 or len(r[0][0].writes) != w0 or len(r[0][0].new) != nw0:
            raise Unsupported("comprehension element with effects or branches")
        for k, x in r[0][0].heap.m.items():
            st.heap.m.setdefault(k, x)
        facts = r[0][0].pc[n0:]
        return r[0][0].rd(r[0][1]), facts

    def comp_map(self, st, n, g, seq, fr):
        idx = z3.FreshInt("ci")
        v, facts = self.elem_fn(st, n.elt, g, seq, fr, idx)
        for f in facts:
            st.assume(z3.ForAll([idx], z3.Implies(z3.And(0 <= idx, idx < seq.ln), f)))
        elt = type_of(v, st)

        def at(i):
            return subst(v, elt, idx, i, st)
        return [(st, VSeq(seq.ln, at, elt, "list"))]

    def comp_filter(self, st, n, g, seq, fr):
        """filtered comprehension: strictly increasing selection of the matching indices"""
        idx = z3.FreshInt("ci")
        test = g.ifs[0] if len(g.ifs) == 1 else ast.copy_location(ast.BoolOp(ast.And(), g.ifs), g.ifs[0])
        cv, facts = self.elem_fn(st, test, g, seq, fr, idx)
        cond = self.truth(st, cv)
        g2 = ast.comprehension(target=g.target, iter=g.iter, ifs=[], is_async=0)
        v, facts2 = self.elem_fn(st, n.elt, g2, seq, fr, idx)
        elt = type_of(v, st)
        m = z3.FreshInt("fm")
        selx = z3.FreshConst(z3.ArraySort(z3.IntSort(), z3.IntSort()), "fsel")
        rank = z3.Function(fresh_name("frank"), z3.IntSort(), z3.IntSort())
        i, j = z3.FreshInt("i"), z3.FreshInt("j")
        P = lambda k: z3.substitute(cond, (idx, k))
        st.assume(z3.And(m >= 0, m <= seq.ln))
        st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < m),
                                            z3.And(0 <= selx[i], selx[i] < seq.ln, P(selx[i]), rank(selx[i]) == i)),
                            patterns=[selx[i]]))
        st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < m), selx[i] < selx[j]),
                            patterns=[z3.MultiPattern(selx[i], selx[j])]))
        st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < seq.ln, P(j)),
                                            z3.And(0 <= rank(j), rank(j) < m, selx[rank(j)] == j)),
                            patterns=[rank(j)]))
        st.ghost.setdefault("filters", []).append((seq, m, selx, rank))
        return [(st, VSeq(m, lambda k: subst(v, elt, idx, z3.Select(selx, k), st), elt, "list"))]

    # ------------------------------------------------------------ calls
    def e_Call(self, st, n, fr):
        # logging: effect free by assumption
        fsrc = ast.unparse(n.func)
        if fsrc.split(".")[0] in ("logger", "logging", "warnings") or fsrc == "print":
            self.trusted.add("logging / printing calls have no effect on verified state")
            return [(st, NONE)]
        if isinstance(n.func, ast.Name) and n.func.id == "super":
            return [(st, VOpaque("super"))]
        out = []
        for s, f in self.ev(st, n.func, fr):
            if isinstance(f, VFunc) and f.name in ("isinstance", "hasattr", "getattr", "setattr", "cast", "typing.cast"):
                r = self.special_call(s, f.name, n, fr)
                if r is not None:
                    out += r
                    continue
            argn = []
            star = False
            for a in n.args:
                if isinstance(a, ast.Starred):
                    star = True
                    argn.append(a.value)
                else:
                    argn.append(a)
            for s2, vs in self.ev_list(s, argn, fr):
                if star:
                    vs2 = []
                    for a, v in zip(n.args, vs):
                        if isinstance(a, ast.Starred):
                            vv = s2.rd(v)
                            if isinstance(vv, VTup):
                                vs2 += vv.items
                            elif isinstance(vv, VSeq) and vv.items is not None:
                                vs2 += vv.items
                            else:
                                vs2.append(VStarArgs(vv))
                        else:
                            vs2.append(v)
                    vs = vs2
                kws = [k for k in n.keywords if k.arg is not None]
                if len(kws) != len(n.keywords):
                    raise Unsupported("**kwargs call (line %d)" % n.lineno)
                for s3, kv in self.ev_list(s2, [k.value for k in kws], fr):
                    out += self.call_value(s3, f, vs, {k.arg: v for k, v in zip(kws, kv)}, n.lineno)
        return out

    def special_call(self, st, name, n, fr):
        if name in ("cast", "typing.cast"):
            return self.ev(st, n.args[1], fr)
        if name == "isinstance":
            out = []
            for s, v in self.ev(st, n.args[0], fr):
                tn = n.args[1]
                names = [ast.unparse(x) for x in (tn.elts if isinstance(tn, ast.Tuple) else [tn])]
                out.append((s, VBool(self.isinstance_(s, s.rd(v), names))))
            return out
        if name == "hasattr":
            out = []
            for s, v in self.ev(st, n.args[0], fr):
                v = s.rd(v)
                att = n.args[1].value
                if isinstance(v, VRef):
                    if att in self.schema.get(v.cls, {}) or ("hasattr", v.cls, att) in self.globals_:
                        out.append((s, VBool(True)))
                        continue
                    ci = self.class_by_name(v.cls)
                    if ci is not None:
                        out.append((s, VBool(self.find_method(ci, att) is not None)))
                        continue
                    out.append((s, VBool(self.find_contract_for_method(v.cls, att) is not None)))
                elif isinstance(v, VOpaque):
                    out.append((s, VBool(z3.FreshBool("hasattr"))))
                else:
                    raise Unsupported("hasattr")
            return out
        if name in ("getattr", "setattr") and len(n.args) == 2 + (name == "setattr") and not (name == "getattr" and isinstance(n.args[1], ast.Constant)):
            out = []
            for s, vs in self.ev_list(st, n.args, fr):
                att = self.attr_name(s, s.rd(vs[0]), s.rd(vs[1]), n.lineno)
                if name == "getattr":
                    out += self.getattr_(s, vs[0], att, fr, n.lineno)
                else:
                    for s2 in self.setattr_(s, vs[0], att, vs[2], n.lineno) or [(s, None)]:
                        out.append((s2[0] if isinstance(s2, tuple) else s2, NONE))
            return out
        if name == "getattr" and len(n.args) >= 2 and isinstance(n.args[1], ast.Constant):
            out = []
            for s, v in self.ev(st, n.args[0], fr):
                vv = s.rd(v)
                att = n.args[1].value
                has = True
                if isinstance(vv, VRef) and len(n.args) == 3:
                    ci = self.class_by_name(vv.cls)
                    has = att in self.schema.get(vv.cls, {}) or ("attr", vv.cls, att) in s.ghost or (
                        ci is not None and (self.find_method(ci, att) is not None or att in ci.consts))
                if isinstance(vv, VRec) and len(n.args) == 3:
                    has = att in vv.fields
                if has:
                    out += self.getattr_(s, v, att, fr, n.lineno)
                else:
                    out += self.ev(s, n.args[2], fr)
            return out
        return None

    def attr_name(self, st, v, a, line):
        """the attribute a computed name stands for: the only field it can equal here"""
        if isinstance(a, VLit) and isinstance(a.v, str):
            return a.v
        if isinstance(a, VS) and isinstance(v, (VRef, VOpt)):
            cls = v.cls if isinstance(v, VRef) else v.val.cls
            for f in self.schema.get(cls, {}):
                if self.entails(st, a.t == coerce(VLit(f), a.ty).t):
                    return f
        raise Unsupported("attribute name not determined (line %s)" % line)

    def isinstance_(self, st, v, names):
        h = self.libs.get("isinstance")
        if h:
            r = h(self, st, v, names)
            if r is not None:
                return r
        short = [x.split(".")[-1] for x in names]
        if isinstance(v, VOpt):
            return z3.And(z3.Not(v.none), self.isinstance_(st, v.val, names))
        if isinstance(v, VNone):
            return z3.BoolVal(False)
        if isinstance(v, VSlice):
            return z3.BoolVal("slice" in short)
        if isinstance(v, VS):
            k = {"int": ("int", "Integral"), "bool": ("bool", "int"), "real": ("float",), "str": ("str",), "text": ("str",)}
            if v.ty.name in k:
                return z3.BoolVal(any(x in short for x in k[v.ty.name]))
        if isinstance(v, VLit):
            return z3.BoolVal(type(v.v).__name__ in short)
        if isinstance(v, VSeq):
            k = {"list": "list", "tuple": "tuple", "tensor": "Tensor"}
            return z3.BoolVal(k.get(v.kind, v.kind) in short or ("Sequence" in short and v.kind != "tensor"))
        if isinstance(v, VTup):
            return z3.BoolVal("tuple" in short)
        if isinstance(v, VDict):
            return z3.BoolVal("dict" in short or "Mapping" in short)
        if isinstance(v, (VRef, VRec)):
            nm = v.cls if isinstance(v, VRef) else v.name
            if nm in short:
                return z3.BoolVal(True)
            ci = self.class_by_name(nm)
            if ci is not None:
                bs = set()
                todo = [ci]
                while todo:
                    x = todo.pop()
                    for b in x.bases:
                        bs.add(b.split(".")[-1])
                        y = self.find_class(x.mod, b.split(".")[-1])
                        if y:
                            todo.append(y)
                return z3.BoolVal(bool(bs & set(short)))
            if nm == "$dict":
                return z3.BoolVal("dict" in short)
        if isinstance(v, VOpaque):
            return z3.FreshBool("isinst")
        raise Unsupported("isinstance(%r, %s)" % (v, names))

    def call_value(self, st, f, args, kw, line):
        if isinstance(f, VClass):
            return self.construct(st, f, args, kw, line)
        if isinstance(f, VFunc):
            return self.call_func(st, f, args, kw, line)
        if isinstance(f, VOpaque):
            h = self.libs.get("opaque_call")
            if h:
                r = h(self, st, f, args, kw, line)
                if r is not None:
                    return r
            self.trusted.add("calls on opaque object %s do not modify verified state" % f.tag)
            return [(st, VOpaque(f.tag + "()"))]
        if isinstance(f, VS) and f.ty is TAny or isinstance(f, VOpt):
            self.trusted.add("callback values do not modify verified state")
            return [(st, VOpaque("callback()"))]
        raise Unsupported("call of %r (line %s)" % (f, line))

    def call_method(self, st, v, name, args, kw, line):
        nm = v.cls if isinstance(v, VRef) else v.name
        ci = self.class_by_name(nm)
        if ci is None:
            raise Unsupported("method %s of %s" % (name, nm))
        k = self.find_method(ci, name)
        if k is None:
            raise Unsupported("method %s.%s not found" % (nm, name))
        return self.call_func(st, VFunc(None, name, bound=v, node=k[1], mod=k[0].mod, cls=ci), args, kw, line)

    def call_func(self, st, f, args, kw, line):
        if f.fn is not None:
            r = f.fn(self, st, args, kw, line)
            return r if isinstance(r, list) else [(st, r)]
        if f.node is None and not (f.bound is not None and isinstance(f.bound, VRef)):
            return self.lib_call(st, f, args, kw, line)
        qual = f.name
        clsname = None
        if f.cls is not None:
            clsname = f.cls if isinstance(f.cls, str) else f.cls.name
            qual = "%s.%s" % (clsname, f.name)
        con = None
        if f.mod is not None:
            con = self.contracts.get((f.mod.name, qual))
        if con is None and clsname is not None:
            con = self.find_contract_for_method(clsname, f.name)
            if con is None and isinstance(f.bound, VRef):
                con = self.find_contract_for_method(f.bound.cls, f.name)
        if con is not None and not con.inline:
            return self.call_contract(st, con, f, args, kw, line)
        if f.node is None:
            raise Unsupported("call of %s without body or contract" % qual)
        return self.inline(st, f, args, kw, line)

    def bind(self, st, node, f, args, kw, mod):
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = list(args)
        if f.bound is not None:
            vals = [f.bound] + vals
        env = {}
        if len(vals) > len(pos):
            if a.vararg is None:
                raise Unsupported("too many arguments for %s" % f.name)
            env[a.vararg.arg] = VTup(vals[len(pos):])
            vals = vals[:len(pos)]
        elif a.vararg:
            env[a.vararg.arg] = VTup([])
        for p, v in zip(pos, vals):
            env[p] = v
        extra = {}
        for k, v in kw.items():
            if k in pos or k in [x.arg for x in a.kwonlyargs]:
                env[k] = v
            else:
                extra[k] = v
        if extra and a.kwarg is None:
            raise Unsupported("unexpected keyword %s for %s" % (list(extra), f.name))
        if a.kwarg:
            env[a.kwarg.arg] = VRec("$dict", {k: st.rd(v) for k, v in extra.items()})
        for p in pos + [x.arg for x in a.kwonlyargs]:
            if p not in env:
                d = self.default_for(node, p, mod, st)
                if d is None:
                    raise Unsupported("missing argument %s of %s" % (p, f.name))
                env[p] = d
        return env

    def inline(self, st, f, args, kw, line):
        node = f.node
        env = self.bind(st, node, f, args, kw, f.mod)
        for k, v in list(env.items()):
            env[k] = self.own(st, v)
        saved = st.env
        st.env = dict(f.env) if f.env is not None else {}
        st.env.update(env)
        fr = Frame(f.mod, f.cls if not isinstance(f.cls, str) else None, f.name)
        if isinstance(node, ast.Lambda):
            out = []
            for s, v in self.ev(st, node.body, fr):
                s.env = dict(saved)
                out.append((s, v))
            return out
        stack = getattr(self, "callstack", [])
        if stack.count(id(node)) >= 2:
            raise Unsupported("recursion in inlined %s" % f.name)
        self.callstack = stack + [id(node)]
        try:
            outs = self.run_body(st, node, fr)
        finally:
            self.callstack = stack
        res = []
        for s, o in outs:
            s.env = dict(saved)
            if o is None:
                res.append((s, NONE))
            elif o[0] == "ret":
                res.append((s, o[1]))
            elif o[0] == "raise":
                if self.is_handled(o[1]) or self.cur_contract_raises(o[1]):
                    self.exc[-1].append((s, o))
                else:
                    self.exc[-1].append((s, o))
            else:
                raise Unsupported("control flow escape")
        return res

    def call_contract(self, st, con, f, args, kw, line):
        if f.node is not None:
            env = self.bind(st, f.node, f, args, kw, f.mod)
        else:
            names = list(con.params)
            vals = ([f.bound] if f.bound is not None else []) + list(args)
            env = dict(zip(names, vals))
            env.update(kw)
        cargs = {}
        cells = {}
        for n, v in env.items():
            if n in con.params:
                t = con.params[n]
                vv = st.rd(v)
                if callable(t) and not isinstance(t, T):
                    cargs[n] = vv
                else:
                    if isinstance(vv, VOpt) and not isinstance(t, TOpt):
                        vv = self.unopt(st, vv, line, "argument %s of %s is not None" % (n, con.qual))
                    cargs[n] = coerce(vv, t, st)
                    if isinstance(t, TRef):
                        self.oblige(st, cargs[n].t != 0, "argument %s of %s is not None" % (n, con.qual), "safety", line)
            else:
                cargs[n] = v
        if con.name_args:
            cargs = {n: name_seqs(st, v) for n, v in cargs.items()}
        cx = Ctx(self, st, st.heap, cargs)
        if con.requires:
            for lab, fm in con.requires(cx):
                self.oblige(st, fm, "precondition of %s: %s" % (con.qual, lab), "pre", line)
        h0 = st.heap.copy()
        for k in con.modifies:
            h0.arrs(*k[:2])
            if len(k) == 3:          # only that object's field changes
                ft = self.schema[k[0]][k[1]]
                st.heap.put(k[0], k[1], cargs[k[2]].t, fresh(ft, "m_" + k[1], st), st)
            else:
                for fct in st.heap.havoc(*k[:2]):
                    st.assume(fct)
                self.wf_heap(st, *k[:2])
            st.heap.ver[k[:2]] = st.heap.ver.get(k[:2], 0) + 1
            st.writes.append((k[0], k[1], None))
        for cls, flds in self.schema.items():
            for fl in flds:
                if fl not in self.declared.get(cls, ()):
                    st.heap.havoc(cls, fl)
        for c in con.allocs:
            for fct in st.heap.havoc(c, "$alive"):
                st.assume(fct)
            self.wf_heap(st, c, "$alive")
            st.new.append((z3.FreshInt("calleenew"), c)) if False else None
            st.ghost["calloc"] = True
        res = NONE
        if con.ret is not None:
            res = fresh(con.ret, "r_" + con.qual.split(".")[-1], st)
            if isinstance(con.ret, TRef):
                pass
        cx = Ctx(self, st, h0, cargs, res)
        if con.ensures:
            for lab, fm in con.ensures(cx):
                st.assume(fm)
        if con.trusted:
            self.trusted.add("contract of %s is assumed" % con.qual)
        out = [(st, res if not (isinstance(res, VSeq) and res.kind == "list") else st.newcell(res))]
        for en, cond in con.raises.items():
            if cond is False:
                continue
            s2 = st.copy()
            if self.is_handled(en) or self.cur_contract_raises(en):
                self.raise_(s2, en, line)
            else:
                raise Unsupported("callee %s may raise %s" % (con.qual, en))
        return out

    def construct(self, st, f, args, kw, line):
        name = f.name
        if name in EXC_NAMES:
            return [(st, VOpaque("exc:" + name))]
        ci = f.mod.classes.get(name) if f.mod else None
        if ci is None:
            return self.lib_call(st, VFunc(None, name), args, kw, line)
        if any(x.endswith("Enum") for x in ci.bases):
            return [(st, VOpaque("enum"))]
        if name in self.records:
            return self.construct_record(st, ci, args, kw, line)
        if name not in self.schema:
            h = self.libs.get("construct")
            if h:
                r = h(self, st, name, args, kw, line)
                if r is not None:
                    return r
            raise Unsupported("construction of %s (no schema)" % name)
        r = z3.FreshInt("new_" + name)
        al = st.heap.alive(name)
        st.assume(r > 0)
        st.assume(z3.Not(z3.Select(al, r)))
        st.heap.m[(name, "$alive")] = [z3.Store(al, r, z3.BoolVal(True))]
        st.new.append((r, name))
        ref = VRef(r, name, maybe_null=False)
        k = self.find_method(ci, "__init__")
        if k is None and ci.dataclass:
            vals = self.dc_values(st, ci, args, kw)
            for fn, v in vals.items():
                self.setattr_(st, ref, fn, v, line)
            return [(st, ref)]
        if k is None:
            return [(st, ref)]
        con = self.contracts.get((k[0].mod.name, "%s.__init__" % k[0].name))
        fi = VFunc(None, "__init__", bound=ref, node=k[1], mod=k[0].mod, cls=ci)
        if con is not None and not con.inline and con.qual != self.cur:
            outs = self.call_contract(st, con, fi, args, kw, line)
        else:
            outs = self.inline(st, fi, args, kw, line)
        return [(s, ref) for s, _ in outs]

    def dc_values(self, st, ci, args, kw):
        vals = {}
        flds = self.dc_fields(ci)
        for (fn, d), v in zip(flds, args):
            vals[fn] = v
        for k, v in kw.items():
            vals[k] = v
        for fn, d in flds:
            if fn not in vals:
                if d is None:
                    raise Unsupported("missing dataclass field %s" % fn)
                if isinstance(d, ast.Call) and ast.unparse(d.func).endswith("field"):
                    dv = None
                    for kx in d.keywords:
                        if kx.arg == "default":
                            dv = self.eval_const(kx.value, ci.mod, st)
                        elif kx.arg == "default_factory":
                            src = ast.unparse(kx.value)
                            dv = {"list": lambda: st.newcell(mk_items([], None)),
                                  "dict": lambda: st.newcell(VDict(lambda q: z3.BoolVal(False), lambda q: NONE, z3.IntVal(0), None, None))
                                  }.get(src, lambda: VOpaque("factory"))()
                    vals[fn] = dv
                else:
                    vals[fn] = self.eval_const(d, ci.mod, st)
        return vals

    def dc_fields(self, ci):
        out = []
        for b in ci.bases:
            bi = self.find_class(ci.mod, b.split(".")[-1])
            if bi is not None and bi.dataclass:
                out += self.dc_fields(bi)
        names = {x for x, _ in ci.fields}
        return [x for x in out if x[0] not in names] + ci.fields

    def construct_record(self, st, ci, args, kw, line):
        ty = self.records[ci.name]
        if ci.dataclass:
            vals = self.dc_values(st, ci, args, kw)
        else:
            k = self.find_method(ci, "__init__")
            env = self.bind(st, k[1], VFunc(None, "__init__", bound=VOpaque("self")), args, kw, ci.mod)
            vals = {}
            for b in k[1].body:
                if isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant):
                    continue
                tgt = b.targets[0] if isinstance(b, ast.Assign) else (b.target if isinstance(b, ast.AnnAssign) else None)
                if not (isinstance(tgt, ast.Attribute) and isinstance(tgt.value, ast.Name) and tgt.value.id == "self"):
                    raise Unsupported("record constructor of %s" % ci.name)
                saved, st.env = st.env, dict(env)
                try:
                    r = self.ev(st, b.value, Frame(ci.mod, ci, "__init__"))
                finally:
                    st.env = saved
                if len(r) != 1:
                    raise Unsupported("record constructor branches")
                vals[tgt.attr] = r[0][1]
        vals = {k: st.rd(v) for k, v in vals.items()}
        rec = VRec(ci.name, vals)
        if ty is not None:
            for k, t in ty.fields.items():
                if isinstance(vals.get(k), VOpt) and not isinstance(t, TOpt):
                    vals[k] = self.unopt(st, vals[k], line)
            rec = VRec(ci.name, {k: (coerce(vals[k], t, st) if k in vals else None) for k, t in ty.fields.items()})
        return [(st, rec)]

    # ------------------------------------------------------------ library
    def contracts_by_cur(self):
        for (m, q), c in self.contracts.items():
            if q == self.cur:
                return c.hints or {}
        return {}

    def try_lemmas(self, st, fn):
        """intermediate facts a contract suggests before a library call: assumed only after they are proved"""
        try:
            for n, v in st.env.items():       # constants for lists under construction, so that patterns match
                w = st.rd(v) if isinstance(v, VCell) else None
                if isinstance(w, VSeq) and w.items is None and isinstance(w.elt, TSeq):
                    t = TSeq(w.elt, w.kind)
                    ys = []
                    for x in flatten(w, t, st):
                        y = z3.FreshConst(x.sort(), n)
                        st.assume(y == x)
                        ys.append(y)
                    st.wr(v, unflatten(t, ys))
            fs = fn(Ctx(self, st, self.entry_h0, self.entry_args))
        except Exception:
            return
        for f in fs:
            if prove(st.pc, f, self.timeout)[0] == "proved":
                st.assume(f)

    def lib_call(self, st, f, args, kw, line):
        name = f.name
        hint = self.contracts_by_cur().get(name)
        if hint and self.mode == "check":
            self.try_lemmas(st, hint)
        h = self.libs.get("call")
        if h:
            r = h(self, st, f, args, kw, line)
            if r is not None:
                return r
        from . import lib
        r = lib.call(self, st, f, args, kw, line)
        if r is not None:
            return r
        raise Unsupported("library call %s (line %s)" % (name, line))

    # entry context (set by verify)
    entry_h0 = None
    entry_args = None


def wf_arrays(t, arrs, idx):
    """consume the arrays of type t (indexed by idx variables plus one reference) -> closed formulas"""
    r = z3.FreshInt("r")
    out = []

    def go(t, arrs, vs):
        if isinstance(t, TSeq) or isinstance(t, (TDict, TSet)):
            a = arrs.pop(0)
            x = a
            for v in vs:
                x = z3.Select(x, v)
            out.append(z3.ForAll(vs, x >= 0, patterns=[x]))
            if isinstance(t, TSeq):
                i = z3.FreshInt("i")
                go(t.elt, arrs, vs + [i])
            elif isinstance(t, TDict):
                arrs.pop(0)
                q = z3.FreshConst(key_sort(t.k), "q")
                go(t.v, arrs, vs + [q])
            else:
                arrs.pop(0)
            return
        if isinstance(t, TOpt):
            arrs.pop(0)
            return go(t.t, arrs, vs)
        if isinstance(t, TRec):
            for u in t.fields.values():
                go(u, arrs, vs)
            return
        if isinstance(t, TTup):
            for u in t.ts:
                go(u, arrs, vs)
            return
        if isinstance(t, TRef):
            a = arrs.pop(0)
            x = a
            for v in vs:
                x = z3.Select(x, v)
            out.append(z3.ForAll(vs, x >= 0, patterns=[x]))
            return
        if t is TIgn:
            return
        arrs.pop(0)
    go(t, arrs, [r])
    return out


class VSlice(V):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class VStarArgs(V):
    def __init__(self, seq):
        self.seq = seq


def name_seqs(st, v):
    """give a computed sequence (slice, concatenation) its own array, usable in matching patterns from both sides"""
    if isinstance(v, VRec) and not v.name.startswith("$"):
        return VRec(v.name, {k: name_seqs(st, x) for k, x in v.fields.items()})
    if not isinstance(v, VSeq) or v.elt is None or nested(v.elt) or v.arrs is not None and not core._logical(z3.simplify(v.ln)):
        return v
    if v.items is not None and not v.items:
        return v
    had = v.arrs is not None
    n = named(v.ln, st)
    fl = flatten(v, TSeq(v.elt, v.kind), st)
    if not had and v.base is not None:
        c, lo = v.base
        while c.base is not None:
            lo = lo + c.base[1]
            c = c.base[0]
        k = z3.FreshInt("k")
        y = z3.simplify(flatten(c.at(k), c.elt, st)[0])
        if os.environ.get("DV_NS"):
            sys.stderr.write("NS %s %s | %s\n" % (len(fl), z3.is_select(y), str(y)[:400]))
        if len(fl) == 2 and z3.is_select(y) and y.arg(1).eq(k) and not core._logical(y.arg(0)):
            st.assume(z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < lo + n), z3.Select(fl[1], k - lo) == y), patterns=[y]))
    return unflatten(TSeq(v.elt, v.kind), [n] + fl[1:])


def conc_int(v):
    if isinstance(v, VS):
        t = z3.simplify(v.t)
        if z3.is_int_value(t):
            return t.as_long()
    raise Unsupported("concrete integer expected, got %r" % (v,))


def type_of_safe(v, st):
    try:
        return type_of(st.rd(v), st)
    except Unsupported:
        return TAny


def subst(v, ty, idx, i, st):
    if isinstance(v, VS):
        return VS(z3.substitute(v.t, (idx, i)), v.ty)
    if isinstance(v, VRef):
        return VRef(z3.substitute(v.t, (idx, i)), v.cls, v.maybe_null)
    if isinstance(v, VOpt):
        return VOpt(z3.substitute(v.none, (idx, i)), subst(v.val, ty.t if isinstance(ty, TOpt) else None, idx, i, st))
    if isinstance(v, VTup):
        return VTup([subst(x, None, idx, i, st) for x in v.items])
    if isinstance(v, VRec):
        return VRec(v.name, {k: subst(x, None, idx, i, st) for k, x in v.fields.items()})
    if isinstance(v, VSeq):
        if v.arrs is not None:
            return unflatten(TSeq(v.elt, v.kind), [z3.substitute(v.ln, (idx, i))] + [z3.substitute(a, (idx, i)) for a in v.arrs])
        return VSeq(z3.substitute(v.ln, (idx, i)), lambda j: subst(v.at(j), v.elt, idx, i, st), v.elt, v.kind)
    if isinstance(v, (VLit, VNone, VOpaque)):
        return v
    raise Unsupported("substitution in %r" % (v,))


EXC_TREE = {"IndexError": "LookupError", "KeyError": "LookupError", "LookupError": "Exception", "ValueError": "Exception",
            "AssertionError": "Exception", "RuntimeError": "Exception", "TypeError": "Exception",
            "AttributeError": "Exception", "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception",
            "NotImplementedError": "RuntimeError", "Exception": "BaseException", "OSError": "Exception",
            "FileNotFoundError": "OSError", "TimeoutError": "OSError", "UnicodeDecodeError": "ValueError",
            "MemoryError": "Exception", "StopIteration": "Exception", "JSONDecodeError": "ValueError",
            "BaseException": None, "Full": "Exception", "Empty": "Exception"}
EXC_NAMES = set(EXC_TREE)


def exc_matches(name, handler):
    while name is not None:
        if name == handler:
            return True
        name = EXC_TREE.get(name, "Exception" if name not in EXC_TREE else None)
    return False


BUILTINS = {"len", "range", "min", "max", "list", "tuple", "sum", "int", "float", "bool", "str", "abs", "zip", "enumerate",
            "sorted", "reversed", "isinstance", "hasattr", "getattr", "any", "all", "dict", "set", "iter", "next", "divmod",
            "id", "repr", "bytes", "open", "type", "slice", "round", "ord", "chr", "map", "filter", "frozenset", "print", "super",
            "setattr", "hash"}
