"""C++ front end: the clang AST of a function of /repo's current source, re-expressed statement by statement as the
Python AST the verifier executes.  Nothing is written by hand: the text that is verified is regenerated from clang's
JSON dump of the real translation unit on every run, and whatever construct is not listed here is rejected
(`Unsupported`), never approximated.

Machine integers: every arithmetic result and every narrowing conversion is emitted as __w('u32'|'s32'|..., e)
(value modulo 2^n, two's complement) or __o('s32', e) (signed arithmetic: obligation that the result is in range).
Indexing of arrays, std::vector and std::string becomes a[__ix(a, i)] with the obligation 0 <= i < size.
Dropped by the extraction: noexcept/const/attributes, reserve(), memory management of std::shared_ptr (objects are
heap references; reference counts are not modelled), the distinction between copy and move (a move is a copy).
"""
import ast, hashlib, json, os, subprocess
from .core import Unsupported
from . import pyexec

CLANG = "/usr/bin/clang++"
INC = ["", "third_party", "third_party/stb/include", "third_party/half/include", "third_party/dlpack/include",
       "third_party/xxHash/include", "third_party/utfcpp/include", "third_party/json"]
INTS = {"char": (8, 1), "signed char": (8, 1), "unsigned char": (8, 0), "short": (16, 1), "unsigned short": (16, 0),
        "int": (32, 1), "unsigned int": (32, 0), "long": (64, 1), "unsigned long": (64, 0), "long long": (64, 1),
        "unsigned long long": (64, 0), "wchar_t": (32, 1), "char32_t": (32, 0), "char16_t": (16, 0), "char8_t": (8, 0),
        "int8_t": (8, 1), "uint8_t": (8, 0), "int16_t": (16, 1), "uint16_t": (16, 0), "int32_t": (32, 1), "uint32_t": (32, 0),
        "int64_t": (64, 1), "uint64_t": (64, 0), "size_t": (64, 0), "size_type": (64, 0), "std::size_t": (64, 0), "bool": (1, 0)}
WRAP = {"ImplicitCastExpr", "CStyleCastExpr", "CXXStaticCastExpr", "CXXFunctionalCastExpr", "CXXReinterpretCastExpr"}
THROUGH = {"ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ParenExpr", "ConstantExpr", "CXXStdInitializerListExpr"}


def dump(path, filt):
    cmd = [CLANG, "-std=gnu++20", "-DFMT_HEADER_ONLY=1", "-DNDEBUG", "-DMLLM_KERNEL_USE_THREADS=1",
           "-DMLLM_KERNEL_THREADS_VENDOR_OPENMP=1", "-DXXH_DISPATCH_ENABLE=1"]
    cmd += ["-I" + os.path.join(pyexec.REPO, i) for i in INC]
    cmd += ["-w", "-fsyntax-only", "-Xclang", "-ast-dump=json", "-Xclang", "-ast-dump-filter=" + filt, os.path.join(pyexec.REPO, path)]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    if r.returncode != 0:
        raise Unsupported("clang rejects %s: %s" % (path, r.stderr.decode(errors="replace")[-300:]))
    s = r.stdout.decode(errors="replace")
    d, i, out = json.JSONDecoder(), 0, []
    while True:
        i = s.find("{", i)
        if i < 0:
            return out
        o, i = d.raw_decode(s, i)
        out.append(o)


class _Lines:
    def __init__(self):
        self.cur = 0

    def loc(self, l):
        if not isinstance(l, dict):
            return
        for k in ("spellingLoc", "expansionLoc"):
            if k in l:
                self.loc(l[k])
        if "line" in l:
            self.cur = l["line"]

    def walk(self, n):
        if not isinstance(n, dict):
            return
        self.loc(n.get("loc"))
        r = n.get("range", {})
        self.loc(r.get("begin"))
        n["_line"] = self.cur
        self.loc(r.get("end"))
        for c in n.get("inner", ()):
            self.walk(c)


def qt(n):
    t = n.get("type", {})
    return clean(t.get("desugaredQualType") or t.get("qualType") or "")


def clean(s):
    s = s.strip()
    while True:
        o = s
        for p in ("const ", "volatile ", "enum "):
            if s.startswith(p):
                s = s[len(p):]
        s = s.strip()
        if s == o:
            return s


def noref(s):
    return clean(s.rstrip("& ").strip())


def isref(n):
    return (n.get("type", {}).get("qualType") or "").rstrip().endswith("&")


def code(b, s):
    return ("s" if s else "u") + str(b)


def container(t):
    t = noref(t)
    for k in ("std::vector<", "vector<", "std::basic_string", "std::string", "std::wstring", "basic_string<"):
        if t.startswith(k):
            return "list"
    for k in ("std::unordered_map<", "std::map<", "unordered_map<", "map<"):
        if t.startswith(k):
            return "dict"
    for k in ("std::unordered_set<", "std::set<"):
        if t.startswith(k):
            return "set"
    return None


class Fn:
    """one function"""

    def __init__(self, mod, node, name):
        self.m, self.node, self.name = mod, node, name
        self.lines = []          # (text, indent, line)
        self.ids = {}
        self.used = {}
        self.tmp = 0
        self.pre = []
        self.forinc = []

    # ------------------------------------------------ helpers
    def un(self, what, n=None):
        raise Unsupported("C++ %s (line %s)" % (what, (n or {}).get("_line")))

    def emit(self, ind, txt, line):
        self.lines.append((txt, ind, line))

    def declare(self, n):
        nm = n["name"]
        if nm in ("self", "None", "True", "False", "in", "is", "not", "and", "or", "def", "lambda", "from", "import", "pass", "len", "list", "range", "min", "max", "dict", "set", "str"):
            nm += "_v"
        k = nm
        c = 1
        while k in self.active:
            c += 1
            k = "%s_%d" % (nm, c)
        self.active.add(k)
        self.scopes[-1].append(k)
        self.ids[n["id"]] = k
        return k

    def push(self):
        self.scopes.append([])

    def pop(self):
        for k in self.scopes.pop():
            self.active.discard(k)

    def run(self):
        self.active, self.scopes = set(), [[]]
        ps = [c for c in self.node.get("inner", []) if c["kind"] == "ParmVarDecl"]
        body = [c for c in self.node["inner"] if c["kind"] == "CompoundStmt"]
        names = []
        for j, p in enumerate(ps):           # parameters are named by position, so that renaming one changes nothing
            k = "p%d" % j
            self.active.add(k)
            self.ids[p["id"]] = k
            names.append(k)
        if self.node["kind"] == "CXXMethodDecl" and self.node.get("storageClass") != "static":
            names = ["self"] + names
            self.static = False
        else:
            self.static = True
        self.params = names
        self.block(body[0], 1)
        if len(self.lines) == 0:
            self.emit(1, "pass", self.node["_line"])
        return self

    # ------------------------------------------------ expressions
    def strip(self, n):
        while n["kind"] in THROUGH or (n["kind"] in WRAP and n.get("castKind") in ("NoOp", "LValueToRValue", "FunctionToPointerDecay", "ArrayToPointerDecay", "UncheckedDerivedToBase", "DerivedToBase", "ConstructorConversion", "UserDefinedConversion")):
            n = n["inner"][0]
        return n

    def e(self, n):
        k = n["kind"]
        f = getattr(self, "x_" + k, None)
        if f:
            return f(n)
        if k in THROUGH:
            return self.e(n["inner"][0])
        if k in WRAP:
            return self.cast(n)
        self.un("expression %s" % k, n)

    def cast(self, n):
        ck = n.get("castKind")
        x = n["inner"][0]
        if ck in ("NoOp", "LValueToRValue", "FunctionToPointerDecay", "ArrayToPointerDecay", "UncheckedDerivedToBase", "DerivedToBase",
                  "ConstructorConversion", "UserDefinedConversion", "BitCast", "AtomicToNonAtomic", "ToVoid"):
            return self.e(x)
        if ck == "IntegralCast":
            src, dst = qt(x), qt(n)
            v = self.e(x)
            if src == "bool":
                return "__b2i(%s)" % v
            if dst not in INTS:
                return v              # to an enumeration
            db, ds = INTS[dst]
            if src in INTS:
                sb, ss = INTS[src]
                if (ds and (sb < db or (sb == db and ss))) or (not ds and not ss and sb <= db):
                    return v
            try:
                c = int(v)
                c &= (1 << db) - 1
                if ds and c >> (db - 1):
                    c -= 1 << db
                return str(c)
            except ValueError:
                pass
            return "__w('%s', %s)" % (code(db, ds), v)
        if ck == "IntegralToBoolean":
            return "(%s != 0)" % self.e(x)
        if ck == "NullToPointer":
            return "None"
        if ck == "PointerToBoolean":
            return "(%s is not None)" % self.e(x)
        self.un("cast %s" % ck, n)

    def x_IntegerLiteral(self, n):
        return n["value"]

    def x_CharacterLiteral(self, n):
        return str(n["value"])

    def x_CXXBoolLiteralExpr(self, n):
        return "True" if n["value"] else "False"

    def x_CXXNullPtrLiteralExpr(self, n):
        return "None"

    def x_CXXThisExpr(self, n):
        return "self"

    def x_StringLiteral(self, n):
        """the array of character codes"""
        v = n["value"]
        if v.startswith("L"):
            v = v[1:]
        s = ast.literal_eval(v)
        return "[%s]" % ", ".join(str(ord(c)) for c in s)

    def x_DeclRefExpr(self, n):
        d = n["referencedDecl"]
        if d["id"] in self.ids:
            return self.ids[d["id"]]
        if d["kind"] == "EnumConstantDecl":
            return "__enum('%s')" % d["name"]
        if d["kind"] in ("FunctionDecl", "CXXMethodDecl"):
            return self.m.fname(d)
        if d["kind"] == "VarDecl" and d["name"] in self.m.consts:
            return str(self.m.consts[d["name"]])
        self.un("reference to %s %s" % (d["kind"], d.get("name")), n)

    def x_MemberExpr(self, n):
        b = n["inner"][0]
        return "%s.%s" % (self.e(b), n["name"])

    def x_ConditionalOperator(self, n):
        p = len(self.pre)
        c, a, b = [self.e(x) for x in n["inner"]]
        if len(self.pre) != p:
            self.un("side effect inside a conditional expression", n)
        return "(%s if %s else %s)" % (a, c, b)

    def arith(self, n, op, a, b, t):
        if t not in INTS:
            self.un("arithmetic on %s" % t, n)
        bt, sg = INTS[t]
        if op in ("/", "%"):
            if sg:
                return "__o('%s', __%s(%s, %s))" % (code(bt, sg), "tdiv" if op == "/" else "tmod", a, b)
            return "(%s %s %s)" % (a, "//" if op == "/" else "%", b)
        if op == ">>":
            return "__shr(%s, %s)" % (a, b)
        if op == "<<":
            return "__%s('%s', __shl(%s, %s))" % ("w", code(bt, sg), a, b)
        if op in ("&", "|", "^"):
            return "__bit%s('%s', %s, %s)" % ({"&": "and", "|": "or", "^": "xor"}[op], code(bt, sg), a, b)
        return "__%s('%s', %s %s %s)" % ("o" if sg else "w", code(bt, sg), a, op, b)

    def x_BinaryOperator(self, n):
        op = n["opcode"]
        if op == "=":
            t = self.tmpname()
            v = self.e(n["inner"][1])
            self.pre.append("%s = %s" % (t, v))
            self.pre.append("%s = %s" % (self.lv(n["inner"][0]), t))
            return t
        if op == ",":
            self.un("comma operator", n)
        if op in ("&&", "||"):
            a = self.e(n["inner"][0])
            p = len(self.pre)
            b = self.e(n["inner"][1])
            if len(self.pre) != p:
                self.un("side effect on the right of %s" % op, n)
            return "(%s %s %s)" % (a, "and" if op == "&&" else "or", b)
        a, b = self.e(n["inner"][0]), self.e(n["inner"][1])
        if op in ("==", "!=", "<", "<=", ">", ">="):
            if b == "None" and op in ("==", "!="):
                return "(%s %s None)" % (a, "is" if op == "==" else "is not")
            return "(%s %s %s)" % (a, op, b)
        if qt(n).endswith("*"):
            if op in ("+", "-") and qt(n) in ("char *", "const char *", "unsigned char *", "uint8_t *"):
                return "(%s %s %s)" % (a, op, b)         # byte address
            self.un("pointer arithmetic", n)
        return self.arith(n, op, a, b, qt(n))

    def x_CompoundAssignOperator(self, n):
        self.pre += self.compound(n)
        return self.lv(n["inner"][0])

    def compound(self, n):
        op = n["opcode"][:-1]
        l = self.lv(n["inner"][0])
        r = self.e(n["inner"][1])
        lt = qt(n["inner"][0])
        ct = clean(n.get("computeResultType", {}).get("desugaredQualType") or n.get("computeResultType", {}).get("qualType") or lt)
        v = self.arith(n, op, l, r, ct)
        if ct != lt:
            b, s = INTS[lt]
            v = "__w('%s', %s)" % (code(b, s), v)
        return ["%s = %s" % (l, v)]

    def tmpname(self):
        self.tmp += 1
        return "__t%d" % self.tmp

    def x_UnaryOperator(self, n):
        op = n["opcode"]
        x = n["inner"][0]
        if op in ("++", "--"):
            l = self.lv(x)
            inc = "%s = %s" % (l, self.arith(n, "+" if op == "++" else "-", l, "1", qt(x)))
            if n.get("isPostfix"):
                t = self.tmpname()
                self.pre.append("%s = %s" % (t, l))
                self.pre.append(inc)
                return t
            self.pre.append(inc)
            return l
        if op == "!":
            return "(not %s)" % self.e(x)
        if op == "-":
            v = self.e(x)
            try:
                return str(-int(v))
            except ValueError:
                return self.arith(n, "-", "0", v, qt(n))
        if op == "+":
            return self.e(x)
        if op == "~":
            b, s = INTS[qt(n)]
            return "__w('%s', -1 - %s)" % (code(b, s), self.e(x))
        if op == "*":
            y = self.strip(x)
            if y["kind"] == "CXXThisExpr":
                return "self"
            v = self.e(x)
            return "%s[__ix(%s, 0)]" % (v, v)
        if op == "&":
            return self.e(x)
        self.un("unary %s" % op, n)

    def x_ArraySubscriptExpr(self, n):
        a, i = self.e(n["inner"][0]), self.e(n["inner"][1])
        return "%s[__ix(%s, %s)]" % (a, a, i)

    def opname(self, n):
        c = self.strip(n["inner"][0])
        return c.get("referencedDecl", {}).get("name", "")

    def iter_of(self, n, which):
        """X when n is X.begin() / X.end()"""
        n = self.strip(n)
        if n["kind"] == "CXXConstructExpr" and len(n.get("inner", [])) == 1:
            n = self.strip(n["inner"][0])
        if n["kind"] == "CXXMemberCallExpr" and n["inner"][0].get("name") in which:
            return n["inner"][0]["inner"][0]
        return None

    def find_of(self, n):
        """python membership test text when n is X.find(k) or std::find(X.begin(), X.end(), k)"""
        n = self.strip(n)
        if n["kind"] == "CXXConstructExpr" and len(n.get("inner", [])) == 1:
            n = self.strip(n["inner"][0])
        if n["kind"] == "CXXMemberCallExpr" and n["inner"][0].get("name") == "find" and container(qt(n["inner"][0]["inner"][0])) in ("dict", "set"):
            return self.e(n["inner"][1]), self.e(n["inner"][0]["inner"][0])
        if n["kind"] == "CallExpr" and self.opname(n) == "find" and len(n["inner"]) == 4:
            a, b = self.iter_of(n["inner"][1], ("begin", "cbegin")), self.iter_of(n["inner"][2], ("end", "cend"))
            if a is not None and b is not None:
                xa, xb = self.e(a), self.e(b)
                if xa == xb:
                    return self.e(n["inner"][3]), xa
        return None

    def x_CXXRewrittenBinaryOperator(self, n):
        return self.e(n["inner"][0])

    def x_CXXOperatorCallExpr(self, n):
        op = self.opname(n)
        args = n["inner"][1:]
        if op in ("operator->", "operator*") and len(args) == 1:
            return self.e(args[0])
        if op == "operator[]":
            a, i = self.e(args[0]), self.e(args[1])
            if container(qt(args[0])) == "dict":
                return "%s[%s]" % (a, i)
            return "%s[__ix(%s, %s)]" % (a, a, i)
        if op in ("operator==", "operator!="):
            f = self.find_of(args[0])
            if f and self.iter_of(args[1], ("end", "cend")) is not None:
                return "(%s %s %s)" % (f[0], "not in" if op == "operator==" else "in", f[1])
            a, b = self.e(args[0]), self.e(args[1])
            if b == "None":
                return "(%s %s None)" % (a, "is" if op == "operator==" else "is not")
            return "(%s %s %s)" % (a, op[8:], b)
        if op == "operator=":
            v = self.copy(args[1])
            l = self.lv(args[0])
            self.pre.append("%s = %s" % (l, v))
            return l
        if op == "operator()":
            self.un("call operator", n)
        self.un(op, n)

    def copy(self, n):
        """value of n as a fresh value (containers are copied)"""
        v = self.e(n)
        c = container(qt(n))
        x = self.strip(n)
        if c and x["kind"] in ("DeclRefExpr", "MemberExpr", "CXXOperatorCallExpr", "ArraySubscriptExpr"):
            return {"list": "list(%s)", "dict": "dict(%s)", "set": "set(%s)"}[c] % v
        return v

    def x_CXXConstructExpr(self, n):
        t = qt(n)
        args = [a for a in n.get("inner", []) if a["kind"] != "CXXDefaultArgExpr"]
        c = container(t)
        if t.startswith("std::shared_ptr") or t.startswith("shared_ptr"):
            if not args:
                return "None"
            return self.e(args[0])
        if t.startswith("std::pair<"):
            return "(%s)" % ", ".join(self.copy(a) for a in args)
        if c:
            if not args:
                return {"list": "[]", "dict": "{}", "set": "set()"}[c]
            a0 = self.strip(args[0])
            if len(args) == 1:
                if container(qt(args[0])) == c:
                    return self.copy(args[0])
                if a0["kind"] == "InitListExpr":
                    return "[%s]" % ", ".join(self.copy(a) for a in a0.get("inner", []))
                if qt(args[0]) in INTS and c == "list" and "vector" in t:
                    return "([0] * %s)" % self.e(args[0])
            if len(args) == 2 and c == "list":
                if qt(args[0]) in INTS and "vector" in t:
                    return "([%s] * %s)" % (self.e(args[1]), self.e(args[0]))
                p = self.strip(args[1])
                if p["kind"] == "BinaryOperator" and p["opcode"] == "+" and qt(args[0]).endswith("*"):
                    a, b = self.e(args[0]), self.e(p["inner"][0])
                    if a == b:
                        return "__prefix(%s, %s)" % (a, self.e(p["inner"][1]))
            self.un("constructor of %s" % t, n)
        if len(args) == 1 and noref(qt(args[0])) == t:
            return self.e(args[0])
        self.un("constructor of %s" % t, n)

    x_CXXTemporaryObjectExpr = x_CXXConstructExpr

    def x_InitListExpr(self, n):
        if container(qt(n)) == "list":
            return "[%s]" % ", ".join(self.copy(a) for a in n.get("inner", []))
        if qt(n) in INTS and len(n.get("inner", [])) == 1:
            return self.e(n["inner"][0])
        self.un("initializer list of %s" % qt(n), n)

    def x_CallExpr(self, n):
        c = self.strip(n["inner"][0])
        d = c.get("referencedDecl", {})
        nm = d.get("name", "")
        args = [a for a in n["inner"][1:]]
        if any(a["kind"] == "CXXDefaultArgExpr" for a in args):
            self.un("default argument in a call", n)
        if nm == "make_shared":
            t = qt(n)
            t = t[t.index("<") + 1: t.rindex(">")].split("::")[-1]
            if t not in self.m.classes or args:
                self.un("make_shared<%s>" % t, n)
            return "%s()" % t
        if nm in ("move", "forward", "as_const"):
            return self.e(args[0])
        if nm in ("min", "max"):
            return "%s(%s, %s)" % (nm, self.e(args[0]), self.e(args[1]))
        if nm == "max" and not args:
            b, s = INTS[qt(n)]
            return str((1 << (b - s)) - 1)
        if d.get("kind") in ("FunctionDecl", "CXXMethodDecl"):
            if d["id"] not in self.m.names:
                self.m.missing[nm] = len(args)
            return "%s(%s)" % (self.m.fname(d), ", ".join(self.e(a) for a in args))
        self.un("call of %s" % nm, n)

    def x_CXXMemberCallExpr(self, n):
        m = n["inner"][0]
        if m["kind"] != "MemberExpr":
            self.un("member call", n)
        nm, ob = m["name"], m["inner"][0]
        args = [a for a in n["inner"][1:] if a["kind"] != "CXXDefaultArgExpr"]
        t = qt(ob)
        c = container(t)
        o = self.e(ob)
        if nm.startswith("operator "):         # conversion
            return "(%s is not None)" % o
        if c == "list":
            if nm in ("size", "length"):
                return "len(%s)" % o
            if nm == "empty":
                return "(len(%s) == 0)" % o
            if nm in ("push_back", "emplace_back"):
                if len(args) != 1:
                    self.un("emplace_back with several arguments", n)
                v = self.copy(args[0])
                elt = t[t.index("<") + 1:] if "<" in t else ""
                self.pre.append("%s.append(%s)" % (o, self.to_elt(t, args[0], v)))
                return "None"
            if nm == "pop_back":
                self.pre.append("%s.pop()" % o)
                return "None"
            if nm in ("back",):
                return "%s[__ix(%s, len(%s) - 1)]" % (o, o, o)
            if nm in ("front",):
                return "%s[__ix(%s, 0)]" % (o, o)
            if nm == "at":
                return "%s[__ix(%s, %s)]" % (o, o, self.e(args[0]))
            if nm == "clear":
                self.pre.append("%s.clear()" % o)
                return "None"
            if nm == "reserve":
                return "None"
        if c in ("dict", "set"):
            if nm == "size":
                return "len(%s)" % o
            if nm == "empty":
                return "(len(%s) == 0)" % o
            if nm in ("count", "contains"):
                return ("__b2i(%s in %s)" if nm == "count" else "(%s in %s)") % (self.e(args[0]), o)
            if nm == "at":
                return "%s[%s]" % (o, self.e(args[0]))
            if nm == "insert" and c == "dict":
                a = self.strip(args[0])
                if a["kind"] == "CXXConstructExpr" and len(a.get("inner", [])) == 2:
                    k, v = self.copy(a["inner"][0]), self.copy(a["inner"][1])
                    self.pre.append("__insert(%s, %s, %s)" % (o, k, v))
                    return "None"
            if nm == "clear":
                self.pre.append("%s.clear()" % o)
                return "None"
        if nm in ("get",) and "shared_ptr" in t:
            return o
        d = m.get("referencedMemberDecl")
        if self.m.method_known(t, nm):
            return "%s.%s(%s)" % (o, self.m.mname(t, nm, len(args)), ", ".join(self.e(a) for a in args))
        self.un("member call %s on %s" % (nm, t), n)

    def to_elt(self, t, a, v):
        """emplace_back converts its argument to the element type"""
        s = qt(a)
        for nm in INTS:
            if t.startswith("std::vector<%s>" % nm) or t.startswith("std::vector<%s," % nm):
                if s in INTS and s != nm:
                    b, sg = INTS[nm]
                    return "__w('%s', %s)" % (code(b, sg), v)
        return v

    # ------------------------------------------------ lvalues
    def lv(self, n):
        n = self.strip(n)
        if n["kind"] in ("DeclRefExpr", "MemberExpr", "ArraySubscriptExpr", "CXXOperatorCallExpr"):
            x = self.e(n)
            return x
        if n["kind"] == "UnaryOperator" and n["opcode"] in ("++", "--") and not n.get("isPostfix"):
            return self.e(n)
        self.un("assignment to %s" % n["kind"], n)

    # ------------------------------------------------ statements
    def flush(self, ind, line):
        for t in self.pre:
            self.emit(ind, t, line)
        self.pre = []

    def block(self, n, ind):
        self.push()
        k0 = len(self.lines)
        for c in n.get("inner", []):
            self.s(c, ind)
        if len(self.lines) == k0:
            self.emit(ind, "pass", n.get("_line", 0))
        self.pop()

    def body(self, n, ind):
        if n["kind"] == "CompoundStmt":
            return self.block(n, ind)
        self.push()
        k0 = len(self.lines)
        self.s(n, ind)
        if len(self.lines) == k0:
            self.emit(ind, "pass", n.get("_line", 0))
        self.pop()

    def s(self, n, ind):
        f = getattr(self, "s_" + n["kind"], None)
        if f:
            return f(n, ind)
        # expression statement
        v = self.e(n)
        self.flush(ind, n["_line"])
        x = self.strip(n)
        if x["kind"] in ("CallExpr", "CXXMemberCallExpr") and v != "None":
            self.emit(ind, v, n["_line"])

    def s_CompoundStmt(self, n, ind):
        self.block(n, ind)

    def s_NullStmt(self, n, ind):
        pass

    def s_AttributedStmt(self, n, ind):
        self.s(n["inner"][-1], ind)

    def s_BinaryOperator(self, n, ind):
        if n["opcode"] != "=":
            return self.s_expr(n, ind)
        l = n["inner"][0]
        # C++17: the right operand is sequenced before the left one
        v = self.copy(n["inner"][1])
        p = len(self.pre)
        t = self.lv(l)
        if len(self.pre) > p:
            h = self.tmpname()
            self.pre.insert(p, "%s = %s" % (h, v))
            v = h
        self.flush(ind, n["_line"])
        self.emit(ind, "%s = %s" % (t, v), n["_line"])

    def s_expr(self, n, ind):
        self.e(n)
        self.flush(ind, n["_line"])

    def s_CompoundAssignOperator(self, n, ind):
        self.pre += self.compound(n)
        self.flush(ind, n["_line"])

    def s_DeclStmt(self, n, ind):
        for d in n["inner"]:
            if d["kind"] in ("TypeAliasDecl", "UsingDecl", "TypedefDecl", "StaticAssertDecl"):
                continue
            if d["kind"] != "VarDecl":
                self.un("declaration %s" % d["kind"], n)
            t = qt(d)
            ini = [c for c in d.get("inner", []) if c["kind"] not in ("FullComment",)]
            if d.get("storageClass") == "static":
                self.un("static local", n)
            if not ini:
                nm = self.declare(d)
                if t in INTS:
                    self.emit(ind, "%s = __undef('%s')" % (nm, code(*INTS[t])), d["_line"])
                    continue
                self.un("uninitialized %s" % t, n)
            if isref(d):
                v = self.e(ini[0])
                if not container(t) and noref(t) in INTS and not (d["type"]["qualType"]).startswith("const"):
                    self.un("reference to a scalar", n)
            else:
                v = self.copy(ini[0])
            nm = self.declare(d)
            self.flush(ind, d["_line"])
            self.emit(ind, "%s = %s" % (nm, v), d["_line"])

    def s_ReturnStmt(self, n, ind):
        if n.get("inner"):
            v = self.e(n["inner"][0])
            self.flush(ind, n["_line"])
            self.emit(ind, "return %s" % v, n["_line"])
        else:
            self.emit(ind, "return", n["_line"])

    def s_IfStmt(self, n, ind):
        inner = list(n["inner"])
        self.push()
        if n.get("hasInit"):
            self.s(inner.pop(0), ind)
        if n.get("hasVar"):
            self.un("condition variable", n)
        c = self.e(inner[0])
        self.flush(ind, n["_line"])
        self.emit(ind, "if %s:" % c, n["_line"])
        self.body(inner[1], ind + 1)
        if len(inner) > 2:
            self.emit(ind, "else:", inner[2].get("_line", n["_line"]))
            self.body(inner[2], ind + 1)
        self.pop()

    def loop(self, cond, inc, body, ind, line):
        pre0 = self.pre
        self.pre = []
        c = self.e(cond) if cond and cond.get("kind") else "True"
        cpre, self.pre = self.pre, pre0
        if cpre:
            self.emit(ind, "while True:", line)
            for t in cpre:
                self.emit(ind + 1, t, line)
            self.emit(ind + 1, "if not (%s):" % c, line)
            self.emit(ind + 2, "break", line)
        else:
            self.emit(ind, "while %s:" % c, line)
        self.forinc.append((inc, line))
        self.body(body, ind + 1)
        self.forinc.pop()
        if inc and inc.get("kind"):
            self.s(inc, ind + 1)

    def s_ForStmt(self, n, ind):
        init, var, cond, inc, body = n["inner"]
        if var and var.get("kind"):
            self.un("for condition variable", n)
        self.push()
        if init and init.get("kind"):
            self.s(init, ind)
        self.loop(cond, inc, body, ind, n["_line"])
        self.pop()

    def s_WhileStmt(self, n, ind):
        if len(n["inner"]) != 2:
            self.un("while condition variable", n)
        self.loop(n["inner"][0], None, n["inner"][1], ind, n["_line"])

    def s_DoStmt(self, n, ind):
        body, cond = n["inner"]
        self.emit(ind, "while True:", n["_line"])
        for x in self.walk(body):
            if x.get("kind") == "ContinueStmt":
                self.un("continue in do-while", n)
        self.forinc.append((None, 0))
        self.body(body, ind + 1)
        self.forinc.pop()
        c = self.e(cond)
        self.flush(ind + 1, n["_line"])
        self.emit(ind + 1, "if not (%s):" % c, n["_line"])
        self.emit(ind + 2, "break", n["_line"])

    def walk(self, n):
        yield n
        for c in n.get("inner", ()):
            yield from self.walk(c)

    def s_ContinueStmt(self, n, ind):
        inc, line = self.forinc[-1]
        if inc and inc.get("kind"):
            self.s(inc, ind)
        self.emit(ind, "continue", n["_line"])

    def s_BreakStmt(self, n, ind):
        if self.forinc and self.forinc[-1] == "switch":
            self.un("break inside a nested statement of a switch", n)
        self.emit(ind, "break", n["_line"])

    def s_CXXForRangeStmt(self, n, ind):
        inner = n["inner"]
        self.push()
        if inner[0] and inner[0].get("kind"):
            self.s(inner[0], ind)
        rng = inner[1]["inner"][0]["inner"][0]
        var, body = inner[-2], inner[-1]
        r = self.e(rng)
        self.flush(ind, n["_line"])
        d = var["inner"][0]
        if d["kind"] != "VarDecl":
            self.un("structured binding in for", n)
        c = container(qt(rng))
        if c not in ("list", "set"):
            self.un("range-for over %s" % qt(rng), n)
        if isref(d) and not d["type"]["qualType"].startswith("const") and noref(qt(d)) in INTS:
            self.un("range-for by mutable reference", n)
        nm = "__it_" + self.declare(d)          # not a counter: kept apart from the other locals
        self.ids[d["id"]] = nm
        self.emit(ind, "for __elt in %s:" % r, n["_line"])
        self.in_deref = True
        ini = d["inner"][0]
        v = self.e_elt(ini)
        self.emit(ind + 1, "%s = %s" % (nm, v), n["_line"])
        self.forinc.append((None, 0))
        self.body(body, ind + 1)
        self.forinc.pop()
        self.pop()

    def e_elt(self, n):
        """initializer of a range-for variable: `*__begin`, possibly converted"""
        x = self.strip(n)
        if x["kind"] == "CXXOperatorCallExpr" and self.opname(x) == "operator*":
            return "__elt"
        if x["kind"] in WRAP:
            old = x["inner"][0]
            y = self.strip(old)
            if y["kind"] == "CXXOperatorCallExpr" and self.opname(y) == "operator*":
                fake = {"kind": "_Elt", "type": y["type"], "_line": n.get("_line")}
                return self.cast({**x, "inner": [fake]})
        if x["kind"] == "CXXConstructExpr" and len(x.get("inner", [])) == 1:
            return self.e_elt(x["inner"][0])
        self.un("range-for element", n)

    def x__Elt(self, n):
        return "__elt"

    def s_SwitchStmt(self, n, ind):
        cond, body = n["inner"][-2], n["inner"][-1]
        if len(n["inner"]) != 2:
            self.un("switch with init", n)
        v = self.tmpname()
        ce = self.e(cond)
        self.flush(ind, n["_line"])
        self.emit(ind, "%s = %s" % (v, ce), n["_line"])
        groups = []          # (labels or None, stmts)

        def case(x, labels):
            while x["kind"] in ("CaseStmt", "DefaultStmt"):
                if x["kind"] == "CaseStmt":
                    labels.append(self.e(x["inner"][0]))
                else:
                    labels.append(None)
                x = x["inner"][-1]
            return labels, x
        for x in body.get("inner", []):
            if x["kind"] in ("CaseStmt", "DefaultStmt"):
                l, st = case(x, [])
                groups.append((l, [st]))
            else:
                if not groups:
                    self.un("statement before the first case", n)
                groups[-1][1].append(x)

        def flat(sts):
            out = []
            for x in sts:
                out += flat(x.get("inner", [])) if x["kind"] == "CompoundStmt" else [x]
            return out
        kw = "if"
        dflt = None
        for l, sts in groups:
            sts = flat(sts)
            if not sts or sts[-1]["kind"] not in ("BreakStmt", "ReturnStmt", "ContinueStmt"):
                if (l, sts) != groups[-1] and groups[-1][0] is not l:
                    self.un("switch fallthrough", n)
            if sts and sts[-1]["kind"] == "BreakStmt":
                sts = sts[:-1]
            if None in l:
                if l != [None] and groups[-1][0] is not l:
                    self.un("default joined with other cases", n)
                dflt = sts
                continue
            self.emit(ind, "%s %s:" % (kw, " or ".join("%s == %s" % (v, a) for a in l)), sts[0]["_line"] if sts else n["_line"])
            self.sw(sts, ind + 1, n)
            kw = "elif"
        if dflt is not None:
            if kw == "if":
                self.sw(dflt, ind, n)
            else:
                self.emit(ind, "else:", n["_line"])
                self.sw(dflt, ind + 1, n)

    def sw(self, sts, ind, n):
        self.push()
        k0 = len(self.lines)
        for x in sts:
            for y in self.walk(x):
                if y.get("kind") == "BreakStmt" and x["kind"] not in ("ForStmt", "WhileStmt", "CXXForRangeStmt", "DoStmt"):
                    self.un("break nested in a switch case", n)
            self.s(x, ind)
        if len(self.lines) == k0:
            self.emit(ind, "pass", n["_line"])
        self.pop()


class CxxModule:
    """looks like pyexec.ModuleInfo"""

    def __init__(self, name, path, filters, consts=None):
        self.name, self.path = name, path
        self.consts_in = consts or {}
        self.funcs, self.classes, self.consts, self.imports = {}, {}, {}, {}
        self.consts = {}
        self.missing = {}
        nodes = []
        for f in filters:
            for o in dump(path, f):
                _Lines().walk(o)
                nodes.append(o)
        seen, fns, recs = set(), [], {}

        def visit(o, cls):
            if o.get("id") in seen:
                return
            seen.add(o.get("id"))
            k = o.get("kind")
            if k in ("NamespaceDecl", "LinkageSpecDecl"):
                for c in o.get("inner", []):
                    visit(c, None)
            elif k == "CXXRecordDecl" and o.get("completeDefinition"):
                recs.setdefault(o["name"], o)
                for c in o.get("inner", []):
                    visit(c, o["name"])
            elif k in ("FunctionDecl", "CXXMethodDecl"):
                self.decls[o["id"]] = (o, cls)
                if any(c.get("kind") == "CompoundStmt" for c in o.get("inner", [])):
                    fns.append((o, cls))
        self.decls = {}
        for o in nodes:
            visit(o, None)
        # class of an out-of-line method: the previous declaration is inside the record
        self.fid = {}
        groups = {}
        for o, cls in fns:
            if o["kind"] == "CXXMethodDecl" and cls is None:
                p = self.decls.get(o.get("previousDecl"))
                cls = p[1] if p else None
                pd = o.get("parentDeclContextId")
                if cls is None:
                    for rn, r in recs.items():
                        if r["id"] == pd:
                            cls = rn
                if p and p[0].get("storageClass"):
                    o["storageClass"] = p[0]["storageClass"]
            groups.setdefault((cls, o["name"]), []).append(o)
        self.arity = {}
        names = {}
        for (cls, nm), os_ in groups.items():
            ar = [len([c for c in o.get("inner", []) if c["kind"] == "ParmVarDecl"]) for o in os_]
            for o, a in zip(os_, ar):
                n2 = nm
                if len(os_) > 1:
                    n2 = "%s_%d" % (nm, a)
                    if ar.count(a) > 1:
                        n2 = None
                names[o["id"]] = (cls, n2)
                self.arity.setdefault((cls, nm), {})[a] = n2
                if o.get("previousDecl"):
                    names[o["previousDecl"]] = (cls, n2)
        self.names = names
        self.recs = recs
        self.classes = {r: None for r in recs}
        self.errors = {}
        self.src = ""
        lines = []           # (text, line)
        bodies = {}
        for (cls, nm), os_ in groups.items():
            for o in os_:
                n2 = names[o["id"]][1]
                if n2 is None:
                    continue
                try:
                    f = Fn(self, o, n2).run()
                except Unsupported as e:
                    self.errors[(cls, n2)] = str(e)
                    continue
                except (KeyError, IndexError, ValueError) as e:
                    self.errors[(cls, n2)] = "extraction: %s: %s" % (type(e).__name__, e)
                    continue
                bodies.setdefault(cls, []).append((n2, f, o["_line"]))
        for n2, f, line in bodies.get(None, []):
            lines.append(("def %s(%s):" % (n2, ", ".join(f.params)), line))
            lines += [("    " * i + t, l) for t, i, l in f.lines]
        for rn, r in recs.items():
            lines.append(("class %s:" % rn, r["_line"]))
            ini = []
            for c in r.get("inner", []):
                if c["kind"] == "FieldDecl":
                    t = qt(c)
                    x = [d for d in c.get("inner", []) if d["kind"] not in ("FullComment",)]
                    raw = c["type"]["qualType"]
                    if raw.endswith("]"):
                        nnum = int(raw[raw.rindex("[") + 1:-1])
                        el = clean(raw[:raw.rindex("[")])
                        if el in INTS:
                            ini.append(("        self.%s = __undef_array('%s', %d)" % (c["name"], code(*INTS[el]), nnum), c["_line"]))
                    elif c.get("hasInClassInitializer") and x:
                        try:
                            fn = Fn(self, {"inner": [], "kind": "FunctionDecl", "_line": 0}, "init")
                            fn.active, fn.scopes = set(), [[]]
                            ini.append(("        self.%s = %s" % (c["name"], fn.e(x[0])), c["_line"]))
                        except Unsupported:
                            pass
                    elif container(t):
                        ini.append(("        self.%s = %s" % (c["name"], {"list": "[]", "dict": "{}", "set": "set()"}[container(t)]), c["_line"]))
            lines.append(("    def __init__(self):", r["_line"]))
            lines += ini or [("        pass", r["_line"])]
            for n2, f, line in bodies.get(rn, []):
                if f.static:
                    lines.append(("    @staticmethod", line))
                lines.append(("    def %s(%s):" % (n2, ", ".join(f.params)), line))
                lines += [("    " + "    " * i + t, l) for t, i, l in f.lines]
        self.src = "\n".join(t for t, _ in lines) + "\n"
        self.tree = ast.parse(self.src)
        for x in ast.walk(self.tree):
            if hasattr(x, "lineno"):
                x.lineno = lines[x.lineno - 1][1]
        for x in self.tree.body:
            if isinstance(x, ast.FunctionDef):
                self.funcs[x.name] = x
            elif isinstance(x, ast.ClassDef):
                self.classes[x.name] = pyexec.ClassInfo(x, self)

    def fname(self, d):
        r = self.names.get(d["id"])
        if r is None:
            return d["name"]
        cls, n = r
        return "%s.%s" % (cls, n) if cls else n

    def _cls(self, t):
        t = noref(t).rstrip("* ")
        if t.startswith("std::shared_ptr<"):
            t = t[len("std::shared_ptr<"):-1]
        return clean(t).split("::")[-1]

    def method_known(self, t, nm):
        return self._cls(t) in self.recs or True if self._cls(t) in self.recs else False

    def mname(self, t, nm, k):
        a = self.arity.get((self._cls(t), nm), {})
        return a.get(k, nm) or nm


def register(name, path, filters, consts=None):
    """make `name` resolvable by pyexec.load_module"""
    def mk():
        fs = list(filters)
        m = CxxModule(name, path, fs, consts)
        for _ in range(3):                       # helpers of the same file, e.g. newly extracted ones
            new = sorted(x for x in m.missing if x not in m.funcs and x not in fs and x.isidentifier())
            if not new:
                break
            fs += new
            m = CxxModule(name, path, fs, consts)
        for x, k in m.missing.items():           # defined elsewhere: only a contract can stand for it
            if x not in m.funcs and x.isidentifier():
                m.funcs[x] = ast.parse("def %s(%s):\n    __extern('%s')" % (x, ", ".join("p%d" % i for i in range(k)), x)).body[0]
        return m
    pyexec.LAZY[name] = mk


def fingerprint(name):
    m = pyexec.load_module(name)
    return hashlib.sha256(ast.dump(m.tree).encode()).hexdigest()[:24]
