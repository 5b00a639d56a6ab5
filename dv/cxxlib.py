"""Meaning of the helper names the C++ front end emits (machine integers, bounds checks, containers)."""
import z3
from .core import *
from . import core

_ENUMS = {}


def rng(code):
    s, n = code[0] == "s", int(code[1:])
    return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if s else (0, (1 << n) - 1)


def in_code(t, code):
    lo, hi = rng(code)
    return z3.And(lo <= t, t <= hi)


def wrap(t, code):
    n = int(code[1:])
    r = t % (1 << n)
    return z3.If(r >= (1 << (n - 1)), r - (1 << n), r) if code[0] == "s" else r


def const(t):
    t = z3.simplify(t)
    return t.as_long() if z3.is_int_value(t) else None


def andc(x, c):
    """x & c for a constant c >= 0 (x any integer, two's complement)"""
    out, b = z3.IntVal(0), 0
    while c >> b:
        if not (c >> b) & 1:
            b += 1
            continue
        e = b
        while (c >> e) & 1:
            e += 1
        out = out + ((x / (1 << b)) % (1 << (e - b))) * (1 << b)
        b = e
    return z3.simplify(out)


def name_(st, t, nm):
    if z3.is_int_value(t) or t.num_args() == 0:
        return t
    v = z3.FreshInt(nm)
    st.assume(v == t)
    return v


def call(ex, st, name, A, args, line):
    def num(v):
        v = ex.num(st, v, line)
        if not (isinstance(v, VS) and v.ty is TInt):
            raise Unsupported("machine integer expected, got %r (line %s)" % (v, line))
        return v.t
    one = lambda t: [(st, VInt(t))]
    if name in ("__w", "__o"):
        code = A[0].v if isinstance(A[0], VLit) else None
        if isinstance(A[1], VS) and A[1].ty is not TInt and A[1].ty is not TBool:
            return [(st, A[1])]
        x = num(A[1])
        if name == "__o":
            ex.oblige(st, in_code(x, code), "no signed overflow", "safety", line)
            return one(x)
        c = const(x)
        if c is not None:
            return one(z3.simplify(wrap(z3.IntVal(c), code)))
        if ex.entails(st, in_code(x, code)):
            return one(x)
        return one(name_(st, wrap(x, code), "w"))
    if name == "__b2i":
        return [(st, coerce(VBool(ex.truth(st, A[0])), TInt))]
    if name == "__shr":
        c = const(num(A[1]))
        if c is None or not 0 <= c < 64:
            raise Unsupported("shift by a variable (line %s)" % line)
        return one(num(A[0]) / (1 << c))
    if name == "__shl":
        c = const(num(A[1]))
        if c is None or not 0 <= c < 64:
            raise Unsupported("shift by a variable (line %s)" % line)
        return one(num(A[0]) * (1 << c))
    if name in ("__bitand", "__bitor", "__bitxor"):
        x, y = num(A[1]), num(A[2])
        cx, cy = const(x), const(y)
        if cx is not None and cy is not None:
            return one(z3.IntVal({"__bitand": cx & cy, "__bitor": cx | cy, "__bitxor": cx ^ cy}[name]))
        if cx is not None:
            x, y, cx, cy = y, x, cy, cx
        if cy is not None and cy >= 0:
            if name == "__bitor":
                low = (cy & -cy).bit_length() - 1 if cy else 0
                if cy and ex.entails(st, z3.And(0 <= x, x < (1 << low))):
                    return one(x + cy)
            a = andc(x, cy)
            if name == "__bitand":
                return one(name_(st, a, "and"))
            return one(name_(st, x + cy - a if name == "__bitor" else x + cy - 2 * a, "bit"))
        if name == "__bitor":
            for p, q in ((x, y), (y, x)):
                for k in (6, 12, 18, 8, 16, 24, 32):
                    if ex.entails(st, z3.And(0 <= q, q < (1 << k), p % (1 << k) == 0, p >= 0)):
                        return one(p + q)
        raise Unsupported("bit operation on two variables (line %s)" % line)
    if name in ("__tdiv", "__tmod"):
        x, y = num(A[0]), num(A[1])
        ex.oblige(st, y != 0, "no division by zero", "safety", line)
        if not ex.entails(st, y > 0):
            raise Unsupported("signed division by a possibly negative divisor (line %s)" % line)
        q = div(x, y) if ex.entails(st, x >= 0) else z3.If(x >= 0, div(x, y), -div(-x, y))
        return one(q if name == "__tdiv" else x - mul(q, y))
    if name == "__ix":
        a = A[0]
        i = num(A[1])
        if isinstance(a, VOpt):
            a = ex.unopt(st, a, line)
        if not isinstance(a, VSeq):
            raise Unsupported("index into %r (line %s)" % (a, line))
        ex.oblige(st, z3.And(0 <= i, i < a.ln), "index within the array", "safety", line)
        return one(i)
    if name == "__undef":
        t = z3.FreshInt("undef")
        st.assume(in_code(t, A[0].v))
        return one(t)
    if name == "__undef_array":
        n = const(num(A[1]))
        v = fresh(TSeq(TInt, "list"), "undef", st)
        st.assume(v.ln == n)
        i = z3.Int("i")
        st.assume(forall(i, z3.And(0 <= i, i < n), in_code(v.at(i).t, A[0].v), [v.at(i).t]))
        return [(st, st.newcell(v))]
    if name == "__prefix":
        a, n = A[0], num(A[1])
        ex.oblige(st, z3.And(0 <= n, n <= a.ln), "range within the array", "safety", line)
        return [(st, st.newcell(VSeq(n, a.at, a.elt, "list")))]
    if name == "__insert":
        d = A[0]
        if not isinstance(d, VDict):
            raise Unsupported("insert into %r" % (d,))
        if d.vty is None:
            kv = A[1]
            d = empty_dict(type_of(kv, st), type_of(A[2], st))
        q = ex.key_term(A[1], d)
        new = ex.dict_store(st, d, q, A[2])
        has = d.dom(q)
        out = []
        for s, b in ex.fork(st, has):
            if not b:
                s.wr(args[0], new)
            out.append((s, NONE))
        return out
    if name == "__enum":
        k = A[0].v
        return one(z3.IntVal(_ENUMS.setdefault(k, 1000 + len(_ENUMS))))
    return None
