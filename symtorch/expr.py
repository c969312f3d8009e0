"""Hash-consed expression DAG over the reals and the booleans.

A node is an integer id.  Id 0 is the constant 0 (also False) and id 1 the
constant 1 (also True), so that torch's zero-filling data movement operators
work directly on tensors of node ids.
"""
import math
import struct
from fractions import Fraction

OP = []      # operator name
AR = []      # argument tuple
BOOL = []    # True when the node is boolean valued (constants 0/1 are both)
_tab = {}
VARS = {}    # name -> id
KNOWN = {}   # boolean node -> bool (facts on the current path)
VINFO = {}   # var id -> dict

BOOL_OPS = {"lt", "eq", "not", "and", "or", "bvar"}


def _mk(op, args):
    k = (op, args)
    i = _tab.get(k)
    if i is None:
        i = len(OP)
        _tab[k] = i
        OP.append(op)
        AR.append(args)
        BOOL.append(op in BOOL_OPS)
    return i


def reset():
    OP.clear(); AR.clear(); BOOL.clear(); _tab.clear(); VARS.clear()
    KNOWN.clear(); VINFO.clear()
    z = const(0); o = const(1)
    assert z == 0 and o == 1
    global PINF, NINF, NAN
    PINF = _mk("inf", (1,))
    NINF = _mk("inf", (-1,))
    NAN = _mk("nan", ())


def recover(f):
    """The rational a float literal stands for (1/6 for 0.16666666666666666)."""
    if isinstance(f, (int, Fraction)):
        return Fraction(f)
    if f == int(f):
        return Fraction(int(f))
    fr = Fraction(f)
    c = fr.limit_denominator(100000)
    if c != 0 and float(c) == f:
        return c
    c = Fraction(repr(f))
    if c.denominator < 10 ** 12 and float(c) == f:
        return c
    return fr


# float literals that stand for a square root
SURDS = {(False, math.sqrt(k)): k for k in (2, 3)}
SURDS.update({(True, struct.unpack("f", struct.pack("f", math.sqrt(k)))[0]): k for k in (2, 3)})


def recover32(f):
    """As recover, for a float32 value held in a python float."""
    if f == int(f):
        return Fraction(int(f))
    r32 = lambda x: struct.unpack("f", struct.pack("f", float(x)))[0]
    fr = Fraction(f)
    c = fr.limit_denominator(10000)
    if c != 0 and r32(c) == f:
        return c
    for nd in range(1, 10):
        c = Fraction("%.*g" % (nd, f))
        if r32(c) == f:
            return c
    return fr


def const(q, f32=False):
    if isinstance(q, bool):
        return 1 if q else 0
    if isinstance(q, float):
        if math.isinf(q):
            return PINF if q > 0 else NINF
        if math.isnan(q):
            return NAN
        k = SURDS.get((f32, q))
        if k is not None:
            return sqrt(const(k))
        q = recover32(q) if f32 else recover(q)
    elif not isinstance(q, Fraction):
        q = Fraction(q)
    return _mk("c", (q,))


def is_const(i):
    return OP[i] == "c"


def cval(i):
    return AR[i][0]


def var(name, **info):
    i = _mk("v", (name,))
    VARS[name] = i
    if info or i not in VINFO:
        VINFO[i] = info
    return i


def bvar(name):
    i = _mk("bvar", (name,))
    VARS[name] = i
    return i


def uf(name, *args):
    return _mk("uf", (name,) + tuple(args))


# ---------------------------------------------------------------- arithmetic
def add(a, b):
    if a == 0:
        return b
    if b == 0:
        return a
    oa, ob = OP[a], OP[b]
    if oa == "c" and ob == "c":
        return const(AR[a][0] + AR[b][0])
    if oa in ("inf", "nan") or ob in ("inf", "nan"):
        if oa == "nan" or ob == "nan":
            return NAN
        if oa == "inf" and ob == "inf":
            return a if a == b else NAN
        return a if oa == "inf" else b
    if a > b:
        a, b = b, a
    return _mk("add", (a, b))


def neg(a):
    if OP[a] == "c":
        return const(-AR[a][0])
    if OP[a] == "inf":
        return NINF if a == PINF else PINF
    if OP[a] == "neg":
        return AR[a][0]
    return _mk("neg", (a,))


def sub(a, b):
    if a == b and OP[a] not in ("inf", "nan"):
        return 0
    return add(a, neg(b))


def mul(a, b):
    if (a == 0 and OP[b] not in ("inf", "nan")) or (b == 0 and OP[a] not in ("inf", "nan")):
        return 0
    if a == 1:
        return b
    if b == 1:
        return a
    oa, ob = OP[a], OP[b]
    if oa == "c" and ob == "c":
        return const(AR[a][0] * AR[b][0])
    if oa == "inf" or ob == "inf" or oa == "nan" or ob == "nan":
        if oa == "nan" or ob == "nan" or a == 0 or b == 0:
            return NAN
        s = 1
        for o, x in ((oa, a), (ob, b)):
            if o == "inf":
                s *= AR[x][0]
            elif o == "c":
                s *= 1 if AR[x][0] > 0 else -1
            else:
                return uf("infmul", a, b)
        return PINF if s > 0 else NINF
    if oa == "c" and AR[a][0] == -1:
        return neg(b)
    if ob == "c" and AR[b][0] == -1:
        return neg(a)
    if oa == "neg" and ob == "neg":
        return mul(AR[a][0], AR[b][0])
    if oa == "neg":
        return neg(mul(AR[a][0], b))
    if ob == "neg":
        return neg(mul(a, AR[b][0]))
    if a > b:
        a, b = b, a
    return _mk("mul", (a, b))


def div(a, b):
    if OP[b] == "c":
        if AR[b][0] == 0:
            if OP[a] == "c":
                if a == 0:
                    return NAN
                return PINF if AR[a][0] > 0 else NINF
            return uf("div0", a)
        return mul(a, const(1 / AR[b][0]))
    if OP[b] == "inf":
        return 0
    if OP[b] == "nan" or OP[a] == "nan":
        return NAN
    if a == 0:
        return 0
    if a == b:
        return 1
    if OP[a] == "inf":
        return uf("infdiv", a, b)
    return _mk("div", (a, b))


def powi(a, n):
    if n == 0:
        return 1
    if n == 1:
        return a
    if n < 0:
        return div(1, powi(a, -n))
    if OP[a] == "c":
        return const(AR[a][0] ** n)
    if OP[a] == "inf":
        return PINF if (a == PINF or n % 2 == 0) else NINF
    if OP[a] == "neg":
        r = powi(AR[a][0], n)
        return r if n % 2 == 0 else neg(r)
    return _mk("pow", (a, n))


def _isqrt_frac(q):
    if q < 0:
        return None
    n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
    if n * n == q.numerator and d * d == q.denominator:
        return Fraction(n, d)
    return None


def sqrt(a):
    if OP[a] == "c":
        r = _isqrt_frac(AR[a][0])
        if r is not None:
            return const(r)
        if AR[a][0] < 0:
            return NAN
    if a == PINF:
        return PINF
    return _mk("sqrt", (a,))


def fn(name, *args):
    a = args[0]
    if OP[a] == "c" and len(args) == 1:
        if name in ("sin", "tan", "atan", "asin", "tanh", "sinh") and a == 0:
            return 0
        if name in ("cos", "exp", "cosh") and a == 0:
            return 1
        if name == "log" and a == 1:
            return 0
        if name == "sigmoid" and a == 0:
            return const(Fraction(1, 2))
        if name == "floor":
            return const(math.floor(AR[a][0]))
        if name == "ceil":
            return const(math.ceil(AR[a][0]))
        if name == "trunc":
            return const(math.trunc(AR[a][0]))
        if name == "round":
            return const(round(AR[a][0]))
        if name == "rnd32":
            q = AR[a][0]
            if q.denominator == 1 and abs(q) < 2 ** 24:
                return a
            r = struct.unpack("f", struct.pack("f", float(q)))[0]
            if Fraction(r) == q:
                return a
            return _mk("c", (Fraction(r),))
    if name == "atan2" and OP[a] == "c" and OP[args[1]] == "c":
        if a == 0 and AR[args[1]][0] > 0:
            return 0
    if OP[a] in ("inf", "nan"):
        if name in ("rnd32", "floor", "ceil", "trunc", "round"):
            return a
    if name == "rnd32" and OP[a] in ("fn",) and AR[a][0] in ("rnd32", "floor", "trunc"):
        return a
    if BOOL[a] and name == "rnd32":
        return a
    return _mk("fn", (name,) + tuple(args))


def integral(n, depth=6):
    """is the value an integer by construction?"""
    op, ar = OP[n], AR[n]
    if op == "c":
        return ar[0].denominator == 1
    if op == "fn":
        return ar[0] in ("floor", "ceil", "trunc", "round")
    if op in ("add", "mul") and depth:
        return all(integral(a, depth - 1) for a in ar)
    if op == "ite" and depth:
        return integral(ar[1], depth - 1) and integral(ar[2], depth - 1)
    return False


# ------------------------------------------------------------------ booleans
def lt(a, b):
    if a == b:
        return 0
    oa, ob = OP[a], OP[b]
    if oa == "nan" or ob == "nan":
        return 0
    if oa == "inf" or ob == "inf":
        va = AR[a][0] if oa == "inf" else 0
        vb = AR[b][0] if ob == "inf" else 0
        return 1 if va < vb else 0
    if oa == "c" and ob == "c":
        return 1 if AR[a][0] < AR[b][0] else 0
    # square roots and absolute values are never negative
    if ob == "c" and AR[b][0] <= 0 and (oa == "sqrt" or oa == "abs"):
        return 0
    if oa == "c" and AR[a][0] < 0 and (ob == "sqrt" or ob == "abs"):
        return 1
    return _known(_mk("lt", (a, b)))


def _known(i):
    k = KNOWN.get(i)
    if k is None:
        return i
    return 1 if k else 0


def le(a, b):
    return not_(lt(b, a)) if not _nan(a, b) else 0


def _nan(a, b):
    return OP[a] == "nan" or OP[b] == "nan"


def eq(a, b):
    if _nan(a, b):
        return 0
    if a == b:
        return 1
    oa, ob = OP[a], OP[b]
    if oa == "c" and ob == "c":
        return 0
    if oa == "inf" or ob == "inf":
        return 0
    if BOOL[a] or BOOL[b]:
        return iff(a, b)
    if a > b:
        a, b = b, a
    return _known(_mk("eq", (a, b)))


def not_(a):
    if a == 0:
        return 1
    if a == 1:
        return 0
    if OP[a] == "not":
        return AR[a][0]
    return _mk("not", (a,))


def and_(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1 or a == b:
        return b
    if b == 1:
        return a
    if not_(a) == b:
        return 0
    if a > b:
        a, b = b, a
    return _mk("and", (a, b))


def or_(a, b):
    return not_(and_(not_(a), not_(b)))


def iff(a, b):
    if a == b:
        return 1
    if a == 1:
        return b
    if b == 1:
        return a
    if a == 0:
        return not_(b)
    if b == 0:
        return not_(a)
    return not_(or_(and_(a, not_(b)), and_(not_(a), b)))


def xor(a, b):
    return not_(iff(a, b))


def ite(c, a, b):
    if c == 1:
        return a
    if c == 0:
        return b
    if a == b:
        return a
    if OP[c] == "not":
        return ite(AR[c][0], b, a)
    if a in (0, 1) and b in (0, 1):
        pass
    ba, bb = BOOL[a], BOOL[b]
    if ba or bb:
        if (ba or a in (0, 1)) and (bb or b in (0, 1)):
            return or_(and_(c, a), and_(not_(c), b))
    # nested conditionals on the same condition
    if OP[a] == "ite" and AR[a][0] == c:
        a = AR[a][1]
    if OP[b] == "ite" and AR[b][0] == c:
        b = AR[b][2]
    if a == b:
        return a
    return _mk("ite", (c, a, b))


def b2r(a):
    """A boolean node used as a number."""
    if a in (0, 1) or not BOOL[a]:
        return a
    return _mk("ite", (a, 1, 0))


def r2b(a):
    if a in (0, 1) or BOOL[a]:
        return a
    return not_(eq(a, 0))


def absv(a):
    if OP[a] == "c":
        return const(abs(AR[a][0]))
    if OP[a] == "inf":
        return PINF
    if OP[a] in ("sqrt", "abs"):
        return a
    if OP[a] == "neg":
        return absv(AR[a][0])
    return _mk("abs", (a,))


def sign(a):
    if OP[a] == "c":
        q = AR[a][0]
        return const((q > 0) - (q < 0))
    return ite(lt(0, a), 1, ite(lt(a, 0), const(-1), 0))


def maxv(a, b):
    if a == b:
        return a
    c = lt(a, b)
    return ite(c, b, a)


def minv(a, b):
    if a == b:
        return a
    return ite(lt(b, a), b, a)


def children(i):
    op, ar = OP[i], AR[i]
    if op in ("c", "v", "bvar", "inf", "nan"):
        return ()
    if op == "pow":
        return (ar[0],)
    if op in ("fn", "uf"):
        return ar[1:]
    return ar


def topo(roots):
    """Nodes below roots, children first."""
    seen = set()
    out = []
    st = [(r, 0) for r in roots]
    while st:
        n, ph = st.pop()
        if ph:
            out.append(n)
            continue
        if n in seen:
            continue
        seen.add(n)
        st.append((n, 1))
        for c in children(n):
            if c not in seen:
                st.append((c, 0))
    return out


# -------------------------------------------------- differentiation (forward)
class Diff:
    """Directional derivative: seeds maps variable id -> tangent node."""

    def __init__(self, seeds):
        self.memo = dict(seeds)

    def __call__(self, root):
        m = self.memo
        if root in m:
            return m[root]
        for n in topo([root]):
            if n in m:
                continue
            op, ar = OP[n], AR[n]
            if op in ("c", "v", "inf", "nan") or BOOL[n]:
                d = 0
            elif op == "add":
                d = add(m[ar[0]], m[ar[1]])
            elif op == "neg":
                d = neg(m[ar[0]])
            elif op == "mul":
                d = add(mul(m[ar[0]], ar[1]), mul(ar[0], m[ar[1]]))
            elif op == "div":
                a, b = ar
                da, db = m[a], m[b]
                d = div(da, b)
                if db != 0:
                    d = sub(d, div(mul(n, db), b))
            elif op == "pow":
                a, k = ar
                d = mul(mul(const(k), powi(a, k - 1)), m[a])
            elif op == "sqrt":
                d = 0 if m[ar[0]] == 0 else div(m[ar[0]], mul(const(2), n))
            elif op == "abs":
                d = mul(sign(ar[0]), m[ar[0]])
            elif op == "ite":
                d = ite(ar[0], m[ar[1]], m[ar[2]])
            elif op == "fn":
                d = self._fn(n, ar, m)
            elif op == "uf":
                if any(m[x] != 0 for x in ar[1:]):
                    d = 0
                    for k, x in enumerate(ar[1:]):
                        if m[x] != 0:
                            d = add(d, mul(uf("d%d_%s" % (k, ar[0]), *ar[1:]), m[x]))
                else:
                    d = 0
            else:
                raise NotImplementedError("diff of " + op)
            m[n] = d
        return m[root]

    @staticmethod
    def _fn(n, ar, m):
        name, a = ar[0], ar[1]
        da = m[a]
        if name == "atan2":
            x = ar[2]
            dx = m[x]
            if da == 0 and dx == 0:
                return 0
            return div(sub(mul(x, da), mul(a, dx)), add(mul(a, a), mul(x, x)))
        if da == 0:
            return 0
        if name == "sin":
            return mul(fn("cos", a), da)
        if name == "cos":
            return neg(mul(fn("sin", a), da))
        if name == "tan":
            return mul(add(1, mul(n, n)), da)
        if name == "exp":
            return mul(n, da)
        if name == "log":
            return div(da, a)
        if name == "log1p":
            return div(da, add(1, a))
        if name == "sigmoid":
            return mul(mul(n, sub(1, n)), da)
        if name == "tanh":
            return mul(sub(1, mul(n, n)), da)
        if name in ("floor", "ceil", "trunc", "round"):
            return 0
        if name == "rnd32":
            return fn("rnd32", da)
        if name == "asin":
            return div(da, sqrt(sub(1, mul(a, a))))
        if name == "acos":
            return neg(div(da, sqrt(sub(1, mul(a, a)))))
        if name == "atan":
            return div(da, add(1, mul(a, a)))
        raise NotImplementedError("diff of fn " + name)


# ------------------------------------------------------------ float evaluation
_F1 = {
    "sin": math.sin, "cos": math.cos, "tan": math.tan, "exp": math.exp,
    "tanh": math.tanh, "asin": math.asin, "acos": math.acos, "atan": math.atan,
    "floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "round": round,
    "log1p": math.log1p, "sinh": math.sinh, "cosh": math.cosh,
    "rnd32": lambda x: struct.unpack("f", struct.pack("f", x))[0],
    "sigmoid": lambda x: 1 / (1 + math.exp(-x)) if x > -700 else 0.0,
}


def evalf(roots, env, ufs=None):
    """Evaluate nodes in float64.  env: var id -> float/bool."""
    m = {}
    inf = math.inf
    for n in topo(roots):
        op, ar = OP[n], AR[n]
        try:
            if op == "c":
                v = float(ar[0])
            elif op in ("v", "bvar"):
                v = env[n]
            elif op == "inf":
                v = inf * ar[0]
            elif op == "nan":
                v = math.nan
            elif op == "add":
                v = m[ar[0]] + m[ar[1]]
            elif op == "neg":
                v = -m[ar[0]]
            elif op == "mul":
                v = m[ar[0]] * m[ar[1]]
            elif op == "div":
                d = m[ar[1]]
                x = m[ar[0]]
                if d == 0:
                    v = math.nan if (x == 0 or x != x) else math.copysign(inf, x) * math.copysign(1, d)
                else:
                    v = x / d
            elif op == "pow":
                v = m[ar[0]] ** ar[1]
            elif op == "sqrt":
                x = m[ar[0]]
                v = math.sqrt(x) if x >= 0 else (0.0 if x > -1e-300 else math.nan)
            elif op == "abs":
                v = abs(m[ar[0]])
            elif op == "ite":
                v = m[ar[1]] if m[ar[0]] else m[ar[2]]
            elif op == "lt":
                v = m[ar[0]] < m[ar[1]]
            elif op == "eq":
                v = m[ar[0]] == m[ar[1]]
            elif op == "not":
                v = not m[ar[0]]
            elif op == "and":
                v = bool(m[ar[0]]) and bool(m[ar[1]])
            elif op == "or":
                v = bool(m[ar[0]]) or bool(m[ar[1]])
            elif op == "fn":
                if ar[0] == "atan2":
                    v = math.atan2(m[ar[1]], m[ar[2]])
                elif ar[0] == "log":
                    x = m[ar[1]]
                    v = math.log(x) if x > 0 else (-inf if x == 0 else math.nan)
                else:
                    v = _F1[ar[0]](m[ar[1]])
            elif op == "uf":
                if ufs is None:
                    raise KeyError("uninterpreted " + ar[0])
                v = ufs(ar[0], [m[x] for x in ar[1:]])
            else:
                raise NotImplementedError(op)
        except (OverflowError, ValueError):
            v = math.nan
        m[n] = v
    return m


def show(i, depth=6):
    op, ar = OP[i], AR[i]
    if op == "c":
        return str(ar[0])
    if op in ("v", "bvar"):
        return ar[0]
    if op in ("inf", "nan"):
        return ("-" if ar and ar[0] < 0 else "") + op
    if depth == 0:
        return "#%d" % i
    s = [show(c, depth - 1) for c in children(i)]
    if op == "add":
        return "(%s + %s)" % tuple(s)
    if op == "mul":
        return "%s*%s" % tuple(s)
    if op == "div":
        return "(%s)/(%s)" % tuple(s)
    if op == "neg":
        return "-" + s[0]
    if op == "pow":
        return "%s^%d" % (s[0], ar[1])
    if op == "lt":
        return "(%s < %s)" % tuple(s)
    if op in ("fn", "uf"):
        return "%s(%s)" % (ar[0], ", ".join(s))
    return "%s(%s)" % (op, ", ".join(s))


reset()
