"""z3 queries over normal forms (polynomials over atoms) and over raw nodes."""
import math
import sys
import time
from fractions import Fraction

_p = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _p not in sys.path:
    sys.path.append(_p)
import z3  # noqa: E402

from . import expr as E  # noqa: E402
from .norm import BITS, MASK, Frac  # noqa: E402

STATS = {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "time": 0.0, "max": 0.0, "raw": 0, "raw_unsat": 0}


def qv(q):
    q = Fraction(q)
    return z3.RealVal(q.numerator) / q.denominator if q.denominator != 1 else z3.RealVal(q.numerator)


def _solve(cs, timeout, want_model=False):
    s = z3.SolverFor("QF_NRA") if not want_model else z3.Solver()
    s.set("timeout", int(timeout * 1000))
    s.set("random_seed", 1)
    t = time.time()
    s.add(cs)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    dt = time.time() - t
    STATS["queries"] += 1
    STATS["time"] += dt
    STATS["max"] = max(STATS["max"], dt)
    STATS[str(r)] += 1
    return r, (s.model() if r == z3.sat else None)


def sigmoid_facts(known, a, x):
    """range, values at some points, monotonicity and slope of the logistic function"""
    out = [x > 0, x < 1, z3.Implies(a <= 0, 2 * x <= 1), z3.Implies(a >= 0, 2 * x >= 1)]
    for t in (1, 2, 4, 7):
        v = 1 / (1 + math.exp(-t))
        lo, hi = qv(Fraction(v) - Fraction(1, 10 ** 12)), qv(Fraction(v) + Fraction(1, 10 ** 12))
        out += [z3.Implies(a >= t, x >= lo), z3.Implies(a <= t, x <= hi),
                z3.Implies(a <= -t, x <= 1 - lo), z3.Implies(a >= -t, x >= 1 - hi)]
    for b, y in known:
        out += sigmoid_pair(a, x, b, y, None)
    known.append((a, x))
    return out


def sigmoid_pair(a, x, b, y, order):
    if order == "skip":
        return []
    if order == 1:
        return [x > y, 4 * (x - y) <= a - b]
    if order == -1:
        return [x < y, 4 * (y - x) <= b - a]
    return [z3.Implies(a < b, z3.And(x < y, 4 * (y - x) <= b - a)), z3.Implies(a > b, z3.And(x > y, 4 * (x - y) <= a - b)),
            z3.Implies(a == b, x == y)]


class PolyEnc:
    """Polynomials over the ring's atoms as z3 terms, with the atoms' defining
    constraints."""

    def __init__(self, ring, box=True):
        self.R = ring
        self.v = {}
        self.cs = []
        self.done = set()
        self.box = box
        self.sig = []

    def atom(self, i):
        x = self.v.get(i)
        if x is None:
            inf = self.R.info[i]
            x = z3.Real("%s_%d" % (self.R.names[i], i))
            self.v[i] = x
            self._define(i, x, inf)
        return x

    def _order(self, f, g):
        """order of two arguments where boxes decide it; "skip" where it is not worth asking"""
        if f.den or g.den:
            return None
        d = {}
        for h, sg in ((f, 1), (g, -1)):
            for m, c in h.n.items():
                d[m] = d.get(m, 0) + Fraction(sg * c) / h.cd
        lo = hi = Fraction(0)
        for m, c in d.items():
            if not c:
                continue
            u = self.R.unpack(m)
            if not u:
                lo, hi = lo + c, hi + c
                continue
            if len(u) > 1 or u[0][1] != 1 or self.R.info[u[0][0]]["kind"] != "v":
                return None
            box = E.VINFO.get(self.R.info[u[0][0]]["node"], {}).get("box")
            if box is None:
                return None
            a, b = sorted((c * box[0], c * box[1]))
            lo, hi = lo + a, hi + b
        if lo > 0:
            return 1
        if hi < 0:
            return -1
        return "skip" if d.get(0) else None

    def _define(self, i, x, inf):
        k = inf["kind"]
        if i in self.R.rel:
            rp, rcd = self.R.rel[i]
            self.cs.append(x * x * rcd == self.poly(rp))
        if i in self.R.nonneg:
            self.cs.append(x > 0 if inf.get("nonzero") else x >= 0)
        if k == "v":
            vi = E.VINFO.get(inf["node"], {})
            if self.box and vi.get("box"):
                lo, hi = vi["box"]
                self.cs.append(x >= qv(lo))
                self.cs.append(x <= qv(hi))
            if "unit" in vi:
                for n in vi["unit"]:
                    self.atom(self.R.keys[("v", E.AR[n][0])])
            if "fix" in vi:
                self.cs.append(x == qv(vi["fix"]))
        elif k == "cos":
            # its sine partner carries the relation
            for j, o in enumerate(self.R.info):
                if o.get("cos") == i:
                    self.atom(j)
        elif k == "sin":
            if inf.get("negative"):
                self.cs.append(x < 0)
            self.atom(inf["cos"])
            self._enclose(i, inf)
        elif k == "abs":
            p = self.poly(inf["arg"].n)
            self.cs.append(z3.Or(x == p, x == -p))
        elif k == "atan2":
            self.cs.append(x <= qv(Fraction("3.1415926535897936")))
            self.cs.append(x >= -qv(Fraction("3.1415926535897936")))
        elif k == "uf" and inf["fname"] == "exp":
            self.cs.append(x > 0)
            a = self.frac(inf["args"][0])
            # exp is above its tangent at 0 and monotone around it
            self.cs.append(x >= 1 + a)
            self.cs.append(z3.Implies(a < 0, x < 1))
            self.cs.append(z3.Implies(a < 1, x * (1 - a) <= 1))
        elif k == "uf" and inf["fname"] == "sigmoid":
            f = inf["args"][0]
            a = self.frac(f)
            if not hasattr(self.R, "sigfacts"):
                self.R.sigfacts = {}
            memo = self.R.sigfacts
            if i not in memo:
                memo[i] = sigmoid_facts([], a, x)
            self.cs += memo[i]
            for j, b, y, g in self.sig:
                if (i, j) not in memo:
                    memo[i, j] = sigmoid_pair(a, x, b, y, self._order(f, g))
                self.cs += memo[i, j]
            self.sig.append((i, a, x, f))
        elif k == "uf" and inf["fname"] == "log":
            a = self.frac(inf["args"][0])
            self.cs.append(x <= a - 1)
            self.cs.append(a * x >= a - 1)
        elif k == "uf" and inf["fname"] in ("floor", "trunc", "ceil", "round"):
            a = self.frac(inf["args"][0])
            n = z3.ToReal(z3.Int("int_%d" % i))
            self.cs.append(x == n)
            f = inf["fname"]
            if f == "floor":
                self.cs += [n <= a, a < n + 1]
            elif f == "ceil":
                self.cs += [n >= a, a > n - 1]
            elif f == "trunc":
                self.cs += [z3.Implies(a >= 0, z3.And(n <= a, a < n + 1)), z3.Implies(a < 0, z3.And(n >= a, a > n - 1))]
            else:
                self.cs += [2 * n <= 2 * a + 1, 2 * a <= 2 * n + 1]

    def _enclose(self, i, inf):
        """Taylor enclosures of sine and cosine, valid for |a| <= 1/2 when the
        path bounds the angle that tightly (added as implications)"""
        a = inf["arg"]
        if a.den or len(a.n) != 1:
            return
        t = self.frac(a)
        s, c = self.v[i], self.v[inf["cos"]]
        t2 = t * t
        lo_s = 1 - t2 / 6
        hi_s = 1 - t2 / 6 + t2 * t2 / 120
        lo_c = 1 - t2 / 2 + t2 * t2 / 24 - t2 * t2 * t2 / 720
        hi_c = 1 - t2 / 2 + t2 * t2 / 24
        inside = z3.And(t <= z3.Q(1, 2), t >= z3.Q(-1, 2))
        self.cs.append(z3.Implies(z3.And(inside, t >= 0), z3.And(s >= t * lo_s, s <= t * hi_s)))
        self.cs.append(z3.Implies(z3.And(inside, t <= 0), z3.And(s <= t * lo_s, s >= t * hi_s)))
        self.cs.append(z3.Implies(inside, z3.And(c >= lo_c, c <= hi_c)))

    def mono(self, m):
        out = None
        i = 0
        while m:
            e = m & MASK
            if e:
                x = self.atom(i)
                for _ in range(e):
                    out = x if out is None else out * x
            m >>= BITS
            i += 1
        return out

    def poly(self, d):
        ts = []
        for m, c in d.items():
            mo = self.mono(m)
            if mo is None:
                ts.append(z3.RealVal(c))
            else:
                ts.append(mo if c == 1 else c * mo)
        if not ts:
            return z3.RealVal(0)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def frac(self, f):
        n = self.poly(f.n)
        if f.cd != 1:
            n = n / f.cd
        for i, e in f.den.items():
            d = self.poly(self.R.den_polys[i])
            for _ in range(e):
                n = n / d
        return n

    def fact(self, key, val):
        if key[0] == "b":
            b = z3.Bool(key[1])
            return b if val else z3.Not(b)
        p = self.poly(dict(key[1]))
        c = p > 0 if key[0] == "pos" else (p < 0 if key[0] == "neg" else p == 0)
        return c if val else z3.Not(c)

    def path(self, asg, atoms=None):
        """constraints of a path condition, restricted to facts that share
        atoms (transitively) with the set `atoms` when given"""
        out = []
        items = list(asg.items())
        if atoms is not None:
            rel = _relevant(self.R, items, set(atoms))
            items = [it for it, k in zip(items, rel) if k]
        for k, v in items:
            out.append(self.fact(k, v))
        return out


# ----------------------------------------------- small-angle linear queries
def _imul(a, b):
    p = (a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1])
    return (min(p), max(p))


def _ipow(a, e):
    if e % 2 == 0:
        lo = 0 if a[0] <= 0 <= a[1] else min(abs(a[0]), abs(a[1])) ** e
        return (lo, max(abs(a[0]), abs(a[1])) ** e)
    return (a[0] ** e, a[1] ** e)


def _qsqrt(q, up):
    import math
    if q <= 0:
        return Fraction(0)
    f = Fraction(math.sqrt(float(q)))
    return f * Fraction(1000001, 1000000) if up else f * Fraction(999999, 1000000)


class Bounds:
    """Interval bounds for atoms from declared boxes and path facts."""

    def __init__(self, norm):
        self.N = norm
        self.R = norm.R
        self.b = {}

    def atom(self, i):
        r = self.b.get(i)
        if r is None:
            self.b[i] = None
            r = self._atom(i)
            # linear facts  p > 0 with p = a*atom + c
            if r is not None:
                lo, hi = r
                for key, v in self.N.asg.items():
                    if key[0] == "b":
                        continue
                    d = dict(key[1])
                    m1 = 1 << (BITS * i)
                    if set(d) <= {0, m1} and m1 in d:
                        a, c = d[m1], d.get(0, 0)
                        q = Fraction(-c, a)
                        up = (key[0] == "pos") == bool(v)      # p >= 0 (else p <= 0)
                        if key[0] == "eq":
                            if v:
                                lo = hi = q
                            continue
                        if up == (a > 0):
                            lo = max(lo, q)
                        else:
                            hi = min(hi, q)
                if self.R.info[i]["kind"] == "v":
                    # v^2 <= (sum of squares) = root^2
                    m2 = 2 << (BITS * i)
                    for j, (rp, rcd) in self.R.rel.items():
                        if self.R.info[j]["kind"] == "sqrt" and m2 in rp and self.R.poly_nonneg(rp):
                            self.b[i] = (lo, hi)
                            q = self.atom(j)
                            if q is not None:
                                t = _qsqrt(q[1] ** 2 * rcd / rp[m2], True)
                                lo, hi = max(lo, -t), min(hi, t)
                r = (lo, hi)
            self.b[i] = r
        return r

    def _atom(self, i):
        inf = self.R.info[i]
        k = inf["kind"]
        if k == "v":
            vi = E.VINFO.get(inf["node"], {})
            if vi.get("box"):
                return (Fraction(vi["box"][0]), Fraction(vi["box"][1]))
            if "unit" in vi:
                return (Fraction(-1), Fraction(1))
            return None
        if k in ("sin", "cos"):
            return (Fraction(-1), Fraction(1))
        if k in ("sqrt", "abs") and i in self.R.rel:
            rp, rcd = self.R.rel[i]
            q = self.poly(rp)
            if q is None:
                return None
            return (_qsqrt(q[0] / rcd, False), _qsqrt(q[1] / rcd, True))
        return None

    def mono(self, m):
        out = (Fraction(1), Fraction(1))
        for i, e in self.R.unpack(m):
            a = self.atom(i)
            if a is None:
                return None
            out = _imul(out, _ipow(a, e))
        return out

    def poly(self, d):
        lo = hi = Fraction(0)
        for m, c in d.items():
            b = self.mono(m)
            if b is None:
                return None
            x, y = c * b[0], c * b[1]
            lo += min(x, y)
            hi += max(x, y)
        return (lo, hi)


def linear_tol(norm, d, tol, timeout=3.0):
    """Is |d| <= tol on the path?  Sines and cosines of small angles are replaced
    by Taylor polynomials with a bounded remainder, monomials become bounded
    reals, and z3 decides the resulting linear query."""
    R = norm.R
    bd = Bounds(norm)
    n, cd = d.n, d.cd
    # substitute sines and cosines
    subs = {}
    full = atoms_of(R, n)
    for i in d.den:
        atoms_of(R, R.den_polys[i], full)
    for i in range(len(R.info)):
        inf = R.info[i]
        if inf["kind"] != "sin" or (i not in full and inf["cos"] not in full):
            continue
        a = inf["arg"]
        rg = bd.poly(a.n) if not a.den else None
        if rg is None or max(abs(rg[0]), abs(rg[1])) > a.cd:
            continue
        ds = R.new_atom(("rem", i), "rem_s%d" % i, kind="rem")
        dc = R.new_atom(("rem", inf["cos"]), "rem_c%d" % i, kind="rem")
        for r_ in (ds, dc):
            bd.b[r_] = (Fraction(0), Fraction(1))
        t = norm.mul(a, a)
        t4 = norm.mul(t, t)
        t6 = norm.mul(t4, t)

        def lin(*ts):
            o = norm.const(0)
            for x in ts:
                o = norm.add(o, x)
            return o
        sc = norm.mul
        subs[i] = norm.mul(a, lin(norm.const(1), sc(t, norm.const(Fraction(-1, 6))), sc(t4, norm.const(Fraction(1, 120))),
                                  sc(norm.mul(t6, norm.atom(ds)), norm.const(Fraction(-1, 5040)))))
        subs[inf["cos"]] = lin(norm.const(1), sc(t, norm.const(Fraction(-1, 2))), sc(t4, norm.const(Fraction(1, 24))),
                               sc(norm.mul(t6, norm.atom(dc)), norm.const(Fraction(-1, 720))))

    def substitute(p, cd):
        tot = norm.const(0)
        for m, c in p.items():
            f = Frac({0: c}, cd)
            keep = 0
            for i, e in R.unpack(m):
                if i in subs:
                    for _ in range(e):
                        f = norm.mul(f, subs[i])
                else:
                    keep += e << (BITS * i)
            if keep:
                f = norm.mul(f, Frac({keep: 1}, 1))
            tot = norm.add(tot, f)
        return tot
    den = d.den
    if subs:
        tot = substitute(n, cd)
        if not tot.n:
            return True
        for i, e in d.den.items():
            q = R.den_polys[i]
            f = substitute(q, 1) if any((m >> (BITS * k)) & MASK for m in q for k in subs) else Frac(q, 1)
            iv = norm.inv(f)
            for _ in range(e):
                tot = norm.mul(tot, iv)
        tot = norm.simp(tot)
        n, cd, den = tot.n, tot.cd, tot.den
    # lower bound of |denominator|
    dl = Fraction(1)
    for i, e in den.items():
        b = bd.poly(R.den_polys[i])
        if b is None:
            return False
        lo = min(abs(b[0]), abs(b[1])) if b[0] * b[1] > 0 else 0
        if lo == 0:
            return False
        dl *= Fraction(lo) ** e
    s = z3.Solver()
    s.set("timeout", int(timeout * 1000))
    ts = []
    terms = []
    for m, c in n.items():
        b = bd.mono(m)
        if b is None:
            return False
        x, y = c * b[0], c * b[1]
        terms.append((min(x, y), max(x, y), c, b))
    if len(terms) > 60:
        # the tail is summarised by one bounded term (rounded outwards)
        terms.sort(key=lambda t: -max(abs(t[0]), abs(t[1])))
        lo = sum((t[0] for t in terms[50:]), Fraction(0))
        hi = sum((t[1] for t in terms[50:]), Fraction(0))
        g = max(abs(lo), abs(hi)) / 10 ** 6 + Fraction(1, 10 ** 40)
        lo, hi = (lo // g) * g, (hi // g + 1) * g
        terms = terms[:50] + [(lo, hi, 1, (lo, hi))]
    for k, (_, _, c, b) in enumerate(terms):
        x = z3.Real("m%d" % k)
        s.add(x >= qv(b[0]), x <= qv(b[1]))
        ts.append(x * c)
    tot = z3.Sum(ts) if len(ts) > 1 else ts[0]
    q = qv(Fraction(str(tol)) * dl * cd)
    s.add(z3.Or(tot > q, tot < -q))
    t0 = time.time()
    r = s.check()
    dt = time.time() - t0
    STATS["queries"] += 1
    STATS["time"] += dt
    STATS["max"] = max(STATS["max"], dt)
    STATS[str(r)] += 1
    return r == z3.unsat


def atoms_of(R, d, seen=None):
    seen = set() if seen is None else seen
    full = 0
    for m in d:
        full |= m
    i = 0
    while full:
        if full & MASK and i not in seen:
            seen.add(i)
            inf = R.info[i]
            if i in R.rel:
                atoms_of(R, R.rel[i][0], seen)
            for a in ([inf["arg"]] if "arg" in inf else []) + list(inf.get("args", ())):
                if isinstance(a, Frac):
                    atoms_of(R, a.n, seen)
                    for j in a.den:
                        atoms_of(R, R.den_polys[j], seen)
            if "cos" in inf:
                seen.add(inf["cos"])
            if inf["kind"] == "v":
                for n in E.VINFO.get(inf["node"], {}).get("unit", ()):
                    seen.add(R.keys[("v", E.AR[n][0])])
        full >>= BITS
        i += 1
    return seen


def _relevant(R, items, atoms):
    sets = []
    for k, v in items:
        sets.append(atoms_of(R, dict(k[1])) if k[0] != "b" else {("b", k[1])})
    keep = [False] * len(items)
    ch = True
    while ch:
        ch = False
        for j, s in enumerate(sets):
            if not keep[j] and (s & atoms):
                keep[j] = True
                if not s <= atoms:
                    atoms |= s
                    ch = True
    return keep


def check_path(norm, extra, timeout=5.0, box=True, atoms=None, model=False):
    """Is path condition and extra satisfiable?  extra: f(enc) -> z3 constraints"""
    enc = PolyEnc(norm.R, box)
    ex = extra(enc)
    cs = enc.path(norm.asg, atoms)
    r, m = _solve(ex + cs + enc.cs, timeout, model)
    return r, m, enc


# ------------------------------------------------------------ raw encoding
class RawEnc:
    """Direct translation of nodes, independent of the normaliser."""

    def __init__(self, box=True):
        self.m = {}
        self.cs = []
        self.n = 0
        self.box = box
        self.units = set()
        self.ufs = {}
        self.sig = []

    def fresh(self, p="t"):
        self.n += 1
        return z3.Real("%s!%d" % (p, self.n))

    def __call__(self, root):
        for n in E.topo([root]):
            if n not in self.m:
                self.m[n] = self._node(n)
        return self.m[root]

    def _b(self, x):
        return z3.BoolVal(x == 1) if x in (0, 1) else self.m[x]

    def _r(self, x):
        if x == 0:
            return z3.RealVal(0)
        if x == 1:
            return z3.RealVal(1)
        if E.BOOL[x]:
            return z3.If(self.m[x], z3.RealVal(1), z3.RealVal(0))
        return self.m[x]

    def _node(self, n):
        op, ar = E.OP[n], E.AR[n]
        if op == "c":
            return qv(ar[0])
        if op == "v":
            x = z3.Real(ar[0])
            inf = E.VINFO.get(n, {})
            if inf.get("nonneg"):
                self.cs.append(x >= 0)
            if self.box and inf.get("box"):
                self.cs += [x >= qv(inf["box"][0]), x <= qv(inf["box"][1])]
            if "unit" in inf and inf["unit"] not in self.units:
                self.units.add(inf["unit"])
                self.cs.append(z3.Sum([z3.Real(E.AR[k][0]) * z3.Real(E.AR[k][0]) for k in inf["unit"]]) == 1)
            return x
        if op == "bvar":
            return z3.Bool(ar[0])
        r = self._r
        if op == "add":
            return r(ar[0]) + r(ar[1])
        if op == "neg":
            return -r(ar[0])
        if op == "mul":
            return r(ar[0]) * r(ar[1])
        if op == "div":
            return r(ar[0]) / r(ar[1])
        if op == "pow":
            x = r(ar[0])
            out = x
            for _ in range(ar[1] - 1):
                out = out * x
            return out
        if op == "sqrt":
            y = self.fresh("sqrt")
            self.cs += [y >= 0, y * y == r(ar[0])]
            return y
        if op == "abs":
            x = r(ar[0])
            return z3.If(x >= 0, x, -x)
        if op == "ite":
            c = self._b(ar[0])
            return z3.If(c, r(ar[1]), r(ar[2]))
        if op == "lt":
            return r(ar[0]) < r(ar[1])
        if op == "eq":
            return r(ar[0]) == r(ar[1])
        if op == "not":
            return z3.Not(self._b(ar[0]))
        if op == "and":
            return z3.And(self._b(ar[0]), self._b(ar[1]))
        if op == "or":
            return z3.Or(self._b(ar[0]), self._b(ar[1]))
        if op in ("fn", "uf"):
            name = ar[0]
            if name in ("sin", "cos"):
                a = ar[1]
                k = ("sc", a)
                if k not in self.ufs:
                    s, c = self.fresh("sin"), self.fresh("cos")
                    self.ufs[k] = (s, c)
                    self.cs.append(s * s + c * c == 1)
                    inf = E.VINFO.get(a, {})
                    rg = inf.get("range")
                    if rg and rg[0] >= 0 and rg[1] <= 3.1416:
                        self.cs.append(s >= 0)
                return self.ufs[k][0 if name == "sin" else 1]
            if name in ("floor", "trunc", "ceil", "round"):
                x = r(ar[1])
                if name == "floor":
                    return z3.ToReal(z3.ToInt(x))
                if name == "ceil":
                    return -z3.ToReal(z3.ToInt(-x))
                if name == "trunc":
                    return z3.If(x >= 0, z3.ToReal(z3.ToInt(x)), -z3.ToReal(z3.ToInt(-x)))
            f = z3.Function("uf_" + name, *([z3.RealSort()] * len(ar)))
            y = f(*[r(x) for x in ar[1:]])
            if name in ("exp",):
                self.cs.append(y > 0)
            if name == "sigmoid":
                self.cs += sigmoid_facts(self.sig, r(ar[1]), y)
            return y
        if op == "inf":
            return z3.Real("posinf" if ar[0] > 0 else "neginf")
        if op == "nan":
            return z3.Real("nan")
        raise NotImplementedError(op)


def raw_check(nodes_true, timeout=5.0, box=True, model=False, uf=False):
    """Satisfiability of the conjunction of boolean nodes, encoded directly."""
    enc = RawEnc(box)
    fs = []
    for n in nodes_true:
        t = enc(n) if n not in (0, 1) else z3.BoolVal(n == 1)
        fs.append(t)
    s = z3.Solver()
    s.set("timeout", int(timeout * 1000))
    s.set("random_seed", 1)
    s.add(fs + enc.cs)
    t0 = time.time()
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    dt = time.time() - t0
    STATS["queries"] += 1
    STATS["raw"] += 1
    STATS["time"] += dt
    STATS["max"] = max(STATS["max"], dt)
    STATS[str(r)] += 1
    if r == z3.unsat:
        STATS["raw_unsat"] += 1
    return r, (s.model() if r == z3.sat else None), enc
