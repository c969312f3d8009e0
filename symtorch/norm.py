"""Normal forms: expression nodes as fractions of integer polynomials over atoms.

An atom is an input variable, a square root, a sine/cosine, an application of
an uninterpreted function, ...  Atoms may carry a relation v^2 -> polynomial
(square roots, sines, unit vectors); numerators are kept reduced modulo those
relations, so that a difference that vanishes identically has numerator 0.
"""
from fractions import Fraction
from math import gcd, isqrt, pi

from . import expr as E

PI_Q = Fraction('3.14159265358979323846264338327950288')
BITS = 12
MASK = (1 << BITS) - 1


class NeedSplit(Exception):
    def __init__(self, cond):
        self.cond = cond


class TooBig(Exception):
    pass


class Ring:
    def __init__(self, max_terms=60000):
        self.names = []
        self.info = []           # per atom: dict(kind=, node=, ...)
        self.rel = {}            # atom -> poly for atom^2
        self.redmask = 0
        self.nonneg = set()      # atoms known >= 0
        self.keys = {}           # atom key -> index
        self.den_polys = []      # denominator atoms (primitive polynomials)
        self.den_keys = {}
        self.den_pos = []        # True when known positive
        self.squares = {}        # key of nf(v^2) -> atom (nonneg)
        self.angles = []         # (angle frac key, sin atom, cos atom, frac)
        self.max_terms = max_terms

    # ------------------------------------------------------------- atoms
    def new_atom(self, key, name, **info):
        i = self.keys.get(key)
        if i is not None:
            return i
        i = len(self.names)
        self.keys[key] = i
        self.names.append(name)
        self.info.append(info)
        return i

    def set_rel(self, i, poly):
        """declare atom_i^2 == poly (integer coefficients, denominator 1 only
        unless given as Frac with constant denominator)"""
        self.rel[i] = poly
        self.redmask |= (MASK ^ 1) << (BITS * i)

    # -------------------------------------------------------- polynomials
    # a poly here is a pair (dict, common denominator)
    def reduce(self, d, cd):
        rm = self.redmask
        bad = [m for m in d if m & rm]
        if not bad:
            return d, cd
        while True:
            bad = [m for m in d if m & rm]
            if not bad:
                break
            # group by relation atom: reduce the highest atom first
            byatom = {}
            for m in bad:
                x = m & rm
                a = (x.bit_length() - 1) // BITS
                byatom.setdefault(a, []).append(m)
            a = max(byatom)
            rp, rcd = self.rel[a]
            sh = BITS * a
            two = 2 << sh
            ms = byatom[a]
            if rcd != 1:
                for m in d:
                    if m not in byatom:
                        pass
                old = {m: d.pop(m) for m in ms}
                d = {m: c * rcd for m, c in d.items()}
                cd *= rcd
            else:
                old = {m: d.pop(m) for m in ms}
            for m, c in old.items():
                base = m - two
                for rm_, rc in rp.items():
                    k = base + rm_
                    v = d.get(k, 0) + c * rc
                    if v:
                        d[k] = v
                    elif k in d:
                        del d[k]
            if len(d) > self.max_terms:
                raise TooBig()
        return self.norm_content(d, cd)

    @staticmethod
    def norm_content(d, cd):
        if not d:
            return d, 1
        if cd != 1:
            g = cd
            for c in d.values():
                g = gcd(g, c)
                if g == 1:
                    break
            if g != 1:
                d = {m: c // g for m, c in d.items()}
                cd //= g
        return d, cd

    def pmul(self, a, b):
        if len(a) > len(b):
            a, b = b, a
        if len(a) * len(b) > 40 * self.max_terms:
            raise TooBig()
        out = {}
        get = out.get
        if len(a) == 1:
            (m1, c1), = a.items()
            if m1 == 0:
                return {m: c * c1 for m, c in b.items()} if c1 != 1 else dict(b)
            return {m + m1: c * c1 for m, c in b.items()}
        bi = list(b.items())
        for m1, c1 in a.items():
            for m2, c2 in bi:
                m = m1 + m2
                out[m] = get(m, 0) + c1 * c2
        return {m: c for m, c in out.items() if c}

    @staticmethod
    def padd(a, b, ka=1, kb=1):
        out = {m: c * ka for m, c in a.items()} if ka != 1 else dict(a)
        for m, c in b.items():
            v = out.get(m, 0) + c * kb
            if v:
                out[m] = v
            elif m in out:
                del out[m]
        return out

    def pdivexact(self, a, b):
        """a / b for integer polys, or None.  b's coefficients any integers;
        returns (quotient dict, den)."""
        if not a:
            return {}, 1
        lb = max(b)
        cb = b[lb]
        rest = [(m, c) for m, c in b.items() if m != lb]
        a = dict(a)
        q = {}
        den = 1
        steps = 0
        lbf = self.unpack(lb)
        while a:
            la = max(a)
            if not self.divides_unp(lbf, la):
                return None
            ca = a.pop(la)
            if ca % cb:
                g = abs(cb) // gcd(ca, cb)
                den *= g
                if den > 10 ** 40:
                    return None
                a = {m: c * g for m, c in a.items()}
                q = {m: c * g for m, c in q.items()}
                ca *= g
            k = ca // cb
            mq = la - lb
            q[mq] = k
            for m, c in rest:
                mm = m + mq
                v = a.get(mm, 0) - k * c
                if v:
                    a[mm] = v
                else:
                    a.pop(mm, None)
            steps += 1
            if steps > 4000:
                return None
        return q, den

    def unpack(self, m):
        out = []
        i = 0
        while m:
            e = m & MASK
            if e:
                out.append((i, e))
            m >>= BITS
            i += 1
        return out

    def divides_unp(self, unp, m):
        for i, e in unp:
            if (m >> (BITS * i)) & MASK < e:
                return False
        return True

    def mono_content(self, d):
        """gcd monomial of a polynomial"""
        it = iter(d)
        m0 = next(it)
        if m0 == 0:
            return 0
        unp = dict(self.unpack(m0))
        for m in it:
            if m == 0:
                return 0
            for i in list(unp):
                e = (m >> (BITS * i)) & MASK
                if e < unp[i]:
                    if e:
                        unp[i] = e
                    else:
                        del unp[i]
            if not unp:
                return 0
        return sum(e << (BITS * i) for i, e in unp.items())

    def pkey(self, d):
        return tuple(sorted(d.items()))

    def primitive(self, d):
        """(rational content, primitive part with positive leading coefficient)"""
        g = 0
        for c in d.values():
            g = gcd(g, c)
            if g == 1:
                break
        if d[max(d)] < 0:
            g = -g
        if g == 1:
            return 1, d
        return g, {m: c // g for m, c in d.items()}

    # -------------------------------------------------- denominators
    def den_atom(self, prim):
        k = self.pkey(prim)
        i = self.den_keys.get(k)
        if i is None:
            i = len(self.den_polys)
            self.den_keys[k] = i
            self.den_polys.append(prim)
            self.den_pos.append(self.poly_nonneg(prim))
        return i

    def poly_nonneg(self, d):
        """syntactic: every term has positive coefficient and even exponents /
        nonnegative atoms; or the constant outweighs the other terms, which
        are products of sines, cosines and unit vector components"""
        slack = d.get(0, 0)
        for m, c in d.items():
            if m == 0:
                continue
            u = self.unpack(m)
            if c > 0 and all(e % 2 == 0 or i in self.nonneg for i, e in u):
                continue
            slack -= abs(c)
            if slack < 0 or not all(self.bounded1(i) for i, e in u):
                return False
        return slack >= 0

    def bounded1(self, i):
        inf = self.info[i]
        k = inf.get("kind")
        return k in ("sin", "cos") or (k == "v" and "unit" in E.VINFO.get(inf["node"], {}))


class Frac:
    __slots__ = ("n", "cd", "den")

    def __init__(self, n, cd=1, den=None):
        self.n = n
        self.cd = cd
        self.den = den or {}


class Normalizer:
    def __init__(self, ring, asg=None, decide=None):
        self.R = ring
        self.memo = {}
        self.asg = asg if asg is not None else {}    # canonical condition key -> bool
        self.sgn = {}                                 # poly key -> sign facts (+1 / -1 / 0)

    def child(self):
        n = Normalizer(self.R)
        n.memo = dict(self.memo)
        n.asg = dict(self.asg)
        n.sgn = dict(self.sgn)
        return n

    # ----------------------------------------------------------- fractions
    def const(self, q):
        q = Fraction(q)
        if q == 0:
            return Frac({}, 1)
        return Frac({0: q.numerator}, q.denominator)

    def atom(self, i):
        return Frac({1 << (BITS * i): 1}, 1)

    def is_zero(self, f):
        return not f.n

    def const_of(self, f):
        if not f.n:
            return Fraction(0)
        if f.den:
            return None
        if len(f.n) == 1 and 0 in f.n:
            return Fraction(f.n[0], f.cd)
        return None

    def denpoly(self, den):
        R = self.R
        p = {0: 1}
        cd = 1
        for i, e in den.items():
            for _ in range(e):
                p = R.pmul(p, R.den_polys[i])
                p, c2 = R.reduce(p, 1)
                cd *= c2
        return p, cd

    def simp(self, f):
        """cancel common factors between numerator and denominator"""
        if not f.n:
            return Frac({}, 1)
        if not f.den:
            return f
        R = self.R
        n, cd, den = f.n, f.cd, dict(f.den)
        changed = False
        for i in list(den):
            p = R.den_polys[i]
            while den.get(i):
                if len(p) == 1:
                    (m, _), = p.items()
                    sh = m.bit_length() - 1
                    at = sh // BITS
                    s = BITS * at
                    if all((x >> s) & MASK for x in n):
                        n = {x - m: c for x, c in n.items()}
                    elif den[i] >= 2 and at in R.rel and len(n) <= 400:
                        # try to divide by the square's polynomial
                        rp, rcd = R.rel[at]
                        q = R.pdivexact(n, rp)
                        if q is None:
                            break
                        qn, qd = q
                        n = {x: c * rcd for x, c in qn.items()}
                        cd *= qd
                        den[i] -= 2
                        if not den[i]:
                            del den[i]
                        n, cd = R.norm_content(n, cd)
                        changed = True
                        continue
                    else:
                        break
                else:
                    if len(n) > 400 or len(n) < 1:
                        break
                    q = R.pdivexact(n, p)
                    if q is None:
                        break
                    n, qd = q
                    cd *= qd
                    n, cd = R.norm_content(n, cd)
                den[i] -= 1
                changed = True
                if not den[i]:
                    del den[i]
        if not changed:
            return f
        return Frac(n, cd, den)

    def add(self, a, b):
        if not a.n:
            return b
        if not b.n:
            return a
        R = self.R
        if a.den == b.den:
            g = gcd(a.cd, b.cd)
            ka, kb = b.cd // g, a.cd // g
            n = R.padd(a.n, b.n, ka, kb)
            n, cd = R.norm_content(n, a.cd * ka)
            f = Frac(n, cd, a.den if n else None)
            return self.simp(f) if a.den else f
        den = dict(a.den)
        for i, e in b.den.items():
            if den.get(i, 0) < e:
                den[i] = e
        na, ca = self._lift(a, den)
        nb, cb = self._lift(b, den)
        g = gcd(ca, cb)
        ka, kb = cb // g, ca // g
        n = R.padd(na, nb, ka, kb)
        if len(n) > R.max_terms:
            raise TooBig()
        n, cd = R.norm_content(n, ca * ka)
        return self.simp(Frac(n, cd, den if n else None))

    def _lift(self, f, den):
        R = self.R
        n, cd = f.n, f.cd
        for i, e in den.items():
            for _ in range(e - f.den.get(i, 0)):
                n = R.pmul(n, R.den_polys[i])
                n, cd = R.reduce(n, cd)
        return n, cd

    def neg(self, a):
        return Frac({m: -c for m, c in a.n.items()}, a.cd, a.den)

    def mul(self, a, b):
        if not a.n or not b.n:
            return Frac({}, 1)
        R = self.R
        den = a.den
        an, bn, acd, bcd = a.n, b.n, a.cd, b.cd
        if a.den or b.den:
            # cross cancellation before multiplying
            if b.den and len(an) <= 400:
                t = self.simp(Frac(an, acd, b.den))
                an, acd, bden = t.n, t.cd, t.den
            else:
                bden = b.den
            if a.den and len(bn) <= 400:
                t = self.simp(Frac(bn, bcd, a.den))
                bn, bcd, aden = t.n, t.cd, t.den
            else:
                aden = a.den
            den = dict(aden)
            for i, e in bden.items():
                den[i] = den.get(i, 0) + e
        n = R.pmul(an, bn)
        n, cd = R.reduce(n, acd * bcd)
        n, cd = R.norm_content(n, cd)
        f = Frac(n, cd, den)
        return self.simp(f) if den else f

    def inv(self, a):
        R = self.R
        if not a.n:
            raise ZeroDivisionError
        g, p = R.primitive(a.n)
        cd = abs(g)
        n = {0: a.cd * (1 if g > 0 else -1)}
        den = {}
        mc = R.mono_content(p)
        if mc:
            p = {m - mc: c for m, c in p.items()}
            for i, e in R.unpack(mc):
                den[R.den_atom({1 << (BITS * i): 1})] = e
        if not (len(p) == 1 and 0 in p):
            den[R.den_atom(p)] = den.get(R.den_atom(p), 0) + 1
        n, cd = R.norm_content(n, cd)
        f = Frac(n, cd, den)
        if a.den:
            dp, dc = self.denpoly(a.den)
            # multiply numerator by a's denominator
            f = self.mul(f, Frac(dp, dc))
        return f

    def div(self, a, b):
        return self.mul(a, self.inv(b))

    def key(self, f):
        return (self.R.pkey(f.n), f.cd, tuple(sorted(f.den.items())))

    def sign_of(self, f):
        """known sign: +1 (>=0), -1 (<=0) or None"""
        if not f.n:
            return 1
        c = self.const_of(f)
        if c is not None:
            return 1 if c > 0 else -1
        if not all(e % 2 == 0 or self.den_positive(i) for i, e in f.den.items()):
            return None
        if self.R.poly_nonneg(f.n):
            return 1
        if self.R.poly_nonneg({m: -c for m, c in f.n.items()}):
            return -1
        g, p = self.R.primitive(f.n)
        s = self.sgn.get(self.R.pkey(p))
        if s:
            return s if g > 0 else -s
        # monomial content with known signs
        mc = self.R.mono_content(p)
        if mc:
            s = 1 if g > 0 else -1
            for i, e in self.R.unpack(mc):
                if e % 2:
                    a = self.atom_sign(i)
                    if a is None:
                        return None
                    s *= a
            p = {m - mc: c for m, c in p.items()}
            if len(p) == 1 and 0 in p:
                return s if p[0] > 0 else -s
            r = self.sign_of(Frac(p, 1))
            return None if r is None else s * r
        return None

    def atom_sign(self, i):
        if i in self.R.nonneg:
            return 1
        if self.R.info[i].get("negative"):
            return -1
        return self.sgn.get(((1 << (BITS * i), 1),))

    def atom_nonzero(self, i):
        return self.R.info[i].get("nonzero") or self.asg.get(("eq", ((1 << (BITS * i), 1),))) is False

    def den_positive(self, i):
        return self.R.den_pos[i] or self.sgn.get(self.R.pkey(self.R.den_polys[i])) == 1

    # --------------------------------------------------------------- nodes
    def nf(self, root):
        memo = self.memo
        f = memo.get(root)
        if f is not None:
            return f
        st = [root]
        OP, AR = E.OP, E.AR
        while st:
            n = st[-1]
            if n in memo:
                st.pop()
                continue
            op, ar = OP[n], AR[n]
            if op == "ite":
                c = self.cond(ar[0])
                t = ar[1] if c else ar[2]
                if t in memo:
                    memo[n] = memo[t]
                    st.pop()
                else:
                    st.append(t)
                continue
            pend = [c for c in E.children(n) if c not in memo]
            if pend:
                if E.BOOL[n]:
                    memo[n] = self.const(1 if self.cond(n) else 0)
                    st.pop()
                    continue
                st.extend(pend)
                continue
            memo[n] = self._node(n, op, ar)
            st.pop()
        return memo[root]

    def _node(self, n, op, ar):
        m = self.memo
        if op == "c":
            return self.const(ar[0])
        if op == "v":
            info = E.VINFO.get(n, {})
            i = self.R.keys.get(("v", ar[0]))
            if i is None:
                for k in info.get("unit", (n,)):
                    inf = E.VINFO.get(k, {})
                    i = self.R.new_atom(("v", E.AR[k][0]), E.AR[k][0], kind="v", node=k)
                    if inf.get("nonneg"):
                        self.R.nonneg.add(i)
                        self.register_square(i)
                if "unit" in info:
                    # the components of a unit vector: the last square is eliminated
                    rel = {0: 1}
                    for k in info["unit"][:-1]:
                        rel[2 << (BITS * self.R.keys[("v", E.AR[k][0])])] = -1
                    self.R.set_rel(i, (rel, 1))
                    self.R.squares[self.R.pkey(rel) + (("cd", 1),)] = i
                    i = self.R.keys[("v", ar[0])]
            return self.atom(i)
        if op == "add":
            return self.add(m[ar[0]], m[ar[1]])
        if op == "neg":
            return self.neg(m[ar[0]])
        if op == "mul":
            return self.mul(m[ar[0]], m[ar[1]])
        if op == "div":
            if not m[ar[1]].n:
                return self._ufatom("div0", [m[ar[0]]], n)
            return self.div(m[ar[0]], m[ar[1]])
        if op == "pow":
            b, k = m[ar[0]], ar[1]
            r = None
            while k:
                if k & 1:
                    r = b if r is None else self.mul(r, b)
                k >>= 1
                if k:
                    b = self.mul(b, b)
            return r
        if op == "sqrt":
            return self.sqrt(m[ar[0]])
        if op == "abs":
            return self.absf(m[ar[0]])
        if op == "fn":
            return self.fn(n, ar[0], [m[x] for x in ar[1:]])
        if op == "uf":
            return self._ufatom(ar[0], [m[x] for x in ar[1:]], n)
        if E.BOOL[n]:
            return self.const(1 if self.cond(n) else 0)
        if op in ("inf", "nan"):
            return self._ufatom("%s%s" % (op, ar), [], n)
        raise NotImplementedError(op)

    def _ufatom(self, name, args, n):
        k = ("uf", name) + tuple(self.key(a) for a in args)
        i = self.R.new_atom(k, "%s#%d" % (name, len(self.R.names)), kind="uf", fname=name, args=args)
        if name in ("exp", "sigmoid"):
            self.R.nonneg.add(i)
        return self.atom(i)

    def register_square(self, i):
        """remember nf(v^2) so that sqrt recognises it"""
        f = self.mul(self.atom(i), self.atom(i))
        g, p = self.R.primitive(f.n)
        self.R.squares[self.R.pkey(f.n) + (("cd", f.cd),)] = i

    def absf(self, a):
        s = self.sign_of(a)
        if s == 1:
            return a
        if s == -1:
            return self.neg(a)
        # |num| / |den|
        R = self.R
        g, p = R.primitive(a.n)
        mc = R.mono_content(p)
        out = Frac({0: abs(g)}, a.cd)
        if mc:
            p = {m - mc: c for m, c in p.items()}
            for i, e in R.unpack(mc):
                out = self.mul(out, self._abs_atom({1 << (BITS * i): 1}, e))
        if not (len(p) == 1 and 0 in p):
            out = self.mul(out, self._abs_atom(p, 1))
        for i, e in a.den.items():
            d = self._abs_atom(R.den_polys[i], e)
            out = self.mul(out, self.inv(d))
        return out

    def _abs_atom(self, p, e):
        R = self.R
        base = Frac(p, 1)
        s = self.sign_of(base)
        if s == 1:
            r = base
        elif s == -1:
            r = self.neg(base)
        elif e % 2 == 0:
            r = base
        else:
            g, p = R.primitive(p)
            k = ("abs", R.pkey(p))
            i = R.keys.get(k)
            if i is None:
                sq = R.pmul(p, p)
                sq, c = R.reduce(sq, 1)
                i = R.new_atom(k, "abs#%d" % len(R.names), kind="abs", arg=Frac(p, 1))
                R.nonneg.add(i)
                R.set_rel(i, (sq, c))
            r = self.mul(self.atom(i), self.const(abs(g)))
        f = r
        for _ in range(e - 1):
            f = self.mul(f, r)
        return f

    def sqrt(self, a):
        if not a.n:
            return a
        c = self.const_of(a)
        R = self.R
        # move the denominator out: sqrt(N/D) = sqrt(N*odd(D)) / sqrt(...)
        out = Frac({0: 1}, 1)
        n, ncd = a.n, a.cd
        for i, e in a.den.items():
            k = (e + 1) // 2
            out = self.mul(out, self.inv(self._abs_atom(R.den_polys[i], k)))
            if e % 2:
                n = R.pmul(n, R.den_polys[i])
                n, ncd = R.reduce(n, ncd)
        # constant: sqrt(g/cd * p)
        g, p = R.primitive(n)
        q = Fraction(g, ncd)
        if q < 0:
            q = -q
            p = {m: -c for m, c in p.items()}
        sq = E._isqrt_frac(q)
        # pull out the largest square factor, so that equal roots have equal forms
        num, den = q.numerator * q.denominator, q.denominator
        s = 1
        if num < 10 ** 12:
            f = 2
            while f * f <= num and f < 2000:
                while num % (f * f) == 0:
                    num //= f * f
                    s *= f
                f += 1
            r = isqrt(num)
            if r * r == num:
                s *= r
                num = 1
        else:
            r = isqrt(num)
            if r * r == num:
                s, num = r, 1
        out = self.mul(out, self.const(Fraction(s, den)))
        p = {m: c * num for m, c in p.items()}
        # even monomial content
        mc = R.mono_content(p)
        if mc:
            for i, e in R.unpack(mc):
                k = e // 2
                if k:
                    p = {m - (2 * k << (BITS * i)): c for m, c in p.items()}
                    out = self.mul(out, self._abs_atom({1 << (BITS * i): 1}, k))
        if len(p) == 1 and p.get(0) == 1:
            return out
        # known squares
        for _ in range(8):
            hit = None
            k = R.pkey(p) + (("cd", 1),)
            if k in R.squares:
                hit = R.squares[k]
                return self.mul(out, self.absf(self.atom(hit)))
            for sk, i in R.squares.items():
                sp = dict(sk[:-1])
                if len(sp) < 2 or len(p) < len(sp):
                    continue
                d = R.pdivexact(p, sp)
                if d is not None and d[1] == 1:
                    hit = (i, d[0])
                    break
            if hit is None:
                break
            out = self.mul(out, self.absf(self.atom(hit[0])))
            p = hit[1]
            if len(p) == 1 and p.get(0) == 1:
                return out
        # perfect square polynomial?
        r = self._poly_sqrt(p)
        if r is not None:
            return self.mul(out, self.absf(Frac(*r)))
        k = ("sqrt", R.pkey(p))
        i = R.keys.get(k)
        if i is None:
            i = R.new_atom(k, "sqrt#%d" % len(R.names), kind="sqrt", arg=Frac(p, 1))
            R.nonneg.add(i)
            R.set_rel(i, (p, 1))
        return self.mul(out, self.atom(i))

    def _poly_sqrt(self, p):
        """root of a perfect square (in the ring modulo the relations, tried
        syntactically): returns (dict, cd) or None"""
        R = self.R
        if len(p) > 120:
            return None
        lm = max(p)
        if any(e % 2 for _, e in R.unpack(lm)):
            return None
        c = p[lm]
        if c < 0:
            return None
        s = isqrt(c)
        if s * s != c:
            return None
        hm = sum((e // 2) << (BITS * i) for i, e in R.unpack(lm))
        root = {hm: Fraction(s)}
        rest = {m: Fraction(c) for m, c in p.items()}

        def subm(d, m, v):
            x = d.get(m, 0) - v
            if x:
                d[m] = x
            else:
                d.pop(m, None)
        subm(rest, lm, Fraction(c))
        hmu = R.unpack(hm)
        for _ in range(60):
            if not rest:
                break
            m = max(rest)
            if not R.divides_unp(hmu, m):
                return None
            t = m - hm
            if t >= hm:
                return None
            v = rest[m] / (2 * s)
            # subtract 2*root*v*t + v^2 t^2
            for rm, rv in list(root.items()):
                subm(rest, rm + t, 2 * rv * v)
            subm(rest, 2 * t, v * v)
            root[t] = root.get(t, 0) + v
        if rest:
            return None
        cd = 1
        for v in root.values():
            cd = cd * v.denominator // gcd(cd, v.denominator)
        return {m: int(v * cd) for m, v in root.items()}, cd

    # ---------------------------------------------------------- functions
    def sincos(self, a):
        """(sin, cos) of a normal form"""
        R = self.R
        if not a.n:
            return self.const(0), self.const(1)
        # an atan2 atom?
        if not a.den and len(a.n) == 1 and a.cd == 1:
            (m, c), = a.n.items()
            u = R.unpack(m)
            if len(u) == 1 and u[0][1] == 1 and c in (1, -1):
                inf = R.info[u[0][0]]
                if inf.get("kind") == "atan2":
                    y, x = inf["args"]
                    h = self.sqrt(self.add(self.mul(x, x), self.mul(y, y)))
                    s = self.div(y, h)
                    return (s if c == 1 else self.neg(s)), self.div(x, h)
        # sum of angles: expand
        if len(a.n) > 1 and not a.den:
            it = sorted(a.n.items())
            s, c = self.const(0), self.const(1)
            for m, k in it:
                s1, c1 = self.sincos1(self._term(m, k, a.cd))
                s, c = (self.add(self.mul(s, c1), self.mul(c, s1)),
                        self.add(self.mul(c, c1), self.neg(self.mul(s, s1))))
            return s, c
        return self.sincos1(a)

    def _term(self, m, k, cd):
        g = gcd(k, cd)
        return Frac({m: k // g}, cd // g)

    def sincos1(self, a):
        R = self.R
        lead = a.n[max(a.n)]
        if lead < 0:
            s, c = self.sincos1(self.neg(a))
            return self.neg(s), c
        # integer multiples of a registered angle
        k = ("sin", self.key(a))
        i = R.keys.get(k)
        if i is None and len(a.n) == 1 and not a.den:
            (m, co), = a.n.items()
            for (am, ak, acd, si, ci) in R.angles:
                if am == m and co * acd % (ak * a.cd) == 0:
                    r = co * acd // (ak * a.cd)
                    if 1 < r <= 8:
                        s1, c1 = self.atom(si), self.atom(ci)
                        s, c = s1, c1
                        for _ in range(r - 1):
                            s, c = (self.add(self.mul(s, c1), self.mul(c, s1)),
                                    self.add(self.mul(c, c1), self.neg(self.mul(s, s1))))
                        return s, c
        if i is None:
            ci = R.new_atom(("cos", self.key(a)), "cos#%d" % len(R.names), kind="cos", arg=a)
            i = R.new_atom(k, "sin#%d" % len(R.names), kind="sin", arg=a, cos=ci)
            R.set_rel(i, ({0: 1, 2 << (BITS * ci): -1}, 1))
            if self.in_range(a, 0, pi):
                R.nonneg.add(i)
                R.info[i]["nonzero"] = True      # angle ranges are open
            elif self.in_range(a, -pi, 0):
                R.info[i]["nonzero"] = True
                R.info[i]["negative"] = True
            if self.in_range(a, -pi / 2, pi / 2):
                R.info[ci]["nonzero"] = True
                R.nonneg.add(ci)
            self.register_square(i)
            if len(a.n) == 1 and not a.den:
                (m, co), = a.n.items()
                R.angles.append((m, co, a.cd, i, ci))
            R.info[i]["sc"] = (i, ci, a)
        ci = R.info[i]["cos"]
        return self.atom(i), self.atom(ci)

    def in_range(self, a, lo, hi):
        """declared range of an input variable"""
        if a.den or len(a.n) != 1:
            return False
        (m, c), = a.n.items()
        u = self.R.unpack(m)
        if len(u) != 1 or u[0][1] != 1:
            return False
        inf = self.R.info[u[0][0]]
        if inf.get("kind") != "v":
            return False
        rg = E.VINFO.get(inf["node"], {}).get("range")
        if rg is None:
            return False
        q = float(Fraction(c, a.cd))
        l, h = sorted((rg[0] * q, rg[1] * q))
        return lo <= l and h <= hi

    def fn(self, n, name, args):
        R = self.R
        a = args[0]
        if name == "sin":
            return self.sincos(a)[0]
        if name == "cos":
            return self.sincos(a)[1]
        if name == "tan":
            s, c = self.sincos(a)
            return self.div(s, c)
        if name == "atan2":
            return self.atan2(a, args[1])
        if name == "log":
            if not a.den and len(a.n) == 1 and a.cd == 1:
                (m, c), = a.n.items()
                u = R.unpack(m)
                if c == 1 and len(u) == 1 and u[0][1] == 1 and R.info[u[0][0]].get("fname") == "exp":
                    return R.info[u[0][0]]["args"][0]
        if name == "exp":
            c = self.const_of(a)
            if c == 0:
                return self.const(1)
            if len(a.n) > 1 and getattr(R, "exp_split", False):
                # the exponential of a sum, one factor per term
                out = self.const(1)
                for m, c0 in a.n.items():
                    t = self.mul(Frac({m: abs(c0)}, a.cd), Frac({0: 1}, 1, a.den))
                    e = self._ufatom("exp", [t], n)
                    out = self.mul(out, e if c0 > 0 else self.inv(e))
                return out
            if a.n[max(a.n)] < 0:
                return self.inv(self._ufatom("exp", [self.neg(a)], n))
        c = self.const_of(a)
        if c is not None and name in ("floor", "ceil", "trunc", "round", "rnd32"):
            r = E.fn(name, E.const(c))
            if E.is_const(r):
                return self.const(E.cval(r))
        return self._ufatom(name, args, n)

    def atan2(self, y, x):
        R = self.R
        cy, cx = self.const_of(y), self.const_of(x)
        if cy == 0 and self.sign_of(x) == 1:
            return self.const(0)
        if cy == 0 and self.sign_of(x) == -1:
            return self.const(PI_Q)
        for k, inf in enumerate(R.info):
            sc = inf.get("sc")
            if not sc:
                continue
            si, ci, a = sc
            if not self.in_range(a, -pi, pi):
                continue
            s, c = self.atom(si), self.atom(ci)
            if self.is_zero(self.add(self.mul(y, c), self.neg(self.mul(x, s)))):
                r = self.add(self.mul(x, c), self.mul(y, s))
                if self.sign_of(r) == 1:
                    return a
        k = ("atan2", self.key(y), self.key(x))
        i = R.new_atom(k, "atan2#%d" % len(R.names), kind="atan2", args=(y, x))
        return self.atom(i)

    # --------------------------------------------------------- conditions
    def cond(self, c):
        """truth value of a boolean node; raises NeedSplit when undecided"""
        if c == 0:
            return False
        if c == 1:
            return True
        op, ar = E.OP[c], E.AR[c]
        if op == "not":
            return not self.cond(ar[0])
        if op == "and":
            # decide whichever side can be decided
            try:
                a = self.cond(ar[0])
            except NeedSplit as e:
                try:
                    if not self.cond(ar[1]):
                        return False
                except NeedSplit:
                    pass
                raise e
            return a and self.cond(ar[1])
        if op == "or":
            return self.cond(ar[0]) or self.cond(ar[1])
        if op == "ite":
            return self.cond(ar[1]) if self.cond(ar[0]) else self.cond(ar[2])
        k = self.ckey(c)
        if k is True or k is False:
            return k
        key, pol = k
        v = self.asg.get(key)
        if v is None:
            v = self._implied(key)
        if v is None:
            raise NeedSplit(c)
        return v if pol else (not v)

    def _implied(self, key):
        """three-way sign facts: lt(p) is p > 0 for primitive p"""
        if key[0] == "pos":
            p = key[1]
            if self.asg.get(("eq", p)) or self.asg.get(("neg", p)):
                return False
        elif key[0] == "neg":
            p = key[1]
            if self.asg.get(("eq", p)) or self.asg.get(("pos", p)):
                return False
        elif key[0] == "eq":
            p = key[1]
            if self.asg.get(("pos", p)) or self.asg.get(("neg", p)):
                return False
        if key[0] in ("pos", "neg", "eq"):
            o = [self.asg.get((t, key[1])) for t in ("pos", "neg", "eq") if t != key[0]]
            if o[0] is False and o[1] is False:
                return True
        return None

    def ckey(self, c):
        """canonical (key, polarity) of an atomic condition, or its value"""
        op, ar = E.OP[c], E.AR[c]
        if op == "bvar":
            return ("b", ar[0]), True
        if op in ("lt", "eq"):
            d = self.add(self.nf(ar[1]), self.neg(self.nf(ar[0])))
            if op == "eq":
                if not d.n:
                    return True
                cc = self.const_of(d)
                if cc is not None:
                    return False
                g, p = self.R.primitive(d.n)
                mc = self.R.mono_content(p)
                if mc:
                    drop = sum(e << (BITS * i) for i, e in self.R.unpack(mc) if self.atom_nonzero(i))
                    p = {m - drop: c for m, c in p.items()}
                    if len(p) == 1 and 0 in p:
                        return False
                pk = self.R.pkey(p)
                return ("eq", pk), True
            q = self.const_of(d)
            if q is not None:
                return q > 0
            p = self.signpoly(d)
            cc = self.const_of(Frac(p, 1)) if p else Fraction(0)
            if cc is not None:
                return cc > 0
            if self.R.poly_nonneg({m: -x for m, x in p.items()}):
                return False
            g, pp = self.R.primitive(p)
            return (("pos" if g > 0 else "neg"), self.R.pkey(pp)), True
        raise NotImplementedError("condition " + op)

    def signpoly(self, d):
        """integer polynomial with the sign of fraction d"""
        R = self.R
        n = d.n
        for i, e in d.den.items():
            if e % 2 and not self.den_positive(i):
                n = R.pmul(n, R.den_polys[i])
                n, _ = R.reduce(n, 1)
        # drop positive monomial content
        if n:
            mc = R.mono_content(n)
            if mc:
                for i, e in R.unpack(mc):
                    k = e if i in R.nonneg else e - e % 2
                    # only when the atom cannot vanish would this be exact; atoms in
                    # denominators or asserted positive are nonzero
                    if i in R.nonneg and self.atom_nonzero(i):
                        n = {m - (e << (BITS * i)): c for m, c in n.items()}
                    elif R.info[i].get("negative"):
                        n = {m - (e << (BITS * i)): (c if e % 2 == 0 else -c) for m, c in n.items()}
                    elif e > 2 or (e == 2 and self.atom_nonzero(i)):
                        k = e - e % 2 if self.atom_nonzero(i) else e - 2 + e % 2
                        if k > 0 and k % 2 == 0:
                            n = {m - (k << (BITS * i)): c for m, c in n.items()}
        return n

    def vanishes(self, d):
        """is every monomial of the numerator a multiple of an atom assumed to be zero?"""
        zero = []
        for k, v in self.asg.items():
            if v and k[0] == "eq" and len(k[1]) == 1:
                u = self.R.unpack(k[1][0][0])
                if len(u) == 1:
                    zero.append(u[0][0])
        return bool(zero) and all(any((m >> (BITS * i)) & MASK for i in zero) for m in d.n)

    def assume(self, c, val):
        """record the truth of an atomic condition node"""
        k = self.ckey(c)
        if k is True or k is False:
            return k == val
        key, pol = k
        v = val if pol else not val
        self.asg[key] = v
        if v and key[0] in ("pos", "neg"):
            self.sgn[key[1]] = 1 if key[0] == "pos" else -1
        if not v and key[0] == "pos" and self.asg.get(("eq", key[1])) is False:
            self.sgn[key[1]] = -1
        if not v and key[0] in ("pos", "neg"):
            # p <= 0 resp. p >= 0
            self.sgn.setdefault(key[1], -1 if key[0] == "pos" else 1)
        return True
