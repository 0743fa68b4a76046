"""
Rational-function normal form of real Sym nodes: numerator polynomial over a
product of denominator factors.  Used to hand the solver sums of monomials.

poly: {monomial: coef}, monomial: sorted tuple ((varindex, exp), ...).
"""
from fractions import Fraction
from . import expr as E


class TooBig(Exception):
    pass


MAX_TERMS = 60000


class Normaliser:
    def __init__(self, max_terms=MAX_TERMS):
        self.cache = {}
        self.varix = {}     # node index -> variable number
        self.varnodes = []
        self.max_terms = max_terms
        self.sq = {}        # varnumber of sqrt atoms -> radicand (num, den)
        self.dens = []      # denominator atoms: list of polys
        self.denix = {}
        self.decide = None  # callback deciding conditions on the path

    def variable(self, n):
        k = self.varix.get(n.i)
        if k is None:
            k = self.varix[n.i] = len(self.varnodes)
            self.varnodes.append(n)
        return k

    # --- polynomials
    def padd(self, p, q, cq=1):
        if not q:
            return p
        if len(p) < len(q) and cq == 1:
            p, q = q, p
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + c * cq
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        if len(r) > self.max_terms:
            raise TooBig()
        return r

    def mmul(self, a, b):
        if not a:
            return b
        if not b:
            return a
        i = j = 0
        out = []
        la, lb = len(a), len(b)
        while i < la and j < lb:
            va, ea = a[i]
            vb, eb = b[j]
            if va == vb:
                out.append((va, ea + eb))
                i += 1
                j += 1
            elif va < vb:
                out.append(a[i])
                i += 1
            else:
                out.append(b[j])
                j += 1
        out.extend(a[i:])
        out.extend(b[j:])
        return tuple(out)

    def pmul(self, p, q):
        if not p or not q:
            return {}
        if len(p) > len(q):
            p, q = q, p
        if len(p) * len(q) > 40 * self.max_terms:
            raise TooBig()
        if len(p) == 1:
            (ma, ca), = p.items()
            if not ma:
                r = q if ca == 1 else {m: c * ca for m, c in q.items()}
                return r
        r = {}
        mm = self.mmul
        for ma, ca in p.items():
            for mb, cb in q.items():
                m = mm(ma, mb)
                v = r.get(m, 0) + ca * cb
                r[m] = v
        r = {m: c for m, c in r.items() if c != 0}
        r = self.reduce(r)
        if len(r) > self.max_terms:
            raise TooBig()
        return r

    def reduce(self, p):
        """Replace s^2 of square root atoms by the radicand."""
        if not self.sq:
            return p
        need = False
        for m in p:
            for v, e in m:
                if e > 1 and v in self.sq and e >= self.sq[v][1]:
                    need = True
                    break
            if need:
                break
        if not need:
            return p
        r = {}
        for m, c in p.items():
            t = {(): c}
            for v, e in m:
                if v in self.sq and e >= self.sq[v][1]:
                    rad, k = self.sq[v]
                    for _ in range(e // k):
                        t = self.pmul(t, rad)
                    e = e % k
                if e:
                    t = {self.mmul(mm, ((v, e),)): cc
                         for mm, cc in t.items()}
            r = self.padd(r, t)
        return r

    def ppow(self, p, n):
        r = {(): 1}
        b = p
        while n:
            if n & 1:
                r = self.pmul(r, b)
            n >>= 1
            if n:
                b = self.pmul(b, b)
        return r

    # --- rational functions: (poly, den) with den a tuple ((atom, exp), ...)
    def denatom(self, p):
        """Normalised denominator atom of polynomial p: (index, factor)."""
        lead = p[min(p)]
        q = {m: Fraction(c) / lead for m, c in p.items()}
        q = {m: (c.numerator if c.denominator == 1 else c)
             for m, c in q.items()}
        key = frozenset(q.items())
        k = self.denix.get(key)
        if k is None:
            k = self.denix[key] = len(self.dens)
            self.dens.append(q)
        return k, lead

    def expand_den(self, num, den, target):
        for k, e in target.items():
            d = e - den.get(k, 0)
            if d:
                num = self.pmul(num, self.ppow(self.dens[k], d))
        return num

    def radd(self, a, b):
        (p, d), (q, f) = a, b
        if not p:
            return b
        if not q:
            return a
        if d == f:
            return self.simp(self.padd(p, q), d)
        dd, ff = dict(d), dict(f)
        t = dict(dd)
        for k, e in ff.items():
            t[k] = max(t.get(k, 0), e)
        p = self.expand_den(p, dd, t)
        q = self.expand_den(q, ff, t)
        return self.simp(self.padd(p, q), tuple(sorted(t.items())))

    def simp(self, p, d):
        if not p:
            return p, ()
        return p, d

    def rmul(self, a, b):
        (p, d), (q, f) = a, b
        if not p or not q:
            return {}, ()
        # Cancel numerator equal to a denominator atom.
        if d == ():
            den = f
        elif f == ():
            den = d
        else:
            t = dict(d)
            for k, e in f:
                t[k] = t.get(k, 0) + e
            den = tuple(sorted(t.items()))
        if den:
            t = dict(den)
            for nm in ('p', 'q'):
                x = p if nm == 'p' else q
                if len(x) > 1:
                    lead = x[min(x)]
                    key = frozenset((m, _nz(Fraction(c) / lead))
                                    for m, c in x.items())
                    k = self.denix.get(key)
                    if k is not None and t.get(k, 0) > 0:
                        t[k] -= 1
                        if t[k] == 0:
                            del t[k]
                        x = {(): lead}
                if nm == 'p':
                    p = x
                else:
                    q = x
            r = self.pmul(p, q)
            # Single monomial denominators: cancel directly.
            r, t = self.cancel_mono(r, t)
            return self.simp(r, tuple(sorted(t.items())))
        return self.simp(self.pmul(p, q), den)

    def cancel_mono(self, p, t):
        for k in list(t):
            dp = self.dens[k]
            if len(dp) == 1:
                (m, _), = dp.items()
                if len(m) == 1 and m[0][1] == 1:
                    v = m[0][0]
                    e = t[k]
                    mn = e
                    for mm in p:
                        x = 0
                        for vv, ee in mm:
                            if vv == v:
                                x = ee
                                break
                        mn = min(mn, x)
                        if mn == 0:
                            break
                    if mn:
                        r = {}
                        for mm, c in p.items():
                            r[tuple((vv, ee - mn if vv == v else ee)
                                    for vv, ee in mm
                                    if not (vv == v and ee == mn))] = c
                        p = r
                        t = dict(t)
                        t[k] -= mn
                        if t[k] == 0:
                            del t[k]
        return p, t

    def rdiv(self, a, b):
        (p, d), (q, f) = a, b
        if not q:
            raise ZeroDivisionError('symbolic division by zero')
        if not p:
            return {}, ()
        # a / (q / F) = a * F / q
        num = p
        td = dict(d)
        for k, e in f:
            have = td.get(k, 0)
            c = min(have, e)
            if c:
                td[k] -= c
                if td[k] == 0:
                    del td[k]
                e -= c
            if e:
                num = self.pmul(num, self.ppow(self.dens[k], e))
        if len(q) == 1:
            (m, c), = q.items()
            if c != 1:
                num = {mm: _nz(Fraction(cc) / c) for mm, cc in num.items()}
            for v, e in m:
                k, _ = self.denatom({((v, 1),): 1})
                td[k] = td.get(k, 0) + e
        else:
            k, lead = self.denatom(q)
            td[k] = td.get(k, 0) + 1
            if lead != 1:
                num = {mm: _nz(Fraction(cc) / lead)
                       for mm, cc in num.items()}
            # numerator equal to the new atom?
            if len(num) == len(q):
                l2 = num[min(num)]
                key = frozenset((m, _nz(Fraction(c) / l2))
                                for m, c in num.items())
                if self.denix.get(key) == k:
                    num = {(): l2}
                    td[k] -= 1
                    if td[k] == 0:
                        del td[k]
        num, td = self.cancel_mono(num, td)
        return self.simp(num, tuple(sorted(td.items())))

    def run(self, roots):
        cache = self.cache
        todo = [r for r in roots if r.i not in cache]
        for n in E.topo(todo):
            if n.i in cache or n.sort == 'B':
                continue
            op = n.op
            if op == 'c':
                r = ({(): n.a} if n.a != 0 else {}), ()
            elif op == 'v':
                r = {((self.variable(n), 1),): 1}, ()
            elif op == '+':
                r = self.radd(cache[n.a[0].i], cache[n.a[1].i])
            elif op == '*':
                r = self.rmul(cache[n.a[0].i], cache[n.a[1].i])
            elif op == '/':
                r = self.rdiv(cache[n.a[0].i], cache[n.a[1].i])
            elif op == '^':
                p, d = cache[n.a[0].i]
                k = n.a[1]
                r = (self.ppow(p, k), tuple((a, e * k) for a, e in d))
            elif op == 'f' and (n.a[0] == 'sqrt' or (
                    n.a[0] == 'pow' and n.a[2].op == 'c'
                    and E.Fraction(n.a[2].a).numerator == 1)):
                k = 2 if n.a[0] == 'sqrt' else \
                    Fraction(n.a[2].a).denominator
                p, d = cache[n.a[1].i]
                # canonical atom per radicand value
                key = ('root', k, frozenset(p.items()), d)
                v = self.denix.get(key)
                if v is None:
                    v = self.variable(n)
                    self.denix[key] = v
                    if d == ():
                        self.sq[v] = (p, k)
                r = {((v, 1),): 1}, ()
            elif op == 'f' and n.a[0] == 'exp':
                p, d = cache[n.a[1].i]
                neg = bool(p) and min(p.items())[1] < 0
                if neg:
                    p = {m: -c for m, c in p.items()}
                key = ('fun', 'exp', ((frozenset(p.items()), d),))
                v = self.denix.get(key)
                if v is None:
                    v = self.denix[key] = self.variable(
                        E.fun('exp', -n.a[1]) if neg else n)
                r = {((v, 1),): 1}, ()
                if neg:
                    r = self.rdiv(({(): 1}, ()), r)
            elif op == 'ite' and self.decide is not None and \
                    self.decide(n.a[0]) is not None:
                r = cache[n.a[1 if self.decide(n.a[0]) else 2].i]
            else:
                # opaque atom (canonical by argument normal forms for
                # functions)
                if op == 'f':
                    args = []
                    for x in n.a[1:]:
                        p, d = cache[x.i]
                        args.append((frozenset(p.items()), d))
                    key = ('fun', n.a[0], tuple(args))
                    v = self.denix.get(key)
                    if v is None:
                        v = self.denix[key] = self.variable(n)
                else:
                    v = self.variable(n)
                r = {((v, 1),): 1}, ()
            cache[n.i] = r
        return [cache[r.i] for r in roots]

    def cross(self, a, b):
        """Bring to a common denominator, return numerators and the common
        denominator."""
        (p, d), (q, f) = a, b
        if d == f:
            return p, q, d
        dd, ff = dict(d), dict(f)
        t = dict(dd)
        for k, e in ff.items():
            t[k] = max(t.get(k, 0), e)
        return (self.expand_den(p, dd, t), self.expand_den(q, ff, t),
                tuple(sorted(t.items())))


def _nz(f):
    return f.numerator if f.denominator == 1 else f
