"""Algebraic normal forms for real value expressions, exhaustive case splitting over
the gates they contain, and derivatives.  `zero` decides identities by normal form; a
claimed difference is reported only with a witness point of the extracted formula."""
import math
import random
from fractions import Fraction
from . import expr as E
from .expr import N, rc, ite, isc, TRUE, FALSE, R, I, walk

TOL = 1e-9


class Undecided(Exception):
    pass


# ---------------------------------------------------------------------------- atoms
class Atoms:
    def __init__(self):
        self.tab = {}
        self.lst = []
        self.nonneg = set()
        self.pos = set()

    def get(self, key):
        i = self.tab.get(key)
        if i is None:
            i = self.tab[key] = len(self.lst)
            self.lst.append(key)
        return i


class Pl:
    """sum of coef * prod atom^exp; exponents are Fractions or Pl; coefs carry magnitude"""
    __slots__ = ('t', 'h')

    def __init__(self, t):
        self.t = t
        self.h = None

    def key(self):
        if self.h is None:
            self.h = tuple(sorted(((m, '%.9e' % (c[0] + 0.0)) for m, c in self.t.items()), key=repr))
        return self.h

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, Pl) and self.key() == o.key()

    def __repr__(self):
        return 'Pl' + repr(self.key())

    def isconst(self):
        return all(m == () for m in self.t)

    def const(self):
        return self.t.get((), (0.0, 0.0))[0]


def pc(v):
    return Pl({(): (float(v), abs(float(v)))}) if v != 0 else Pl({})


def padd(a, b, s=1.0):
    if not b.t:
        return a
    t = dict(a.t)
    for m, (c, g) in b.t.items():
        o = t.get(m)
        if o is None:
            t[m] = (c * s, g * abs(s))
        else:
            n = (o[0] + c * s, o[1] + g * abs(s))
            if abs(n[0]) <= TOL * n[1]:
                del t[m]
            else:
                t[m] = n
    return Pl(t)


def eadd(x, y):
    if isinstance(x, Fraction) and isinstance(y, Fraction):
        return x + y
    x = x if isinstance(x, Pl) else pc(x)
    y = y if isinstance(y, Pl) else pc(y)
    z = padd(x, y)
    if z.isconst():
        return Fraction(z.const()).limit_denominator(10 ** 6)
    return z


def emul(x, y):
    if isinstance(x, Fraction) and isinstance(y, Fraction):
        return x * y
    x = x if isinstance(x, Pl) else pc(x)
    y = y if isinstance(y, Pl) else pc(y)
    z = Alg.cur.mul(x, y)
    if z.isconst():
        return Fraction(z.const()).limit_denominator(10 ** 6)
    return z


class Alg:
    cur = None
    MAXT = 60000

    def __init__(self, positive=(), nonneg=()):
        """positive/nonneg: names of symbols known > 0 / >= 0"""
        self.at = Atoms()
        self.memo = {}
        self.pnames = set(positive)
        self.nnames = set(nonneg)
        Alg.cur = self

    # signs of atoms -------------------------------------------------------------
    def is_pos(self, a):
        k = self.at.lst[a]
        if k[0] == 's':
            return k[1] in self.pnames
        if k[0] == 'E':
            return True
        if k[0] == 'P':
            return self.ppos(k[1])
        return False

    def is_nn(self, a):
        k = self.at.lst[a]
        if self.is_pos(a):
            return True
        if k[0] == 's':
            return k[1] in self.nnames
        if k[0] == 'abs':
            return True
        if k[0] == 'P':
            return self.pnn(k[1])
        return False

    def mono_nn(self, m):
        for a, e in m:
            if self.is_nn(a):
                continue
            if isinstance(e, Fraction) and e.denominator == 1 and e.numerator % 2 == 0:
                continue
            return False
        return True

    def mono_pos(self, m):
        return all(self.is_pos(a) for a, e in m)

    def pnn(self, p):
        if all(c[0] > 0 and self.mono_nn(m) for m, c in p.t.items()):
            return True
        return self.sos(p)

    def sos(self, p):
        """sum of squares of differences (squared distance)?"""
        # group: x^2 - 2xy + y^2 for disjoint variable pairs
        t = {m: c[0] for m, c in p.t.items()}
        used = set()
        for m, c in list(t.items()):
            if m in used or c >= 0:
                continue
            if len(m) == 2 and m[0][1] == 1 and m[1][1] == 1:
                a = ((m[0][0], Fraction(2)),)
                b = ((m[1][0], Fraction(2)),)
                if t.get(a, 0) >= -c / 2 * (1 - 1e-12) and t.get(b, 0) >= -c / 2 * (1 - 1e-12) and a not in used and b not in used:
                    used |= {m, a, b}
                    continue
            return False
        return all(c > 0 and self.mono_nn(m) for m, c in t.items() if m not in used)

    def ppos(self, p):
        return all(c[0] > 0 and self.mono_nn(m) for m, c in p.t.items()) and any(self.mono_pos(m) for m in p.t)

    # arithmetic ---------------------------------------------------------------------
    def mono(self, d):
        return tuple(sorted(((a, e) for a, e in d.items() if not (isinstance(e, Fraction) and e == 0)), key=lambda x: x[0]))

    def mulmono(self, m, n):
        if not m:
            return n, None
        if not n:
            return m, None
        d = dict(m)
        for a, e in n:
            d[a] = eadd(d[a], e) if a in d else e
        return self.mono(d), None

    def mul(self, a, b):
        if len(a.t) * len(b.t) > self.MAXT:
            raise Undecided('expression swell')
        t = {}
        fix = False
        for m, (c, g) in a.t.items():
            for n, (d, f) in b.t.items():
                k, _ = self.mulmono(m, n)
                v, w = c * d, g * f
                o = t.get(k)
                if o is not None:
                    v, w = o[0] + v, o[1] + w
                t[k] = (v, w)
        t = {k: v for k, v in t.items() if abs(v[0]) > TOL * v[1] and v[1] > 1e-200}
        return self.expand(Pl(t))

    def expand(self, p):
        """rewrite abs^2, sin^2, and integer parts of poly-atom powers"""
        while True:
            bad = None
            for m in p.t:
                for a, e in m:
                    if not isinstance(e, Fraction):
                        continue
                    k = self.at.lst[a]
                    if k[0] in ('abs', 'sin') and e >= 2:
                        bad = (m, a, e)
                        break
                    if k[0] == 'P' and e >= 1:
                        bad = (m, a, e)
                        break
                    if k[0] == 'abs' and e <= -2:
                        bad = (m, a, e)
                        break
                if bad:
                    break
            if not bad:
                return p
            m, a, e = bad
            c = p.t[m]
            t = dict(p.t)
            del t[m]
            rest = dict(m)
            k = self.at.lst[a]
            if k[0] == 'abs':
                s = 2 if e > 0 else -2
                rest[a] = e - s
                f = self.power(k[1], Fraction(s))
            elif k[0] == 'sin':
                rest[a] = e - 2
                co = Pl({((self.at.get(('cos', k[1])), Fraction(2)),): (-1.0, 1.0), (): (1.0, 1.0)})
                f = co
            else:
                n = int(e)
                rest[a] = e - n
                f = self.ipow(k[1], n)
            q = self.mul(Pl({self.mono(rest): c}), f)
            p = padd(Pl(t), q)

    def ipow(self, p, n):
        r = pc(1)
        b = p
        while n:
            if n & 1:
                r = self.mul(r, b)
            n >>= 1
            if n:
                b = self.mul(b, b)
        return r

    def content(self, p):
        """p = c * mono * q, q canonical"""
        ms = list(p.t)
        common = {}
        first = dict(ms[0])
        for a, e in first.items():
            if not isinstance(e, Fraction):
                if all(dict(m).get(a) == e for m in ms):
                    common[a] = e
                continue
            es = [dict(m).get(a, Fraction(0)) for m in ms]
            if all(isinstance(x, Fraction) for x in es):
                lo = min(es)
                if lo != 0:
                    common[a] = lo
        for m in ms[1:]:
            for a, e in m:
                if a not in common and isinstance(e, Fraction) and e < 0:
                    es = [dict(mm).get(a, Fraction(0)) for mm in ms]
                    if all(isinstance(x, Fraction) for x in es):
                        common[a] = min(es)
        inv = self.mono({a: (-e if isinstance(e, Fraction) else emul(Fraction(-1), e)) for a, e in common.items()})
        t = {}
        for m, c in p.t.items():
            k, _ = self.mulmono(m, inv)
            t[k] = c
        lead = max(t, key=lambda m: (len(m) > 0, repr(m)))
        c = t[lead][0]
        q = Pl({m: (x / c, abs(y / c)) for m, (x, y) in t.items()})
        return c, self.mono(common), q

    def power(self, p, e):
        """p^e, e Fraction or Pl"""
        if not p.t:
            if isinstance(e, Fraction) and e > 0:
                return p
            raise Undecided('0^e')
        if isinstance(e, Fraction):
            if e == 0:
                return pc(1)
            if e == 1:
                return p
            if e.denominator == 1 and e > 0:
                return self.ipow(p, int(e))
        if len(p.t) == 1:
            (m, (c, g)), = p.t.items()
            return self.monopow(c, m, e)
        c, m, q = self.content(p)
        i = isinstance(e, Fraction) and e.denominator == 1
        if not i:
            # keep signs inside the atom when the factor is not known nonnegative
            if c < 0 or not self.mono_nn(m):
                sgn = -1.0 if c < 0 else 1.0
                bad = {a: x for a, x in m if not (self.is_nn(a) or (isinstance(x, Fraction) and x.denominator == 1 and x.numerator % 2 == 0))}
                keep = self.mono({a: x for a, x in m if a not in bad})
                q = self.mul(q, Pl({self.mono(bad): (sgn, 1.0)}))
                c, m = abs(c), keep
        f = self.monopow(c, m, e)
        a = self.at.get(('P', q))
        return self.mul(f, self.expand(Pl({((a, e),): (1.0, 1.0)})))

    def monopow(self, c, m, e):
        if isinstance(e, Fraction) and e.denominator == 1:
            return self.expand(Pl({self.mono({a: emul(x, e) for a, x in m}): (c ** int(e), abs(c) ** int(e))}))
        if c < 0:
            a = self.at.get(('P', Pl({m: (c, abs(c))})))
            return Pl({((a, e),): (1.0, 1.0)})
        out = pc(1)
        if c != 1:
            if isinstance(e, Fraction):
                out = pc(c ** float(e))
            else:
                a = self.at.get(('num', '%.9e' % c))
                self.at.lst[a] = ('num', '%.9e' % c)
                # c^e = exp(e log c)
                out = self.expo(self.mul(pc(math.log(c)), e))
        d = {}
        for a, x in m:
            if self.is_nn(a):
                d[a] = emul(x, e)
            elif isinstance(x, Fraction) and x.denominator == 1 and x.numerator % 2 == 0:
                b = self.at.get(('abs', Pl({((a, Fraction(1)),): (1.0, 1.0)})))
                d[b] = eadd(d.get(b, Fraction(0)), emul(x, e))
            else:
                b = self.at.get(('P', Pl({((a, x),): (1.0, 1.0)})))
                d[b] = eadd(d.get(b, Fraction(0)), e)
        return self.expand(self.mul(out, Pl({self.mono(d): (1.0, 1.0)})))

    def expo(self, p):
        """exp(p)"""
        if p.isconst():
            return pc(math.exp(p.const()))
        c = p.t.get(())
        f = pc(1)
        if c:
            f = pc(math.exp(c[0]))
            p = Pl({m: x for m, x in p.t.items() if m != ()})
        # exp(k log x) = x^k
        if len(p.t) == 1:
            (m, (cc, g)), = p.t.items()
            for a, x in m:
                k = self.at.lst[a]
                if k[0] == 'log' and x == 1:
                    rest = Pl({self.mono({b: y for b, y in m if b != a}): (cc, g)})
                    ex = Fraction(rest.const()).limit_denominator(10 ** 6) if rest.isconst() else rest
                    return self.mul(f, self.power(k[1], ex))
        a = self.at.get(('E',))
        return self.mul(f, Pl({((a, p),): (1.0, 1.0)}))

    # conversion ---------------------------------------------------------------------
    def of(self, n):
        r = self.memo.get(n.id)
        if r is not None:
            return r
        st = [n]
        while st:
            x = st[-1]
            if x.id in self.memo:
                st.pop()
                continue
            todo = [y for y in x.a if isinstance(y, N) and y.k == R and y.id not in self.memo]
            if todo:
                st.extend(todo)
                continue
            st.pop()
            self.memo[x.id] = self._of(x)
        return self.memo[n.id]

    def sym(self, key):
        return Pl({((self.at.get(key), Fraction(1)),): (1.0, 1.0)})

    def _of(self, x):
        op = x.op
        g = lambda i: self.memo[x.a[i].id]
        if op == 'rc':
            return pc(x.a[0]) if abs(x.a[0]) > 1e-150 else Pl({})
        if op == 's':
            return self.sym(('s', x.a[0]))
        if op == 'fadd':
            return padd(g(0), g(1))
        if op == 'fsub':
            return padd(g(0), g(1), -1.0)
        if op == 'fneg':
            return padd(Pl({}), g(0), -1.0)
        if op == 'fmul':
            return self.mul(g(0), g(1))
        if op == 'fdiv':
            return self.mul(g(0), self.power(g(1), Fraction(-1)))
        if op == 'call':
            name = x.a[0]
            a = [self.memo[y.id] if isinstance(y, N) and y.k == R else y for y in x.a[1:]]
            return self.app(name, a, x)
        if op == 'i2r':
            return self.sym(('n', x.id))
        if op == 'ite':
            return self.sym(('ite', x.id))
        if op == 'undef':
            return self.sym(('undef', x.id))
        return self.sym(('n', x.id))

    def app(self, name, a, x):
        if name == 'sqrt':
            return self.power(a[0], Fraction(1, 2))
        if name == 'cbrt':
            return self.power(a[0], Fraction(1, 3))
        if name == 'pow':
            e = a[1]
            if e.isconst():
                c = e.const()
                f = Fraction(c).limit_denominator(1000)
                if abs(float(f) - c) < 1e-12:
                    return self.power(a[0], f)
                e = pc(c)
            if a[0].isconst():
                if a[0].const() <= 0:
                    return self.sym(('app', name, tuple(y.key() for y in a)))
                return self.expo(self.mul(pc(math.log(a[0].const())), e))
            return self.power(a[0], e)
        if name == 'exp':
            return self.expo(a[0])
        if name == 'log':
            if len(a[0].t) == 1:
                (m, (c, g)), = a[0].t.items()
                if c > 0 and self.mono_pos(m) and (len(m) > 1 or c != 1 or m and m[0][1] != 1):
                    r = pc(math.log(c))
                    for at, e in m:
                        l = self.sym(('log', Pl({((at, Fraction(1)),): (1.0, 1.0)})))
                        r = padd(r, self.mul(l, e if isinstance(e, Pl) else pc(e)))
                    return r
            return self.sym(('log', a[0]))
        if name == 'log10':
            return self.mul(pc(1 / math.log(10)), self.app('log', a, x))
        if name == 'log2':
            return self.mul(pc(1 / math.log(2)), self.app('log', a, x))
        if name == 'fabs':
            p = a[0]
            if not p.t:
                return p
            if self.pnn(p):
                return p
            c, m, q = self.content(p)
            r = pc(abs(c))
            for at, e in m:
                if self.is_nn(at) or (isinstance(e, Fraction) and e.denominator == 1 and e.numerator % 2 == 0):
                    r = self.mul(r, Pl({((at, e),): (1.0, 1.0)}))
                elif isinstance(e, Fraction) and e.denominator == 1:
                    b = self.at.get(('abs', Pl({((at, Fraction(1)),): (1.0, 1.0)})))
                    r = self.mul(r, Pl({((b, e),): (1.0, 1.0)}))
                else:
                    r = self.mul(r, Pl({((at, e),): (1.0, 1.0)}))
            if q.isconst():
                return r
            if self.pnn(q):
                return self.mul(r, q)
            return self.mul(r, self.sym(('abs', q)))
        if name in ('sin', 'cos', 'tan'):
            p = a[0]
            s = 1.0
            if p.t:
                c, m, q = self.content(p)
                if c < 0:
                    p = padd(Pl({}), p, -1.0)
                    if name != 'cos':
                        s = -1.0
            if name == 'tan':
                return self.mul(pc(s), self.mul(self.sym(('sin', p)), self.power(self.sym(('cos', p)), Fraction(-1))))
            if not p.t:
                return pc(0 if name == 'sin' else 1)
            return self.mul(pc(s), self.sym((name, p)))
        if name == 'hypot':
            return self.power(padd(self.mul(a[0], a[0]), self.mul(a[1], a[1])), Fraction(1, 2))
        return self.sym(('app', name, tuple(y.key() if isinstance(y, Pl) else y.id if isinstance(y, N) else y for y in a)))

    # zero test -----------------------------------------------------------------------
    def clear(self, p):
        """multiply by poly-atoms so that none has a negative exponent, expand integer parts"""
        for _ in range(60):
            if not p.t:
                return p
            lo = {}
            for m in p.t:
                for a, e in m:
                    k = self.at.lst[a][0]
                    if isinstance(e, Fraction) and k == 'P' and e < 0:
                        lo[a] = min(lo.get(a, Fraction(0)), e)
                    if isinstance(e, Fraction) and k == 'abs' and e < 0:
                        lo[a] = min(lo.get(a, Fraction(0)), e)
            if not lo:
                return p
            # clear one atom per round
            a = min(lo, key=lambda z: (len(self.at.lst[z][1].t), z))
            e = lo[a]
            n = -(e.numerator // e.denominator)  # ceil(-e)
            t = Pl({})
            for m, c in p.t.items():
                d = dict(m)
                d[a] = eadd(d.get(a, Fraction(0)), Fraction(n))
                t = padd(t, self.expand(Pl({self.mono(d): c})))
            p = t
        raise Undecided('clear')

    def iszero(self, n):
        return not self.clear(self.of(n)).t

    # comparison canonicalisation ---------------------------------------------------------
    def cmpform(self, a, b):
        """a - b as (key, threshold, dir): sign(a-b) = dir * sign(key - threshold)"""
        p = padd(self.of(a), self.of(b), -1.0)
        if not p.t:
            return None, 0.0, 0
        # clear positive denominators
        for _ in range(20):
            neg = [x for m in p.t for x, e in m if isinstance(e, Fraction) and e < 0 and self.at.lst[x][0] == 'P' and self.ppos(self.at.lst[x][1])]
            if not neg or len(p.t) == 1:
                break
            x = neg[0]
            e = min(dict(m).get(x, Fraction(0)) for m in p.t)
            n = -(e.numerator // e.denominator)
            t = Pl({})
            for m, c in p.t.items():
                d = dict(m)
                d[x] = eadd(d.get(x, Fraction(0)), Fraction(n))
                t = padd(t, self.expand(Pl({self.mono(d): c})))
            p = t
            if not p.t:
                return None, 0.0, 0
        ms = sorted(p.t, key=repr)
        # strip a positive common monomial
        if len(ms) == 1:
            m = ms[0]
            c = p.t[m][0]
            m2 = self.mono({a_: e for a_, e in m if not self.is_pos(a_)})
            if m2 == ():
                return None, 0.0, 1 if c > 0 else -1
            return ('m', m2), 0.0, 1 if c > 0 else -1
        if len(ms) == 2:
            m1, m2 = ms
            if self.mono_pos(m1) and not self.mono_pos(m2):
                m1, m2 = m2, m1
            if self.mono_pos(m2):
                inv = self.mono({a_: (-e if isinstance(e, Fraction) else emul(Fraction(-1), e)) for a_, e in m2})
                q, _ = self.mulmono(m1, inv)
                c1, c2 = p.t[m1][0], p.t[m2][0]
                # c1*q + c2 ; canonical orientation when both positive
                t = -c2 / c1
                d = 1 if c1 > 0 else -1
                if self.mono_pos(m1) and repr(m1) < repr(m2):
                    inv = self.mono({a_: (-e if isinstance(e, Fraction) else emul(Fraction(-1), e)) for a_, e in q})
                    # q vs t, both positive side: q>t <=> 1/q < 1/t when t>0
                    if t > 0:
                        q, t, d = inv, 1 / t, -d
                # take roots of perfect powers
                if q and all(isinstance(e, Fraction) for _, e in q):
                    from math import gcd
                    g = 0
                    den = 1
                    for _, e in q:
                        den = den * e.denominator // gcd(den, e.denominator)
                    for _, e in q:
                        g = gcd(g, int(abs(e * den)))
                    pw = Fraction(g, den)
                    if pw != 1 and all(self.is_nn(a_) for a_, _ in q) and t >= 0:
                        q = self.mono({a_: e / pw for a_, e in q})
                        t = t ** (1 / float(pw))
                return ('m', q), t, d
        # general: non-constant part, normalised by positive scalings
        common = {}
        for a_ in {x for m in ms for x, _ in m}:
            if self.is_pos(a_):
                es = [dict(m).get(a_, Fraction(0)) for m in ms]
                if all(isinstance(e, Fraction) for e in es):
                    lo = min(es)
                    if lo != 0:
                        common[a_] = -lo
        if common and () not in p.t:
            t = {}
            for m, c in p.t.items():
                k, _ = self.mulmono(m, self.mono(common))
                t[k] = c
            p = Pl(t)
        c0 = p.t.get((), (0.0, 0.0))[0]
        rest = {m: c for m, c in p.t.items() if m != ()}
        lead = min(rest, key=repr)
        s = rest[lead][0]
        key = Pl({m: (c / s, abs(g / s)) for m, (c, g) in rest.items()})
        return ('p', key), -c0 / s, 1 if s > 0 else -1


# ---------------------------------------------------------------------------- numeric
def evalf(n, env, memo=None):
    memo = {} if memo is None else memo
    st = [n]
    while st:
        x = st[-1]
        if x.id in memo:
            st.pop()
            continue
        if x.op == 'ite':
            c = x.a[0]
            if c.id not in memo:
                st.append(c)
                continue
            y = x.a[1] if memo[c.id] else x.a[2]
            if y.id not in memo:
                st.append(y)
                continue
            memo[x.id] = memo[y.id]
            st.pop()
            continue
        todo = [y for y in x.a if isinstance(y, N) and y.id not in memo]
        if todo:
            st.extend(todo)
            continue
        st.pop()
        memo[x.id] = _ev(x, [memo[y.id] if isinstance(y, N) else y for y in x.a], env)
    return memo[n.id]


def _ev(x, a, env):
    op = x.op
    if op in ('rc', 'c'):
        return a[0]
    if op == 's':
        if a[0] not in env:
            env[a[0]] = env['?'](a[0], x.k)
        return env[a[0]]
    try:
        if op == 'fadd':
            return a[0] + a[1]
        if op == 'fsub':
            return a[0] - a[1]
        if op == 'fmul':
            return a[0] * a[1]
        if op == 'fdiv':
            return a[0] / a[1]
        if op == 'fneg':
            return -a[0]
        if op == 'call':
            n = a[0]
            if n in E._MATH:
                return float(E._MATH[n](a[1]))
            if n == 'pow':
                v = a[1] ** a[2]
                return v if not isinstance(v, complex) else float('nan')
            if n == 'atan2':
                return math.atan2(a[1], a[2])
            if n == 'hypot':
                return math.hypot(a[1], a[2])
            if n in ('fmod', 'frem'):
                return math.fmod(a[1], a[2])
            key = ('app', n) + tuple('%.8e' % (v + 0.0) for v in a[1:])
            if key not in env:
                env[key] = random.Random(repr(key)).uniform(0.3, 1.7)
            return env[key]
    except (ZeroDivisionError, OverflowError, ValueError):
        return float('nan')
    if op == 'fcmp_lt':
        return a[0] < a[1]
    if op == 'fcmp_eq':
        return a[0] == a[1]
    if op == 'not':
        return not a[0]
    if op == 'and' and x.k == I(1):
        return a[0] and a[1]
    if op == 'undef':
        return float('nan')
    w = None
    if x.k != R and isinstance(x.k, tuple):
        w = x.k[1]
        m = E.mask(w)
        try:
            if op == 'zext':
                return a[0]
            if op == 'trunc':
                return int(a[0]) & m
            if op == 'sext':
                sw = x.a[0].k[1]
                return (a[0] - (1 << sw) if a[0] >> (sw - 1) else a[0]) & m
            if op in ('add', 'sub', 'mul', 'or', 'xor', 'and'):
                return {'add': a[0] + a[1], 'sub': a[0] - a[1], 'mul': a[0] * a[1], 'or': int(a[0]) | int(a[1]), 'xor': int(a[0]) ^ int(a[1]), 'and': int(a[0]) & int(a[1])}[op] & m
            if op == 'shl':
                return (a[0] << a[1]) & m
            if op == 'lshr':
                return a[0] >> a[1]
            if op in ('udiv', 'urem') and a[1]:
                return a[0] // a[1] if op == 'udiv' else a[0] % a[1]
            if op in ('sdiv', 'srem') and a[1]:
                g = lambda v: v - (1 << w) if v >> (w - 1) else v
                u, v = g(a[0]), g(a[1])
                q = abs(u) // abs(v) * (1 if (u < 0) == (v < 0) else -1)
                return (q if op == 'sdiv' else u - q * v) & m
            if op == 'r2i':
                return int(a[0]) & m if a[0] == a[0] else 0
            if op == 'icmp_eq':
                return a[0] == a[1]
            if op == 'icmp_ult':
                return a[0] < a[1]
            if op == 'icmp_slt':
                sw = x.a[0].k[1]
                f = lambda v: v - (1 << sw) if v >> (sw - 1) else v
                return f(a[0]) < f(a[1])
        except Exception:
            return 0
    if op == 'i2r':
        v = a[0]
        if isinstance(v, bool):
            v = int(v)
        sw = x.a[0].k[1]
        if a[1] == 'sitofp' and v >> (sw - 1):
            v -= 1 << sw
        return float(v)
    key = ('n', x.op) + tuple(a)
    if key not in env:
        env[key] = env['?'](repr(key), x.k)
    return env[key]


# ---------------------------------------------------------------------------- derivative
def diff(n, wrt, memo=None):
    """d n / d symbol-node wrt (gates differentiated piecewise)"""
    memo = {} if memo is None else memo
    st = [n]
    while st:
        x = st[-1]
        if x.id in memo:
            st.pop()
            continue
        todo = [y for y in x.a if isinstance(y, N) and y.k == R and y.id not in memo]
        if todo:
            st.extend(todo)
            continue
        st.pop()
        memo[x.id] = _diff(x, wrt, lambda i: memo[x.a[i].id])
    return memo[n.id]


def _diff(x, wrt, d):
    if x is wrt:
        return rc(1)
    op = x.op
    f = E.fbin
    if op in ('rc', 's', 'undef', 'i2r'):
        return rc(0)
    if op in ('fadd', 'fsub'):
        return f(op, d(0), d(1))
    if op == 'fneg':
        return E.fneg(d(0))
    if op == 'fmul':
        return f('fadd', f('fmul', d(0), x.a[1]), f('fmul', x.a[0], d(1)))
    if op == 'fdiv':
        if E.isr(d(1)) and d(1).a[0] == 0:
            return f('fdiv', d(0), x.a[1])
        return f('fdiv', f('fsub', f('fmul', d(0), x.a[1]), f('fmul', x.a[0], d(1))), f('fmul', x.a[1], x.a[1]))
    if op == 'ite':
        return ite(x.a[0], d(1), d(2))
    if op == 'call':
        n = x.a[0]
        a = x.a[1]
        if all(E.isr(d(i)) and d(i).a[0] == 0 for i in range(1, len(x.a)) if isinstance(x.a[i], N) and x.a[i].k == R):
            return rc(0)
        if n == 'sqrt':
            return f('fdiv', d(1), f('fmul', rc(2), x))
        if n == 'exp':
            return f('fmul', d(1), x)
        if n == 'log':
            return f('fdiv', d(1), a)
        if n == 'sin':
            return f('fmul', d(1), E.call('cos', [a]))
        if n == 'cos':
            return E.fneg(f('fmul', d(1), E.call('sin', [a])))
        if n == 'fabs':
            return f('fmul', d(1), f('fdiv', x, a))
        if n == 'asinh':
            return f('fdiv', d(1), E.call('sqrt', [f('fadd', rc(1), f('fmul', a, a))]))
        if n == 'atan':
            return f('fdiv', d(1), f('fadd', rc(1), f('fmul', a, a)))
        if n == 'tanh':
            return f('fmul', d(1), f('fsub', rc(1), f('fmul', x, x)))
        if n == 'pow':
            b = x.a[2]
            db = d(2)
            t1 = f('fmul', f('fmul', b, E.call('pow', [a, f('fsub', b, rc(1))])), d(1))
            if E.isr(db) and db.a[0] == 0:
                return t1
            return f('fadd', t1, f('fmul', f('fmul', x, E.call('log', [a])), db))
        if n == 'cbrt':
            return f('fdiv', d(1), f('fmul', rc(3), f('fmul', x, x)))
    raise Undecided('derivative of ' + op + ' ' + str(x.a[0]))


# ---------------------------------------------------------------------------- cases
class Ctx:
    """known facts: per canonical key an open interval or a point; opaque booleans"""

    def __init__(self):
        self.iv = {}
        self.desc = []

    def copy(self):
        c = Ctx()
        c.iv = dict(self.iv)
        c.desc = list(self.desc)
        return c


def leafcond(exprs):
    """an undecided condition that itself contains no gate"""
    memo = {}

    def has(n):
        # contains ite below
        st = [n]
        while st:
            x = st[-1]
            if x.id in memo:
                st.pop()
                continue
            if x.op == 'ite':
                memo[x.id] = True
                st.pop()
                continue
            todo = [y for y in x.a if isinstance(y, N) and y.id not in memo]
            if todo:
                st.extend(todo)
                continue
            memo[x.id] = any(memo[y.id] for y in x.a if isinstance(y, N))
            st.pop()
        return memo[n.id]
    seen = set()
    st = list(exprs)
    while st:
        x = st.pop()
        if not isinstance(x, N) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == 'ite':
            c = x.a[0]
            for l in prim(c):
                if not has(l):
                    return l
            st.append(c)
            st.extend([x.a[1], x.a[2]])
            continue
        if x.k == I(1) and x.op not in ('c',):
            for l in prim(x):
                if not has(l):
                    return l
        st.extend(y for y in x.a if isinstance(y, N))
    return None


def prim(c):
    if c.op == 'not' or (c.op == 'and' and c.k == I(1)):
        for x in c.a:
            yield from prim(x)
    elif c.op == 'ite' and c.k == I(1):
        for x in c.a:
            yield from prim(x)
    elif not isc(c):
        yield c


def cases(alg, exprs, ctx=None, skip_eq=True, limit=4000, hyps=(), prune=None):
    """enumerate the feasible regions of all gates; yields (ctx, gate-free exprs)"""
    count = [0]

    def feasible(ctx, key, t, s):
        """may sign(key - t) be s?"""
        lo, hi, pt = ctx.iv.get(key, (None, None, None))
        if lo is None and pt is None and key[0] == 'm' and alg.mono_nn(key[1]):
            lo = -1e-300 if not alg.mono_pos(key[1]) else 0.0
        if lo is None and pt is None and key[0] == 'p' and alg.pnn(key[1]):
            lo = -1e-300
        eps = 1e-12 * max(1.0, abs(t))
        if pt is not None:
            d = pt - t
            return s == (0 if abs(d) <= eps else 1 if d > 0 else -1)
        if s == 0:
            return not (lo is not None and t <= lo + eps * (lo != 0)) and not (hi is not None and t >= hi - eps)
        if s > 0:
            return not (hi is not None and t >= hi - eps)
        return not (lo is not None and t <= lo + (eps if lo > 0 or lo < -1e-200 else 0))

    def add(ctx, key, t, s):
        lo, hi, pt = ctx.iv.get(key, (None, None, None))
        if s == 0:
            pt = t
        elif s > 0:
            lo = t if lo is None else max(lo, t)
        else:
            hi = t if hi is None else min(hi, t)
        ctx.iv[key] = (lo, hi, pt)

    def rec(ctx, exprs, hyps):
        c = leafcond(list(hyps) + list(exprs))
        if c is None:
            if any(isc(h) and not h.a[0] for h in hyps):
                return
            count[0] += 1
            if count[0] > limit:
                raise Undecided('too many cases')
            yield ctx, exprs
            return
        form = None
        if c.op in ('fcmp_lt', 'fcmp_eq'):
            try:
                form = alg.cmpform(*c.a)
            except (Undecided, RecursionError, ZeroDivisionError, OverflowError):
                form = None
        if form is not None:
            key, t, d = form
            if key is None:
                v = (d < 0) if c.op == 'fcmp_lt' else (d == 0)
                m = {c.id: TRUE if v else FALSE}
                memo = {}
                yield from rec(ctx, [E.subst(e, m, memo) for e in exprs], [E.subst(e, m, memo) for e in hyps])
                return
            opts = [s for s in (-1, 0, 1) if feasible(ctx, key, t, s)]
            if skip_eq and len(opts) > 1 and 0 in opts:
                opts.remove(0)
            for s in opts:
                c2 = ctx
                if len(opts) > 1:
                    c2 = ctx.copy()
                    add(c2, key, t, s)
                    c2.desc.append((c, s * d))
                    if prune is not None and infeasible(alg, facts(alg, c2) + prune):
                        continue
                v = (s * d < 0) if c.op == 'fcmp_lt' else (s * d == 0)
                m = {c.id: TRUE if v else FALSE}
                memo = {}
                h2 = [E.subst(e, m, memo) for e in hyps]
                if any(isc(h) and not h.a[0] for h in h2):
                    continue
                yield from rec(c2, [E.subst(e, m, memo) for e in exprs], h2)
            return
        for v in (TRUE, FALSE):
            c2 = ctx.copy()
            c2.desc.append((c, v))
            m = {c.id: v}
            memo = {}
            h2 = [E.subst(e, m, memo) for e in hyps]
            if any(isc(h) and not h.a[0] for h in h2):
                continue
            yield from rec(c2, [E.subst(e, m, memo) for e in exprs], h2)
    yield from rec(ctx or Ctx(), list(exprs), list(hyps))


def holds(ctx, memo_env, c, s):
    pass


def region_ok(ctx, env, memo):
    for c, s in ctx.desc:
        if isinstance(s, N):
            if bool(evalf(c, env, memo)) != bool(s.a[0]):
                return False
            continue
        a, b = evalf(c.a[0], env, memo), evalf(c.a[1], env, memo)
        if not (a == a and b == b):
            return False
        if s < 0 and not a < b or s > 0 and not a > b or s == 0 and not abs(a - b) <= 1e-12 * (abs(a) + abs(b)):
            return False
    return True


def default_sampler(rnd, pos, nn, ranges=None):
    def f(name, k):
        if k == R:
            if ranges and name in ranges:
                return rnd.uniform(*ranges[name])
            if name in pos or name in nn:
                return rnd.choice([rnd.uniform(0.1, 1), rnd.uniform(0.5, 3), rnd.uniform(0.01, 8)])
            return rnd.choice([rnd.uniform(-1, 1), rnd.uniform(-3, 3)])
        if isinstance(k, tuple):
            return rnd.randrange(1 << min(k[1], 16))
        return 0
    return f


class Result:
    def __init__(self, ok, msg='', how='normal form', witness=None):
        self.ok, self.msg, self.how, self.witness = ok, msg, how, witness


def zero(alg, d, ctx, ranges=None, tries=3000, need=6, tol=1e-7, scale=None):
    """is the gate-free expression d identically zero on the region ctx?
    returns Result(ok True/False/None)"""
    nf = None
    try:
        nf = alg.iszero(d)
    except (Undecided, RecursionError, OverflowError):
        nf = None
    if nf:
        return Result(True)
    rnd = random.Random(12345)
    good = 0
    big = 0
    parts = [d]
    if d.op in ('fsub', 'fadd'):
        parts = [d.a[0], d.a[1]]
    for _ in range(tries):
        env = {}
        env['?'] = default_sampler(rnd, alg.pnames, alg.nnames, ranges)
        memo = {}
        try:
            if not region_ok(ctx, env, memo):
                continue
            v = evalf(d, env, memo)
            ps = [evalf(q, env, memo) for q in parts]
        except (OverflowError, ValueError):
            continue
        if v != v or abs(v) == float('inf'):
            continue
        good += 1
        m = max([abs(q) for q in ps if q == q] + [abs(memo.get(y.id, 0)) for q in parts for y in q.a if isinstance(y, N) and y.k == R and y.id in memo and memo[y.id] == memo[y.id]][:8] + [1e-30])
        if abs(v) > tol * m:
            w = {k: x for k, x in env.items() if isinstance(k, str) and k != '?'}
            return Result(False, 'difference %.6g (terms of size %.3g)' % (v, m), 'witness', w)
        if good >= need:
            return Result(True, how='identity test of the extracted formula')
    if good == 0:
        return Result(None, 'no point of the region found')
    return Result(True, how='identity test of the extracted formula (%d points)' % good)


# ---------------------------------------------------------------------------- linear facts of a region
def facts(al, ctx):
    """linear inequalities [(poly, strict)] meaning poly >= 0 (or > 0) that hold in a region"""
    out = []
    for c, s in ctx.desc:
        if isinstance(s, N):
            continue
        try:
            d = padd(al.of(c.a[0]), al.of(c.a[1]), -1.0)
        except (Undecided, RecursionError, ZeroDivisionError, OverflowError):
            continue
        if s > 0:
            out.append((d, True))
        elif s < 0:
            out.append((padd(Pl({}), d, -1.0), True))
        else:
            out.append((d, False))
            out.append((padd(Pl({}), d, -1.0), False))
    return out


def infeasible(al, cons, cap=400):
    """polyhedral projection: the linear constraints (poly, strict) have no common point.
    monomials are the variables; those of known sign contribute it"""
    cs = [({m: c for m, (c, _) in p.t.items()}, st) for p, st in cons]
    vs = {m for c, _ in cs for m in c if m != ()}
    for v in vs:
        if al.mono_nn(v):
            cs.append(({v: 1.0}, al.mono_pos(v)))

    def norm(c):
        mx = max([abs(x) for x in c.values()] or [0])
        return {m: x / mx for m, x in c.items() if abs(x) > 1e-11 * mx} if mx else {}
    vs = sorted(vs, key=lambda v: sum(v in c for c, _ in cs))
    cs = [(norm(c), s) for c, s in cs]
    for v in vs:
        pos = [(c, s) for c, s in cs if c.get(v, 0) > 0]
        neg = [(c, s) for c, s in cs if c.get(v, 0) < 0]
        rest = [(c, s) for c, s in cs if not c.get(v, 0)]
        if len(pos) * len(neg) + len(rest) > cap:
            return False
        seen = {(tuple(sorted((m, round(x, 9)) for m, x in c.items())), s) for c, s in rest}
        for c1, s1 in pos:
            for c2, s2 in neg:
                k = {}
                for m, x in c1.items():
                    k[m] = k.get(m, 0.0) + x / c1[v]
                for m, x in c2.items():
                    k[m] = k.get(m, 0.0) - x / c2[v]
                k.pop(v, None)
                k = norm({m: x for m, x in k.items() if abs(x) > 1e-10})
                t = (tuple(sorted((m, round(x, 9)) for m, x in k.items())), s1 or s2)
                if t not in seen:
                    seen.add(t)
                    rest.append((k, s1 or s2))
        cs = rest
        for c, s in cs:
            if not [m for m in c if m != ()]:
                k = c.get((), 0.0)
                if k < 0 or (s and k <= 0):
                    return True
    return any(not [m for m in c if m != ()] and (c.get((), 0.0) < 0 or s and c.get((), 0.0) <= 0) for c, s in cs)


def implied(al, ctx, e, extra=()):
    """e >= 0 follows from the linear facts of the region"""
    neg = padd(Pl({}), al.of(e), -1.0)
    return infeasible(al, facts(al, ctx) + [(al.of(x), st) for x, st in extra] + [(neg, True)])
