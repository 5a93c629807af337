"""helpers shared by the checks"""
from .expr import *
from . import expr as E, alg, build, report, bdd
from .interp import Interp, State, Incomplete, Obj, kind, undef, zero as kzero
from .ir import Module, callee
from .report import Check, Part, pmap, finish

DR = build.ROOT + '/drivers/'


def f(op, a, b):
    return E.fbin({'+': 'fadd', '-': 'fsub', '*': 'fmul', '/': 'fdiv'}[op], a, b)


def add(*xs):
    r = rc(0)
    for x in xs:
        r = f('+', r, x)
    return r


def sub(a, b):
    return f('-', a, b)


def mul(*xs):
    r = rc(1)
    for x in xs:
        r = f('*', r, x)
    return r


def div(a, b):
    return f('/', a, b)


def sqrt(a):
    return E.call('sqrt', [a])


def rpow(a, b):
    return E.call('pow', [a, b if isinstance(b, N) else rc(b)])


def dot(a, b):
    return add(*[mul(x, y) for x, y in zip(a, b)])


def rs(n):
    return sym(n, R)


def rvec(n, d):
    return [sym(n + 'xyz'[i], R) for i in range(d)]


def outs(it, st, p, n, k=R, size=8):
    return [it.load(st, padd(p, ic(size * i, 64)), size, k) for i in range(n)]


class Run:
    """one module plus a chain of analysed calls on one state"""

    def __init__(self, m, **kw):
        self.m = m
        self.it = Interp(m, **kw)
        self.st = State()

    def __call__(self, name, *args):
        r = self.it.run(name, list(args), self.st)
        if r is None:
            raise Incomplete(name + ' never returns')
        self.st, v = r
        return v

    def arr(self, vals, name='in'):
        return self.it.symarr(self.st, name, vals)

    def out(self, n, name='out', size=8):
        return self.it.alloc(self.st, name, n * size)

    def get(self, p, n, k=R, size=8):
        return outs(self.it, self.st, p, n, k, size)


def identity(al, pairs, ranges=None, hyps=(), skip_eq=True, tol=1e-7, limit=4000, prune=None):
    """all (name, lhs, rhs) equal on every region of their gates.
    returns (ok, detail, how, regions)"""
    ds = [sub(a, b) for _, a, b in pairs]
    bad, und, n = [], 0, 0
    how = set()
    for ctx, es in alg.cases(al, ds, hyps=hyps, skip_eq=skip_eq, limit=limit, prune=prune):
        n += 1
        if len(bad) >= 2:
            break
        for (name, _, _), e in zip(pairs, es):
            if E.isr(e) and e.a[0] == 0:
                how.add('normal form')
                continue
            r = alg.zero(al, e, ctx, ranges, tol=tol)
            if r.ok is None:
                und += 1
            elif r.ok:
                how.add(r.how.split(' (')[0])
            else:
                bad.append('%s: %s%s%s' % (name, r.msg, ' where ' + region(ctx) if ctx.desc else '', ' e.g. ' + wit(r.witness) if r.witness else ''))
    if bad:
        return False, '; '.join(bad[:3]), 'witness', n
    if und and not how:
        return None, '%d undecided regions' % und, '', n
    return True, '%d regions' % n + (', %d without sample points' % und if und else ''), '+'.join(sorted(how)), n


def region(ctx):
    o = []
    for c, s in ctx.desc:
        if isinstance(s, N):
            o.append(('' if s.a[0] else 'not ') + E.show(c, 4))
        else:
            o.append('%s %s %s' % (E.show(c.a[0], 4), {-1: '<', 0: '==', 1: '>'}[s], E.show(c.a[1], 4)))
    return ' and '.join(o)


def wit(w):
    return ', '.join('%s=%.6g' % (k, v) if isinstance(v, float) else '%s=%s' % (k, v) for k, v in sorted(w.items(), key=lambda x: str(x[0]))[:12])


def where(m, name):
    """source location of the first defined function whose demangled name starts with name"""
    for fn in m.fns.values():
        if not fn.decl and (fn.dem.startswith(name) or (' ' + name) in fn.dem):
            return '%s:%s' % (fn.file.split('|')[-1].replace(build.REPO + '/', ''), fn.line)
    return name


def canon(al, c, memo, hyp):
    """Boolean expression over canonical comparison atoms"""
    r = memo.get(c.id)
    if r is not None:
        return r
    if isc(c):
        r = c
    elif c.op in ('fcmp_lt', 'fcmp_eq'):
        try:
            key, t, d = al.cmpform(*c.a)
        except (alg.Undecided, RecursionError):
            key = c.id
            t = d = None
        if d is None:
            r = c
        elif key is None:
            r = TRUE if ((d < 0) if c.op == 'fcmp_lt' else (d == 0)) else FALSE
        else:
            nm = '%r|%r' % (key, t)
            pos, z = sym('pos ' + nm, E.I(1)), sym('zero ' + nm, E.I(1))
            hyp.add(bnot(band(pos, z)))
            r = z if c.op == 'fcmp_eq' else (pos if d < 0 else band(bnot(pos), bnot(z)))
    elif c.op == 'not':
        r = bnot(canon(al, c.a[0], memo, hyp))
    elif c.op == 'and' and c.k == E.I(1):
        r = band(canon(al, c.a[0], memo, hyp), canon(al, c.a[1], memo, hyp))
    elif c.op == 'ite' and c.k == E.I(1):
        a, b, d = (canon(al, x, memo, hyp) for x in c.a)
        r = bor(band(a, b), band(bnot(a), d))
    else:
        r = c
    memo[c.id] = r
    return r


def opaque(al, e, quantities, regimes=(), n=60):
    """names for the places of e that compute a known quantity, however they are written.
    quantities: (formula, its name); found by an identity test at n points, among which each of the regimes is least"""
    import random
    rnd = random.Random(5)
    base = alg.default_sampler(rnd, al.pnames, al.nnames)
    cand, least = None, [0] * len(regimes)
    for _ in range(n):
        env, memo = {'?': base}, {}
        try:
            qs = [alg.evalf(q, env, memo) for q, _ in quantities]
            rs_ = [alg.evalf(q, env, memo) for q in regimes]
        except (OverflowError, ValueError, ZeroDivisionError):
            continue
        if rs_:
            least[rs_.index(min(rs_))] += 1
        if cand is None:
            cand = [{x.id: x for x in E.walk([e]) if x.k == R and x.op not in ('s', 'rc')} for _ in quantities]
        for c, v in zip(cand, qs):
            for i, x in list(c.items()):
                try:
                    y = alg.evalf(x, env, memo)
                except (OverflowError, ValueError, ZeroDivisionError):
                    y = None
                if not (isinstance(y, float) and abs(y - v) <= 1e-12 * abs(v)):
                    del c[i]
    if cand is None or regimes and min(least) < 3:
        return e
    mp = {}
    for c, (_, s) in zip(cand, quantities):
        for i in c:
            mp.setdefault(i, s)
    return E.subst(e, mp) if mp else e


def predicate(al, code, spec, hyp=None, ties=True, n=3000, ranges=None):
    """two truth values over the reals agree: canonical atoms + BDD, else sampled identity test.
    returns (ok, detail, how)"""
    import random
    memo, hs = {}, set()
    x = ibin('xor', canon(al, code, memo, hs), canon(al, spec, memo, hs))
    for h in hs:
        x = band(x, h)
    if hyp is not None:
        x = band(x, canon(al, hyp, memo, hs))
    if bdd.decide(x) == 0:
        return True, 'same Boolean function of the comparisons', 'canonical comparisons + BDD'
    rnd = random.Random(7)
    good = 0
    base = alg.default_sampler(rnd, al.pnames, al.nnames, ranges)

    def grid(name, k):
        if k == R:
            v = rnd.choice([0, 1, 2, 3])
            return float(v) if name in al.nnames else float(v + 1) if name in al.pnames else float(v - 1)
        return base(name, k)
    for i in range(n):
        tie = ties and i % 2
        env = {'?': grid if tie else base}
        m = {}
        try:
            if hyp is not None and not alg.evalf(hyp, env, m):
                continue
            a, b = alg.evalf(code, env, m), alg.evalf(spec, env, m)
        except (OverflowError, ValueError, ZeroDivisionError):
            continue
        good += 1
        if bool(a) != bool(b):
            w = {k: v for k, v in env.items() if k != '?'}
            return False, 'gives %s, required %s for %s' % (bool(a), bool(b), wit(w)), 'witness'
    if not good:
        return None, 'no sample point', ''
    return True, 'agree at %d points of the extracted formulas' % good, 'identity test of the extracted formula'


def nonneg(l, e, hyps=(), strict=False, facts=(), ranges=None, prune=False, skip_eq=True, limit=4000):
    """sign of a real expression on every region: (ok, detail, how); facts: [(expr, strict)] known >= 0 (> 0);
    prune: drop regions whose linear facts contradict each other"""
    import random
    n, bad, und = 0, [], 0
    how = set()
    pr = [(l.of(y), s) for y, s in facts] if prune else None
    for ctx, (x,) in alg.cases(l, [e], hyps=hyps, prune=pr, skip_eq=skip_eq, limit=limit):
        n += 1
        try:
            q = l.of(x)
            if l.ppos(q) or not strict and l.pnn(q):
                how.add('sign of the normal form')
                continue
            fs = alg.facts(l, ctx) + [(l.of(y), s) for y, s in facts]
            if alg.infeasible(l, fs + [(alg.padd(alg.Pl({}), q, -1.0), not strict)]):
                how.add('linear facts of the region')
                continue
        except (alg.Undecided, RecursionError):
            pass
        rnd = random.Random(5)
        good = 0
        for _ in range(3000):
            env = {'?': alg.default_sampler(rnd, l.pnames, l.nnames, ranges)}
            memo = {}
            if not alg.region_ok(ctx, env, memo):
                continue
            if any(alg.evalf(y, env, memo) < 0 for y, _ in facts):
                continue
            v = alg.evalf(x, env, memo)
            if v != v:
                continue
            good += 1
            if v < -1e-12 or strict and v <= 0:
                bad.append('%.5g where %s e.g. %s' % (v, region(ctx), wit({k: v for k, v in env.items() if isinstance(k, str) and k != '?'})))
                break
            if good > 60:
                break
        else:
            und += not good
        how.add('sampled sign of the extracted formula')
        if len(bad) >= 2:
            break
    if bad:
        return False, '; '.join(bad[:2]), 'witness'
    if not n or (und and not how):
        return None, 'no region', ''
    return True, '%d regions' % n, '+'.join(sorted(how))


class Linear:
    """decides comparisons of reals where linear facts [(expr, strict)], meaning expr >= 0 (> 0), hold;
    what they leave open is decided as at one point of the region (values by name), if given"""

    def __init__(self, l, facts, point=None):
        self.l, self.memo, self.point, self.open = l, {}, point, 0
        self.cons = [(l.of(x), s) for x, s in facts]
        if alg.infeasible(l, self.cons):
            raise Incomplete('an empty region is analysed')
        if point and not all(self.at(x) > 0 or not s and self.at(x) >= 0 for x, s in facts):
            raise Incomplete('the point is not in the region')

    def at(self, x):
        return alg.evalf(x, dict(self.point))

    def off(self, x, strict):
        return alg.infeasible(self.l, self.cons + [(self.l.of(x), strict)])

    def __call__(self, c):
        if c.id in self.memo:
            return self.memo[c.id]
        try:
            r = self.go(c)
        except (alg.Undecided, RecursionError, ZeroDivisionError, OverflowError):
            r = None
        if r is None and self.point and c.op.startswith('fcmp') and all(n.a[0] in self.point for n in walk([c]) if n.op == 's'):
            r = bool(self.at(ite(c, rc(1), rc(0))))
            self.open += 1
        self.memo[c.id] = r
        return r

    def plain(self, x):
        """the same without absolute values and gates that the facts decide"""
        while True:
            hit = None
            for n in walk([x]):
                if n.op == 'ite' and n.k == R:
                    q = self(n.a[0])
                    if q is not None:
                        hit = (n, n.a[1] if q else n.a[2])
                elif n.op == 'call' and n.a[0] == 'fabs' and not any(y.op == 'call' and y.a[0] == 'fabs' for y in walk([n.a[1]])):
                    y = n.a[1]
                    q = self(E.fcmp('olt', y, rc(0)))
                    hit = (n, ite(E.fcmp('olt', y, rc(0)), sub(rc(0), y), y) if q is None else sub(rc(0), y) if q else y)
                if hit:
                    break
            if not hit:
                return x
            x = E.subst(x, {hit[0].id: hit[1]}, {})

    def go(self, c):
        if isc(c):
            return bool(c.a[0])
        if c.op == 'not':
            r = self(c.a[0])
            return None if r is None else not r
        if c.op in ('and', 'or') and c.k == E.I(1):
            r = [self(x) for x in c.a]
            if (c.op == 'or') in r:
                return c.op == 'or'
            return None if None in r else c.op == 'and'
        if c.op == 'ite' and c.k == E.I(1):
            q = self(c.a[0])
            r = [self(x) for x in c.a[1:]]
            return r[0] if q else r[1] if q is not None else r[0] if r[0] is r[1] else None
        if c.op in ('fcmp_lt', 'fcmp_eq'):
            a, b = (self.plain(x) for x in c.a)
            if any(n.op in ('ite', 'fabs', 'fmin', 'fmax') or n.op == 'call' and n.a[0] in ('fabs', 'fmin', 'fmax') for n in walk([a, b])):
                got = set()
                for ctx, (d,) in alg.cases(self.l, [sub(b, a)], prune=self.cons):
                    more = alg.facts(self.l, ctx)
                    if not alg.infeasible(self.l, self.cons + more):
                        got.add(self.sign(c.op, d, more))
                return got.pop() if len(got) == 1 else None
            return self.sign(c.op, sub(b, a), [])
        return None

    def sign(self, op, d, more):
        p = self.l.of(d)
        neg = alg.padd(alg.Pl({}), p, -1.0)
        inf = lambda q, s: alg.infeasible(self.l, self.cons + more + [(q, s)])
        if op == 'fcmp_lt':
            return False if inf(p, True) else True if inf(neg, False) else None
        if not p.t:
            return True
        return False if inf(p, False) or inf(neg, False) else True if inf(p, True) and inf(neg, True) else None
