"""P22: exchanges between ranks deliver every message to its address."""
import random
from vf.common import *
from vf.ranks import Fleet, Mismatch

U = 'mpisph/utils.h'


def load(D):
    return build.compile(DR + 'com.cc', D, ['vf_*'])


class Rank(Run):
    """one rank of a fleet"""

    def __init__(self, m, F, r, more=None, **kw):
        super().__init__(m, models=dict(F.models(r), **(more or {})), **kw)
        self.r = r

    def items(self, tags, size):
        """an array of records; record t holds the symbols t.a, t.b and t.c"""
        o = self.it.alloc(self.st, 'items', size * max(1, len(tags)))
        for i, t in enumerate(tags):
            for off, n, k in ((0, 8, R), (8, 8, E.I(64)), (16, 4, E.I(32))):
                self.it.store(self.st, padd(o, ic(size * i + off, 64)), n, sym('%s.%d' % (t, off), k))
        return o

    def tags(self, o, n, size):
        """which record stands at each place; None where parts of different records are mixed"""
        out = []
        for i in range(n):
            try:
                vs = [self.it.load(self.st, padd(o, ic(size * i + off, 64)), s, k) for off, s, k in ((0, 8, R), (8, 8, E.I(64)), (16, 4, E.I(32)))]
            except Incomplete:
                out.append('unset')
                continue
            ns = [v.a[0].rsplit('.', 1) if v.op == 's' and '.' in str(v.a[0]) else (None, None) for v in vs]
            ok = all(b == str(off) for (a, b), off in zip(ns, (0, 8, 16))) and len({a for a, b in ns}) == 1
            out.append(ns[0][0] if ok else '?')
        return out

    def ints(self, vals):
        return self.it.symarr(self.st, 'ints', [ic(v, 32) for v in vals], size=4) if False else self.i32(vals)

    def i32(self, vals):
        o = self.it.alloc(self.st, 'ints', 4 * max(1, len(vals)))
        for i, v in enumerate(vals):
            self.it.store(self.st, padd(o, ic(4 * i, 64)), 4, ic(v, 32))
        return o

    def geti(self, o, n):
        vs = [self.it.load(self.st, padd(o, ic(4 * i, 64)), 4, E.I(32)) for i in range(n)]
        if not all(isc(v) for v in vs):
            raise Incomplete('a count is not known')
        return [v.a[0] for v in vs]


def fleet(m, n, body, more=None, **kw):
    """run body(rank) on n ranks; returns (results, complaints, fleet, ranks)"""
    F = Fleet(n)
    ws = [Rank(m, F, r, more(F, r) if more else None, **kw) for r in range(n)]
    try:
        out = F.go([(lambda w=w: body(w)) for w in ws])
    except Mismatch as e:
        return None, ['the ranks cannot continue: %s' % e] + F.problems, F, ws
    return out, list(F.problems), F, ws


def patterns(n, seed):
    """count tables: how many records rank r has for rank q"""
    rnd = random.Random(seed * 100 + n)
    yield 'none', [[0] * n for _ in range(n)]
    yield 'one each', [[1] * n for _ in range(n)]
    yield 'to self', [[2 if q == r else 0 for q in range(n)] for r in range(n)]
    yield 'to next', [[1 + r % 2 if q == (r + 1) % n else 0 for q in range(n)] for r in range(n)]
    yield 'all to last', [[r + 1 if q == n - 1 else 0 for q in range(n)] for r in range(n)]
    yield 'first to all', [[q + 1 if r == 0 else 0 for q in range(n)] for r in range(n)]
    yield 'skewed', [[(2 * r + 3 * q + r * q) % 4 for q in range(n)] for r in range(n)]
    yield 'no self', [[0 if q == r else (r + 2 * q) % 3 for q in range(n)] for r in range(n)]
    yield 'random', [[rnd.choice((0, 0, 1, 2, 3)) for q in range(n)] for r in range(n)]


def loc(m, what):
    return where(m, 'mpi_utils::' + what) if any((' mpi_utils::' + what) in f.dem or f.dem.startswith('mpi_utils::' + what) for f in m.fns.values() if not f.decl) else U


def vectors(n):
    """each vector exchange for n ranks under every count pattern"""
    p = Part()
    m = load(1)
    p.units.append('com.cc/1D')
    w0 = Run(m, models=Fleet(1).models(0))
    size = w0('vf_item_size').a[0]
    Lg, La = where(m, 'void mpi_utils::mpi_allgatherv<'), where(m, 'void mpi_utils::mpi_alltoallv<')
    Lp = where(m, 'void mpi_utils::mpi_alltoallv_p2p<')
    # every rank gives a list, all ranks get all lists
    pats = [('none', [0] * n), ('one each', [1] * n), ('first', [3 if r == 0 else 0 for r in range(n)]), ('last', [2 if r == n - 1 else 0 for r in range(n)]), ('growing', list(range(1, n + 1))), ('holes', [(r * 2 + 1) % 3 for r in range(n)])]
    for nm, cs in pats:
        want = ['r%d.%d' % (r, i) for r in range(n) for i in range(cs[r])]

        def body(w):
            s = w.items(['r%d.%d' % (w.r, i) for i in range(cs[w.r])], size)
            o = w.it.alloc(w.st, 'got', size * (len(want) + 4))
            k, kc, cn = w.i32([-1]), w.i32([-1]), w.it.alloc(w.st, 'counts', 4 * (n + 4))
            w('vf_gather', s, ic(cs[w.r], 32), o, k, cn, kc)
            k, kc = w.geti(k, 1)[0], w.geti(kc, 1)[0]
            return k, w.tags(o, min(k, len(want) + 4), size), w.geti(cn, min(kc, n + 4))
        out, bad, F, ws = fleet(m, n, body)
        for w in ws:
            p.used(w.it, m)
        tag = '%s:%d ranks' % (nm, n)
        p.ob('gather:' + tag, out is not None and not bad, Lg, 'all ranks take part alike and the pieces fit', '; '.join(bad[:3]) or '%d collectives' % F.colls, 'co-interpretation of all ranks')
        if out is not None:
            x = [r for r, (k, t, c) in enumerate(out) if t != want]
            p.ob('gathered:' + tag, not x, Lg, 'every rank ends with the records of all ranks in rank order', 'rank %d has %s' % (x[0], out[x[0]][1]) if x else '%d records' % len(want), 'provenance')
            x = [r for r, (k, t, c) in enumerate(out) if c != cs]
            p.ob('counts:' + tag, not x, Lg, 'and the number of records of each rank', 'rank %d has %s' % (x[0], out[x[0]][2]) if x else str(cs), 'constant propagation')
    # every rank sends each rank its own records
    for fn, L, kind_ in (('vf_all2all', La, 'flat'), ('vf_p2p', Lp, 'flat'), ('vf_bucket', Lp, 'bucket')):
        for nm, T in patterns(n, 5):
            def body(w):
                r = w.r
                mine = ['r%d-%d.%d' % (r, q, i) for q in range(n) for i in range(T[r][q])]
                s = w.items(mine, size)
                cnt = w.i32(T[r])
                room = sum(T[q][r] for q in range(n)) + 4
                o = w.it.alloc(w.st, 'got', size * room)
                if kind_ == 'flat':
                    k = w.i32([-1])
                    w(fn, s, ic(len(mine), 32), cnt, ic(n, 32), o, k)
                    k = w.geti(k, 1)[0]
                    return w.tags(o, min(k, room), size), None
                ns = w.it.alloc(w.st, 'ns', 4 * (n + 4))
                w(fn, s, cnt, ic(n, 32), o, ns)
                ns = w.geti(ns, n)
                return w.tags(o, min(sum(ns), room), size), ns
            out, bad, F, ws = fleet(m, n, body)
            for w in ws:
                p.used(w.it, m)
            tag = '%s:%s:%d ranks' % (fn[3:], nm, n)
            p.ob('exchange:' + tag, out is not None and not bad, L, 'every message finds its receiver, with equal lengths, and every request is completed', '; '.join(bad[:3]) or '%d messages, %d collectives' % (F.msgs, F.colls), 'co-interpretation of all ranks')
            if out is not None:
                x = []
                for r in range(n):
                    want = ['r%d-%d.%d' % (q, r, i) for q in range(n) for i in range(T[q][r])]
                    if out[r][0] != want or out[r][1] is not None and out[r][1] != [T[q][r] for q in range(n)]:
                        x.append('rank %d has %s, not %s' % (r, out[r][0], want))
                p.ob('delivered:' + tag, not x, L, 'every rank ends with exactly the records addressed to it, in the order of their senders', '; '.join(x[:2]) or 'all records', 'provenance')
    return p


def reductions(D):
    p = Part()
    m = load(D)
    p.units.append('com.cc/%dD' % D)
    n = 3
    for fn in sorted(f for f in m.fns if f.startswith(('vf_min_', 'vf_max_', 'vf_sum_'))):
        op, ty = fn[3:].split('_', 1)
        cnt = D if ty == 'point' else 1
        sz, k = {'double': (8, R), 'point': (8, R), 'float': (4, R), 'uint64_t': (8, E.I(64)), 'int': (4, E.I(32))}[ty]
        vs = [[sym('%s%d.%d' % (ty, r, j), k) for j in range(cnt)] for r in range(n)]

        def body(w):
            o = w.it.alloc(w.st, 'value', sz * cnt)
            for j, v in enumerate(vs[w.r]):
                w.it.store(w.st, padd(o, ic(sz * j, 64)), sz, v)
            w(fn, o)
            return [w.it.load(w.st, padd(o, ic(sz * j, 64)), sz, k) for j in range(cnt)]
        out, bad, F, ws = fleet(m, n, body)
        for w in ws:
            p.used(w.it, m)
        L = loc(m, 'reduce_' + op)
        p.ob('reduce:%s:%dD' % (fn[3:], D), out is not None and not bad and F.colls == 1, L, 'one reduction that all ranks enter', '; '.join(bad[:3]) or '%d collectives' % F.colls, 'co-interpretation of all ranks')
        if out is None:
            continue
        good = True
        for j in range(cnt):
            x = vs[0][j]
            for r in range(1, n):
                x = F.combine(op, x, vs[r][j], k)
            good = good and all(out[r][j] is x for r in range(n))
        p.ob('value:%s:%dD' % (fn[3:], D), good, L, 'every rank ends with the %s over all ranks of each component' % {'min': 'minimum', 'max': 'maximum', 'sum': 'sum'}[op], E.show(out[0][0]), 'value graph identity')
    return p


def p22():
    ck = Check('P22', 'Every exchange helper is interpreted on all ranks of a run side by side, with unknown record contents: matching, lengths, completion and where each record ends up are decided for each rank count and each pattern of message counts (blocking sends wait for their receiver, requests that are never started or completed are reported).')
    for q in pmap(vectors, [(n,) for n in (1, 2, 3, 4, 5, 7)]):
        ck.extend(q)
    for q in pmap(reductions, [(1,), (2,), (3,)]):
        ck.extend(q)
    return finish(ck, 300)
