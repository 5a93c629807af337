"""P31: neighbour search; P43: pairs in the gravity traversal."""
from checks.p42 import *
from checks.p42 import loc
from vf import alg

RULES31 = {
    'search': 'the search matches every message between ranks and ends',
    'once': 'every particle of a rank is given its neighbours exactly once, and no other rank\'s particle is',
    'found': 'every particle within the mean of the two smoothing lengths is found, exactly once and as it is, whatever cells the geometry lets the search skip',
    'around': 'a search around a point finds every particle within the radius exactly once, and none beyond both the radius and its own smoothing length',
    'only': 'with nothing skipped, a particle is a neighbour only within the larger of the two smoothing lengths',
}


class Seeker(Tree):
    """Answers the geometric questions of the search from their contracts (decided under P11 and P12).  The pairs
    of the graph are within the mean of their smoothing lengths.  least: a question is answered yes only when that
    forces it.  most: nothing is skipped."""

    def __init__(self, m, D, F, r, keys):
        self.dim, self.keys = D, keys
        self.graph, self.least, self.got, self.odd = set(), True, [], []
        g = 'flecsi::topology::tree_geometry<double, %dul>::' % D
        ms = {g + 'intersects_box_box(*': self.boxes, g + 'intersects_sphere_box(*': self.sphere, g + 'within_distance2(*': self.near, 'vfm_found': self.found}
        super().__init__(m, D, F, r, ms)

    # ---- what an argument stands for
    def pt(self, it, st, p):
        v = [it.load(st, padd(p, ic(8 * j, 64)), 8, R) for j in range(self.dim)]
        if all(x.op == 's' for x in v) and len({x.a[0][:-1] for x in v}) == 1 and [x.a[0][-1] for x in v] == list('xyz'[:self.dim]):
            return tuple(v[0].a[0][:-1].rsplit('.', 1))
        raise Incomplete('a geometric question about ' + E.show(v[0], 5))

    def num(self, it, st, x):
        return it.load(st, x, 8, R) if x.k == E.P else x

    def holds(self, b):
        """the particles a point or cell stands for"""
        if b[0] == 'N':
            k = int(b[1:], 16)
            return [n for n, q in self.keys.items() if below(k, q, self.dim)]
        return [b]

    def samples(self):
        rnd = random.Random(11)
        for _ in range(4):
            h = {n: rnd.uniform(.2, 3) for n in self.keys}
            h['Q'] = rnd.uniform(.2, 3)
            memo = {}

            def env(nm):
                if nm not in memo:
                    b, f = nm.rsplit('.', 1)
                    if f == 'h':
                        memo[nm] = h[b]
                    elif f == 'r':
                        memo[nm] = rnd.uniform(.1, 2)
                    elif f == 'lap':
                        memo[nm] = max(h[n] for n in self.holds(b)) * rnd.uniform(1, 1.5) + rnd.uniform(0, .5) * (rnd.random() < .5)
                    else:
                        memo[nm] = rnd.uniform(-1, 1)
                return memo[nm]
            yield h, env

    def reach(self, x, need):
        """the extent x is at least need(h, env) for all sizes; and equal"""
        ge = eq = True
        for h, env in self.samples():
            e = Env(env)
            try:
                v = alg.evalf(x, e)
            except AttributeError:
                raise Incomplete('an extent of ' + E.show(x, 8))
            w = need(h, env)
            ge = ge and v >= w * (1 - 1e-12)
            eq = eq and abs(v - w) <= 1e-12 * abs(w)
        return ge, eq

    def pairs(self, A, B):
        return [(a, b) for a in A for b in B if a == b or (a, b) in self.graph]

    # ---- the questions
    def boxes(self, it, st, a, i):
        p = [self.pt(it, st, x) for x in a]
        if [f for _, f in p] != ['lo', 'hi', 'lo', 'hi'] or p[0][0] != p[1][0] or p[2][0] != p[3][0]:
            raise Incomplete('intersects_box_box is asked about %s' % p)
        return mkbool(not self.least or bool(self.pairs(self.holds(p[0][0]), self.holds(p[2][0]))))

    def sphere(self, it, st, a, i):
        p = [self.pt(it, st, x) for x in a[:3]]
        if [f for _, f in p[:2]] != ['lo', 'hi'] or p[0][0] != p[1][0] or p[2][1] != 'x':
            raise Incomplete('intersects_sphere_box is asked about %s' % p)
        if not self.least:
            return mkbool(True)
        r, k = self.num(it, st, a[3]), p[2][0]
        # the box has half the smoothing length to spare around each particle
        ok = any(self.reach(r, lambda h, env: 0 if b == k else h[k] / 2)[0] for _, b in self.pairs([k], self.holds(p[0][0])))
        return mkbool(ok)

    def near(self, it, st, a, i):
        p = [self.pt(it, st, x) for x in a[:2]]
        if [f for _, f in p] != ['x', 'x']:
            raise Incomplete('within_distance2 is asked about %s' % p)
        x, y = p[0][0], p[1][0]
        r = self.num(it, st, a[2])
        if x[0] == 'N' and y[0] == 'N':
            return mkbool(not self.least or bool(self.pairs(self.holds(x), self.holds(y))))
        if 'N' in (x[0], y[0]):
            if y[0] != 'N':
                x, y = y, x
            if not self.least:
                return mkbool(True)
            far = (lambda h, n: 0 if x == n else h['Q'] if x == 'Q' else (h[x] + h[n]) / 2)
            return mkbool(any(self.reach(r, lambda h, env: far(h, n) + env(y + '.r'))[0] for _, n in self.pairs([x], self.holds(y))))
        both = (x, y) in self.graph or x == y
        if self.least:
            return mkbool(both and (x == y or self.reach(r, lambda h, env: h[x if y == 'Q' else y] if 'Q' in (x, y) else (h[x] + h[y]) / 2)[0]))
        if not self.reach(r, lambda h, env: max(h[x], h[y]))[1]:
            self.odd.append('%s and %s are compared within %s' % (x, y, E.show(r, 5)))
        return mkbool(both)

    def found(self, it, st, a, i):
        def what(p):
            st2, k = self.one(it, st, 'vf_bkey', p)
            st3, d = self.one(it, st, 'vf_id', p)
            n = [n for n, q in self.keys.items() if q == k.a[0]]
            return n[0] if n and int(n[0][1:]) == d.a[0] else '?%s' % E.show(d)
        k = what(a[0]) if a[0].op == 'ptr' else 'Q'
        self.got.append((k, [what(it.load(st, padd(a[1], ic(8 * j, 64)), 8, E.P)) for j in range(a[2].a[0])]))
        return None


def mkbool(b):
    return ic(1 if b else 0, 1)


class Env:
    """values of symbols by name"""

    def __init__(self, f):
        self.f = f

    def __getitem__(self, k):
        return self.f(k)

    def get(self, k, d=None):
        return self.f(k)

    def __contains__(self, k):
        return True


def layout(D, n, R, seed):
    ks = shape(D, n, seed)
    c = splits(n, R, seed)
    return [[('p%d' % i, ks[i]) for i in range(c[j], c[j + 1])] for j in range(R)]


def graphs(n, seed):
    """sets of interacting pairs: one pair each, a matching, a random graph"""
    rnd = random.Random(seed * 31 + n)
    ps = ['p%d' % i for i in range(n)]
    out = []
    if n > 1:
        far = rnd.sample(ps, n)
        out.append([tuple(far[:2])])
        out.append([(ps[i], ps[n - 1 - i]) for i in range(n // 2)])
        out.append([(a, b) for a in ps for b in ps if a < b and rnd.random() < .4])
    else:
        out.append([])
    return [{x for a, b in g for x in ((a, b), (b, a))} for g in out]


def search(D, n, R, seed, lazy, group):
    p = Part()
    m = load(D)
    p.units.append('tree.cc/%dD' % D)
    parts = layout(D, n, R, seed)
    keys = {nm: k for ps in parts for nm, k in ps}
    gs = graphs(n, seed)
    runs = [(g, True) for g in gs] + [(gs[-1], False)]

    def then(w):
        w('vf_groups', w.t, ic(group, 32))
        out = []
        for g, least in runs:
            w.graph, w.least, w.got = g, least, []
            w('vf_neighbours', w.t)
            out.append(w.got)
        if R == 1:
            for g, least in runs:
                some = {k for a, b in g for k in (a, b)} or set(list(keys)[:1])
                w.graph, w.least, w.got = {x for k in sorted(some)[::2] for x in ((k, 'Q'), ('Q', k))}, least, []
                w('vf_around', w.t, w.arr(rvec('Q.x', D)), rs('Q.h'))
                around.append((w.graph, w.got))
        return out
    around = []
    out, bad, F, ws = grow(m, D, parts, lambda F, r: Seeker(m, D, F, r, keys), then, lazy)
    for w in ws:
        p.used(w.it, m)
    nm = '%dD:%d-ranks:%d-particles:%d:groups-of-%d:%s' % (D, R, n, seed, group, 'late' if lazy else 'prompt')
    how = 'co-interpretation of all ranks'
    L = loc(m, 'traversal_sph')
    p.ob('search:' + nm, out is not None and not bad, L, RULES31['search'], '; '.join(bad[:3]) or '%d messages' % F.msgs, how)
    p.stats['messages'] = F.msgs
    if out is None:
        return p
    for j, (g, got) in enumerate(around):
        want = sorted(b for a, b in g if a == 'Q')
        p.ob('around:%s:%d' % (nm, j), len(got) == 1 and sorted(got[0][1]) == want, loc(m, 'find_in_radius'), RULES31['around'], 'found %s, within reach are %s' % (got, want), how)
    for j, (g, least) in enumerate(runs):
        once, fnd = [], []
        for r, ps in enumerate(parts):
            got = out[r][j]
            who = [k for k, _ in got]
            if sorted(who) != sorted(q for q, _ in ps):
                once.append('rank %d searches for %s, it holds %s' % (r, sorted(who), sorted(q for q, _ in ps)))
            for k, e in got:
                want = sorted({k} | {b for a, b in g if a == k})
                if sorted(e) != want:
                    fnd.append('%s of rank %d is given %s, within reach are %s' % (k, r, sorted(e), want))
        p.stats['searches'] = p.stats.get('searches', 0) + n
        what = 'keys %s' % ' '.join('%#o' % k for k in keys.values())
        p.ob('once:%s:%d' % (nm, j), not once, L, RULES31['once'], '; '.join(once[:3]) or what, how)
        if least:
            p.ob('found:%s:%d' % (nm, j), not fnd, L, RULES31['found'], '; '.join(fnd[:3] + ([what] if fnd else [])) or '%d pairs' % (len(g) // 2), how)
        else:
            odd = [x for w in ws for x in w.odd]
            p.ob('only:' + nm, not fnd and not odd, L, RULES31['only'], '; '.join((fnd + odd)[:3]) or '%d pairs' % (len(g) // 2), how)
    return p


RULES43 = {
    'search': 'the traversal matches every message between ranks and ends',
    'pairs': 'every particle of a rank feels every other particle of all ranks exactly once, directly or through one cell containing it, whichever cells are far enough apart; it does not feel itself',
    'asked': 'the opening criterion is asked about two disjoint cells or particles, with the centre and extent of each and the angle given',
    'held': 'what a cell has collected is handed to the particles below it, after everything has been collected',
}


class Puller(Tree):
    """records what acts on what; the opening criterion is answered by an arbitrary rule"""

    def __init__(self, m, D, F, r, keys, rule, seed):
        self.dim, self.keys, self.rule, self.seed = D, keys, rule, seed
        self.acc, self.feels, self.odd, self.late = {}, {}, [], []
        g = 'flecsi::topology::tree_geometry<double, %dul>::' % D
        ms = {g + 'mac(*': self.mac, 'vfm_c2c': self.c2c, 'vfm_p2c': self.p2c, 'vfm_p2p': self.p2p, 'vfm_c2p': self.c2p}
        super().__init__(m, D, F, r, ms)

    pt, num, holds = Seeker.pt, Seeker.num, Seeker.holds

    def width(self, key):
        return rc(1 + random.Random(key * 7 + self.seed).randrange(1000) / 64)

    def mac(self, it, st, a, i):
        x, y = self.pt(it, st, a[0]), self.pt(it, st, a[2])
        if (x[1], y[1]) != ('x', 'x'):
            raise Incomplete('the opening criterion is asked about %s and %s' % (x, y))
        x, y = x[0], y[0]
        for b, v in ((x, self.num(it, st, a[1])), (y, self.num(it, st, a[3]))):
            want = self.width(int(b[1:], 16)) if b[0] == 'N' else rc(0)
            if v is not want:
                self.odd.append('%s is taken to extend %s' % (b, E.show(v, 3)))
        if self.num(it, st, a[4]) is not self.angle:
            self.odd.append('the angle is ' + E.show(self.num(it, st, a[4]), 3))
        if set(self.holds(x)) & set(self.holds(y)):
            self.odd.append('%s and %s overlap' % (x, y))
        return mkbool(self.rule(x, y))

    def cell(self, it, st, p):
        return 'N%x' % self.one(it, st, 'vf_node_key', p)[1].a[0]

    def part(self, it, st, p):
        k, d = self.one(it, st, 'vf_bkey', p)[1], self.one(it, st, 'vf_id', p)[1]
        n = [n for n, q in self.keys.items() if q == k.a[0]]
        return n[0] if n and int(n[0][1:]) == d.a[0] else '?%s' % E.show(d)

    def parts_(self, it, st, p, n):
        return [self.part(it, st, it.load(st, padd(p, ic(8 * j, 64)), 8, E.P)) for j in range(n.a[0])]

    def c2c(self, it, st, a, i):
        self.acc.setdefault(self.cell(it, st, a[0]), []).append(self.cell(it, st, a[1]))

    def p2c(self, it, st, a, i):
        self.acc.setdefault(self.cell(it, st, a[0]), []).append(self.part(it, st, a[1]))

    def feel(self, p, q):
        self.feels.setdefault(p, []).extend(x for b in q for x in self.holds(b))

    def p2p(self, it, st, a, i):
        for k in self.parts_(it, st, a[0], a[1]):
            q = self.parts_(it, st, a[3], a[4])
            self.feel(k, [x for x in q if x != k] + ([self.cell(it, st, a[2])] if a[2].op == 'ptr' else []))

    def c2p(self, it, st, a, i):
        c = self.cell(it, st, a[0])
        below_ = self.parts_(it, st, a[1], a[2])
        self.late.append((c, list(self.acc.get(c, []))))
        for k in below_:
            if k not in self.holds(c):
                self.odd.append('%s is handed what cell %s has collected' % (k, c))
            self.feel(k, self.acc.get(c, []))


def rule(kind_, seed):
    lv = lambda b: int(b[1:], 16).bit_length() if b[0] == 'N' else 99
    rnd = lambda x, y: random.Random('%s|%s|%d' % (x, y, seed)).random()
    both = lambda x, y: not (x[0] == 'p' and y[0] == 'p')
    return {'never': lambda x, y: False, 'always': both, 'one-sided': lambda x, y: both(x, y) and rnd(x, y) < .5,
            'mutual': lambda x, y: both(x, y) and rnd(min(x, y), max(x, y)) < .35, 'leaves': lambda x, y: both(x, y) and lv(x) + lv(y) > 30}[kind_]


def gravity(D, n, R, seed, lazy, kind_):
    p = Part()
    m = load(D)
    p.units.append('tree.cc/%dD' % D)
    parts = layout(D, n, R, seed)
    keys = {nm: k for ps in parts for nm, k in ps}

    def then(w):
        w.angle = rs('angle')
        w('vf_gravity', w.t, w.angle)
        return w.feels
    out, bad, F, ws = grow(m, D, parts, lambda F, r: Puller(m, D, F, r, keys, rule(kind_, seed), seed), then, lazy)
    for w in ws:
        p.used(w.it, m)
    nm = '%dD:%d-ranks:%d-particles:%d:%s:%s' % (D, R, n, seed, kind_, 'late' if lazy else 'prompt')
    how = 'co-interpretation of all ranks'
    L = loc(m, 'traversal_fmm')
    p.ob('search:' + nm, out is not None and not bad, L, RULES43['search'], '; '.join(bad[:3]) or '%d messages' % F.msgs, how)
    p.stats['messages'] = F.msgs
    if out is None:
        return p
    bad, held = [], []
    for r, ps in enumerate(parts):
        for k, _ in ps:
            got = sorted(out[r].get(k, []))
            want = sorted(x for x in keys if x != k)
            if got != want:
                bad.append('%s of rank %d feels %s' % (k, r, got))
        for k in out[r]:
            if k not in dict(ps):
                bad.append('rank %d moves %s of another rank' % (r, k))
        for c, x in ws[r].late:
            if x != ws[r].acc.get(c, []):
                held.append('cell %s is handed out before it is complete' % c)
    what = 'keys %s' % ' '.join('%#o' % k for k in keys.values())
    p.ob('pairs:' + nm, not bad, L, RULES43['pairs'], '; '.join(bad[:3] + ([what] if bad else [])) or what, how)
    odd = [x for w in ws for x in w.odd]
    p.ob('asked:' + nm, not odd, L, RULES43['asked'], '; '.join(odd[:3]) or what, how)
    p.ob('held:' + nm, not held, L, RULES43['held'], '; '.join(held[:3]) or what, how)
    p.stats['pairs'] = n * (n - 1)
    return p


WHAT = ['Distinct particle keys; at least one particle per rank.',
        'Key layouts, rank counts (1-7) and message schedules are enumerated from a table; positions, masses and sizes are unknown.',
        'Blocking sends wait for their receiver; a probe for any message offers those of each sender in order.']


def p31():
    ck = Check('P31', 'Tree construction and neighbour search are interpreted on all ranks of a run side by side with unknown positions and smoothing lengths. The geometric questions of the search are answered from their contracts (decided under P11 and P12): once yes only where the designated pairs within the mean of their smoothing lengths force it, for all smoothing lengths consistent with the extents asked for; once skipping nothing. What each particle is given is compared with the designated pairs.',
               WHAT + ['The extents compared are evaluated at sampled sizes where they are not syntactically equal.'])
    preload()
    jobs = []
    for D in (1, 2, 3):
        for n, g in ((1, 128), (2, 128), (5, 1), (6, 3), (8, 128), (9, 4)):
            jobs.append((D, n, 1, n + D, 0, g))
        for R, n, lazy, g in ((2, 4, 0, 128), (2, 7, 3, 2), (3, 6, 0, 3), (3, 9, 2, 128), (4, 8, 4, 1), (5, 9, 0, 2), (6, 9, 3, 128), (7, 8, 2, 2)):
            jobs.append((D, n, R, R + n + D, lazy, g))
        for j in range(14):
            R = 2 + j % 5
            jobs.append((D, 7 + j % 3, R, 20 + j, 2 + j % 4, (128, 1, 2)[j % 3]))
        if thorough():
            jobs += [(D, n, R, s, lazy, g) for s in range(40, 46) for R, n in ((1, 14), (2, 9), (3, 12), (5, 13), (7, 9), (9, 12)) for lazy, g in ((0, 2), (3, 128))]
    jobs.sort(key=lambda j: -j[1] * j[2])
    for q in pmap(search, jobs):
        ck.extend(q)
    return finish(ck, 300)


def p43():
    ck = Check('P43', 'Tree construction and gravity traversal are interpreted on all ranks of a run side by side with unknown positions and masses; the opening criterion is answered by arbitrary rules (never, always, one-sided, mutual, only deep down) and the extents of the cells are arbitrary. What each particle feels through cells and directly is compared with all other particles.', WHAT)
    preload()
    jobs = []
    kinds = ('never', 'always', 'one-sided', 'mutual', 'leaves')
    for D in (3, 2):
        for j, (R, n) in enumerate(((1, 1), (1, 2), (1, 5), (1, 8), (1, 9), (2, 2), (2, 6), (2, 9), (3, 5), (3, 8), (4, 8), (5, 9), (6, 7), (7, 9))):
            for kd in (kinds if D == 3 else kinds[j % 5:j % 5 + 1]):
                jobs.append((D, n, R, R + n + D, (0, 3, 2)[(j + len(kd)) % 3], kd))
        if thorough():
            jobs += [(D, n, R, s, lazy, kd) for s in range(40, 44) for R, n in ((1, 14), (2, 11), (3, 12), (5, 12), (8, 11)) for lazy in (0, 3) for kd in kinds]
    jobs.sort(key=lambda j: -j[1] * j[2])
    for q in pmap(gravity, jobs):
        ck.extend(q)
    return finish(ck, 200)


class Both(Seeker):
    """searches and gravity in turn"""
    acc = None

    def __init__(self, m, D, F, r, keys, rule_, seed):
        self.rule, self.seed, self.n = rule_, seed, 0
        Seeker.__init__(self, m, D, F, r, keys)
        g = 'flecsi::topology::tree_geometry<double, %dul>::' % D
        no = lambda it, st, a, i: None
        self.it.models.update({'vfm_c2c': no, 'vfm_p2c': no, 'vfm_p2p': no, 'vfm_c2p': no})
        self.it.mprefix.append((g + 'mac(', self.mac))

    width = Puller.width

    def mac(self, it, st, a, i):
        return mkbool(self.rule(self.pt(it, st, a[0])[0], self.pt(it, st, a[2])[0]))


def session(D, n, R, seed, lazy):
    p = Part()
    m = load(D)
    p.units.append('tree.cc/%dD' % D)
    parts = layout(D, n, R, seed)
    keys = {nm: k for ps in parts for nm, k in ps}
    gs = graphs(n, seed)
    order = [('vf_neighbours', gs[0]), ('vf_gravity', None), ('vf_neighbours', gs[2]), ('vf_reset', None), ('vf_gravity', None), ('vf_gravity', None), ('vf_reset', None), ('vf_neighbours', gs[1])]
    kinds = ('one-sided', 'mutual', 'leaves')

    def then(w):
        w('vf_groups', w.t, ic(1 + seed % 4, 32))
        for what, g in order:
            w.graph = g or set()
            if what == 'vf_gravity':
                w(what, w.t, rs('angle'))
            else:
                w(what, w.t)
        return True
    out, bad, F, ws = grow(m, D, parts, lambda F, r: Both(m, D, F, r, keys, rule(kinds[seed % 3], seed), seed), then, lazy)
    for w in ws:
        p.used(w.it, m)
    nm = '%dD:%d-ranks:%d-particles:%d:%d' % (D, R, n, seed, lazy)
    how = 'co-interpretation of all ranks'
    p.ob('ends:' + nm, out is not None and all(out), loc(m, 'wait_comms_'), 'every rank ends a sequence of tree exchanges, searches and gravity traversals', '; '.join(bad[:3]) or '%d messages' % F.msgs, how)
    p.ob('matched:' + nm, not bad, loc(m, 'wait_comms_'), 'every message is received by its addressee with the length sent, every request is completed, and no buffer changes before its message has left', '; '.join(bad[:3]) or '%d messages' % F.msgs, how)
    p.stats['messages'] = F.msgs
    p.stats['collectives'] = F.colls
    return p


def p36():
    ck = Check('P36', 'A sequence of tree exchange, neighbour searches, gravity traversals and rebuilding is interpreted on all ranks of a run side by side under a table of schedules (how late waiting messages are noticed, in which order those of different senders arrive); blocking sends wait for their receivers. A state in which some rank can never continue, a message or request left over, a length that does not match and a buffer changed too early are reported.',
               WHAT)
    preload()
    jobs = [(D, n, R, R + n + lazy, lazy) for D in (1, 2, 3) for R, n, lazy in ((1, 5, 0), (2, 2, 2), (2, 6, 0), (2, 7, 3), (3, 3, 2), (3, 7, 5), (3, 8, 0), (4, 6, 2), (4, 9, 3), (5, 7, 4), (5, 8, 0), (6, 8, 2), (7, 9, 3), (8, 9, 0))]
    if thorough():
        jobs += [(D, n, R, s, lazy) for D in (1, 2, 3) for s in (60, 61) for R, n in ((2, 10), (3, 11), (5, 12), (9, 12)) for lazy in (0, 2, 3, 5, 9)]
    jobs.sort(key=lambda j: -j[1] * j[2])
    for q in pmap(session, jobs):
        ck.extend(q)
    return finish(ck, 80)
