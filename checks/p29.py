"""P29: periodic boundaries."""
import itertools
import random
import re
from checks.sph import *
from checks.p18 import load
from vf.ranks import Fleet, Mismatch
from vf.text import Text

EDGE = ('lo', 'mid', 'hi')
SIDES = 'xyz'


def half(x):
    return mul(rc(0.5), x)


def region_of(D, per, parts, s, L):
    """facts and coordinates of particles whose place relative to the faces is given: name -> per axis (turn, edge)"""
    facts = [(s, True)] + [(x, True) for x in L[:D]] + [(sub(half(L[d]), s), True) for d in range(D) if per[d]]
    xs, pt = {}, {'L' + SIDES[d]: 43.0 + 7 * d for d in range(D)}
    pt.update({'O%d.%s' % (r, q): -3.0 + r for r in range(3) for q in SIDES})
    wide = s.a[0] if E.isr(s) else pt.setdefault(s.a[0], 1.25)
    for k, (n, cl) in enumerate(parts.items()):
        x = []
        for d in range(D):
            y = rs('%s.%s' % (n, SIDES[d]))
            if not per[d]:
                pt[y.a[0]] = 17.0 - 3 * k + d
                x.append(y)
                continue
            t, e = cl[d]
            h = half(L[d])
            pt[y.a[0]] = {'hi': 1, 'lo': -1, 'mid': 0}[e] * (pt['L' + SIDES[d]] / 2 - wide * (.3 + .1 * k)) + (e == 'mid') * (1.1 * k - 2 + d)
            facts += [(add(y, h), True), (sub(h, y), True)]  # exactly on a face either side will do
            up, lo = sub(add(y, s), h), sub(add(y, h), s)  # > 0: reaches the upper face; < 0: reaches the lower face
            neg = lambda q: sub(rc(0), q)
            if e == 'hi':
                facts.append((up, True))
            else:
                facts += [(neg(up), True), (neg(lo), True) if e == 'lo' else (lo, True)]
            x.append(y if t == 0 else add(y, L[d]) if t > 0 else sub(y, L[d]))
        xs[n] = x
    return facts, xs, pt


def images(D, per, n, cl, L):
    """where the particle and its images belong: [(shifted axes, position)]"""
    ax = [d for d in range(D) if per[d] and cl[d][1] != 'mid']
    y = [rs('%s.%s' % (n, SIDES[d])) for d in range(D)]
    out = []
    for k in range(len(ax) + 1):
        for S in itertools.combinations(ax, k):
            out.append((S, [y[d] if d not in S else sub(y[d], L[d]) if cl[d][1] == 'hi' else add(y[d], L[d]) for d in range(D)]))
    return out


class Box(World):
    def __init__(self, m, D, F, r, orc, more=None):
        self.r = r
        ms = dict(Text().models(), **F.models(r))
        ms['omp_get_wtime'] = lambda it, st, a, i: sym('time', R)
        ms.update(more or {})
        super().__init__(m, D, ms=ms)
        self.it.oracle = orc

    def start(self, per, L, parts, xs, more=None):
        """parts of this rank: (name, id)"""
        self('vf_periodic', *([ic(int(per[d]) if d < len(per) else 0, 1) for d in range(3)] + [L[d] if d < len(L) else rs('unused%d' % d) for d in range(3)]))
        self.s = self('vf_new')
        over = {}
        for n, i in parts:
            over[n] = {'x': xs[n], 'id': ic(i, 64), 'type': ic(0, 32)}
            over[n].update((more or {}).get(n, {}))
        arr, self.ds = bodies(self, [n for n, _ in parts], over)
        self('vf_set', self.s, arr, ic(len(parts), 32))

    def held(self):
        n = self('vf_nents', self.s).a[0]
        b = self('vf_ents', self.s)
        return [self.read(padd(b, ic(self.size * k, 64))) for k in range(n)]


def same(orc, x, y):
    """equal wherever the facts hold"""
    if x is y:
        return True
    l, cons = orc.l, orc.cons
    for ctx, (d,) in alg.cases(l, [orc.plain(sub(x, y))], prune=cons):
        if l.of(d).t and not alg.infeasible(l, cons + alg.facts(l, ctx)):
            return abs(orc.at(x) - orc.at(y)) < 1e-9 if all(n.a[0] in orc.point for n in walk([x, y]) if n.op == 's') else False
    return True


def compare(orc, D, ranks, got, want, optional=()):
    """particles of every rank against what belongs there. want[r]: name -> [(S, position)]"""
    bad = {k: [] for k in ('wrap', 'images', 'copies', 'names')}
    ids = {}
    own = {i for w in ranks for i in [E.sval(d['id']) for d in w.ds]}
    for w, bs in zip(ranks, got):
        src = {d['m']: d for d in w.ds}
        left = {(d['m'], S): x for d in w.ds for S, x in want[w.r][str(d['m'].a[0])[:-2]]}
        for b in bs:
            d = src.get(b['m'])
            if d is None:
                bad['copies'].append('rank %d holds a particle of mass %s' % (w.r, E.show(b['m'])))
                continue
            n = str(b['m'].a[0])[:-2]
            i, t = E.sval(b['id']), E.sval(b['type'])
            ids.setdefault(i, []).append(n)
            hit = [k for k, x in left.items() if k[0] is b['m'] and (k[1] == ()) == (t == 0) and all(same(orc, p, q) for p, q in zip(b['x'], x))]
            if not hit:
                bad['wrap' if t == 0 else 'images'].append('%s of %s at (%s)' % ('image' if t else 'particle', n, ', '.join(E.show(q, 4) for q in b['x'])))
                continue
            left.pop(hit[0])
            ch = changed(d, b, ('x', 'id', 'type') if hit[0][1] else ('x',))
            if ch:
                bad['copies'].append('%s of %s differs in %s' % ('image' if t else 'particle', n, ', '.join(NAME[k] for k in ch)))
            if hit[0][1] and i in own:
                bad['names'].append('the image of %s has the identity %s of a particle' % (n, i))
        for (mm, S), x in left.items():
            n = str(mm.a[0])[:-2]
            if (n, S) not in optional:
                bad['images' if S else 'wrap'].append('%s of %s missing at (%s)' % ('image' if S else 'particle', n, ', '.join(E.show(q, 4) for q in x)))
    for i, ns in ids.items():
        if len(ns) > 1:
            bad['names'].append('identity %s is that of %s' % (i, ' and '.join(ns)))
    return bad


RULES = {
    'wrap': 'a particle beyond a periodic face is shifted back by exactly one domain width across that face; no other particle is moved',
    'images': 'each particle has one image for every combination of the faces it is near, shifted by exactly the domain widths, and no other',
    'copies': 'nothing else about a particle changes, and an image is a wall particle that otherwise equals its particle',
    'names': 'no two particles or images of any rank share an identity, and particles keep theirs'}


def wild(p, ws, nm):
    w = {k: v for x in ws for k, v in x.it.wild.items()}
    p.ob('bounds:' + nm, not w, where(ws[0].m, 'boundary::pboundary_generate'), 'nothing is written outside the storage of a variable', '; '.join('%s (%s)' % x for x in w.items()), 'abstract memory')


def place(D, per, split, seed=0):
    """direct: split: per rank the classes of its particles"""
    p = Part()
    m = load(D)
    p.units.append('srt.cc/%dD' % D)
    s, L = rs('halo'), [rs('L' + q) for q in SIDES[:D]]
    names = [['ABCDEF'[sum(map(len, split[:r])) + j] for j in range(len(c))] for r, c in enumerate(split)]
    cls = {n: c for ns, cs in zip(names, split) for n, c in zip(ns, cs)}
    facts, xs, pt = region_of(D, per, cls, s, L)
    l = al(''.join(cls), extra_pos=['halo'] + ['L' + q for q in SIDES])
    orc = Linear(l, facts, pt)
    F = Fleet(len(split))
    ws = [Box(m, D, F, r, orc) for r in range(len(split))]
    order = sorted(cls)
    random.Random(seed).shuffle(order)
    ids = {n: i for i, n in enumerate(order)}

    def body(w):
        w.start(per, L, [(n, ids[n]) for n in names[w.r]], xs)
        w('vf_images', w.s, s)
        a = w.held()
        w('vf_noimages', w.s)
        return a, w.held()
    nm = '%dD:%s:%s' % (D, ''.join(SIDES[d] if per[d] else '-' for d in range(D)), '|'.join(' '.join(''.join('%s%s' % ({-1: '-', 0: '', 1: '+'}[t], e[0]) for t, e in c) for c in cs) for cs in split))
    at = where(m, 'boundary::pboundary_generate')
    try:
        out = F.go([(lambda w=w: body(w)) for w in ws])
        bad = F.problems
    except Mismatch as e:
        out, bad = None, [str(e)]
    for w in ws:
        p.used(w.it, m)
    wild(p, ws, nm)
    p.ob('exchange:' + nm, out is not None and not bad, at, 'all ranks end and agree on their communication', '; '.join(bad), 'co-interpretation of all ranks')
    if out is None:
        return p
    want = [{n: images(D, per, n, cls[n], L) for n in ns} for ns in names]
    b = compare(orc, D, ws, [o[0] for o in out], want)
    for k in RULES:
        p.ob('%s:%s' % (k, nm), not b[k], at, RULES[k], '; '.join(b[k][:2]), 'value graphs in the region; linear arithmetic')
    want = [{n: images(D, per, n, cls[n], L)[:1] for n in ns} for ns in names]
    b = compare(orc, D, ws, [o[1] for o in out], want)
    b = sum(b.values(), [])
    p.ob('discard:' + nm, not b, where(m, 'boundary::pboundary_clean'), 'discarding the images leaves exactly the particles', '; '.join(b[:2]), 'value graphs in the region; linear arithmetic')
    return p


REACH = 1.0  # the largest smoothing length in the iterations below


def iteration(D, per, split, walls):
    """a whole iteration up to the sort: images are renewed before the domain and keys are computed, wide enough for the largest smoothing length of all ranks"""
    p = Part()
    m = load(D)
    p.units.append('srt.cc/%dD' % D)
    L = [rs('L' + q) for q in SIDES[:D]]
    names = [['ABCDEF'[sum(map(len, split[:r])) + j] for j in range(len(c))] for r, c in enumerate(split)]
    cls = {n: c for ns, cs in zip(names, split) for n, c in zip(ns, cs)}
    facts, xs, pt = region_of(D, per, cls, rc(REACH), L)
    # nothing lies between the reach and well beyond it, where images may or may not be made
    for n in cls:
        for d in range(D):
            if per[d] and cls[n][d][1] == 'mid':
                y = rs('%s.%s' % (n, SIDES[d]))
                facts += [(sub(half(L[d]), add(y, rc(4 * REACH))), True), (sub(add(y, half(L[d])), rc(4 * REACH)), True)]
    facts += [(sub(x, rc(20 * REACH)), True) for x in L]
    l = al(''.join(cls), extra_pos=['L' + q for q in SIDES])
    orc = Linear(l, facts, pt)
    F = Fleet(len(split))
    hs = {n: rc(REACH if j == len(cls) - 1 else REACH / 8 * (1 + j)) for j, n in enumerate(sorted(cls))}
    seen = [None] * len(split)
    keyed = [None] * len(split)
    ws = []

    def models(r):
        def sort(it, st, a, i):
            w = ws[r]
            w.st = st
            seen[r] = w.held()
            return None

        def key(it, st, a, i):
            keyed[r] = (keyed[r] or 0) + 1
            it.store(st, a[0], 8, sym('key%d' % keyed[r], E.I(64)))
            return None
        ms, found = {}, set()
        for f in m.fns.values():
            d = f.dem
            for k, x, g in (('psort', r'\bpsort::psort<(?!.*vf_cmp)', sort), ('build', r'tree_topology<.*>::build_tree<', lambda it, st, a, i: None), ('clean', r'tree_topology<.*>::clean\(\)$', lambda it, st, a, i: None), ('key', r'(morton|hilbert)_curve_u<.*>::\1_curve_u\(std::array<', key), ('show', r'operator<<\(std::ostream&, .*tree_topology<|std::operator<<.*tree_topology', lambda it, st, a, i: a[0])):
                if re.search(x, d):
                    ms[f.name] = g
                    found.add(k)
        if not {'psort', 'build', 'clean', 'key'} <= found:
            raise Incomplete('steps of an iteration not found: %s' % sorted(found))
        return ms
    ws += [Box(m, D, F, r, orc, models(r)) for r in range(len(split))]
    ids = {n: i for i, n in enumerate(sorted(cls))}

    def body(w):
        ps = [(n, ids[n]) for n in names[w.r]]
        old = [('O%d' % w.r, 90 + w.r)] if walls else []
        w.start(per, L, ps + old, dict(xs, **{n: [rs('%s.%s' % (n, q)) for q in SIDES[:D]] for n, _ in old}), dict({n: {'h': hs[n]} for n in names[w.r]}, **{n: {'type': ic(1, 32), 'h': rc(REACH)} for n, _ in old}))
        if old:
            w.ds.pop()
        w('vf_update', w.s)
        return E.sval(w('vf_nlocal', w.s)), E.sval(w('vf_ntotal', w.s))
    nm = '%dD:%s:%s%s' % (D, ''.join(SIDES[d] if per[d] else '-' for d in range(D)), '|'.join(' '.join(''.join('%s%s' % ({-1: '-', 0: '', 1: '+'}[t], e[0]) for t, e in c) for c in cs) for cs in split), ':renewed' if walls else '')
    at = where(m, 'body_system<double, %dul>::update_iteration' % D)
    try:
        out = F.go([(lambda w=w: body(w)) for w in ws])
        bad = F.problems
    except Mismatch as e:
        out, bad = None, [str(e)]
    for w in ws:
        p.used(w.it, m)
    wild(p, ws, nm)
    p.ob('steps:' + nm, out is not None and not bad and None not in seen, at, 'all ranks reach the redistribution', '; '.join(bad), 'co-interpretation of all ranks')
    if out is None or None in seen:
        return p
    want = [{n: images(D, per, n, cls[n], L) for n in ns} for ns in names]
    b = compare(orc, D, ws, [[dict(x, key=[d for d in w.ds if d['m'] is x['m']][0]['key']) if any(d['m'] is x['m'] for d in w.ds) else x for x in o] for w, o in zip(ws, seen)], want)
    for k in RULES:
        p.ob('step-%s:%s' % (k, nm), not b[k], at, 'before the particles are redistributed: ' + RULES[k], '; '.join(b[k][:2]), 'value graphs in the region; linear arithmetic')
    tot = sum(len(x) for x in seen)
    ok = all(o[0] == len(x) and o[1] == tot for o, x in zip(out, seen))
    p.ob('step-count:' + nm, ok or not any(per), at, 'the numbers of local and of all particles include the images', '%s of %s' % (out, [len(x) for x in seen]), 'constant propagation')
    return p


def jobs():
    out, its = [], []
    for D in (1, 2, 3):
        rnd = random.Random(D)
        ax = [(t, e) for t in (0, 1, -1) for e in EDGE]
        masks = list(itertools.product((True, False), repeat=D))
        for per in masks:
            if D == 1:
                cs = [(a,) for a in ax]
            else:
                cs = [tuple((rnd.choice((0, 0, 1, -1)), e) for e in es) for es in itertools.product(EDGE, repeat=D)]
                cs += [tuple(rnd.choice(ax) for _ in range(D)) for _ in range(9)]
                if not all(per):
                    cs = rnd.sample(cs, 8)
                rnd.shuffle(cs)
            for j in range(0, len(cs), 3):
                g = cs[j:j + 3]
                out.append((D, per, [g] if j % 2 else [g[:1], g[1:]] if len(g) > 1 else [g]))
        for j, per in enumerate(masks):
            pick = lambda e: tuple((rnd.choice((0, 1, -1)) if per[d] else 0, e if rnd.random() < .7 else rnd.choice(EDGE)) for d in range(D))
            its.append((D, per, [[pick('hi'), pick('mid')], [pick('lo')]], j % 2 == 0 and any(per)))
            its.append((D, per, [[pick('lo')], [pick('mid'), pick('hi')]], j % 2 == 1 and any(per)))
    return out, its


def run(kind, *a):
    return place(*a) if kind == 'place' else iteration(*a)


def p29():
    ck = Check('P29', 'The treatment of periodic boundaries is interpreted on all ranks side by side for particles in every region of the domain (beyond, near or away from each face), with positions, widths and the layer of images unknown: comparisons are decided by the linear facts of the region. Positions, images, contents and identities are compared with the images of a periodic domain; the iteration is interpreted up to the redistribution.',
               ['real arithmetic', 'a particle is at most one domain width outside; the layer of images is thinner than half the domain', 'particles exactly on a face or exactly at the edge of the layer are left out', 'up to three particles on up to two ranks stand for any number'])
    build.irdump()
    build.scratch()
    build.overlay()
    a, b = jobs()
    for q in pmap(run, [('it',) + x for x in b] + [('place',) + x for x in a]):
        ck.extend(q)
    return finish(ck, 350)
