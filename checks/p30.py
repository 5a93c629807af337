"""P30: coordinate transforms and the displacement of particles by weighted Voronoi tessellation."""
import math
import random
from checks.sph import *
from vf.mpi import Mpi
from vf.ranks import Fleet, Mismatch
from vf.text import Text

RAD = 'wvt_radius', 'sphere_radius'


def load(D):
    return build.compile(DR + 'wvt.cc', D, ['vf_*'], flags=build.STRINGS)


def loc(m, f):
    return where(m, 'wvt::' + f)


def cstr(w, s):
    return w.it.symarr(w.st, 'str', [ic(ord(c), 8) for c in s] + [ic(0, 8)])


class Point:
    """comparisons the code makes are decided as at one place of the region under analysis; the formulas stay general"""

    def __init__(self, env, spread=0.02):
        self.env = env
        self.rng = {k: (v - spread * abs(v), v + spread * abs(v)) for k, v in env.items()}
        self.seen = 0

    def __call__(self, c):
        if c.k != E.I(1) or not any(n.op.startswith('fcmp') for n in walk([c])):
            return None
        env = dict(self.env)
        env['?'] = lambda name, k: self.miss(name)
        self.seen += 1
        v = alg.evalf(ite(c, rc(1), rc(0)), env)
        return bool(v)

    def miss(self, name):
        if not str(name).startswith('@'):
            raise Incomplete('a comparison depends on ' + str(name))
        return 1.3


def world(m, D, pt=None, ms=None, mpi=None):
    md = dict(Text().models(), **(mpi or Mpi()).models())
    md['vfm_W'] = lambda it, st, a, i: E.call('W', a)
    md['vfm_rho'] = lambda it, st, a, i: profile(a[0])
    md.update(ms or {})
    w = World(m, D, ms=md, pins={'param::_wvt_method': 'init', 'param::_wvt_boundary': 'init'})
    w.it.fninit = True
    w.it.oracle = pt
    return w


def profile(x):
    """any profile: a polynomial stands for it"""
    return sub(sub(rs('k0'), mul(rs('k1'), x, x)), mul(rs('k2'), x, x, x))


def norm(v):
    return sqrt(dot(v, v))


def eq(p, l, name, at, rule, pairs, pt):
    if pt:
        ok, dd, how = agree(pairs, pt)
    else:
        ok, dd, how, n = identity(l, pairs)
    p.ob(name, ok, at, rule, dd, how)


def agree(pairs, pt, n=8):
    """identity of formulas without gates, tested at places of the region"""
    rnd = random.Random(11)
    bad = {}
    for k in range(n):
        env = {x: rnd.uniform(*r) for x, r in sorted(pt.rng.items())}
        env['?'] = lambda name, k: rnd.uniform(.5, 2)
        memo = {}
        for nm, a, b in pairs:
            x, y = alg.evalf(a, env, memo), alg.evalf(b, env, memo)
            m = max([abs(x), abs(y)] + [abs(memo.get(z.id, 0)) for q in (a, b) for z in walk([q]) if z.k == R and z.op in ('fadd', 'fsub', 'fmul')][:40])
            if not abs(x - y) <= 1e-9 * (m + 1e-300):
                bad[nm] = '%s is %.9g instead of %.9g' % (nm, x, y)
    return not bad, '; '.join(bad.values()) or '%d places' % n, 'identity test of the extracted formula'


def places(D):
    """octants and axes-free points"""
    out = []
    for s in range(1 << D):
        out.append({'A.' + 'xyz'[i]: (1 if s >> i & 1 else -1) * (0.4 + 0.3 * i) for i in range(D)})
    return out


def transforms(D):
    p = Part()
    m = load(D)
    p.units.append('wvt.cc/%dD' % D)
    l = alg.Alg()
    for env in places(D):
        pt = Point(env)
        tag = '%s:%dD' % (''.join('+' if v > 0 else '-' for v in env.values()), D)
        w = world(m, D, pt)
        x = rvec('A.', D)
        o, q = w.out(D), w.out(D)
        w('vf_polar', w.arr(x), o)
        s = w.get(o, D)
        w('vf_cart', w.arr(s), x[0], q)
        y = w.get(q, D)
        eq(p, l, 'radius:' + tag, loc(m, 'cartesian_to_spherical'), 'the first coordinate is the distance from the centre', [('r', s[0], norm(x))], pt)
        eq(p, l, 'inverse:' + tag, loc(m, 'spherical_to_cartesian'), 'the conversions are inverse to each other', [('xyz'[i], y[i], x[i]) for i in range(D)], pt)
        # a scaled radius keeps the direction
        w('vf_cart', w.arr([mul(rs('f'), norm(x))] + s[1:]), x[0], q)
        y = w.get(q, D)
        eq(p, l, 'scale:' + tag, loc(m, 'spherical_to_cartesian'), 'a point with the same angles lies in the same direction', [('xyz'[i], y[i], mul(rs('f'), x[i])) for i in range(D)], pt)
        # the part of an acceleration along the radius is removed
        a = rvec('c.', D)
        w('vf_tangent', w.arr(x), w.arr(a), o)
        t = w.get(o, D)
        eq(p, l, 'tangent:' + tag, loc(m, 'remove_radial_acc'), 'nothing is left along the radius', [('along', dot(t, x), rc(0))] if D > 1 else [('along', t[0], rc(0))], pt)
        if D > 1:
            k = div(dot(a, x), dot(x, x))
            tt = [sub(a[i], mul(k, x[i])) for i in range(D)]
            eq(p, l, 'across:' + tag, loc(m, 'remove_radial_acc'), 'what is left is directed as the part of the acceleration across the radius', [('%d%d' % (i, j), mul(t[i], tt[j]), mul(t[j], tt[i])) for i in range(D) for j in range(i)], pt)
            ok, dd, how = nonneg(l, dot(t, tt), ranges=pt.rng)
            p.ob('sense:' + tag, ok, loc(m, 'remove_radial_acc'), 'and not against it', dd, how)
        p.used(w.it, m)
    return p


# where a particle would end, in units of the sphere: (name, distance it is at, distance without halving, halvings, mirrored)
ENDS = [('inside', .5, .8, 0, False), ('skin', .7, 1.005, 0, True), ('once', .6, 1.3, 1, False), ('twice', .4, 2.1, 2, False), ('thrice', .8, 2.4, 3, True), ('outside', 1.0049, 1.0051, 0, True)]


def moves(D):
    p = Part()
    m = load(D)
    p.units.append('wvt.cc/%dD' % D)
    F = 'wvt_displacement'
    R0 = 2.0
    l = alg.Alg(positive=['wvt_radius', 'sphere_radius', 'A.m', 'k0', 'k1', 'k2', 'sph_eta', 'rho_initial', 'param::_sph_eta', 'param::_rho_initial', 'kernel_width', 'kernels::kernel_width', 'ngb'])
    unit = {1: [1.0], 2: [.6, .8], 3: [2 / 7, 3 / 7, 6 / 7]}[D]
    mu0 = 2.0 ** -8
    for (nm, at0, at1, halv, mir) in ENDS:
        if nm == 'thrice':
            # halved three times it ends within one per cent outside
            at1 = at0 + (1.004 - at0) * 8
        for side in (1, -1):
            for late in (None, 0, 3, 12):
                for ngb in (False, True):
                    if late is not None and (ngb or side < 0 or nm not in ('inside', 'once')):
                        continue
                    mu = rc(mu0) if late is None else rc(max(0.1 * mu0 * (1 - late / 8.0), 0)) if late else rc(mu0)
                    muv = mu.a[0]
                    env = {'wvt_radius': R0, 'sphere_radius': R0 * 1.1, 'k0': 1.5, 'k1': .3, 'k2': .05, 'A.m': .7}
                    for i in range(D):
                        u = unit[i] * side * (-1 if i == 1 else 1)
                        env['A.x' + 'xyz'[i]] = u * R0 * at0
                        # a little sideways as well
                        env['A.a' + 'xyz'[i]] = u * R0 * (at1 - at0) / (muv or 1)
                    pt = Point(env, 0.0002)
                    w = world(m, D, pt)
                    w('vf_profile')
                    w('vf_radius', rs('wvt_radius'), rs('sphere_radius'))
                    last = 100
                    w('vf_step', rc(mu0), ic(50 if late is None else last + late, 64), ic(last, 64), ic(8, 32), ic(int(ngb), 1))
                    over = {'x': [rs('A.x' + c) for c in 'xyz'[:D]], 'a': [rs('A.a' + c) for c in 'xyz'[:D]]}
                    b, d = w.body('A', over)
                    w('vf_move', b)
                    e = w.read(b)
                    p.used(w.it, m)
                    tag = '%s:%s%s%s:%dD' % (nm, '+' if side > 0 else '-', '' if late is None else ':cooling %d' % late, ':ngb' if ngb else '', D)
                    f = div(mu, rc(2.0 ** halv))
                    y = [add(d['x'][i], mul(f, d['a'][i])) for i in range(D)]
                    if mir:
                        r = norm(y)
                        k = div(sub(mul(rc(2), rs('wvt_radius')), r), r)
                        y = [mul(k, c) for c in y]
                    eq(p, l, 'place:' + tag, loc(m, F), 'the displacement is the step times the acceleration, halved while it ends more than a per cent outside; what is still outside is mirrored at the sphere', [('xyz'[i], e['x'][i], y[i]) for i in range(D)], pt)
                    eq(p, l, 'within:' + tag, loc(m, F), 'density and size are those of the profile at the new place', sized(w, d, e, e['x'], D, ngb), pt)
                    ch = changed(d, e, ('x', 'h', 'rho'))
                    p.ob('rest:' + tag, not ch, loc(m, F), 'nothing else changes', ', '.join(NAME[c] for c in ch), 'value graph identity')
    return p


def sized(w, d, e, x, D, ngb):
    s = E.symbols([e['h'], e['rho']])
    eta = rs([n for n in s if 'sph_eta' in n][0]) if any('sph_eta' in n for n in s) else rs('param::_sph_eta')
    wid = rs([n for n in s if 'kernel_width' in n][0]) if any('kernel_width' in n for n in s) else rc(2)
    ini = rs([n for n in s if 'rho_initial' in n][0]) if any('rho_initial' in n for n in s) else rs('?')
    rho = mul(div(ini, profile(rc(0))), profile(div(norm(x), rs('sphere_radius'))))
    if ngb:
        nn = [n for n in s if 'wvt_ngb' in n]
        nn = rs(nn[0]) if nn else rc(120)
        h, k = e['h'], {1: rc(2), 2: rc(math.pi), 3: rc(4 * math.pi / 3)}[D]
        size = ('size', mul(k, e['rho'], *[h] * D), mul(nn, d['m']))
    else:
        size = ('size', rpow(div(e['h'], mul(eta, wid)), float(D)) if D > 1 else div(e['h'], mul(eta, wid)), div(d['m'], rho))
    return [('density', e['rho'], rho), size]


def pushes(D):
    """the pseudo-acceleration of neighbours, with and without images at the surface"""
    p = Part()
    m = load(D)
    p.units.append('wvt.cc/%dD' % D)
    R0 = 2.0
    unit = {1: [1.0], 2: [.6, .8], 3: [2 / 7, 3 / 7, 6 / 7]}[D]
    side = {1: [0], 2: [-.8, .6], 3: [3 / 7, -2 / 7, 0]}[D]
    l = al('ABC', extra_pos=['wvt_radius'])
    eps = rc(0.3)
    sq = lambda v: mul(v, v)
    for method in ('diehl', 'arth'):
        F = 'wvt_acceleration_' + method
        for edge in ('reflective', 'frozen', 'open'):
            for nm, ra, h in (('deep', .4, .5), ('near', .9, .6), ('edge', .78, .6), ('out', 1.02, .6)):
                for sgn in (1, -1):
                    env = {'wvt_radius': R0, 'A.h': h, 'B.h': h * 1.2, 'C.h': h * .7}
                    for i in range(D):
                        u, v = sgn * unit[i], side[i]
                        env['A.x' + 'xyz'[i]] = u * R0 * ra
                        env['B.x' + 'xyz'[i]] = u * R0 * (ra - .1) + v * .2 * h
                        env['C.x' + 'xyz'[i]] = u * R0 * min(ra + .06, .97) - v * .3 * h
                    pt = Point(env, 0.005)
                    w = world(m, D, pt)
                    w('vf_kernel')
                    w('vf_radius', rs('wvt_radius'), rs('sphere_radius'))
                    w('vf_mode', cstr(w, method), cstr(w, edge))
                    bs, ds = zip(*[w.body(n, {'x': [rs('%s.x%s' % (n, c)) for c in 'xyz'[:D]]}) for n in 'ABC'])
                    nb, n = w.list([bs[1], bs[2]])
                    w('vf_push', bs[0], nb, n)
                    es = [w.read(b) for b in bs]
                    p.used(w.it, m)
                    a, Rw = ds[0], rs('wvt_radius')

                    def term(h, hk, x):
                        """push of something at x; hk: length of the kernel"""
                        d = [sub(s, t) for s, t in zip(a['x'], x)]
                        r = norm(d)
                        if method == 'arth':
                            k = mul(h, E.call('W', [r, hk]), *[h] * D)
                        else:
                            wv = sub(sq(div(hk, add(r, mul(eps, hk)))), sq(div(hk, add(hk, mul(eps, hk)))))
                            k = mul(a['h'], wv) if pt(E.fcmp('olt', rc(0), wv)) else rc(0)
                        return [div(mul(k, s), r) for s in d]
                    acc = [rc(0)] * D
                    if nm != 'out':
                        ts = []
                        for d in ds[1:]:
                            hm = mul(rc(.5), add(a['h'], d['h']))
                            ts.append(term(hm, hm, d['x']))
                            if edge == 'reflective' and nm in ('near', 'edge'):
                                r = norm(d['x'])
                                k = div(sub(mul(rc(2), Rw), r), r)
                                ts.append(term(a['h'], hm if method == 'arth' else a['h'], [mul(k, c) for c in d['x']]))
                        if edge == 'reflective' and nm in ('near', 'edge'):
                            r = norm(a['x'])
                            k = div(sub(mul(rc(2), Rw), r), r)
                            ts.append(term(a['h'], a['h'], [mul(k, c) for c in a['x']]))
                        for t in ts:
                            acc = [add(x, y) for x, y in zip(acc, t)]
                    tag = '%s:%s:%s%s:%dD' % (method, edge, nm, '+' if sgn > 0 else '-', D)
                    got = es[0]['a']
                    if edge == 'frozen' and nm in ('near', 'edge'):
                        x = a['x']
                        k = div(dot(acc, x), dot(x, x))
                        tt = [sub(acc[i], mul(k, x[i])) for i in range(D)]
                        eq(p, l, 'frozen:' + tag, loc(m, F), 'near a frozen surface only the part across the radius acts', [('along', dot(got, x), rc(0))] + [('%d%d' % (i, j), mul(got[i], tt[j]), mul(got[j], tt[i])) for i in range(D) for j in range(i)], pt)
                    else:
                        eq(p, l, 'push:' + tag, loc(m, F), 'neighbours, and near a reflective surface their images and that of the particle itself, push it away along the line between them; nothing pushes a particle outside', [('xyz'[i], got[i], acc[i]) for i in range(D)], pt)
                    ch = changed(ds[0], es[0], ('a', 'nn')) + sum((changed(d, e) for d, e in zip(ds[1:], es[1:])), [])
                    p.ob('rest:' + tag, not ch and E.sval(es[0]['nn']) == 2, loc(m, F), 'nothing else changes but the number of neighbours', ', '.join(NAME[c] for c in ch), 'value graph identity')
    return p


def scaling(D):
    """the rescaled smoothing spheres of all ranks fill the sphere the desired number of times"""
    p = Part()
    m = load(D)
    p.units.append('wvt.cc/%dD' % D)
    F = Fleet(2)
    split = ['AB', 'C']
    ws = []
    for r in range(2):
        w = world(m, D, ms=F.models(r))
        w.it.models.update(F.models(r))
        w.r = r
        ws.append(w)

    def body(w):
        arr, ds = bodies(w, split[w.r])
        w('vf_radius', rs('wvt_radius'), rs('sphere_radius'))
        w('vf_rescale', arr, ic(len(ds), 32))
        return ds, [w.read(padd(arr, ic(w.size * k, 64))) for k in range(len(ds))]
    at = loc(m, 'compute_smoothinglength_wvt')
    try:
        out, bad = F.go([(lambda w=w: body(w)) for w in ws]), F.problems
    except Mismatch as e:
        out, bad = None, [str(e)]
    for w in ws:
        p.used(w.it, m)
    p.ob('ranks:%dD' % D, out is not None and not bad, at, 'all ranks determine the factor together', '; '.join(bad), 'co-interpretation of all ranks')
    if out is None:
        return p
    l = al('ABC', extra_pos=['wvt_radius', 'param::_wvt_ngb', 'wvt_ngb'])
    ds = [x for o in out for x in o[0]]
    es = [x for o in out for x in o[1]]
    nn = [n for n in E.symbols([e['h'] for e in es]) if 'ngb' in n]
    nn = rs(nn[0]) if nn else rc(120)
    pw = lambda h: mul(*[h] * D)
    for j, (d, e) in enumerate(zip(ds, es)):
        eq(p, l, 'ratio:%d:%dD' % (j, D), at, 'all smoothing lengths grow by one factor', [('ratio', mul(e['h'], ds[0]['h']), mul(es[0]['h'], d['h']))], None)
        ch = changed(d, e, ('h',))
        p.ob('rest:%d:%dD' % (j, D), not ch, at, 'nothing else changes', ', '.join(NAME[c] for c in ch), 'value graph identity')
    eq(p, l, 'volume:%dD' % D, at, 'the smoothing spheres of all particles fill the sphere the desired number of times', [('volume', add(*[pw(e['h']) for e in es]), mul(nn, pw(rs('wvt_radius'))))], None)
    # density summation and the density of the profile
    w = world(m, D)
    w('vf_kernel')
    w('vf_profile')
    w('vf_radius', rs('wvt_radius'), rs('sphere_radius'))
    bs, ds = zip(*[w.body(n) for n in 'ABC'])
    nb, n = w.list(list(bs))
    w.it.oracle = lambda c: True if c.op == 'fcmp_lt' and E.isr(c.a[0]) and c.a[0].a[0] == 0 else None
    w('vf_rho', bs[0], nb, n)
    es = [w.read(b) for b in bs]
    a = ds[0]
    rho = add(*[mul(d['m'], E.call('W', [norm([sub(s, t) for s, t in zip(a['x'], d['x'])]), mul(rc(.5), add(a['h'], d['h']))])) for d in ds])
    eq(p, al('ABC'), 'density:%dD' % D, loc(m, 'compute_density'), 'the density is the sum over the neighbours, with the mean smoothing length of each pair', [('density', es[0]['rho'], rho)], None)
    ch = changed(ds[0], es[0], ('rho',)) + sum((changed(d, e) for d, e in zip(ds[1:], es[1:])), [])
    p.ob('density-rest:%dD' % D, not ch, loc(m, 'compute_density'), 'nothing else changes', ', '.join(NAME[c] for c in ch), 'value graph identity')
    w('vf_setrho', bs[1])
    e = w.read(bs[1])
    eq(p, alg.Alg(positive=['B.m', 'sphere_radius']), 'profile:%dD' % D, loc(m, 'wvt_set_density'), 'density and size are those of the profile', sized(w, ds[1], e, ds[1]['x'], D, False), Point({'k0': 1.5, 'k1': .1, 'k2': .01, 'B.x': .3, 'B.y': .4, 'B.z': -.2, 'sphere_radius': 2.0}, .3))
    p.used(w.it, m)
    return p


def converged(D):
    """the relaxation stops when few enough particles of all ranks still move"""
    p = Part()
    m = load(D)
    p.units.append('wvt.cc/%dD' % D)
    at = loc(m, 'check_convergence_wvt')
    h, mu, ngb = .5, .7, 20.
    limit = .001 * h * (1 / ngb) ** (1. / D) / mu
    for moving in ((), (0,), (2,), (0, 3), (1, 2, 3), (0, 1, 2, 3)):
        for point in (10., 40., 60., 90.):
            F = Fleet(2)
            ws = []
            for r in range(2):
                env = {}
                for k, n in enumerate('ABCD'):
                    env[n + '.h'] = h
                    for i in range(D):
                        env[n + '.a' + 'xyz'[i]] = (1.4 if k in moving else .7) * limit * {1: [1.0], 2: [.6, -.8], 3: [2 / 7, 3 / 7, -6 / 7]}[D][i]
                w = world(m, D, Point(env, limit * .05), ms=F.models(r))
                w.it.models.update(F.models(r))
                w.r = r
                ws.append(w)

            def body(w):
                arr, ds = bodies(w, ['AB', 'CD'][w.r])
                return w('vf_converged', arr, ic(len(ds), 32), rc(mu), rc(ngb), rc(point)), ds, [w.read(padd(arr, ic(w.size * k, 64))) for k in range(len(ds))]
            try:
                out, bad = F.go([(lambda w=w: body(w)) for w in ws]), F.problems
            except Mismatch as e:
                out, bad = None, [str(e)]
            for w in ws:
                p.used(w.it, m)
            tag = '%s:%g:%dD' % (''.join(map(str, moving)) or '-', point, D)
            p.ob('together:' + tag, out is not None and not bad, at, 'all ranks decide together', '; '.join(bad), 'co-interpretation of all ranks')
            if out is None:
                continue
            want = 25. * len(moving) < point
            vals = [E.sval(o[0]) for o in out]
            p.ob('stop:' + tag, all(v is not None and bool(v) == want for v in vals), at, 'relaxation has converged exactly when the share of the particles of all ranks that move by more than a thousandth of their spacing is below the limit', 'found %s, %d of 4 move, limit %g per cent' % ([str(o[0])[:80] for o in out], len(moving), point), 'interpretation in a region around one place')
            ch = sum((changed(d, e) for o in out for d, e in zip(o[1], o[2])), [])
            p.ob('rest:' + tag, not ch, at, 'no particle changes', ', '.join(NAME[c] for c in ch), 'value graph identity')
    return p


def run(k, D):
    return {'t': transforms, 'm': moves, 'p': pushes, 's': scaling, 'c': converged}[k](D)


def p30():
    ck = Check('P30', 'The coordinate transforms and the relaxation steps are interpreted on symbolic particles in every octant and in each region of the displacement (inside, beyond the surface, halved once to three times), with the kernel and density profile unknown; the extracted formulas are compared with the geometric definitions.',
               ['real arithmetic', 'particles are not at the centre', 'two or three neighbours stand for any number', 'which side of a comparison is taken is that of one place of each region'])
    build.irdump()
    build.scratch()
    build.overlay()
    for q in pmap(run, [(k, D) for k in 'mptsc' for D in (3, 2, 1)]):
        ck.extend(q)
    return finish(ck, 300)
