"""P08: radial density profiles."""
import math
from vf.common import *

GRID = [0.05, 0.2, 0.3, 0.55, 0.7, 0.95]


def load(D):
    return build.compile(DR + 'prof.cc', D, ['vf_*'], flags=build.STRINGS)


def loc(m, f):
    return where(m, 'density_profiles::' + f)


def run(m):
    w = Run(m, pins={'density_profiles::' + x: 'init' for x in ('rad_grid', 'rho_grid', 'mass_grid', 'drhodr_grid')})
    w.it.fninit = True
    w.it.bitdom = False
    return w


def quad(f, a, b, n=40):
    """composite Gauss-Legendre, three points a panel"""
    h = (b - a) / n
    s = 0.0
    for i in range(n):
        c = a + (i + .5) * h
        for x, g in ((-math.sqrt(.6), 5 / 9), (0.0, 8 / 9), (math.sqrt(.6), 5 / 9)):
            s += g * f(c + x * h / 2)
    return s * h / 2


def profiles(D):
    p = Part()
    m = load(D)
    p.units.append('prof.cc/%dD' % D)
    surf = {1: rc(2), 2: rc(2 * math.pi), 3: rc(4 * math.pi)}[D]
    for name in ('constant', 'parabolic', 'mesa', 'Parabolic'):
        tag = '%s:%dD' % (name, D)
        w = run(m)
        s = w.it.symarr(w.st, 'str', [ic(ord(c), 8) for c in name] + [ic(0, 8)])
        w('vf_select', s)
        q = w('vf_q')
        r = rs('r')
        rho, mass, drho = (w(f, r) for f in ('vf_rho', 'vf_mass', 'vf_drho'))
        p.used(w.it, m)
        l = alg.Alg(positive=['r'] + [x for x in E.symbols([q])])
        qn = list(E.symbols([q]))[0]
        inside = [E.fcmp('olt', r, rc(0.9999)), E.fcmp('olt', q, rc(1))]
        rng = {'r': (0.01, 0.9998), qn: (0.05, 0.95)}
        ok, dd, how, n = identity(l, [('dm/dr', alg.diff(mass, r), mul(surf, rho, *[r] * (D - 1)))], hyps=inside, ranges=rng)
        p.ob('mass:' + tag, ok, loc(m, 'mass_%s_density' % name.lower()), 'the enclosed mass grows by the density times the surface', dd, how)
        ok, dd, how, n = identity(l, [('drho/dr', drho, alg.diff(rho, r))], hyps=inside, ranges=rng)
        p.ob('gradient:' + tag, ok, loc(m, 'drhodr_%s_density' % name.lower()), 'the gradient is the derivative of the density', dd, how)
        one = w('vf_mass', rc(1))
        ok, dd, how, n = identity(l, [('mass', one, rc(1))], hyps=inside[1:], ranges=rng)
        p.ob('total:' + tag, ok, loc(m, 'mass_%s_density' % name.lower()), 'the unit sphere holds a mass of one', dd, how)
        ok, dd, how = nonneg(l, rho, hyps=inside, ranges=rng)
        p.ob('sign:' + tag, ok, loc(m, 'rho_%s_density' % name.lower()), 'the density is not negative', dd, how)
        # the pieces join: integral of the extracted density against the extracted mass
        bad = []
        for qv in (0.1, 0.25, 0.5, 0.77):
            ev = lambda e, x: alg.evalf(e, {'r': x, qn: qv})
            f = lambda x: ev(mul(surf, rho, *[r] * (D - 1)), x)
            acc, x0 = 0.0, 0.0
            for x1 in (0.2, 1 - qv, 0.95, 0.9998):
                if x1 <= x0:
                    continue
                pts = sorted({x0, x1} | {y for y in (1 - qv,) if x0 < y < x1})
                for a, b in zip(pts, pts[1:]):
                    acc += quad(f, a, b)
                x0 = x1
                for side in (-1e-9, 1e-9):
                    d = ev(mass, x1 + side) - acc
                    if not abs(d) < 1e-5:
                        bad.append('mass inside %g is %.8g, integral of the density %.8g (rim width %g)' % (x1, ev(mass, x1 + side), acc, qv))
        p.ob('integral:' + tag, not bad, loc(m, 'mass_%s_density' % name.lower()), 'the enclosed mass is the volume integral of the density, across every break of the formulas', '; '.join(bad[:2]) or 'at 16 radii', 'quadrature of the extracted formula')
    # tabulated profiles: one dimension stands for all
    if D == 1:
        w = run(m)
        n = ic(len(GRID), 32)
        x = rs('x')
        l = alg.Alg()
        g = w.arr([rc(v) for v in GRID])
        bad = []
        for i, v in points():
            k = w('vf_index', rc(v), g, n)
            if not isc(k) or E.sval(k) != i:
                bad.append('x=%g gives %s, not %d' % (v, E.show(k, 3), i))
        p.ob('index', not bad, loc(m, 'get_interval_index'), 'the index names the interval holding the value, -1 below and N-1 above', '; '.join(bad[:3]) or '%d points' % len(points()), 'constant propagation')
        co = [rs('c%d' % i) for i in range(4)]
        poly = lambda v: add(co[0], mul(co[1], v), mul(co[2], v, v), mul(co[3], v, v, v))
        ys = w.arr([poly(rc(v)) for v in GRID])
        for i, v in points():
            y = w('vf_cubic', rc(v), g, ys, n)
            inner = 0 <= i < len(GRID) - 1
            ok, dd, how, k = identity(l, [('value', y, poly(rc(v)) if inner else rc(0))])
            p.ob('cubic:%g' % v, ok, loc(m, 'cubic_interp'), 'a tabulated cubic is reproduced between the first and the last point' if inner else 'outside the table the value is zero', dd, how)
        ys = rvecn('y', len(GRID))
        ya = w.arr(ys)
        for i, v in enumerate(GRID):
            z = w('vf_cubic', rc(v), g, ya, n)
            ok, dd, how, k = identity(l, [('value', z, ys[i])])
            p.ob('cubic:node:%d' % i, ok, loc(m, 'cubic_interp'), 'tabulated values are reproduced at their points', dd, how)
        cols = [rvecn(c, len(GRID)) for c in 'abc']
        w('vf_table', g, *[w.arr(c) for c in cols], n)
        for f, nm, c in (('vf_trho', 'rho', 0), ('vf_tmass', 'mass', 1), ('vf_tdrho', 'drhodr', 2)):
            z = w(f, rc(GRID[3]))
            ok, dd, how, k = identity(l, [('value', z, cols[c][3])])
            p.ob('table:' + nm, ok, loc(m, nm + '_from_input_file'), 'each quantity comes from its own column', dd, how)
        p.used(w.it, m)
    return p


def rvecn(n, k):
    return [rs('%s%d' % (n, i)) for i in range(k)]


def points():
    """(interval, value) for values inside and outside every interval"""
    r = [(-1, -0.3), (-1, 0.01), (-1, 0.049)]
    for i, (a, b) in enumerate(zip(GRID, GRID[1:])):
        r += [(i, a + t * (b - a)) for t in (.01, .37, .5, .82, .99)]
    return r + [(len(GRID) - 1, v) for v in (0.951, 1.0, 7.0)]


def p08():
    ck = Check('P08', 'Each profile is selected by name in the interpreter; mass, density and gradient at a symbolic radius are differentiated symbolically and compared as normal forms, and the pieces are joined by quadrature of the extracted formulas. Table lookup is interpreted on a fixed six-point grid with symbolic values.',
               ['real arithmetic', 'radii between 0 and 0.9999 (mesa cuts its last ten-thousandth off)', 'the rim width lies between 0 and 1', 'one irregular grid of six points stands for every table; reading the file is not analysed'])
    for x in pmap(profiles, [(d,) for d in (3, 2, 1)]):
        ck.extend(x)
    return finish(ck, 60)
