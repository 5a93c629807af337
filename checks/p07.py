"""P07: equations of state."""
from checks.sph import *
from checks.p10 import only

GAM = [(1.4, 2.0), (5 / 3, 4 / 3), (2.0, 3.0), (3.0, 1.25)]
C2 = 2.99792458e10 ** 2


def eos(D):
    p = Part()
    m = build.compile(DR + 'eos.cc', D, ['vf_*'])
    p.units.append('eos.cc/%dD' % D)
    rho, Ye, K, P0, u0, thr = (rs(x) for x in ('A.rho', 'A.Ye', 'A.K', 'A.P', 'A.u', 'thr'))
    w0 = World(m, D)
    kinds = dict(zip(('polytropic', 'ideal', 'wd', 'ppt', 'no_eos'), [w0('vf_kind', ic(i, 32)).a[0] for i in range(5)]))

    def world(kind, g, g2, before=None):
        w = World(m, D)
        if before is not None:
            w('vf_select', ic(kinds[before], 32), rc(g), rc(g2), thr)
        w('vf_select', ic(kinds[kind], 32), rc(g), rc(g2), thr)
        return w

    def run(w, fs, over=None):
        a, d0 = w.body('A', over)
        for f in fs:
            w(f, a)
        d1 = w.read(a)
        p.used(w.it, m)
        return d0, d1
    FN = {'vf_init': 'init', 'vf_P': 'compute_pressure', 'vf_c': 'compute_soundspeed', 'vf_u': 'compute_internal_energy'}
    SETS = {'polytropic': {'vf_init': ['K'], 'vf_P': ['P'], 'vf_c': ['c'], 'vf_u': ['u']},
            'ideal': {'vf_init': ['K'], 'vf_P': ['P'], 'vf_c': ['c'], 'vf_u': ['u']},
            'wd': {'vf_init': ['u'], 'vf_P': ['P'], 'vf_c': ['c'], 'vf_u': ['u']},
            'ppt': {'vf_init': ['K'], 'vf_P': ['P'], 'vf_c': ['c'], 'vf_u': ['u']},
            'no_eos': {'vf_init': [], 'vf_P': [], 'vf_c': [], 'vf_u': []}}

    def at(k, f):
        for fn in m.fns.values():
            if not fn.decl and ('eos_t<(param::eos_type_keyword_enum)%d>::%s' % (kinds[k], FN[f])) in fn.dem:
                return '%s:%s' % (fn.file.split('|')[-1].replace(build.REPO + '/', ''), fn.line)
        return where(m, 'eos::select')
    a = al('A', extra_pos=['thr'])
    rng = {'A.rho': (0.2, 3.0), 'thr': (0.3, 2.0), 'A.K': (0.2, 3.0), 'A.P': (0.2, 3.0)}
    wdr = {'A.rho': (3e4, 1e9), 'A.Ye': (0.3, 0.6)}
    # what each function writes; the last selection counts, whatever was selected before
    for k in kinds:
        for f, ks in SETS[k].items():
            for b in (None, 'wd' if k != 'wd' else 'ideal'):
                w = world(k, 1.4, 2.0, b)
                if k == 'ppt' and f != 'vf_init':
                    w('vf_init', w.body('B')[0])
                d0, d1 = run(w, [f])
                if b is None:
                    only(p, 'frame:%s:%s:%dD' % (k, FN[f], D), d0, d1, ks, at(k, f))
                    ref = {q: d1[q] for q in ks}
                else:
                    bad = [q for q in ks if d1[q] is not ref[q]]
                    p.ob('select:%s:%s:%dD' % (k, FN[f], D), not bad and not changed(d0, d1, ks), where(m, 'eos::select'), 'the last equation of state selected is the one in use', 'changes ' + ', '.join(NAME[q] for q in bad) if bad else 'same value graphs', 'value graph identity')
    for g, g2 in GAM:
        t = ':%.3g,%.3g:%dD' % (g, g2, D)
        ad = lambda: mul(K, rpow(rho, g))
        # ideal gas
        d0, d1 = run(world('ideal', g, g2), ['vf_P', 'vf_c'])
        ok, dd, how, n = identity(a, [('P', d1['P'], mul(rc(g - 1), rho, u0)), ('c^2', mul(d1['c'], d1['c']), div(mul(rc(g), d1['P']), rho))], ranges=rng)
        p.ob('ideal:P,c' + t, ok, at('ideal', 'vf_c'), 'P = (gamma-1) rho u and c^2 = gamma P/rho', dd, how)
        d0, d1 = run(world('ideal', g, g2), ['vf_init', 'vf_u', 'vf_P'])
        ok, dd, how, n = identity(a, [('P', d1['P'], P0)], ranges=rng)
        p.ob('ideal:init' + t, ok, at('ideal', 'vf_u'), 'the internal energy derived from density and pressure gives that pressure back', dd, how)
        # polytrope
        d0, d1 = run(world('polytropic', g, g2), ['vf_P', 'vf_c', 'vf_u'])
        ok, dd, how, n = identity(a, [('P', d1['P'], ad()), ('c^2', mul(d1['c'], d1['c']), alg.diff(d1['P'], rho)), ('du/drho', mul(rho, rho, alg.diff(d1['u'], rho)), d1['P'])], ranges=rng)
        p.ob('polytropic:P,c,u' + t, ok, at('polytropic', 'vf_c'), 'P = K rho^gamma, c^2 = dP/drho, du/drho = P/rho^2', dd, how)
        d0, d1 = run(world('polytropic', g, g2), ['vf_init', 'vf_P'])
        ok, dd, how, n = identity(a, [('P', d1['P'], P0)], ranges=rng)
        p.ob('polytropic:init' + t, ok, at('polytropic', 'vf_init'), 'the adiabatic constant of the initial pressure gives it back', dd, how)
        # two polytropes
        for side, h in (('below', E.fcmp('olt', rho, thr)), ('above', E.fcmp('olt', thr, rho))):
            w = world('ppt', g, g2)
            w('vf_init', w.body('B')[0])
            d0, d1 = run(w, ['vf_P', 'vf_c', 'vf_u'])
            want = ad() if side == 'below' else mul(K, rpow(thr, g - g2), rpow(rho, g2))
            ok, dd, how, n = identity(a, [('P', d1['P'], want), ('c^2', mul(d1['c'], d1['c']), alg.diff(d1['P'], rho)), ('du/drho', mul(rho, rho, alg.diff(d1['u'], rho)), d1['P'])], hyps=[h], ranges=rng)
            p.ob('ppt:P,c,u:%s' % side + t, ok, at('ppt', 'vf_c'), 'P is polytropic on each side of the threshold and continuous, c^2 = dP/drho, du/drho = P/rho^2', dd, how)
            d0, d1 = run(world('ppt', g, g2), ['vf_init', 'vf_P'])
            ok, dd, how, n = identity(a, [('P', d1['P'], P0)], hyps=[h], ranges=rng)
            p.ob('ppt:init:%s' % side + t, ok, at('ppt', 'vf_init'), 'the adiabatic constant of the initial pressure gives it back', dd, how)
        w = world('ppt', g, g2)
        w('vf_init', w.body('B')[0])
        d0, d1 = run(w, ['vf_u'], {'rho': thr})
        ok, dd, how, n = identity(a, [('u', d1['u'], div(mul(K, rpow(thr, g - 1)), rc(g - 1)))], ranges=rng)
        p.ob('ppt:continuous' + t, ok, at('ppt', 'vf_u'), 'the internal energy is continuous at the threshold', dd, how)
    # white dwarf
    d0, d1 = run(world('wd', 1.4, 2.0), ['vf_P', 'vf_c', 'vf_u'])
    dP = alg.diff(d1['P'], rho)
    t = ':wd:%dD' % D
    ok, dd, how, n = identity(a, [('du/drho', mul(rho, rho, alg.diff(d1['u'], rho)), d1['P'])], ranges=wdr)
    p.ob('energy' + t, ok, at('wd', 'vf_u'), 'du/drho = P/rho^2', dd, how)
    # pressure of cold electrons: n = rho Ye, x = (n/B)^(1/3), dP/dx = 8 A x^4/sqrt(1+x^2)
    A, B = 6.00233181e22, 9.73932099e5
    x = E.call('cbrt', [div(mul(rho, Ye), rc(B))])
    s = sqrt(add(rc(1), mul(x, x)))
    ok, dd, how, n = identity(a, [('dP/drho', mul(rc(3), rho, dP), div(mul(rc(8 * A), x, x, x, x, x), s))], ranges=wdr)
    p.ob('pressure' + t, ok, at('wd', 'vf_P'), 'the pressure is that of a cold electron gas', dd, how)
    v = alg.evalf(d1['P'], {'A.rho': 1e-6, 'A.Ye': 0.5, '?': lambda n, k: 0.5})
    p.ob('zero' + t, abs(v) < 1e-6 * A, at('wd', 'vf_P'), 'no pressure without density', '%g' % v, 'evaluation of the extracted formula')
    # energy density of the electrons with their rest mass: de/dx = 24 A x^2 sqrt(1+x^2)
    ok, dd, how, n = identity(a, [('c^2', div(mul(d1['c'], d1['c']), rc(C2)), div(mul(rc(3), rho, dP), mul(rc(24 * A), x, x, x, s)))], ranges=wdr)
    p.ob('soundspeed:electrons' + t, ok, at('wd', 'vf_c'), 'the sound speed is that of the electron gas alone, c^2 dP/d(energy density of the electrons)', dd, how)
    ok, dd, how, n = identity(a, [('c^2', mul(d1['c'], d1['c']), dP)], ranges=wdr)
    p.ob('soundspeed:matter' + t, ok, at('wd', 'vf_c'), 'c^2 = dP/drho', dd, how)
    return p


def p07():
    ck = Check('P07', 'Each equation of state is selected, its functions are interpreted on a symbolic particle, and pressure, sound speed and energy are differentiated symbolically and compared as normal forms: c^2 = dP/drho, du/drho = P/rho^2, initial data recovered.',
               ['real arithmetic', 'density, pressure and adiabatic constant are positive', 'four pairs of exponents stand for all', 'the sound speed of an ideal gas is gamma P/rho'])
    for x in pmap(eos, [(d,) for d in (3, 2, 1)]):
        ck.extend(x)
    return finish(ck, 150)
