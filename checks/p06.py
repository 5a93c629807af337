"""P06: external forces."""
from checks.sph import *
from checks.p10 import loc

NAMES = ['none', 'zero', 'spherical wall', 'gravity', 'walls:x', 'airfoil', 'orbit', 'poison', 'spherical density support', 'walls:xy', 'walls:XYZ', 'walls:y', 'walls:z',
         'spherical wall,gravity', 'gravity,walls:x,poison', 'Gravity,orbit', 'walls:xy,spherical wall,airfoil']
WH = {'spherical wall': 'potential_spherical_wall', 'gravity': 'potential_gravity', 'airfoil': 'potential_airfoil', 'orbit': 'potential_orbit', 'spherical density support': 'potential_spherical_density_support'}


def load(D):
    return build.compile(DR + 'ext.cc', D, ['vf_*'], flags=build.STRINGS)


def fits(name, D):
    if D == 1 and ('airfoil' in name or 'orbit' in name.lower()):
        return False
    if 'walls' in name:
        return max('xyz'.index(c) for c in name.lower().split('walls:')[1].split(',')[0]) < D
    return True


def cstr(w, s):
    return w.it.symarr(w.st, 'str', [ic(ord(c), 8) for c in s] + [ic(0, 8)])


def profile(it, st, a, i):
    """a density profile falling from one: 1 - k1 x^2 - k2 x^4"""
    x = a[0]
    return sub(sub(rc(1), mul(rs('k1'), x, x)), mul(rs('k2'), x, x, x, x))


def slope(it, st, a, i):
    x = a[0]
    return sub(mul(rc(-2), rs('k1'), x), mul(rc(4), rs('k2'), x, x, x))


def world(m, D, name):
    w = World(m, D, ms={'vfm_rho': profile, 'vfm_drho': slope}, pins={'param::_density_profile': 'init'})
    w.it.fninit = True
    w.it.bitdom = False
    w('vf_select', cstr(w, name))
    if 'support' in name:
        w('vf_profile')
    b, d = w.body('A')
    pot = w('vf_pot', w.arr(d['x']))
    o = w.out(D)
    w('vf_acc', b, o)
    c = changed(d, w.read(b))
    return w, d, pot, w.get(o, D), c


def forces(D, names):
    p = Part()
    m = load(D)
    p.units.append('ext.cc/%dD' % D)
    for name in names:
        tag = '%s:%dD' % (name.replace(' ', '-'), D)
        w, d, pot, acc, c = world(m, D, name)
        pars = {s for s in E.symbols([pot] + acc) if not s.startswith('A.')}
        pos = {s for s in pars if any(k in s for k in ('box_', 'radius', 'separation', 'mass', 'gravitational_constant', 'thickness', 'size', 'powerindex', 'steepness', 'rho_initial', 'pressure_initial', 'gamma', 'k1', 'k2'))}
        l = alg.Alg(positive=pos)
        F = 'external_force::' + WH.get(name.split(',')[0].lower(), 'potential_square_well' if 'walls' in name else 'potential')
        ok, dd, how, n = identity(l, [('acceleration ' + 'xyz'[i], acc[i], E.fneg(alg.diff(pot, d['x'][i]))) for i in range(D)], ranges={'k1': (0.01, 0.3), 'k2': (0.01, 0.2)})
        p.ob('gradient:' + tag, ok, loc(m, F), 'the acceleration is minus the gradient of the potential', dd, how)
        p.ob('frame:' + tag, not c, loc(m, F), 'computing a force changes nothing of the particle', ', '.join(c), 'value graph identity')
        if name in ('none', 'zero'):
            ok, dd, how, n = identity(l, [('potential', pot, rc(0))] + [('acceleration', x, rc(0)) for x in acc])
            p.ob('zero:' + tag, ok, loc(m, 'external_force::select'), 'no force is no force', dd, how)
        else:
            ok = name == 'poison' or not all(E.isr(x) and x.a[0] == 0 for x in acc)
            p.ob('present:' + tag, ok, loc(m, 'external_force::select'), 'the model named is in effect', '', 'value graph identity')
        p.used(w.it, m)
        if ',' in name:
            parts = [world(m, D, x) for x in name.split(',')]
            pr = [('potential', pot, add(*[x[2] for x in parts]))] + [('acceleration ' + 'xyz'[i], acc[i], add(*[x[3][i] for x in parts])) for i in range(D)]
            ok, dd, how, n = identity(l, pr)
            p.ob('sum:' + tag, ok, loc(m, 'external_force::select'), 'a combined model is the sum of its parts', dd, how)
        # choosing a model replaces the one before
        w2 = World(m, D, ms={'vfm_rho': profile, 'vfm_drho': slope}, pins={'param::_density_profile': 'init'})
        w2.it.fninit = True
        w2('vf_select', cstr(w2, 'gravity,spherical wall'))
        w2('vf_select', cstr(w2, name))
        n1, n2 = (w('vf_npot'), w('vf_nacc')), (w2('vf_npot'), w2('vf_nacc'))
        p.ob('replace:' + tag, all(x is y for x, y in zip(n1, n2)), loc(m, 'external_force::select'), 'choosing a model replaces the one chosen before', '', 'value graph identity')
    return p


def p06():
    ck = Check('P06', 'Each external-force specification is selected by its name in the interpreter; the potential at a symbolic point is differentiated symbolically and compared with the acceleration of a particle there, in every region of their gates.',
               ['real arithmetic', 'lengths, masses, steepness and power indices are positive', 'the density-support profile is any profile 1 - k1 x^2 - k2 x^4', 'points on a wall face are left out'])
    jobs = []
    for D in (3, 2, 1):
        ns = [n for n in NAMES if fits(n, D)]
        jobs += [(D, ns[i::3]) for i in range(3)]
    for x in pmap(forces, jobs):
        ck.extend(x)
    return finish(ck, 120)
