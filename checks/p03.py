"""P03, P04, P05, P20, P26: pairwise interactions of particles."""
from checks.sph import *

DIMS = (1, 2, 3)


def load(D):
    return build.compile(DR + 'sph.cc', D, ['vf_*'])


def world(m, D, visc, ms=None, **kw):
    w = World(m, D, ms, **kw)
    w.it.bitdom = False
    w('vf_kernel')
    w('vf_visc', w('vf_visc_' + visc))
    w('vf_iter', ic(10 ** 9, 64))
    return w


def patterns(D):
    """which coordinates the two particles share"""
    out = [()]
    for mask in range(1, (1 << D) - 1):
        out.append(tuple(i for i in range(D) if mask >> i & 1))
    return out


def apart(D, sh=(), a='A', b='B'):
    xa, xb = rvec(a + '.x', D), rvec(b + '.x', D)
    return [xa[i] if i in sh else xb[i] for i in range(D)]


def call(w, f, who, *lists):
    for b, l in zip(who, lists):
        p, n = w.list(l)
        w(f, b, p, n)


def loc(m, f):
    return where(m, f)


def forces(D, visc):
    p = Part()
    m = load(D)
    p.units.append('sph.cc/%dD' % D)
    for sh in patterns(D):
        tag = '%s:%dD%s' % (visc, D, ''.join(':same-' + 'xyz'[i] for i in sh))
        w = world(m, D, visc)
        ov = {'x': apart(D, sh), 'g': [rc(0)] * D}
        a, da = w.body('A', {'g': [rc(0)] * D})
        b, db = w.body('B', ov)
        hy = hyp(D, sh)
        l = al()
        # pressure and viscosity
        call(w, 'vf_accel', (a, b), [a, b], [a, b])
        ra, rb = w.read(a), w.read(b)
        pr = [('momentum ' + 'xyz'[i], mul(da['m'], ra['a'][i]), E.fneg(mul(db['m'], rb['a'][i]))) for i in range(D)]
        ok, d, how, n = identity(l, pr, hyps=hy)
        p.ob('force:opposite:' + tag, ok, loc(m, 'physics::compute_acceleration'), 'm_a a_ab = - m_b a_ba', d, how)
        if D > 1:
            s = [sub(x, y) for x, y in zip(da['x'], db['x'])]
            pr = [('torque %d%d' % (i, j), mul(s[i], ra['a'][j]), mul(s[j], ra['a'][i])) for i in range(D) for j in range(i)]
            ok, d, how, n = identity(l, pr, hyps=hy)
            p.ob('force:central:' + tag, ok, loc(m, 'physics::compute_acceleration'), 'the force acts along the line joining the particles', d, how)
        # the particle itself contributes nothing
        w2 = world(m, D, visc)
        a2, _ = w2.body('A')
        b2, _ = w2.body('B', ov)
        call(w2, 'vf_accel', (a2,), [b2])
        ok, d, how, n = identity(l, [('a', x, y) for x, y in zip(ra['a'], w2.read(a2)['a'])], hyps=hy)
        p.ob('force:self:' + tag, ok, loc(m, 'physics::compute_acceleration'), 'a particle exerts no force on itself', d, how)
        p.used(w2.it, m)
        # energy
        call(w, 'vf_dudt', (a, b), [a, b], [a, b])
        call(w, 'vf_dedt', (a, b), [a, b], [a, b])
        qa, qb = w.read(a), w.read(b)
        work = lambda d, q: mul(d['m'], dot(d['v'], q['a']))
        ok, d, how, n = identity(l, [('heat+work', add(mul(da['m'], qa['du']), work(da, qa)), E.fneg(add(mul(db['m'], qb['du']), work(db, qb))))], hyps=hy)
        p.ob('energy:internal:' + tag, ok, loc(m, 'physics::compute_dudt'), 'm_a (du_a/dt + v_a.a_a) + m_b (du_b/dt + v_b.a_b) = 0', d, how)
        ok, d, how, n = identity(l, [('total', mul(da['m'], qa['de']), E.fneg(mul(db['m'], qb['de'])))], hyps=hy)
        p.ob('energy:total:' + tag, ok, loc(m, 'physics::compute_dedt'), 'm_a de_a/dt + m_b de_b/dt = 0', d, how)
        ok, d, how, n = identity(l, [('de', qa['de'], add(qa['du'], dot(da['v'], qa['a'])))], hyps=hy)
        p.ob('energy:agree:' + tag, ok, loc(m, 'physics::compute_dedt'), 'de/dt = du/dt + v.a for the pair forces', d, how)
        w3 = world(m, D, visc)
        a3, _ = w3.body('A', {'g': [rc(0)] * D})
        b3, _ = w3.body('B', ov)
        call(w3, 'vf_dudt', (a3,), [b3])
        call(w3, 'vf_dedt', (a3,), [b3])
        q3 = w3.read(a3)
        ok, d, how, n = identity(l, [('du', qa['du'], q3['du']), ('de', qa['de'], q3['de'])], hyps=hy)
        p.ob('energy:self:' + tag, ok, loc(m, 'physics::compute_dudt'), 'a particle exchanges no energy with itself', d, how)
        p.used(w.it, m)
        if visc == 'constant':
            w = world(m, D, visc)
            z = {'a': [rc(0)] * D}
            a, da = w.body('A', z)
            b, db = w.body('B', dict(ov, **z))
            call(w, 'vf_repulse', (a, b), [a, b], [b, a])
            ra, rb = w.read(a), w.read(b)
            pr = [('momentum ' + 'xyz'[i], mul(da['m'], ra['a'][i]), E.fneg(mul(db['m'], rb['a'][i]))) for i in range(D)]
            ok, d, how, n = identity(l, pr, hyps=hy)
            p.ob('repulsion:opposite:' + tag, ok, loc(m, 'physics::add_short_range_repulsion'), 'm_a a_ab = - m_b a_ba', d, how)
            p.used(w.it, m)
    # gravity felt by a particle adds its power to the total-energy rate
    w = world(m, D, visc)
    a, da = w.body('A')
    call(w, 'vf_dedt', (a,), [a])
    ok, d, how, n = identity(al(), [('gravity', w.read(a)['de'], dot(da['g'], da['v']))])
    p.ob('energy:gravity:%s:%dD' % (visc, D), ok, loc(m, 'physics::compute_dedt'), 'an isolated particle gains g.v', d, how)
    p.used(w.it, m)
    return p


def hyp(D, sh):
    """coordinates that are not shared differ"""
    xa, xb = rvec('A.x', D), rvec('B.x', D)
    return [E.bnot(E.fcmp('oeq', xa[i], xb[i])) for i in range(D) if i not in sh]


def p03():
    ck = Check('P03', 'The accelerations two particles give one another are extracted as value graphs for arbitrary particle states and an arbitrary radial smoothing kernel, and their mass-weighted sum and torque are shown to vanish as algebraic normal forms in every region of their gates.',
               ['real arithmetic', 'the kernel gradient is an arbitrary function of distance and smoothing length along the separation (P01 shows this for every kernel)', 'densities, masses and smoothing lengths are positive'])
    for x in pmap(forces, [(d, v) for d in (3, 2, 1) for v in ('constant', 'cullen')]):
        x.obs = [o for o in x.obs if not o.key.startswith('energy')]
        ck.extend(x)
    return finish(ck, 40)


def p04():
    ck = Check('P04', 'The energy rates two particles give one another are extracted with their accelerations as value graphs for arbitrary states and kernel; heat plus work is shown to cancel over the pair as algebraic normal forms in every region of their gates.',
               ['real arithmetic', 'the kernel gradient is an arbitrary function of distance and smoothing length along the separation (P01 shows this for every kernel)', 'densities, masses and smoothing lengths are positive'])
    for x in pmap(forces, [(d, v) for d in (3, 2, 1) for v in ('constant', 'cullen')]):
        x.obs = [o for o in x.obs if o.key.startswith('energy')]
        ck.extend(x)
    return finish(ck, 40)


# ---------------------------------------------------------------------------- P05
RATES = [('vf_density', 'physics::compute_density', ['rho']), ('vf_accel', 'physics::compute_acceleration', ['a']), ('vf_dudt', 'physics::compute_dudt', ['du']),
         ('vf_signal', 'physics::compute_signalspeed', ['vs']), ('vf_divv', 'physics::compute_divv', ['dv']), ('vf_repulse', 'physics::add_short_range_repulsion', ['a'])]


def flat(d, ks):
    o = []
    for k in ks:
        o += [('%s%s' % (k, 'xyz'[i] if isinstance(d[k], list) else ''), v) for i, v in enumerate(d[k] if isinstance(d[k], list) else [d[k]])]
    return o


def frame(D):
    p = Part()
    m = load(D)
    p.units.append('sph.cc/%dD' % D)

    def once(f, shift, boost, order, other='B'):
        w = world(m, D, 'cullen')
        w('vf_dt', rs('step'))
        mv = lambda n: {'x': [add(v, s) for v, s in zip(rvec(n + '.x', D), shift)], 'v': [add(v, s) for v, s in zip(rvec(n + '.v', D), boost)],
                        'w': [add(v, s) for v, s in zip(rvec(n + '.w', D), boost)]}
        bs = {n: w.body(n, mv(n))[0] for n in 'ABC'}
        call(w, f, (bs['A'],), [bs[n] for n in order])
        r = w.read(bs['A'])
        p.used(w.it, m)
        return r
    Z = [rc(0)] * D
    S, U = rvec('shift', D), rvec('boost', D)
    hy = [E.bnot(E.fcmp('oeq', rvec('A.x', D)[0], rvec(n + '.x', D)[0])) for n in 'BC']
    l = al('ABC')
    for f, name, ks in RATES:
        k = name.split('::')[1]
        two = 'B' if f in ('vf_signal',) else 'AB'
        base = once(f, Z, Z, two)
        sh = once(f, S, Z, two)
        pr = lambda x, y: [(n, a, b) for (n, a), (_, b) in zip(flat(x, ks), flat(y, ks))]
        ok, d, how, n = identity(l, pr(base, sh), hyps=hy[:1])
        p.ob('shift:%s:%dD' % (k, D), ok, loc(m, name), 'unchanged when all positions are shifted', d, how)
        bo = once(f, Z, U, two)
        ok, d, how, n = identity(l, pr(base, bo), hyps=hy[:1])
        p.ob('boost:%s:%dD' % (k, D), ok, loc(m, name), 'unchanged when all velocities are boosted', d, how)
        if D < 3 or f in ('vf_density', 'vf_divv', 'vf_signal'):
            o1 = once(f, Z, Z, 'BC')
            o2 = once(f, Z, Z, 'CB')
            ok, d, how, n = identity(l, pr(o1, o2), hyps=hy)
        else:
            o1 = once(f, Z, Z, 'AB')
            o2 = once(f, Z, Z, 'BA')
            ok, d, how, n = identity(l, pr(o1, o2), hyps=hy[:1])
        p.ob('order:%s:%dD' % (k, D), ok, loc(m, name), 'unchanged when the neighbours are listed in another order', d, how)
    return p


def p05():
    ck = Check('P05', 'The rate of a particle is extracted twice, from the original and from shifted, boosted or reordered particles; both value graphs have the same algebraic normal form in every region of their gates.',
               ['real arithmetic', 'two or three interacting particles; sums over more neighbours repeat the same term', 'the kernel gradient is an arbitrary function of distance and smoothing length along the separation'])
    for x in pmap(frame, [(d,) for d in (3, 2, 1)]):
        ck.extend(x)
    return finish(ck, 50)


# ---------------------------------------------------------------------------- P20
LOOPS = [('vf_density', 'physics::compute_density'), ('vf_accel', 'physics::compute_acceleration'), ('vf_dudt', 'physics::compute_dudt'), ('vf_dedt', 'physics::compute_dedt'),
         ('vf_signal', 'physics::compute_signalspeed'), ('vf_divv', 'physics::compute_divv'), ('vf_repulse', 'physics::add_short_range_repulsion'),
         ('vf_dps', 'physics::compute_density_pressure_soundspeed'), ('vf_alpha', 'viscosity::compute_alpha')]
SINGLE = [('vf_etot', 'physics::set_total_energy'), ('vf_eint', 'physics::recover_internal_energy'), ('vf_half', 'physics::recompute_pressure_soundspeed'),
          ('vf_halft', 'physics::recompute_pressure_soundspeed_thermokinetic'), ('vf_dragv', 'physics::add_drag_acceleration'), ('vf_drage', 'physics::add_drag_dedt'),
          ('vf_dragu', 'physics::add_drag_dudt'), ('vf_cdt', 'physics::compute_dt'), ('vf_kickv', 'integration::leapfrog_kick_v'), ('vf_kicku', 'integration::leapfrog_kick_u'),
          ('vf_kicke', 'integration::leapfrog_kick_e'), ('vf_drift', 'integration::leapfrog_drift'), ('vf_save', 'integration::save_velocityhalf'), ('vf_dadt', 'integration::dadt_integration'),
          ('vf_alpha0', 'viscosity::initialize_alpha')]


def isolated(D, visc):
    p = Part()
    m = load(D)
    p.units.append('sph.cc/%dD' % D)

    def setup():
        w = world(m, D, visc)
        for x in ('vf_eos', 'vf_ext'):
            w(x)
        w('vf_dt', rs('step'))
        w('vf_therm', TRUE, ic(0, 1))
        bs = {n: w.body(n) for n in 'ABC'}
        w.it.gwrites.clear()
        return w, bs
    for f, name in LOOPS + SINGLE:
        one = (f, name) in SINGLE
        k = name.split('::')[1]
        tag = '%s:%s:%dD' % (k, visc, D)
        w, bs = setup()
        if one:
            w(f, bs['A'][0])
        else:
            call(w, f, (bs['A'][0],), [bs[n][0] for n in 'ABC'])
        ch = {n: changed(bs[n][1], w.read(bs[n][0])) for n in 'BC'}
        bad = ['%s of neighbour %s' % (NAME[x], n) for n in ch for x in ch[n]]
        p.ob('frame:' + tag, not bad, loc(m, name), 'the neighbours keep every quantity', ', '.join(bad) or 'all %d quantities of 2 neighbours unchanged' % (len(VEC) * D + len(SCA) + len(INT)), 'value identity')
        gw = sorted(w.m.globals[g]['d'] if g in w.m.globals else g for g in w.it.gwrites)
        p.ob('shared:' + tag, not gw, loc(m, name), 'no shared storage is written outside a guarded initialisation', ', '.join(gw) or 'none', 'write effects')
        p.used(w.it, m)
        if one:
            continue
        # the loop over particles in either order
        res = []
        for order in ('AB', 'BA'):
            w, bs = setup()
            for n in order:
                call(w, f, (bs[n][0],), [bs[x][0] for x in 'AB'])
            res.append({n: w.read(bs[n][0]) for n in 'AB'})
            p.used(w.it, m)
        for fld in VEC + SCA + INT:
            pr = []
            for n in 'AB':
                x, y = res[0][n][fld], res[1][n][fld]
                for i, (u, v) in enumerate(zip(*(t if isinstance(t, list) else [t] for t in (x, y)))):
                    if u is not v:
                        pr.append((n, u, v))
            if not pr:
                continue
            if not all(u.k == R for _, u, _ in pr):
                p.ob('order:%s:%s' % (fld, tag), False, loc(m, name), 'processing order does not matter', NAME[fld] + ' differs', 'value identity')
                continue
            ok, d, how, n_ = identity(al(), pr, limit=400)
            p.ob('order:%s:%s' % (fld, tag), ok, loc(m, name), 'processing order does not matter', NAME[fld] + ': ' + d, how)
        p.ob('order:' + tag, True, loc(m, name), 'processing order does not matter', 'remaining quantities identical', 'value identity')
    return p


def p20():
    ck = Check('P20', 'Every particle update is interpreted on symbolic particles; the values of all quantities of the neighbours afterwards are compared with those before, writes to shared storage are collected, and the two processing orders of a pair are compared.',
               ['real arithmetic', 'three particles; smoothing kernel, equation of state and external force are arbitrary functions of their arguments'])
    for x in pmap(isolated, [(d, v) for d in (3, 2, 1) for v in ('constant', 'cullen')]):
        ck.extend(x)
    return finish(ck, 330)


# ---------------------------------------------------------------------------- P26
VN = ['@param::_sph_viscosity_alpha', '@param::_sph_viscosity_beta', '@param::_sph_viscosity_epsilon', '@param::_sph_viscosity_alpha_max']


def visc(D):
    p = Part()
    m = load(D)
    p.units.append('sph.cc/%dD' % D)
    l = alg.Alg(positive=['h', 'rho', 'r'] + [n + '.' + k for n in 'AB' for k in POSN], nonneg=VN + ['c', 'n', 'q', 'alpha', 'A.al', 'B.al', 'A.c', 'B.c', 'fF'])
    w = world(m, D, 'constant')
    V, Xs = rvec('v', D), rvec('x', D)
    mu = w('vf_mu', rs('h'), w.arr(V), w.arr(Xs))
    d = dot(V, Xs)
    ok, dd, how, n = identity(l, [('mu', mu, rc(0))], hyps=[E.bnot(E.fcmp('olt', d, rc(0)))])
    p.ob('mu:separating:%dD' % D, ok, loc(m, 'viscosity::mu'), 'mu vanishes for separating particles', dd, how)
    # approach with speed q along the separation, plus anything across it
    def approach(s):
        qs = rs('q')
        u = [E.fneg(mul(qs, x)) for x in s]
        if D == 2:
            k = rs('k')
            u = [add(u[0], E.fneg(mul(k, s[1]))), add(u[1], mul(k, s[0]))]
        if D == 3:
            k = rvec('k', 3)
            cr = [sub(mul(k[1], s[2]), mul(k[2], s[1])), sub(mul(k[2], s[0]), mul(k[0], s[2])), sub(mul(k[0], s[1]), mul(k[1], s[0]))]
            u = [add(a, b) for a, b in zip(u, cr)]
        return u
    U = approach(Xs)
    mu2 = w('vf_mu', rs('h'), w.arr(U), w.arr(Xs))
    ok, dd, how = nonneg(l, E.fneg(mu2))
    p.ob('mu:approaching:%dD' % D, ok, loc(m, 'viscosity::mu'), 'mu is not positive for approaching particles', dd, how)
    # symmetric in the pair
    mu3 = w('vf_mu', rs('h'), w.arr([E.fneg(x) for x in V]), w.arr([E.fneg(x) for x in Xs]))
    ok, dd, how, n = identity(l, [('mu', mu, mu3)])
    p.ob('mu:symmetric:%dD' % D, ok, loc(m, 'viscosity::mu'), 'mu_ab = mu_ba', dd, how)
    p.used(w.it, m)
    for vs in ('constant', 'cullen'):
        w = world(m, D, vs)
        fn = 'double viscosity::viscosity_function<'
        pi = lambda x: w('vf_Pi', rs('alpha'), rs('rho'), rs('c'), x)
        ok, dd, how = nonneg(l, pi(E.fneg(rs('n'))))
        p.ob('Pi:repulsive:%s:%dD' % (vs, D), ok, loc(m, fn), 'Pi_ab is not negative for mu_ab <= 0', dd, how)
        ok, dd, how, n = identity(l, [('Pi', pi(rc(0)), rc(0))])
        p.ob('Pi:separating:%s:%dD' % (vs, D), ok, loc(m, fn), 'Pi_ab vanishes with mu_ab', dd, how)
        if vs == 'constant':
            ok, dd, how, n = identity(l, [('Pi', w('vf_av', rs('rho'), rs('c'), rs('n')), pi(rs('n')))])
            p.ob('Pi:same:%dD' % D, ok, loc(m, 'viscosity::artificial_viscosity'), 'both forms of the constant viscosity agree', dd, how)
        p.used(w.it, m)
        # heating of a pair without pressure
        w = world(m, D, vs, ms={'vfm_F': lambda it, st, a, i: E.fneg(rs('fF'))})
        s = rvec('s', D)
        xa, va = rvec('A.x', D), rvec('A.v', D)
        u = approach(s)
        vb = [sub(x, y) for x, y in zip(va, u)]
        hy = [E.bnot(E.fcmp('oeq', s[0], rc(0)))]
        Z = [rc(0)] * D
        for t, vb_ in (('approaching', vb), ('separating', [add(x, y) for x, y in zip(va, u)])):
            a, da = w.body('A', {'x': s, 'w': va, 'v': va, 'P': rc(0)})
            b, db = w.body('B', {'x': Z, 'w': vb_, 'v': vb_, 'P': rc(0)})
            call(w, 'vf_dudt', (a,), [b])
            call(w, 'vf_accel', (a,), [b])
            r = w.read(a)
            if t == 'approaching':
                ok, dd, how = nonneg(l, r['du'], hyps=hy)
                p.ob('heat:%s:%s:%dD' % (t, vs, D), ok, loc(m, 'physics::compute_dudt'), 'viscosity heats approaching particles', dd, how)
                ok, dd, how = nonneg(l, E.fneg(dot(r['a'], u)), hyps=hy)
                p.ob('work:%s:%s:%dD' % (t, vs, D), ok, loc(m, 'physics::compute_acceleration'), 'viscosity slows the approach', dd, how)
            else:
                ok, dd, how, n = identity(l, [('heat', r['du'], rc(0))] + [('acceleration', x, rc(0)) for x in r['a']], hyps=hy)
                p.ob('heat:%s:%s:%dD' % (t, vs, D), ok, loc(m, 'physics::compute_dudt'), 'viscosity does nothing to separating particles', dd, how)
        p.used(w.it, m)
    return p


def p26():
    ck = Check('P26', 'The viscosity terms and the heating and acceleration they cause for a pressureless pair are extracted as value graphs; their signs are read off the algebraic normal form in every region.',
               ['real arithmetic', 'coefficients, densities and smoothing lengths are not negative', 'the kernel decreases with distance (gradient factor not positive)', 'relative velocity is written as approach along the separation plus any component across it'])
    for x in pmap(visc, [(d,) for d in (3, 2, 1)]):
        ck.extend(x)
    return finish(ck, 36)
