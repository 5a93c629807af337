"""P10, P11, P25, P28: time integration, tree-node aggregates, time step, smoothing length."""
from checks.sph import *
from checks.p03 import load, world, flat
from vf.mpi import Mpi, peers, renamed
from vf.interp import i2r

HALF = rc(0.5)


def only(p, key, d0, d1, ks, loc):
    """nothing but the named quantities changes"""
    c = changed(d0, d1, ks)
    p.ob(key, not c, loc, 'changes nothing but ' + ', '.join(NAME[k] for k in ks) if ks else 'changes nothing', 'changes ' + ', '.join(NAME[k] for k in c) if c else 'no other store reaches the particle', 'value graph identity')


def steps(D):
    p = Part()
    m = load(D)
    p.units.append('sph.cc/%dD' % D)
    dt = rs('step')

    def one(f, over=None, therm=None, ext=False):
        w = world(m, D, 'constant')
        w('vf_eos')
        if ext:
            w('vf_ext')
        w('vf_dt', dt)
        if therm is not None:
            w('vf_therm', ic(therm[0], 1), ic(therm[1], 1))
        a, d = w.body('A', over)
        w(f, a)
        p.used(w.it, m)
        return d, w.read(a), w
    up = lambda x, r, s: [add(i, mul(s, j)) for i, j in zip(x, r)]
    hd = mul(HALF, dt)
    I = 'integration::'
    for f, name, ks, spec, rule in [
            ('vf_kickv', I + 'leapfrog_kick_v', ['v'], lambda d: {'v': up(d['v'], [add(a, g) for a, g in zip(d['a'], d['g'])], hd)}, 'v += dt/2 (hydrodynamic + gravitational acceleration)'),
            ('vf_kicku', I + 'leapfrog_kick_u', ['u'], lambda d: {'u': add(d['u'], mul(hd, d['du']))}, 'u += dt/2 du/dt'),
            ('vf_kicke', I + 'leapfrog_kick_e', ['e'], lambda d: {'e': add(d['e'], mul(hd, d['de']))}, 'e += dt/2 de/dt'),
            ('vf_drift', I + 'leapfrog_drift', ['x'], lambda d: {'x': up(d['x'], d['v'], dt)}, 'x += dt v'),
            ('vf_save', I + 'save_velocityhalf', ['w'], lambda d: {'w': d['v']}, 'the saved velocity is the velocity'),
            ('vf_dadt', I + 'dadt_integration', ['K'], lambda d: {'K': add(d['K'], mul(dt, d['dK']))}, 'K += dt dK/dt')]:
        d0, d1, w = one(f)
        s = spec(d0)
        ok, dd, how, n = identity(al('A'), [(n, x, y) for (n, x), (_, y) in zip(flat(d1, ks), flat(s, ks))])
        k = name.split('::')[1]
        p.ob('step:%s:%dD' % (k, D), ok, loc(m, name), rule, dd, how)
        only(p, 'frame:%s:%dD' % (k, D), d0, d1, ks, loc(m, name))
    # kick and drift back: the scheme is reversible
    w = world(m, D, 'constant')
    a, d0 = w.body('A')
    w('vf_dt', dt)
    for f in ('vf_kickv', 'vf_drift', 'vf_kickv'):
        w(f, a)
    w('vf_dt', E.fneg(dt))
    for f in ('vf_kickv', 'vf_drift', 'vf_kickv'):
        w(f, a)
    d1 = w.read(a)
    ok, dd, how, n = identity(al('A'), [(n, x, y) for (n, x), (_, y) in zip(flat(d1, ['x', 'v']), flat(d0, ['x', 'v']))])
    p.ob('step:reversible:%dD' % D, ok, loc(m, I + 'leapfrog_drift'), 'kick-drift-kick with the opposite step restores position and velocity', dd, how)
    p.used(w.it, m)
    # energies
    kin = lambda d: mul(HALF, dot(d['v'], d['v']))
    phi = lambda d: E.call('phi', d['x'])
    pos = al('A')
    for ext in (0, 1):
        t = ':external' if ext else ''
        pot = phi if ext else (lambda d: rc(0))
        d0, d1, w = one('vf_etot', ext=ext)
        ok, dd, how, n = identity(pos, [('e', d1['e'], add(d0['u'], kin(d0), pot(d0)))])
        p.ob('energy:set_total_energy%s:%dD' % (t, D), ok, loc(m, 'physics::set_total_energy'), 'e = u + v^2/2 + potential', dd, how)
        only(p, 'frame:set_total_energy%s:%dD' % (t, D), d0, d1, ['e'], loc(m, 'physics::set_total_energy'))
        w = world(m, D, 'constant')
        if ext:
            w('vf_ext')
        a, d0 = w.body('A')
        w('vf_etot', a)
        x = w.read(a)
        w('vf_eint', a)
        d1 = w.read(a)
        ok, dd, how, n = identity(pos, [('u', d1['u'], d0['u'])])
        p.ob('energy:recover_internal_energy%s:%dD' % (t, D), ok, loc(m, 'physics::recover_internal_energy'), 'undoes set_total_energy', dd, how)
        only(p, 'frame:recover_internal_energy%s:%dD' % (t, D), x, d1, ['u'], loc(m, 'physics::recover_internal_energy'))
        p.used(w.it, m)
        # pressure and sound speed at the half step
        d0, d1, w = one('vf_half', ext=ext)
        u = add(d0['u'], mul(hd, d0['du']))
        ok, dd, how, n = identity(pos, [('P', d1['P'], E.call('eosP', [d0['rho'], u, d0['K'], d0['Ye']])), ('c', d1['c'], E.call('eosC', [d0['rho'], u, d0['K'], d0['Ye']])), ('u', d1['u'], d0['u'])])
        p.ob('half:recompute_pressure_soundspeed%s:%dD' % (t, D), ok, loc(m, 'physics::recompute_pressure_soundspeed('), 'pressure and sound speed belong to u + dt/2 du/dt, the energy itself stays', dd, how)
        only(p, 'frame:recompute_pressure_soundspeed%s:%dD' % (t, D), d0, d1, ['P', 'c', 'u'], loc(m, 'physics::recompute_pressure_soundspeed('))
        # e given as u + kinetic + potential with u positive
        ov = {'v': rvec('A.v', D), 'x': rvec('A.x', D)}
        e = add(rs('A.u'), mul(HALF, dot(ov['v'], ov['v'])), E.call('phi', ov['x']) if ext else rc(0))
        d0, d1, w = one('vf_halft', over=dict(ov, e=e), ext=ext)
        u = add(d0['u'], mul(hd, sub(d0['de'], dot(d0['v'], d0['a']))))
        ok, dd, how, n = identity(pos, [('P', d1['P'], E.call('eosP', [d0['rho'], u, d0['K'], d0['Ye']])), ('c', d1['c'], E.call('eosC', [d0['rho'], u, d0['K'], d0['Ye']])), ('u', d1['u'], d0['u'])])
        p.ob('half:recompute_pressure_soundspeed_thermokinetic%s:%dD' % (t, D), ok, loc(m, 'physics::recompute_pressure_soundspeed_thermokinetic'), 'pressure and sound speed belong to u + dt/2 (de/dt - v.a)', dd, how)
        only(p, 'frame:recompute_pressure_soundspeed_thermokinetic%s:%dD' % (t, D), d0, d1, ['P', 'c', 'u'], loc(m, 'physics::recompute_pressure_soundspeed_thermokinetic'))
    # drag
    d0, d1, w = one('vf_dragv')
    dv = [sub(x, y) for x, y in zip(d1['a'], d0['a'])]
    b, g = w('vf_beta'), w('vf_gamma')
    k = add(b, mul(g, dot(d0['v'], d0['v'])))
    ok, dd, how, n = identity(al('A'), [('a' + 'xyz'[i], dv[i], E.fneg(mul(k, d0['v'][i]))) for i in range(D)])
    p.ob('drag:acceleration:%dD' % D, ok, loc(m, 'physics::add_drag_acceleration'), 'drag adds -(beta + gamma v^2) v', dd, how)
    only(p, 'frame:add_drag_acceleration:%dD' % D, d0, d1, ['a'], loc(m, 'physics::add_drag_acceleration'))
    for f, q, name in (('vf_drage', 'de', 'add_drag_dedt'), ('vf_dragu', 'du', 'add_drag_dudt')):
        e0, e1, w = one(f)
        ok, dd, how, n = identity(al('A'), [(q, sub(e1[q], e0[q]), dot(d0['v'], dv))])
        p.ob('drag:%s:%dD' % (name, D), ok, loc(m, 'physics::' + name), 'adds the power of the drag acceleration', dd, how)
        only(p, 'frame:%s:%dD' % (name, D), e0, e1, [q], loc(m, 'physics::' + name))
    # clock
    for ad in (0, 1):
        w = world(m, D, 'constant')
        w('vf_dt', dt)
        w('vf_iter', sym('iter', E.I(64)))
        w('vf_clock', rs('time'), rs('next'))
        w('vf_advance', ic(ad, 32))
        ok, dd, how, n = identity(al('A'), [('time', w('vf_get_time'), rs('next') if ad else add(rs('time'), dt))])
        p.ob('clock:time:%s:%dD' % ('adaptive' if ad else 'fixed', D), ok, loc(m, 'physics::advance_time'), 'time moves on by one step', dd, how)
        it1 = w('vf_get_iter')
        p.ob('clock:iteration:%s:%dD' % ('adaptive' if ad else 'fixed', D), it1 is ibin('add', sym('iter', E.I(64)), ic(1, 64)), loc(m, 'physics::advance_time'), 'the iteration counter moves on by one', E.show(it1, 3), 'value graph identity')
        p.used(w.it, m)
    return p


def loc(m, f):
    return where(m, f)


def p10():
    ck = Check('P10', 'Each integration routine is interpreted on a particle whose every quantity is its own symbol; the quantities after the call are compared, as algebraic normal forms, with the update the scheme prescribes and all others with themselves.',
               ['real arithmetic', 'thermokinetic recovery is analysed where the recovered internal energy is positive (the code stops otherwise)'])
    for x in pmap(steps, [(d,) for d in (3, 2, 1)]):
        ck.extend(x)
    return finish(ck, 90)


# ---------------------------------------------------------------------------- P28
def volumes(D):
    p = Part()
    m = load(D)
    p.units.append('sph.cc/%dD' % D)
    NS = 'ABC'
    box = {}
    l = al(NS, ['param::_sph_eta', 'kernels::kernel_width', 'total'])

    def run(f, *a):
        mp = box['mpi'] = Mpi()
        w = world(m, D, 'constant', ms=mp.models())
        b, ds = bodies(w, NS)
        eta, width = w('vf_eta'), w('vf_width')
        w(f, b, ic(len(NS), 32), *a)
        p.used(w.it, m)
        return w, [w.read(padd(b, ic(w.size * i, 64))) for i in range(len(NS))], ds, mul(eta, width)
    h = lambda d, s: mul(s, rpow(div(d['m'], d['rho']), 1.0 / D))
    w, rs_, ds, s = run('vf_h')
    F = 'physics::compute_smoothinglength'
    ok, dd, how, n = identity(l, [('h of particle %d' % i, r['h'], h(d, s)) for i, (r, d) in enumerate(zip(rs_, ds))])
    p.ob('h:each:%dD' % D, ok, loc(m, F), 'h = eta * support * (m/rho)^(1/D)', dd, how)
    for i in range(len(NS)):
        only(p, 'frame:each:%d:%dD' % (i, D), ds[i], rs_[i], ['h'], loc(m, F))
    F = 'physics::compute_average_smoothinglength'
    N_ = sym('total', E.I(64))
    w, rs_, ds, s = run('vf_hav', N_)
    tot = add(*[h(d, s) for d in ds], rs('others0'))
    ok, dd, how, n = identity(l, [('h of particle %d' % i, r['h'], div(tot, i2r('sitofp', N_))) for i, r in enumerate(rs_)])
    got = [peers(box['mpi'], r['h'], NS) for r in rs_]
    if not ok and None not in got:  # divided before the sum over ranks?
        l2 = alg.Alg(positive=[n + t + '.' + k for n in NS for t in ('', '2') for k in POSN] + [x.a[0] for x in E.walk([s]) if x.op == 's'])
        tot = [h(d, s) for d in ds]
        tot = add(*(tot + [renamed(x, NS) for x in tot]))
        ok, dd, how, n = identity(l2, [('h of particle %d' % i, g, div(tot, i2r('sitofp', N_))) for i, g in enumerate(got)])
    p.ob('h:mean:%dD' % D, ok, loc(m, F), 'h is the sum of eta * support * (m/rho)^(1/D) over every particle of every rank, divided by their number', dd, how)
    for i in range(len(NS)):
        only(p, 'frame:mean:%d:%dD' % (i, D), ds[i], rs_[i], ['h'], loc(m, F))
    return p


def p28():
    ck = Check('P28', 'The smoothing-length updates are interpreted on arrays of symbolic particles in 1-3 dimensions; the new lengths are compared, as algebraic normal forms, with eta * support * (m/rho)^(1/D), and every other quantity with itself. The loop is analysed on three particles; each iteration depends on its own particle only, as the frame obligations show.',
               ['real arithmetic', 'masses and densities are positive', 'three particles stand for any number'])
    for x in pmap(volumes, [(d,) for d in (3, 2, 1)]):
        ck.extend(x)
    return finish(ck, 20)


# ---------------------------------------------------------------------------- P25
def fmin(a, b):
    return ite(E.fcmp('olt', b, a), b, a)


def courant(D):
    p = Part()
    m = load(D)
    p.units.append('sph.cc/%dD' % D)
    F = 'physics::compute_dt'
    tiny = rc(1e-24)
    for therm in ((0, 0), (1, 0), (1, 1)):
        for ext in ((0, 1) if therm == (1, 1) else (0,)):
            tag = '%s%s:%dD' % ({(0, 0): 'plain', (1, 0): 'internal', (1, 1): 'thermokinetic'}[therm], ':external' if ext else '', D)
            w = world(m, D, 'constant')
            if ext:
                w('vf_ext')
            w('vf_therm', ic(therm[0], 1), ic(therm[1], 1))
            a, d0 = w.body('A')
            pars = [w(x) for x in ('vf_cfl', 'vf_eta', 'vf_width', 'vf_valpha')]
            cfl, eta, width, va = pars
            w('vf_cdt', a)
            d1 = w.read(a)
            p.used(w.it, m)
            only(p, 'frame:%s' % tag, d0, d1, ['dt'], loc(m, F))
            l = alg.Alg(positive=['A.' + k for k in POSN] + [x.a[0] for x in (cfl, eta, width)], nonneg=[va.a[0]])
            dx = div(d0['h'], mul(eta, width))
            norm = lambda v: sqrt(dot(v, v))
            acc = [add(x, y) for x, y in zip(d0['a'], d0['g'])]
            lims = [('velocity', div(dx, add(norm(d0['v']), tiny))), ('acceleration', sqrt(div(dx, add(norm(acc), tiny)))), ('signal speed', div(dx, add(tiny, mul(d0['vs'], add(rc(1), mul(rc(0.6), va))))))]
            dt = d1['dt']
            # the three limits as opaque positive quantities, exact when the code computes them this way
            lim = fmin(fmin(lims[0][1], lims[1][1]), lims[2][1])
            if therm != (1, 1):
                ok, dd, how, n = identity(l, [('dt', dt, mul(cfl, lim))], tol=1e-9)
                if ok is False:  # a smaller step keeps the promise too
                    rs0 = [nonneg(l, sub(mul(cfl, x), dt)) for _, x in lims] + [nonneg(l, dt, strict=True)]
                    ok, dd, how = min(((r[0], '%s: %s' % (nm, r[1]), r[2]) for r, nm in zip(rs0, [x for x, _ in lims] + ['positive'])), key=lambda r: (r[0] is not False, r[0] is not None))
                p.ob('dt:limits:%s' % tag, ok, loc(m, F), 'dt is cfl times the smallest of dx/|v|, sqrt(dx/|a|), dx/signal speed', dd, how)
                continue
            # the Courant step under one name, wherever and however it is computed
            S = rs('Courant step')
            dt = opaque(l, dt, [(mul(cfl, lim), S), (lim, div(S, cfl))], [x for _, x in lims])
            l = alg.Alg(positive=['A.' + k for k in POSN] + [x.a[0] for x in (cfl, eta, width, S)], nonneg=[va.a[0]])
            top = S if 'Courant step' in E.symbols([dt]) else mul(cfl, lim)
            energy(p, l, w, d0, dt, top, tag, ext, loc(m, F))
    return p


def energy(p, l, w, d0, dt, top, tag, ext, where_):
    """the step lowered for the internal energy: every value the loop can end with"""
    L = rs('L')
    phi = lambda x: E.call('phi', x) if ext else rc(0)
    need = lambda t: E.fcmp('olt', sub(sub(phi([add(x, mul(t, v)) for x, v in zip(d0['x'], d0['v'])]), phi(d0['x'])), mul(t, dot(d0['v'], d0['g']))), mul(HALF, d0['u']))
    # at sampled points: the steps with which the search ends although the energy changes too much
    import random
    rnd, late, cond = random.Random(17), {}, need(dt)
    for _ in range(400):
        env, memo = {'?': alg.default_sampler(rnd, l.pnames, l.nnames)}, {}
        try:
            v, t, c = alg.evalf(dt, env, memo), alg.evalf(top, env, memo), alg.evalf(cond, env, memo)
        except (OverflowError, ValueError, ZeroDivisionError):
            continue
        if v == v and t > 0 and not c:
            late.setdefault(float('%.6g' % (v / t)), []).append({k: x for k, x in env.items() if isinstance(k, str) and k != '?'})
    late = {k: v for k, v in late.items() if len(v) > 2}
    if len(late) > 1:
        r = max(late, key=lambda k: len(late[k]))
        p.ob('dt:energy:%s' % tag, False, where_, 'the step changes potential energy by less than half the internal energy', 'the search ends with %s Courant steps; it changes the energy too much at %s' % (' or '.join('%g' % k for k in sorted(late)), wit(late[r][0])), 'witness')
        return
    # every step the search can end with, by the answers of its comparisons
    bad, proven, open_, seen = [], 0, [], {}
    for ctx, es in alg.cases(l, [dt, ite(need(dt), rc(1), rc(0))], limit=600):
        e, met = es
        if e.id not in seen:
            seen[e.id] = True
            ok, dd, how = nonneg(l, sub(top, e))
            if ok is False:
                bad.append('exceeds the Courant limit: ' + dd)
            ok, dd, how = nonneg(l, e, strict=True)
            if ok is False:
                bad.append('not positive: ' + dd)
        if E.isr(met) and met.a[0] == 1:
            proven += 1
        else:
            open_.append((e, 'the step can be %s%s' % (E.show(e, 6)[:200], ' where ' + region(ctx)[:400] if ctx.desc else '')))
    p.ob('dt:below:%s' % tag, not bad, where_, 'the energy limit only lowers the Courant step, and keeps it positive', '; '.join(bad[:2]) or '%d final steps' % len(seen), 'gated value graph')
    # a search that does not converge stops the run: its step never leaves the routine
    ok = proven >= 3 and len(open_) <= 1
    p.ob('dt:energy:%s' % tag, ok, where_, 'the step changes potential energy by less than half the internal energy', '%d final steps' % proven if ok else '; '.join(x[1] for x in open_[:2]), 'regions of the gates')


def globalstep(D, mode):
    p = Part()
    m = load(D)
    p.units.append('sph.cc/%dD' % D)
    F = 'physics::set_adaptive_timestep'
    NS = 'ABC' if not mode else 'A'
    mp = Mpi()
    w = world(m, D, 'constant', ms=mp.models())
    b, ds = bodies(w, NS)
    dt, T = rs('step'), rs('time')
    w('vf_dt', dt)
    w('vf_clock', T, rs('next'))
    # a capital letter: this output is due now
    outs_ = [c for c in mode.lower()]
    on = lambda c: rs('every ' + c) if c in outs_ else rc(0)
    due = lambda c: T if c.upper() in mode else rs('due ' + c)
    w('vf_outs', on('s'), on('c'), on('h'), due('s'), due('c'), due('h'), rs('saved'))
    w('vf_adaptive', b, ic(len(NS), 32))
    new = w('vf_get_dt')
    p.used(w.it, m)
    tag = '%s:%dD' % (mode or 'none', D)
    for i in range(len(NS)):
        c = changed(ds[i], w.read(padd(b, ic(w.size * i, 64))))
        p.ob('global:frame:%d:%s' % (i, tag), not c, loc(m, F), 'choosing the global step changes no particle', ', '.join(c), 'value graph identity')
    l = alg.Alg(positive=['step'] + ['every ' + c for c in outs_] + [n + '.dt' for n in NS] + ['others0'], nonneg=['saved'])
    # an output time is never in the past
    hy = [(sub(due(c), T), True) for c in outs_ if c in mode]
    for i, n in enumerate(NS):
        ok, dd, how = nonneg(l, sub(ds[i]['dt'], new), facts=hy, prune=True, skip_eq=False, limit=20000)
        p.ob('global:limit:%s:%s' % (n, tag), ok, loc(m, F), 'the step does not exceed the limit of any particle', dd, how)
    ok, dd, how = nonneg(l, sub(rs('others0'), new), facts=hy, prune=True, skip_eq=False, limit=20000)
    p.ob('global:limit:others:%s' % tag, ok, loc(m, F), 'the step does not exceed the limits on other ranks', dd, how)
    ok, dd, how = nonneg(l, new, strict=True, facts=hy, prune=True, skip_eq=False, limit=20000)
    p.ob('global:positive:%s' % tag, ok, loc(m, F), 'the step is positive', dd, how)
    w('vf_advance', ic(1, 32))
    ok, dd, how, n = identity(l, [('time', w('vf_get_time'), add(T, new))])
    p.ob('global:time:%s' % tag, ok, loc(m, F), 'time advances by the step chosen', dd, how)
    for c in outs_:
        ok, dd, how = nonneg(l, sub(due2(w, c), w('vf_get_time')), facts=hy, prune=True, skip_eq=False, limit=20000)
        p.ob('global:due:%s:%s' % (c, tag), ok, loc(m, F), 'the step ends no later than the next output', dd, how)
    return p


def due2(w, c):
    return w({'s': 'vf_due_s', 'c': 'vf_due_c', 'h': 'vf_due_h'}[c])


def p25():
    ck = Check('P25', 'The step limits of a particle and the choice of the global step are interpreted on symbolic particles; every final value of the gated value graph is compared with each stability limit, by the sign of its normal form or by projection of the linear facts of its region.',
               ['real arithmetic', 'smoothing lengths, limits and parameters are positive', 'output times are not in the past when a step is chosen (the start of the run and the end of every step set them so)', 'one to three particles and one value for the other ranks stand for any number', 'an energy search that does not converge stops the run'])
    for x in pmap(_p25, [('c', 3), ('c', 2), ('c', 1)] + [('g', 1, x) for x in ('', 's', 'c', 'h', 'S', 'C', 'H', 'sC', 'SH', 'ch', 'SCH', 'sch')]):
        ck.extend(x)
    return finish(ck, 60)


def _p25(k, D, mode=None):
    return courant(D) if k == 'c' else globalstep(D, mode)


# ---------------------------------------------------------------------------- P11
def nodes(D, ne, nn):
    """compute_cofm on ne particles and nn child nodes"""
    p = Part()
    m = load(D)
    p.units.append('sph.cc/%dD' % D)
    F = 'physics::compute_cofm'
    tag = '%dp%dn:%dD' % (ne, nn, D)
    w = world(m, D, 'constant')
    w.it.bitdom = True
    ents = [w.body(n) for n in 'ABC'[:ne]]
    size = w('vf_node_size').a[0]

    def put(n):
        c = w.it.alloc(w.st, n, size)
        d = {'x': rvec(n + '.x', D), 'lo': rvec(n + '.lo', D), 'hi': rvec(n + '.hi', D), 'm': rs(n + '.m'), 'r': rs(n + '.r'), 'lap': rs(n + '.lap'), 'sub': E.icast('zext', sym(n + '.sub', E.I(24)), 64)}
        w('vf_node_put', c, w.arr(d['x'] + d['lo'] + d['hi'] + [d['m'], d['r'], d['lap']]), d['sub'])
        return c, d

    def get(c):
        o = w.out(3 * D + 3)
        s = w('vf_node_get', c, o)
        v = w.get(o, 3 * D + 3)
        return {'x': v[:D], 'lo': v[D:2 * D], 'hi': v[2 * D:3 * D], 'm': v[3 * D], 'r': v[3 * D + 1], 'lap': v[3 * D + 2], 'sub': s}
    kids = [put(n) for n in ['N1', 'N2', 'N3'][:nn]]
    c, _ = put('N0')
    e, n_ = w.list([b for b, _ in ents])
    k, j_ = w.list([b for b, _ in kids])
    w('vf_cofm', c, e, n_, k, j_)
    g = get(c)
    p.used(w.it, m)
    l = alg.Alg(positive=[n + '.' + x for n in 'ABC' for x in POSN] + ['N%d.m' % i for i in range(4)], nonneg=['N%d.%s' % (i, x) for i in range(4) for x in ('r', 'lap')])
    src = [(d['m'], d['x'], None) for _, d in ents] + [(d['m'], d['x'], d) for _, d in kids]
    mass = add(*[s[0] for s in src])
    ok, dd, how, n = identity(l, [('mass', g['m'], mass)])
    p.ob('mass:' + tag, ok, loc(m, F), 'the mass of a node is the sum of the masses below it', dd, how)
    ok, dd, how, n = identity(l, [('centre ' + 'xyz'[i], mul(g['x'][i], mass), add(*[mul(s[0], s[1][i]) for s in src])) for i in range(D)])
    p.ob('centre:' + tag, ok, loc(m, F), 'the centre of a node is the mass-weighted mean of what is below it', dd, how)
    cnt = ic(ne, 64)
    for _, d in kids:
        cnt = ibin('add', cnt, d['sub'])
    eq = g['sub'] is cnt or bdd.decide(E.icmp('eq', E.icast('trunc', g['sub'], 32), E.icast('trunc', cnt, 32))) == 1
    p.ob('count:' + tag, bool(eq), loc(m, F), 'a node counts the particles below it', E.show(g['sub'], 4), 'value graph identity')
    H = lambda d: mul(HALF, d['h'])
    cover = []
    for nm, d in zip('ABC', [d for _, d in ents]):
        for i in range(D):
            cover.append(('box below %s%s' % (nm, 'xyz'[i]), sub(sub(d['x'][i], H(d)), g['lo'][i])))
            cover.append(('box above %s%s' % (nm, 'xyz'[i]), sub(g['hi'][i], add(d['x'][i], H(d)))))
    for nm, d in zip(['N1', 'N2', 'N3'], [d for _, d in kids]):
        for i in range(D):
            cover.append(('box below %s%s' % (nm, 'xyz'[i]), sub(d['lo'][i], g['lo'][i])))
            cover.append(('box above %s%s' % (nm, 'xyz'[i]), sub(g['hi'][i], d['hi'][i])))
    for nm, x in cover:
        ok, dd, how = nonneg(l, x, prune=True)
        p.ob('encloses:%s:%s' % (nm.replace(' ', '-'), tag), ok, loc(m, F), 'the box of a node encloses every particle below it with half its smoothing length', dd, how)
    # tight: the box is touched by one of its members
    for i in range(D):
        for s, (q, o) in (('lo', (g['lo'][i], [sub(d['x'][i], H(d)) for _, d in ents] + [d['lo'][i] for _, d in kids])), ('hi', (g['hi'][i], [add(d['x'][i], H(d)) for _, d in ents] + [d['hi'][i] for _, d in kids]))):
            t = FALSE
            for y in o:
                t = bor(t, E.fcmp('oeq', q, y))
            ok, dd, how = touched(l, q, o)
            p.ob('tight:%s%s:%s' % (s, 'xyz'[i], tag), ok, loc(m, F), 'each face of the box is touched by something below the node', dd, how)
    # radius and margin about the centre; the centre stands for itself
    dist = lambda y: sqrt(add(*[mul(sub(a, b), sub(a, b)) for a, b in zip(g['x'], y)]))
    rad, lap = [], []
    for d in [d for _, d in ents]:
        rad.append(dist(d['x']))
        lap.append(add(dist(d['x']), d['h']))
    for d in [d for _, d in kids]:
        rad.append(add(dist(d['x']), d['r']))
        lap.append(add(dist(d['x']), d['r'], d['lap']))
    for nm, q, o in (('radius', g['r'], rad), ('margin', g['lap'], lap)):
        ok, dd, how = least(l, q, o)
        p.ob('%s:%s' % (nm, tag), ok, loc(m, F), 'the %s reaches from the centre to the furthest %s below the node' % (nm, 'particle' if nm == 'radius' else 'smoothing sphere'), dd, how)
    return p


def touched(l, q, opts):
    """q equals one of the options on every region"""
    bad, n = [], 0
    for ctx, es in alg.cases(l, [q] + opts, prune=[]):
        n += 1
        if not any(not l.of(sub(es[0], o)).t for o in es[1:]):
            bad.append(region(ctx))
    return (not bad and n > 0), '; '.join(bad[:2]) or '%d regions' % n, 'normal form'


def least(l, q, opts):
    """q is the largest of the options"""
    spec = rc(0)
    for o in opts:
        spec = ite(E.fcmp('olt', spec, o), o, spec)
    ok, dd, how, n = identity(l, [('value', q, spec)])
    return ok, dd, how


def regroup(D):
    """combining partial nodes gives what the particles give at once"""
    p = Part()
    m = load(D)
    p.units.append('sph.cc/%dD' % D)
    F = 'physics::compute_cofm'
    l = al('ABCD')
    w = world(m, D, 'constant')
    w.it.bitdom = True
    size = w('vf_node_size').a[0]
    bs = {n: w.body(n)[0] for n in 'ABCD'}

    def node(t):
        c = w.it.alloc(w.st, str(t), size)
        w('vf_node_put', c, w.arr([rc(0)] * (3 * D + 3)), ic(0, 64))
        e, n = w.list([bs[x] for x in t if isinstance(x, str)])
        k, j = w.list([node(x) for x in t if not isinstance(x, str)])
        w('vf_cofm', c, e, n, k, j)
        return c

    def get(c):
        o = w.out(3 * D + 3)
        s = w('vf_node_get', c, o)
        v = w.get(o, 3 * D + 3)
        return v[:3 * D + 1], s
    base, s0 = get(node('ABCD'))
    names = [a + b for a in ('centre ', 'lower ', 'upper ') for b in 'xyz'[:D]] + ['mass']
    for t in (('DCBA'), (('A', 'B'), ('C', 'D')), (('A', 'C'), 'B', 'D'), ((('A', 'B'), 'C'), 'D'), (('D',), ('A', 'B', 'C'))):
        v, s = get(node(t))
        nm = str(t).replace("'", '').replace(' ', '')
        for n, x, y in zip(names, v, base):
            ok, dd, how = (True, 'same value', 'value graph identity') if x is y else equal(l, x, y)
            p.ob('regroup:%s:%s:%dD' % (n.replace(' ', '-'), nm, D), ok, loc(m, F), 'the grouping of the particles into nodes does not matter', dd, how)
        p.ob('regroup:count:%s:%dD' % (nm, D), s is s0, loc(m, F), 'the grouping of the particles into nodes does not matter', '', 'value graph identity')
    p.used(w.it, m)
    return p


def equal(l, x, y):
    bad, n = [], 0
    for ctx, (a, b) in alg.cases(l, [x, y], prune=[]):
        n += 1
        q = l.of(sub(a, b))
        if q.t and not alg.infeasible(l, alg.facts(l, ctx)):
            r = alg.zero(l, sub(a, b), ctx)
            if r.ok is False:
                bad.append('%s where %s' % (r.msg, region(ctx)))
    return not bad, '; '.join(bad[:2]) or '%d regions' % n, 'normal form'


def p11():
    ck = Check('P11', 'The aggregation of particles and child nodes is interpreted on symbolic members; mass, centre, count, box, radius and margin are compared with their definitions as normal forms, and nested aggregation with flat aggregation of the same particles.',
               ['real arithmetic', 'masses and smoothing lengths are positive', 'up to three members of each kind stand for any number', 'the trees whose nodes are checked come from a table of key layouts on 1-3 ranks'])
    from checks import p42
    p42.preload()
    for x in pmap(_p11, [(D, a, b) for D in (3, 2, 1) for a, b in ((1, 0), (2, 0), (0, 2), (1, 1), (2, 1), (1, 2))] + [(D, None, None) for D in (3, 2, 1)] + [(D, 'tree', c) for D in (3, 2, 1) for c in WHOLE]):
        ck.extend(x)
    return finish(ck, 200)


WHOLE = [(1, 1, 1, False), (2, 1, 0, True), (6, 1, 2, False), (9, 1, 4, False), (12, 1, 7, False), (7, 1, 3, True), (8, 2, 5, False), (10, 2, 2, False), (9, 3, 4, False)]


def _p11(D, a, b):
    if a == 'tree':
        from checks import p42
        return p42.whole(D, *b)
    return regroup(D) if a is None else nodes(D, a, b)
