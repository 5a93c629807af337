"""P27, P41: global sums, statistics and the domain range."""
from checks.sph import *
from vf.mpi import Mpi, peers, renamed
from vf.interp import i2r
from vf.text import Text

HALF = rc(0.5)


def load(D):
    return build.compile(DR + 'ana.cc', D, ['vf_*'])


def loc(m, f):
    return where(m, f)


def total(xs):
    return add(*xs)


def build_world(m, D, ms=None, size=None):
    mp = Mpi(size=size)
    w = World(m, D, ms=dict(mp.models(), **(ms or {})))
    return w, mp


def others(i):
    return sym('others%d' % i, R)


def sums(D):
    p = Part()
    m = load(D)
    p.units.append('ana.cc/%dD' % D)
    A = 'analysis::compute_total_'
    kin = lambda d: mul(HALF, d['m'], dot(d['v'], d['v']))
    phi = lambda d: E.call('phi', d['x'])
    if D == 2:
        L = lambda d: [mul(d['m'], sub(mul(d['x'][0], d['v'][1]), mul(d['x'][1], d['v'][0]))), rc(0)]
    else:
        L = lambda d: [mul(d['m'], sub(mul(d['x'][(i + 1) % 3], d['v'][(i + 2) % 3]), mul(d['x'][(i + 2) % 3], d['v'][(i + 1) % 3]))) for i in range(3)]
    Q = [('vf_mass', 'mass', '', lambda d: [d['m']], 'the mass'),
         ('vf_momentum', 'momentum', '', lambda d: [mul(d['m'], v) for v in d['v']], 'mass times velocity'),
         ('vf_kinetic', 'kinetic_energy', '', lambda d: [kin(d)], 'm v^2/2'),
         ('vf_internal', 'internal_energy', '', lambda d: [mul(d['m'], d['u'])], 'm u'),
         ('vf_gravity', 'gravitational_energy', '', lambda d: [mul(HALF, d['m'], d['phi'])], 'half of m times the gravitational potential'),
         ('vf_energy', 'energy', '', lambda d: [add(kin(d), mul(d['m'], add(d['u'], phi(d))))], 'kinetic + internal + external potential energy'),
         ('vf_energy', 'energy', ':thermokinetic', lambda d: [mul(d['m'], d['e'])], 'm e'),
         ('vf_energy', 'energy', ':gravity', lambda d: [add(kin(d), mul(d['m'], add(d['u'], phi(d))), mul(HALF, d['m'], d['phi']))], 'kinetic + internal + external + half the gravitational energy'),
         ('vf_energy', 'energy', ':thermokinetic:gravity', lambda d: [add(mul(d['m'], d['e']), mul(HALF, d['m'], d['phi']))], 'm e and half the gravitational energy')]
    if D > 1:
        Q.append(('vf_angmom', 'ang_mom', '', L, 'm r x v'))
    for f, name, var, spec, rule in Q:
        name = A + name
        tag = name.split('::')[1] + var
        n = len(spec({k: (rvec('A.' + k, D) if k in VEC else rs('A.' + k)) for k in VEC + SCA}))
        for nb in (3, 1, 0):
            w, mp = build_world(m, D)
            w('vf_ext')
            w('vf_therm', ic('thermo' in var, 1), ic('gravity' in var, 1))
            kinds = [sym(c + '.type', E.I(32)) for c in 'ABC'[:nb]]
            # an earlier call must leave nothing behind
            w(f, bodies(w, 'S')[0], ic(1, 32), w.out(3))
            arr, bs = bodies(w, 'ABC'[:nb], {c: {'type': t} for c, t in zip('ABC', kinds)})
            o = w.out(3)
            k0 = mp.n
            w(f, arr, ic(nb, 32), o)
            got = w.get(o, n)
            p.used(w.it, m)
            want = []
            for i in range(n):
                s = others(k0 + i)
                for d, t in zip(bs, kinds):
                    s = add(s, ite(E.icmp('eq', t, ic(0, 32)), spec(d)[i], rc(0)))
                want.append(s)
            if name.endswith('ang_mom') and D == 2:
                got, want = got[:1], want[:1]
            ok, dd, how, k = identity(al('ABCS'), [('component %d' % i, a, b) for i, (a, b) in enumerate(zip(got, want))])
            if nb == 3:
                full, kf, bs3, kinds3 = mp.own, k0, bs, kinds
            if not ok:  # scaled after the sum over ranks?
                got = [peers(mp, g, 'ABC', full, kf - k0) for g in got]
                if None not in got:
                    want = [add(rc(0), *[ite(E.icmp('eq', t, ic(0, 32)), spec(d)[i], rc(0)) for d, t in zip(bs, kinds)], *[renamed(ite(E.icmp('eq', t, ic(0, 32)), spec(d)[i], rc(0)), 'ABC') for d, t in zip(bs3, kinds3)]) for i in range(len(got))]
                    ok, dd, how, k = identity(al(['A', 'B', 'C', 'S', 'A2', 'B2', 'C2']), [('component %d' % i, a, b) for i, (a, b) in enumerate(zip(got, want))])
            p.ob('sum:%s:%d particles:%dD' % (tag, nb, D), ok, loc(m, name), 'the sum over every ordinary particle of every rank of ' + rule, dd, how)
            red = [c for c in mp.calls if c[0] not in ('allreduce',)]
            p.ob('reduce:%s:%d particles:%dD' % (tag, nb, D), not red and bool(mp.calls) and all(c[1] == 'sum' for c in mp.calls), loc(m, name), 'reduced once over all ranks, the result known to each', str(mp.calls), 'recorded calls')
            if nb:
                ch = []
                for i, d in enumerate(bs):
                    e = w.read(padd(arr, ic(w.size * i, 64)))
                    ch += changed(d, e)
                p.ob('frame:%s:%d particles:%dD' % (tag, nb, D), not ch, loc(m, name), 'changes no particle', ', '.join(NAME[k] for k in ch) or 'nothing', 'value graph identity')
    return p


def stats(D):
    p = Part()
    m = load(D)
    p.units.append('ana.cc/%dD' % D)
    G = 'diagnostic::compute_'
    lt = lambda a, b: E.fcmp('olt', a, b)
    mn = lambda a, b: ite(lt(a, b), a, b)
    mx = lambda a, b: ite(lt(b, a), a, b)
    full = {}
    for nb in (3, 1, 0):
        for f, name, val in (('vf_hstats', 'smoothinglength_stats', lambda d: d['h']), ('vf_vstats', 'velocity_stats', lambda d: sqrt(dot(d['v'], d['v'])))):
            w, mp = build_world(m, D)
            N = sym('N', E.I(64))
            w(f, bodies(w, 'S')[0], ic(1, 32), N, w.out(3))
            k0, c0 = mp.n, len(mp.calls)
            o = w.out(3)
            arr, bs = bodies(w, 'ABC'[:nb])
            w(f, arr, ic(nb, 32), N, o)
            p.used(w.it, m)
            order = [c[1] for c in mp.calls[c0:]]
            ok = sorted(order) == ['max', 'min', 'sum'] and all(c[0] == 'allreduce' for c in mp.calls)
            p.ob('reduce:%s:%d:%dD' % (name, nb, D), ok, loc(m, G + name), 'minimum, maximum and sum are each reduced over all ranks', str(mp.calls[c0:]), 'recorded calls')
            if not ok:
                continue
            oth = {c: others(k0 + i) for i, c in enumerate(order)}
            vs = [val(d) for d in bs]
            a = al('ABCS', extra_pos=['others%d' % i for i in range(mp.n)])
            got = w.get(o, 3)
            want = [oth['min'], oth['max'], oth['sum']]
            for v in vs:
                want = [mn(v, want[0]), mx(v, want[1]), add(want[2], v)]
            want[2] = div(want[2], i2r('sitofp', N))
            hy = [x for v in vs + list(oth.values()) for x in (lt(v, rc(1e100)), lt(rc(1e-100), v))]
            if nb == 3:
                full[name] = mp.own, k0, vs
            alt = [peers(mp, g, 'ABC', full[name][0], full[name][1] - k0) for g in got] if name in full else [None]
            v2 = vs + [renamed(v, 'ABC') for v in full[name][2]] if name in full else []
            for i, (k, rule) in enumerate((('min', 'the least over all ranks'), ('max', 'the greatest over all ranks'), ('average', 'the sum over all ranks by the number of particles'))):
                ok, dd, how, r = identity(a, [(k, got[i], want[i])], hyps=hy, prune=[])
                if not ok and None not in alt:  # finished after the reduction?
                    x = v2[0]
                    for v in v2[1:]:
                        x = (mn, mx, add)[i](x, v)
                    ok, dd, how, r = identity(al(['A', 'B', 'C', 'S', 'A2', 'B2', 'C2']), [(k, alt[i], x if i < 2 else div(x, i2r('sitofp', N)))], prune=[])
                p.ob('%s:%s:%d:%dD' % (k, name, nb, D), ok, loc(m, G + name), rule, dd, how)
    return p


def system(D, ms=None, nb=2):
    """a particle system with particles A, B.. on one of two ranks"""
    m = load(D)
    tx = Text()
    box = {}
    mm = dict(tx.models())
    for f in m.fns.values():
        if f.dem.endswith('::root_node()'):
            mm[f.name] = lambda it, st, a, i: box['root']
    mm.update(ms or {})
    w, mp = build_world(m, D, size=ic(2, 32), ms=mm)
    s = w('vf_new')
    arr, ds = bodies(w, 'ABC'[:nb])
    w('vf_set', s, arr, ic(nb, 32))
    box['root'] = w.it.alloc(w.st, 'root', w('vf_node_size').a[0])
    w('vf_node_at', box['root'], w.arr(rvec('root.', D)))
    return m, w, mp, tx, s, ds


def fields(items):
    """column names of a header by number"""
    import re
    return {int(k): v for k, v in re.findall(r'(\d+):\s*(\w+)', ''.join(v for k, v in items if k == 's'))}


def own(e, others_to=0.0):
    """the contribution of this rank"""
    mp = {n.id: rc(others_to) for n in E.walk([e]) if n.op == 's' and n.a[0].startswith('others')}
    return E.subst(e, mp) if mp else e


def columns(D):
    p = Part()
    p.units.append('ana.cc/%dD' % D)
    kin = lambda d: mul(HALF, d['m'], dot(d['v'], d['v']))
    if D > 1:
        L = lambda d, i: mul(d['m'], sub(mul(d['x'][(i + 1) % 3], d['v'][(i + 2) % 3]), mul(d['x'][(i + 2) % 3], d['v'][(i + 1) % 3])))
    for fmm in (0, 1) if D == 3 else (0,):
        for ie in (0, 1):
            m, w, mp, tx, s, ds = system(D)
            L_ = 'analysis::scalar_output'
            tag = ('%s%s:%dD' % (':gravity' if fmm else '', ':internal' if ie else '', D))
            w('vf_therm', ic(0, 1), ic(fmm, 1))
            w('vf_every', ic(20, 64), rs('t'), rs('step'), ic(10, 32), ic(fmm, 1), ic(ie, 1))
            w('vf_scalar', s, ic(0, 32))
            p.used(w.it, m)
            if len(tx.files) != 2:
                p.ob('columns:files' + tag, False, loc(m, L_), 'the first report writes a header and a line', '%d files written' % len(tx.files), 'recorded output')
                continue
            names, vals = fields(tx.files[0][1]), [v for k, v in tx.files[1][1] if k != 's']
            p.ob('columns:count' + tag, sorted(names) == list(range(1, len(vals) + 1)), loc(m, L_), 'as many values as named columns', '%d names, %d values' % (len(names), len(vals)), 'recorded output')
            S = lambda f: add(*[f(d) for d in ds])
            spec = {'time': rs('t'), 'timestep': rs('step'), 'total_mass': S(lambda d: d['m']), 'kinetic_energy': S(kin), 'internal_energy': S(lambda d: mul(d['m'], d['u'])),
                    'gravitational_energy': S(lambda d: mul(HALF, d['m'], d['phi'])), 'total_energy': S(lambda d: add(kin(d), mul(d['m'], d['u']), mul(HALF, d['m'], d['phi']) if fmm else rc(0)))}
            for i in range(D):
                spec['mom_' + 'xyz'[i]] = S(lambda d: mul(d['m'], d['v'][i]))
                spec['com_' + 'xyz'[i]] = rs('root.' + 'xyz'[i])
            for i in range(3 if D == 3 else 0):
                spec['ang_mom_' + 'xyz'[i]] = S(lambda d: L(d, i))
            if D == 2:
                spec['ang_mom_z'] = spec['and_mom_z'] = S(lambda d: mul(d['m'], sub(mul(d['x'][0], d['v'][1]), mul(d['x'][1], d['v'][0]))))
            for i, v in enumerate(vals):
                n = names.get(i + 1)
                if n == 'iteration':
                    ok, dd, how = v is ic(20, 64), E.show(v), 'value graph'
                elif n not in spec:
                    ok, dd, how = None, 'unknown column name %s' % n, ''
                else:
                    ok, dd, how, k = identity(al('AB'), [(n, own(v), spec[n])])
                p.ob('column:%d' % (i + 1) + tag, ok, loc(m, L_), 'the value written under a name is that quantity', '%s: %s' % (n, dd), how)
            # another rank: writes nothing, takes part in the same reductions
            m, w2, mp2, tx2, s2, ds2 = system(D)
            w2('vf_therm', ic(0, 1), ic(fmm, 1))
            w2('vf_every', ic(20, 64), rs('t'), rs('step'), ic(10, 32), ic(fmm, 1), ic(ie, 1))
            w2('vf_scalar', s2, ic(1, 32))
            p.ob('ranks' + tag, not tx2.files and mp2.calls == mp.calls, loc(m, L_), 'only rank 0 writes, every rank takes part in the same reductions', '%d files, reductions %s and %s' % (len(tx2.files), mp2.calls, mp.calls), 'recorded calls')
    # diagnostics
    m, w, mp, tx, s, ds = system(D)
    L_ = 'diagnostic::output'
    w('vf_total', s, ic(1000, 64))
    if w('vf_gettotal', s) is not ic(1000, 64):
        raise Incomplete('cannot set the number of particles')
    w('vf_every', ic(20, 64), rs('t'), rs('step'), ic(10, 32), ic(0, 1), ic(1, 1))
    w('vf_diag', s, ic(0, 32))
    p.used(w.it, m)
    names, vals = fields(tx.files[0][1]), [v for k, v in tx.files[1][1] if k != 's']
    p.ob('columns:count:diagnostic:%dD' % D, sorted(names) == list(range(1, len(vals) + 1)), loc(m, L_), 'as many values as named columns', '%d names, %d values' % (len(names), len(vals)), 'recorded output')
    lt = lambda a, b: E.fcmp('olt', a, b)
    mn = lambda a, b: ite(lt(a, b), a, b)
    mx = lambda a, b: ite(lt(b, a), a, b)
    hs, vs = [d['h'] for d in ds], [sqrt(dot(d['v'], d['v'])) for d in ds]
    agg = {'min': lambda xs: mn(*xs), 'max': lambda xs: mx(*xs), 'avg': lambda xs: div(add(*xs), rc(1000))}
    hy = [x for v in hs + vs for x in (lt(v, rc(1e100)), lt(rc(1e-100), v))]
    for i, v in enumerate(vals):
        n = names.get(i + 1)
        if n == 'iteration':
            p.ob('column:%d:diagnostic:%dD' % (i + 1, D), v is ic(20, 64), loc(m, L_), 'the value written under a name is that quantity', E.show(v), 'value graph')
        elif n == 'time' or n[:2] in ('h_', 'V_'):
            if n == 'time':
                want = rs('t')
            else:
                want = agg[n[2:]](hs if n[0] == 'h' else vs)
            ok, dd, how, k = identity(al('AB'), [(n, own(v, 1e200 if n[2:] == 'min' else 0.0 if n[2:] == 'avg' else 1e-200), want)], hyps=hy, prune=[])
            p.ob('column:%d:diagnostic:%dD' % (i + 1, D), ok, loc(m, L_), 'the value written under a name is that quantity', '%s: %s' % (n, dd), how)
        elif n[:2] == 'N_' and n != 'N_ghosts':
            import random
            rnd = random.Random(3)
            bad = []
            for _ in range(200):
                env = {q: rnd.randrange(0, 50) for q in ('A.nn', 'B.nn', 'o')}
                full = {q: env.get(q, env['o']) for q in E.symbols([v])}
                xs = [env['A.nn'], env['B.nn'], env['o']]
                want = {'N_min': min(xs), 'N_max': max(xs), 'N_avg': sum(xs) // 1000}[n]
                got = alg.evalf(v, dict(full, **{'?': lambda q, k: env['o']}))
                if got != want:
                    bad.append('%s gives %s for %s' % (n, got, xs))
            p.ob('column:%d:diagnostic:%dD' % (i + 1, D), not bad, loc(m, L_), 'the value written under a name is that quantity', '; '.join(bad[:1]) or n, 'identity test of the extracted formula')
    return p


def p27():
    ck = Check('P27', 'Each global sum of analysis.h and statistic of diagnostic.h is interpreted on arrays of 0, 1 and 3 symbolic particles of symbolic type, after an earlier call, on one rank of unknown number among an unknown number of ranks; the result, over the symbolic contribution of the other ranks, is compared as normal form with its definition. The reports themselves are interpreted on a whole particle system, and each value written is matched with the column name of the header written before it.',
               ['real arithmetic', 'three particles stand for any number', 'MPI reductions combine the contributions of all ranks with the operation named', 'the columns min_dist, avg_dist_h and N_ghosts of diagnostic.dat are not maintained by the code and not decided'])
    jobs = [(sums, (d,)) for d in (3, 2, 1)] + [(stats, (d,)) for d in (3, 2, 1)] + [(columns, (d,)) for d in (3, 2, 1)]
    for x in pmap(go, jobs):
        ck.extend(x)
    return finish(ck, 300)


# ---------------------------------------------------------------------------- P41
def cover(D):
    p = Part()
    lt = lambda a, b: E.fcmp('olt', a, b)
    mn = lambda a, b: ite(lt(a, b), a, b)
    mx = lambda a, b: ite(lt(b, a), a, b)
    p.units.append('ana.cc/%dD' % D)
    for nb in (1, 3):
        m, w, mp, tx, s, ds = system(D, nb=nb)
        k0 = mp.n
        h = w('vf_hmax', s)
        a = al('ABC', extra_pos=['others%d' % k0])
        want = others(k0)
        for d in ds:
            want = mx(d['h'], want)
        ok, dd, how, k = identity(a, [('largest', h, want)], prune=[])
        p.ob('radius:%d:%dD' % (nb, D), ok, loc(m, 'body_system<double, %dul>::getSmoothinglength' % D), 'the largest smoothing length of all ranks', dd, how)
        p.ob('reduce:radius:%d:%dD' % (nb, D), [c[:2] for c in mp.calls] == [('allreduce', 'max')], loc(m, 'body_system<double, %dul>::getSmoothinglength' % D), 'reduced over all ranks by maximum', str(mp.calls), 'recorded calls')
        p.used(w.it, m)
        w, mp = build_world(m, D)
        arr, ds = bodies(w, 'ABC'[:nb])
        o = w.out(2 * D)
        w('vf_range', arr, ic(nb, 32), o)
        r = w.get(o, 2 * D)
        p.used(w.it, m)
        F = 'body_system<double, %dul>::mpi_compute_range' % D
        for i in range(D):
            for side, v in ((-1, r[i]), (1, r[D + i])):
                syms = [x for x in E.symbols([v]) if x.startswith('others')]
                if len(syms) != 1:
                    p.ob('range:%s%s:%d:%dD' % ('min max'.split()[side > 0], 'xyz'[i], nb, D), False, loc(m, F), 'reduced once over all ranks', 'depends on the other ranks by %s' % syms, 'value graph')
                    continue
                want = sym(syms[0], R)
                for d in ds:
                    x = add(d['x'][i], mul(rc(side), d['h']))
                    want = (mx if side > 0 else mn)(x, want)
                ok, dd, how, k = identity(al('ABC'), [('corner', v, want)], prune=[])
                p.ob('range:%s%s:%d:%dD' % ('min max'.split()[side > 0], 'xyz'[i], nb, D), ok, loc(m, F), 'the range reaches exactly as far as the farthest particle of any rank with its smoothing length', dd, how)
    # every particle is visited once
    seen = []

    def visit(it, st, a, i):
        seen.append(a[0])
        return None
    m, w, mp, tx, s, ds = system(D, nb=3, ms={'vfm_visit': visit})
    w('vf_all', s)
    base = w('vf_first', s)
    want = [padd(base, ic(w.size * i, 64)) for i in range(3)]
    p.ob('visit:apply_all:%dD' % D, sorted(x.id for x in seen) == sorted(x.id for x in want), loc(m, 'body_system<double, %dul>::apply_all' % D), 'a function applied to all particles reaches each local particle exactly once', '%d calls' % len(seen), 'recorded calls')
    p.used(w.it, m)
    return p


def p41():
    ck = Check('P41', 'The domain range, the search radius and the loop over all particles are interpreted on symbolic particles of one rank among many; corners and radius are compared, per region of their gates, with the extremes over all ranks.',
               ['real arithmetic', 'three particles stand for any number'])
    for x in pmap(cover, [(d,) for d in (3, 2, 1)]):
        ck.extend(x)
    return finish(ck, 30)


def go(f, a):
    return f(*a)
