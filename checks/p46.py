"""P46: a run starts, writes and stops when its parameters say."""
import itertools
from checks.p27 import *
from checks.p44 import Everything, load as load_driver, driver_at, BS, TREE
from checks.p42 import thorough
from vf import build, alg

A = 'analysis::'
OUT = {'screen': A + 'screen_output', 'scalar': A + 'scalar_output', 'h5data': A + 'h5data_output', 'diagnostic': 'diagnostic::output'}


def marked(D):
    """a particle system; whether and with what something was written is kept in a cell"""
    m = build.compile(DR + 'ana.cc', D, ['vf_*'], flags=('-DVF_LOG',), tag='log')
    tx = Text()
    box = {}
    tms = tx.models()
    opened = tms['vfm_open']

    def mark(it, st, q):
        it.store(st, padd(box['mark'], ic(4 * q, 64)), 4, ic(1, 32))

    def op(it, st, a, i):
        n = len(tx.files)
        r = opened(it, st, a, i)
        if len(tx.files) > n:
            mark(it, st, 0 if tx.files[-1][0].startswith('log:') else 1)
        return r

    def h5(it, st, a, i):
        mark(it, st, 2)
        box['h5'] = a
    ms = dict(tms)
    ms['vfm_open'] = op
    ms['io::outputDataHDF5*'] = h5
    for f in m.fns.values():
        if f.dem.endswith('::root_node()'):
            ms[f.name] = lambda it, st, a, i: box['root']
    w, mp = build_world(m, D, size=ic(2, 32), ms=ms)
    s = w('vf_new')
    arr, ds = bodies(w, 'AB')
    w('vf_set', s, arr, ic(2, 32))
    w('vf_total', s, ic(5, 64))
    box['root'] = w.it.alloc(w.st, 'root', w('vf_node_size').a[0])
    w('vf_node_at', box['root'], w.arr(rvec('root.', D)))
    box['mark'] = w.it.symarr(w.st, 'mark', [ic(0, 32)] * 3)
    return m, w, s, box


I32, I64 = E.I(32), E.I(64)
NAMES = {'screen': 0, 'scalar': 1, 'h5data': 2}


def gate(D, which, rank):
    p = Part()
    p.units.append('ana.cc/%dD' % D)
    m, w, s, box = marked(D)
    ev = {k: sym('every.' + k, I32) for k in ('screen', 'scalar', 'h5data', 'diagnostic')}
    per = {k: rs('period.' + k) for k in NAMES}
    due = {k: rs('due.' + k) for k in NAMES}
    w('vf_when', sym('iter', I64), rs('time'), ev['screen'], ev['scalar'], ev['h5data'], ev['diagnostic'], *[per[k] for k in NAMES], *[due[k] for k in NAMES])
    f = {'screen': lambda: w('vf_screen', ic(rank, 32)), 'scalar': lambda: w('vf_scalar', s, ic(rank, 32)), 'h5data': lambda: w('vf_h5', s, ic(rank, 32)), 'diagnostic': lambda: w('vf_diag', s, ic(rank, 32))}
    f[which]()
    p.used(w.it, m)
    got = w.get(box['mark'], 3, I32, 4)
    mine = {'screen': 0, 'h5data': 2}.get(which, 1)
    at = loc(m, OUT[which])
    tag = '%s:%s:%dD' % (which, 'root' if rank == 0 else 'other', D)
    bad, n = [], 0
    for it, e, other, (t, d), pd in itertools.product((0, 1, 2, 3, 4, 6, 7, 12, 1000), (-2, 0, 1, 2, 3, 5), (0, 2), ((1.0, 1.0), (1.0, 1.5), (1.5, 1.0), (-1.0, -0.5), (0.0, 0.0)), (0.0, 0.25, -1.0)):
        env = {'iter': it, 'time': t}
        for k in ('screen', 'scalar', 'h5data', 'diagnostic'):
            env['every.' + k] = (e if k == which else other) % (1 << 32)
        for k in NAMES:
            env['period.' + k] = pd if k == which else 0.5 - pd
            env['due.' + k] = d if k == which else t + 1
        want = t >= d if which in NAMES and pd > 0 else e > 0 and it % e == 0
        if rank and mine == 1:
            want = False
        if rank and mine == 0:
            continue
        n += 1
        for q in range(3):
            full = dict(env)
            for x in E.symbols([got[q]]):
                full.setdefault(x, 0.5)
            v = alg.evalf(got[q], full)
            if bool(v) != (want and q == mine) and not (q == 0 and mine != 0):
                bad.append('iteration %d, time %g, due %g, every %d, period %g: %s' % (it, t, d, e, pd, 'written' if v else 'not written'))
    p.ob('when:' + tag, not bad, at, 'written when the time is due if a period is given, otherwise when the iteration is a multiple of a positive interval, and governed by its own parameters only', '; '.join(bad[:2]) or '%d cases' % n, 'identity test of the extracted condition')
    return p


def stop(D):
    p = Part()
    p.units.append('ana.cc/%dD' % D)
    m, w, s, box = marked(D)
    w('vf_when', sym('iter', I64), rs('time'), *[ic(1, 32)] * 4, *[rc(0)] * 6)
    at = loc(m, 'physics::termination_criteria')
    for last, fin in itertools.product((0, 1, 10), (0.0, 2.5)):
        w('vf_stop', ic(last, 32), rc(fin))
        v = w('vf_stopped')
        bad = []
        for it, t in itertools.product((0, 1, 2, 9, 10, 11, 500), (0.0, 2.25, 2.5, 2.75, 1e3)):
            want = (last > 0 and it > last) or (fin > 0 and t > fin)
            if bool(alg.evalf(v, {'iter': it, 'time': t})) != want:
                bad.append('iteration %d, time %g: %s' % (it, t, 'goes on' if want else 'stops'))
        p.ob('stop:%d:%g:%dD' % (last, fin, D), not bad, at, 'a run stops after the last iteration or the final time, whichever is given and comes first, and not before', '; '.join(bad[:2]) or '35 cases', 'identity test of the extracted condition')
    p.used(w.it, m)
    return p


def clocks(D):
    """the state a run starts from, and how a step moves the due times on"""
    p = Part()
    p.units.append('ana.cc/%dD' % D)
    at = None
    for on in ((1, 1, 1), (1, 0, 0), (0, 1, 0), (0, 0, 1)):
        for t0 in (0.0, 0.75, 1.0, 1.125):
            m, w, s, box = marked(D)
            at = at or loc(m, A + 'set_initial_time_iteration')
            per = [0.5 if o else 0.0 for o in on]
            w('vf_when', ic(77, 64), rc(99.), *[ic(1, 32)] * 4, *[rc(x) for x in per], rc(55.), rc(55.), rc(55.))
            w('vf_initial', ic(7, 64), rc(t0), rs('dt0'))
            tag = '%s:%g:%dD' % (''.join(map(str, on)), t0, D)
            p.ob('start:clock:' + tag, w('vf_clock_t') is rc(t0) and w('vf_clock_it') is ic(7, 64) and w('vf_clock_dt') is rs('dt0'), at, 'a run starts from the initial iteration, time and step given', '%s %s %s' % tuple(E.show(w(x), 2) for x in ('vf_clock_t', 'vf_clock_it', 'vf_clock_dt')), 'value graph')
            for k, nm in enumerate(NAMES):
                if on[k]:
                    v = w('vf_due', ic(k, 32))
                    p.ob('start:due:%s:%s' % (nm, tag), v is rc(t0), at, 'the first output is due at the initial time', E.show(v, 2), 'value graph')
    return p


# ------------------------------------------------------------------ whole runs
def members(m, cls, names):
    return [f.name for f in m.fns.values() if not f.decl and any((cls + n) in f.dem for n in names)]


class Clocked(World):
    """a driver with its passes over the particles left out: the clock, what is written and when it stops"""

    def __init__(self, drv, D, c):
        m = build.compile(DR + 'run.cc', D, ['vf_*'], flags=('-DVF_DRIVER="app/drivers/%s/main_driver.cc"' % drv, '-DVF_LOG') + (('-DVF_WVT',) if drv == 'wvt' else ()), tag=drv + 'log')
        self.drv, self.c = drv, c
        self.ev = []
        self.tx = Text()
        mp = Mpi(rank=ic(c.get('rank', 0), 32), size=ic(2, 32))
        comb = mp.combine
        mp.combine = lambda op, a, k: a if op == 'min' else comb(op, a, k)
        bs = BS % D
        ms = dict(self.tx.models())
        opened = ms['vfm_open']

        def op(it, st, a, i):
            n = len(self.tx.files)
            r = opened(it, st, a, i)
            if len(self.tx.files) > n:
                self.ev.append((self.tx.files[-1][0], self.tx.files[-1][1]))
            return r
        ms['vfm_open'] = op
        ms.update(mp.models())
        none = lambda it, st, a, i: None
        ms.update({'param::mpi_read_params*': none, bs + 'update_iteration()': none, 'io::inputDataHDF5*': self.input, 'io::outputDataHDF5*': self.output})
        for n in ('reset_ghosts<', 'traversal_sph<', 'traversal_fmm<'):
            ms['void ' + TREE + n + '*'] = none
        for n in ('apply_all<', 'apply_in_smoothinglength<'):
            ms['void ' + bs + n + '*'] = none
        if c.get('converge') is not None:
            ms['wvt::check_convergence_wvt(*'] = self.converge
        Run.__init__(self, m, models=ms, pins=Everything())
        self.D = D
        self.it.fninit = True
        for f in m.fns.values():
            if f.dem.endswith('::root_node()'):
                self.it.models[f.name] = lambda it, st, a, i: self.root
        self.root = self.it.alloc(self.st, 'root', self('vf_node_size').a[0])
        self('vf_node_at', self.root, self.arr(rvec('root.', D)))
        self.size = self('vf_body_size').a[0]
        self.arr0, self.ds = bodies(self, 'A', {'A': {'type': ic(0, 32), 'state': ic(0, 32), 'dt': rc(c.get('dtmin', 1.0))}})
        b = lambda k: ic(bool(c.get(k)), 1)
        self('vf_config', b('evolve'), b('thermo'), b('cullen'), b('adaptive'), b('relax'), ic(1, 32), ic(0, 32), b('fmm'), ic(0, 32), rc(0.), rc(0.), rs('drag'), rs('repulsion'))
        g = lambda k, d=0.0: rc(c.get(k, d))
        e = lambda k: ic(c.get(k, 0), 32)
        self('vf_times', g('sd'), g('cd'), g('hd'), e('se'), e('ce'), e('he'), e('de'), e('it0'), g('t0'), g('dt0', 0.25), e('last'), g('final'), b('adaptive'), ic(c.get('converge') is not None, 1), ic(c.get('cool', 1), 32))
        self('vf_run', E.NULL)

    def input(self, it, st, a, i):
        st = it.callfn(self.m.fns['vf_fill'], [a[0], self.arr0, ic(1, 32)], st)[0]
        it.store(st, a[3], 8, ic(1, 64))
        it.store(st, a[4], 8, ic(1, 64))
        return st, None

    def output(self, it, st, a, i):
        self.ev.append(('h5', [('i', a[2]), ('d', a[3])]))

    def converge(self, it, st, a, i):
        st, k = it.callfn(self.m.fns['vf_iter'], [], st)
        if isc(k) and k.a[0] >= self.c['converge']:
            st = it.callfn(self.m.fns['vf_converged'], [], st)[0]
        return st, None

    def said(self):
        """iteration and time of everything written, by kind"""
        o = {'screen': [], 'scalar': [], 'h5data': [], 'diagnostic': []}
        for n, items in self.ev:
            v = [x for k, x in items if k != 's']
            if len(v) < 2:
                continue
            if not (v[0].op == 'c' and v[1].op in ('c', 'rc')):
                k, t = E.show(v[0], 2), E.show(v[1], 2)
            else:
                k, t = v[0].a[0], float(v[1].a[0])
            if n == 'h5':
                o['h5data'].append((k, t))
            elif n == 'log:info':
                o['screen'].append((k, t))
            elif n.startswith('log:'):
                pass
            else:
                o['diagnostic' if 'diag' in n else 'scalar'].append((k, t))
        return o


def expected(drv, c):
    """what should be written: {kind: [(iteration, time)]}"""
    it, t = c.get('it0', 0), c.get('t0', 0.0)
    due = {k: t for k in NAMES}
    o = {'screen': [], 'scalar': [], 'h5data': [], 'diagnostic': []}
    dt = c.get('dt0', 0.25)
    per = {'screen': c.get('sd', 0), 'scalar': c.get('cd', 0), 'h5data': c.get('hd', 0)}
    ev = {'screen': c.get('se', 0), 'scalar': c.get('ce', 0), 'h5data': c.get('he', 0), 'diagnostic': c.get('de', 0)}
    end = c.get('last', 0) + c.get('cool', 1)
    while True:
        conv = c.get('converge') is not None and it > c.get('it0', 0) and c['converge'] <= it <= c.get('last', 0)
        for k in o:
            w = t >= due[k] if per.get(k, 0) > 0 else ev[k] > 0 and it % ev[k] == 0
            if drv == 'wvt' and k == 'h5data':
                w = w or conv or it == end
            if w:
                o[k].append((it, t))
                if per.get(k, 0) > 0:
                    due[k] += per[k]
        it, t = it + 1, t + dt
        if drv == 'wvt':
            if conv or it > end:
                break
        elif c.get('last', 0) > 0 and it > c['last'] or c.get('final', 0) > 0 and t > c['final']:
            break
    if c.get('rank'):
        o['scalar'], o['diagnostic'] = [], []
    return o


RUNS = {'it-1': dict(se=1, ce=2, he=3, de=4, last=7), 'it-2': dict(se=3, ce=1, he=2, de=1, last=5, it0=2, t0=1.5), 'none': dict(last=4), 'time-limit': dict(se=1, ce=1, he=1, de=2, final=1.0), 'both': dict(se=1, ce=1, he=1, last=3, final=5.0),
        'fixed-times': dict(sd=.5, cd=.75, hd=1.0, final=3.0), 'fixed-one': dict(se=2, ce=1, he=1, hd=.625, final=2.5), 'fixed-scalar': dict(se=2, cd=.375, he=1, t0=.125, final=2.0), 'fixed-screen': dict(sd=.3125, ce=2, he=3, it0=3, t0=.5, final=2.0),
        'other-rank': dict(se=1, ce=1, he=1, de=1, last=3, rank=1)}
ADAPT = {'times': dict(sd=.5, cd=.75, hd=1.0, final=3.0, dt0=.125, dtmin=.1875), 'one': dict(se=1, ce=1, hd=.5, final=2.0, dt0=.25, dtmin=.15625), 'scalar': dict(se=2, cd=.4375, he=1, t0=.125, final=2.0, dt0=.0625, dtmin=.25), 'coarse': dict(sd=.5, cd=.5, hd=.25, dt0=1.0, dtmin=8.0, final=2.0, it0=2, t0=1.0)}


def run(drv, D, name, c):
    p = Part()
    w = Clocked(drv, D, c)
    m = w.m
    p.units.append('%s/main_driver.cc/%dD' % (drv, D))
    p.used(w.it, m)
    at = driver_at(m)
    got = w.said()
    if not c.get('adaptive'):
        want = expected(drv, c)
        for k in OUT:
            if c.get('rank') and k == 'screen':
                continue
            p.ob('%s:%s:%s:%dD' % (drv, name, k, D), got[k] == want[k], at, 'each output is written at the iterations or times asked for, the first at the start, until the run stops', 'written at %s, asked for %s' % (got[k][:12], want[k][:12]) if got[k] != want[k] else '%d times' % len(want[k]), 'the driver\'s clock, passes over the particles left out')
        return p
    t0, fin = c.get('t0', 0.0), c['final']
    per = {'screen': c.get('sd', 0), 'scalar': c.get('cd', 0), 'h5data': c.get('hd', 0)}
    for k in per:
        if per[k] > 0:
            want, i = [], 0
            while t0 + i * per[k] <= fin:
                want.append(t0 + i * per[k])
                i += 1
            ts = [t for _, t in got[k]]
            p.ob('%s:adaptive-%s:%s:%dD' % (drv, name, k, D), ts == want, at, 'with an adaptive step each output falls on its time exactly, the first at the start', 'written at %s, asked for %s' % (ts[:12], want[:12]) if ts != want else '%d times' % len(want), 'the driver\'s clock, passes over the particles left out')
    its = [i for i, _ in got['screen']]
    if c.get('se') == 1:
        p.ob('%s:adaptive-%s:steps:%dD' % (drv, name, D), its == list(range(c.get('it0', 0), c.get('it0', 0) + len(its))) and len(its) > 2, at, 'every iteration is reported', str(its[:12]), 'the driver\'s clock')
    return p


WVT = {'it-1': dict(se=1, ce=2, he=3, de=4, last=5, cool=3), 'it-2': dict(se=2, ce=1, he=0, de=2, last=4, cool=0, it0=2, t0=.5), 'conv': dict(se=1, ce=1, he=4, last=6, cool=2, converge=3)}


def p46():
    ck = Check('P46', 'The conditions under which each report is written and a run stops are extracted from the output and termination routines over symbolic iteration, time, due time and parameters and compared with their definition; the loops of the drivers are interpreted with the passes over the particles left out, recording what is written at which iteration and time until the run stops by itself.',
               ['what the passes compute does not matter to the clock', 'steps and periods that are sums of powers of two, so that times compare exactly'])
    jobs = [(gate, (D, k, r)) for D in (3, 2, 1) for k in OUT for r in (0, 1) if not (r and D != 3)] + [(f, (D,)) for D in (3, 2, 1) for f in (stop, clocks)]
    for drv in ('hydro', 'newtonian'):
        for D in (2, 3) if thorough() else (2,) if drv == 'hydro' else (3,):
            jobs += [(run, (drv, D, n, c)) for n, c in RUNS.items()] + [(run, (drv, D, n, dict(c, adaptive=1))) for n, c in ADAPT.items()]
    jobs += [(run, ('wvt', 2, n, c)) for n, c in WVT.items()]
    for x in pmap(go, jobs):
        ck.extend(x)
    return finish(ck, 150)
