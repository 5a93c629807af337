"""P44, P45: the drivers' loop over the steps, taken apart into what each stage reads and writes."""
from checks.sph import *
from vf.mpi import Mpi
from checks.p42 import thorough
from vf.text import Text

TREE = 'flecsi::topology::tree_topology<tree_policy>::'
BS = 'body_system<double, %dul>::'


def load(drv, D):
    return build.compile(DR + 'run.cc', D, ['vf_*'], flags=('-DVF_DRIVER="app/drivers/%s/main_driver.cc"' % drv,), tag=drv)


class Everything(dict):
    """the program starts from its initial values"""

    def get(self, k, d=None):
        return 'init'

    def __bool__(self):
        return True


class Event:
    """one stage as one rank sees it: what it read of its particle and of the others, and what it changed"""

    def __init__(self, kind, name, n):
        self.kind, self.name, self.n = kind, name, n
        self.wrote = ()
        self.nbr = {}
        self.own = {}
        self.val = {}
        self.info = {}


def parts(k, v):
    return v if isinstance(v, list) else [v]


def symbols(x, memo):
    o, st, seen = set(), [x], set()
    while st:
        n = st.pop()
        if id(n) in seen:
            continue
        seen.add(id(n))
        if n.op == 's':
            o.add(n.a[0])
        else:
            st.extend(y for y in n.a if isinstance(y, N))
    return o


def field(s):
    f = s.rsplit('.', 1)[1]
    return f if f in NAME else f[:-1]


class Driver(World):
    """one particle A of one rank carried through a driver; particle N stands for every other"""

    def __init__(self, drv, D, cfg, steps=2):
        m = load(drv, D)
        self.drv, self.cfg, self.steps = drv, cfg, steps
        self.D = D
        self.ev = []
        self.marks = []
        self.box = None
        self.defs = {}
        self.tx = Text()
        self.mp = Mpi(rank=ic(0, 32), size=ic(2, 32))
        bs = BS % D
        ms = dict(self.tx.models())
        ms.update(self.mp.models())
        ms.update({'param::mpi_read_params*': lambda it, st, a, i: None, bs + 'update_iteration()': self.sync('update_iteration'), 'void ' + TREE + 'reset_ghosts<*': self.sync('reset_ghosts'),
                   'void ' + TREE + 'traversal_sph<*': self.visit, 'void ' + TREE + 'traversal_fmm<*': self.gravity, 'io::inputDataHDF5*': self.input, 'io::outputDataHDF5*': self.output,
                   'physics::termination_criteria()': self.end, 'void ' + bs + 'apply_all<*': self.local_, 'void ' + bs + 'get_all<*': self.local_})
        Run.__init__(self, m, models=ms, pins=Everything())
        self.it.fninit = True
        self.size = self('vf_body_size').a[0]
        self.arr0, self.ds = bodies(self, 'A', {'A': {'type': ic(0, 32)}})
        b = lambda k: ic(bool(cfg.get(k)), 1)
        self.left = steps + 1
        self('vf_config', b('evolve'), b('thermo'), b('cullen'), b('adaptive'), b('relax'), ic(cfg.get('passes', 1), 32), ic(cfg.get('h', 0), 32), b('fmm'), ic(cfg.get('last', 0), 32), rs('dt0'), rs('t0'), rs('drag'), rs('repulsion'))
        self('vf_run', E.NULL)

    # ---- the particle at a point of the program
    def sub(self, it, st, f, *a):
        return it.callfn(self.m.fns[f], list(a), st)

    def A(self, it, st):
        return self.sub(it, st, 'vf_data', self.box)

    def look(self, it, st, p):
        n = len(VEC) * self.D + len(SCA)
        o = it.alloc(st, 'got', 8 * n)
        io = it.alloc(st, 'goti', 8 * len(INT))
        st, _ = self.sub(it, st, 'vf_body_get', p, o, io)
        v = outs(it, st, o, n)
        i = outs(it, st, io, len(INT), E.I(64))
        d = {}
        for j, k in enumerate(VEC):
            d[k] = v[j * self.D:(j + 1) * self.D]
        for j, k in enumerate(SCA):
            d[k] = v[len(VEC) * self.D + j]
        for j, k in enumerate(INT):
            d[k] = i[j]
        return st, d

    def set(self, it, st, p, d):
        s = it.symarr(st, 'put', [x for k in VEC for x in d[k]] + [d[k] for k in SCA])
        t = lambda k: E.icast('trunc', d[k], 32) if d[k].k != E.I(32) else d[k]
        r = self.sub(it, st, 'vf_body_put', p, s, d['id'], t('type'), t('state'), d['nn'], t('owner'), d['key'])
        return r[0]

    def clock(self, it, st):
        o = {}
        for k, f in (('t', 'vf_time'), ('dt', 'vf_dt'), ('it', 'vf_iter')):
            st, o[k] = self.sub(it, st, f)
        return st, o

    def whole(self, x):
        """x in terms of the state at the start of the step and the results of neighbour loops"""
        for _ in range(50):
            m = {sym(s, R).id: self.defs[s] for s in symbols(x, {}) if s in self.defs and field(s) in ('x', 'v', 'w', 'u', 'e', 'm')}
            if not m:
                return x
            x = E.subst(x, m, {})
        raise Incomplete('values defined by each other')

    def event(self, kind, name):
        e = Event(kind, name, len(self.ev))
        self.ev.append(e)
        return e

    def cells(self, n):
        d = {}
        for k in VEC:
            d[k] = rvec(n + '.' + k, self.D)
        for k in SCA:
            d[k] = rs(n + '.' + k)
        d['id'] = ic(2, 64)
        d['type'] = d['state'] = ic(0, 32)
        d['nn'] = sym(n + '.nn', E.I(64))
        d['owner'] = ic(1, 32)
        d['key'] = sym(n + '.key', E.I(64))
        return d

    # ---- stages
    def settle(self, it, st):
        """what the particle's owner changed by itself since the last stage"""
        st, p = self.A(it, st)
        st, d = self.look(it, st, p)
        ch = changed(self.last, d) if self.ev else []
        if ch:
            e = self.event('local', self.local or 'the driver')
            e.wrote = tuple(ch)
            e.val = d
            # what was changed becomes a value of its own; where it came from is kept
            d = dict(d)
            nm = '%s@%d.' % (e.name.split('::')[-1].split('(')[0], e.n)
            for k in ch:
                if k in INT:
                    continue
                v = rvec(nm + k, self.D) if k in VEC else rs(nm + k)
                for x, y in zip(parts(k, v), parts(k, d[k])):
                    self.defs[x.a[0]] = y
                d[k] = v
            e.val = d
            st = self.set(it, st, p, d)
            st, d = self.look(it, st, p)
        self.last = d
        return st, p, d

    def local_(self, it, st, a, i):
        st, _, _ = self.settle(it, st)
        f = self.m.fns[i[3][1] if isinstance(i[3], list) else i[3]]
        try:
            self.local = self.functor(it, st, a[1], i, '_all<')[0].dem.split('(')[0]
        except Incomplete:
            self.local = None
        r = it.callfn(f, a, st)
        if r is None:
            return None
        st, _, _ = self.settle(it, r[0])
        self.local = None
        return st, r[1]

    def input(self, it, st, a, i):
        self.box = a[0]
        r = self.sub(it, st, 'vf_fill', a[0], self.arr0, ic(1, 32))
        st = r[0]
        it.store(st, a[3], 8, ic(1, 64))
        it.store(st, a[4], 8, ic(1, 64))
        st, p = self.A(it, st)
        st, self.last = self.look(it, st, p)
        self.local = None
        e = self.event('input', 'read_bodies')
        e.val = self.last
        return st, None

    def sync(self, name):
        def f(it, st, a, i):
            st, p, d = self.settle(it, st)
            e = self.event('sync', name)
            e.val = d
            return st, None
        return f

    def visit(self, it, st, a, i):
        st, p, d0 = self.settle(it, st)
        fn, pre = self.functor(it, st, a[1], i)
        e = self.event('visit', fn.dem.split('(')[0])
        e.where = fn
        n = '%d' % e.n
        mine, theirs = self.cells('A' + n), self.cells('N' + n)
        for k in INT:
            mine[k] = d0[k]
        g = it.alloc(st, 'N', self.size)
        st = self.set(it, st, g, theirs)
        st = self.set(it, st, p, mine)
        st, m0 = self.look(it, st, p)
        v = it.alloc(st, 'list', self.sub(it, st, 'vf_vec_size')[1].a[0])
        st = self.sub(it, st, 'vf_list', v, p, g)[0]
        r = it.callfn(fn, pre + [p, v] + list(a[2:]), st)
        if r is None:
            return None
        st = r[0]
        st, m1 = self.look(it, st, p)
        ch = changed(m0, m1)
        e.wrote = tuple(ch)
        d1 = dict(d0)
        memo = {}
        for k in ch:
            e.val[k] = m1[k]
            u = set()
            for x in parts(k, m1[k]):
                u |= symbols(x, memo)
            for s in u:
                if s.startswith('N' + n + '.'):
                    e.nbr.setdefault(field(s), set()).add(k)
            for s in u:
                if s.startswith('A' + n + '.'):
                    f = field(s)
                    e.own[f] = d0[f]
            if k in VEC:
                d1[k] = rvec('%s@%s.%s' % (e.name.split('::')[-1], n, k), self.D)
            elif k in SCA:
                d1[k] = rs('%s@%s.%s' % (e.name.split('::')[-1], n, k))
            else:
                d1[k] = sym('%s@%s.%s' % (e.name.split('::')[-1], n, k), m1[k].k)
        st = self.set(it, st, p, d1)
        st, self.last = self.look(it, st, p)
        return st, None

    def functor(self, it, st, f, inst, of='traversal_sph<'):
        f = it.pick(f)
        t = self.m.fns[inst[3][1] if isinstance(inst[3], list) else inst[3]].dem.split(of, 1)[1]
        if f.op == 'ptr' and '(*&)' in t.split(of, 1)[0]:
            f = it.pick(it.load(st, f, 8, E.P))
        if f.op in ('fn', 'gref') and f.a[0] in self.m.fns:
            return self.m.fns[f.a[0]], []
        # a function object: its call operator
        for fn in self.m.fns.values():
            n = fn.dem.split('::operator()')
            if len(n) > 1 and not fn.decl and t.startswith(n[0].split(' ', 1)[1] if n[0].startswith(('auto ', 'void ')) else n[0]):
                return fn, [f]
        raise Incomplete('a neighbour loop over ' + E.show(f, 3))

    def gravity(self, it, st, a, i):
        st, p, d = self.settle(it, st)
        e = self.event('visit', 'gravitation_fmm')
        e.where = None
        e.nbr = {'x': {'g', 'phi'}, 'm': {'g', 'phi'}}
        e.own = {'x': d['x'], 'm': d['m']}
        e.wrote = ('g', 'phi')
        d = dict(d, g=rvec('fmm@%d.g' % e.n, self.D), phi=rs('fmm@%d.phi' % e.n))
        st = self.set(it, st, p, d)
        st, self.last = self.look(it, st, p)
        return st, None

    def output(self, it, st, a, i):
        st, p, d = self.settle(it, st)
        e = self.event('output', 'write_bodies')
        e.val = d
        st, e.info = self.clock(it, st)
        e.info.update(iteration=a[2], totaltime=a[3])
        return st, None

    def end(self, it, st, a, i):
        st, p, d = self.settle(it, st)
        e = self.event('step', 'end of the step')
        e.val = d
        st, e.info = self.clock(it, st)
        self.marks.append(e)
        self.left -= 1
        # the next step starts from a clock of its own
        e.next = {'t': rs('time@%d' % e.n), 'dt': rs('step@%d' % e.n)} if self.left else e.info
        if self.left:
            st, _ = self.sub(it, st, 'vf_setclock', e.next['t'], e.next['dt'])
            # and from a particle of its own
            d = dict(d)
            for k in VEC:
                d[k] = rvec('step@%d.%s' % (e.n, k), self.D)
            for k in SCA:
                d[k] = rs('step@%d.%s' % (e.n, k))
            st = self.set(it, st, p, d)
            st, self.last = self.look(it, st, p)
        e.next['val'] = self.last
        return st, ic(self.left <= 0, 1)


CFG = {'evolve': 'internal energy', 'thermo': 'thermokinetic', 'cullen': 'adaptive viscosity', 'adaptive': 'adaptive step', 'relax': 'relaxation', 'fmm': 'gravity'}


def label(cfg):
    o = [k for k in CFG if cfg.get(k)]
    if cfg.get('passes', 1) > 1:
        o.append('%d passes' % cfg['passes'])
    if cfg.get('h'):
        o.append(('variable h', 'uniform h')[cfg['h'] - 1])
    return '+'.join(o) or 'plain'


def configs(drv):
    base = [dict(), dict(evolve=1), dict(evolve=1, thermo=1), dict(evolve=1, passes=2), dict(evolve=1, thermo=1, passes=2), dict(cullen=1), dict(evolve=1, cullen=1, adaptive=1, passes=2, h=1),
            dict(evolve=1, thermo=1, cullen=1, adaptive=1, passes=2, h=2, relax=1), dict(evolve=1, relax=1), dict(adaptive=1, relax=1), dict(h=1), dict(evolve=1, h=2), dict(thermo=1)]
    if drv == 'newtonian':
        base = [dict(c, fmm=1) for c in base] + [dict(evolve=1)]
    if thorough():
        for i in range(128):
            c = {k: 1 for j, k in enumerate(('evolve', 'thermo', 'cullen', 'adaptive', 'relax')) if i >> j & 1}
            c['passes'] = 1 + (i >> 5 & 1)
            c['h'] = i % 3
            if drv == 'newtonian':
                c['fmm'] = i >> 6 & 1
            if c not in base:
                base.append(c)
    return base


def driver_at(m):
    return where(m, 'flecsi::execution::mpi_init_task')


def made(sy):
    """event number of the stage a symbol comes from"""
    if '@' in sy and sy.split('@')[0] not in ('', 'time', 'step'):
        return int(sy.split('@')[1].split('.')[0])
    return None


def step(drv, D, cfg):
    p = Part()
    d = Driver(drv, D, cfg)
    m = d.m
    p.used(d.it, m)
    p.units.append('%s/main_driver.cc/%dD' % (drv, D))
    at = driver_at(m)
    a = alg.Alg()
    tag = '%s:%dD:%s' % (drv, D, label(cfg))
    HALF = rc(0.5)

    def eq(key, rule, l, r):
        l, r = [d.whole(x) for x in parts(0, l)], parts(0, r)
        if all(x is y for x, y in zip(l, r)):
            ok, dd, how = True, 'same value', 'value graph identity'
        else:
            ok, dd, how, _ = identity(a, [('xyz'[i] if len(l) > 1 else 'value', x, y) for i, (x, y) in enumerate(zip(l, r))])
        p.ob(key, ok, at, rule, dd, how)
    inp = d.ev[0].val
    first = d.marks[0]
    memo = {}
    for q in ('x', 'v', 'w'):
        eq('start-%s:%s' % (q, tag), 'the first pass evaluates the rates and moves nothing', first.val[q], inp['v' if q == 'w' else q])
    if not cfg.get('thermo'):
        eq('start-u:' + tag, 'the first pass does not change the internal energy', first.val['u'], inp['u'])
    for k in range(1, len(d.marks)):
        e0, e1 = d.marks[k - 1], d.marks[k]
        v0, v1 = e0.next['val'], e1.val
        dt = e0.next['dt']
        half = [add(x, mul(HALF, dt, add(y, g))) for x, y, g in zip(v0['v'], v0['a'], v0['g'])]
        n = '%s:step %d' % (tag, k)
        eq('velocity:' + n, 'v(n+1) = v(n) + dt/2 a(n) + dt/2 a(n+1)', v1['v'], [add(x, mul(HALF, dt, add(y, g))) for x, y, g in zip(half, v1['a'], v1['g'])])
        eq('position:' + n, 'x(n+1) = x(n) + dt v(n+1/2)', v1['x'], [add(x, mul(dt, y)) for x, y in zip(v0['x'], half)])
        eq('half:' + n, 'the half-step velocity kept is v(n) + dt/2 a(n)', v1['w'], half)
        ev, th = cfg.get('evolve'), cfg.get('thermo')
        if ev and th:
            eq('energy:' + n, 'e(n+1) = e(n) + dt/2 (de/dt(n) + de/dt(n+1))', v1['e'], add(v0['e'], mul(HALF, dt, add(v0['de'], v1['de']))))
        elif ev:
            eq('energy:' + n, 'u(n+1) = u(n) + dt/2 (du/dt(n) + du/dt(n+1))', v1['u'], add(v0['u'], mul(HALF, dt, add(v0['du'], v1['du']))))
        else:
            eq('energy:' + n, 'an energy that does not evolve stays', [v1['u'], v1['e']], [v0['u'], v0['e']])
        eq('mass:' + n, 'mass and identity stay', [v1['m'], v1['id']], [v0['m'], v0['id']])
    # in force at the end of a pass: computed after the last move, from values computed after the last move
    for k, e1 in enumerate(d.marks):
        v1 = e1.val
        n = '%s:step %d' % (tag, k)
        rates = ['rho', 'P', 'c', 'a'] + (['g'] if cfg.get('fmm') else []) + ((['de'] if cfg.get('thermo') else ['du']) if cfg.get('evolve') else [])
        rates += ['h'] if cfg.get('h') == 1 else []
        rates += ['vs', 'dt'] if cfg.get('adaptive') else []
        for q in rates:
            bad, seen = [], set()
            for x in parts(q, v1[q]):
                _stale(d, x, q, v1, seen, bad)
            if not any(d.ev[j].kind == 'visit' for j in seen) and q not in ('P', 'c'):
                bad.append('not computed by any neighbour loop of the step')
            if q == 'g' and not any(d.ev[j].name == 'gravitation_fmm' for j in seen):
                bad.append('not computed by the gravity of the step')
            p.ob('current:%s:%s' % (q, n), not bad, at, '%s at the end of a step is that of the positions at the end of the step' % NAME[q], '; '.join(bad[:2]) or ', '.join(sorted({d.ev[j].name for j in seen})), 'provenance of the value')
        for q in [r for r in rates if r in ('du', 'de')]:
            for x in parts(q, v1[q]):
                for j in {made(s) for s in symbols(x, memo)} - {None}:
                    w = d.ev[j].own.get('v')
                    if w is not None and d.ev[j].kind == 'visit':
                        p.ob('with-velocity:%s:%s' % (q, n), all(y is z for y, z in zip(w, v1['v'])), at, 'energy rates are taken at the velocity of the end of the step', d.ev[j].name, 'value graph identity')
        # relaxation
        for q in ['a'] + ([r for r in rates if r in ('du', 'de')]):
            got = set()
            for x in parts(q, v1[q]):
                got |= _sources(d, x, q)
            want = {'drag', 'repulsion'} if q == 'a' else {'drag'}
            on = bool(cfg.get('relax')) and k < 2
            p.ob('relax:%s:%s' % (q, n), got & want == (want if on else set()), at, 'relaxation terms enter %s exactly while the iteration is below the number of relaxation steps' % NAME[q],
                 'iteration %d of %d: %s' % (k, 2 if cfg.get('relax') else 0, ', '.join(sorted(got & want)) or 'none'), 'provenance of the value')
        # every search happens in a tree built after the last move
        prev = d.marks[k - 1].n if k else 0
        moved = [e.n for e in d.ev if prev < e.n < e1.n and e.kind == 'local' and ('x' in e.wrote or 'h' in e.wrote)]
        for e in d.ev:
            if prev < e.n < e1.n and e.kind == 'visit':
                b = max([x.n for x in d.ev if x.kind == 'sync' and x.name == 'update_iteration' and x.n < e.n] or [-1])
                ok = b >= 0 and not any(b < x < e.n for x in moved)
                p.ob('tree:%s:%d' % (n, e.n), ok, at, 'neighbours are looked up in the tree of the current positions', '%s at stage %d, tree of stage %d' % (e.name, e.n, b), 'order of the stages')
    # time
    for k, e in enumerate(d.marks):
        n = '%s:step %d' % (tag, k)
        t0 = rs('t0') if k == 0 else d.marks[k - 1].next['t']
        eq('time:' + n, 'the time advances by the step', e.info['t'], add(t0, e.info['dt']))
        p.ob('count:' + n, isc(e.info['it']) and e.info['it'].a[0] == k + 1, at, 'the iteration count advances by one', E.show(e.info['it'], 3), 'value graph identity')
        if not cfg.get('adaptive'):
            eq('dt:' + n, 'a fixed step stays', e.info['dt'], rs('dt0') if k == 0 else d.marks[k - 1].next['dt'])
        out = [x for x in d.ev if x.kind == 'output' and (d.marks[k - 1].n if k else 0) < x.n < e.n]
        ok = len(out) == 1
        dd = '%d snapshots' % len(out)
        if ok:
            o = out[0]
            tt = t0
            same = lambda x, y: all(u is w for u, w in zip(parts(0, x), parts(0, y)))
            ok = o.info['t'] is tt and o.info['totaltime'] is tt and isc(o.info['iteration']) and o.info['iteration'].a[0] == k and isc(o.info['it']) and o.info['it'].a[0] == k
            dd = 'iteration %s at time %s' % (E.show(o.info['iteration'], 2), E.show(o.info['totaltime'], 3))
            for q in ('x', 'v', 'u', 'e', 'm', 'rho', 'P', 'h'):
                if not same(o.val[q], e.val[q]):
                    ok, dd = False, NAME[q] + ' changes after the snapshot'
        p.ob('snapshot:' + n, ok, at, 'a snapshot holds the particles of the iteration and time it is labelled with', dd, 'order of the stages')
    p.stats['stages'] = len(d.ev)
    return p


TRACK = ('rho', 'P', 'c', 'a', 'g', 'vs', 'du', 'de')


def _stale(d, x, q, v1, seen, bad):
    """the values x comes from that depend on where the particles are"""
    for s in sorted(symbols(x, {})):
        j = made(s)
        if j is None or field(s) not in TRACK and field(s) != q:
            continue
        e = d.ev[j]
        if e.kind == 'step':
            if field(s) not in ('du', 'de'):
                bad.append('the %s left from the step before' % NAME[field(s)])
            continue
        k = (j, field(s))
        if k in seen:
            continue
        seen.add(j)
        if s in d.defs:
            _stale(d, d.defs[s], q, v1, seen, bad)
            continue
        w = e.own.get('x')
        if w is not None and not all(y is z for y, z in zip(w, v1['x'])):
            bad.append('%s of stage %d was evaluated at an earlier position' % (e.name, j))
        for f in ('rho', 'P', 'c', 'vs'):
            if f in e.own and f not in e.wrote:
                _stale(d, e.own[f], q, v1, seen, bad)


def _sources(d, x, q):
    """the symbols that x, the present value of q, was made from since it was last set anew"""
    out, seen, st = set(), set(), [x]
    while st:
        for s in symbols(st.pop(), {}):
            if s in seen:
                continue
            seen.add(s)
            out.add(s)
            j = made(s)
            if s in d.defs:
                st.append(d.defs[s])
            elif j is not None and d.ev[j].kind == 'visit' and field(s) == q and q in d.ev[j].val:
                st.extend(parts(q, d.ev[j].val[q]))
            elif s[0] == 'A' and s[1:].split('.')[0].isdigit() and field(s) == q:
                st.extend(parts(q, d.ev[int(s[1:].split('.')[0])].own.get(q, [])))
    return out


def fresh(drv, D, cfg):
    """what a neighbour loop reads of the others is what their owners hold now"""
    p = Part()
    d = Driver(drv, D, cfg)
    m = d.m
    p.used(d.it, m)
    p.units.append('%s/main_driver.cc/%dD' % (drv, D))
    tag = '%s:%dD:%s' % (drv, D, label(cfg))
    at = driver_at(m)
    prev = None
    phase = 0
    for e in d.ev:
        if e.kind == 'step':
            phase += 1
        if e.kind != 'visit':
            continue
        s = max([x.n for x in d.ev if x.kind == 'sync' and x.n < e.n] or [-1])
        b = max([x.n for x in d.ev if x.kind == 'sync' and x.name == 'update_iteration' and x.n < e.n] or [-1])
        w = [x for x in d.ev if b < x.n < e.n and ('x' in x.wrote or 'h' in x.wrote)]
        p.ob('tree:%s:%s:%d' % (e.name.split('::')[-1], tag, e.n), b >= 0 and not w, at, 'neighbours are looked up in the tree of the current positions and smoothing lengths', '%s at stage %d, tree of stage %d%s' % (e.name, e.n, b, ', ' + w[0].name + ' in between' if w else ''), 'order of the stages')
        for f in sorted(e.nbr):
            w = [x for x in d.ev if s < x.n < e.n and f in x.wrote]
            ok = s >= 0 and not w
            nm = e.name.split('::')[-1]
            p.ob('fresh:%s:%s:%s:step %d:%d' % (nm, f, tag, phase, e.n), ok, at, 'copies of neighbours are renewed between a change of a quantity and its use',
                 '%s reads the %s of neighbours, changed by %s since %s' % (e.name, NAME[f], ', '.join(x.name for x in w), d.ev[s].name if s >= 0 else 'the start') if not ok else '%s after %s' % (e.name, d.ev[s].name), 'order of the stages')
            b = sorted(e.nbr[f]) if f in e.wrote else []
            p.ob('order:%s:%s:%s:step %d:%d' % (nm, f, tag, phase, e.n), not b, where(m, e.name), 'a neighbour loop does not read of others what it changes itself',
                 '%s sets the %s and takes %s from that of neighbours' % (e.name, NAME[f], ', '.join(NAME[x] for x in b)) if b else e.name, 'provenance of the value')
    p.stats['stages'] = len(d.ev)
    return p


def jobs(more=False):
    o = []
    for drv, D in (('hydro', 1), ('hydro', 2), ('hydro', 3), ('newtonian', 3)):
        o += [(drv, D, c) for c in configs(drv)]
    if more:
        o += [('wvt', D, dict(last=2, h=h)) for D in (1, 2, 3) for h in (0, 1)]
    return o


def ready(drv, D):
    load(drv, D)


def run(name, f, js, what, floor):
    ck = Check(name, what, ASSUME)
    build.irdump()
    pmap(ready, sorted({j[:2] for j in js}))
    for q in pmap(f, js):
        ck.extend(q)
    return finish(ck, floor)


def p44():
    return run('P44', step, jobs(), WHAT44, 1500)


def p45():
    return run('P45', fresh, jobs(True), WHAT45, 1500)


ASSUME = ['real arithmetic', 'one particle of one rank and one stand-in for any other', 'the neighbour loops are interpreted, gravity by the multipole method is taken as a function of positions and masses', 'three passes stand for any number: state and clock are renewed between them',
          'P27, P29, P31 and P41 decide what the tree, the ghosts and the searches give']
WHAT44 = """One particle, every field a free value, is carried through the loop of the hydro (1, 2, 3 D) and newtonian drivers for three passes, each switch of the step (evolved
energy, thermokinetic form, adaptive viscosity, adaptive step, relaxation, number of pressure updates, variable or uniform smoothing length, gravity) on and off.
What a neighbour loop computes is a fresh value that remembers the values it was computed from; between the passes state and clock are renewed."""
WHAT45 = """One particle and one stand-in for any other are carried through the loops of the hydro (1, 2, 3 D), newtonian and wvt drivers. For each neighbour loop the fields of
the stand-in that reach a stored value are those it reads of its neighbours; ghosts are renewed by update_iteration and reset_ghosts."""
