"""P21: the ranks of a run meet in the same collectives, in the same order."""
import re
from checks.p44 import *
from vf.ranks import Fleet, Mismatch

STAGES = (BS + 'update_iteration()', 'void ' + TREE + 'reset_ghosts<*', 'void ' + TREE + 'traversal_sph<*', 'void ' + TREE + 'traversal_fmm<*', 'io::inputDataHDF5*', 'io::outputDataHDF5*')


class Sailor(World):
    """one rank of a run of a driver; the operations on the distributed tree and the snapshots are collectives of their own"""

    def __init__(self, F, r, drv, D, names, cfg, last):
        m = load(drv, D)
        self.F, self.r, self.D = F, r, D
        self.names = names
        self.tx = Text()
        self.marks = []
        ms = dict(self.tx.models())
        ms.update(F.models(r))
        ms.update({'param::mpi_read_params*': lambda it, st, a, i: None, 'physics::termination_criteria()': self.end})
        for s in STAGES:
            s = s % D if '%' in s else s
            ms[s] = self.stage(s)
        Run.__init__(self, m, models=ms, pins=Everything())
        self.it.fninit = True
        for f in m.fns.values():
            if f.dem.endswith('::root_node()'):
                self.it.models[f.name] = lambda it, st, a, i: self.root
        self.root = self.it.alloc(self.st, 'root', self('vf_node_size').a[0])
        self('vf_node_at', self.root, self.arr(rvec('root.', D)))
        self.size = self('vf_body_size').a[0]
        self.arr0, self.ds = bodies(self, names, {n: {'type': ic(0, 32), 'state': ic(0, 32), 'nn': ic(3, 64)} for n in names}) if names else (E.NULL, [])
        b = lambda k: ic(bool(cfg.get(k)), 1)
        self('vf_config', b('evolve'), b('thermo'), b('cullen'), b('adaptive'), b('relax'), ic(cfg.get('passes', 1), 32), ic(cfg.get('h', 0), 32), b('fmm'), ic(last, 32), rs('dt0'), rs('t0'), rs('drag'), rs('repulsion'))
        every = 0 if cfg.get('timed') else 1
        self('vf_outputs', ic(every, 32), rs('out_dt') if cfg.get('timed') else rc(0), rs('final_time') if cfg.get('final') else rc(0), ic(last, 32), b('converge'), ic(every, 32), ic(every, 32))

    def stage(self, s):
        nm = s.rstrip('*').rstrip('<').split('::')[-1].rstrip('()')
        inp = s.startswith('io::input')

        def f(it, st, a, i):
            at = '%s:%s' % (it.stack[-1].fn.dem[:60] if it.stack else '', i[-1].get('l') if isinstance(i[-1], dict) else '')
            if inp:
                st = it.callfn(self.m.fns['vf_fill'], [a[0], self.arr0, ic(len(self.names), 32)], st)[0]
                it.store(st, a[3], 8, ic(len(self.names), 64))
                it.store(st, a[4], 8, ic(5, 64))
            self.F.block(self.r, {'op': nm, 'coll': True, 'sig': (nm,), 'data': None, 'fin': lambda cs: [None] * len(cs), 'under': tuple(sorted({(c.id, v) for c, v in it.assume})), 'at': at})
            if nm == 'update_iteration':
                st = self.clock(it, st)
                return st, None
            return (st, None) if inp else None
        return f

    def clock(self, it, st):
        c = []
        for f in ('vf_time', 'vf_dt', 'vf_iter'):
            st, v = it.callfn(self.m.fns[f], [], st)
            c.append(v)
        self.marks.append((c, None))
        return st

    def end(self, it, st, a, i):
        st = self.clock(it, st)
        f = self.m.fns[i[3][1] if isinstance(i[3], list) else i[3]]
        st, v = it.callfn(f, a, st)
        self.marks[-1] = (self.marks[-1][0], v)
        return st, v


def sail(drv, D, split, cfg, last=2):
    p = Part()
    F = Fleet(len(split))
    ws = [Sailor(F, r, drv, D, split[r], cfg, last) for r in range(len(split))]
    m = ws[0].m
    p.units.append('%s/main_driver.cc/%dD' % (drv, D))
    at = driver_at(m)
    nm = '%s:%dD:%s:%s' % (drv, D, '|'.join(split), label(cfg) + ''.join('+' + k for k in ('timed', 'final', 'converge') if cfg.get(k)))
    try:
        F.go([(lambda w=w: w('vf_run', E.NULL)) for w in ws])
        bad = list(F.problems)
    except Mismatch as e:
        bad = [str(e)] + F.problems
    for w in ws:
        p.used(w.it, m)
    p.ob('run:' + nm, not bad, at, 'all ranks of a run meet in the same collectives in the same order, under the same conditions', '; '.join(bad[:3]) or '%d collectives' % F.colls, 'co-interpretation of all ranks')
    if bad:
        return p
    p.ob('steps:' + nm, len({len(w.marks) for w in ws}) == 1 and len(ws[0].marks) >= 1, at, 'all ranks do the same number of steps', str([len(w.marks) for w in ws]), 'co-interpretation of all ranks')
    for k, (c, v) in enumerate(ws[0].marks):
        for q, what in enumerate(('time', 'time step', 'iteration')):
            ok = all(w.marks[k][0][q] is c[q] for w in ws[1:])
            p.ob('agree:%s:%d:%s' % (what, k, nm), ok, at, 'after each step all ranks have the same ' + what, ', '.join(E.show(w.marks[k][0][q], 3)[:80] for w in ws), 'value graph identity')
        if v is not None:
            p.ob('stop:%d:%s' % (k, nm), all(w.marks[k][1] is v for w in ws), at, 'all ranks end together', E.show(v, 3), 'value graph identity')
    p.stats['collectives'] = F.colls
    return p


WHO = {'p18': ('spread', 'domain'), 'p22': ('vectors', 'reductions'), 'p23': ('run',), 'p29': ('run',), 'p30': ('run',), 'p31': ('session', 'search', 'gravity'), 'p42': ('case',)}
WHATIS = {'spread': 'psort', 'domain': 'update_iteration', 'vectors': 'mpi_alltoallv', 'reductions': 'reduce_sum', 'session': 'build_tree', 'search': 'traversal_sph', 'gravity': 'traversal_fmm', 'case': 'build_tree'}


def together(mod, f, args):
    """an analysis of another property, looked at for the collectives only"""
    import importlib
    fn = getattr(importlib.import_module('checks.' + mod), f)
    p = Part()
    del Part.live[:]
    Fleet.log = []
    err = None
    try:
        q = fn(*args)
    except (Incomplete, alg.Undecided) as e:
        err = e
        q = Part.live[0] if Part.live else None
    log, Fleet.log = Fleet.log, None
    del Part.live[:]
    Part.live.append(p)
    if q is not None:
        p.units, p.fns = list(q.units), set(q.fns)
    if err is not None:
        p.broken.append('%s: %s' % (f, err))
    at = q.obs[0].where if q is not None and q.obs else mod
    tag = ':'.join(str(a) for a in (f,) + args).replace(' ', '')[:90]
    for k, F in enumerate(log):
        bad = ([F.failed] if F.failed else []) + [x for x in F.problems if 'is entered under conditions' in x]
        p.ob('together:%d:%s' % (k, tag), not bad, at, 'all ranks meet in the same collectives in the same order, under the same conditions', '; '.join(bad[:3]) or '%d collectives on %d ranks' % (F.colls, F.n), 'co-interpretation of all ranks')
    p.stats['collectives'] = sum(F.colls for F in log)
    return p


def params(n):
    """reading the parameter file"""
    from checks.p22 import Rank, load as com
    m = com(1)
    p = Part()
    p.units.append('com.cc/1D')
    F = Fleet(n)
    seen = [None] * n
    tx = [Text() for _ in range(n)]

    def reader(r):
        def f(it, st, a, i):
            from vf.text import cstr
            seen[r] = cstr(it, st, a[0])
            return None
        return f
    ws = [Rank(m, F, r, dict(tx[r].models(), **{'param::read_params*': reader(r)})) for r in range(n)]

    def body(w):
        name = 'a/run.par'
        w('vf_params', w.it.symarr(w.st, 'str', [ic(ord(c), 8) for c in name] + [ic(0, 8)]) if w.r == 0 else E.NULL)
        return True
    at = where(m, 'param::mpi_read_params')
    try:
        F.go([(lambda w=w: body(w)) for w in ws])
        bad = list(F.problems)
    except Mismatch as e:
        bad = [str(e)] + F.problems
    for w in ws:
        p.used(w.it, m)
    p.ob('params:%d ranks' % n, not bad, at, 'all ranks meet in the same collectives and every message is received', '; '.join(bad[:3]) or '%d collectives' % F.colls, 'co-interpretation of all ranks')
    p.ob('params-file:%d ranks' % n, bad or all(s == 'a/run.par' for s in seen), at, 'all ranks read the same parameter file', str(seen), 'constant propagation')
    return p


def jobs21():
    from checks import p18, p23, p29, p31, p42
    T = thorough()
    out = []
    hydro = [dict(), dict(evolve=1, adaptive=1, cullen=1, passes=2, h=1), dict(evolve=1, thermo=1, h=2, final=1, relax=1), dict(timed=1, adaptive=1)]
    for D in (1, 2, 3):
        for j, c in enumerate(hydro):
            out.append((sail, ('hydro', D, (['AB', 'C'], ['AB', '', 'C'], ['A', 'BC'], ['A', 'B', 'C'])[(j + D) % 4], c)))
        out.append((sail, ('wvt', D, ['AB', 'C'], dict(converge=1, h=1))))
        out.append((sail, ('wvt', D, ['AB', '', 'C'], dict(h=D == 2))))
    for j, c in enumerate(hydro):
        out.append((sail, ('newtonian', 3, (['AB', '', 'C'], ['A', 'BC'])[j % 2], dict(c, fmm=1))))
    out.append((sail, ('newtonian', 3, ['AB', 'C'], dict(evolve=1))))
    for j in p18.spreads():
        out.append((together, ('p18', 'spread', j)))
    out += [(together, ('p18', 'domain', (D, s))) for D in (1, 2, 3) for s in (('A', 'B'), ('AB', 'C'))]
    out += [(together, ('p22', 'vectors', (n,))) for n in (2, 3, 5)] + [(together, ('p22', 'reductions', (D,))) for D in (1, 2, 3)]
    js = p23.jobs()
    out += [(together, ('p23', 'run', j)) for k, j in enumerate(js) if T or k % 3 == 0 or j[0] == 'm']
    a, its = p29.jobs()
    out += [(together, ('p29', 'run', ('it',) + j)) for j in its] + [(together, ('p29', 'run', ('place',) + j)) for k, j in enumerate(a) if len(j[2]) > 1 and (T or k % 4 == 0)]
    out += [(together, ('p30', 'run', (k, D))) for k in 'sc' for D in (1, 2, 3)]
    for D in (1, 2, 3):
        out += [(together, ('p31', 'session', (D, n, R, R + n + lz, lz))) for R, n, lz in ((2, 6, 0), (2, 7, 3), (3, 7, 5), (4, 6, 2), (5, 7, 4))]
        cs = p42.cases(D)
        out += [(together, ('p42', 'case', (D,) + c)) for c in cs if 1 < c[1] < 10 and (T or c[0] < 10)]
    out += [(params, (n,)) for n in (1, 2, 3, 5)]
    return out


def calls(m, f):
    from vf.ir import callee
    return {callee(i) for _, i in f.insts() if i[1] in ('call', 'invoke')} - {None}


def do(f, a):
    return f(*a)


WHAT21 = """The loop of the hydro, newtonian and wvt drivers is interpreted on all ranks of a run side by side, each with particles of its own, for each way of writing output and each combination of
switches, the operations on the tree and the snapshots being collectives of their own; these operations (redistribution, domain, tree, searches, boundaries, snapshots, exchange helpers, relaxation,
parameters) are interpreted on all ranks in the same way. Every collective must be met by all ranks with the same operation, length and root and under the same conditions; after each step all ranks have
the same clock. Every function of the program that enters a collective must have been interpreted."""

COLL = re.compile(r'^MPI_(Barrier|Bcast|I?all(gather|reduce|toall)v?|All(gather|reduce|toall)v?|Gatherv?|Scatterv?|Reduce.*|Scan|Exscan|Comm_(dup|split|create|free))$')


def p21():
    ck = Check('P21', WHAT21, ['tables of rank counts, key layouts and switches stand for all', 'the contents of particles are unknown', 'runs are of three passes'])
    build.irdump()
    build.scratch()
    build.overlay()
    js = jobs21()
    ds = sorted({j[1][:2] for j in js if j[0] is sail})
    pmap(ready, ds)
    rest = [j for j in js if j[0] is not sail]
    for q in pmap(do, [j for j in js if j[0] is sail] + rest):
        ck.extend(q)
    # every function of a driver that enters a collective has been looked at
    missing = {}
    for drv, D in ds:
        m = load(drv, D)
        for f in m.fns.values():
            if f.decl:
                continue
            cs = sorted({c for c in calls(m, f) if COLL.match(c)})
            if cs:
                n = re.sub(r'<.*', '', f.dem)
                ok = f.dem[:160] in ck.fns or any(re.sub(r'<.*', '', g) == n for g in ck.fns)
                k = '%s:%s:%dD' % (n[:80], drv, D)
                if k not in missing:
                    missing[k] = ok
                    ck.ob('looked-at:' + k, True if ok else None, '%s:%s' % (f.file, f.line) if hasattr(f, 'line') else n, 'functions that enter collectives are interpreted on all ranks', ', '.join(cs), 'call graph')
    return finish(ck, 400)
