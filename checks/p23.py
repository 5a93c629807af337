"""P23: snapshots restore what they saved."""
import itertools
import posixpath
import re
from checks.sph import *
from vf.hdf5 import Disk, Rank
from vf.ranks import Fleet, Mismatch
from vf.text import Text

SAVED = ('x', 'v', 'm', 'h', 'rho', 'P', 'dt', 'id', 'type', 'state')
FIRST = ('dimension',)


def load(D, u):
    return build.compile(DR + 'io.cc', D, ['vf_*'], flags=build.STRINGS, defs=('INTERNAL_ENERGY',) if u else ())


class Box(World):
    def __init__(self, m, D, F, r, disk):
        self.r = r
        self.rk = Rank(disk, F, r)
        ms = dict(Text().models(), **F.models(r))
        ms.update(self.rk.models())
        for f in m.fns.values():
            if re.search(r'\bstd::type_info::operator==\(', f.dem):
                ms[f.name] = ms['std::type_info::operator==*']
        ms['omp_get_wtime'] = lambda it, st, a, i: sym('time', R)
        super().__init__(m, D, ms=ms, pins={g['d']: 'init' for g in m.globals.values() if 'io::' in g['d']})
        self.it.fninit = True

    def text(self, s):
        return self.it.symarr(self.st, 'str', [ic(ord(c), 8) for c in s] + [ic(0, 8)])

    def start(self, sep, first):
        self('vf_files', ic(int(sep), 1), ic(first, 64))
        self.s = self('vf_new')

    def fill(self, names):
        over = {n: {'id': sym(n + '.id', E.I(64)), 'type': sym(n + '.type', E.I(32)), 'state': sym(n + '.state', E.I(32))} for n in names}
        arr, ds = bodies(self, names, over)
        self('vf_set', self.s, arr, ic(len(names), 32))
        return ds

    def write(self, prefix, it, t, dt):
        self('vf_clock', t, dt)
        self('vf_write', self.s, self.text(prefix), ic(it, 32))

    def restart(self, src, dst, it):
        """False when the program ends instead"""
        r = self.it.run('vf_read', [self.s, self.text(src), self.text(dst), ic(it, 32)], self.st)
        if r is None or self.rk.ended:
            return False
        self.st = r[0]
        return True

    def held(self):
        n = self('vf_nents', self.s).a[0]
        b = self('vf_ents', self.s)
        return [self.read(padd(b, ic(self.size * k, 64))) for k in range(n)]


def phase(p, m, D, disk, size, f):
    """run f(box) on every rank; None when they cannot finish together"""
    F = Fleet(size)
    ws = [Box(m, D, F, r, disk) for r in range(size)]
    try:
        out, bad = F.go([(lambda w=w: f(w)) for w in ws]), F.problems
    except Mismatch as e:
        out, bad = None, [str(e)]
    for w in ws:
        p.used(w.it, m)
    bad = list(bad) + disk.problems
    disk.problems = []
    return out, bad


def again(*a):
    """a restart that may search in vain"""
    try:
        return phase(*a)
    except Incomplete as e:
        if 'never returns' not in str(e):
            raise
        return [None], []


def split(names, counts):
    o, k = [], 0
    for c in counts:
        o.append(names[k:k + c])
        k += c
    return o


def clock(k):
    return rs('t%d' % k), rs('dt%d' % k)


def parts(k, n):
    return ['%s%d' % (c, k) for c in 'ABCDEFGH'[:n]]


def save(p, m, D, disk, prefix, sep, counts, its, first=0):
    """snapshots of particles of their own at each iteration; returns the particles"""
    n = sum(counts)

    def f(w):
        w.start(sep, first)
        ds = {}
        for k in its:
            ds[k] = w.fill(split(parts(k, n), counts)[w.r])
            w.write(prefix, k, *clock(k))
        return ds
    out, bad = phase(p, m, D, disk, len(counts), f)
    if out is None:
        return None, bad
    return {k: sum((o[k] for o in out), []) for k in its}, bad


def differs(d, b, keys):
    o = []
    for k in keys:
        x, y = (d[k], b[k])
        if isinstance(x, list):
            if any(s is not t for s, t in zip(x, y)):
                o.append('%s is (%s)' % (NAME[k], ', '.join(E.show(t, 3) for t in y)))
        else:
            if x.k != y.k and isinstance(y.k, tuple):
                x = E.icast('sext' if k in ('type', 'state') else 'zext', x, y.k[1])
            if x is not y:
                o.append('%s is %s' % (NAME[k], E.show(y, 3)))
    return o


def same_particles(want, out, keys):
    got = [b for o in out for b in o]
    if len(got) != len(want):
        return ['%d particles instead of %d' % (len(got), len(want))]
    bad = []
    for j, (d, b) in enumerate(zip(want, got)):
        x = differs(d, b, keys)
        if x:
            bad.append('of particle %d the %s' % (j, ', the '.join(x[:3])))
    return bad


RESTORE = 'a restart gives every particle of the snapshot to exactly one rank with every saved quantity'
TOGETHER = 'all ranks make the same file operations, write each entry once and end'


def cycle(D, u, sep, wc, rn, its, pick, src, dst, onward):
    """write, restart from a chosen iteration, perhaps continue"""
    p = Part()
    m = load(D, u)
    p.units.append('io.cc/%dD%s' % (D, ':u' if u else ''))
    tag = '%dD:%s%s:%s->%d:%s@%d:%s%s' % (D, 'separate' if sep else 'single', ':u' if u else '', '+'.join(map(str, wc)), rn, ','.join(map(str, its)), pick, src if src == dst else src + '>' + dst, ':onward' if onward else '')
    wat, rat = where(m, 'io::outputDataHDF5'), where(m, 'io::inputDataHDF5')
    keys = SAVED + (('u',) if u else ())
    disk = Disk(['.', 'out', 'other'])
    # runs of other names, in this directory and elsewhere, stay as they are
    for q in {posixpath.dirname(x) for x in (src, dst)} | {'', 'other'}:
        for b in ('run', 'runs', 'prerun', 'run_run'):
            f = posixpath.join(q, b)
            if f not in (src, dst):
                g, bad = save(p, m, D, disk, f, sep, (1,), [700, 710, 720])
                p.ob('apart:%s:%s' % (f, tag), g is not None and not bad, wat, TOGETHER, '; '.join(bad), 'co-interpretation of all ranks')
    before = set(disk.files)
    ds, bad = save(p, m, D, disk, src, sep, wc, its)
    p.ob('write:' + tag, ds is not None and not bad, wat, TOGETHER, '; '.join(bad), 'co-interpretation of all ranks')
    if ds is None:
        return p
    for x, g in sorted(disk.files.items()):
        if x not in before:
            v = g.attrs['dimension'].v[0] if 'dimension' in g.attrs else None
            p.ob('dimension:%s:%s' % (x, tag), v is not None and isc(v) and v.a[0] == D, wat, 'every file says how many dimensions it has', 'missing' if v is None else E.show(v, 2), 'constant propagation')
    if onward and src != dst:
        # what an earlier run left under the name of the output
        save(p, m, D, disk, dst, sep, (1,), [500, 510, 520, 530])
    later = [pick + 5, pick + 7]

    def f(w):
        w.start(sep, pick)
        if not w.restart(src, dst, pick):
            return None
        o = w.held(), w('vf_nlocal', w.s), w('vf_ntotal', w.s), w('vf_time'), w('vf_dt')
        new = {}
        if onward:
            w.write(dst, pick, o[3], o[4])
            for k in later:
                new[k] = w.fill(split(parts(k, 3), [3] + [0] * (rn - 1))[w.r])
                w.write(dst, k, *clock(k))
        return o + (new,)
    out, bad = phase(p, m, D, disk, rn, f)
    if not sep and src == dst and pick != its[-1] and out is not None and all(o is None for o in out):
        p.ob('refuse:' + tag, True, rat, 'an output in one file is continued after its last snapshot or not at all', 'the program ends', 'effects on files')
        return p
    ok = out is not None and not bad and None not in out
    p.ob('read:' + tag, ok, rat, TOGETHER, '; '.join(bad) or 'the program ends', 'co-interpretation of all ranks')
    if not ok:
        return p
    bad = same_particles(ds[pick], [o[0] for o in out], keys)
    p.ob('restore:' + tag, not bad, rat, RESTORE, '; '.join(bad[:2]), 'provenance of every value')
    bad = [r for r, o in enumerate(out) if E.sval(o[1]) != len(o[0]) or E.sval(o[2]) != sum(wc)]
    p.ob('counts:' + tag, not bad, rat, 'the numbers of local and of all particles are those of the snapshot', '%s' % [(E.show(o[1]), E.show(o[2])) for o in out], 'constant propagation')
    if pick:
        t, dt = clock(pick)
        p.ob('clock:' + tag, all(o[3] is t and o[4] is dt for o in out), rat, 'time and time step continue where the snapshot was taken', '%s, %s' % (E.show(out[0][3], 3), E.show(out[0][4], 3)), 'provenance of every value')
    lost = [x for x in disk.removed if x in before]
    p.ob('others:' + tag, not lost, where(m, 'io::H5P_removePrefix'), 'snapshots of other runs stay', ', '.join(lost), 'effects on files')
    if not onward:
        return p
    its_now = sorted(E.show(v, 3) for x, g in disk.files.items() if x.startswith(posixpath.normpath(dst) + '.') or x.startswith(posixpath.normpath(dst) + '_') and x[len(posixpath.normpath(dst)) + 1:].split('.')[0].isdigit()
                     for h in g.groups.values() if 'iteration' in h.attrs for v in h.attrs['iteration'].v)
    p.ob('once:' + tag, len(set(its_now)) == len(its_now), wat, 'an output holds one snapshot of an iteration', ', '.join(its_now), 'effects on files')
    for k in [pick] + later:
        def g(w):
            w.start(sep, k)
            return w.held() if w.restart(dst, 'nowhere', k) else None
        back, bad = again(p, m, D, disk, 1, g)
        want = ds[k] if k == pick and src == dst else ds[pick] if k == pick else sum((o[5][k] for o in out), [])
        bad = bad or (['the program ends'] if back is None or None in back else same_particles(want, back, keys))
        p.ob('onward:%d:%s' % (k - pick, tag), not bad, rat, 'snapshots written after a restart restore what was saved then, whatever an earlier run left behind', '; '.join(bad[:2]), 'provenance of every value')
    if sep and pick + 5 not in its:
        left = [x for x in its if x > pick]
        for k in left:
            def g(w):
                w.start(sep, k)
                return w.held() if w.restart(src, 'nowhere', k) else None
            back, bad = again(p, m, D, disk, 1, g)
            if src == dst:
                p.ob('stale:%d:%s' % (k, tag), back is None or None in back, rat, 'a restart that continues its own output discards the snapshots taken later', 'iteration %d is still found' % k, 'effects on files')
            else:
                bad = bad or (['the program ends'] if back is None or None in back else same_particles(ds[k], back, keys))
                p.ob('source:%d:%s' % (k, tag), not bad, rat, 'the snapshots read from stay', '; '.join(bad[:2]), 'effects on files')
    return p


QUANT = {'ax': ('a', 0), 'ay': ('a', 1), 'az': ('a', 2), 'gradV': 'gv', 'h': 'h', 'rho': 'rho', 'P': 'P', 'm': 'm', 'dt': 'dt', 'traceSS': 'ss', 'id': 'id', 'type': 'type', 'alpha': 'al', 'divergenceV': 'dv', 'dDivVdt': 'ddv', 'trigger': 'tr', 'xi': 'xi',
         'state': 'state', 'neighbors': 'nn', 'x': ('x', 0), 'y': ('x', 1), 'z': ('x', 2), 'vx': ('v', 0), 'vy': ('v', 1), 'vz': ('v', 2)}


def content(D, u, wc):
    """every dataset holds the quantity it is named after"""
    p = Part()
    m = load(D, u)
    p.units.append('io.cc/%dD%s' % (D, ':u' if u else ''))
    at = where(m, 'io::outputDataHDF5')
    disk = Disk(['.'])
    ds, bad = save(p, m, D, disk, 'run', False, wc, [0, 10])
    tag = '%dD%s:%s' % (D, ':u' if u else '', '+'.join(map(str, wc)))
    p.ob('write:' + tag, ds is not None and not bad, at, TOGETHER, '; '.join(bad), 'co-interpretation of all ranks')
    if ds is None:
        return p
    f = disk.files.get('run.h5part')
    p.ob('steps:' + tag, f is not None and set(f.groups) == {'Step#0', 'Step#1'}, at, 'each snapshot is a step of its own', str(sorted(disk.files) if f is None else sorted(f.groups)), 'effects on files')
    if f is None:
        return p
    for (k, want), g in zip(sorted(ds.items()), [f.groups[x] for x in sorted(f.groups)]):
        miss = [q for q in SAVED + (('u',) if u else ()) if not any(QUANT.get(s) == q or isinstance(QUANT.get(s), tuple) and QUANT[s] == (q, 0) or s == 'u' == q for s in g.sets)]
        p.ob('all:%d:%s' % (k, tag), not miss, at, 'every quantity a restart needs is written', ', '.join(NAME[q] for q in miss), 'effects on files')
        for s, x in sorted(g.sets.items()):
            q = QUANT.get(s, 'u' if s == 'u' else None)
            if q is None and s != 'rank':
                continue
            bad = []
            if x.n != len(want):
                bad.append('%d entries' % x.n)
            owner = [r for r, c in enumerate(wc) for _ in range(c)]
            for j, (d, v) in enumerate(zip(want, x.v)):
                if s == 'rank':
                    w = ic(owner[j], 64)
                elif isinstance(q, tuple):
                    w = rc(0) if q[1] >= D else E.fbin('fadd', d['a'][q[1]], d['g'][q[1]]) if q[0] == 'a' else d[q[0]][q[1]]
                else:
                    w = d[q]
                if v is None:
                    bad.append('entry %d is never written' % j)
                    continue
                if v.k != w.k and isinstance(v.k, tuple) and isinstance(w.k, tuple):
                    w = E.icast('sext', w, v.k[1])
                if v is not w and not (E.isr(v) and E.isr(w) and v.a[0] == w.a[0]):
                    bad.append('entry %d is %s instead of %s' % (j, E.show(v, 3), E.show(w, 3)))
            p.ob('dataset:%s:%d:%s' % (s, k, tag), not bad, at, 'a dataset holds the quantity it is named after, one entry per particle of all ranks', '; '.join(bad[:2]), 'provenance of every value')
        for s, w in (('time', clock(k)[0]), ('timestep', clock(k)[1]), ('iteration', ic(k, 64))):
            x = g.attrs.get(s)
            v = x.v[0] if x is not None else None
            p.ob('attribute:%s:%d:%s' % (s, k, tag), v is not None and (v is w or isc(v) and isc(w) and E.sval(v) == E.sval(w)), at, 'time, time step and iteration are saved with the snapshot', E.show(v, 3) if v is not None else 'missing', 'provenance of every value')
    return p


def bare(D, n, rn):
    """particles of a file without identities get distinct ones; missing quantities stay zero"""
    p = Part()
    m = load(D, False)
    p.units.append('io.cc/%dD' % D)
    at = where(m, 'io::inputDataHDF5')
    disk = Disk(['.'])
    ds, bad = save(p, m, D, disk, 'run', False, (n,), [0])
    tag = '%dD:%d->%d' % (D, n, rn)
    if ds is None:
        p.ob('write:' + tag, False, at, TOGETHER, '; '.join(bad))
        return p
    for g in disk.files['run.h5part'].groups.values():
        g.sets.pop('id', None)
        g.sets.pop('rho', None)

    def f(w):
        w.start(False, 0)
        return w.held() if w.restart('run', 'out', 0) else None
    out, bad = phase(p, m, D, disk, rn, f)
    ok = out is not None and not bad and None not in out
    p.ob('bare:' + tag, ok, at, TOGETHER, '; '.join(bad) or 'the program ends', 'co-interpretation of all ranks')
    if ok:
        got = [b for o in out for b in o]
        ids = [E.show(b['id']) for b in got]
        p.ob('identities:' + tag, len(set(ids)) == n and all(isc(b['id']) for b in got), at, 'particles of a file without identities get distinct ones', ', '.join(ids), 'constant propagation')
        bad = same_particles(ds[0], out, [k for k in SAVED if k not in ('id', 'rho')])
        p.ob('rest:' + tag, not bad, at, RESTORE, '; '.join(bad[:2]), 'provenance of every value')
        bad = [E.show(b['rho'], 3) for b in got if not (E.isr(b['rho']) and b['rho'].a[0] == 0)]
        p.ob('absent:' + tag, not bad, at, 'a quantity the file does not have stays zero', ', '.join(bad), 'provenance of every value')
    return p


def missing(D, its, pick, rn, src, sep=True):
    p = Part()
    m = load(D, False)
    p.units.append('io.cc/%dD' % D)
    at = where(m, 'io::inputDataHDF5')
    disk = Disk(['.', 'out'])
    ds, bad = save(p, m, D, disk, src, sep, (2,), its)
    tag = '%dD:%s%s@%d:%d:%s' % (D, '' if sep else 'single:', ','.join(map(str, its)), pick, rn, src)

    def f(w):
        w.start(sep, pick)
        return w.held() if w.restart(src, 'new', pick) else None
    try:
        out, bad = phase(p, m, D, disk, rn, f)
        ok = out is not None and all(o is None for o in out)
        dd = '' if ok else '; '.join(bad) or 'the run starts from %s' % ', '.join(E.show(b['m'], 3) for o in out if o for b in o)
    except Incomplete as e:
        if 'never returns' not in str(e):
            raise
        ok, dd = True, ''
    p.ob('missing:' + tag, ok, at, 'a restart from an iteration of which there is no snapshot does not start from another one', dd, 'co-interpretation of all ranks')
    return p


def run(k, *a):
    return {'c': cycle, 'q': content, 'b': bare, 'm': missing}[k](*a)


def jobs():
    out = []
    for D in (3, 2, 1):
        out += [('q', D, False, (2, 1)), ('q', D, True, (1, 0, 2)), ('q', D, False, (3,))]
        out += [('b', D, n, r) for n, r in ((3, 1), (3, 2), (5, 3), (4, 2))]
        out += [('m', D, [10, 20], 15, 1, 'run'), ('m', D, [10, 20], 30, 2, 'out/run'), ('m', D, [10, 20], 15, 2, 'run', False), ('m', D, [10, 20], 30, 1, 'run', False)]
        out += [('c', D, False, False, (2, 1), 2, [0, 10, 20, 30], 10, 'run', 'run', True), ('c', D, False, False, (1,), 1, [0, 10, 20], 0, 'run', 'run', True)]
        for sep in (False, True):
            for u in (False, True):
                out.append(('c', D, u, sep, (2, 1), 2, [0, 10, 20], 20, 'run', 'run', True))
                out.append(('c', D, u, sep, (1, 0, 2), 2, [0, 10, 20], 10, 'run', 'new', True))
            out.append(('c', D, False, sep, (4, 1), 3, [0, 10, 20, 30], 20, 'out/run', 'out/new', True))
            out.append(('c', D, False, sep, (1,), 2, [0, 10], 10, 'out/run', 'new', True))
            out.append(('c', D, False, sep, (2, 3), 1, [0, 10, 20], 10, 'run', 'run_b', False))
        out.append(('c', D, False, True, (2, 2), 2, [0, 10, 20, 30], 10, 'run', 'run', True))
        out.append(('c', D, False, True, (3,), 2, [0, 10, 20, 30], 10, 'out/run', 'out/run', True))
        out.append(('c', D, False, False, (2, 3), 3, [0], 0, 'run', 'new', True))
    for k in (20, 90, 110):
        out.append(('c', 3, False, True, (1,), 1, list(range(0, 130, 10)), k, 'run', 'run', True))
    return out


def p23():
    ck = Check('P23', 'Writing and reading of snapshots is interpreted on all ranks side by side over a shared abstract file system: every value in a dataset keeps its provenance, so what a restart on any number of ranks receives is compared with what was saved, through both ways of storing steps and with files of earlier and other runs around.',
               ['file operations succeed unless their target is missing or already there', 'tables of particle counts, rank counts and file names stand for all', 'contents of particles are unknown'])
    build.irdump()
    build.scratch()
    build.overlay()
    for q in pmap(run, jobs()):
        ck.extend(q)
    return finish(ck, 400)
