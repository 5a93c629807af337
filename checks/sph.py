"""particles for the analyses of the SPH code"""
from vf.common import *

VEC = ['x', 'v', 'w', 'a', 'g']
SCA = ['m', 'h', 'phi', 'rho', 'P', 'S', 'Ye', 'T', 'c', 'u', 'e', 'du', 'de', 'K', 'dK', 'dt', 'al', 'dv', 'ddv', 'tr', 'xi', 'ss', 'gv', 'pm', 'vs']
INT = ['id', 'type', 'state', 'nn', 'owner', 'key']
POSN = ['m', 'h', 'rho', 'P', 'c', 'u', 'K', 'vs', 'Ye', 'T']
NAME = dict(zip(VEC + SCA + INT, ['coordinates', 'velocity', 'half velocity', 'acceleration', 'gravitational acceleration', 'mass', 'radius', 'gravitational potential', 'density', 'pressure', 'entropy', 'electron fraction', 'temperature', 'sound speed', 'internal energy', 'total energy', 'du/dt', 'de/dt', 'adiabatic constant', 'dK/dt', 'dt', 'alpha', 'div v', 'd(div v)/dt', 'trigger', 'xi', 'trace SS', 'grad v', 'minimum pressure', 'signal speed', 'id', 'type', 'state', 'neighbours', 'owner', 'key']))


def app(name):
    return lambda it, st, a, i: E.call(name, a)


def nullmpi(it, st, a, i):
    return ic(0, 32)


def models(D):
    def vec(name):
        return lambda it, st, a, i: E.call(name, outs(it, st, a[0], D))

    def acc(it, st, a, i):
        xs = outs(it, st, a[0], D)
        for j in range(D):
            it.store(st, padd(a[1], ic(8 * j, 64)), 8, E.call('acc' + 'xyz'[j], xs))
        return None
    return {'vfm_W': app('W'), 'vfm_F': app('F'), 'vfm_eosP': app('eosP'), 'vfm_eosC': app('eosC'), 'vfm_phi': vec('phi'), 'vfm_acc': acc}


class World(Run):
    def __init__(self, m, D, ms=None, **kw):
        md = models(D)
        md.update(ms or {})
        pins = {'external_force::vec_accelerations': 'init', 'external_force::vec_potentials': 'init', 'param::_relaxation_steps': ic(0, 64)}
        pins.update(kw.pop('pins', {}))
        super().__init__(m, models=md, pins=pins, **kw)
        self.D = D
        self.size = self('vf_body_size').a[0]

    def body(self, n, over=None, ident=None):
        """a particle whose every quantity is its own symbol, or as given"""
        over = over or {}
        d = {}
        for k in VEC:
            d[k] = list(over[k]) if k in over else rvec(n + '.' + k, self.D)
        for k in SCA:
            d[k] = over.get(k, rs(n + '.' + k))
        d['id'] = over.get('id', ic(ident if ident is not None else ord(n[0]) - ord('A') + 1, 64))
        d['type'] = over.get('type', ic(0, 32))
        d['state'] = over.get('state', ic(0, 32))
        d['nn'] = over.get('nn', sym(n + '.nn', E.I(64)))
        d['owner'] = over.get('owner', sym(n + '.owner', E.I(32)))
        d['key'] = over.get('key', sym(n + '.key', E.I(64)))
        b = self.it.alloc(self.st, n, self.size)
        s = self.arr([x for k in VEC for x in d[k]] + [d[k] for k in SCA], n + '.in')
        self('vf_body_put', b, s, d['id'], d['type'], d['state'], d['nn'], d['owner'], d['key'])
        return b, d

    def read(self, b):
        n = len(VEC) * self.D + len(SCA)
        o = self.out(n, 'got')
        io = self.out(len(INT), 'goti')
        self('vf_body_get', b, o, io)
        v = self.get(o, n)
        i = self.get(io, len(INT), E.I(64))
        d = {}
        for j, k in enumerate(VEC):
            d[k] = v[j * self.D:(j + 1) * self.D]
        for j, k in enumerate(SCA):
            d[k] = v[len(VEC) * self.D + j]
        for j, k in enumerate(INT):
            d[k] = i[j]
        return d

    def list(self, bs):
        p = self.it.symarr(self.st, 'nb', list(bs))
        return p, ic(len(bs), 32)


def bodies(w, ns, over=None):
    """a contiguous array of particles"""
    blk = w.it.alloc(w.st, 'bodies', w.size * len(ns))
    ds = []
    n = len(VEC) * w.D + len(SCA)
    for i, nm in enumerate(ns):
        b, d = w.body(nm, (over or {}).get(nm))
        s = w.arr([x for k in VEC for x in d[k]] + [d[k] for k in SCA], nm + '.in')
        w('vf_body_put', padd(blk, ic(w.size * i, 64)), s, d['id'], d['type'], d['state'], d['nn'], d['owner'], d['key'])
        ds.append(d)
    return blk, ds


def al(ns='AB', extra_pos=(), extra_nn=()):
    return alg.Alg(positive=[n + '.' + k for n in ns for k in POSN] + list(extra_pos), nonneg=list(extra_nn))


def changed(d0, d1, allow=()):
    """quantities that differ (as value graphs) between two readings"""
    o = []
    for k in VEC + SCA + INT:
        if k in allow:
            continue
        a, b = d0[k], d1[k]
        if isinstance(a, list):
            if any(x is not y for x, y in zip(a, b)):
                o.append(k)
        else:
            if isinstance(a, N) and a.k != b.k and isinstance(b.k, tuple):
                a = E.icast('sext' if k in ('type', 'state', 'owner') else 'zext', a, b.k[1])
            if a is not b:
                o.append(k)
    return o
