"""P42, P31: the distributed tree."""
import os
import random
import time
from checks.sph import *
from vf.ranks import Fleet, Mismatch

T = 'include/tree_topology/tree_topology.h'


def loc(m, f):
    return where(m, f)


def load(D):
    return build.compile(DR + 'tree.cc', D, ['vf_*'], flags=['-fno-access-control'])


def fresh(it, st, a, i):
    """small pieces of memory hold unknown bits, not just anything: single bits may be written to them"""
    n = a[0]
    if isc(n) and n.a[0] == 8:
        p = it.alloc(st, 'heap', 8)
        it.store(st, p, 8, sym('bits%d' % p.a[0], E.I(64)))
        return p
    return it.alloc(st, 'heap', n.a[0] if isc(n) else None)


class Tree(World):
    """one rank with its particles; what a cell is made of is recorded"""

    def __init__(self, m, D, F, r, more=None):
        self.r, self.F = r, F
        self.made = {}
        ms = dict(F.models(r))
        ms['vfm_cofm'] = self.cofm
        ms['omp_get_wtime'] = lambda it, st, a, i: sym('time', R)
        ms['std::__detail::_Prime_rehash_policy::_M_need_rehash'] = ms['_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm'] = lambda it, st, a, i: mk('agg', (ic(0, 8), ic(0, 64)), 'a')
        for x in ('_Znwm', '_Znam'):
            ms[x] = fresh
        ms.update(more or {})
        super().__init__(m, D, ms=ms)
        self.nsize = self('vf_node_size').a[0]

    def one(self, it, st, f, *a):
        return it.callfn(self.m.fns[f], list(a), st)

    def cofm(self, it, st, a, i):
        """the mass is the sum of the masses, the rest stands for itself"""
        c, key, e, n, s, k = a
        mass, sub_ = rc(0), 0
        for j in range(n.a[0]):
            st, v = self.one(it, st, 'vf_mass', it.load(st, padd(e, ic(8 * j, 64)), 8, E.P))
            mass = add(mass, v)
            sub_ += 1
        for j in range(k.a[0]):
            q = it.load(st, padd(s, ic(8 * j, 64)), 8, E.P)
            st, v = self.one(it, st, 'vf_node_mass', q)
            mass = add(mass, v)
            st, v = self.one(it, st, 'vf_node_sub', q)
            sub_ += E.sval(v)
        D, nm = self.D, 'N%x' % key.a[0]
        v = rvec(nm + '.x', D) + rvec(nm + '.lo', D) + rvec(nm + '.hi', D) + [mass, self.width(key.a[0]), rs(nm + '.lap')]
        x = it.alloc(st, 'cell', 8 * len(v))
        for j, y in enumerate(v):
            it.store(st, padd(x, ic(8 * j, 64)), 8, y)
        st, _ = self.one(it, st, 'vf_node_put', c, x, ic(sub_, 32))
        return st, None

    def width(self, key):
        return rs('N%x.r' % key)

    def grow(self, parts):
        """parts: (name, key) of the local particles, in key order"""
        self.t = self('vf_new')
        names = [n for n, _ in parts]
        over = {n: {'id': ic(int(n[1:]), 64), 'key': ic(k, 64), 'type': ic(0, 32), 'state': ic(0, 32), 'nn': ic(0, 64), 'owner': ic(self.r, 32)} for n, k in parts}
        arr, ds = bodies(self, names, over)
        self('vf_set', self.t, arr, ic(len(names), 32))
        self('vf_build', self.t)

    def cells(self):
        """the cells that can be reached from the root"""
        n = self('vf_cells', self.t, E.NULL).a[0]
        o = self.it.alloc(self.st, 'cells', 8 * n)
        self('vf_cells', self.t, o)
        return [self.it.load(self.st, padd(o, ic(8 * j, 64)), 8, E.P) for j in range(n)]

    def walk(self):
        """the cells of the tree, root first: (key, kind, owner, shared, content)"""
        out = []
        for c in self.cells():
            k = self('vf_key', c).a[0]
            kind_ = self('vf_isnode', c).a[0]
            rec = {'key': k, 'kind': kind_, 'owner': E.sval(self('vf_owner', c)), 'shared': self('vf_shared', c).a[0], 'kids': []}
            if kind_ == 1:
                n = self('vf_node', self.t, c)
                rec['mass'], rec['sub'], rec['nkey'] = self('vf_node_mass', n), E.sval(self('vf_node_sub', n)), self('vf_node_key', n)
                o = self.out(3 * self.D + 2)
                self('vf_node_take', n, o)
                rec['rest'] = self.get(o, 3 * self.D + 2)
            elif kind_ == 0:
                b = self('vf_ent', self.t, c)
                rec['mass'], rec['id'], rec['bkey'] = self('vf_mass', b), self('vf_id', b), self('vf_bkey', b)
            out.append(rec)
        for x in out:
            x['kids'] = [y['key'] for y in out if y['key'] >> self.D == x['key']]
        return sorted(out, key=lambda x: x['key'])


def grow(m, D, parts, make=None, then=None, lazy=0):
    """parts[r]: particles of rank r"""
    F = Fleet(len(parts))
    F.lazy = lazy
    ws = [make(F, r) if make else Tree(m, D, F, r) for r in range(len(parts))]

    def body(w):
        w.grow(parts[w.r])
        if then:
            return then(w)
        return w.walk()
    try:
        out = F.go([(lambda w=w: body(w)) for w in ws])
    except Mismatch as e:
        return None, ['the ranks cannot continue: %s' % e] + F.problems, F, ws
    except Incomplete as e:
        bad = ['rank %d reads or writes through a null pointer in %s' % (w.r, w.it.nulls[-1]) for w in ws if w.it.nulls]
        if not bad:
            raise
        return None, bad + [str(e)], F, ws
    return out, list(F.problems) + ['rank %d writes outside %s in %s' % (w.r, v, k) for w in ws for k, v in w.it.wild.items()], F, ws


DEPTH = {1: 63, 2: 31, 3: 21}


def mkkey(D, digits, fill=0):
    k = 1
    for i in range(DEPTH[D]):
        k = k << D | (digits[i] if i < len(digits) else fill)
    return k


def shape(D, n, seed, deep=False):
    """n different keys in ascending order: clusters at random depths, ends of the domain included at times"""
    rnd = random.Random(seed * 1000 + n * 10 + D)
    out = set()
    top = (1 << D) - 1
    if seed % 3 == 0:
        out |= {mkkey(D, []), mkkey(D, [], top)} if n > 1 else set()
    base = []
    while len(out) < n:
        if base and rnd.random() < 0.6:
            d = list(rnd.choice(base))
            cut = rnd.choice((1, 2, 3, 5, DEPTH[D] - 1, DEPTH[D] - 2) if deep else (1, 2, 2, 3, 4, 6))
            d = d[:cut] + [rnd.randint(0, top) for _ in range(DEPTH[D] - cut)]
        else:
            d = [rnd.randint(0, top) for _ in range(DEPTH[D])]
        base.append(d)
        out.add(mkkey(D, d))
    return sorted(out)


def splits(n, r, seed):
    rnd = random.Random(seed * 77 + n + r)
    cuts = sorted(rnd.sample(range(1, n), r - 1))
    return [0] + cuts + [n]


def below(key, k, D):
    """the particle key k lies under the cell key"""
    d = (k.bit_length() - 1) // D - (key.bit_length() - 1) // D
    return d >= 0 and k >> (D * d) == key


def addends(x):
    if E.isr(x) and x.op == 'c' and x.a[0] == 0 or isc(x) and x.a[0] == 0:
        return []
    if x.op == 'fadd':
        return addends(x.a[0]) + addends(x.a[1])
    return [x]


def judge(D, parts, out):
    """complaints about the trees of all ranks, by rule"""
    bad = {k: [] for k in ('root', 'aggregate', 'children', 'local', 'remote', 'answer')}
    allp = {k: (n, r) for r, ps in enumerate(parts) for n, k in ps}
    held = [{x['key']: x for x in cells} for cells in out]
    for r, cells in enumerate(out):
        root = cells[0]
        if root['kind'] != 1 or root.get('sub') != len(allp):
            if len(allp) > 1:
                bad['root'].append('rank %d: the root has %s of %d particles' % (r, root.get('sub'), len(allp)))
        seen = {}
        for x in cells:
            want = sorted(n for k, (n, _) in allp.items() if below(x['key'], k, D))
            nm = 'rank %d cell %#o' % (r, x['key'])
            if x['kind'] == 2:
                bad['aggregate'].append(nm + ' was never completed')
                continue
            got = sorted(str(y.a[0])[:-2] if y.op == 's' else '?' for y in addends(x['mass']))
            if got != want:
                bad['aggregate'].append('%s holds the mass of %s, below it are %s' % (nm, got, want))
            if x['kind'] == 1:
                if x['sub'] != len(want):
                    bad['aggregate'].append('%s counts %s of %d' % (nm, x['sub'], len(want)))
                other = [y for y in x['rest'] if not (y.op == 's' and y.a[0].startswith('N%x.' % x['key']))]
                if other or len(set(x['rest'])) != len(x['rest']):
                    bad['aggregate'].append('%s has a centre, box, size or margin that is not its own: %s' % (nm, ', '.join(E.show(y) for y in (other or x['rest'])[:4])))
                if not isc(x['nkey']) or x['nkey'].a[0] != x['key']:
                    bad['aggregate'].append('%s has the aggregate of cell %s' % (nm, E.show(x['nkey'])))
                if x['kids']:
                    cover = sorted(n for k, (n, _) in allp.items() for c in x['kids'] if below(c, k, D))
                    if cover != want or any(c >> D != x['key'] for c in x['kids']):
                        bad['children'].append('%s has children holding %s, below it are %s' % (nm, cover, want))
                else:
                    o = x['owner']
                    if o == r or not 0 <= o < len(out) or not held[o].get(x['key'], {'kids': []})['kids']:
                        bad['answer'].append('%s is to be had from rank %d, which has not got it' % (nm, o))
            else:
                k = x['bkey'].a[0]
                if k not in allp or not below(x['key'], k, D) or x['kids']:
                    bad['children'].append('%s is a particle of key %#o' % (nm, k))
                    continue
                seen[k] = seen.get(k, 0) + 1
                n, o = allp[k]
                if x['id'].a[0] != int(n[1:]):
                    bad['aggregate'].append('%s shows particle %d with the key of %s' % (nm, x['id'].a[0], n))
                if o == r and x['shared']:
                    bad['local'].append('%s: own particle %s is marked as shared' % (nm, n))
                if o != r and (not x['shared'] or x['owner'] != o):
                    bad['remote'].append('%s: particle %s of rank %d is marked as of rank %d' % (nm, n, o, x['owner']))
        for n, k in parts[r]:
            if seen.get(k) != 1:
                bad['local'].append('rank %d: its particle %s is found %d times' % (r, n, seen.get(k, 0)))
    return bad


RULES = {
    'root': 'the root of every rank is complete and counts every particle of every rank',
    'aggregate': 'a cell\'s aggregate is made of every particle below it, once, and belongs to that cell',
    'children': 'the children a cell has on a rank are its children and cover all particles below it; a particle\'s cell holds the particle of that key',
    'local': 'every own particle is exactly one leaf of its rank\'s tree and is not marked as shared',
    'remote': 'a particle of another rank is marked as shared and names its owner',
    'answer': 'a cell without children on a rank names a rank that has its children'}


def cases(D):
    """(particles, ranks, seed, deep)"""
    out = []
    for R in range(1, 10):
        for j, n in enumerate(sorted({R, R + 2, 2 * R + 1} if R < 6 else {R, R + 3})):
            if n > 1 or R == 1:
                out.append((n, R, 3 * R + j + D, False))
    out += [(5, 2, 1, D > 1), (6, 3, 4, D > 1), (2, 2, 0, True), (2, 1, 0, True)]
    return out


def case(D, n, R, seed, deep):
    p = Part()
    m = load(D)
    p.units.append('tree.cc/%dD' % D)
    ks = shape(D, n, seed, deep)
    c = splits(n, R, seed)
    parts = [[('p%d' % i, ks[i]) for i in range(c[j], c[j + 1])] for j in range(R)]
    again = seed % 2 == 1
    out, bad, F, ws = grow(m, D, parts, then=(lambda w: (w('vf_reset', w.t), w.walk())[1]) if again else None)
    for w in ws:
        p.used(w.it, m)
    nm = '%dD:%d-ranks:%d-particles:%d' % (D, R, n, seed)
    what = 'keys %s, %s per rank%s' % (' '.join('%#o' % k for k in ks), [len(x) for x in parts], ', rebuilt' if again else '')
    how = 'co-interpretation of all ranks'
    L = loc(m, 'build_tree')
    p.ob('exchange:' + nm, out is not None and not bad, loc(m, 'share_nodes_'), 'every message of the exchange is matched, has the expected length and is completed, and all ranks end', '; '.join(bad[:3]) or what, how)
    if out is not None:
        for k, b in judge(D, parts, out).items():
            p.ob('%s:%s' % (k, nm), not b, L, RULES[k], '; '.join(b[:3] + ([what] if b else [])) or what, how)
        p.stats['cells_compared'] = sum(len(x) for x in out)
    p.stats['trees'] = R
    return p


def whole(D, n, R, seed, deep):
    """P11: what the nodes of a tree are made of"""
    p = Part()
    m = load(D)
    p.units.append('tree.cc/%dD' % D)
    ks = shape(D, n, seed, deep)
    c = splits(n, R, seed)
    parts = [[('p%d' % i, ks[i]) for i in range(c[j], c[j + 1])] for j in range(R)]
    nm = '%dD:%d-ranks:%d-particles:%d' % (D, R, n, seed)
    what = 'keys %s, %s per rank' % (' '.join('%#o' % k for k in ks), [len(x) for x in parts])
    for again in (False, True):
        out, bad, F, ws = grow(m, D, parts, then=(lambda w: (w('vf_reset', w.t), w.walk())[1]) if again else None)
        for w in ws:
            p.used(w.it, m)
        b = list(bad)
        if out is not None:
            j = judge(D, parts, out)
            b = j['root'] + j['aggregate'] + j['children']
        p.ob('tree:%s:%s' % ('again' if again else 'first', nm), out is not None and not b, loc(m, 'build_tree'), RULES['aggregate'], '; '.join(b[:3] + ([what] if b else [])) or what, 'co-interpretation of all ranks')
    return p


def preload():
    """compile the units once for all workers"""
    from concurrent.futures import ThreadPoolExecutor
    build.irdump()
    build.scratch()
    build.overlay()
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(load, (1, 2, 3)))


def thorough():
    return os.environ.get('VERIF_TIER') == 'thorough'


def p42():
    ck = Check('P42', 'The construction and exchange of the tree is interpreted on all ranks of a run side by side, on abstract particles whose masses are unknown and distinct: what every cell of every rank aggregates, its children, its leaves and the owner it names are compared with the particles below it, for a table of rank counts and key layouts (clusters, deep pairs, particles in the corner cells of the domain; first and repeated construction).',
               ['Distinct particle keys, as the tree requires; at least one particle per rank.', 'Key layouts and rank counts are enumerated from a table (1-9 ranks); masses, positions and sizes are unknown.'])
    preload()
    jobs = [(D,) + c for D in (1, 2, 3) for c in cases(D)]
    if thorough():
        jobs += [(D, n, R, s, False) for D in (1, 2, 3) for s in range(50, 54) for R, n in ((1, 12), (2, 10), (3, 9), (5, 12), (7, 12), (9, 13), (11, 13), (13, 14))]
    jobs.sort(key=lambda j: -j[1] * j[2])
    for q in pmap(case, jobs):
        ck.extend(q)
    return finish(ck, 400)
