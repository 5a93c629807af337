"""P18: orderings of particles and keys."""
from checks.sph import *
import os
import re

KEEP = ('key', 'id')


def load(D):
    return build.compile(DR + 'srt.cc', D, ['vf_*'])


def laws(r, same, mono=None):
    """the order laws over three abstract elements; r(i, j) and same(i, j) are truth values"""
    B = bdd.Bdd(limit=4000000)
    c = lambda x: B.cond(x)
    I = lambda a, b: B.OR(B.NOT(a), b)
    out = [('irreflexive', c(r(0, 0)) == 0, c(r(0, 0)), 'no element is before itself'),
           ]
    x = B.AND(c(r(0, 1)), c(r(1, 0)))
    out.append(('asymmetric', x == 0, x, 'two elements are not each before the other'))
    x = B.AND(B.AND(c(r(0, 1)), c(r(1, 2))), B.NOT(c(r(0, 2))))
    out.append(('transitive', x == 0, x, 'before the middle one and that before the last one gives before the last one'))
    x = B.AND(B.NOT(c(same(0, 1))), B.NOT(B.OR(c(r(0, 1)), c(r(1, 0)))))
    out.append(('total', x == 0, x, 'of two different elements one is before the other'))
    if mono:
        x = B.AND(c(mono(0, 1)), B.NOT(c(r(0, 1))))
        out.append(('by key', x == 0, x, 'the element with the smaller key is first'))
    return [(n, ok, '' if ok else show_sat(B, x), rule) for n, ok, x, rule in out]


def show_sat(B, x):
    d = B.sat(x) if hasattr(B, 'sat') else None
    if not d:
        return 'violated'
    w = {}
    for (n, i), v in d.items():
        w[n] = w.get(n, 0) | v << i
    return ', '.join('%s=%#x' % k for k in sorted(w.items()))


def particles(w, ns='ABC'):
    """contiguous particles whose every quantity, identity included, is unknown"""
    over = {n: {'id': sym(n + '.id', E.I(64)), 'type': sym(n + '.type', E.I(32)), 'state': sym(n + '.state', E.I(32))} for n in ns}
    return bodies(w, ns, over)


def truth(v):
    return v if v.k == E.I(1) else E.bnot(E.icmp('eq', v, ic(0, v.k[1])))


def foreign(v, names):
    """symbols a truth value depends on beyond the allowed ones"""
    o = set()
    for n in walk([v]):
        if n.op == 's' and n.a[0] not in names:
            o.add(str(n.a[0]))
        elif n.op == 'call' or n.op.startswith('p2i'):
            o.add(E.show(n, 2))
    return sorted(o)


def title(dem):
    """who owns a comparator: the text between the outermost angle brackets, shortened"""
    s = dem.split('>::operator()')[0]
    s = re.sub(r'flecsi::morton_curve_u<\d+ul, unsigned long>', 'key', s)
    s = re.sub(r'body_u<key\s*>', 'body', s)
    s = re.sub(r'std::vector<(\w+), std::allocator<\1\s*>\s*>', r'vector<\1>', s)
    return s.split('_ops::', 1)[-1][:150] if '_ops::' in s else s[:150]


COMP = re.compile(r'__ops::_(Iter_comp_iter|Iter_comp_val|Val_comp_iter|Iter_less_iter|Iter_less_val|Val_less_iter)(<.*>)?::operator\(\)')


def comparators(m):
    """every comparison function object the sorts and searches of particles, samples or indices call"""
    for f in m.fns.values():
        if not f.decl and COMP.search(f.dem) and '::_Iter_comp_iter(' not in f.dem:
            args = f.dem.split('::operator()')[-1]
            if 'pair' in args and 'key' in args or 'pair<' in args and 'morton' in args:
                yield f, 'pair'
            elif 'body' in args:
                yield f, 'body'
            elif 'PermCompare' in f.dem:
                yield f, 'perm'
            elif 'auto' in args:
                yield f, 'perm' if 'PermCompare' in f.dem else 'body'


def pointed(m, f):
    """the functions a function-pointer comparator may hold"""
    return [g for g in m.fns.values() if not g.decl and len(g.args) == 2 and '__ops' not in g.dem and '::operator' not in g.dem and
            re.search(r'\((body_u<.*> const&, body_u<.*> const&|std::pair<.*> const&, std::pair<.*> const&)\)$', g.dem)]


def jobs(m):
    for f, k in list(comparators(m)):
        if 'vf_cmp' in f.dem:
            continue
        if 'bool (*' in f.dem:
            for g in pointed(m, f):
                if ('pair' in g.dem) == (k == 'pair'):
                    yield f, k, g
        else:
            yield f, k, None


def orders(D):
    p = Part()
    m = load(D)
    p.units.append('srt.cc/%dD' % D)
    n = 0

    for f, kind_, held in jobs(m):
        w = World(m, D)
        arr, ds = particles(w)
        at = [padd(arr, ic(w.size * i, 64)) for i in range(3)]
        this = w.it.alloc(w.st, 'comparator', 64)
        keys, ids = [d['key'] for d in ds], [d['id'] for d in ds]
        if kind_ == 'pair':
            sz = w('vf_split_size').a[0]
            arr = w.it.alloc(w.st, 'samples', sz * 3)
            at = [padd(arr, ic(sz * i, 64)) for i in range(3)]
            for i in range(3):
                w('vf_split_put', at[i], keys[i], ids[i])
        elif kind_ == 'perm':
            w.it.store(w.st, this, 8, arr)
            ix = w.it.alloc(w.st, 'indices', 12)
            for i in range(3):
                w.it.store(w.st, padd(ix, ic(4 * i, 64)), 4, ic(i, 32))
            at = [padd(ix, ic(4 * i, 64)) for i in range(3)]
        if held:
            w.it.store(w.st, padd(this, ic(8 if kind_ == 'perm' else 0, 64)), 8, E.mk('fn', (held.name,), E.P))
        memo = {}

        def r(i, j):
            if (i, j) not in memo:
                a = [this, at[i], at[j]]
                memo[i, j] = truth(w(f.name, *a[3 - len(f.args):]))
            return memo[i, j]
        tag = '%s:%dD' % (title(f.dem), D)
        loc = where(m, f.dem[:60])
        l = '%s' % (f.dem.split('::operator()')[0][-200:])
        for i in range(3):
            for j in range(3):
                r(i, j)
        p.used(w.it, m)
        n += 1
        ok = {k for i in range(3) for k in (keys[i].a[0], ids[i].a[0])}
        x = sorted({s for v in memo.values() for s in foreign(v, ok)})
        p.ob('depends:' + tag, not x, l, 'the order is a function of key and identity alone, hence the same on every rank', 'also depends on ' + ', '.join(x[:4]) if x else 'key and id', 'value graph support')
        same = lambda i, j: E.band(E.icmp('eq', keys[i], keys[j]), E.icmp('eq', ids[i], ids[j]))
        mono = lambda i, j: E.icmp('ult', keys[i], keys[j])
        if not x:
            for nm, good, d, rule in laws(r, same, mono):
                p.ob('%s:%s' % (nm, tag), good, l, rule, d or 'for all keys and identities', 'BDD')
    p.stats['comparators'] = n
    p.ob('found:%dD' % D, n >= 3, 'mpisph', 'the comparisons used to sort and route particles are found', '%d comparators' % n, 'enumeration')
    # the order of particles themselves
    w = World(m, D)
    arr, ds = particles(w)
    at = [padd(arr, ic(w.size * i, 64)) for i in range(3)]
    keys, ids = [d['key'] for d in ds], [d['id'] for d in ds]
    memo = {(i, j): truth(w('vf_less', at[i], at[j])) for i in range(3) for j in range(3)}
    eq = {(i, j): truth(w('vf_same', at[i], at[j])) for i in range(3) for j in range(3)}
    p.used(w.it, m)
    r = lambda i, j: memo[i, j]
    for nm, good, d, rule in laws(r, lambda i, j: E.icmp('eq', keys[i], keys[j]), lambda i, j: E.icmp('ult', keys[i], keys[j])):
        p.ob('%s:entity operator<:%dD' % (nm, D), good, 'include/tree_topology/tree_types.h', rule, d or 'for all keys', 'BDD')
    B = bdd.Bdd()
    x = [B.XOR(B.cond(eq[i, j]), B.cond(E.icmp('eq', ids[i], ids[j]))) for i in range(3) for j in range(3)]
    p.ob('same:entity operator==:%dD' % D, not any(x), 'include/tree_topology/tree_types.h', 'two particles are equal exactly when they have the same identity', '', 'BDD')
    # keys
    for f in sorted(m.fns):
        if not f.startswith('vf_key_'):
            continue
        wd = m.fns[f].args[0]
        w = World(m, D)
        ks = [sym('k%d' % i, E.I(64)) for i in range(3)]
        k32 = '32' in f
        cv = (lambda x: E.icast('zext', E.icast('trunc', x, 32), 64)) if k32 else (lambda x: x)
        bits = {(i, j): w(f, ks[i], ks[j]) for i in range(3) for j in range(3)}
        p.used(w.it, m)
        b = lambda i, j, q: E.icast('trunc', E.ibin('lshr', bits[i, j], ic(q, 32)), 1)
        nm = f[7:]
        B = bdd.Bdd()
        L, Q = E.icmp('ult', cv(ks[0]), cv(ks[1])), E.icmp('eq', cv(ks[0]), cv(ks[1]))
        for q, (o, s) in enumerate((('<', L), ('<=', E.bor(L, Q)), ('>', E.bnot(E.bor(L, Q))), ('>=', E.bnot(L)), ('==', Q), ('!=', E.bnot(Q)))):
            x = B.XOR(B.cond(b(0, 1, q)), B.cond(s))
            p.ob('key %s:%s:%dD' % (o, nm, D), x == 0, 'include/tree_topology/filling_curve.h', 'keys compare as the numbers they store', show_sat(B, x) if x else 'for all keys', 'BDD')
    return p


def p18():
    ck = Check('P18', 'Every comparison function the sorts, searches and splitters instantiate for particles and key samples is interpreted on three particles whose quantities are all unknown; the laws of a strict total order on (key, identity) are decided as Boolean functions of the key and identity bits.')
    for q in pmap(orders, [(1,), (2,), (3,)]):
        ck.extend(q)
    return finish(ck, 100)


# ---- P33: the exchange around the sort ------------------------------------

class World3(World):
    pass


def loc1(m, s):
    return where(m, s)


def isort(dem):
    return re.search(r'\bstd::(stable_)?sort<', dem) is not None


def exchange(D, size, rank, n):
    """one rank's part of the distributed sort, over every choice of splitters"""
    p = Part()
    m = load(D)
    p.units.append('srt.cc/%dD' % D)
    ev = []
    box = {}
    RE = lambda i, r: sym('end%d.%d' % (i, r), E.I(32))

    def contiguous(it, st, a, i):
        cnt, ty = a[0], a[1]
        from vf.mpi import dtype
        t = it.alloc(st, 'datatype', 8)
        box.setdefault('types', {})[t.a[0]] = E.ibin('mul', E.icast('sext', cnt, 64), ic(dtype(it, ty)[0], 64))
        it.store(st, a[2], 8, t)
        ev.append(('type',))
        return ic(0, 32)

    def commit(it, st, a, i):
        t = it.load(st, a[0], 8, E.P)
        box.setdefault('committed', set()).add(t.a[0])
        return ic(0, 32)

    def free(it, st, a, i):
        t = it.load(st, a[0], 8, E.P)
        ev.append(('free', t.a[0] if t.op == 'ptr' else None))
        return ic(0, 32)

    def elem(it, st, t):
        if t.op != 'ptr' or t.a[0] not in box.get('types', {}):
            return None
        return box['types'][t.a[0]] if t.a[0] in box['committed'] and ('free', t.a[0]) not in ev else None

    def sort(it, st, a, i):
        ev.append(('sort', a[0], a[1]))
        return None

    def split(it, st, a, i):
        # a[0] is the splitter object when it has state to pass
        b = [x for x in a]
        v = None
        for x in b:
            if x.op == 'ptr' and x.a[0] in st.mem:
                pass
        k = box['argpos']
        first, last, dist, re_ = b[k['first']], b[k['first'] + 1], b[k['first'] + 2], b[k['ends']]
        ev.append(('split', first, last, [it.load(st, padd(dist, ic(4 * j, 64)), 4, E.I(32)) for j in range(size)]))
        # fill the splitters: one row for each boundary, one column for each rank
        base = it.load(st, re_, 8, E.P)
        end = it.load(st, padd(re_, ic(8, 64)), 8, E.P)
        rows = E.pdiff(end, base) if hasattr(E, 'pdiff') else None
        for j in range(size + 1):
            row = it.load(st, padd(base, ic(24 * j, 64)), 8, E.P)
            for r in range(size):
                it.store(st, padd(row, ic(4 * r, 64)), 4, RE(j, r))
        return None

    def all2all(it, st, a, i):
        sb, sc, sd, stp, rb, rc_, rd, rt = a[:8]
        g = lambda q: [it.load(st, padd(q, ic(4 * j, 64)), 4, E.I(32)) for j in range(size)]
        ev.append(('exchange', sb, g(sc), g(sd), elem(it, st, stp), rb, g(rc_), g(rd), elem(it, st, rt)))
        for j in range(n):
            it.memcpy(st, padd(rb, ic(w.size * j, 64)), padd(box['other'], ic(w.size * j, 64)), ic(w.size, 64))
        return ic(0, 32)

    from vf.mpi import Mpi
    mp = Mpi(rank=ic(rank, 32), size=ic(size, 32))
    ms = dict(mp.models(), MPI_Type_contiguous=contiguous, MPI_Type_commit=commit, MPI_Type_free=free, MPI_Alltoallv=all2all)
    ns = 0
    for f in m.fns.values():
        if isort(f.dem) and 'vf_cmp' in f.dem and 'PermCompare' not in f.dem and 'body' in f.dem:
            ms[f.name] = sort
            ns += 1
        if 'psort::Split::split<' in f.dem and 'vf_cmp' in f.dem:
            ms[f.name] = split
            box['argpos'] = {'first': len(f.args) - 6, 'ends': len(f.args) - 2} if len(f.args) == 7 else {'first': len(f.args) - 5, 'ends': len(f.args) - 2}
            ns += 1
    if ns < 2:
        raise Incomplete('the local sort or the splitter search is gone')
    w = World(m, D, ms=ms)
    names = ['A', 'B', 'C'][:n]
    arr, ds = particles(w, names)
    box['other'], od = particles(w, ['X', 'Y', 'Z'][:n])
    dist = w.arr([sym('dist%d' % j, E.I(32)) for j in range(size)])
    o = w.it.alloc(w.st, 'result', w.size * n)
    w.read_ = None
    cnt = w.it.alloc(w.st, 'count', 4)
    w('vf_psort', arr, ic(n, 32), dist, o, cnt)
    p.used(w.it, m)
    tag = 'rank %d of %d:%d particles:%dD' % (rank, size, n, D)
    L = where(m, 'void psort::psort<')
    kinds = [e[0] for e in ev]
    got = w.it.load(w.st, cnt, 4, E.I(32))
    p.ob('count:' + tag, isc(got) and got.a[0] == n, L, 'keeps as many particles as before', E.show(got), 'constant propagation')
    if size == 1:
        p.ob('alone:' + tag, 'exchange' not in kinds and 'split' not in kinds and kinds.count('sort') >= 1, L, 'a single rank sorts without communication', str(kinds), 'event order')
        ch = sum((changed(d, w.read(padd(o, ic(w.size * j, 64)))) for j, d in enumerate(ds)), [])
        p.ob('content:' + tag, not ch, L, 'and keeps its particles', ', '.join(ch) or 'same', 'value graph identity')
        return p
    if 'exchange' not in kinds or 'split' not in kinds or kinds.count('exchange') != 1:
        p.ob('order:' + tag, False, L, 'finds splitters and exchanges once', str(kinds), 'event order')
        return p
    i, j = kinds.index('split'), kinds.index('exchange')
    ex, sp = ev[j], ev[i]

    def whole(e, first, k):
        return len(e) > 2 and e[1] is first and e[2] is padd(first, ic(w.size * k, 64))
    pre = [e for e in ev[:i] if e[0] == 'sort']
    p.ob('presorted:' + tag, i < j and any(whole(e, sp[1], n) for e in pre) and sp[2] is padd(sp[1], ic(w.size * n, 64)), L, 'all local particles are sorted before the splitters are searched among all of them', str(kinds), 'event order')
    post = [e for e in ev[j:] if e[0] == 'sort']
    p.ob('sorted:' + tag, any(whole(e, ex[5], n) for e in post) or any(e[1].op == 'ptr' and e[2] is padd(e[1], ic(w.size * n, 64)) for e in post), L, 'all received particles are sorted afterwards', str(kinds), 'event order')
    p.ob('targets:' + tag, all(a is sym('dist%d' % k, E.I(32)) for k, a in enumerate(sp[3])), L, 'the splitters aim at the given counts of particles', str([E.show(x) for x in sp[3]]), 'value graph identity')
    p.ob('buffer:' + tag, ex[1] is sp[1] and ex[5] is not ex[1], L, 'sends the sorted particles into another buffer', '%s -> %s' % (E.show(ex[1]), E.show(ex[5])), 'value graph identity')
    ok = ex[4] is not None and ex[8] is not None and isc(ex[4]) and isc(ex[8]) and ex[4].a[0] == w.size == ex[8].a[0]
    p.ob('type:' + tag, ok, L, 'exchanges whole particles with a committed type', '%s %s, particle of %d bytes' % (ex[4] and E.show(ex[4]), ex[8] and E.show(ex[8]), w.size), 'constant propagation')
    B = bdd.Bdd(limit=3000000)

    def same(a, b):
        return all(B.bit(E.ibin('xor', a, b), q) == 0 for q in range(32))
    S = [E.ibin('sub', RE(k + 1, rank), RE(k, rank)) for k in range(size)]
    R_ = [E.ibin('sub', RE(rank + 1, k), RE(rank, k)) for k in range(size)]
    p.ob('send:' + tag, all(same(a, b) for a, b in zip(ex[2], S)), L, 'sends rank k the particles between its boundaries: what rank k expects to receive', '; '.join(E.show(x) for x in ex[2]), 'BDD')
    p.ob('receive:' + tag, all(same(a, b) for a, b in zip(ex[6], R_)), L, 'receives from rank k the particles of k between its own boundaries: what rank k sends', '; '.join(E.show(x) for x in ex[6]), 'BDD')
    for nm, cs, q in (('from', S, ex[3]), ('to', R_, ex[7])):
        s, good = ic(0, 32), True
        for k in range(size):
            good = good and same(q[k], s)
            s = E.ibin('add', s, cs[k])
        p.ob('%s:%s' % (nm, tag), good, L, 'the pieces are adjacent and in rank order', '; '.join(E.show(x) for x in q), 'BDD')
    ch = sum((changed(d, w.read(padd(o, ic(w.size * k, 64)))) for k, d in enumerate(od)), [])
    p.ob('content:' + tag, not ch, L, 'ends with exactly the received particles', ', '.join(ch) or 'same', 'value graph identity')
    return p


def step(D):
    """what a new iteration does before the tree is traversed"""
    p = Part()
    m = load(D)
    p.units.append('srt.cc/%dD' % D)
    from vf.mpi import Mpi
    from vf.text import Text
    ev, box = [], {}
    size, rank = 3, 1
    mp = Mpi(rank=ic(rank, 32), size=ic(size, 32))

    def gather(it, st, a, i):
        src, n, t, dst = a[0], a[1], a[2], a[3]
        ev.append(('gather', [it.load(st, padd(dst, ic(4 * k, 64)), 4, E.I(32)) for k in range(size)] if not isc(src) or src.a[0] in (0, 1) else [it.load(st, src, 4, E.I(32))]))
        for k in range(size):
            if k != rank:
                it.store(st, padd(dst, ic(4 * k, 64)), 4, sym('count%d' % k, E.I(32)))
            elif not isc(src):
                it.store(st, padd(dst, ic(4 * k, 64)), 4, it.load(st, src, 4, E.I(32)))
        return ic(0, 32)

    def ents(it, st, what):
        s2 = st
        v = it.run('vf_ents', [box['s']], st)
        return v

    def psort(it, st, a, i):
        vec = a[0]
        dist = a[-1]
        b0 = it.load(st, vec, 8, E.P)
        b1 = it.load(st, padd(vec, ic(8, 64)), 8, E.P)
        ev.append(('sort', b0, b1, [it.load(st, padd(dist, ic(4 * k, 64)), 4, E.I(32)) for k in range(size)]))
        box['keys'] = snapshot(it, st, b0)
        return None

    def build_tree(it, st, a, i):
        ev.append(('build',))
        return None

    def clean(it, st, a, i):
        ev.append(('clean',))
        return None

    def key(it, st, a, i):
        # this, range, point
        rg = outs(it, st, a[1], 2 * D)
        x = outs(it, st, a[2], D)
        it.store(st, a[0], 8, mk_key(rg, x))
        return None

    def mk_key(rg, x):
        t = E.call('keyof', list(rg) + list(x))
        return mk('r2i', (t, 64), E.I(64)) if False else sym('key(%s)' % ','.join(str(z.id) for z in rg + x), E.I(64))

    def snapshot(it, st, b0):
        out = []
        for k in range(3):
            w.st = st
            out.append(w.read(padd(b0, ic(w.size * k, 64))))
        return out
    ms = dict(Text().models(), **mp.models())
    ms['MPI_Allgather'] = gather
    ms['omp_get_wtime'] = lambda it, st, a, i: sym('time', R)
    found = set()
    for f in m.fns.values():
        d = f.dem
        if re.search(r'\bpsort::psort<', d) and 'vf_cmp' not in d:
            ms[f.name] = psort
            found.add('psort')
        elif re.search(r'tree_topology<.*>::build_tree<', d):
            ms[f.name] = build_tree
            found.add('build')
        elif re.search(r'tree_topology<.*>::clean\(\)$', d):
            ms[f.name] = clean
            found.add('clean')
        elif re.search(r'morton_curve_u<.*>::morton_curve_u\(std::array<', d):
            ms[f.name] = key
            found.add('key')
        elif re.search(r'operator<<\(std::ostream&, .*tree_topology<', d) or re.search(r'std::operator<<.*tree_topology', d):
            ms[f.name] = lambda it, st, a, i: a[0]
    if found != {'psort', 'build', 'clean', 'key'}:
        raise Incomplete('steps of an iteration not found: %s' % sorted(found))
    w = World(m, D, ms=ms)
    w('vf_nop')
    s = box['s'] = w('vf_new')
    arr, ds = particles(w)
    w('vf_set', s, arr, ic(3, 32))
    w('vf_update', s)
    p.used(w.it, m)
    L = where(m, 'body_system<double, %dul>::update_iteration' % D)
    kinds = [e[0] for e in ev if e[0] in ('clean', 'sort', 'build')]
    p.ob('steps:%dD' % D, kinds == ['clean', 'sort', 'build'], L, 'clears the old tree, redistributes the particles, then builds the new tree', str(kinds), 'event order')
    q = [e for e in ev if e[0] == 'sort']
    if len(q) != 1:
        return p
    q = q[0]
    want = [sym('count%d' % k, E.I(32)) if k != rank else ic(3, 32) for k in range(size)]
    p.ob('counts:%dD' % D, all(a is b for a, b in zip(q[3], want)), L, 'aims at the number of particles every rank has now', str([E.show(x) for x in q[3]]), 'value graph identity')
    rg = w.out(2 * D)
    w('vf_range', s, rg)
    rg = w.get(rg, 2 * D)
    for k, (d, e) in enumerate(zip(ds, box['keys'])):
        ch = changed(d, e, ('key',))
        p.ob('key:%d:%dD' % (k, D), e['key'] is mk_key(rg, d['x']) and not ch, L, 'before the exchange each particle gets the key of its position in the new domain, and nothing else changes', E.show(e['key']) + ' ' + ','.join(ch), 'value graph identity')
    n = sval_(w('vf_nlocal', s))
    p.ob('local:%dD' % D, n == 3, L, 'the number of local particles is that of the particles held', str(n), 'constant propagation')
    return p


def domain(D, split):
    """the domain of all ranks"""
    from checks.p29 import Box
    from vf.ranks import Fleet, Mismatch
    p = Part()
    m = load(D)
    p.units.append('srt.cc/%dD' % D)
    F = Fleet(len(split))
    ms, found = {}, set()
    for f in m.fns.values():
        d = f.dem
        for k, x, g in (('psort', r'\bpsort::psort<(?!.*vf_cmp)', lambda it, st, a, i: None), ('build', r'tree_topology<.*>::build_tree<', lambda it, st, a, i: None), ('clean', r'tree_topology<.*>::clean\(\)$', lambda it, st, a, i: None), ('key', r'(morton|hilbert)_curve_u<.*>::\1_curve_u\(std::array<', lambda it, st, a, i: it.store(st, a[0], 8, sym('key', E.I(64)))), ('show', r'operator<<\(std::ostream&, .*tree_topology<|std::operator<<.*tree_topology', lambda it, st, a, i: a[0])):
            if re.search(x, d):
                ms[f.name] = g
                found.add(k)
    if not {'psort', 'build', 'clean', 'key'} <= found:
        raise Incomplete('steps of an iteration not found: %s' % sorted(found))
    ws = [Box(m, D, F, r, None, ms) for r in range(len(split))]

    def body(w):
        w.start([False] * D, [rs('L' + q) for q in 'xyz'[:D]], [(n, ord(n)) for n in split[w.r]], {n: rvec(n + '.x', D) for n in split[w.r]})
        w('vf_update', w.s)
        o = w.out(2 * D)
        w('vf_range', w.s, o)
        return w.get(o, 2 * D)
    at = where(m, 'body_system<double, %dul>::mpi_compute_range' % D)
    nm = '%s:%dD' % ('|'.join(split), D)
    try:
        out, bad = F.go([(lambda w=w: body(w)) for w in ws]), F.problems
    except Mismatch as e:
        out, bad = None, [str(e)]
    for w in ws:
        p.used(w.it, m)
    p.ob('ranks:' + nm, out is not None and not bad, at, 'all ranks determine the domain together', '; '.join(bad), 'co-interpretation of all ranks')
    if out is None:
        return p
    ns = ''.join(split)
    l = al(ns)
    for j in range(D):
        lo = hi = None
        for n in ns:
            x, h = rvec(n + '.x', D)[j], rs(n + '.h')
            a, b = sub(x, h), add(x, h)
            lo = a if lo is None else ite(E.fcmp('olt', a, lo), a, lo)
            hi = b if hi is None else ite(E.fcmp('olt', hi, b), b, hi)
        for r, v in enumerate(out):
            if r and v[j] is out[0][j] and v[D + j] is out[0][D + j]:
                continue
            ok, dd, how, _ = identity(l, [('lower', v[j], lo), ('upper', v[D + j], hi)], prune=[])
            p.ob('domain:%s:rank %d:%s' % ('xyz'[j], r, nm), ok, at, 'the domain reaches exactly around the smoothing spheres of the particles of all ranks', dd, how)
    return p


def sval_(v):
    return v.a[0] if isc(v) else None


def p33():
    ck = Check('P33', 'One rank of the distributed sort is interpreted for three ranks, with any splitters and any particles: what is sorted, sent, received and kept is compared with what the other ranks, running the same code, send and expect. The iteration step is interpreted with the sort and the tree construction observed.')
    jobs_ = [(D, s, r, n) for D in (1, 2, 3) for s in (1, 3) for r in range(s) for n in (1, 3)]
    for q in pmap(exchange, jobs_):
        ck.extend(q)
    for q in pmap(step, [(1,), (2,), (3,)]):
        ck.extend(q)
    for q in pmap(domain, [(D, s) for D in (1, 2, 3) for s in (('A',), ('A', 'B'), ('AB', 'C'))]):
        ck.extend(q)
    for q in pmap(spread, spreads()):
        ck.extend(q)
    return finish(ck, 180)


def spreads():
    import random
    rnd = random.Random(3)
    out = [(1, [[1, 2], [3, 4]]), (2, [[9, 8], [7, 6, 5]]), (3, [[4], [3], [2], [1]]), (1, [[5, 5], [5, 5, 5], [5]]), (2, [[7, 7, 1], [7], [7, 9]]), (3, [[3, 1, 2]])]
    for D, n, R in ((1, 7, 2), (2, 8, 3), (3, 9, 4), (1, 11, 5), (2, 9, 2), (3, 10, 3), (1, 12, 3), (2, 13, 6), (3, 9, 7)) + (((1, 16, 8), (2, 20, 5), (3, 18, 4), (1, 22, 3), (2, 14, 9)) if os.environ.get('VERIF_TIER') == 'thorough' else ()):
        ks = rnd.sample(range(1, 4 * n), n) if n % 3 else [rnd.randint(1, n) for _ in range(n)]
        cuts = sorted(rnd.sample(range(1, n), R - 1))
        out.append((D, [ks[a:b] for a, b in zip([0] + cuts, cuts + [n])]))
    return out


def spread(D, keys, again=False):
    """a whole redistribution: keys[r] are the keys of the particles of rank r in the order they are held"""
    from checks.p29 import Box
    from vf.ranks import Fleet, Mismatch
    p = Part()
    m = load(D)
    p.units.append('srt.cc/%dD' % D)
    F = Fleet(len(keys))
    nm = ['ABCDEFGHIJKLMNOPQRSTUVWXYZ'[sum(map(len, keys[:r])):][:len(ks)] for r, ks in enumerate(keys)]
    key = {n: k for ns, ks in zip(nm, keys) for n, k in zip(ns, ks)}

    def keyed(it, st, a, i):
        v = it.load(st, a[2], 8, R)
        if v.op != 's' or v.a[0][0] not in key:
            raise Incomplete('a key of ' + E.show(v, 3))
        it.store(st, a[0], 8, ic(key[v.a[0][0]], 64))
    ms, found = {}, set()
    for f in m.fns.values():
        d = f.dem
        for k, x, g in (('build', r'tree_topology<.*>::build_tree<', lambda it, st, a, i: None), ('clean', r'tree_topology<.*>::clean\(\)$', lambda it, st, a, i: None), ('key', r'(morton|hilbert)_curve_u<.*>::\1_curve_u\(std::array<', keyed), ('show', r'operator<<\(std::ostream&, .*tree_topology<|std::operator<<.*tree_topology', lambda it, st, a, i: a[0])):
            if re.search(x, d):
                ms[f.name] = g
                found.add(k)
    if not {'build', 'clean', 'key'} <= found:
        raise Incomplete('steps of an iteration not found: %s' % sorted(found))
    # what a rank without particles in a range puts up as its middle one is not looked at: any comparison will do
    ws = [Box(m, D, F, r, lambda c: False if any(x.op == 'undef' or x.op == 's' and str(x.a[0]).startswith('undef@') for x in walk([c])) else None, ms) for r in range(len(keys))]

    def body(w):
        w.start([False] * D, [rs('L' + q) for q in 'xyz'[:D]], [(n, ord(n)) for n in nm[w.r]], {n: rvec(n + '.x', D) for n in nm[w.r]})
        w('vf_update', w.s)
        return w.held()
    at = where(m, 'void psort::psort<')
    tag = '%dD:%s' % (D, '|'.join('%d' % len(k) for k in keys) + ':%x' % (hash(tuple(map(tuple, keys))) & 0xfffff))
    try:
        out, bad = F.go([(lambda w=w: body(w)) for w in ws]), list(F.problems)
    except Mismatch as e:
        out, bad = None, [str(e)] + F.problems
    for w in ws:
        p.used(w.it, m)
    p.ob('redistribution:' + tag, out is not None and not bad, at, 'all ranks reach the end of the redistribution', '; '.join(bad[:3]) or '%d collectives' % F.colls, 'co-interpretation of all ranks')
    if out is None:
        return p
    src = {d['m']: d for w in ws for d in w.ds}
    got = [[str(b['m'].a[0])[:-2] for b in o] for o in out]
    want = sorted(key, key=lambda n: (key[n], ord(n)))
    cut, o = [], 0
    for ks in keys:
        cut.append(want[o:o + len(ks)])
        o += len(ks)
    p.ob('placed:' + tag, got == cut, at, 'the particles of all ranks are put in the order of their keys over the ranks, as many on each as before', 'ranks hold %s, not %s' % (got, cut), 'provenance of every particle')
    x = [n for ns, bs in zip(got, out) for n, b in zip(ns, bs) if changed(src.get(b['m'], b), b, ('key',)) or E.sval(b['key']) != key.get(n)]
    p.ob('whole:' + tag, not x, at, 'every particle keeps all of its quantities', ', '.join(x), 'provenance of every particle')
    return p
