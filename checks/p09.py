"""P09: gravity between particles and cells."""
from checks.sph import *
from checks.p10 import only, loc
from checks.p03 import patterns, apart, hyp


def grav(D):
    p = Part()
    m = build.compile(DR + 'grav.cc', D, ['vf_*'])
    p.units.append('grav.cc/%dD' % D)
    w = World(m, D)
    w.it.bitdom = False
    G = w('vf_gc')
    if isc(G) or E.isr(G):
        raise Incomplete('the gravitational constant is fixed')
    gname = [x for x in E.symbols([G])]
    l = alg.Alg(positive=gname + [n + '.' + k for n in 'ABC' for k in POSN] + ['N.m', 'S.m'])
    size = w('vf_node_size').a[0]

    def node(n):
        c = w.it.alloc(w.st, n, size)
        d = {'x': rvec(n + '.x', D), 'm': rs(n + '.m'), 'pc': rs(n + '.pc'), 'fc': rvec(n + '.fc', D)}
        w('vf_node_put', c, w.arr(d['x'] + [d['m'], d['pc']] + d['fc']))
        return c, d

    def nread(c):
        o = w.out(2 * D + 2)
        w('vf_node_get', c, o)
        v = w.get(o, 2 * D + 2)
        return {'x': v[:D], 'm': v[D], 'pc': v[D + 1], 'fc': v[D + 2:]}
    dist = lambda x, y: sqrt(add(*[mul(sub(a, b), sub(a, b)) for a, b in zip(x, y)]))

    def field(x, y, mass):
        """potential and acceleration at x of a mass at y"""
        r = dist(x, y)
        return E.fneg(div(mul(G, mass), r)), [E.fneg(div(mul(G, mass, sub(a, b)), mul(r, r, r))) for a, b in zip(x, y)]

    def ident(key, pairs, F, rule, hy=()):
        ok, dd, how, n = identity(l, pairs, hyps=hy)
        p.ob('%s:%dD' % (key, D), ok, loc(m, F), rule, dd, how)
    hy = hyp(D, ())
    # the pair law
    F = 'fmm::gravitation_p2p'
    xa, xb = rvec('A.x', D), rvec('B.x', D)

    def pair(x, y, mass):
        pot, acc = w.arr([rs('pot')]), w.out(D)
        a = w('vf_p2p', pot, w.arr(x), w.arr(y), mass, acc)
        return sub(a, rs('pot')), w.get(acc, D)
    fa, ga = pair(xa, xb, rs('B.m'))
    fb, gb = pair(xb, xa, rs('A.m'))
    ident('pair:momentum', [('force ' + 'xyz'[i], mul(rs('A.m'), ga[i]), E.fneg(mul(rs('B.m'), gb[i]))) for i in range(D)], F, 'm_a g_ab = - m_b g_ba', hy)
    ident('pair:energy', [('energy', mul(rs('A.m'), fa), mul(rs('B.m'), fb))], F, 'both particles see the same pair energy', hy)
    ph, ac = field(xa, xb, rs('B.m'))
    ident('pair:law', [('acceleration ' + 'xyz'[i], x, y) for i, (x, y) in enumerate(zip(ga, ac))] + [('potential', fa, ph)], F, 'g = -G m r / r^3, potential -G m / r', hy)
    ident('pair:gradient', [('gradient ' + 'xyz'[i], ga[i], E.fneg(alg.diff(fa, xa[i]))) for i in range(D)], F, 'the acceleration is minus the gradient of the potential', hy)
    ok, dd, how = nonneg(l, E.fneg(dot(ga, [sub(a, b) for a, b in zip(xa, xb)])), hyps=hy)
    p.ob('pair:attractive:%dD' % D, ok, loc(m, F), 'masses attract each other', dd, how)
    p.used(w.it, m)

    # particles on particles, with and without a source cell
    F = 'fmm::fmm_p2p'
    for cell in (0, 1):
        w.st = State()
        tag = 'cell' if cell else 'particles'
        bs = {n: w.body(n) for n in 'ABC'}
        c, dc = node('N') if cell else (NULL, None)
        s, n = w.list([bs['A'][0], bs['B'][0]])
        q, k = w.list([bs[x][0] for x in 'ABC'])
        w('vf_pp', s, n, c, q, k)
        r = {x: w.read(bs[x][0]) for x in 'ABC'}
        h3 = [E.bnot(E.fcmp('oeq', rs(a + '.xx'), rs(b + '.xx'))) for a, b in ('AB', 'AC', 'BC')] + ([E.bnot(E.fcmp('oeq', rs(a + '.xx'), rs('N.xx'))) for a in 'AB'] if cell else [])
        for a in 'AB':
            d = bs[a][1]
            src = [bs[b][1] for b in 'ABC' if b != a] + ([dc] if cell else [])
            fs = [field(d['x'], e['x'], e['m']) for e in src]
            pr = [('acceleration of %s %s' % (a, 'xyz'[i]), r[a]['g'][i], add(d['g'][i], *[f_[1][i] for f_ in fs])) for i in range(D)] + [('potential of ' + a, r[a]['phi'], add(d['phi'], *[f_[0] for f_ in fs]))]
            ident('p2p:%s:%s' % (tag, a), pr, F, 'each particle gains the field of every other source once, itself left out', h3)
            only(p, 'frame:p2p:%s:%s:%dD' % (tag, a, D), d, r[a], ['g', 'phi'], loc(m, F))
        only(p, 'frame:p2p:%s:C:%dD' % (tag, D), bs['C'][1], r['C'], [], loc(m, F))
        if not cell:
            w.st = State()
            bs = {n: w.body(n, {'g': [rc(0)] * D, 'phi': rc(0)}) for n in 'AB'}
            s, n = w.list([bs['A'][0], bs['B'][0]])
            q, k = w.list([bs['A'][0], bs['B'][0]])
            w('vf_pp', s, n, NULL, q, k)
            r = {x: w.read(bs[x][0]) for x in 'AB'}
            ident('p2p:momentum', [('xyz'[i], mul(rs('A.m'), r['A']['g'][i]), E.fneg(mul(rs('B.m'), r['B']['g'][i]))) for i in range(D)], F, 'gravity between two particles moves no momentum', hy)
        if cell:
            e = nread(c)
            same = all(x is y for k in ('x', 'fc') for x, y in zip(e[k], dc[k])) and e['m'] is dc['m'] and e['pc'] is dc['pc']
            p.ob('frame:p2p:source:%dD' % D, same, loc(m, F), 'the source cell is not changed', '', 'value graph identity')
    # cells from cells and from particles
    for f, nm, src in (('vf_c2c', 'taylor_c2c', 'cell'), ('vf_p2c', 'taylor_p2c', 'particle')):
        F = 'fmm::' + nm
        w.st = State()
        c, d = node('N')
        if src == 'cell':
            s, e = node('S')
        else:
            s, e = w.body('B')
        w(f, c, s)
        r = nread(c)
        ph, ac = field(d['x'], e['x'], e['m'])
        h3 = [E.bnot(E.fcmp('oeq', d['x'][0], e['x'][0]))]
        ident('%s:field' % nm, [('field ' + 'xyz'[i], r['fc'][i], add(d['fc'][i], ac[i])) for i in range(D)] + [('potential', r['pc'], add(d['pc'], ph))], F, 'a cell gains the point-mass field and potential of its source at its centre', h3)
        ident('%s:gradient' % nm, [('xyz'[i], sub(r['fc'][i], d['fc'][i]), E.fneg(alg.diff(sub(r['pc'], d['pc']), d['x'][i]))) for i in range(D)], F, 'the field is minus the gradient of the potential', h3)
        same = r['m'] is d['m'] and all(x is y for x, y in zip(r['x'], d['x']))
        if src == 'cell':
            q = nread(s)
            same = same and all(x is y for k in ('x', 'fc') for x, y in zip(q[k], e[k])) and q['m'] is e['m'] and q['pc'] is e['pc']
        else:
            same = same and not changed(e, w.read(s))
        p.ob('frame:%s:%dD' % (nm, D), same, loc(m, F), 'changes nothing but the expansion of the sink', '', 'value graph identity')
    # cells to particles
    F = 'fmm::fmm_c2p'
    w.st = State()
    c, d = node('N')
    bs = {n: w.body(n) for n in 'AB'}
    s, n = w.list([bs['A'][0], bs['B'][0]])
    w('vf_c2p', c, s, n)
    for a in 'AB':
        e = bs[a][1]
        r = w.read(bs[a][0])
        off = [sub(x, y) for x, y in zip(e['x'], d['x'])]
        pot = sub(r['phi'], e['phi'])
        acc = [sub(x, y) for x, y in zip(r['g'], e['g'])]
        ident('c2p:acceleration:' + a, [('xyz'[i], acc[i], d['fc'][i]) for i in range(D)], F, 'a particle gains the field of its cell')
        ident('c2p:potential:' + a, [('potential', pot, sub(d['pc'], dot(off, d['fc'])))], F, 'the potential is expanded to first order about the centre of the cell')
        ident('c2p:gradient:' + a, [('xyz'[i], acc[i], E.fneg(alg.diff(pot, e['x'][i]))) for i in range(D)], F, 'the acceleration is minus the gradient of the expanded potential')
        only(p, 'frame:c2p:%s:%dD' % (a, D), e, r, ['g', 'phi'], loc(m, F))
    p.used(w.it, m)
    return p


def p09():
    ck = Check('P09', 'The gravity routines are interpreted on symbolic particles and cells; forces, potentials and expansion terms are compared with Newton\'s law and with each other as algebraic normal forms, and gradients are taken symbolically.',
               ['real arithmetic', 'masses and the gravitational constant are positive', 'sources and sinks do not coincide', 'three sources stand for any number'])
    for x in pmap(grav, [(d,) for d in (3, 2, 1)]):
        ck.extend(x)
    return finish(ck, 70)
