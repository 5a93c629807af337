"""P13/P14: tensor component access and element-wise algebra; vector geometry."""
import itertools
from vf.common import *


def load():
    return build.compile(DR + 'tensors.cc', 3, ['vf_*'])


def access(r):
    p = Part()
    m = load()
    p.units.append('tensors.cc/rank%d' % r)
    for d in (1, 2, 3, 4):
        for s in ('GEN', 'SYM'):
            if r == 1 and s == 'SYM':
                continue
            n = '%d_%d_%s' % (r, d, s)
            rn = Run(m)
            sz = sval(rn('vf_sz_' + n))
            by = sval(rn('vf_bytes_' + n))
            rank = sval(rn('vf_rk_' + n))
            tup = list(itertools.product(range(d), repeat=r))
            want = d ** r if s == 'GEN' else len({tuple(sorted(t)) for t in tup})
            loc = where(m, 'flecsi::tensor_u<double, (flecsi::symmetry_type)%d, %s>' % (s == 'SYM', ', '.join([str(d)] * r)))
            p.ob('size:' + n, sz == want and by == 8 * want and rank == r, 'include/tensor.h', 'a rank-%d tensor over dimension %d stores exactly its independent components' % (r, d), 'size %d bytes %d rank %d, independent components %d' % (sz, by, rank, want), 'constant propagation')
            at, bad = {}, []
            for t in tup:
                ix = [ic(x, 64) for x in t]
                a, c = rn('vf_at_' + n, *ix), rn('vf_cat_' + n, *ix)
                k = sum(x * 4 ** (r - 1 - i) for i, x in enumerate(t))
                e = rn('vf_nm_' + n, ic(k, 64))
                if not (isc(a) and isc(c) and isc(e)):
                    raise Incomplete('component offset not constant: %s %s' % (n, t))
                a, c, e = sval(a), sval(c), sval(e)
                if a % 8 or not 0 <= a < 8 * sz:
                    bad.append('component %s lies outside the storage (offset %d)' % (t, a))
                if a != c:
                    bad.append('const access to %s differs' % (t,))
                if a != e:
                    bad.append('named component %s addresses offset %d, indices address %d' % (''.join('xyzt'[x] for x in t), e, a))
                at[t] = a
            p.ob('agree:' + n, not bad, 'include/tensor.h', 'indexed, const and named access reach the same stored component, inside the storage', '; '.join(bad[:4]) or '%d components' % len(tup), 'constant propagation')
            cls = {}
            for t, a in at.items():
                cls.setdefault(a, set()).add(tuple(sorted(t)) if s == 'SYM' else t)
            part = {}
            for t, a in at.items():
                part.setdefault(tuple(sorted(t)) if s == 'SYM' else t, set()).add(a)
            bad = ['offset %d shared by %s' % (a, sorted(v)) for a, v in cls.items() if len(v) > 1]
            bad += ['%s stored at several offsets %s' % (t, sorted(v)) for t, v in part.items() if len(v) > 1]
            p.ob('bijection:' + n, not bad and len(cls) == want, 'include/tensor.h', 'distinct components use distinct storage, permuted symmetric indices the same', '; '.join(bad[:4]) or '%d classes' % len(cls), 'constant propagation')
            lin = [sval(rn('vf_ln_' + n, ic(k, 64))) for k in range(sz)]
            p.ob('linear:' + n, lin == [8 * k for k in range(sz)], 'include/tensor.h', 'linear access walks the storage', str(lin[:6]), 'constant propagation')
            p.used(rn.it, m)
    if r == 2:
        rn = Run(m)
        o = rn.out(6)
        rn('vf_mixed_m23', o)
        v = [x.a[0] if E.isr(x) else None for x in rn.get(o, 6)]
        p.ob('bijection:mixed23', sorted(v) == [0, 8, 16, 24, 32, 40], 'include/tensor.h', 'mixed-dimension tensors use distinct storage per component', str(v), 'constant propagation')
    return p


def algebra(n):
    p = Part()
    m = load()
    p.units.append('tensors.cc/' + n)
    rn = Run(m)
    sz = sval(rn('vf_n_' + n))
    A = [rs('a%d' % i) for i in range(sz)]
    B = [rs('b%d' % i) for i in range(sz)]
    s = rs('s')
    spec = {
        'addeq': [add(a, b) for a, b in zip(A, B)], 'subeq': [sub(a, b) for a, b in zip(A, B)],
        'addeqs': [add(a, s) for a in A], 'subeqs': [sub(a, s) for a in A], 'muleqs': [mul(a, s) for a in A], 'diveqs': [div(a, s) for a in A],
        'addself': [add(a, a) for a in A], 'subself': [rc(0) for a in A],
        'assign': B, 'assigns': [s] * sz, 'assignself': A,
        'add': [add(a, b) for a, b in zip(A, B)], 'sub': [sub(a, b) for a, b in zip(A, B)],
        'mulr': [mul(a, s) for a in A], 'mull': [mul(a, s) for a in A], 'copy': B, 'fill': [s] * sz,
        'mdiv': [div(a, s) for a in A], 'divc': [div(a, s) for a in A],
        'chain': A,
    }
    for op, want in spec.items():
        o = rn.out(sz)
        rn('vf_%s_%s' % (op, n), rn.arr(A), rn.arr(B), s, o)
        got = rn.get(o, sz)
        al = alg.Alg()
        ok, d, how, k = identity(al, [('component %d' % i, g, w) for i, (g, w) in enumerate(zip(got, want))])
        p.ob('op:%s:%s' % (op, n), ok, 'include/tensor.h', 'the operator acts on every component alike, operands aliased or not', d, how)
    for op, neg in (('eq', False), ('ne', True)):
        v = rn('vf_%s_%s' % (op, n), rn.arr(A), rn.arr(B))
        want = TRUE
        for a, b in zip(A, B):
            want = band(want, E.fcmp('oeq', a, b))
        if neg:
            want = bnot(want)
        r = bdd.decide(ibin('xor', v, want))
        p.ob('op:%s:%s' % (op, n), None if r is None and False else r == 0, 'include/tensor.h', 'comparison holds exactly when every component agrees', 'boolean function over %d component equalities' % sz, 'BDD')
    p.used(rn.it, m)
    return p


def vectors(d):
    p = Part()
    m = load()
    p.units.append('space_vector/%dD' % d)
    rn = Run(m)
    A, B, C = rvec('a', d), rvec('b', d), rvec('c', d)
    n = 'v%d' % d
    al = alg.Alg()

    def ob(name, pairs, rule):
        ok, dd, how, k = identity(al, pairs)
        p.ob('vec:%s:%s' % (name, n), ok, where(m, 'flecsi::' + name), rule, dd, how)
    arr = rn.arr
    d2 = add(*[mul(sub(a, b), sub(a, b)) for a, b in zip(A, B)])
    dist = rn('vf_dist_' + n, arr(A), arr(B))
    ob('distance', [('square', mul(dist, dist), d2)], 'distance squared is the sum of squared coordinate differences')
    ob('distance-sign', [('abs', dist, E.call('fabs', [dist]))], 'a distance is not negative')
    ob('distance-sym', [('swap', dist, rn('vf_dist_' + n, arr(B), arr(A)))], 'distance is symmetric')
    dt = rn('vf_dot_' + n, arr(A), arr(B))
    ob('dot', [('value', dt, dot(A, B))], 'dot is the sum of component products')
    mg = rn('vf_mag_' + n, arr(A))
    ob('magnitude', [('square', mul(mg, mg), dot(A, A)), ('sign', mg, E.call('fabs', [mg]))], 'magnitude squared is the self dot product, magnitude is not negative')
    cm = rn('vf_cmag_' + n, arr(A), arr(B))
    ob('cross_magnitude', [('lagrange', mul(cm, cm), sub(mul(dot(A, A), dot(B, B)), mul(dot(A, B), dot(A, B))))], 'Lagrange identity |a x b|^2 = |a|^2|b|^2 - (a.b)^2')
    o = rn.out(d)
    rn('vf_mid_' + n, arr(A), arr(B), o)
    ob('midpoint', [(str(i), x, div(add(a, b), rc(2))) for i, (x, a, b) in enumerate(zip(rn.get(o, d), A, B))], 'midpoint is the mean of both points')
    o = rn.out(d)
    rn('vf_cross_' + n, arr(A), arr(B), o)
    cr = rn.get(o, d)
    w = [sub(mul(A[(i + 1) % 3], B[(i + 2) % 3]), mul(A[(i + 2) % 3], B[(i + 1) % 3])) for i in range(3)] if d == 3 else [rc(0)] * d
    ob('cross', [(str(i), x, y) for i, (x, y) in enumerate(zip(cr, w))], 'right-handed vector product')
    if d == 3:
        o = rn.out(3)
        rn('vf_centroid_v3', arr(A), arr(B), arr(C), o)
        ob('centroid', [(str(i), x, div(add(A[i], B[i], C[i]), rc(3))) for i, x in enumerate(rn.get(o, 3))], 'centroid is the mean of the points')
        o = rn.out(3)
        rn('vf_normal_v3', arr(A), arr(B), o)
        N_ = rn.get(o, 3)
        ob('normal', [('a', dot(N_, A), rc(0)), ('b', dot(N_, B), rc(0)), ('len', dot(N_, N_), dot(w, w))], 'the normal is orthogonal to both vectors with the length of their product')
    if d == 2:
        o = rn.out(2)
        rn('vf_normal_v2', arr(A), arr(B), o)
        N_ = rn.get(o, 2)
        e = [sub(B[i], A[i]) for i in range(2)]
        ob('normal', [('orthogonal', dot(N_, e), rc(0)), ('length', dot(N_, N_), dot(e, e)), ('left', sub(mul(e[0], N_[1]), mul(e[1], N_[0])), dot(e, e))], 'the edge normal is the edge rotated by +90 degrees')
    p.used(rn.it, m)
    return p


def p13():
    ck = Check('P13', 'For every rank 1-4 and dimension 1-4, generic and symmetric: the storage offset of every component under indexed, const, named and linear access is obtained by constant propagation through the access functions and the offset map is checked to be the required bijection.',
               ['tensor of double stands for every element type'])
    load()
    for x in pmap(access, [(r,) for r in (1, 2, 3, 4)]):
        ck.extend(x)
    return finish(ck, 112)


OPS = ['v1', 'v2', 'v3', 'm2', 'm3', 's2', 's3', 'm23', 'c2', 'q2']


def p14():
    ck = Check('P14', 'Value expressions of every tensor operator (all components symbolic, aliased operands included) and of the vector geometry functions are extracted from the IR and compared with their algebraic definition by normal form; comparisons as Boolean functions by BDD.',
               ['floating-point arithmetic is read as real arithmetic'])
    load()
    jobs = [(algebra, n) for n in OPS] + [(vectors, d) for d in (1, 2, 3)]
    for x in pmap(_call, jobs):
        ck.extend(x)
    return finish(ck, 240)


def _call(g, a):
    return g(a)
