"""P12: geometric predicates of the tree."""
from vf.common import *


def geom(D):
    p = Part()
    m = build.compile(DR + 'geom.cc', D, ['vf_*'])
    p.units.append('geom.cc/%dD' % D)
    rn = Run(m)
    rn.it.bitdom = False
    A, B, C_, D_ = (rvec(x, D) for x in 'abcd')
    W = [rs('w%d' % i) for i in range(D)]
    V = [rs('v%d' % i) for i in range(D)]
    r, s, t = rs('r'), rs('s'), rs('t')
    HA = [add(a, w) for a, w in zip(A, W)]  # a box with positive widths
    HB = [add(a, w) for a, w in zip(B, V)]
    a, b, c, d, ha, hb = rn.arr(A), rn.arr(B), rn.arr(C_), rn.arr(D_), rn.arr(HA), rn.arr(HB)

    def al():
        return alg.Alg(nonneg=['r', 's'], positive=['t'] + ['w%d' % i for i in range(D)] + ['v%d' % i for i in range(D)])
    le = lambda x, y: bnot(E.fcmp('olt', y, x))
    lt = lambda x, y: E.fcmp('olt', x, y)
    d2 = lambda x, y: add(*[mul(sub(i, j), sub(i, j)) for i, j in zip(x, y)])
    dist = d2(A, B)

    def loc(f):
        return where(m, 'flecsi::topology::tree_geometry<double, %dul>::%s' % (D, f))

    def ob(f, name, code, spec, rule, ties=True, hyp=None):
        ok, dd, how = predicate(al(), code, spec, ties=ties, hyp=hyp)
        p.ob('geom:%s:%dD' % (name, D), ok, loc(f), rule, dd, how)

    ok, dd, how, n = identity(al(), [('square', rn('vf_d2', a, b), dist)])
    p.ob('geom:distance2:%dD' % D, ok, loc('distance2'), 'the squared distance is the sum of squared differences', dd, how)
    inr = le(dist, mul(r, r))
    ob('within_distance2', 'within_distance2', rn('vf_wd2', a, b, r), inr, 'true exactly for points at most the radius apart')
    ob('within_distance2', 'within_distance2-sym', rn('vf_wd2', a, b, r), rn('vf_wd2', b, a, r), 'symmetric in the points')
    ob('within(', 'within', rn('vf_within', a, b, r, s), inr, 'true exactly for points at most the first radius apart')
    ob('within(', 'within-default', rn('vf_within1', a, b, r), inr, 'true exactly for points at most the radius apart')
    ob('within_square', 'within_square', rn('vf_wsq', a, b, r, s), bor(inr, le(dist, mul(s, s))), 'true exactly for points at most the larger radius apart')
    ob('within_square', 'within_square-sym', rn('vf_wsq', a, b, r, s), rn('vf_wsq', b, a, s, r), 'symmetric in the two particles')
    box = TRUE
    for i in range(D):
        box = band(box, band(le(A[i], C_[i]), le(C_[i], HA[i])))
    low = TRUE
    for i in range(D):
        low = band(low, bnot(E.fcmp('oeq', A[i], C_[i])))
    ob('within_box', 'within_box', rn('vf_wbox', a, ha, c, r), box, 'true exactly inside the box, upper faces included', hyp=low)
    ob('intersects_sphere_sphere', 'sphere_sphere', rn('vf_ss', a, r, b, s), le(dist, mul(add(r, s), add(r, s))), 'true exactly when the spheres overlap or touch')
    ob('intersects_sphere_sphere', 'sphere_sphere-sym', rn('vf_ss', a, r, b, s), rn('vf_ss', b, s, a, r), 'symmetric in the spheres')
    q = rc(0)
    for i in range(D):
        lo, hi = sub(A[i], C_[i]), sub(C_[i], HA[i])
        e = ite(lt(rc(0), lo), lo, ite(lt(rc(0), hi), hi, rc(0)))
        q = add(q, mul(e, e))
    ob('intersects_sphere_box', 'sphere_box', rn('vf_sb', a, ha, c, r), le(q, mul(r, r)), 'true exactly when the box has a point within the radius of the centre')
    bb = TRUE
    for i in range(D):
        bb = band(bb, band(le(A[i], HB[i]), le(B[i], HA[i])))
    ob('intersects_box_box', 'box_box', rn('vf_bb', a, ha, b, hb), bb, 'true exactly when the boxes overlap or touch')
    ob('intersects_box_box', 'box_box-sym', rn('vf_bb', a, ha, b, hb), rn('vf_bb', b, hb, a, ha), 'symmetric in the boxes')
    rr = add(r, s)
    ob('mac', 'mac', rn('vf_mac', a, r, b, s, t), lt(mul(rr, rr), mul(t, t, dist)), 'a cell pair is far when the sum of radii is below the opening angle times the distance', ties=False)
    w2 = d2(A, HA)
    ob('box_MAC', 'box_MAC', rn('vf_bmac', c, b, a, ha, t), lt(w2, mul(t, t, d2(C_, B))), 'a source box is far when its diagonal is below the opening angle times the distance', ties=False)
    p.used(rn.it, m)
    return p


def p12():
    ck = Check('P12', 'Each predicate of tree_geometry is interpreted on symbolic points, boxes and radii in 1-3 dimensions; its truth value is compared, as a Boolean function of comparisons between polynomials, with the Euclidean relation it names.',
               ['floating-point arithmetic is read as real arithmetic; relations may differ within the code\'s own tolerance of 10 machine epsilons', 'radii are not negative, boxes have positive widths', 'ties are compared on integer grids where the formulas differ syntactically'])
    for x in pmap(geom, [(d,) for d in (1, 2, 3)]):
        ck.extend(x)
    return finish(ck, 45)
