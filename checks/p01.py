"""P01/P02: the smoothing kernels."""
import math
from vf.common import *

KS = ['cubic_spline', 'quintic_spline', 'wendland_c2', 'wendland_c4', 'wendland_c6', 'gaussian', 'super_gaussian', 'sinc_ker']


def load(D):
    return build.compile(DR + 'kernels.cc', D, ['vf_*'])


def setup(m, k, run=None, index=None):
    rn = run or Run(m, pins={'param::_sph_sinc_index': index} if index is not None else {})
    kid = rn('vf_id_' + k)
    rn('vf_setk', kid)
    rn('vf_select')
    return rn, kid


def grad(D):
    p = Part()
    m = load(D)
    p.units.append('kernels.cc/%dD' % D)
    r, h = rs('r'), rs('h')
    X = rvec('', D)
    rr = sqrt(dot(X, X))
    for k in KS:
        key = '%s:%dD' % (k, D)
        rn, kid = setup(m, k)
        W = rn('vf_W', r, h)
        Wk = rn('vf_Wk', kid, r, h)
        o = rn.out(D)
        rn('vf_dW', rn.arr(X), h, o)
        g = rn.get(o, D)
        al = alg.Alg(positive=['h'], nonneg=['r'])
        dW = E.subst(alg.diff(W, r), {r.id: rr})
        ok, d, how, n = identity(al, [('d/d' + 'xyz'[i], g[i], div(mul(dW, X[i]), rr)) for i in range(D)])
        p.ob('gradient:' + key, ok, where(m, 'kernels::kernel_gradient<(param::sph_kernel_keyword_enum)%d' % kid.a[0]), 'gradient vector equals dW/dr times the unit separation', d, how)
        ok, d, how, n = identity(al, [('W', W, Wk)])
        p.ob('selected:' + key, ok, where(m, 'kernels::select'), 'the selector installs the kernel its keyword names', d, how)
        out = E.bnot(E.fcmp('ole', rr, h))
        ok, d, how, n = identity(al, [('gradient', g[i], rc(0)) for i in range(D)], hyps=[out])
        ok2, d2, how2, n = identity(al, [('W', W, rc(0))], hyps=[E.fcmp('olt', h, r)])
        p.ob('support:' + key, ok and ok2, where(m, 'kernels::kernel<(param::sph_kernel_keyword_enum)%d' % kid.a[0]), 'W and its gradient vanish outside the smoothing length', d + '; ' + d2, how)
        ok, d, how, n = identity(al, [('scaling', W, div(E.subst(W, {r.id: div(r, h), h.id: rc(1)}), rpow(h, D)))])
        p.ob('scaling:' + key, ok, where(m, 'kernels::kernel<(param::sph_kernel_keyword_enum)%d' % kid.a[0]), 'W(r,h) = h^-D W(r/h,1)', d, how)
        p.used(rn.it, m)
    return p


# Gauss-Legendre 20 nodes on [-1,1]
def gl(n=20):
    xs = []
    for i in range(n):
        x = math.cos(math.pi * (i + .75) / (n + .5))
        for _ in range(100):
            p0, p1 = 1.0, x
            for j in range(2, n + 1):
                p0, p1 = p1, ((2 * j - 1) * x * p1 - (j - 1) * p0) / j
            dp = n * (x * p1 - p0) / (x * x - 1)
            dx = p1 / dp
            x -= dx
            if abs(dx) < 1e-15:
                break
        xs.append((x, 2 / ((1 - x * x) * dp * dp)))
    return xs


def norm(D):
    p = Part()
    m = load(D)
    p.units.append('kernels.cc/%dD' % D)
    r = rs('r')
    S = {1: 2.0, 2: 2 * math.pi, 3: 4 * math.pi}[D]
    for k in KS:
        for idx in ([None] if k != 'sinc_ker' else [rc(3), rc(4), rc(5), rc(6), rc(8), rc(10), rc(12)]):
            key = '%s:%dD' % (k, D) + ('' if idx is None else ':n%g' % idx.a[0])
            rn, kid = setup(m, k, index=idx)
            W = rn('vf_W', r, rc(1))
            al = alg.Alg(nonneg=['r'])
            tot = 0.0
            nreg = 0
            for ctx, (e,) in alg.cases(al, [W]):
                lo, hi = 0.0, 1.0
                for (kk, mono), (l, u, pt) in ctx.iv.items():
                    lo, hi = max(lo, l or 0.0), min(hi, u if u is not None else hi)
                if lo >= hi:
                    continue
                nreg += 1
                N_ = 4
                for c in range(N_):
                    a, b = lo + (hi - lo) * c / N_, lo + (hi - lo) * (c + 1) / N_
                    for x, w in gl():
                        q = (a + b) / 2 + x * (b - a) / 2
                        tot += w * (b - a) / 2 * S * q ** (D - 1) * alg.evalf(e, {'r': q})
            tol = 1e-6 if k != 'sinc_ker' else 2e-2
            p.ob('norm:' + key, abs(tot - 1) <= tol, where(m, 'kernels::kernel<(param::sph_kernel_keyword_enum)%d' % kid.a[0]), 'volume integral of W over its support is 1 (tolerance %g)' % tol, 'integral = %.9f over %d pieces' % (tot, nreg), 'closed quadrature of the extracted polynomial/exponential pieces')
            p.used(rn.it, m)
    return p


def p01():
    ck = Check('P01', 'For each of the 8 kernels in 1, 2 and 3 dimensions, reached through the selector: the value expressions of kernel and gradient are extracted from the IR, every gate region is enumerated and the identities decided by algebraic normal form.',
               ['floating-point arithmetic is read as real arithmetic; terms below 1e-150 (TINY) count as zero', 'measure-zero region boundaries are not compared', 'h > 0, r >= 0'])
    for x in pmap(grad, [(d,) for d in (1, 2, 3)]):
        ck.extend(x)
    return finish(ck, 90)


def p02():
    ck = Check('P02', 'For each kernel and dimension the radial value expression is extracted, split into its gate pieces and integrated over the support with a quadrature exact for the polynomial pieces.',
               ['floating-point arithmetic is read as real arithmetic'])
    for x in pmap(norm, [(d,) for d in (1, 2, 3)]):
        ck.extend(x)
    return finish(ck, 30)
