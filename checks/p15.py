"""P15-P17: tree keys and space-filling curves."""
from fractions import Fraction
from vf.common import *
from vf import bdd

W = 64


def load():
    return build.compile(DR + 'keys.cc', 3, ['vf_*'])


_B = [None]


def shared():
    if _B[0] is None or len(_B[0].nodes) > 1000000:
        _B[0] = bdd.Bdd()
    return _B[0]


def same(a, b, hyp=TRUE, B=None):
    """integer/boolean values equal under hyp (bit domain); (ok, how)"""
    B = B or shared()
    h = B.cond(hyp)
    for i in range(a.k[1]):
        x = B.AND(h, B.XOR(B.bit(a, i), B.bit(b, i)))
        if x:
            s = B.sat(x)
            return False, 'bit %d differs for %s' % (i, word(s))
    return True, '%d bits' % a.k[1]


def word(s):
    v = {}
    for (nm, i), b in s.items():
        v[nm] = v.get(nm, 0) | b << i
    return ', '.join('%s=0x%x' % kv for kv in sorted(v.items()))


def holds(c, hyp=TRUE):
    B = bdd.Bdd(limit=12000000)
    x = B.AND(B.cond(hyp), B.NOT(B.cond(c)))
    if x:
        return False, 'fails for ' + word(B.sat(x))
    return True, 'all bit patterns'


def w64(n):
    return sym(n, E.I(W))


def sh(op, a, n):
    return ibin(op, a, ic(n, W))


def depthspec(v, D):
    r = ic(0, W)
    for k in range(1, (W + D - 1) // D):
        r = ite(icmp('eq', sh('lshr', v, k * D), ic(0, W)), r, ic(k, W))
    return r


def keys(n):
    p = Part()
    m = load()
    D = int(n[1])
    md = (W - 1) // D
    p.units.append('keys.cc/' + n)
    loc = 'include/tree_topology/filling_curve.h (flecsi::filling_curve<%d>)' % D
    rn = Run(m)
    v, u, b = w64('v'), w64('u'), sym('b', E.I(D))
    bz = icast('zext', b, W) if D < W else b

    def ob(key, r, rule):
        p.ob('key:%s:%s' % (key, n), r[0], loc, rule, r[1], 'BDD')

    def const(key, want, rule):
        g = rn('vf_%s_%s' % (key, n))
        ob(key, (isc(g) and g.a[0] == want, '%s, required %d' % (E.show(g), want)), rule)
    const('maxd', md, 'the maximum depth uses every whole digit of the key word below its leading one')
    const('min', 1 << md * D, 'the smallest full-depth key is the leading one and zero digits')
    const('max', (1 << md * D + 1) - 1, 'the largest full-depth key is the leading one and all-one digits')
    const('root', 1, 'the root key is the leading one')
    const('null', 0, 'the null key is zero')
    const('def', 0, 'a default key is null')
    ob('isnull', same(rn('vf_isnull_' + n, v), icmp('eq', v, ic(0, W))), 'null exactly for the null key')
    for f in ('cast', 'copy'):
        ob(f, same(rn('vf_%s_%s' % (f, n), v), v), 'copying and converting keep the key value')
    pu = rn('vf_push_' + n, v, bz)
    ob('push', same(pu, ibin('or', sh('shl', v, D), bz)), 'push appends one digit')
    ob('pop', same(rn('vf_pop_' + n, v), sh('lshr', v, D)), 'pop removes the last digit')
    ob('parent', same(rn('vf_parent_' + n, v), sh('lshr', v, D)), 'the parent is the key without its last digit')
    top = icmp('eq', sh('lshr', v, W - D), ic(0, W))
    o = rn.out(4)
    for f in ('popv', 'last'):
        k = rn('vf_%s_%s' % (f, n), v, o)
        dg = rn.it.load(rn.st, o, 4, E.I(32))
        ob(f + '-digit', same(dg, icast('trunc', ibin('and', v, ic((1 << D) - 1, W)), 32)), 'the last digit is reported')
        ob(f + '-key', same(k, sh('lshr', v, D) if f == 'popv' else v), 'the remaining key is the parent (pop) or unchanged (query)')
    ob('pop-push', same(rn('vf_pop_' + n, pu), v, top), 'push then pop restores the key')
    ob('depth', same(rn('vf_depth_' + n, v), depthspec(v, D)), 'the depth counts the digits after the leading one')
    ob('depth-push', same(rn('vf_depth_' + n, pu), ibin('add', depthspec(v, D), ic(1, W)), band(top, bnot(icmp('eq', v, ic(0, W))))), 'appending a digit deepens the key by one')
    for d in range(md + 1):
        ob('popd%d' % d, same(rn('vf_popd_' + n, v, ic(d, W)), sh('lshr', v, d * D)), 'pop(d) removes d digits')
    dp = depthspec(v, D)
    for d in range(md + 1):
        t = rn('vf_trunc_' + n, v, ic(d, W))
        want = v
        for k in range(d + 1, (W - 1) // D + 1):
            want = ite(icmp('eq', dp, ic(k, W)), sh('lshr', v, (k - d) * D), want)
        ob('trunc%d' % d, same(t, want), 'truncation keeps the leading digits down to the depth asked for')
    for f, w in (('eq', icmp('eq', u, v)), ('ne', bnot(icmp('eq', u, v))), ('lt', icmp('ult', u, v)), ('gt', icmp('ult', v, u)), ('le', bnot(icmp('ult', v, u))), ('ge', bnot(icmp('ult', u, v)))):
        g = rn('vf_%s_%s' % (f, n), u, v)
        ob(f, same(g, w), 'keys compare as the integers they hold')
    full = lambda x: icmp('eq', sh('lshr', x, md * D), ic(1, W))
    mn, mx = rn('vf_min_' + n), rn('vf_max_' + n)
    ob('range', same(band(rn('vf_ge_' + n, v, mn), rn('vf_le_' + n, v, mx)), full(v)), 'the full-depth keys are exactly those between the smallest and the largest key')
    c = rn('vf_confl_' + n, u, v)
    want = ic(md, 32)
    a_, b_ = u, v
    for k in range(1, md + 1):
        want = ite(icmp('eq', sh('lshr', u, (k - 1) * D), sh('lshr', v, (k - 1) * D)), want, ic(md - k, 32))
    ob('conflict', same(c, want, band(full(u), full(v))), 'two full-depth keys part below the deepest key they share')
    p.used(rn.it, m)
    return p


def corner(D):
    return [rs('lo%d' % i) for i in range(D)], [rs('hi%d' % i) for i in range(D)], [rs('p%d' % i) for i in range(D)]


def grid(e):
    """the real-to-integer conversions inside e"""
    return [x for x in E.walk([e]) if x.op == 'r2i']


def findop(e, ops):
    return [x for x in E.walk([e]) if x.op in ops]


def cells(p, key, k, D, md, loc):
    """the grid coordinates used by an encoder: word per dimension, checked against floor((p-lo)/(hi-lo)*2^md) clamped"""
    lo, hi, x = corner(D)
    ws = []
    for j in range(D):
        cand = [c for c in grid(k) if ('p%d' % j) in set(E.symbols([c.a[0]]))]
        if len(cand) != 1:
            raise Incomplete('%s: %d integer conversions depend on coordinate %d' % (key, len(cand), j))
        c = cand[0]
        al = alg.Alg()
        ok, d, how, n = identity(al, [('cell', c.a[0], mul(div(sub(x[j], lo[j]), sub(hi[j], lo[j])), rc(float(1 << md))))])
        p.ob('cell%d:%s' % (j, key), ok, loc, 'the grid coordinate is the position scaled by the number of cells to an edge', d, how)
        mx = ic((1 << md) - 1, W)
        ws.append(ite(icmp('ult', mx, c), mx, c))
    return ws


def recon(p, key, q, word_ok, D, md, loc, hyp=TRUE, exact=False):
    """q_j must be lo + (hi-lo)*word*scale with scale ~ 2^-md; returns the integer words"""
    lo, hi, _ = corner(D)
    out = []
    for j in range(D):
        ws = findop(q[j], ('i2r',))
        if not ws:
            return None
        if len(ws) != 1:
            raise Incomplete('%s: %d integer-to-real conversions in coordinate %d' % (key, len(ws), j))
        wsym = rs('w')
        e = E.subst(q[j], {ws[0].id: wsym})
        env = {'lo%d' % j: 0.0, 'hi%d' % j: 1.0, 'w': 1.0}
        c = alg.evalf(e, env)
        al = alg.Alg()
        ok, d, how, n = identity(al, [('position', e, add(lo[j], mul(sub(hi[j], lo[j]), mul(wsym, rc(c)))))])
        rel = abs(c * 2.0 ** md - 1)
        p.ob('position%d:%s' % (j, key), ok and rel <= 1.0 / (2.0 ** md - 1) * 1.000001 + 1e-15, loc, 'the position returned is the cell index scaled to the range, at most one cell off', '%s; scale error %.3g of a cell count' % (d, rel), how)
        out.append(ws[0].a[0])
    return out


def boxes(p, rn, n, D, md, L, H, lo, hi, loc):
    # boxes of branches
    pats = []
    for d in range(0, md + 1):
        if d * D <= 6:
            pats += [(1 << d * D) | z for z in range(1 << d * D)]
        else:
            ones = (1 << d * D) - 1
            alt = int(('01' * 40)[:d * D], 2)
            pats += [(1 << d * D) | z for z in (0, ones, alt, ones ^ alt, 0x9E3779B97F4A7C15 & ones)]
    bad = []
    al = alg.Alg()
    for k in pats:
        o = rn.out(2 * D)
        rn('vf_range_' + n, L, H, ic(k, W), o)
        g = rn.get(o, 2 * D)
        d = (k.bit_length() - 1) // D
        prs = []
        for j in range(D):
            c = sum(((k >> t * D + j) & 1) << t for t in range(d))
            for e, i in ((g[j], c), (g[D + j], c + 1)):
                prs.append(('%s corner %d' % ('upper' if e is g[D + j] else 'lower', j), e, add(lo[j], mul(sub(hi[j], lo[j]), rc(i / 2.0 ** d)))))
        ok, dd, how, nn = identity(al, prs)
        if not ok:
            bad.append('key %s: %s' % (oct(k), dd))
        # every level exactly, in a concrete range
        o = rn.out(2 * D)
        rn('vf_range_' + n, rn.arr([rc(-2)] * D), rn.arr([rc(6)] * D), ic(k, W), o)
        for j, e in enumerate(rn.get(o, 2 * D)):
            c = sum(((k >> t * D + j % D) & 1) << t for t in range(d)) + (j >= D)
            want = rc(Fraction(8 * c, 1 << d) - 2)
            if not E.isr(e):
                bad.append('key %s: corner %d of the range [-2,6] depends on an undefined value, %s' % (oct(k), j, E.show(e, 2)))
            elif abs(e.a[0] - want.a[0]) > 2e-15:
                bad.append('key %s: corner %d of the range [-2,6] is %.17g instead of %.17g' % (oct(k), j, float(e.a[0]), float(want.a[0])))
    p.ob('box:' + n, not bad, loc, 'the box of a branch is its octant path within the range', '; '.join(bad[:3]) or '%d keys, range symbolic' % len(pats), 'normal form')


def box(D):
    p = Part()
    m = load()
    lo, hi, x = corner(D)
    rn = Run(m)
    boxes(p, rn, 'm%d' % D, D, (W - 1) // D, rn.arr(lo), rn.arr(hi), lo, hi, 'include/tree_topology/filling_curve.h (flecsi::morton_curve_u<%d>::range)' % D)
    p.used(rn.it, m)
    return p


def morton(D):
    p = Part()
    m = load()
    n = 'm%d' % D
    md = (W - 1) // D
    p.units.append('keys.cc/' + n)
    loc = 'include/tree_topology/filling_curve.h (flecsi::morton_curve_u<%d>)' % D
    lo, hi, x = corner(D)
    rn = Run(m)
    L, H, X = rn.arr(lo), rn.arr(hi), rn.arr(x)
    full = rn('vf_encf_' + n, L, H, X)
    ws = cells(p, n, full, D, md, loc)
    for d in range(md + 1):
        k = rn('vf_enc_' + n, L, H, X, ic(d, W))
        want = sh('shl', ic(1, W), d * D)
        for t in range(d):
            for j in range(D):
                bit = ibin('and', sh('lshr', ws[j], md - d + t), ic(1, W))
                want = ibin('or', want, sh('shl', bit, t * D + j))
        ok, why = same(k, want)
        p.ob('encode%d:%s' % (d, n), ok, loc, 'digit by digit the key interleaves the cell coordinates below a leading one', why, 'BDD')
        if d == md:
            ok, why = same(full, k)
            p.ob('default-depth:' + n, ok, loc, 'the default resolution is the maximum depth', why, 'BDD')
        # decode
        free = [[ic(0, W)] for _ in range(D)]
        v = ibin('or', sh('shl', ic(1, W), d * D), ibin('and', w64('v'), ic((1 << d * D) - 1, W)))
        o = rn.out(D)
        rn('vf_dec_' + n, L, H, v, o)
        q = rn.get(o, D)
        if d == 0:
            al = alg.Alg()
            ok, dd, how, nn = identity(al, [(str(j), q[j], lo[j]) for j in range(D)])
            p.ob('decode0:' + n, ok, loc, 'the root decodes to the corner of the range', dd, how)
            continue
        got = recon(p, '%s:%d' % (n, d), q, None, D, md, loc)
        bad = []
        for j in range(D):
            want = ic(0, W)
            for t in range(d):
                want = ibin('or', want, sh('shl', ibin('and', sh('lshr', v, t * D + j), ic(1, W)), md - d + t))
            ok, why = same(got[j], want)
            if not ok:
                bad.append('coordinate %d: %s' % (j, why))
        p.ob('decode%d:%s' % (d, n), not bad, loc, 'decoding gathers the digits back into the cell coordinates', '; '.join(bad) or 'depth %d' % d, 'BDD')
    boxes(p, rn, n, D, md, L, H, lo, hi, loc)
    p.used(rn.it, m)
    return p


def windows(md, v, D):
    """masks/patterns fixing all but a few levels: [(mask of free bits, fixed bits)]"""
    out = []
    w = 6
    for a in sorted({md, md // 2 + 3, w}):
        if a < w:
            continue
        free = ((1 << a * D) - 1) ^ ((1 << (a - w) * D) - 1)
        allm = (1 << md * D) - 1
        for pat in (0, 0x9E3779B97F4A7C15, 0x5DEECE66D1234567, (1 << 64) - 1):
            out.append((free, pat & allm & ~free))
    return out


def hilbert(D, phase):
    p = Part()
    m = load()
    n = 'h%d' % D
    md = (W - 1) // D
    loc = 'include/tree_topology/filling_curve.h (flecsi::hilbert_curve_u<%d>)' % D
    lo, hi, x = corner(D)
    rn = Run(m)
    rn.it.bitdom = False
    L, H, X = rn.arr(lo), rn.arr(hi), rn.arr(x)
    full = rn('vf_encf_' + n, L, H, X)
    ws = cells(p if phase == 'depth' else Part(), n, full, D, md, loc)
    mx = ic((1 << md) - 1, W)
    fw = [w64('c%d' % j) for j in range(D)]
    fm = [ibin('and', f_, mx) for f_ in fw]
    conv = {}
    for w_, f_ in zip(ws, fm):
        conv[grid(w_)[0].id] = f_
    key = E.subst(full, conv)
    # decode
    o = rn.out(D)
    v = w64('k')
    vk = ibin('or', sh('shl', ic(1, W), md * D), ibin('and', v, ic((1 << md * D) - 1, W)))
    rn('vf_dec_' + n, L, H, vk, o)
    q = rn.get(o, D)
    got = recon(p if phase == 'depth' else Part(), n, q, None, D, md, loc)
    blind = got is None or any('k' not in E.symbols([g]) for g in got)
    p.used(rn.it, m)

    def staged(name, rule, f, cellwise):
        """f(mapping of free words, B) -> (ok, why): a few free levels first, then every level at once"""
        for free, pat in windows(md, None, D):
            if cellwise:
                # a window of key digits is the same window of bits in every cell word
                lv = [l for l in range(md) if (free >> l * D) & 1]
                fr = sum(1 << l for l in lv)
                sb = {}
                for t, w_ in enumerate(fw):
                    fx = (pat >> 7 * t) & ((1 << md) - 1) & ~fr
                    sb[w_.id] = ibin('or', ibin('and', w_, ic(fr, W)), ic(fx, W))
            else:
                sb = {v.id: ibin('or', ibin('and', v, ic(free, W)), ic(pat, W))}
            try:
                ok, why = f(sb, bdd.Bdd(limit=2000000))
            except bdd.TooBig:
                continue
            if not ok:
                p.ob('%s:%s' % (name, n), False, loc, rule, why, 'BDD')
                return
        try:
            ok, why = f({}, bdd.Bdd(limit=12000000))
        except bdd.TooBig:
            ok, why = None, 'only windows of six levels were decided'
        p.ob('%s:%s' % (name, n), ok, loc, rule, why, 'BDD over all %d levels' % md)

    def inv(sb, B):
        k = E.subst(key, sb)
        for j in range(D):
            ok, why = same(E.subst(got[j], {v.id: k}), E.subst(fm[j], sb), TRUE, B)
            if not ok:
                return False, 'coordinate %d: %s' % (j, why)
        return True, 'all %d-bit cell words' % md

    def onto(sb, B):
        e2 = E.subst(key, {f_.id: E.subst(ibin('and', g, mx), sb) for f_, g in zip(fw, got)})
        return same(e2, E.subst(vk, sb), TRUE, B)

    def adj(sb, B):
        last = icmp('eq', ibin('and', v, ic((1 << md * D) - 1, W)), ic((1 << md * D) - 1, W))
        nx = [E.subst(g, {v.id: ibin('add', v, ic(1, W))}) for g in got]
        eq = [icmp('eq', a, b) for a, b in zip(got, nx)]
        st = [bor(icmp('eq', ibin('sub', a, b), ic(1, W)), icmp('eq', ibin('sub', b, a), ic(1, W))) for a, b in zip(got, nx)]
        one = FALSE
        for j in range(D):
            c = st[j]
            for i in range(D):
                if i != j:
                    c = band(c, eq[i])
            one = bor(one, c)
        x_ = B.AND(B.NOT(B.cond(E.subst(last, sb))), B.NOT(B.cond(E.subst(one, sb))))
        return x_ == 0, 'all keys' if x_ == 0 else word(B.sat(x_))

    def nest(sb, B):
        for d in (1, 2, 3, md // 2, md - 1):
            if d >= md:
                continue
            low = (md - d) * D
            z = ibin('and', vk, ic(((1 << 64) - 1) ^ ((1 << low) - 1), W))
            for g in got:
                ok, why = same(E.subst(sh('lshr', g, md - d), sb), E.subst(sh('lshr', E.subst(g, {v.id: z}), md - d), sb), TRUE, B)
                if not ok:
                    return False, 'depth %d: %s' % (d, why)
        return True, 'depths 1,2,3,mid,max-1'

    if phase == 'depth':
        p.units.append('keys.cc/' + n)
        staged('depth', 'a full key has its leading one at the maximum depth', lambda sb, B: same(E.subst(sh('lshr', key, md * D), sb), ic(1, W), TRUE, B), True)
        ks = [E.subst(rn('vf_enc_' + n, L, H, X, ic(d, W)), conv) for d in range(md + 1)]

        def pre(sb, B):
            for d in range(md + 1):
                ok, why = same(E.subst(ks[d], sb), E.subst(sh('lshr', key, (md - d) * D), sb), TRUE, B)
                if not ok:
                    return False, 'depth %d: %s' % (d, why)
            return True, '%d depths' % (md + 1)
        staged('prefix', 'a coarser key is the prefix of the full key', pre, True)
        p.ob('depends:' + n, not blind, loc, 'the decoded position depends on the key', 'coordinates are functions of the key' if not blind else 'a decoded coordinate does not depend on the key', 'dataflow')
        return p
    if blind:
        return p
    if phase == 'inverse':
        staged('inverse', 'decoding the key of a cell returns that cell', inv, True)
    elif phase == 'onto':
        staged('onto', 'every key is the key of the cell it decodes to', onto, False)
    elif phase == 'adjacent' and D > 1:
        staged('adjacent', 'consecutive keys denote cells sharing a face', adj, False)
    elif phase == 'nested':
        staged('nested', 'all keys below one branch decode into one aligned cell of that depth', nest, False)
    return p


def p15():
    ck = Check('P15', 'Every key operation is interpreted on symbolic 64-bit keys (both curves, 1-3 dimensions) and compared with its digit-string definition bit by bit with BDDs.', ['keys are 64-bit words, as configured in tree.h'])
    load()
    for x in pmap(keys, [(n,) for n in ('m1', 'm2', 'm3', 'h1', 'h2', 'h3')]) + pmap(box, [(d,) for d in (1, 2, 3)]):
        ck.extend(x)
    return finish(ck, 500)


def p16():
    ck = Check('P16', 'Morton encoding, decoding and branch boxes are interpreted symbolically; every output bit is compared with the interleaving of the cell coordinates with BDDs, every real coordinate by normal form.', ['positions lie in the range', 'floating-point arithmetic is read as real arithmetic'])
    load()
    for x in pmap(morton, [(d,) for d in (1, 2, 3)]):
        ck.extend(x)
    return finish(ck, 300)


def p17():
    ck = Check('P17', 'Hilbert encoding and decoding are interpreted on symbolic cells and keys; their compositions, the distance between consecutive cells and the prefix structure are decided with BDDs for all cells of the 64-bit resolution.', ['positions lie in the range', 'floating-point arithmetic is read as real arithmetic'])
    load()
    for x in pmap(hilbert, [(d, f) for d in (3, 2, 1) for f in ('inverse', 'onto', 'adjacent', 'nested', 'depth')]):
        ck.extend(x)
    return finish(ck, 20)
