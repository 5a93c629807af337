"""Small ROBDD package plus lazy bit-blasting of integer expressions (the bit-precise
value domain).  Bits are computed on demand, so untouched carry chains cost nothing."""
from .expr import *


class TooBig(Exception):
    pass


class Bdd:
    def __init__(self, limit=2000000):
        self.uniq = {}
        self.nodes = [None, None]  # 0,1 terminals
        self.cache = {}
        self.limit = limit
        self.varname = {}
        self.order = {}
        self.words = {}
        self.bits = {}
        self.free = {}
        self.nsym = 0

    def var(self, level, name):
        self.varname[level] = name
        return self.node(level, 0, 1)

    def node(self, v, lo, hi):
        if lo == hi:
            return lo
        k = (v, lo, hi)
        r = self.uniq.get(k)
        if r is None:
            r = len(self.nodes)
            if r > self.limit:
                raise TooBig()
            self.nodes.append(k)
            self.uniq[k] = r
        return r

    def ite(self, f, g, h):
        if f == 1:
            return g
        if f == 0:
            return h
        if g == h:
            return g
        if g == 1 and h == 0:
            return f
        k = (f, g, h)
        r = self.cache.get(k)
        if r is not None:
            return r
        n = self.nodes
        lv = n[f][0]
        if g > 1 and n[g][0] < lv:
            lv = n[g][0]
        if h > 1 and n[h][0] < lv:
            lv = n[h][0]

        def cof(x):
            if x > 1 and n[x][0] == lv:
                return n[x][1], n[x][2]
            return x, x
        f0, f1 = cof(f)
        g0, g1 = cof(g)
        h0, h1 = cof(h)
        r = self.node(lv, self.ite(f0, g0, h0), self.ite(f1, g1, h1))
        self.cache[k] = r
        return r

    def NOT(self, a):
        return self.ite(a, 0, 1)

    def AND(self, a, b):
        return self.ite(a, b, 0)

    def OR(self, a, b):
        return self.ite(a, 1, b)

    def XOR(self, a, b):
        return self.ite(a, self.NOT(b), b)

    def sat(self, f):
        """one satisfying assignment {varname: bit}"""
        if f == 0:
            return None
        out = {}
        while f > 1:
            v, lo, hi = self.nodes[f]
            if lo != 0:
                out[self.varname[v]] = 0
                f = lo
            else:
                out[self.varname[v]] = 1
                f = hi
        return out

    # ---- bit blasting ------------------------------------------------------
    def freebit(self, n, i):
        """variable for bit i of an opaque word n; MSB first, words interleaved"""
        key = (n.id, i)
        b = self.free.get(key)
        if b is None:
            if n.id not in self.order:
                self.order[n.id] = self.nsym
                self.nsym += 1
            lvl = (512 - i) * 4096 + self.order[n.id]
            b = self.free[key] = self.var(lvl, (show(n, 3), i))
        return b

    def bit(self, n, i):
        """BDD of bit i of integer expression n"""
        key = (n.id, i)
        r = self.bits.get(key)
        if r is None:
            r = self._bit(n, i)
            self.bits[key] = r
        return r

    def cond(self, n):
        return self.bit(n, 0)

    def carry(self, op, a, b, i, key):
        """carry/borrow into bit i"""
        # iterative from the lowest uncached position
        c = self.words.setdefault(key, [0])
        while len(c) <= i:
            j = len(c) - 1
            cin = c[j]
            if op == 'add':
                if cin == 0:
                    x = self.bit(b, j) if isc(b) else None
                    if x == 0:
                        c.append(0)
                        continue
                    x = self.bit(a, j)
                    c.append(0 if x == 0 else self.AND(x, self.bit(b, j)))
                else:
                    x, y = self.bit(a, j), self.bit(b, j)
                    c.append(self.OR(self.AND(x, y), self.AND(cin, self.OR(x, y))))
            else:
                x = self.bit(a, j)
                if cin == 0 and x == 1:
                    c.append(0)
                    continue
                y = self.bit(b, j)
                nx = self.NOT(x)
                c.append(self.OR(self.AND(nx, y), self.AND(cin, self.OR(nx, y))))
        return c[i]

    def eqc(self, n, c):
        """n == constant c"""
        k = (n.id, 'eqc', c)
        r = self.bits.get(k)
        if r is None:
            r = 1
            for j in range(n.k[1]):
                b = self.bit(n, j)
                r = self.AND(r, b if (c >> j) & 1 else self.NOT(b))
                if r == 0:
                    break
            self.bits[k] = r
        return r

    def _bit(self, n, i):
        op = n.op
        if op == 'c':
            return (n.a[0] >> i) & 1
        w = n.k[1]
        if op == 'ite':
            c = self.cond(n.a[0])
            if c == 1:
                return self.bit(n.a[1], i)
            if c == 0:
                return self.bit(n.a[2], i)
            return self.ite(c, self.bit(n.a[1], i), self.bit(n.a[2], i))
        if op == 'not':
            return self.NOT(self.bit(n.a[0], i))
        if op == 'and':
            a = self.bit(n.a[1], i)
            return 0 if a == 0 else self.AND(self.bit(n.a[0], i), a)
        if op == 'or':
            return self.OR(self.bit(n.a[0], i), self.bit(n.a[1], i))
        if op == 'xor':
            return self.XOR(self.bit(n.a[0], i), self.bit(n.a[1], i))
        if op == 'zext':
            return self.bit(n.a[0], i) if i < n.a[0].k[1] else 0
        if op == 'sext':
            return self.bit(n.a[0], min(i, n.a[0].k[1] - 1))
        if op == 'trunc':
            return self.bit(n.a[0], i)
        if op in ('shl', 'lshr', 'ashr'):
            if isc(n.a[1]):
                s = n.a[1].a[0]
                if op == 'shl':
                    return self.bit(n.a[0], i - s) if i >= s else 0
                if i + s < w:
                    return self.bit(n.a[0], i + s)
                return 0 if op == 'lshr' else self.bit(n.a[0], w - 1)
            # symbolic shift: mux over the shift amounts in range
            r = 0
            for s in range(w):
                e = self.eqc(n.a[1], s)
                if e:
                    j = i - s if op == 'shl' else i + s
                    x = self.bit(n.a[0], j) if 0 <= j < w else (self.bit(n.a[0], w - 1) if op == 'ashr' else 0)
                    r = self.OR(r, self.AND(e, x))
            return r
        if op in ('add', 'sub'):
            a, b = n.a
            key = (n.id, op)
            c = self.carry(op, a, b, i, key)
            return self.XOR(self.XOR(self.bit(a, i), self.bit(b, i)), c)
        if op == 'mul' and isc(n.a[1]):
            v = n.a[1].a[0]
            acc = ic(0, w)
            j = 0
            while v:
                if v & 1:
                    acc = ibin('add', acc, ibin('shl', n.a[0], ic(j, w)))
                v >>= 1
                j += 1
            return self.bit(acc, i)
        if op == 'mul':
            acc = ic(0, w)
            for j in range(w):
                bj = self.bit(n.a[1], j)
                if bj == 0:
                    continue
                t = ibin('shl', n.a[0], ic(j, w))
                if bj != 1:
                    sel = icast('trunc', ibin('lshr', n.a[1], ic(j, w)), 1)
                    t = ite(sel, t, ic(0, w))
                acc = ibin('add', acc, t)
            return self.bit(acc, i)
        if op in ('icmp_eq', 'icmp_ult', 'icmp_slt'):
            a, b = n.a
            aw = a.k[1]
            if op == 'icmp_eq':
                r = 1
                for j in range(aw - 1, -1, -1):
                    r = self.AND(r, self.NOT(self.XOR(self.bit(a, j), self.bit(b, j))))
                    if r == 0:
                        break
                return r
            r = 0
            for j in range(aw):
                x, y = self.bit(a, j), self.bit(b, j)
                if op == 'icmp_slt' and j == aw - 1:
                    x, y = y, x
                # r' = (x<y) or (x==y and r)
                r = self.ite(x, self.AND(y, r), self.OR(y, r))
            return r
        return self.freebit(n, i)


_dec = [None]


def decide(c):
    """constant truth value of an integer condition in the bit domain, or None"""
    ok = 0
    for n in walk([c]):
        ok += 1
        if ok > 4000 or n.op in ('udiv', 'sdiv', 'urem', 'srem'):
            return None
        if n.op == 'mul' and not isc(n.a[1]):
            return None
    if _dec[0] is None or len(_dec[0].nodes) > 400000:
        _dec[0] = Bdd(limit=600000)
    try:
        b = _dec[0].cond(c)
    except (TooBig, RecursionError):
        _dec[0] = None
        return None
    return b if b in (0, 1) else None
