"""Hash-consed value expressions: the value domain of the abstract interpreter.

Kinds: 'r' real (IEEE values read as reals), ('i', w) w-bit integer, 'p' pointer,
'a' first-class aggregate.
"""
import math
from fractions import Fraction

_tab = {}
_cnt = [0]


class N:
    __slots__ = ('op', 'a', 'k', 'id')

    def __repr__(self):
        return show(self)


def mk(op, a, k):
    key = (op, k) + tuple(x.id if isinstance(x, N) else ('#', x) for x in a)
    n = _tab.get(key)
    if n is None:
        n = N()
        n.op = op
        n.a = a
        n.k = k
        _cnt[0] += 1
        n.id = _cnt[0]
        _tab[key] = n
    return n


R = 'r'
P = 'p'
_I = {}


def I(w):
    k = _I.get(w)
    if k is None:
        k = _I[w] = ('i', w)
    return k


def ic(v, w):
    return mk('c', (v & ((1 << w) - 1),), I(w))


def rc(v):
    return mk('rc', (float(v),), R)


def sym(name, k):
    return mk('s', (name,), k)


TRUE = ic(1, 1)
FALSE = ic(0, 1)
NULL = mk('null', (), P)


def isc(n):
    return n.op == 'c'


def sval(n):
    v = n.a[0]
    w = n.k[1]
    return v - (1 << w) if v >> (w - 1) else v


def show(n, d=6):
    if n.op == 'c':
        return str(sval(n) if n.k[1] > 1 else n.a[0])
    if n.op == 'rc':
        return repr(n.a[0])
    if n.op == 's':
        return str(n.a[0])
    if d == 0:
        return '..'
    return n.op + '(' + ', '.join(show(x, d - 1) if isinstance(x, N) else str(x) for x in n.a) + ')'


def ite(c, a, b):
    if a is b:
        return a
    if isc(c):
        return a if c.a[0] else b
    if c.op == 'not':
        return ite(c.a[0], b, a)
    if a.k == I(1):
        if a is TRUE and b is FALSE:
            return c
        if a is FALSE and b is TRUE:
            return bnot(c)
        if b is FALSE:
            return band(c, a)
        if a is TRUE:
            return bor(c, b)
        if a is FALSE:
            return band(bnot(c), b)
        if b is TRUE:
            return bor(bnot(c), a)
    if a.op == 'ite' and a.a[0] is c:
        a = a.a[1]
    if b.op == 'ite' and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if a.op == 'agg' and b.op == 'agg':
        return mk('agg', tuple(ite(c, x, y) for x, y in zip(a.a, b.a)), 'a')
    k = a.k
    if a.op == 'undef':
        k = b.k
    return mk('ite', (c, a, b), k)


def bnot(c):
    if isc(c):
        return FALSE if c.a[0] else TRUE
    if c.op == 'not':
        return c.a[0]
    return mk('not', (c,), I(1))


def band(a, b):
    if a is b:
        return a
    for x, y in ((a, b), (b, a)):
        if isc(x):
            return y if x.a[0] else FALSE
        if x.op == 'not' and x.a[0] is y:
            return FALSE
    return mk('and', (a, b) if a.id <= b.id else (b, a), I(1))


def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))


def _lift(f, xs, lim=16):
    """distribute an int/pointer operator over one ite-of-constants operand"""
    return None


def leaves(n, lim=32):
    """if n is a nest of ite with constant leaves, its (cond, leaf) list, else None"""
    out = []

    def go(x, c):
        if x.op == 'ite':
            return go(x.a[1], band(c, x.a[0])) and go(x.a[2], band(c, bnot(x.a[0])))
        out.append((c, x))
        return len(out) <= lim
    return out if go(n, TRUE) else None


def mask(w):
    return (1 << w) - 1


def ibin(op, a, b):
    w = a.k[1]
    if w == 1:
        if op in ('and', 'mul'):
            return band(a, b)
        if op == 'or':
            return bor(a, b)
        if op in ('xor', 'add', 'sub'):
            if isc(b):
                return bnot(a) if b.a[0] else a
            if isc(a):
                return bnot(b) if a.a[0] else b
            if a is b:
                return FALSE
            return bor(band(a, bnot(b)), band(bnot(a), b))
    if isc(a) and isc(b):
        x, y = a.a[0], b.a[0]
        sx, sy = sval(a), sval(b)
        if op == 'add':
            return ic(x + y, w)
        if op == 'sub':
            return ic(x - y, w)
        if op == 'mul':
            return ic(x * y, w)
        if op == 'and':
            return ic(x & y, w)
        if op == 'or':
            return ic(x | y, w)
        if op == 'xor':
            return ic(x ^ y, w)
        if op == 'shl':
            return ic(x << y, w) if y < w else mk('undef', ('shift',), I(w))
        if op == 'lshr':
            return ic(x >> y, w) if y < w else mk('undef', ('shift',), I(w))
        if op == 'ashr':
            return ic(sx >> y, w) if y < w else mk('undef', ('shift',), I(w))
        if op == 'udiv' and y:
            return ic(x // y, w)
        if op == 'urem' and y:
            return ic(x % y, w)
        if op == 'sdiv' and y:
            return ic(int(abs(sx) // abs(sy)) * (1 if (sx < 0) == (sy < 0) else -1), w)
        if op == 'srem' and y:
            return ic((abs(sx) % abs(sy)) * (-1 if sx < 0 else 1), w)
    if isc(b):
        y = b.a[0]
        if y == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            return a
        if y == 0 and op in ('mul', 'and'):
            return b
        if y == 1 and op in ('mul', 'udiv', 'sdiv'):
            return a
        if y == mask(w) and op == 'and':
            return a
        if op == 'sub':
            return ibin('add', a, ic(-y, w))
        if op in ('udiv', 'mul') and y & (y - 1) == 0 and y:
            return ibin('lshr' if op == 'udiv' else 'shl', a, ic(y.bit_length() - 1, w))
        if op == 'urem' and y & (y - 1) == 0 and y:
            return ibin('and', a, ic(y - 1, w))
        if op == 'add' and a.op == 'add' and isc(a.a[1]):
            return ibin('add', a.a[0], ic(a.a[1].a[0] + y, w))
        if a.op == 'ite' and isc(a.a[1]) and isc(a.a[2]):
            return ite(a.a[0], ibin(op, a.a[1], b), ibin(op, a.a[2], b))
        if a.op in ('lshr', 'shl') and op == a.op and isc(a.a[1]):
            t = y + a.a[1].a[0]
            return ibin(op, a.a[0], ic(t, w)) if t < w else ic(0, w)
        if a.op == 'and' and op == 'and' and isc(a.a[1]):
            return ibin('and', a.a[0], ic(y & a.a[1].a[0], w))
        if a.op == 'zext' and op == 'and' and mask(a.a[0].k[1]) & ~y == 0:
            return a
        if a.op == 'zext' and op == 'lshr' and y >= a.a[0].k[1]:
            return ic(0, w)
    elif isc(a) and op in ('add', 'mul', 'and', 'or', 'xor'):
        return ibin(op, b, a)
    if a is b:
        if op in ('sub', 'xor'):
            return ic(0, w)
        if op in ('and', 'or'):
            return a
    if op in ('add', 'mul', 'and', 'or', 'xor') and a.id > b.id and not isc(b):
        a, b = b, a
    if op == 'sub':
        if a.op == 'add' and a.a[0] is b:
            return a.a[1]
        if a.op == 'add' and a.a[1] is b:
            return a.a[0]
    if op == 'add':
        for x, y in ((a, b), (b, a)):
            if x.op == 'sub' and x.a[1] is y:
                return x.a[0]
    return mk(op, (a, b), I(w))


def icast(op, a, w):
    if a.op == 'undef':
        return mk('undef', a.a, I(w))
    aw = a.k[1]
    if aw == w:
        return a
    if isc(a):
        return ic(a.a[0] if op != 'sext' else sval(a), w)
    if a.op == 'ite' and (isc(a.a[1]) or isc(a.a[2])):
        return ite(a.a[0], icast(op, a.a[1], w), icast(op, a.a[2], w))
    if op == 'trunc':
        if a.op in ('zext', 'sext'):
            b = a.a[0]
            if b.k[1] == w:
                return b
            if b.k[1] > w:
                return icast('trunc', b, w)
            return icast(a.op, b, w)
        if a.op == 'trunc':
            return icast('trunc', a.a[0], w)
        if w == 1 and a.op == 'and' and isc(a.a[1]) and a.a[1].a[0] == 1:
            return icast('trunc', a.a[0], 1)
        if a.op in ('and', 'or', 'xor', 'add', 'sub', 'mul') and (isc(a.a[1]) or w == 1):
            return ibin(a.op, icast('trunc', a.a[0], w), icast('trunc', a.a[1], w))
    if op == 'zext' and a.op == 'zext':
        return icast('zext', a.a[0], w)
    if op == 'sext' and a.op == 'sext':
        return icast('sext', a.a[0], w)
    if op == 'sext' and a.op == 'zext':
        return icast('zext', a.a[0], w)
    return mk(op, (a,), I(w))


_icm = {}


def icmp(pred, a, b):
    if a.k == P or b.k == P:
        return pcmp(pred, a, b)
    w = a.k[1]
    if a.op == 'p2i' and b.op == 'p2i' and w == 64 and pred[0] != 's' and a.a[0].op == b.a[0].op == 'ptr':
        return pcmp(pred, a.a[0], b.a[0])
    if pred == 'ne':
        return bnot(icmp('eq', a, b))
    if pred in ('ugt', 'sgt'):
        return icmp(pred[0] + 'lt', b, a)
    if pred in ('uge', 'sge'):
        return bnot(icmp(pred[0] + 'lt', a, b))
    if pred in ('ule', 'sle'):
        return bnot(icmp(pred[0] + 'lt', b, a))
    if isc(a) and isc(b):
        x, y = (sval(a), sval(b)) if pred == 'slt' else (a.a[0], b.a[0])
        return TRUE if (x == y if pred == 'eq' else x < y) else FALSE
    if a is b:
        return TRUE if pred == 'eq' else FALSE
    if w == 1 and pred == 'eq':
        return bnot(ibin('xor', a, b))
    if pred == 'eq' and isc(a):
        a, b = b, a
    if isc(b):
        if a.op in ('zext',) and pred in ('eq', 'ult'):
            sw = a.a[0].k[1]
            if b.a[0] <= mask(sw):
                return icmp(pred, a.a[0], ic(b.a[0], sw))
            return FALSE if pred == 'eq' else TRUE
        if a.op == 'zext' and pred == 'slt' and not (b.a[0] >> (w - 1)):
            return icmp('ult', a, b)
        if a.op == 'zext' and pred == 'slt':
            return FALSE
        if a.op == 'ite' and (isc(a.a[1]) or isc(a.a[2])):
            k = (pred, a.id, b.id)
            r = _icm.get(k)
            if r is None:
                r = _icm[k] = ite(a.a[0], icmp(pred, a.a[1], b), icmp(pred, a.a[2], b))
            return r
        if pred == 'ult' and b.a[0] == 0:
            return FALSE
        if pred == 'ult' and b.a[0] == 1:
            return icmp('eq', a, ic(0, w))
        if pred == 'eq' and a.op == 'add' and isc(a.a[1]):
            return icmp('eq', a.a[0], ic(b.a[0] - a.a[1].a[0], w))
    if isc(a) and b.op == 'zext' and pred in ('ult', 'slt'):
        sw = b.a[0].k[1]
        if pred == 'slt' and a.a[0] >> (w - 1):
            return TRUE
        if a.a[0] <= mask(sw):
            return icmp('ult', ic(a.a[0], sw), b.a[0])
        return FALSE
    if isc(a) and b.op == 'ite' and (isc(b.a[1]) or isc(b.a[2])):
        return ite(b.a[0], icmp(pred, a, b.a[1]), icmp(pred, a, b.a[2]))
    if a.op == 'zext' and b.op == 'zext' and a.a[0].k == b.a[0].k:
        return icmp('ult' if pred == 'slt' else pred, a.a[0], b.a[0])
    if pred == 'eq' and a.id > b.id and not isc(b):
        a, b = b, a
    return mk('icmp_' + pred, (a, b), I(1))


def pcmp(pred, a, b):
    if a is b:
        return TRUE if pred in ('eq', 'uge', 'ule', 'sge', 'sle') else FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite':
            f = lambda z: pcmp(pred, z, y) if x is a else pcmp(pred, y, z)
            return ite(x.a[0], f(x.a[1]), f(x.a[2]))
    if pred == 'ne':
        return bnot(pcmp('eq', a, b))
    if a.op == 'ptr' and b.op == 'ptr':
        if a.a[0] == b.a[0]:
            p = {'eq': 'eq', 'ult': 'ult', 'ugt': 'ugt', 'ule': 'ule', 'uge': 'uge', 'slt': 'slt', 'sgt': 'sgt'}[pred]
            return icmp(p, a.a[1], b.a[1])
        if pred == 'eq':
            return FALSE
        # storage is laid out in order of allocation
        return TRUE if (a.a[0] < b.a[0]) == (pred[1] == 'l') else FALSE
    if pred == 'eq':
        if {a.op, b.op} <= {'ptr', 'null', 'fn'}:
            return FALSE
    return mk('pcmp_' + pred, (a, b), I(1))


def ptr(obj, off):
    return mk('ptr', (obj, off), P)


def padd(p, off):
    """pointer + int expr"""
    if isc(off) and off.a[0] == 0:
        return p
    if p.op == 'ptr':
        return mk('ptr', (p.a[0], ibin('add', p.a[1], off)), P)
    if p.op == 'ite':
        return ite(p.a[0], padd(p.a[1], off), padd(p.a[2], off))
    if p.op == 'padd':
        return padd(p.a[0], ibin('add', p.a[1], off))
    return mk('padd', (p, off), P)


# ---- reals ----------------------------------------------------------------
def isr(n):
    return n.op == 'rc'


def fbin(op, a, b):
    if isr(a) and isr(b):
        x, y = a.a[0], b.a[0]
        try:
            if op == 'fadd':
                return rc(x + y)
            if op == 'fsub':
                return rc(x - y)
            if op == 'fmul':
                return rc(x * y)
            if op == 'fdiv' and y != 0:
                return rc(x / y)
        except OverflowError:
            pass
    if op == 'fadd':
        if isr(a) and a.a[0] == 0:
            return b
        if isr(b) and b.a[0] == 0:
            return a
        if a.id > b.id:
            a, b = b, a
    if op == 'fsub' and isr(b) and b.a[0] == 0:
        return a
    if op == 'fmul':
        for x, y in ((a, b), (b, a)):
            if isr(x) and x.a[0] == 1:
                return y
            if isr(x) and x.a[0] == 0:
                return x
        if a.id > b.id:
            a, b = b, a
    if op == 'fdiv' and isr(b) and b.a[0] == 1:
        return a
    if op == 'fsub' and a is b:
        return rc(0)
    return mk(op, (a, b), R)


def fneg(a):
    if isr(a):
        return rc(-a.a[0])
    if a.op == 'fneg':
        return a.a[0]
    return mk('fneg', (a,), R)


def fcmp(pred, a, b):
    p = pred
    if p == 'true':
        return TRUE
    if p == 'false':
        return FALSE
    if p == 'ord':
        return TRUE
    if p == 'uno':
        return FALSE
    p = p[1:]  # no-NaN reading: ordered and unordered predicates agree
    if p == 'ne':
        return bnot(fcmp('oeq', a, b))
    if p == 'gt':
        return fcmp('olt', b, a)
    if p == 'ge':
        return bnot(fcmp('olt', a, b))
    if p == 'le':
        return bnot(fcmp('olt', b, a))
    if isr(a) and isr(b):
        return TRUE if (a.a[0] == b.a[0] if p == 'eq' else a.a[0] < b.a[0]) else FALSE
    if a is b:
        return TRUE if p == 'eq' else FALSE
    if p == 'eq' and a.id > b.id:
        a, b = b, a
    return mk('fcmp_' + p, (a, b), I(1))


_MATH = {'sqrt': math.sqrt, 'fabs': abs, 'exp': math.exp, 'sin': math.sin, 'cos': math.cos, 'tan': math.tan,
         'log': math.log, 'asin': math.asin, 'acos': math.acos, 'atan': math.atan, 'floor': math.floor, 'ceil': math.ceil,
         'log10': math.log10, 'log2': math.log2, 'cbrt': lambda x: math.copysign(abs(x) ** (1 / 3), x), 'sinh': math.sinh, 'cosh': math.cosh, 'tanh': math.tanh, 'asinh': math.asinh}


def call(name, args, k=R):
    args = tuple(args)
    if all(isr(x) for x in args):
        try:
            if name in _MATH and len(args) == 1:
                return rc(_MATH[name](args[0].a[0]))
            if name == 'pow':
                return rc(args[0].a[0] ** args[1].a[0])
            if name == 'atan2':
                return rc(math.atan2(args[0].a[0], args[1].a[0]))
        except (ValueError, OverflowError, ZeroDivisionError, TypeError):
            pass
    if name == 'pow' and isr(args[1]):
        if args[1].a[0] == 1:
            return args[0]
        if args[1].a[0] == 0:
            return rc(1)
    return mk('call', (name,) + args, k)


def walk(roots):
    seen = set()
    st = list(roots)
    while st:
        n = st.pop()
        if not isinstance(n, N) or n.id in seen:
            continue
        seen.add(n.id)
        yield n
        st.extend(x for x in n.a if isinstance(x, N))


def symbols(roots):
    return {n.a[0] for n in walk(roots) if n.op == 's'}


def subst(n, m, memo=None):
    """replace nodes by id map m, rebuilding (simplifying constructors re-applied)"""
    memo = {} if memo is None else memo
    stack = [n]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        if x.id in m:
            memo[x.id] = m[x.id]
            stack.pop()
            continue
        todo = [y for y in x.a if isinstance(y, N) and y.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        a = tuple(memo[y.id] if isinstance(y, N) else y for y in x.a)
        memo[x.id] = rebuild(x, a)
    return memo[n.id]


def rebuild(x, a):
    if a == x.a:
        return x
    op = x.op
    if op == 'ite':
        return ite(*a)
    if op == 'not':
        return bnot(*a)
    if op == 'and' and x.k == I(1):
        return band(*a)
    if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
        return fbin(op, *a)
    if op == 'fneg':
        return fneg(*a)
    if op.startswith('fcmp_'):
        return fcmp('o' + op[5:], *a)
    if op.startswith('icmp_'):
        return icmp(op[5:], *a)
    if op in ('zext', 'sext', 'trunc'):
        return icast(op, a[0], x.k[1])
    if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
        return ibin(op, *a)
    if op == 'call':
        return call(a[0], a[1:], x.k)
    return mk(op, a, x.k)
