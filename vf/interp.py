"""Forward abstract interpreter over LLVM IR.

Domain: gated value expressions (vf.expr).  Every path of the analysed code is covered
at once: at a branch the domain cannot decide, both sides are analysed up to the
immediate post-dominator and the states are joined with `ite` gates.  Loops are followed
while the domain decides their exit; otherwise the analysis reports Incomplete.
"""
import sys
from . import expr as E
from .expr import N, ic, rc, ite, isc, TRUE, FALSE, NULL, mk, I, R, P, ptr, padd
from . import bdd
from .ir import callee

sys.setrecursionlimit(200000)
import threading
threading.stack_size(512 * 1024 * 1024)


class Incomplete(Exception):
    pass


class Obj:
    __slots__ = ('cells', 'init', 'size', 'name', 'const', 'regions', 'ro')

    def __init__(self, name, size, init):
        self.cells = {}
        self.init = init        # 'undef' | 'zero' | ('sym', name) | ('global', gname)
        self.size = size
        self.name = name
        self.regions = ()       # (off, size, init, srcoff)

    def copy(self):
        o = Obj(self.name, self.size, self.init)
        o.cells = dict(self.cells)
        o.regions = self.regions
        return o


class State:
    __slots__ = ('mem', 'own', 'events', 'dead')

    def __init__(self):
        self.mem = {}
        self.own = set()
        self.events = []

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        self.own = set()
        s.own = set()
        s.events = list(self.events)
        return s

    def w(self, oid):
        if oid not in self.own:
            self.mem[oid] = self.mem[oid].copy()
            self.own.add(oid)
        return self.mem[oid]


def kind(t):
    if t in ('double', 'float', 'x86_fp80'):
        return R
    if t == 'ptr':
        return P
    if isinstance(t, str) and t[0] == 'i' and t[1:].isdigit():
        return I(int(t[1:]))
    return None


def tsize(t):
    if isinstance(t, list):
        if t[0] == 's':
            return max([o + tsize(x) for o, x in t[1:]] or [0])
        return t[1] * t[2]
    return {'double': 8, 'float': 4, 'ptr': 8, 'x86_fp80': 16}.get(t) or (int(t[1:]) + 7) // 8


def undef(k, why=''):
    return mk('undef', (why,), k)


class Frame:
    __slots__ = ('fn', 'env', 'allocas', 'visits')


IGNORE_PREFIX = ('std::ostream', 'std::basic_ostream', 'std::operator<<', 'std::endl', 'std::ios', 'std::basic_ios',
                 'std::locale', 'std::cout', 'std::flush') + tuple('flecsph::%s_log_message_t::' % x for x in ('trace', 'info', 'warn', 'error', 'utility', 'devel'))


class Interp:
    def __init__(self, mod, models=None, pins=None, maxinst=20000000, maxvisit=600, trace=False):
        self.m = mod
        self.models = dict(models or {})
        self.mprefix = [(k[:-1], v) for k, v in self.models.items() if k.endswith('*')]
        self.pins = pins or {}
        self.nobj = 0
        self.gobj = {}
        self.funcs = set()
        self.ninst = 0
        self.nbranch = 0
        self.maxinst = maxinst
        self.maxvisit = maxvisit
        self.assume = []
        self.asset = {}
        self.trace = trace
        self.ignored = {}
        self.stack = []
        self.undecided = []
        self.simp = {}
        self.inits = {}
        self.labels = {}
        self.cellmax = 4096
        self.sym_fn = None
        self.fpc = {}
        self.loops_hint = None
        self.bitdom = True
        self.nulls = []     # accesses through a null pointer
        self.wild = {}      # stores beyond an object: place -> object
        self.gwrites = {}
        self.inguard = 0
        self.oracle = None      # decides comparisons of reals in the region under analysis
        self.gset = {}
        self.fninit = False  # mutable pointer globals hold their initialisers

    # ---- objects ------------------------------------------------------------
    def new(self, st, name, size=None, init='undef'):
        self.nobj += 1
        oid = self.nobj
        o = Obj(name, size, init)
        st.mem[oid] = o
        st.own.add(oid)
        return oid

    def alloc(self, st, name, size=None, init='undef'):
        return ptr(self.new(st, name, size, init), ic(0, 64))

    def symarr(self, st, name, cells, default=None):
        """object with named symbolic cells: list of (kind) or (off,size,kind,name)"""
        oid = self.new(st, name, None, 'undef' if default is None else default)
        off = 0
        for i, c in enumerate(cells):
            if isinstance(c, N):
                v, s = c, ksize(c.k)
                st.mem[oid].cells[off] = (s, v)
                off += s
        st.mem[oid].size = off
        return ptr(oid, ic(0, 64))

    def globalobj(self, st, g):
        oid = self.gobj.get(g)
        if oid is None:
            j = self.m.globals.get(g)
            self.nobj += 1
            oid = self.gobj[g] = self.nobj
            self.gset[oid] = g
        if oid not in st.mem:
            j = self.m.globals.get(g)
            if j is None:
                o = Obj(g, None, ('sym', '@' + g))
            else:
                o = Obj('@' + j['d'], j['sz'], ('global', g) if (j['const'] or g in self.inits) and j['init'] is not None else ('sym', '@' + j['d']))
                pin = self.pins.get(j['d'], self.pins.get(g))
                if self.fninit and pin is None and j['init'] is not None and j['init'][0] in ('g', 'gep') and (kind(j['t']) == P):
                    pin = 'init'
                if pin is not None:
                    if isinstance(pin, N):
                        o.cells[0] = (ksize(pin.k), pin)
                    elif pin == 'init':
                        if j['init'] is not None or not self.fninit:
                            o.init = ('global', g)
                    elif isinstance(pin, dict):
                        for off, v in pin.items():
                            o.cells[off] = (ksize(v.k), v)
                if j['init'] is not None and (j['t'] == 'i64' or j['t'] == 'i8') and g.startswith('_ZGV'):
                    o.init = 'zero'
            st.mem[oid] = o
        return oid

    # constant initialisers: find the scalar at (off,size)
    def cinit(self, c, t, off, size, k):
        if c is None:
            return None
        tag = c[0] if isinstance(c, list) else None
        if tag == 'zero':
            return zero(k)
        if tag == 'str':
            s = [ord(x) for x in c[1]]
            v = 0
            for b in range(size):
                v |= (s[off + b] if off + b < len(s) else 0) << (8 * b)
            return ic(v, size * 8)
        if tag == 'agg':
            es = c[1]
            i = off // es
            if i >= len(c) - 2:
                return None
            et = t[3] if isinstance(t, list) and t[0] == 'a' else None
            if off % es + size > es:
                # spans elements of integer type
                v, o2 = 0, off
                for b in range(0, size, es):
                    x = self.cinit(c[2 + (off + b) // es], et, 0, es, I(es * 8))
                    if x is None or not isc(x):
                        return None
                    v |= x.a[0] << (8 * b)
                return ic(v, size * 8)
            return self.cinit(c[2 + i], et, off - i * es, size, k)
        if tag == 'sagg':
            best = None
            for o, v, ty in c[1:]:
                if o <= off and off + size <= o + max(tsize(ty), 1):
                    best = (o, v, ty)
            if best is None:
                return None
            return self.cinit(best[1], best[2], off - best[0], size, k)
        if tag == 'undef':
            return undef(k)
        v = self.const(c, t, None)
        if off == 0 and v.k == k and (k == R or k == P or v.k[1] == size * 8):
            return v
        if v.k != R and v.k != P and isc(v):
            return ic(v.a[0] >> (8 * off), size * 8)
        if off == 0 and size == ksize(v.k):
            return v
        return None

    # ---- values ---------------------------------------------------------------
    def const(self, c, t, st):
        tag = c[0]
        if tag == 'i':
            return ic(int(c[2]), c[1])
        if tag == 'f':
            v = c[1]
            return rc(float(v)) if v not in ('nan', '-nan') else E.sym('NAN', R)
        if tag == 'null':
            return NULL
        if tag == 'g':
            if c[1] in self.m.fns:
                return mk('fn', (c[1],), P)
            return mk('gref', (c[1],), P)
        if tag == 'undef':
            return undef(kind(t) or 'a')
        if tag == 'gep':
            b = self.const(c[1], 'ptr', st)
            return padd(b, ic(c[2], 64))
        if tag == 'zero':
            return zero(kind(t)) if kind(t) else self.zagg(t)
        if tag == 'ce':
            ops = [self.const(x, None, st) for x in c[3:]]
            if c[1] in ('inttoptr', 'ptrtoint', 'bitcast', 'addrspacecast'):
                return ops[0]
            if c[1] in ('sub', 'add', 'mul'):
                return E.ibin(c[1], ops[0], ops[1])
        if tag in ('agg', 'sagg') and kind(t) is None:
            xs = c[2:] if tag == 'agg' else [x[1] for x in c[1:]]
            ts = [t[3]] * len(xs) if tag == 'agg' else [x[2] for x in c[1:]]
            return mk('agg', tuple(self.const(x, y, st) for x, y in zip(xs, ts)), 'a')
        if tag == 'md':
            return undef(P)
        if tag == 'unk':
            return undef(kind(t) or 'a')
        raise Incomplete('constant %s' % (c[:2],))

    def zagg(self, t):
        if t[0] == 's':
            return mk('agg', tuple(zero(kind(x)) if kind(x) else self.zagg(x) for _, x in t[1:]), 'a')
        return mk('agg', tuple(zero(kind(t[3])) if kind(t[3]) else self.zagg(t[3]) for _ in range(t[1])), 'a')

    def val(self, v, t, fr, st):
        if type(v) is int:
            return fr.env[v]
        x = self.const(v, t, st)
        if x.k == P:
            x = self.resolve(x, st)
        return x

    def resolve(self, x, st):
        if x.op == 'gref':
            return ptr(self.globalobj(st, x.a[0]), ic(0, 64))
        if x.op == 'padd' and x.a[0].op == 'gref':
            return padd(ptr(self.globalobj(st, x.a[0].a[0]), ic(0, 64)), x.a[1])
        return x

    # ---- conditions -------------------------------------------------------------
    def decide(self, c):
        if isc(c):
            return bool(c.a[0])
        r = self.asset.get(c.id)
        if r is not None:
            return r
        if self.asset:
            c = self.simplify(c)
            if isc(c):
                return bool(c.a[0])
        if not self.bitdom:
            return None
        if c.id in self.fpc:
            r = self.fpc[c.id]
        else:
            r = bdd.decide(c)
            if len(self.fpc) > 100000:
                self.fpc.clear()
            self.fpc[c.id] = r
        if r is not None:
            return bool(r)
        if self.oracle is not None:
            r = self.oracle(c)
            if r is not None:
                return r
        # decided under the integer assumptions?
        if self.asset and c.k == I(1):
            hyp = TRUE
            fs = E.symbols([c])
            for a, v in self.assume[-12:]:
                if a.op.startswith('fcmp'):
                    continue
                if fs & E.symbols([a]):
                    hyp = E.band(hyp, a if v else E.bnot(a))
            if hyp is not TRUE:
                if bdd.decide(E.band(hyp, c)) == 0:
                    return False
                if bdd.decide(E.band(hyp, E.bnot(c))) == 0:
                    return True
        return None

    def simplify(self, n):
        """evaluate under the current assumptions"""
        key = self.askey()
        memo = self.simp.setdefault(key, {})
        if len(self.simp) > 50:
            self.simp = {key: memo}
        m = {k: (TRUE if v else FALSE) for k, v in self.asset.items()}
        return E.subst(n, m, dict(memo) if False else memo)

    def askey(self):
        return tuple(sorted(self.asset.items()))

    def push(self, c, v):
        """assume c == v"""
        todo = [(c, v)]
        while todo:
            c, v = todo.pop()
            self.assume.append((c, v))
            self.asset[c.id] = v
            if c.op == 'not':
                todo.append((c.a[0], not v))
            if c.op == 'and' and c.k == I(1) and v:
                todo += [(c.a[0], True), (c.a[1], True)]
            if c.op == 'fcmp_lt' and v:
                for n in (E.fcmp('olt', c.a[1], c.a[0]), E.fcmp('oeq', c.a[0], c.a[1])):
                    if not isc(n) and n.id not in self.asset:
                        self.assume.append((n, False))
                        self.asset[n.id] = False
            if c.op == 'fcmp_eq' and v:
                for n in (E.fcmp('olt', c.a[1], c.a[0]), E.fcmp('olt', c.a[0], c.a[1])):
                    if not isc(n) and n.id not in self.asset:
                        self.assume.append((n, False))
                        self.asset[n.id] = False

    def pop(self, mark):
        while len(self.assume) > mark:
            c, _ = self.assume.pop()
            self.asset.pop(c.id, None)
        for c, v in self.assume:
            self.asset[c.id] = v

    # ---- memory -----------------------------------------------------------------
    def load(self, st, p, size, k):
        if p.op == 'ite':
            r = self.decide(p.a[0])
            if r is not None:
                return self.load(st, p.a[1] if r else p.a[2], size, k)
            a = self.load(st, p.a[1], size, k)
            b = self.load(st, p.a[2], size, k)
            return ite(p.a[0], a, b)
        if p.op in ('gref',) or (p.op == 'padd' and p.a[0].op == 'gref'):
            p = self.resolve(p, st)
        if p.op == 'null' or p.op == 'undef' or p.op == 'padd' and p.a[0].op == 'null':
            self.nulls.append(self.where())
            return undef(k, 'null load')
        if p.op != 'ptr':
            if self.sym_fn:
                v = self.sym_fn(self, st, p, size, k)
                if v is not None:
                    return v
            r = p.a[0] if p.op == 'padd' else p
            if r.op == 's' and str(r.a[0]).startswith('@std::c'):
                # inside a standard stream: only its virtual table matters, to find the base class
                return ic(0, 64) if k == E.I(64) else E.sym('@std::clog', k)
            raise Incomplete('load through unknown pointer %s in %s' % (E.show(p, 4), self.where()))
        oid, off = p.a
        if not isc(off):
            off = self.simplify(off) if self.asset else off
        if isc(off):
            return self.loadc(st, oid, E.sval(off), size, k)
        lv = E.leaves(off)
        if lv and all(isc(x) for _, x in lv):
            r = self.loadc(st, oid, E.sval(lv[-1][1]), size, k)
            for c, x in reversed(lv[:-1]):
                r = ite(c, self.loadc(st, oid, E.sval(x), size, k), r)
            return r
        cand = self.offsets(st, oid, off, size)
        if cand is None:
            raise Incomplete('load at unknown offset %s of %s in %s' % (E.show(off, 4), st.mem[oid].name, self.where()))
        r = None
        for o in reversed(cand):
            v = self.loadc(st, oid, o, size, k)
            r = v if r is None else ite(E.icmp('eq', off, ic(o, 64)), v, r)
        return r

    def offsets(self, st, oid, off, size):
        """concrete candidates for a symbolic in-bounds offset"""
        o = st.mem[oid]
        sz = o.size
        if sz is None:
            sz = max([a + s for a, (s, _) in o.cells.items()] or [0])
        base, step = 0, size
        if off.op == 'add' and isc(off.a[1]):
            base = E.sval(off.a[1])
            off = off.a[0]
        if off.op == 'mul' and isc(off.a[1]):
            step = off.a[1].a[0]
        elif off.op == 'shl' and isc(off.a[1]):
            step = 1 << off.a[1].a[0]
        elif off.op in ('mul', 'shl'):
            return None
        if step == 0:
            return [base]
        lo = base % step
        n = (sz - lo) // step + 1
        if n > self.cellmax:
            return None
        c = [x for x in range(lo, sz - size + 1, step)]
        return c or None

    def initval(self, st, o, init, off, size, k):
        if init == 'undef':
            return undef(k, 'uninit %s+%d' % (o.name, off))
        if init == 'zero':
            return zero(k)
        if init[0] == 'sym':
            return self.symcell(init[1], off, size, k)
        if init[0] == 'fun':
            return init[1](off, size, k)
        if init[0] == 'global':
            j = self.m.globals[init[1]]
            v = self.cinit(j['init'], j['t'], off, size, k)
            if v is None:
                raise Incomplete('initialiser of %s at %d' % (init[1], off))
            if v.k == P:
                v = self.resolve(v, st)
            return v
        raise Incomplete('init')

    def symcell(self, name, off, size, k):
        if k != R and k != P and k[1] != size * 8:
            return E.icast('trunc', E.sym('%s+%d' % (name, off) if off else name, I(size * 8)), k[1])
        return E.sym('%s+%d' % (name, off) if off else name, k)

    def rawinit(self, st, o, off, size, k):
        for ro, rs, init, so in reversed(o.regions):
            if ro <= off and off + size <= ro + rs:
                return self.initval(st, o, init, off - ro + so, size, k)
        return self.initval(st, o, o.init, off, size, k)

    def loadc(self, st, oid, off, size, k):
        o = st.mem[oid]
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            return conv(c[1], k)
        ov = self.overlap(o, off, size)
        if not ov:
            v = self.rawinit(st, o, off, size, k)
            if o.init != 'undef' and v.op != 'undef' and size <= 16 and v.k == k and (k == R or k == P or k[1] == size * 8):
                pass
            return v
        # assemble from pieces
        if len(ov) == 1 and ov[0] <= off and off + size <= ov[0] + o.cells[ov[0]][0]:
            s, v = o.cells[ov[0]]
            v = toint(v, s)
            if v.op == 'undef':
                return undef(k)
            v = E.icast('trunc', E.ibin('lshr', v, ic(8 * (off - ov[0]), 8 * s)), 8 * size)
            return conv(v, k)
        w = 8 * size
        acc = ic(0, w)
        pos = off
        while pos < off + size:
            cc = [a for a in ov if a <= pos < a + o.cells[a][0]]
            if cc:
                a = cc[0]
                s, v = o.cells[a]
                v = toint(v, s)
                n = min(a + s, off + size) - pos
                if v.op == 'undef':
                    v = undef(I(8 * n))
                else:
                    v = E.icast('trunc', E.ibin('lshr', v, ic(8 * (pos - a), 8 * s)), 8 * n)
            else:
                nx = min([a for a in ov if a > pos] + [off + size])
                n = nx - pos
                v = self.rawinit(st, o, pos, n, I(8 * n))
            if v.op == 'undef':
                v = ic(0, 8 * n) if True else v
            acc = E.ibin('or', acc, E.ibin('shl', E.icast('zext', v, w), ic(8 * (pos - off), w)))
            pos += n
        return conv(acc, k)

    def overlap(self, o, off, size):
        if len(o.cells) > 3 * size + 32:
            return [a for a in range(off - 31, off + size) if a in o.cells and a + o.cells[a][0] > off]
        return sorted(a for a, (s, _) in o.cells.items() if a < off + size and a + s > off)

    def storec(self, st, oid, off, size, v):
        if oid in self.gset and not self.inguard and not self.gset[oid].startswith('_ZGV'):
            self.gwrites.setdefault(self.gset[oid], self.where())
        o = st.w(oid)
        c = o.cells.get(off)
        if c is None or c[0] != size:
            ov = self.overlap(o, off, size)
            for a in ov:
                s, x = o.cells[a]
                del o.cells[a]
                if a < off:
                    n = off - a
                    o.cells[a] = (n, E.icast('trunc', toint(x, s), 8 * n) if x.op != 'undef' else undef(I(8 * n)))
                if a + s > off + size:
                    n = a + s - off - size
                    xi = toint(x, s)
                    o.cells[off + size] = (n, E.icast('trunc', E.ibin('lshr', xi, ic(8 * (s - n), 8 * s)), 8 * n) if x.op != 'undef' else undef(I(8 * n)))
        o.cells[off] = (size, v)

    def store(self, st, p, size, v):
        if p.op in ('gref',) or (p.op == 'padd' and p.a[0].op == 'gref'):
            p = self.resolve(p, st)
        if v.op == 'agg':
            raise Incomplete('aggregate store without type')
        if p.op == 'ite':
            r = self.decide(p.a[0])
            if r is not None:
                return self.store(st, p.a[1] if r else p.a[2], size, v)
            for q, sel in ((p.a[1], True), (p.a[2], False)):
                old = self.load(st, q, size, v.k)
                self.store(st, q, size, ite(p.a[0], v, old) if sel else ite(p.a[0], old, v))
            return
        if p.op == 'null' or p.op == 'undef' or (p.op == 'padd' and p.a[0].op == 'null'):
            self.nulls.append(self.where())
            return
        if p.op != 'ptr':
            raise Incomplete('store through unknown pointer %s in %s' % (E.show(p, 4), self.where()))
        oid, off = p.a
        if not isc(off) and self.asset:
            off = self.simplify(off)
        if isc(off):
            n = st.mem[oid].size
            if n is not None and not 0 <= E.sval(off) <= n - size:
                self.wild[self.where()] = '%s, %d bytes, at %d' % (st.mem[oid].name, n, E.sval(off))
            return self.storec(st, oid, E.sval(off), size, v)
        lv = E.leaves(off)
        if lv and all(isc(x) for _, x in lv):
            offs = sorted({E.sval(x) for _, x in lv})
        else:
            offs = self.offsets(st, oid, off, size)
        if offs is None:
            raise Incomplete('store at unknown offset %s of %s in %s' % (E.show(off, 4), st.mem[oid].name, self.where()))
        for o in offs:
            old = self.loadc(st, oid, o, size, v.k)
            self.storec(st, oid, o, size, ite(E.icmp('eq', off, ic(o, 64)), v, old))

    def storet(self, st, p, t, v, size):
        """typed store incl. aggregates"""
        if kind(t) is None:
            if v.op == 'undef':
                return
            if v.op == 'ite':
                # push the gate inside
                v = mk('agg', tuple(ite(v.a[0], x, y) for x, y in zip(agg(v.a[1]), agg(v.a[2]))), 'a')
            els = t[1:] if t[0] == 's' else [(i * t[2], t[3]) for i in range(t[1])]
            for (o, et), x in zip(els, v.a):
                self.storet(st, padd(p, ic(o, 64)), et, x, tsize(et))
            return
        self.store(st, p, size, v)

    def loadt(self, st, p, t, size):
        k = kind(t)
        if k is None:
            if isinstance(t, str):
                raise Incomplete('type %s in %s' % (t, self.where()))
            els = t[1:] if t[0] == 's' else [(i * t[2], t[3]) for i in range(t[1])]
            return mk('agg', tuple(self.loadt(st, padd(p, ic(o, 64)), et, tsize(et)) for o, et in els), 'a')
        if k != R and k != P and k[1] % 8:
            v = self.load(st, p, size, I(size * 8))
            if v.op == 'undef':
                return undef(k, v.a[0])
            return E.icast('trunc', v, k[1])
        return self.load(st, p, size, k)

    def memcpy(self, st, d, s, n):
        if isc(n) and n.a[0] == 0:
            return
        d = self.pick(self.resolve(d, st))
        s = self.pick(self.resolve(s, st))
        if not isc(n):
            n = self.simplify(n)
        if not isc(n):
            raise Incomplete('memcpy of unknown size %s in %s' % (E.show(n, 4), self.where()))
        n = n.a[0]
        if s.op == 'ite' and d.op == 'ptr':
            a, b = st.fork(), st.fork()
            self.memcpy(a, d, s.a[1], ic(n, 64))
            self.memcpy(b, d, s.a[2], ic(n, 64))
            m = self.merge(s.a[0], a, b)
            st.mem, st.own = m.mem, m.own
            return
        if d.op != 'ptr' or s.op != 'ptr' or not isc(d.a[1]) or not isc(s.a[1]):
            if 'null' in (d.op, s.op):
                return
            # symbolic offset: word copy
            if n <= 256:
                step = 8 if n % 8 == 0 else 1
                vals = [self.load(st, padd(s, ic(i, 64)), step, self.cellkind(st, s, i, step)) for i in range(0, n, step)]
                for i, v in zip(range(0, n, step), vals):
                    self.store(st, padd(d, ic(i, 64)), step, v)
                return
            raise Incomplete('memcpy %s <- %s in %s' % (E.show(d, 3), E.show(s, 3), self.where()))
        do, doff, so, soff = d.a[0], E.sval(d.a[1]), s.a[0], E.sval(s.a[1])
        src = st.mem[so]
        ov = self.overlap(src, soff, n) if n < 100000 else sorted(a for a in src.cells if soff <= a < soff + n)
        cells = []
        for a in ov:
            sz, v = src.cells[a]
            if a < soff or a + sz > soff + n:
                lo, hi = max(a, soff), min(a + sz, soff + n)
                v = self.loadc(st, so, lo, hi - lo, I(8 * (hi - lo)))
                cells.append((lo, hi - lo, v))
            else:
                cells.append((a, sz, v))
        dst = st.w(do)
        # drop old destination cells
        for a in [a for a, (z, _) in dst.cells.items() if a < doff + n and a + z > doff]:
            z, v = dst.cells[a]
            if a < doff or a + z > doff + n:
                self.storec(st, do, max(a, doff), min(a + z, doff + n) - max(a, doff), ic(0, 8 * (min(a + z, doff + n) - max(a, doff))))
                dst = st.w(do)
                dst.cells.pop(max(a, doff), None)
            else:
                del dst.cells[a]
        regs = [r for r in dst.regions if not (doff <= r[0] and r[0] + r[1] <= doff + n)]
        regs.append((doff, n, src.init, soff))
        for ro, rs, init, io in src.regions:
            lo, hi = max(ro, soff), min(ro + rs, soff + n)
            if lo < hi:
                regs.append((lo - soff + doff, hi - lo, init, io + lo - ro))
        dst.regions = tuple(regs)
        for a, sz, v in cells:
            dst.cells[a - soff + doff] = (sz, v)

    def cellkind(self, st, p, i, size):
        q = self.pick(p)
        while q.op == 'ite':
            q = q.a[1] if q.a[1].op != 'null' else q.a[2]
        if q.op != 'ptr':
            raise Incomplete('copy from %s in %s' % (E.show(q, 3), self.where()))
        o = st.mem[q.a[0]]
        ks = {v.k for s, v in o.cells.values() if s == size}
        return ks.pop() if len(ks) == 1 else I(8 * size)

    def memset(self, st, d, v, n):
        d = self.pick(self.resolve(d, st))
        if not isc(n):
            n = self.simplify(n)
        if not isc(n) or d.op != 'ptr' or not isc(d.a[1]):
            if isc(n) and n.a[0] == 0:
                return
            raise Incomplete('memset in %s' % self.where())
        n = n.a[0]
        if n == 0:
            return
        do, doff = d.a[0], E.sval(d.a[1])
        dst = st.w(do)
        for a in [a for a, (z, _) in dst.cells.items() if a < doff + n and a + z > doff]:
            z = dst.cells[a][0]
            if a < doff or a + z > doff + n:
                lo, hi = max(a, doff), min(a + z, doff + n)
                self.storec(st, do, lo, hi - lo, ic(0, 8 * (hi - lo)))
                dst = st.w(do)
                dst.cells.pop(lo, None)
            else:
                del dst.cells[a]
        if isc(v) and v.a[0] == 0:
            init = 'zero'
        else:
            b = v

            def f(off, size, k, b=b):
                w = 8 * size
                x = E.icast('zext', b, w)
                acc = ic(0, w)
                for i in range(size):
                    acc = E.ibin('or', acc, E.ibin('shl', x, ic(8 * i, w)))
                return conv(acc, k)
            init = ('fun', f)
        dst.regions = tuple(r for r in dst.regions if not (doff <= r[0] and r[0] + r[1] <= doff + n)) + ((doff, n, init, 0),)

    def pick(self, p):
        while p.op == 'ite':
            r = self.decide(p.a[0])
            if r is None:
                return p
            p = p.a[1] if r else p.a[2]
        return p

    def merge(self, c, a, b):
        """join of two states, a under c"""
        if a is None:
            return b
        if b is None:
            return a
        out = State()
        for oid in a.mem.keys() | b.mem.keys():
            x, y = a.mem.get(oid), b.mem.get(oid)
            if x is y or y is None:
                out.mem[oid] = x
                continue
            if x is None:
                out.mem[oid] = y
                continue
            o = Obj(x.name, x.size, x.init)
            if x.regions == y.regions:
                o.regions = x.regions
                cells = {}
                for off in sorted(x.cells.keys() | y.cells.keys()):
                    p, q = x.cells.get(off), y.cells.get(off)
                    if p is not None and q is not None and p[0] == q[0]:
                        if p[1] is q[1]:
                            cells[off] = p
                        else:
                            cells[off] = (p[0], self.gate(c, p[1], q[1], p[0]))
                        continue
                    s = p or q
                    if p and q and p[0] != q[0]:
                        s = p if p[0] > q[0] else q
                    k = s[1].k
                    if any(e <= off < e + z[0] for e, z in cells.items()):
                        continue
                    v1 = self.loadc(a, oid, off, s[0], k)
                    v2 = self.loadc(b, oid, off, s[0], k)
                    cells[off] = (s[0], self.gate(c, v1, v2, s[0]))
                o.cells = cells
            else:
                # materialise over both
                offs = {}
                for z in (x, y):
                    for off, (s, v) in z.cells.items():
                        if off not in offs or offs[off][0] < s:
                            offs[off] = (s, v.k)
                cover = set()
                for off in sorted(offs):
                    s, k = offs[off]
                    if off in cover:
                        continue
                    cover.update(range(off, off + s))
                    o.cells[off] = (s, self.gate(c, self.loadc(a, oid, off, s, k), self.loadc(b, oid, off, s, k), s))
                rx, ry = [r for r in x.regions if r not in y.regions], [r for r in y.regions if r not in x.regions]
                o.regions = tuple(r for r in x.regions if r in y.regions)
                for r in rx + ry:
                    # every byte of a differing region must be covered by cells or be a cheap constant
                    pos = r[0]
                    while pos < r[0] + r[1]:
                        if pos in cover:
                            pos += 1
                            continue
                        n = 8 if pos % 8 == 0 and all(q not in cover for q in range(pos, pos + 8)) and pos + 8 <= r[0] + r[1] else 1
                        k = I(8 * n)
                        if n == 8:
                            k = self.guesskind(x, y, pos) or k
                        o.cells[pos] = (n, self.gate(c, self.loadc(a, oid, pos, n, k), self.loadc(b, oid, pos, n, k), n))
                        cover.update(range(pos, pos + n))
                        pos += n
                        if len(o.cells) > 100000:
                            raise Incomplete('merge of large regions')
            out.mem[oid] = o
            out.own.add(oid)
        n = 0
        while n < len(a.events) and n < len(b.events) and a.events[n] is b.events[n]:
            n += 1
        ev = a.events[:n]
        ev += [(E.band(c, g), e) for g, e in a.events[n:]]
        ev += [(E.band(E.bnot(c), g), e) for g, e in b.events[n:]]
        out.events = ev
        return out

    def guesskind(self, x, y, pos):
        for z in (x, y):
            ks = {v.k for s, v in z.cells.values() if s == 8}
            if len(ks) == 1:
                return ks.pop()
        return None

    def gate(self, c, x, y, size):
        if x.op == 'undef':
            return y if y.op == 'undef' else self.gate2(c, x, y, size)
        return self.gate2(c, x, y, size)

    def gate2(self, c, x, y, size):
        if x.k != y.k:
            if x.op == 'undef':
                x = undef(y.k, x.a[0])
            elif y.op == 'undef':
                y = undef(x.k, y.a[0])
            else:
                x, y = toint(x, size), toint(y, size)
        return ite(c, x, y)

    # ---- execution ------------------------------------------------------------------
    def where(self):
        return ' < '.join(f.fn.dem[:90] for f in reversed(self.stack[-4:]))

    def run(self, name, args, st=None):
        st = st or State()
        f = self.m.fns[name]
        res = []

        def go():
            try:
                res.append(self.callfn(f, args, st))
            except BaseException as e:  # noqa
                res.append(e)
        if threading.current_thread() is threading.main_thread():
            t = threading.Thread(target=go)
            t.start()
            t.join()
        else:
            go()
        if isinstance(res[0], BaseException):
            raise res[0]
        return res[0]

    def callfn(self, f, args, st):
        if len(self.stack) > 300:
            raise Incomplete('call depth in %s' % self.where())
        self.funcs.add(f.name)
        fr = Frame()
        fr.fn = f
        fr.env = {}
        fr.visits = {}
        for a, v in zip(f.args, args):
            if len(a) > 2 and a[2] == 'byval':
                p = self.alloc(st, 'byval', a[3])
                self.memcpy(st, p, v, ic(a[3], 64))
                v = p
            fr.env[a[0]] = v
        f.ipdom(self.m.noret)
        self.stack.append(fr)
        r = self.seq(fr, st, f.entry, None, 'X')
        self.stack.pop()
        if r is None:
            return None
        st, rv = r[0], r[1]
        return st, rv

    def seq(self, fr, st, b, pred, stop):
        """run from block b (entered from pred) until `stop`; returns (state, value|phis) or None"""
        f = fr.fn
        while True:
            if b == stop:
                ph = {}
                for i in f.blocks[b]:
                    if i[1] != 'phi':
                        break
                    for pb, v in i[3:-1]:
                        if pb == pred:
                            ph[i[0]] = self.val(v, i[2], fr, st)
                            break
                return st, ph
            blk = f.blocks[b]
            n = fr.visits.get(b, 0) + 1
            fr.visits[b] = n
            if n > 200000:
                raise Incomplete('loop bound in %s line %s' % (self.where(), blk[-1][-1].get('l')))
            idx = 0
            if pred is not None:
                new = {}
                while blk[idx][1] == 'phi':
                    i = blk[idx]
                    for pb, v in i[3:-1]:
                        if pb == pred:
                            new[i[0]] = self.val(v, i[2], fr, st)
                            break
                    idx += 1
                fr.env.update(new)
            r = self.straight(fr, st, blk, idx)
            if r is None:
                return None
            st = r
            t = blk[-1]
            op = t[1]
            if op == 'br':
                if len(t) == 5:
                    pred, b = b, t[3]
                    continue
                c = self.val(t[3], 'i1', fr, st)
                targets = [(c, t[4]), (None, t[5])]
            elif op == 'invoke':
                pred, b = b, t[-3]
                continue
            elif op == 'ret':
                v = self.val(t[3], f.ret, fr, st) if f.ret != 'void' and len(t) > 4 else None
                return st, v
            elif op == 'switch':
                c = self.val(t[3], None, fr, st)
                targets = []
                for cv, d in t[5]:
                    targets.append((E.icmp('eq', c, self.const(cv, None, st)), d))
                targets.append((None, t[4]))
            elif op in ('unreachable', 'resume'):
                return None
            else:
                raise Incomplete('terminator %s' % op)
            # choose
            live = []
            for c, d in targets:
                if c is None:
                    live.append((None, d))
                    break
                if c.op == 'undef':
                    self.undecided.append((self.where(), t[-1].get('l')))
                    c = E.sym('undef@%s:%s' % (f.name, t[0]), I(1))
                q = self.decide(c)
                if q is False:
                    continue
                if q is True:
                    live.append((None, d))
                    break
                live.append((c, d))
            live = [(c, d) for c, d in live if d in f.okblocks] or live
            if len(live) == 1:
                pred, b = b, live[0][1]
                if b not in f.okblocks and not self.reach_ok(f, b):
                    return None
                continue
            if live[-1][0] is not None:
                live[-1] = (None, live[-1][1])
            if len({d for _, d in live}) == 1:
                # same target: phis may still differ, treat as a plain fork when they do
                pred, b = b, live[0][1]
                continue
            j = f.ipdom(self.m.noret).get(b)
            if j is None:
                return None
            nv = fr.visits.get(('f', b), 0) + 1
            fr.visits[('f', b)] = nv
            if nv > self.maxvisit:
                raise Incomplete('undecided loop at line %s in %s: %s' % (t[-1].get('l'), self.where(), E.show(live[0][0], 4)))
            self.nbranch += 1
            r = self.forks(fr, st, b, live, j)
            if r is None:
                return None
            st, ph = r
            if j == 'X':
                return st, ph
            fr.env.update(ph)
            pred, b = None, j
            # phis of j are already set; execute rest of j
            if j == stop:
                return st, ph
            blk = f.blocks[j]

    def reach_ok(self, f, b):
        return b in f.okblocks

    def forks(self, fr, st, b, live, j):
        (c, d) = live[0]
        if len(live) == 1:
            env = fr.env
            fr.env = dict(env)
            r = self.seq(fr, st, d, b, j)
            fr.env = env
            return r
        mark = len(self.assume)
        vis = fr.visits
        s2 = st.fork()
        env = fr.env
        self.push(c, True)
        fr.env = dict(env)
        fr.visits = dict(vis)
        r1 = self.seq(fr, st, d, b, j)
        self.pop(mark)
        self.push(c, False)
        fr.env = dict(env)
        fr.visits = dict(vis)
        r2 = self.forks(fr, s2, b, live[1:], j) if len(live) > 2 else self.seq(fr, s2, live[1][1], b, j)
        self.pop(mark)
        fr.env = env
        fr.visits = vis
        if r1 is None:
            return r2
        if r2 is None:
            return r1
        s = self.merge(c, r1[0], r2[0])
        if j == 'X':
            a, bb = r1[1], r2[1]
            if a is None:
                return s, None
            return s, (a if a is bb else self.gatev(c, a, bb))
        ph = {}
        for k in r1[1].keys() | r2[1].keys():
            x, y = r1[1].get(k), r2[1].get(k)
            ph[k] = x if y is None else y if x is None else x if x is y else self.gatev(c, x, y)
        return s, ph

    def gatev(self, c, a, b):
        if a.op == 'undef' and b.op != 'undef' and a.k != b.k:
            a = undef(b.k)
        return ite(c, a, b)

    def straight(self, fr, st, blk, idx):
        env = fr.env
        val = self.val
        for i in blk[idx:]:
            op = i[1]
            if op == 'phi':
                continue
            self.ninst += 1
            if self.ninst > self.maxinst:
                raise Incomplete('instruction budget in %s' % self.where())
            if op in ('br', 'switch', 'ret', 'unreachable', 'resume'):
                return st
            t = i[2]
            if op == 'load':
                env[i[0]] = self.loadt(st, val(i[3], 'ptr', fr, st), t, i[4])
            elif op == 'store':
                v = val(i[3], i[4], fr, st)
                p = val(i[5], 'ptr', fr, st)
                if kind(i[4]) is None:
                    self.storet(st, p, i[4], v, i[6])
                else:
                    k = kind(i[4])
                    if k != R and k != P and k[1] % 8:
                        v = E.icast('zext', v, 8 * i[6]) if v.op != 'undef' else undef(I(8 * i[6]))
                    self.store(st, p, i[6], v)
            elif op == 'getelementptr':
                p = val(i[3], 'ptr', fr, st)
                off = ic(i[4], 64)
                for x, sc in i[5]:
                    xv = val(x, 'i64', fr, st)
                    if xv.op == 'undef':
                        xv = undef(I(64))
                    xv = E.icast('sext', xv, 64) if xv.k[1] < 64 else xv
                    off = E.ibin('add', off, E.ibin('mul', xv, ic(sc, 64)))
                env[i[0]] = padd(p, off)
            elif op == 'alloca':
                n = val(i[4], 'i64', fr, st)
                sz = i[3] * n.a[0] if isc(n) else None
                env[i[0]] = self.alloc(st, '%s:%s' % (fr.fn.dem[:40], i[0]), sz)
            elif op in ('call', 'invoke'):
                r = self.call(fr, st, i)
                if r is None:
                    return None
                st, v = r
                if t != 'void':
                    env[i[0]] = v if v is not None else undef(kind(t) or 'a', 'call')
            elif op == 'icmp':
                a, b = val(i[5], i[4], fr, st), val(i[6], i[4], fr, st)
                if a.op == 'undef' or b.op == 'undef':
                    env[i[0]] = undef(I(1), 'icmp')
                else:
                    env[i[0]] = E.icmp(i[3], a, b)
            elif op == 'fcmp':
                a, b = val(i[5], i[4], fr, st), val(i[6], i[4], fr, st)
                env[i[0]] = E.fcmp(i[3], a, b)
            elif op in ('fadd', 'fsub', 'fmul', 'fdiv'):
                env[i[0]] = E.fbin(op, val(i[3], t, fr, st), val(i[4], t, fr, st))
            elif op == 'fneg':
                env[i[0]] = E.fneg(val(i[3], t, fr, st))
            elif op == 'frem':
                env[i[0]] = E.call('frem', [val(i[3], t, fr, st), val(i[4], t, fr, st)])
            elif op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
                a, b = val(i[3], t, fr, st), val(i[4], t, fr, st)
                if a.op == 'undef' or b.op == 'undef':
                    env[i[0]] = undef(kind(t), a.a[0] if a.op == 'undef' else b.a[0])
                else:
                    if a.k == P:
                        a = pint(a)
                    if b.k == P:
                        b = pint(b)
                    env[i[0]] = self.pdiff(op, a, b)
            elif op in ('zext', 'sext', 'trunc'):
                a = val(i[4], i[3], fr, st)
                env[i[0]] = undef(kind(t), a.a[0]) if a.op == 'undef' else E.icast(op, a, kind(t)[1])
            elif op == 'select':
                c = val(i[3], 'i1', fr, st)
                a, b = val(i[4], t, fr, st), val(i[5], t, fr, st)
                q = None if c.op == 'undef' else self.decide(c)
                env[i[0]] = a if q is True else b if q is False else (a if c.op == 'undef' else ite(c, a, b))
            elif op in ('sitofp', 'uitofp'):
                a = val(i[4], i[3], fr, st)
                env[i[0]] = i2r(op, a)
            elif op in ('fptosi', 'fptoui'):
                a = val(i[4], i[3], fr, st)
                w = kind(t)[1]
                if a.op == 'rc':
                    env[i[0]] = ic(int(a.a[0]), w)
                elif a.op in ('i2r',) and a.a[0].k == I(w):
                    env[i[0]] = a.a[0]
                elif a.op == 'undef':
                    env[i[0]] = undef(kind(t))
                else:
                    env[i[0]] = mk('r2i', (a, op), I(w))
            elif op in ('fpext',):
                env[i[0]] = val(i[4], i[3], fr, st)
            elif op == 'fptrunc':
                env[i[0]] = val(i[4], i[3], fr, st)
            elif op == 'bitcast':
                a = val(i[4], i[3], fr, st)
                env[i[0]] = conv(a, kind(t)) if kind(t) else a
            elif op in ('ptrtoint',):
                env[i[0]] = pint(val(i[4], i[3], fr, st))
            elif op == 'inttoptr':
                a = val(i[4], i[3], fr, st)
                env[i[0]] = a.a[0] if a.op == 'p2i' else NULL if isc(a) and a.a[0] == 0 else mk('i2p', (a,), P)
            elif op == 'extractvalue':
                a = val(i[3], None, fr, st)
                for x in i[4]:
                    a = self.extract(a, x, kind(t) or 'a')
                env[i[0]] = a
            elif op == 'insertvalue':
                a = val(i[3], t, fr, st)
                v = self.val(i[4], ity(t, i[5]), fr, st)
                env[i[0]] = self.insert(a, v, i[5], t)
            elif op == 'freeze':
                env[i[0]] = val(i[3], t, fr, st)
            elif op == 'landingpad':
                return None
            elif op == 'atomicrmw':
                p = val(i[4], 'ptr', fr, st)
                v = val(i[5], t, fr, st)
                old = self.loadt(st, p, t, tsize(t))
                rop = i[3]
                if rop == 'xchg':
                    nv = v
                elif rop in ('add', 'sub', 'and', 'or', 'xor'):
                    nv = E.ibin(rop, old, v)
                else:
                    raise Incomplete('atomicrmw ' + rop)
                self.store(st, p, tsize(t), nv)
                env[i[0]] = old
            elif op == 'fence':
                pass
            else:
                raise Incomplete('instruction %s in %s' % (op, self.where()))
        return st

    def pdiff(self, op, a, b):
        """pointer differences and alignment arithmetic"""
        if op == 'sub':
            def go(x, y):
                if x.op == 'ite' and x.k[1] == 64 and has_p(x):
                    return ite(x.a[0], go(x.a[1], y), go(x.a[2], y))
                if y.op == 'ite' and y.k[1] == 64 and has_p(y):
                    return ite(y.a[0], go(x, y.a[1]), go(x, y.a[2]))
                if x.op == 'p2i' and y.op == 'p2i':
                    p, q = x.a[0], y.a[0]
                    if p.op == 'ptr' and q.op == 'ptr' and p.a[0] == q.a[0]:
                        return E.ibin('sub', p.a[1], q.a[1])
                    if p is q:
                        return ic(0, 64)
                return E.ibin('sub', x, y)
            return go(a, b)
        return E.ibin(op, a, b)

    def extract(self, a, x, k):
        if a.op == 'agg':
            return a.a[x]
        if a.op == 'ite':
            return ite(a.a[0], self.extract(a.a[1], x, k), self.extract(a.a[2], x, k))
        if a.op == 'undef':
            return undef(k)
        return mk('xv', (a, x), k)

    def insert(self, a, v, ix, t):
        els = [e[1] for e in t[1:]] if t[0] == 's' else [t[3]] * t[1]
        if a.op == 'undef':
            parts = [undef(kind(e) or 'a') for e in els]
        elif a.op == 'agg':
            parts = list(a.a)
        else:
            parts = [self.extract(a, n, kind(e) or 'a') for n, e in enumerate(els)]
        x = ix[0]
        parts[x] = v if len(ix) == 1 else self.insert(parts[x], v, ix[1:], els[x])
        return mk('agg', tuple(parts), 'a')

    # ---- calls ---------------------------------------------------------------------
    def call(self, fr, st, i):
        cv = i[3]
        args = [self.val(a, t, fr, st) for a, t in zip(i[4], i[5])]
        name = callee(i)
        if name is None:
            if isinstance(cv, list) and cv[0] == 'md':
                return st, undef(kind(i[2]) or 'a')
            p = self.val(cv, 'ptr', fr, st)
            return self.callptr(fr, st, i, p, args)
        return self.dispatch(fr, st, i, name, args)

    def callptr(self, fr, st, i, p, args):
        p = self.pick(p)
        if p.op == 'fn':
            return self.dispatch(fr, st, i, p.a[0], args)
        if p.op == 'gref' and p.a[0] in self.m.fns:
            return self.dispatch(fr, st, i, p.a[0], args)
        if p.op == 'ite':
            mark = len(self.assume)
            c = p.a[0]
            s2 = st.fork()
            self.push(c, True)
            r1 = self.callptr(fr, st, i, p.a[1], args)
            self.pop(mark)
            self.push(c, False)
            r2 = self.callptr(fr, s2, i, p.a[2], args)
            self.pop(mark)
            if r1 is None:
                return r2
            if r2 is None:
                return r1
            s = self.merge(c, r1[0], r2[0])
            v = r1[1] if r1[1] is r2[1] or r1[1] is None else self.gatev(c, r1[1], r2[1])
            return s, v
        if p.op in ('null', 'undef'):
            return None
        if p.op == 's' and p.a[0] in self.models:
            return self.model(self.models[p.a[0]], st, args, i, p.a[0])
        if '*fp' in self.models:
            return self.model(self.models['*fp'], st, args, i, p)
        raise Incomplete('call through %s in %s line %s' % (E.show(p, 4), self.where(), i[-1].get('l')))

    def model(self, f, st, args, i, name):
        r = f(self, st, args, i)
        if isinstance(r, tuple):
            return r
        if r is NORET:
            return None
        return st, r

    def dispatch(self, fr, st, i, name, args):
        m = self.models.get(name)
        f = self.m.fns.get(name)
        if m is None and f is not None:
            m = self.models.get(f.dem)
            if m is None and self.mprefix:
                for k, v in self.mprefix:
                    if f.dem.startswith(k) or name.startswith(k):
                        m = v
                        break
        if m is not None:
            return self.model(m, st, args, i, name)
        if name in self.m.noret or (len(i) > 6 and i[6] and not isinstance(i[6], list)):
            return None
        if name.startswith('llvm.'):
            return self.intrinsic(st, name, args, i)
        b = BUILTINS.get(name)
        if b is not None:
            return self.model(b, st, args, i, name)
        dem = f.dem if f else name
        if any(dem.startswith(p) or dem.startswith('virtual ' + p) for p in IGNORE_PREFIX) or 'basic_ostream' in dem.split('(')[0]:
            self.ignored[dem.split('(')[0]] = self.ignored.get(dem.split('(')[0], 0) + 1
            t = i[2]
            if '_log_message_t::stream(' in dem:
                return st, E.sym('@std::clog', P)
            if t == 'ptr' and args:
                return st, args[0]
            return st, undef(kind(t) or 'a', dem) if t != 'void' else None
        if f is not None and not f.decl:
            r = self.callfn(f, args, st)
            if r is None:
                return None
            return r
        if name in MATH:
            return st, E.call(MATH[name], args)
        raise Incomplete('no model for external %s (%s) called from %s line %s' % (dem, name, self.where(), i[-1].get('l')))

    def intrinsic(self, st, name, args, i):
        n = name.split('.')
        b = n[1]
        if b in ('memcpy', 'memmove'):
            self.memcpy(st, args[0], args[1], args[2])
            return st, None
        if b == 'memset':
            self.memset(st, args[0], args[1], args[2])
            return st, None
        if b == 'fabs':
            return st, E.call('fabs', args)
        if b == 'sqrt':
            return st, E.call('sqrt', args)
        if b in ('pow', 'exp', 'sin', 'cos', 'log', 'log10', 'log2', 'floor', 'ceil', 'round', 'trunc'):
            return st, E.call(b, args)
        if b == 'exp2':
            return st, E.call('pow', [rc(2), args[0]])
        if b == 'powi':
            return st, E.call('pow', [args[0], i2r('sitofp', args[1])])
        if b in ('fmuladd', 'fma'):
            return st, E.fbin('fadd', E.fbin('fmul', args[0], args[1]), args[2])
        if b in ('minnum', 'maxnum'):
            c = E.fcmp('olt', args[0], args[1])
            return st, (ite(c, args[0], args[1]) if b == 'minnum' else ite(c, args[1], args[0]))
        if b in ('umin', 'umax', 'smin', 'smax'):
            c = E.icmp(b[0] + 'lt', args[0], args[1])
            return st, ite(c, args[0], args[1]) if b.endswith('min') else ite(c, args[1], args[0])
        if b == 'abs':
            w = args[0].k[1]
            return st, ite(E.icmp('slt', args[0], ic(0, w)), E.ibin('sub', ic(0, w), args[0]), args[0])
        if b == 'expect':
            return st, args[0]
        if b == 'is' and n[2] == 'constant':
            return st, FALSE
        if b == 'objectsize':
            return st, ic(-1, 64)
        if b in ('umul', 'uadd', 'usub', 'smul', 'sadd', 'ssub') and n[2] == 'with':
            o = {'mul': 'mul', 'add': 'add', 'sub': 'sub'}[b[1:]]
            return st, mk('agg', (E.ibin(o, args[0], args[1]), FALSE), 'a')
        if b in ('lifetime', 'dbg', 'assume', 'experimental', 'prefetch', 'stacksave', 'stackrestore', 'va_start', 'va_end', 'donothing', 'invariant'):
            return st, undef(P)
        if b in ('ctlz', 'cttz'):
            w = args[0].k[1]
            if isc(args[0]):
                v = args[0].a[0]
                if b == 'ctlz':
                    return st, ic(w - v.bit_length(), w)
                return st, ic((v & -v).bit_length() - 1 if v else w, w)
            r = ic(w, w)
            rng = range(w) if b == 'ctlz' else range(w - 1, -1, -1)
            for j in rng:
                bit = E.icast('trunc', E.ibin('lshr', args[0], ic(j, w)), 1)
                r = ite(bit, ic(w - 1 - j if b == 'ctlz' else j, w), r)
            return st, r
        if b == 'ctpop':
            w = args[0].k[1]
            r = ic(0, w)
            for j in range(w):
                r = E.ibin('add', r, E.ibin('and', E.ibin('lshr', args[0], ic(j, w)), ic(1, w)))
            return st, r
        if b == 'bswap' and isc(args[0]):
            w = args[0].k[1]
            return st, ic(int.from_bytes(args[0].a[0].to_bytes(w // 8, 'little'), 'big'), w)
        if b in ('trap', 'ubsantrap'):
            return None
        if b == 'copysign':
            return st, E.call('copysign', args)
        if b == 'eh' :
            return st, ic(1, 32)
        raise Incomplete('intrinsic %s in %s' % (name, self.where()))


NORET = object()


def ksize(k):
    return 8 if k in (R, P) else (k[1] + 7) // 8


def zero(k):
    if k == R:
        return rc(0)
    if k == P:
        return NULL
    return ic(0, k[1])


def agg(v):
    if v.op == 'agg':
        return v.a
    if v.op == 'ite':
        return tuple(ite(v.a[0], x, y) for x, y in zip(agg(v.a[1]), agg(v.a[2])))
    raise Incomplete('aggregate %s' % v.op)


def ity(t, ix):
    for x in ix:
        t = t[1 + x][1] if t[0] == 's' else t[3]
    return t


def has_p(x, d=8):
    if x.op == 'p2i':
        return True
    return x.op == 'ite' and d > 0 and (has_p(x.a[1], d - 1) or has_p(x.a[2], d - 1))


def pint(p):
    if p.op == 'null':
        return ic(0, 64)
    if p.op == 'ite':
        return ite(p.a[0], pint(p.a[1]), pint(p.a[2]))
    if p.op == 'undef':
        return undef(I(64))
    if p.op == 'i2p':
        return p.a[0]
    return mk('p2i', (p,), I(64))


def toint(v, size):
    if v.k == R:
        if v.op == 'rc':
            import struct
            return ic(int.from_bytes(struct.pack('<d', v.a[0]), 'little'), 64)
        if v.op == 'ite':
            return ite(v.a[0], toint(v.a[1], size), toint(v.a[2], size))
        if v.op == 'undef':
            return undef(I(size * 8))
        if v.op == 'bits2r':
            return v.a[0]
        return mk('r2bits', (v,), I(size * 8))
    if v.k == P:
        return pint(v)
    return v


def conv(v, k):
    if v.k == k:
        return v
    if v.op == 'undef':
        return undef(k, v.a[0])
    if k == R:
        if v.k == P:
            v = pint(v)
        if isc(v) and v.k[1] == 64:
            import struct
            return rc(struct.unpack('<d', v.a[0].to_bytes(8, 'little'))[0])
        if v.op == 'r2bits':
            return v.a[0]
        if v.op == 'ite':
            return ite(v.a[0], conv(v.a[1], k), conv(v.a[2], k))
        return mk('bits2r', (v,), R)
    if k == P:
        if v.k == R:
            v = toint(v, 8)
        if v.op == 'p2i':
            return v.a[0]
        if isc(v) and v.a[0] == 0:
            return NULL
        if v.op == 'ite':
            return ite(v.a[0], conv(v.a[1], k), conv(v.a[2], k))
        return mk('i2p', (v,), P)
    if v.k in (R, P):
        v = toint(v, 8)
    if v.op == 'undef':
        return undef(k)
    if v.k[1] > k[1]:
        return E.icast('trunc', v, k[1])
    return E.icast('zext', v, k[1])


def i2r(op, a):
    if a.op == 'undef':
        return undef(R)
    if isc(a):
        return rc(float(E.sval(a) if op == 'sitofp' else a.a[0]))
    if a.op == 'ite' and (isc(a.a[1]) or isc(a.a[2])):
        return ite(a.a[0], i2r(op, a.a[1]), i2r(op, a.a[2]))
    if a.k == I(1):
        return ite(a, rc(1 if op == 'uitofp' else -1), rc(0))
    if a.op == 'zext':
        return i2r('uitofp', a.a[0])
    return mk('i2r', (a, op), R)


def b_new(it, st, args, i):
    n = args[0] if args else None
    if n is not None and not isc(n):
        n = it.simplify(n)
    return it.alloc(st, 'heap', n.a[0] if n is not None and isc(n) else None)


def b_calloc(it, st, args, i):
    n = E.ibin('mul', args[0], args[1])
    return it.alloc(st, 'heap', n.a[0] if isc(n) else None, 'zero')


def b_none(it, st, args, i):
    return None


def b_memcpy(it, st, args, i):
    it.memcpy(st, args[0], args[1], args[2])
    return args[0]


def b_memset(it, st, args, i):
    it.memset(st, args[0], E.icast('trunc', args[1], 8), args[2])
    return args[0]


def b_true32(it, st, args, i):
    return ic(1, 32)


def b_gacq(it, st, args, i):
    it.inguard += 1
    return ic(1, 32)


def b_grel(it, st, args, i):
    it.inguard = max(0, it.inguard - 1)
    return None


def b_abort(it, st, args, i):
    return NORET


def b_cmp(it, st, args, i, n=None):
    """memcmp/strcmp/strncmp/strlen on concrete bytes"""


def cstr(it, st, p, limit=4096):
    out = b''
    for j in range(limit):
        v = it.load(st, padd(p, ic(j, 64)), 1, I(8))
        if not isc(v):
            v = it.simplify(v)
        if not isc(v):
            return None
        if v.a[0] == 0:
            return out
        out += bytes([v.a[0]])
    return None


def b_strlen(it, st, args, i):
    s = cstr(it, st, args[0])
    if s is None:
        raise Incomplete('strlen of unknown string in ' + it.where())
    return ic(len(s), 64)


def b_strcmp(it, st, args, i):
    a, b = cstr(it, st, args[0]), cstr(it, st, args[1])
    if a is None or b is None:
        raise Incomplete('strcmp of unknown strings in ' + it.where())
    return ic((a > b) - (a < b), 32)


def b_memcmp(it, st, args, i):
    n = args[2]
    if not isc(n):
        n = it.simplify(n)
    if not isc(n):
        raise Incomplete('memcmp size')
    r = ic(0, 32)
    for j in range(n.a[0] - 1, -1, -1):
        x = it.load(st, padd(args[0], ic(j, 64)), 1, I(8))
        y = it.load(st, padd(args[1], ic(j, 64)), 1, I(8))
        r = ite(E.icmp('eq', x, y), r, ite(E.icmp('ult', x, y), ic(-1, 32), ic(1, 32)))
    return r


def b_memchr(it, st, args, i):
    n = args[2]
    if not isc(n):
        n = it.simplify(n)
    if not isc(n):
        raise Incomplete('memchr size')
    ch = E.icast('trunc', args[1], 8)
    r = NULL
    for j in range(n.a[0] - 1, -1, -1):
        x = it.load(st, padd(args[0], ic(j, 64)), 1, I(8))
        r = ite(E.icmp('eq', x, ch), padd(args[0], ic(j, 64)), r)
    return r


def b_strcpy(it, st, args, i):
    s = cstr(it, st, args[1])
    if s is None:
        raise Incomplete('strcpy of unknown string in ' + it.where())
    for j, ch in enumerate(s + b'\0'):
        it.store(st, padd(args[0], ic(j, 64)), 1, ic(ch, 8))
    return args[0]


def b_abs(it, st, args, i):
    w = args[0].k[1]
    return ite(E.icmp('slt', args[0], ic(0, w)), E.ibin('sub', ic(0, w), args[0]), args[0])


def b_fmin(it, st, args, i):
    return ite(E.fcmp('olt', args[1], args[0]), args[1], args[0])


def b_fmax(it, st, args, i):
    return ite(E.fcmp('olt', args[0], args[1]), args[1], args[0])


BUILTINS = {
    '_Znwm': b_new, '_Znam': b_new, 'malloc': b_new, 'calloc': b_calloc,
    '_ZnwmSt11align_val_t': b_new, '_ZnwmRKSt9nothrow_t': b_new,
    '_ZdlPv': b_none, '_ZdlPvm': b_none, '_ZdaPv': b_none, '_ZdaPvm': b_none, 'free': b_none,
    'memcpy': b_memcpy, 'memmove': b_memcpy, 'memset': b_memset, 'strlen': b_strlen, 'strcmp': b_strcmp,
    'memcmp': b_memcmp, 'bcmp': b_memcmp, 'memchr': b_memchr, 'strcpy': b_strcpy,
    '__cxa_guard_acquire': b_gacq, '__cxa_guard_release': b_grel, '__cxa_atexit': lambda it, st, a, i: ic(0, 32),
    'exit': b_abort, 'abort': b_abort, '__assert_fail': b_abort, '_ZSt9terminatev': b_abort, '__cxa_throw': b_abort,
    '__cxa_begin_catch': b_none, '__cxa_end_catch': b_none, '__cxa_allocate_exception': b_new, '__cxa_free_exception': b_none,
    'abs': b_abs, 'labs': b_abs, 'llabs': b_abs, 'fmin': b_fmin, 'fmax': b_fmax,
    '_ZNSt8ios_base4InitC1Ev': b_none, '_ZNSt8ios_base4InitD1Ev': b_none,
    'printf': lambda it, st, a, i: ic(0, 32), 'puts': lambda it, st, a, i: ic(0, 32), 'fflush': lambda it, st, a, i: ic(0, 32),
    'fprintf': lambda it, st, a, i: ic(0, 32), 'putchar': lambda it, st, a, i: ic(0, 32),
    '_ZSt20__throw_length_errorPKc': b_abort, '_ZSt17__throw_bad_allocv': b_abort,
}
MATH = {n: n for n in ('sqrt', 'pow', 'exp', 'sin', 'cos', 'tan', 'log', 'log10', 'log2', 'asin', 'acos', 'atan', 'atan2', 'sinh', 'cosh', 'tanh', 'floor', 'ceil', 'cbrt', 'asinh', 'round', 'fmod', 'hypot', 'exp2', 'trunc', 'acosh', 'atanh', 'fabs', 'copysign')}
MATH.update({n + 'f': n for n in list(MATH)})
MATH.update({n + 'l': n for n in list(MATH) if not n.endswith('f')})
