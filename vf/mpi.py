"""what the message-passing calls do, seen from one rank of any number"""
from .expr import *
from . import expr as E
from .interp import Incomplete

TYPES = {'ompi_mpi_double': (8, R), 'ompi_mpi_int64_t': (8, E.I(64)), 'ompi_mpi_uint64_t': (8, E.I(64)), 'ompi_mpi_long': (8, E.I(64)), 'ompi_mpi_unsigned_long': (8, E.I(64)),
         'ompi_mpi_unsigned_long_long': (8, E.I(64)), 'ompi_mpi_long_long_int': (8, E.I(64)), 'ompi_mpi_int': (4, E.I(32)), 'ompi_mpi_unsigned': (4, E.I(32)),
         'ompi_mpi_int32_t': (4, E.I(32)), 'ompi_mpi_uint32_t': (4, E.I(32)), 'ompi_mpi_byte': (1, E.I(8)), 'ompi_mpi_char': (1, E.I(8)), 'ompi_mpi_float': (4, R)}
OPS = {'ompi_mpi_op_sum': 'sum', 'ompi_mpi_op_min': 'min', 'ompi_mpi_op_max': 'max', 'ompi_mpi_op_land': 'land', 'ompi_mpi_op_lor': 'lor'}


def gname(it, p):
    if p.op == 'ptr' and p.a[0] in it.gset:
        return it.gset[p.a[0]]
    return None


def dtype(it, p):
    g = gname(it, p)
    if g not in TYPES:
        raise Incomplete('unknown MPI datatype %s' % g)
    return TYPES[g]


def renamed(e, names, tail='2'):
    """the same formula of other particles: A.x is A2.x"""
    mp = {}
    for n in E.walk([e]):
        if n.op == 's' and n.a[0].split('.')[0] in names and '.' in n.a[0]:
            b, f = n.a[0].split('.', 1)
            mp[n.id] = sym('%s%s.%s' % (b, tail, f), n.k)
    return E.subst(e, mp) if mp else e


def peers(mpi, e, names, own=None, shift=0):
    """e when the other ranks hold particles of their own, for which they did the same.
    own, shift: what they put in, when it is taken from another run"""
    mp = {}
    for n in E.walk([e]):
        if n.op == 's' and n.a[0].startswith('others'):
            o = (mpi.own if own is None else own).get(int(n.a[0][6:]) + shift)
            if o is None or any(x.startswith('others') for x in E.symbols([o])):
                return None
            mp[n.id] = renamed(o, names)
    return E.subst(e, mp)


class Mpi:
    """records the calls and gives the result of reductions over this rank and the others.
    the others' contribution to the k-th reduced value is the symbol 'others<k>'"""

    def __init__(self, rank=None, size=None):
        self.rank = rank if rank is not None else sym('mpi.rank', E.I(32))
        self.size = size if size is not None else sym('mpi.size', E.I(32))
        self.calls = []
        self.n = 0
        self.own = {}       # what this rank put in, by number

    def combine(self, op, a, k):
        o = sym('others%d' % self.n, k)
        self.own[self.n] = a
        self.n += 1
        r = k == R
        if op == 'sum':
            return E.fbin('fadd', a, o) if r else E.ibin('add', a, o)
        if op in ('min', 'max'):
            c = E.fcmp('olt', o, a) if r else E.icmp('slt', o, a)
            return E.ite(c, o, a) if op == 'min' else E.ite(c, a, o)
        if op == 'land':
            z = ic(0, k[1])
            return E.ite(E.band(E.bnot(E.icmp('eq', a, z)), E.bnot(E.icmp('eq', o, z))), ic(1, k[1]), z)
        raise Incomplete('MPI operation ' + op)

    def reduce(self, root):
        def f(it, st, a, inst):
            src, dst, n, t, op = a[:5]
            if not isc(n):
                raise Incomplete('reduction of a variable number of elements')
            size, k = dtype(it, t)
            o = OPS.get(gname(it, op))
            if o is None:
                raise Incomplete('unknown MPI operation')
            if isc(src) and src.a[0] == 1 or src.op == 'ptr' and False:
                src = dst
            self.calls.append(('reduce' if root else 'allreduce', o, n.a[0]))
            vals = [it.load(st, padd(src, ic(size * i, 64)), size, k) for i in range(n.a[0])]
            for i, v in enumerate(vals):
                x = self.combine(o, v, k)
                if root:
                    old = None
                    try:
                        old = it.load(st, padd(dst, ic(size * i, 64)), size, k)
                    except Incomplete:
                        old = undef_(k)
                    x = E.ite(E.icmp('eq', self.rank, a[5]), x, old)
                it.store(st, padd(dst, ic(size * i, 64)), size, x)
            return ic(0, 32)
        return f

    def models(self):
        def rank(it, st, a, i):
            it.store(st, a[1], 4, self.rank)
            return ic(0, 32)

        def size(it, st, a, i):
            it.store(st, a[1], 4, self.size)
            return ic(0, 32)

        def none(it, st, a, i):
            self.calls.append((i.get('callee', '') if isinstance(i, dict) else '',))
            return ic(0, 32)
        return {'MPI_Allreduce': self.reduce(False), 'MPI_Reduce': self.reduce(True), 'MPI_Comm_rank': rank, 'MPI_Comm_size': size, 'MPI_Barrier': none}


def undef_(k):
    return E.sym('undefined receive buffer', k)
