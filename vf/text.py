"""what is written to text streams (see drivers/vf_out.h)"""
from .expr import *
from . import expr as E
from .interp import Incomplete


def cstr(it, st, p):
    o, s = 0, ''
    while True:
        c = it.load(st, padd(p, ic(o, 64)), 1, E.I(8))
        if not isc(c):
            raise Incomplete('unknown character in output text')
        if c.a[0] == 0:
            return s
        s += chr(c.a[0])
        o += 1


class Text:
    """streams by object; files by name, in the order written"""

    def __init__(self):
        self.streams = {}
        self.files = []

    def key(self, p):
        if p.op != 'ptr' or not isc(p.a[1]):
            raise Incomplete('stream at unknown address')
        return (p.a[0], p.a[1].a[0])

    def models(self):
        def opened(it, st, a, i):
            items = []
            if not (isc(a[1]) or a[1].op == 'null'):
                self.files.append((cstr(it, st, a[1]), items))
            self.streams[self.key(a[0])] = items

        def put(kind):
            def f(it, st, a, i):
                self.streams.setdefault(self.key(a[0]), []).append((kind, a[1]))
            return f

        def puts(it, st, a, i):
            self.streams.setdefault(self.key(a[0]), []).append(('s', cstr(it, st, a[1])))

        def copy(it, st, a, i):
            self.streams.setdefault(self.key(a[0]), []).extend(self.streams[self.key(a[1])])
        return {'vfm_open': opened, 'vfm_putd': put('d'), 'vfm_puti': put('i'), 'vfm_puts': puts, 'vfm_all': copy}
