"""a file system with snapshot files, shared by all ranks: what the HDF5 and directory calls do"""
import copy
import posixpath
from .expr import *
from . import expr as E
from .interp import Incomplete
from .text import cstr

# memory types: bytes, kind, how many values they tell apart
MEM = {'H5T_NATIVE_INT': (4, E.I(32), 1), 'H5T_NATIVE_INT32': (4, E.I(32), 1), 'H5T_NATIVE_UINT': (4, E.I(32), 1), 'H5T_NATIVE_LLONG': (8, E.I(64), 2), 'H5T_NATIVE_ULLONG': (8, E.I(64), 2), 'H5T_NATIVE_LONG': (8, E.I(64), 2),
       'H5T_NATIVE_ULONG': (8, E.I(64), 2), 'H5T_NATIVE_INT64': (8, E.I(64), 2), 'H5T_NATIVE_UINT64': (8, E.I(64), 2), 'H5T_NATIVE_DOUBLE': (8, R, 3), 'H5T_NATIVE_FLOAT': (4, R, 0)}


class Data:
    """a dataset or attribute"""

    def __init__(self, n, t):
        self.n, self.t = n, t
        self.v = [None] * n
        self.by = [None] * n


class Group:
    def __init__(self):
        self.attrs, self.sets, self.groups = {}, {}, {}


class Disk:
    def __init__(self, dirs=('.',)):
        self.files = {}
        self.dirs = set(dirs)
        self.problems = []
        self.removed = []

    def clone(self):
        return copy.deepcopy(self, {id(x): x for f in self.files.values() for x in walk_values(f)})


def walk_values(g):
    out = []
    for d in list(g.attrs.values()) + list(g.sets.values()):
        out += [v for v in d.v if v is not None]
    for s in g.groups.values():
        out += walk_values(s)
    return out


def norm(p):
    return posixpath.normpath(p)


def con(x, what):
    if not isc(x):
        raise Incomplete('%s is not known' % what)
    return E.sval(x)


def fmt(it, st, f, args):
    """the text printf makes of known values"""
    out, k, j = '', 0, 0
    while k < len(f):
        c = f[k]
        k += 1
        if c != '%':
            out += c
            continue
        if f[k] == '%':
            out += '%'
            k += 1
            continue
        spec = '%'
        while f[k] in '-+ 0#123456789.':
            spec += f[k]
            k += 1
        while f[k] in 'lhzjt':
            k += 1
        t = f[k]
        k += 1
        a = args[j]
        j += 1
        if t == 's':
            out += (spec + 's') % cstr(it, st, a)
        elif t in 'diu':
            v = con(a, 'a printed number')
            if t == 'u' and v < 0:
                v += 1 << a.k[1]
            out += (spec + 'd') % v
        elif t == 'c':
            out += chr(con(a, 'a printed character'))
        else:
            raise Incomplete('text format %' + t)
    return out


class Rank:
    """the calls of one rank"""

    def __init__(self, disk, fleet, r):
        self.disk, self.F, self.r = disk, fleet, r
        self.h = {}
        self.n = 100
        self.ended = False
        self.misses = 0

    def new(self, kind, x):
        self.n += 1
        self.h[self.n] = (kind, x)
        return ic(self.n, 64)

    def get(self, a, *kinds):
        v = con(a, 'a handle')
        k, x = self.h.get(v, (None, None))
        return x if k in kinds else None

    def together(self, it, i, name, key, data, fin):
        """all ranks make the call; fin(list of data) -> result, once"""
        F = self.F
        F.trace[self.r].append((name,) + key)
        under = tuple(sorted({(c.id, v) for c, v in it.assume}))
        at = '%s:%s' % (it.stack[-1].fn.dem[:60] if it.stack else '', i[-1].get('l') if isinstance(i[-1], dict) else '')
        return F.block(self.r, {'op': name, 'coll': True, 'sig': (name,) + key, 'data': data, 'fin': lambda cs: [fin([c['data'] for c in cs])] * len(cs), 'under': under, 'at': at})

    def models(self):
        S = self
        D = self.disk
        bad = ic(-1, 64)
        bad32 = ic((1 << 32) - 1, 32)
        ok = ic(0, 32)

        def s(it, st, p):
            return cstr(it, st, p)

        def write(it, st, p, text):
            for k, c in enumerate(text):
                it.store(st, padd(p, ic(k, 64)), 1, ic(ord(c), 8))
            it.store(st, padd(p, ic(len(text), 64)), 1, ic(0, 8))

        # --- text and directories
        def sprintf(it, st, a, i):
            t = fmt(it, st, s(it, st, a[1]), a[2:])
            write(it, st, a[0], t)
            return ic(len(t), 32)

        def snprintf(it, st, a, i):
            t = fmt(it, st, s(it, st, a[2]), a[3:])
            n = con(a[1], 'a buffer length')
            if n:
                write(it, st, a[0], t[:n - 1])
            return ic(len(t), 32)

        def strcmp(it, st, a, i):
            x, y = s(it, st, a[0]), s(it, st, a[1])
            return ic(0 if x == y else 1 if x > y else -1, 32)

        def strncmp(it, st, a, i):
            n = con(a[2], 'a length')
            x, y = s(it, st, a[0])[:n], s(it, st, a[1])[:n]
            return ic(0 if x == y else 1 if x > y else -1, 32)

        def strstr(it, st, a, i):
            k = s(it, st, a[0]).find(s(it, st, a[1]))
            return NULL if k < 0 else padd(a[0], ic(k, 64))

        def strchr(last):
            def f(it, st, a, i):
                t, c = s(it, st, a[0]), chr(con(a[1], 'a character'))
                k = len(t) if c == '\0' else t.rfind(c) if last else t.find(c)
                return NULL if k < 0 else padd(a[0], ic(k, 64))
            return f

        def strlen(it, st, a, i):
            return ic(len(s(it, st, a[0])), 64)

        def strcpy(it, st, a, i):
            write(it, st, a[0], s(it, st, a[1]))
            return a[0]

        def strcat(it, st, a, i):
            write(it, st, padd(a[0], ic(len(s(it, st, a[0])), 64)), s(it, st, a[1]))
            return a[0]

        def strncpy(it, st, a, i):
            t, n = s(it, st, a[1]), con(a[2], 'a length')
            for k in range(n):
                it.store(st, padd(a[0], ic(k, 64)), 1, ic(ord(t[k]) if k < len(t) else 0, 8))
            return a[0]

        def isdigit(it, st, a, i):
            return ic(int(48 <= con(a[0], 'a character') <= 57), 32)

        def atoi(it, st, a, i):
            import re
            m = re.match(r'\s*([-+]?\d+)', s(it, st, a[0]))
            return ic(int(m.group(1)) if m else 0, 32)

        def access(it, st, a, i):
            p = norm(s(it, st, a[0]))
            return ok if p in D.files or p in D.dirs else bad32

        def remove(it, st, a, i):
            p = norm(s(it, st, a[0]))
            if p not in D.files:
                return bad32
            del D.files[p]
            D.removed.append(p)
            return ok

        def opendir(it, st, a, i):
            d = norm(s(it, st, a[0]))
            if d not in D.dirs:
                return NULL
            names = ['.', '..'] + [posixpath.basename(f) for f in D.files if (posixpath.dirname(f) or '.') == d]
            o = it.alloc(st, 'directory', 8)
            S.h[('dir', o.a[0])] = names
            return o

        def readdir(it, st, a, i):
            names = S.h.get(('dir', a[0].a[0])) if a[0].op == 'ptr' else None
            if names is None:
                raise Incomplete('a directory that is not open')
            if not names:
                return NULL
            o = it.alloc(st, 'entry', 280)
            write(it, st, padd(o, ic(19, 64)), names.pop(0))
            return o

        def closedir(it, st, a, i):
            return ok

        def dirname(it, st, a, i):
            t = posixpath.dirname(s(it, st, a[0]).rstrip('/')) or '.'
            o = it.alloc(st, 'dirname', len(t) + 1)
            write(it, st, o, t)
            return o

        def basename(it, st, a, i):
            t = posixpath.basename(s(it, st, a[0]).rstrip('/')) or '.'
            o = it.alloc(st, 'basename', len(t) + 1)
            write(it, st, o, t)
            return o

        def finalize(it, st, a, i):
            S.ended = True
            return ok

        # --- files
        def shared(h):
            x = S.get(h, 'plist')
            if (x is None or not x.get('shared')) and S.F.n > 1:
                D.problems.append('a file of all ranks is opened without parallel access')

        def fapl(it, st, a, i):
            p = S.get(a[0], 'plist')
            if p is None:
                return bad32
            p['shared'] = True
            return ok

        def fopen(it, st, a, i):
            p = norm(s(it, st, a[0]))
            shared(a[2])
            r = S.together(it, i, 'H5Fopen', (p,), None, lambda ds: D.files.get(p))
            return S.new('file', r) if r is not None else bad

        def fcreate(it, st, a, i):
            p = norm(s(it, st, a[0]))
            fl = con(a[1], 'the creation flags')
            shared(a[3])

            def fin(ds):
                if fl & 4 and p in D.files or (posixpath.dirname(p) or '.') not in D.dirs:
                    return None
                D.files[p] = Group()
                return D.files[p]
            r = S.together(it, i, 'H5Fcreate', (p,), None, fin)
            return S.new('file', r) if r is not None else bad

        def close(*kinds):
            def f(it, st, a, i):
                v = con(a[0], 'a handle')
                if self.h.get(v, (None,))[0] not in kinds:
                    return bad32
                del self.h[v]
                return ok
            return f

        def fclose(it, st, a, i):
            S.together(it, i, 'H5Fclose', (), None, lambda ds: None)
            return close('file')(it, st, a, i)

        def at(g, path):
            for x in path.strip('/').split('/'):
                if g is not None and x:
                    g = g.groups.get(x)
            return g

        def objinfo(it, st, a, i):
            g, p = S.get(a[0], 'file', 'group'), s(it, st, a[1])
            if g is None:
                return bad32
            q = at(g, posixpath.dirname(p))
            b = posixpath.basename(p)
            if q is None or b not in q.groups and b not in q.sets:
                S.misses += 1
                if S.misses > 300:
                    raise Incomplete('a search for a snapshot that never returns')
            else:
                S.misses = 0
            return ok if q is not None and (b in q.groups or b in q.sets) else bad32

        def lexists(it, st, a, i):
            return ic(1 if objinfo(it, st, a, i) is ok else 0, 32)

        def aexists(it, st, a, i):
            g = S.get(a[0], 'file', 'group')
            return bad32 if g is None else ic(int(s(it, st, a[1]) in g.attrs), 32)

        def gopen(it, st, a, i):
            g = S.get(a[0], 'file', 'group')
            g = at(g, s(it, st, a[1])) if g is not None else None
            return S.new('group', g) if g is not None else bad

        def gcreate(it, st, a, i):
            g, p = S.get(a[0], 'file', 'group'), s(it, st, a[1])

            def fin(ds):
                q = at(g, posixpath.dirname(p)) if g is not None else None
                if q is None or posixpath.basename(p) in q.groups:
                    return None
                q.groups[posixpath.basename(p)] = Group()
                return q.groups[posixpath.basename(p)]
            q = S.together(it, i, 'H5Gcreate', (p, g is not None), None, fin)
            return S.new('group', q) if q is not None else bad

        # --- types, spaces, properties
        def mtype(x):
            n = str(x.a[0]) if x.op == 's' else ''
            for t in MEM:
                if t + '_g' == n.lstrip('@'):
                    return t
            raise Incomplete('unknown type in a file: ' + E.show(x, 3))

        def pcreate(it, st, a, i):
            return S.new('plist', {'mode': None})

        def dxpl(it, st, a, i):
            p = S.get(a[0], 'plist')
            if p is None:
                return bad32
            p['mode'] = con(a[1], 'the transfer mode')
            return ok

        def fine(it, st, a, i):
            return ok

        def screate(it, st, a, i):
            k = con(a[0], 'the rank of a space')
            n = 1
            for j in range(k):
                n *= con(it.load(st, padd(a[1], ic(8 * j, 64)), 8, E.I(64)), 'the extent of a space')
            return S.new('space', {'n': n, 'sel': range(n)})

        def hyperslab(it, st, a, i):
            sp = S.get(a[0], 'space')
            if sp is None:
                return bad32
            ld = lambda p, d: d if p.op == 'null' else con(it.load(st, p, 8, E.I(64)), 'a selection')
            o, stride, n, blk = ld(a[2], 0), ld(a[3], 1), ld(a[4], 0), ld(a[5], 1)
            sp['sel'] = [o + stride * j + b for j in range(n) for b in range(blk)]
            return ok

        def dims(it, st, a, i):
            sp = S.get(a[0], 'space')
            if sp is None:
                return bad32
            it.store(st, a[1], 8, ic(sp['n'], 64))
            return ic(1, 32)

        def npoints(it, st, a, i):
            sp = S.get(a[0], 'space')
            return bad if sp is None else ic(sp['n'], 64)

        # --- datasets and attributes
        def dcreate(it, st, a, i):
            g, nm, t, sp = S.get(a[0], 'group', 'file'), s(it, st, a[1]), mtype(a[2]), S.get(a[3], 'space')

            def fin(ds):
                if g is None or sp is None or nm in g.sets or nm in g.groups:
                    return None
                g.sets[nm] = Data(sp['n'], t)
                return g.sets[nm]
            x = S.together(it, i, 'H5Dcreate', (nm, t, sp['n'] if sp else None, g is not None), None, fin)
            return S.new('set', x) if x is not None else bad

        def dopen(it, st, a, i):
            g, nm = S.get(a[0], 'group', 'file'), s(it, st, a[1])
            x = g.sets.get(nm) if g is not None else None
            return S.new('set', x) if x is not None else bad

        def dspace(it, st, a, i):
            x = S.get(a[0], 'set')
            return S.new('space', {'n': x.n, 'sel': range(x.n)}) if x is not None else bad

        def move(name):
            def f(it, st, a, i):
                x, t = S.get(a[0], 'set'), mtype(a[1])
                pl = S.get(a[4], 'plist')
                sel = lambda h: (S.get(h, 'space') or {}) if not (isc(h) and h.a[0] == 0) else {'n': x.n if x else 0, 'sel': range(x.n if x else 0)}
                ms, fs = sel(a[2]), sel(a[3])
                good = x is not None and 'n' in ms and 'n' in fs and len(ms['sel']) == len(fs['sel']) and all(0 <= j < fs['n'] for j in fs['sel']) and all(0 <= j < ms['n'] for j in ms['sel'])
                sz, k, w = MEM[t]
                if name == 'H5Dwrite' and good:
                    for j, q in zip(ms['sel'], fs['sel']):
                        if x.by[q] is not None:
                            D.problems.append('entry %d of a dataset is written twice, by ranks %d and %d' % (q, x.by[q], S.r))
                        v = it.load(st, padd(a[5], ic(sz * j, 64)), sz, k)
                        x.by[q] = S.r
                        x.v[q] = v if MEM[x.t][2] >= w else E.call('narrowed', [v])
                if pl is not None and pl['mode'] == 1:
                    S.together(it, i, name, (), None, lambda ds: None)
                elif name == 'H5Dread':
                    S.together(it, i, name + ' (independent)', (), None, lambda ds: None)
                if name == 'H5Dread' and good:
                    for j, q in zip(ms['sel'], fs['sel']):
                        v = x.v[q]
                        v = (rc(0) if k == R else ic(0, 8 * sz)) if v is None else conv(v, k)
                        it.store(st, padd(a[5], ic(sz * j, 64)), sz, v)
                return ok if good else bad32
            return f

        def conv(v, k):
            if v.k == k:
                return v
            if k == R:
                return E.call('converted', [v])
            if v.k == R:
                return sym('converted', k)
            return E.icast('sext' if k[1] > v.k[1] else 'trunc', v, k[1])

        def acreate(it, st, a, i):
            g, nm, t, sp = S.get(a[0], 'file', 'group'), s(it, st, a[1]), mtype(a[2]), S.get(a[3], 'space')

            def fin(ds):
                if g is None or sp is None or nm in g.attrs:
                    return None
                g.attrs[nm] = Data(sp['n'], t)
                return g.attrs[nm]
            x = S.together(it, i, 'H5Acreate', (nm, t, g is not None), None, fin)
            return S.new('attr', x) if x is not None else bad

        def aopen(it, st, a, i):
            g, nm = S.get(a[0], 'file', 'group'), s(it, st, a[1])
            x = g.attrs.get(nm) if g is not None else None
            return S.new('attr', x) if x is not None else bad

        def awrite(it, st, a, i):
            x, t = S.get(a[0], 'attr'), mtype(a[1])
            sz, k, w = MEM[t]
            vs = [it.load(st, padd(a[2], ic(sz * j, 64)), sz, k) for j in range(x.n)] if x is not None else None

            def fin(ds):
                if x is None:
                    return False
                if any(any(p is not q for p, q in zip(d, ds[0])) for d in ds):
                    D.problems.append('the ranks write different values into an attribute')
                x.v = list(ds[0]) if MEM[x.t][2] >= w else [E.call('narrowed', [v]) for v in ds[0]]
                return True
            return ok if S.together(it, i, 'H5Awrite', (x is not None,), vs, fin) else bad32

        def aread(it, st, a, i):
            x, t = S.get(a[0], 'attr'), mtype(a[1])
            if x is None:
                return bad32
            sz, k, w = MEM[t]
            for j, v in enumerate(x.v):
                it.store(st, padd(a[2], ic(sz * j, 64)), sz, (rc(0) if k == R else ic(0, 8 * sz)) if v is None else conv(v, k))
            return ok

        def sametype(it, st, a, i):
            if a[0].op != 'gref' and a[0].op != 'ptr' or a[1].op != a[0].op:
                raise Incomplete('types that are not known are compared')
            return ic(int(a[0] is a[1]), 1)
        ms = {'sprintf': sprintf, 'snprintf': snprintf, 'strcmp': strcmp, 'strncmp': strncmp, 'strstr': strstr, 'strchr': strchr(0), 'strrchr': strchr(1), 'strlen': strlen, 'strcpy': strcpy, 'strcat': strcat, 'strncpy': strncpy, 'isdigit': isdigit, 'atoi': atoi,
              'access': access, 'remove': remove, 'unlink': remove, 'opendir': opendir, 'readdir': readdir, 'readdir64': readdir, 'closedir': closedir, 'dirname': dirname, '__xpg_basename': basename, 'basename': basename,
              'MPI_Finalize': finalize, 'H5Fopen': fopen, 'H5Fcreate': fcreate, 'H5Fclose': fclose, 'H5Gclose': close('group'), 'H5Dclose': close('set'), 'H5Aclose': close('attr'), 'H5Sclose': close('space'), 'H5Pclose': close('plist'),
              'H5Eset_auto2': fine, 'H5check_version': fine, 'H5open': fine, 'H5Pset_fapl_mpio': fapl, 'H5Pset_dxpl_mpio': dxpl, 'H5Pcreate': pcreate, 'H5Gget_objinfo': objinfo, 'H5Lexists': lexists, 'H5Aexists': aexists, 'H5Gopen2': gopen, 'H5Gcreate2': gcreate,
              'H5Screate_simple': screate, 'H5Sselect_hyperslab': hyperslab, 'H5Sget_simple_extent_dims': dims, 'H5Sget_simple_extent_npoints': npoints, 'H5Sget_select_npoints': npoints, 'H5Dcreate2': dcreate, 'H5Dopen2': dopen, 'H5Dget_space': dspace,
              'H5Dwrite': move('H5Dwrite'), 'H5Dread': move('H5Dread'), 'H5Acreate2': acreate, 'H5Aopen': aopen, 'H5Awrite': awrite, 'H5Aread': aread, 'std::type_info::operator==*': sametype}
        return ms
