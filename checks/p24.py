"""P24: parameters by name."""
import os
from vf.common import *
from vf.mpi import Mpi

GETTER = '''
extern "C" void vfm_gotd(double);
extern "C" void vfm_goti(long, int);
extern "C" void vfm_gotb(bool);
extern "C" void vfm_gots(const char *);
extern "C" void vfm_gotk(unsigned);
inline void vf_got(const double & x) { vfm_gotd(x); }
inline void vf_got(const bool & x) { vfm_gotb(x); }
inline void vf_got(const char * x) { vfm_gots(x); }
template<class T> inline std::enable_if_t<std::is_enum<T>::value> vf_got(const T & x) { vfm_gotk((unsigned)x); }
template<class T> inline std::enable_if_t<std::is_integral<T>::value> vf_got(const T & x) { vfm_goti(x, sizeof(T) * 8 + std::is_signed<T>::value); }
'''
# the documented spellings of the keyword parameters
KEYS = {'sph_kernel': [('cubic spline', 'cubic_spline'), ('quintic spline', 'quintic_spline'), ('wendland c2', 'wendland_c2'), ('wendland c4', 'wendland_c4'), ('wendland c6', 'wendland_c6'),
                       ('gaussian', 'gaussian'), ('super gaussian', 'super_gaussian'), ('sinc ker', 'sinc_ker'), ('Wendland C6', 'wendland_c6'), ('Quintic_Spline', 'quintic_spline')],
        'eos_type': [('ideal fluid', 'eos_ideal'), ('polytropic', 'eos_polytropic'), ('white dwarf', 'eos_wd'), ('wd', 'eos_wd'), ('piecewise polytropic', 'eos_ppt'), ('ppt', 'eos_ppt'),
                     ('no eos', 'eos_no_eos'), ('none', 'eos_no_eos'), ('Ideal_Fluid', 'eos_ideal')],
        'sph_viscosity': [('constant', 'visc_constant'), ('cullen', 'visc_cullen'), ('Cullen', 'visc_cullen')]}
STR = 511


def names():
    v = build.variables(DR + 'par.cc', 3, build.STRINGS)
    return [x[7:] for x in v if x.startswith('param::') and not x.startswith('param::_')]


def load(pub):
    p = os.path.join(build.scratch(), 'par_all.cc')
    s = '#include "%spar.cc"\n' % DR + GETTER
    for n in pub:
        s += 'extern "C" void vf_get_%s() { vf_got(param::%s); }\n' % (n, n)
    for e in sorted({e for vs in KEYS.values() for _, e in vs}):
        s += 'extern "C" unsigned vf_enum_%s() { return param::%s; }\n' % (e, e)
    open(p, 'w').write(s)
    return build.compile(p, 3, ['vf_*'], flags=build.STRINGS)


class Pars:
    def __init__(self, m, lines=None):
        self.m = m
        self.text = []
        self.got = None
        self.lines = lines
        ms = dict(Mpi().models())
        ms.update(vfm_parse=self.parse, vfm_parsei=self.parsei, vfm_gotd=self.g('d'), vfm_goti=self.g('i'), vfm_gotb=self.g('b'), vfm_gots=self.gs, vfm_gotk=self.g('k'), vfm_line=self.line)
        self.w = Run(m, models=ms)
        self.w.it.bitdom = False
        self.w.it.fninit = True

    def parse(self, it, st, a, i):
        from vf.text import cstr
        self.text.append(cstr(it, st, a[0]))
        return rs('parsed')

    def parsei(self, it, st, a, i):
        from vf.text import cstr
        self.text.append(cstr(it, st, a[0]))
        return sym('parsedi', E.I(64))

    def g(self, k):
        def f(it, st, a, i):
            self.got = (k, a[0]) + tuple(a[1:])
        return f

    def gs(self, it, st, a, i):
        from vf.text import cstr
        try:
            self.got = ('s', cstr(it, st, a[0]))
        except Incomplete:
            self.got = ('s', 'an unset value')

    def line(self, it, st, a, i):
        if not self.lines:
            return ic(0, 1)
        st, _ = it.callfn(self.m.fns['vf_assign'], [a[0], self.cs(self.lines.pop(0), it, st)], st)
        return st, ic(1, 1)

    def cs(self, s, it=None, st=None):
        return (it or self.w.it).symarr(st or self.w.st, 'str', [ic(ord(c), 8) for c in s] + [ic(0, 8)])

    def set(self, n, v):
        """False when the program ends instead of returning"""
        self.w.it.gwrites.clear()
        r = self.w.it.run('vf_set', [self.cs(n), self.cs(v)], self.w.st)
        if r is None:
            return False
        self.w.st = r[0]
        return True

    def read(self):
        self.w.it.gwrites.clear()
        r = self.w.it.run('vf_read', [], self.w.st)
        if r is None:
            return False
        self.w.st = r[0]
        return True

    def get(self, n):
        self.got = None
        self.w('vf_get_' + n)
        return self.got

    def enum(self, e):
        return self.w('vf_enum_' + e)

    def written(self):
        return sorted(self.m.globals[g]['d'] if g in self.m.globals else g for g in self.w.it.gwrites)


def expected(got, text):
    """what a parameter of this kind holds after being set to text"""
    k = got[0]
    if k == 'd':
        return rs('parsed')
    if k == 'b':
        return ic(1 if text in ('yes', 'true') else 0, 1)
    if k == 's':
        return text
    if k == 'i':
        w = got[2].a[0]
        b = E.icast('trunc', sym('parsedi', E.I(64)), w & ~7)
        return E.icast('sext' if w & 1 else 'zext', b, 64) if (w & ~7) < 64 else b


def same(a, b):
    return a == b if isinstance(a, str) else a is b


def clean(v):
    """the value part of a line, as the parameter files document it"""
    v = v.split('#')[0].strip(' \t')
    if v[:1] in ('"', "'"):
        v = v[1:-1]
    return v


def one(n, pub, kinds):
    p = Part()
    m = load(pub)
    k = kinds[n]
    vals = {'d': ['3.25', '-1e-3 # remark', '"2.5"', '8# a # b'], 'i': ['12', '7\t# remark', '9 # a # b'], 'b': ['yes', 'no', 'true', 'false', '"yes"', 'yes  # remark', "'no'", 'true # not # false'],
            's': ['plain', '"in quotes"', "'single' # remark", 'x' * (STR - 1), 'two  words\t # remark', '"q" # a # "b"']}.get(k)
    if vals is None:
        vals = [v for v, _ in KEYS[n]] + ['"%s"' % v for v, _ in KEYS[n]]
    bad, stray = [], []
    for v in vals:
        q = Pars(m)
        # arrive from two different stored values so that a value left alone is noticed
        for first in ([None] if k in 'di' else ['no' if clean(v) in ('yes', 'true') else 'yes'] if k == 'b' else ['other'] if k == 's' else [next(x for x, e in KEYS[n] if e != dict(KEYS[n])[clean(v)])]):
            if first is not None and not q.set(n, first):
                bad.append('%s = %s is refused' % (n, first))
        q.text = []
        if not q.set(n, v):
            bad.append('%s = %s is refused' % (n, v[:40]))
            continue
        wr = q.written()
        st = [x for x in wr if x != 'param::_' + n and 'guard variable' not in x]
        if st:
            stray.append('%s = %s also writes %s' % (n, v[:40], ', '.join(st)))
        g = q.get(n)
        if k == 'k':
            want = q.enum(dict(KEYS[n])[clean(v)])
        else:
            want = expected(g, clean(v))
        if not same(g[1], want):
            bad.append('%s = %s stores %s' % (n, v[:40], g[1] if isinstance(g[1], str) else E.show(g[1])))
        if k in 'di' and [t.strip(' \t') for t in q.text] != [clean(v)]:
            bad.append('%s = %s reads the number from %s' % (n, v, q.text))
        p.used(q.w.it, m)
    wh = where(m, 'param::set_param')
    p.ob('set:' + n, not bad, wh, detail='; '.join(bad[:3]) or '%d values' % len(vals), how='interpretation over concrete text')
    p.ob('only:' + n, not stray, wh, detail='; '.join(stray[:3]) or 'no other parameter written', how='effects of interpretation')
    if k == 's':
        q = Pars(m)
        over = []
        for L in (STR, STR + 1, 2 * STR):
            if q.set(n, 'y' * L):
                g = q.get(n)
                over.append('%d characters accepted' % L)
        p.ob('long:' + n, not over, wh, detail='; '.join(over) or 'values that do not fit are refused', how='interpretation over concrete text')
    return p


def unknown(L, pub):
    """names next to the published ones are refused and set nothing"""
    p = Part()
    m = load(pub)
    q = Pars(m)
    near = set()
    for n in pub:
        for c in (n[:-1], n + 'x', n + '_', 'x' + n, n[1:], n.upper(), n[:-1] + chr(ord(n[-1]) ^ 1), chr(ord(n[0]) ^ 1) + n[1:], n.replace('_', ' ', 1), '_' + n):
            if c and c not in pub and len(c) % 8 == L:
                near.add(c)
    bad = []
    for c in sorted(near):
        q = Pars(m)
        if q.set(c, '1'):
            bad.append('unknown name %s accepted' % c)
        wr = [x for x in q.written() if x.startswith('param::')]
        if wr:
            bad.append('%s sets %s' % (c, ', '.join(wr)))
    p.used(q.w.it, m)
    p.ob('unknown:%d' % L, not bad, where(m, 'param::set_param'), detail='; '.join(bad[:3]) or '%d neighbouring names refused' % len(near), how='interpretation over concrete text')
    return p


def files(i, lines, want, pub, kinds):
    """parameter files: layout of lines"""
    p = Part()
    m = load(pub)
    q = Pars(m, list(lines))
    ok = q.read()
    msg = ''
    if want is None:
        if ok:
            msg = 'accepted'
        elif [x for x in q.written() if x.startswith('param::')]:
            msg = 'parameters written before it is refused'
    elif not ok:
        msg = 'refused'
    else:
        wr = sorted(x for x in q.written() if x.startswith('param::'))
        if wr != sorted('param::_' + n for n in want):
            msg = 'sets %s' % ', '.join(wr)
        for n, v in want.items():
            g = q.get(n)
            e = expected(g, v)
            if not same(g[1], e):
                msg = msg or '%s holds %s' % (n, g[1] if isinstance(g[1], str) else E.show(g[1]))
        nums = [v for n, v in want.items() if kinds[n] in 'di']
        if sorted(t.strip(' \t') for t in q.text) != sorted(nums):
            msg = msg or 'numbers read from %s' % q.text
    p.used(q.w.it, m)
    p.ob('file:%d' % i, not msg, where(m, 'param::read_params'), detail=(msg + ' for ' if msg else '') + repr(lines)[:160], how='interpretation over concrete text')
    return p


def job(f, a):
    return f(*a)


def p24():
    ck = Check('P24', 'setting a parameter stores the value given into that parameter and writes no other; other names and values that do not fit end the program; files are read line by line as documented',
               ['the conversion of text to a number is the stream library\'s'])
    pub = names()
    m = load(pub)
    kinds = {}
    for n in pub:
        q = Pars(m)
        kinds[n] = q.get(n)[0]
    jobs = [(one, (n, pub, kinds)) for n in pub] + [(unknown, (L, pub)) for L in range(8)]
    num = [n for n in pub if kinds[n] == 'd']
    ints = [n for n in pub if kinds[n] == 'i']
    bools = [n for n in pub if kinds[n] == 'b']
    strs = [n for n in pub if kinds[n] == 's']
    if not (len(num) > 10 and len(ints) > 5 and len(bools) > 5 and len(strs) > 5):
        raise Incomplete('parameters not found')
    a, b, c, d = 'sph_eta', 'nparticles', 'adaptive_timestep', 'initial_data_prefix'
    if not ({a, b, c, d} <= set(pub)):
        a, b, c, d = num[0], ints[0], bools[0], strs[0]
    F = [([a + ' = 1.5'], {a: '1.5'}), (['%s=1.5' % a], {a: '1.5'}), (['   %s\t=\t1.5   ' % a], {a: '1.5'}), (['%s = 1.5# note' % a], {a: '1.5'}), (['%s = 1.5   # note = 3' % a], {a: '1.5'}),
         (['', '# comment', '   # %s = 2' % a, '\t', '  \t ', '%s = 2.5' % a], {a: '2.5'}), (['#%s = 2' % a], {}), (['  '], {}), ([], {}),
         (['%s = 1' % a, '%s = 2' % b, '%s = yes' % c, '%s = "out put"' % d], {a: '1', b: '2', c: 'yes', d: 'out put'}),
         (['%s = "a=b"  # x' % d], {d: 'a=b'}), (["%s = 'a'" % d], {d: 'a'}), (['%s = plain' % d], {d: 'plain'}), (['%s = yes' % c], {c: 'yes'}), (['%s = no # yes' % c], {c: 'no'}),
         (['\t%s =  7 ' % b, '', '%s = 8.25' % a], {b: '7', a: '8.25'}), (['%s = 1' % a, '# end'], {a: '1'}), (['%s = "v" # one # two = 3' % d], {d: 'v'}),
         ([a], None), (['= 3'], None), (['%s =' % a], None), (['%s =   ' % a], None), (['no_such_parameter = 3'], None), (['  %s 3' % a], None)]
    jobs += [(files, (i, l, x, pub, kinds)) for i, (l, x) in enumerate(F)]
    for p in pmap(job, jobs):
        ck.extend(p)
    ck.units = ['par.cc']
    ck.stats['parameters'] = len(pub)
    return finish(ck, 200)
