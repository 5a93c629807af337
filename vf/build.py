"""Compilation of driver translation units against /repo's current sources."""
import hashlib
import os
import re
import shutil
import subprocess
import sys
import tempfile
import json
from . import ir

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('REPO', '/repo')
CLANG = '/usr/lib/llvm-18/bin/clang++'
SCRATCH = None
CACHE = {}


class BuildError(Exception):
    pass


def scratch():
    global SCRATCH
    if SCRATCH is None:
        SCRATCH = tempfile.mkdtemp(prefix='vf.')
        import atexit
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(SCRATCH, ignore_errors=True))
    return SCRATCH


def irdump():
    exe = os.path.join(ROOT, 'build', 'irdump')
    src = os.path.join(ROOT, 'tool', 'irdump.cc')
    if os.path.exists(exe) and os.path.getmtime(exe) >= os.path.getmtime(src):
        return exe
    out = os.path.join(ROOT, 'build')
    try:
        os.makedirs(out, exist_ok=True)
        probe = os.path.join(out, '.w')
        open(probe, 'w').close()
        os.unlink(probe)
    except OSError:
        out = os.path.join(scratch(), 'tool')
    exe = os.path.join(out, 'irdump')
    if os.path.exists(exe):
        return exe
    r = subprocess.run(['make', '-C', os.path.join(ROOT, 'tool'), 'OUT=' + out], capture_output=True, text=True)
    if r.returncode or not os.path.exists(exe):
        raise BuildError('irdump: ' + r.stderr[-2000:])
    return exe


def overlay():
    """clang accepts three constructs less than g++ does; adapt them textually (same lines)"""
    d = scratch()
    p = os.path.join(d, 'overlay.yaml')
    if os.path.exists(p):
        return p
    ents = []
    for rel, subs in (('mpisph/utils.h', [(r'(std::vector<int>\s*&\s*\w+)\s*=\s*0\s*([,)])', r'\1\2')]),
                      ('include/physics/eos/eos.h', [(r'template\s*<>(\s*double\s+eos_t\s*<\s*param::eos_ppt\s*>\s*::\s*\w+\s*(=[^;()]*)?;)', r'\1')])):
        f = os.path.join(REPO, rel)
        if not os.path.exists(f):
            continue
        s = open(f).read()
        t = s
        for a, b in subs:
            t = re.sub(a, b, t)
        if t == s:
            continue
        o = os.path.join(d, 'ov_' + os.path.basename(rel))
        open(o, 'w').write(t)
        ents.append({'name': f, 'type': 'file', 'external-contents': o})
    y = {'version': 0, 'use-external-names': False, 'roots': ents}
    open(p, 'w').write(json.dumps(y))
    return p


def incs(gen=False):
    r = REPO
    o = ['-I' + ROOT + '/stubs', '-isystem', ROOT + '/stubs/sys', '-I' + r + '/include', '-I' + r + '/include/physics',
         '-I' + r + '/include/physics/eos', '-I' + r + '/include/tree_topology', '-I' + r + '/mpisph', '-I' + r + '/app/drivers/include']
    if gen:
        o += ['-I' + r + '/app/id_generators/include']
    o += ['-I' + ROOT + '/drivers', '-I' + r]
    o += ['-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include', '-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi', '-isystem', '/usr/include/hdf5/openmpi']
    return o


STRINGS = ('-include', ROOT + '/stubs/vf_strings.h')


def compile(src, dim, roots, defs=(), passes='function(sroa,early-cse,simplifycfg,lcssa)', gen=False, tag='', opt=('-O1', '-Xclang', '-disable-llvm-passes'), flags=(), ndebug=True):
    """compile src, dump the functions reachable from roots, load them"""
    d = scratch()
    ck = repr((src, dim, tuple(roots), tuple(defs), passes, gen, tuple(flags), ndebug, tuple(opt)))
    if ck in CACHE:
        return CACHE[ck]
    key = '%d.' % os.getpid() + hashlib.md5(repr((src, dim, roots, defs, passes, gen, flags, tag)).encode()).hexdigest()[:12]
    bc = os.path.join(d, key + '.bc')
    js = os.path.join(d, key + '.jsonl')
    cmd = [CLANG, '-std=gnu++17', '-w', '-fdelayed-template-parsing', '-ferror-limit=5', '-DEXT_GDIMENSION=%d' % dim, '-DPARALLEL_IO',
           '-DLOG_STRIP_LEVEL=0', *opt, '-gline-tables-only', '-ffp-contract=off', '-fno-math-errno', '-c', '-emit-llvm',
           '-ivfsoverlay', overlay()]
    if ndebug:
        cmd.append('-DNDEBUG')
    cmd += ['-D' + x for x in defs] + list(flags) + incs(gen) + [src, '-o', bc]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError('%s (dim %d) does not compile:\n%s' % (src, dim, r.stderr[:3000]))
    r = subprocess.run([irdump(), bc, js, passes] + list(roots), capture_output=True, text=True)
    if r.returncode:
        raise BuildError('irdump %s: %s' % (src, r.stderr[:2000]))
    m = ir.Module(js)
    os.unlink(bc)
    os.unlink(js)
    CACHE[ck] = m
    return m


def variables(src, dim, flags=()):
    """names of the variables a driver unit defines"""
    d = scratch()
    o = os.path.join(d, '%d.sym.o' % os.getpid())
    cmd = [CLANG, '-std=gnu++17', '-w', '-fdelayed-template-parsing', '-DEXT_GDIMENSION=%d' % dim, '-DPARALLEL_IO', '-DLOG_STRIP_LEVEL=0', '-DNDEBUG', '-c', '-ivfsoverlay', overlay()] + list(flags) + incs() + [src, '-o', o]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError('%s does not compile:\n%s' % (src, r.stderr[:3000]))
    r = subprocess.run(['/usr/lib/llvm-18/bin/llvm-nm', '-C', o], capture_output=True, text=True)
    os.unlink(o)
    return sorted({l.split(None, 2)[2] for l in r.stdout.splitlines() if len(l.split(None, 2)) == 3 and l.split()[1] in 'BbDdRrSsGg' and '(' not in l})
