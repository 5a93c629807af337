"""Obligations, known findings, evidence and exit codes shared by the checks."""
import json
import os
import sys
import time
import traceback
from . import build
from .interp import Incomplete
from .alg import Undecided

ROOT = build.ROOT


class Ob:
    """one decided obligation"""
    __slots__ = ('key', 'ok', 'where', 'rule', 'detail', 'how')

    def __init__(self, key, ok, where='', rule='', detail='', how=''):
        self.key, self.ok, self.where, self.rule, self.detail, self.how = key, ok, where, rule, detail, how


class Check:
    def __init__(self, prop, rule, assumptions=(), floor=1):
        self.prop = prop
        self.rule = rule
        self.assumptions = list(assumptions)
        self.floor = floor
        self.obs = []
        self.fns = set()
        self.units = []
        self.stats = {}
        self.t0 = time.time()
        self.notes = []
        self.broken = []    # jobs that gave no answer

    def ob(self, key, ok, where='', rule='', detail='', how=''):
        self.obs.append(Ob(key, ok, where, rule or self.rule, detail, how))

    def extend(self, part):
        """merge a worker's result"""
        self.obs += part.obs
        self.fns |= part.fns
        self.units += part.units
        for k, v in part.stats.items():
            self.stats[k] = self.stats.get(k, 0) + v
        self.notes += part.notes
        self.broken += part.broken

    def used(self, it, m):
        """record what an interpreter run analysed"""
        for f in it.funcs:
            self.fns.add(m.fns[f].dem[:160])
        if os.environ.get('VF_WILD') and it.wild:
            print('WILD', it.wild, file=sys.stderr)
        for k, v in (('instructions_interpreted', it.ninst), ('branches_joined', it.nbranch)):
            self.stats[k] = self.stats.get(k, 0) + v


class Part(Check):
    live = []       # those of the running job

    def __init__(self):
        Check.__init__(self, '', '')
        Part.live.append(self)


def known():
    out = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip('\n')
            if line.startswith('known: '):
                d = dict(x.split('=', 1) for x in line[7:].split(' ', 2)[:2])
                out[(d['property'], d['key'])] = line[7:].split(' ', 2)[2]
    return out


def finish(ck, minobs):
    """write evidence, print the verdict, return the exit code"""
    kf = known()
    bad = [o for o in ck.obs if o.ok is False]
    und = [o for o in ck.obs if o.ok is None]
    good = [o for o in ck.obs if o.ok]
    viol, seen = [], {}
    for o in bad:
        if (ck.prop, o.key) in kf:
            seen[o.key] = o
        else:
            viol.append(o)
    tier = os.environ.get('VERIF_TIER', 'quick')
    hows = {}
    for o in good:
        hows[o.how or 'rule'] = hows.get(o.how or 'rule', 0) + 1
    fam = {}
    for o in ck.obs:
        fam[o.key.split(':')[0]] = fam.get(o.key.split(':')[0], 0) + 1
    cov = {
        'explanation': ck.rule,
        'obligations': len(ck.obs), 'discharged': len(good), 'undecided': len(und), 'known_findings': len(seen),
        'decided_by': hows, 'obligation_families': fam,
        'units_analysed': sorted(set(ck.units)), 'functions_analysed': len(ck.fns),
        'functions_sample': sorted(ck.fns, key=lambda x: (x.startswith(('std::', '__gnu', 'bool std', 'void std')) or ' std::' in x.split('(')[0] or '__gnu' in x.split('(')[0] or 'operator' in x, x))[:60],
        'samples': [{'key': o.key, 'where': o.where, 'detail': o.detail[:300]} for o in (good[:8] + bad[:8])],
    }
    cov.update(ck.stats)
    if ck.notes:
        cov['notes'] = ck.notes[:40]
    ev = {'property': ck.prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': cov, 'assumptions': ck.assumptions, 'wall_s': round(time.time() - ck.t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', ck.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d discharged, %d undecided, %d known, %d violated; %d functions, units: %s; %.1fs' % (
        ck.prop, len(ck.obs), len(good), len(und), len(seen), len(viol), len(ck.fns), ', '.join(sorted(set(ck.units))), ev['wall_s']))
    for k, o in sorted(seen.items()):
        print('KNOWN-FINDING: property=%s %s %s' % (ck.prop, k, kf[(ck.prop, k)]))
    if viol:
        rp = os.path.join(ROOT, 'evidence', 'replay')
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, ck.prop + '.txt')
        with open(path, 'w') as f:
            for o in viol:
                f.write('%s\n  at: %s\n  rule: %s\n  %s\n\n' % (o.key, o.where, o.rule, o.detail))
        for o in viol[:20]:
            print('  violated: %s at %s: %s' % (o.key, o.where, o.detail[:400]))
        print('VIOLATION property=%s replay=%s' % (ck.prop, path))
        return 1
    if ck.broken:
        print('%s: analysis incomplete: %s' % (ck.prop, '; '.join(ck.broken[:3])))
        return 5
    if und:
        for o in und[:10]:
            print('  undecided: %s at %s: %s' % (o.key, o.where, o.detail[:300]))
    if len(good) < minobs:
        print('analysis broken: %d obligations discharged, %d expected at least' % (len(good), minobs))
        return 3
    return 0


def main(prop, fn):
    """run a check body; any analysis failure is an error exit"""
    try:
        rc = fn()
    except build.BuildError as e:
        print('%s: build failed: %s' % (prop, e))
        rc = 4
    except (Incomplete, Undecided) as e:
        print('%s: analysis incomplete: %s' % (prop, e))
        rc = 5
    except Exception:
        traceback.print_exc()
        rc = 6
    sys.stdout.flush()
    return rc


def _job(f, j):
    """a job that gives no answer keeps what it found until then"""
    del Part.live[:]
    t0 = time.time()
    try:
        return f(*j)
    except (Incomplete, Undecided) as e:
        if not Part.live:
            raise
        p = Part.live[0]
        p.broken.append('%s%s: %s' % (f.__name__, str(j)[:120], e))
        return p
    finally:
        if os.environ.get('VF_TIME'):
            print('%8.1f s  %s%s' % (time.time() - t0, f.__name__, str(j)[:150]), file=sys.stderr, flush=True)


T0, BUDGET = time.time(), float(os.environ.get('VF_BUDGET', 780))


def pmap(f, jobs, n=8):
    """run jobs in forked workers; other exceptions propagate"""
    build.irdump()
    build.scratch()
    build.overlay()
    if len(jobs) == 1:
        return [_job(f, jobs[0])]
    import concurrent.futures as cf
    import multiprocessing as mp
    ex = cf.ProcessPoolExecutor(max_workers=min(n, len(jobs)), mp_context=mp.get_context('fork'))
    fs = [ex.submit(_job, f, j) for j in jobs]
    # a job that does not come to an end must not keep what the others found from being reported
    _, late = cf.wait(fs, timeout=None if os.environ.get('VERIF_TIER') == 'thorough' else max(10., BUDGET - (time.time() - T0)))
    if not late:
        ex.shutdown()
        return [x.result() for x in fs]
    out = []
    for x, j in zip(fs, jobs):
        if x in late:
            p = Part()
            p.broken.append('%s%s: no answer within %d s' % (f.__name__, str(j)[:120], BUDGET))
            out.append(p)
        else:
            out.append(x.result())
    for q in list((ex._processes or {}).values()):
        q.kill()
    ex.shutdown(wait=False, cancel_futures=True)
    return out
