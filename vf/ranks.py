"""Several ranks interpreted side by side.  Every rank runs the same code on its own abstract
state; whenever it communicates it stops until the messages it needs are there.  Blocking sends
wait for their receiver (the least buffering a message-passing library may offer)."""
import threading
from .expr import *
from . import expr as E
from .interp import Incomplete
from .mpi import dtype, OPS, gname

ANY = -1


class Mismatch(Exception):
    """the ranks cannot all continue"""


class Stop(BaseException):
    pass


class Fleet:
    def __init__(self, n):
        self.n = n
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.back = threading.Semaphore(0)
        self.pend = [None] * n      # what each blocked rank waits for
        self.res = [None] * n
        self.err = [None] * n
        self.out = [None] * n
        self.state = ['new'] * n    # new, ready, blocked, done
        self.sends = []             # posted and not yet received
        self.recvs = []
        self.trace = [[] for _ in range(n)]
        self.problems = []
        self.nreq = 0
        self.halt = False
        self.types = [dict() for _ in range(n)]
        self.open = [dict() for _ in range(n)]  # requests not yet completed, per rank
        self.colls = 0
        self.msgs = 0
        self.idle = 0               # polls in a row that found nothing to do
        self.patience = 400
        self.lazy = 0               # how often a poll overlooks waiting messages (a schedule)
        self.turn = [0] * n
        self.seen = [r % 2 for r in range(n)]

    # ---- scheduling ---------------------------------------------------------
    log = None                      # the fleets that have sailed, when somebody keeps the log

    def go(self, bodies):
        """run one function per rank to the end; bodies[r]() may communicate"""
        self.failed = None
        if Fleet.log is not None:
            Fleet.log.append(self)
        try:
            return self.sail(bodies)
        except Mismatch as e:
            self.failed = str(e)
            raise

    def sail(self, bodies):
        def start(r):
            def f():
                self.sem[r].acquire()
                try:
                    if not self.halt:
                        self.out[r] = bodies[r]()
                except Stop:
                    pass
                except BaseException as e:  # noqa
                    self.err[r] = e
                self.state[r] = 'done'
                self.back.release()
            return threading.Thread(target=f)
        ts = [start(r) for r in range(self.n)]
        for t in ts:
            t.start()
        self.state = ['ready'] * self.n
        try:
            while True:
                ran = False
                for r in range(self.n):
                    if self.state[r] == 'ready':
                        ran = True
                        self.sem[r].release()
                        self.back.acquire()
                        if self.err[r] is not None:
                            raise self.err[r]
                if ran:
                    continue
                if all(s == 'done' for s in self.state):
                    break
                moved = self.progress()
                again = [r for r in range(self.n) if self.state[r] == 'polling']
                if moved:
                    self.idle = 0
                elif again:
                    self.idle += 1
                for r in again:
                    self.state[r] = 'ready'
                if self.idle > self.patience:
                    raise Mismatch('some ranks ask for messages that never come: ' + '; '.join('rank %d %s' % (r, 'has ended' if self.state[r] == 'done' else 'waits in ' + self.show(self.pend[r]) if self.pend[r] else 'polls') for r in range(self.n)))
                if not moved and not again:
                    raise Mismatch('; '.join('rank %d %s' % (r, 'has ended' if self.state[r] == 'done' else 'waits in ' + self.show(self.pend[r])) for r in range(self.n)))
        finally:
            self.halt = True
            for r in range(self.n):
                if self.state[r] != 'done':
                    self.sem[r].release()
                    self.back.acquire()
            for t in ts:
                t.join()
        left = ['rank %d -> %d (tag %s)' % (s['src'], s['dst'], s['tag']) for s in self.sends]
        left += ['receive on rank %d from %d' % (q['dst'], q['src']) for q in self.recvs]
        if left:
            self.problems.append('messages never matched: ' + ', '.join(left[:4]))
        for r in range(self.n):
            if self.open[r]:
                self.problems.append('rank %d ends with %d requests never waited for' % (r, len(self.open[r])))
        return self.out

    def show(self, p):
        return p['op'] + (' with ' + ', '.join('%s %s' % (k, p[k]) for k in ('dst', 'src', 'root') if p.get(k) is not None) if any(p.get(k) is not None for k in ('dst', 'src', 'root')) else '')

    def block(self, r, op):
        self.pend[r] = op
        self.state[r] = 'blocked'
        self.back.release()
        self.sem[r].acquire()
        if self.halt:
            raise Stop()
        self.state[r] = 'ready'
        return self.res[r]

    def poll(self, r):
        """let the other ranks run, then return to this one"""
        self.state[r] = 'polling'
        self.back.release()
        self.sem[r].acquire()
        if self.halt:
            raise Stop()
        self.state[r] = 'ready'

    def arrived(self, r, src, tag):
        """the messages rank r could receive next: of each sender the first that matches"""
        seen, out = set(), []
        for s in self.sends:
            if s['dst'] == r and src in (ANY, s['src']) and tag in (ANY, s['tag']) and s['src'] not in seen and not any(q['dst'] == r and q['src'] in (ANY, s['src']) and q['tag'] in (ANY, s['tag']) for q in self.recvs):
                seen.add(s['src'])
                out.append(s)
        return out

    def progress(self):
        moved = self.match()
        for r in range(self.n):
            p = self.pend[r]
            if self.state[r] == 'blocked' and p.get('probe') is not None and self.arrived(r, *p['probe']):
                self.state[r], moved = 'ready', True
                self.pend[r] = None
        for r in range(self.n):
            p = self.pend[r]
            if self.state[r] == 'blocked' and p.get('parts') is not None and all(x['done'] for x in p['parts']):
                self.state[r], moved = 'ready', True
                self.res[r] = p
                self.pend[r] = None
        if moved:
            return True
        cs = [self.pend[r] for r in range(self.n)]
        if all(self.state[r] == 'blocked' and cs[r].get('coll') for r in range(self.n)):
            sig = [c['sig'] for c in cs]
            if any(s != sig[0] for s in sig):
                raise Mismatch('the ranks meet in different collectives: ' + ', '.join('rank %d %s' % (r, c['op'] + ' ' + str(c['sig'][1:])) for r, c in enumerate(cs)))
            if len({c['under'] for c in cs}) != 1:
                self.problems.append('%s at %s is entered under conditions that differ between ranks' % (cs[0]['op'], cs[0]['at']))
            rs = cs[0]['fin'](cs)
            self.colls += 1
            for r in range(self.n):
                self.res[r] = rs[r]
                self.state[r] = 'ready'
                self.pend[r] = None
            return True
        return False

    def match(self):
        any_ = False
        for q in list(self.recvs):
            for s in self.sends:
                if s['dst'] == q['dst'] and q['src'] in (ANY, s['src']) and q['tag'] in (ANY, s['tag']):
                    if q['src'] == ANY and len({x['src'] for x in self.sends if x['dst'] == q['dst']}) > 1:
                        raise Incomplete('receive from any source with several candidates')
                    if s['bytes'] > q['bytes']:
                        self.problems.append('rank %d sends %d bytes to rank %d, which expects %d at %s' % (s['src'], s['bytes'], s['dst'], q['bytes'], q['at']))
                    elif s['bytes'] != q['bytes'] and q.get('exact', True):
                        self.problems.append('rank %d expects %d bytes from rank %d, which sends %d at %s' % (q['dst'], q['bytes'], s['src'], s['bytes'], q['at']))
                    if s['under'] != q['under']:
                        self.problems.append('the message %s is sent and received under different conditions' % q['at'])
                    q['payload'], q['from'], q['len'], q['ttag'] = s['payload'], s['src'], s['bytes'], s['tag']
                    q['done'] = s['done'] = True
                    self.sends.remove(s)
                    self.recvs.remove(q)
                    self.msgs += 1
                    any_ = True
                    break
        return any_

    # ---- models -------------------------------------------------------------
    def models(self, r):
        F = self

        def con(x, what):
            if not isc(x):
                raise Incomplete('%s is not known' % what)
            return E.sval(x)

        def under(it):
            return tuple(sorted({(c.id, v) for c, v in it.assume}))

        def at(it, i):
            return '%s:%s' % (it.stack[-1].fn.dem[:60] if it.stack else '', i[-1].get('l') if isinstance(i[-1], dict) else '')

        def note(it, i, name, *xs):
            F.trace[r].append((name,) + xs)

        def elem(it, st, t):
            """(bytes, kind) of a datatype handle"""
            if t.op == 'ptr' and t.a[0] in F.types[r]:
                d = F.types[r][t.a[0]]
                if d is None or d[2] != 'committed':
                    F.problems.append('rank %d communicates with a datatype that is %s' % (r, 'freed' if d is None else 'not committed'))
                return (d[0], None) if d else (0, None)
            return dtype(it, t)

        def snap(it, st, p, n):
            if n == 0:
                return None
            o = it.alloc(st, 'message', n)
            it.memcpy(st, o, p, ic(n, 64))
            x = st.mem[o.a[0]]
            st.own.discard(o.a[0])
            return x

        def put(it, st, p, x, n):
            if n == 0 or x is None:
                return
            o = it.alloc(st, 'message', n)
            st.mem[o.a[0]] = x
            st.own.discard(o.a[0])
            it.memcpy(st, p, o, ic(n, 64))

        def isinplace(p):
            return isc(p) and p.k[0] == 'i' and E.sval(p) in (1,) or p.op == 'i2p' and isc(p.a[0]) and p.a[0].a[0] == 1

        def coll(name, sig, fin):
            """sig(it, st, a) -> (key, data); fin(cs) -> list of per-rank results applied by apply"""
            def f(it, st, a, i):
                key, data, apply = sig(it, st, a, i)
                note(it, i, name, *key)
                op = {'op': name, 'coll': True, 'sig': (name,) + key, 'data': data, 'fin': fin, 'under': under(it), 'at': at(it, i)}
                res = F.block(r, op)
                apply(res)
                return ic(0, 32)
            return f

        def nop(cs):
            return [None] * len(cs)

        def barrier(it, st, a, i):
            return (), None, lambda x: None

        def reduce(root):
            def sig(it, st, a, i):
                src, dst = a[0], a[1]
                n = con(a[2], 'the number of reduced values')
                sz, k = elem(it, st, a[3])
                o = OPS.get(gname(it, a[4]))
                if o is None:
                    raise Incomplete('unknown reduction operation')
                rt = con(a[5], 'the root') if root else None
                if isinplace(src):
                    src = dst
                vals = [it.load(st, padd(src, ic(sz * j, 64)), sz, k) for j in range(n)]

                def apply(res):
                    if rt is None or rt == r:
                        for j, v in enumerate(res):
                            it.store(st, padd(dst, ic(sz * j, 64)), sz, v)
                return (n, sz, str(k), o, rt), (vals, o, k), apply

            def fin(cs):
                vs = [c['data'][0] for c in cs]
                o, k = cs[0]['data'][1:]
                out = []
                for j in range(len(vs[0])):
                    x = vs[0][j]
                    for v in vs[1:]:
                        x = F.combine(o, x, v[j], k)
                    out.append(x)
                return [out] * len(cs)
            return coll('MPI_Reduce' if root else 'MPI_Allreduce', sig, fin)

        def bcast(it, st, a, i):
            sz, _ = elem(it, st, a[2])
            n = con(a[1], 'the broadcast count') * sz
            rt = con(a[3], 'the root')

            def apply(res):
                if rt != r:
                    put(it, st, a[0], res, n)
            return (n, rt), (snap(it, st, a[0], n) if rt == r else None), apply

        def bfin(cs):
            return [[c['data'] for c in cs if c['data'] is not None][0] if cs[0]['sig'][1] else None] * len(cs)

        def gather(root, all_):
            def sig(it, st, a, i):
                ssz, _ = (0, None) if isinplace(a[0]) else elem(it, st, a[2])
                rt = con(a[6], 'the root') if root else None
                rsz, _ = elem(it, st, a[5]) if (not root or rt == r) else (0, None)
                rn = con(a[4], 'the receive count') * rsz if (not root or rt == r) else None
                if isinplace(a[0]):
                    n = rn
                    src = padd(a[3], ic(n * r, 64))
                else:
                    n = con(a[1], 'the send count') * ssz
                    src = a[0]
                if rn is not None and rn != n:
                    F.problems.append('rank %d gives %d bytes where %d are expected at %s' % (r, n, rn, at(it, i)))

                def apply(res):
                    if rn is not None:
                        for q, x in enumerate(res):
                            put(it, st, padd(a[3], ic(rn * q, 64)), x, min(rn, n))
                return (n, rt), snap(it, st, src, n), apply
            return coll('MPI_Gather' if root else 'MPI_Allgather', sig, lambda cs: [[c['data'] for c in cs]] * len(cs))

        def gatherv(root):
            def sig(it, st, a, i):
                rt = con(a[7], 'the root') if root else None
                here = not root or rt == r
                ssz, _ = elem(it, st, a[2])
                n = con(a[1], 'the send count') * ssz
                cnt = dis = None
                if here:
                    rsz, _ = elem(it, st, a[6])
                    g = lambda p, w: [con(it.load(st, padd(p, ic(4 * j, 64)), 4, E.I(32)), w) * rsz for j in range(F.n)]
                    cnt, dis = g(a[4], 'a receive count'), g(a[5], 'a displacement')

                def apply(res):
                    if here:
                        spans = []
                        for q, (m, x) in enumerate(res):
                            if m != cnt[q]:
                                F.problems.append('rank %d expects %d bytes of rank %d, which gives %d at %s' % (r, cnt[q], q, m, at(it, i)))
                            F.span(spans, dis[q], cnt[q], at(it, i))
                            put(it, st, padd(a[3], ic(dis[q], 64)), x, min(m, cnt[q]))
                return (rt,), (n, snap(it, st, a[0], n)), apply
            return coll('MPI_Gatherv' if root else 'MPI_Allgatherv', sig, lambda cs: [[c['data'] for c in cs]] * len(cs))

        def alltoall(it, st, a, i):
            ssz, _ = elem(it, st, a[2])
            rsz, _ = elem(it, st, a[5])
            n, m = con(a[1], 'the send count') * ssz, con(a[4], 'the receive count') * rsz
            if n != m:
                F.problems.append('sends %d bytes where %d are expected at %s' % (n, m, at(it, i)))

            def apply(res):
                for q, x in enumerate(res):
                    put(it, st, padd(a[3], ic(m * q, 64)), x[r], m)
            return (n,), [snap(it, st, padd(a[0], ic(n * q, 64)), n) for q in range(F.n)], apply

        def alltoallv(it, st, a, i):
            ssz, _ = elem(it, st, a[3])
            rsz, _ = elem(it, st, a[7])
            g = lambda p, sz, w: [con(it.load(st, padd(p, ic(4 * j, 64)), 4, E.I(32)), w) * sz for j in range(F.n)]
            sc, sd, rc_, rd = g(a[1], ssz, 'a send count'), g(a[2], ssz, 'a send displacement'), g(a[5], rsz, 'a receive count'), g(a[6], rsz, 'a receive displacement')

            def apply(res):
                spans = []
                for q, x in enumerate(res):
                    m, y = x[r]
                    if m != rc_[q]:
                        F.problems.append('rank %d expects %d bytes of rank %d, which sends %d at %s' % (r, rc_[q], q, m, at(it, i)))
                    F.span(spans, rd[q], rc_[q], at(it, i))
                    put(it, st, padd(a[4], ic(rd[q], 64)), y, min(m, rc_[q]))
            return (), [(sc[q], snap(it, st, padd(a[0], ic(sd[q], 64)), sc[q])) for q in range(F.n)], apply
        same = lambda cs: [[c['data'] for c in cs]] * len(cs)

        def who(x):
            v = con(x, 'the partner')
            if v != ANY and not 0 <= v < F.n:
                F.problems.append('rank %d addresses rank %d of %d' % (r, v, F.n))
                raise Mismatch('rank %d addresses rank %d of %d' % (r, v, F.n))
            return v

        def post_send(it, st, a, i, n0=0):
            sz, _ = elem(it, st, a[n0 + 2])
            n = con(a[n0 + 1], 'the message length') * sz
            if n < 0:
                raise Mismatch('negative message length')
            s = {'src': r, 'dst': who(a[n0 + 3]), 'tag': con(a[n0 + 4], 'the tag'), 'bytes': n, 'payload': snap(it, st, a[n0], n), 'done': False, 'under': under(it), 'at': at(it, i), 'buf': a[n0]}
            F.sends.append(s)
            F.idle = 0
            note(it, i, 'send', s['dst'], s['tag'], n)
            return s

        def post_recv(it, st, a, i, n0=0):
            sz, _ = elem(it, st, a[n0 + 2])
            n = con(a[n0 + 1], 'the message length') * sz
            q = {'dst': r, 'src': who(a[n0 + 3]), 'tag': con(a[n0 + 4], 'the tag'), 'bytes': n, 'done': False, 'under': under(it), 'at': at(it, i), 'buf': a[n0]}
            F.recvs.append(q)
            note(it, i, 'receive', q['src'], q['tag'], n)
            return q

        def land(it, st, q):
            put(it, st, q['buf'], q['payload'], min(q['len'], q['bytes']))

        def status(it, st, p, q):
            if p.op == 'ptr':
                it.store(st, p, 4, ic(q['from'], 32))
                it.store(st, padd(p, ic(4, 64)), 4, ic(q['ttag'], 32))
                it.store(st, padd(p, ic(8, 64)), 4, ic(0, 32))
                it.store(st, padd(p, ic(16, 64)), 8, ic(q['len'], 64))

        def wait_for(it, i, name, parts, **kw):
            if any(not x['done'] for x in parts):
                F.block(r, dict({'op': name, 'parts': parts, 'at': at(it, i)}, **kw))

        def sendrecv(it, st, a, i):
            s = post_send(it, st, a, i)
            q = post_recv(it, st, a, i, 5)
            wait_for(it, i, 'MPI_Sendrecv', [s, q], dst=s['dst'], src=q['src'])
            land(it, st, q)
            status(it, st, a[11], q)
            return ic(0, 32)

        def send(it, st, a, i):
            s = post_send(it, st, a, i)
            wait_for(it, i, 'MPI_Send', [s], dst=s['dst'])
            return ic(0, 32)

        def recv(it, st, a, i):
            q = post_recv(it, st, a, i)
            wait_for(it, i, 'MPI_Recv', [q], src=q['src'])
            land(it, st, q)
            status(it, st, a[6], q)
            return ic(0, 32)

        def request(it, st, p, x):
            F.nreq += 1
            h = it.alloc(st, 'request', 8)
            F.open[r][h.a[0]] = x
            it.store(st, p, 8, h)

        def isend(it, st, a, i):
            request(it, st, a[6], post_send(it, st, a, i))
            return ic(0, 32)

        def irecv(it, st, a, i):
            request(it, st, a[6], post_recv(it, st, a, i))
            return ic(0, 32)

        def finish(it, st, p, i, name):
            h = it.load(st, p, 8, E.P)
            if h.op != 'ptr' or h.a[0] not in F.open[r]:
                g = gname(it, h) if h.op == 'ptr' else None
                if g and 'request_null' in g:
                    return
                F.problems.append('rank %d waits for a request that was never started at %s' % (r, at(it, i)))
                return
            x = F.open[r].pop(h.a[0])
            wait_for(it, i, name, [x], dst=x['dst'], src=x['src'])
            if 'payload' in x and x['dst'] == r and 'from' in x:
                land(it, st, x)
            elif x['bytes']:
                y = snap(it, st, x['buf'], x['bytes'])
                if not same_bytes(y, x['payload']):
                    F.problems.append('rank %d changes a message before its send completes at %s' % (r, at(it, i)))

        def same_bytes(x, y):
            return x is y or x is not None and y is not None and {k: v for k, v in x.cells.items()} == {k: v for k, v in y.cells.items()}

        def wait(it, st, a, i):
            finish(it, st, a[0], i, 'MPI_Wait')
            return ic(0, 32)

        def waitall(it, st, a, i):
            for j in range(con(a[0], 'the number of requests')):
                finish(it, st, padd(a[1], ic(8 * j, 64)), i, 'MPI_Waitall')
            return ic(0, 32)

        def choose(it, st, src, tag, at_):
            c = F.arrived(r, src, tag)
            if not c:
                return None
            F.turn[r] += 1
            return c[F.turn[r] % len(c)] if F.lazy else c[0]

        def told(it, st, p, s):
            if p.op == 'ptr':
                it.store(st, p, 4, ic(s['src'], 32))
                it.store(st, padd(p, ic(4, 64)), 4, ic(s['tag'], 32))
                it.store(st, padd(p, ic(8, 64)), 4, ic(0, 32))
                it.store(st, padd(p, ic(16, 64)), 8, ic(s['bytes'], 64))

        def iprobe(it, st, a, i):
            F.poll(r)
            F.seen[r] += 1
            s = choose(it, st, con(a[0], 'the partner'), con(a[1], 'the tag'), i)
            if s is not None and F.lazy and F.seen[r] % F.lazy:
                s = None
            it.store(st, a[3], 4, ic(1 if s else 0, 32))
            if s is not None:
                F.idle = 0
                told(it, st, a[4], s)
            return ic(0, 32)

        def probe(it, st, a, i):
            src, tag = con(a[0], 'the partner'), con(a[1], 'the tag')
            if not F.arrived(r, src, tag):
                F.block(r, {'op': 'MPI_Probe', 'probe': (src, tag), 'src': src, 'at': at(it, i)})
            told(it, st, a[3], choose(it, st, src, tag, i))
            return ic(0, 32)

        def count(it, st, a, i):
            sz, _ = elem(it, st, a[1])
            n = con(it.load(st, padd(a[0], ic(16, 64)), 8, E.I(64)), 'the length of a message')
            it.store(st, a[2], 4, ic(n // sz if sz and n % sz == 0 else -32766, 32))
            return ic(0, 32)

        def test(it, st, a, i):
            h = it.load(st, a[0], 8, E.P)
            x = F.open[r].get(h.a[0]) if h.op == 'ptr' else None
            done = x is None or x['done']
            if x is not None and done:
                F.open[r].pop(h.a[0])
                if 'payload' in x and x['dst'] == r and 'from' in x:
                    land(it, st, x)
                elif x['bytes'] and not same_bytes(snap(it, st, x['buf'], x['bytes']), x['payload']):
                    F.problems.append('rank %d changes a message before its send completes at %s' % (r, at(it, i)))
            it.store(st, a[1], 4, ic(1 if done else 0, 32))
            return ic(0, 32)

        def rank(it, st, a, i):
            it.store(st, a[1], 4, ic(r, 32))
            return ic(0, 32)

        def size(it, st, a, i):
            it.store(st, a[1], 4, ic(F.n, 32))
            return ic(0, 32)

        def contiguous(it, st, a, i):
            t = it.alloc(st, 'datatype', 8)
            F.types[r][t.a[0]] = (con(a[0], 'a datatype length') * elem(it, st, a[1])[0], None, 'new')
            it.store(st, a[2], 8, t)
            return ic(0, 32)

        def commit(it, st, a, i):
            t = it.load(st, a[0], 8, E.P)
            if t.op == 'ptr' and t.a[0] in F.types[r]:
                F.types[r][t.a[0]] = F.types[r][t.a[0]][:2] + ('committed',)
            return ic(0, 32)

        def tfree(it, st, a, i):
            t = it.load(st, a[0], 8, E.P)
            if t.op == 'ptr' and t.a[0] in F.types[r]:
                F.types[r][t.a[0]] = None
            return ic(0, 32)
        return {'MPI_Iprobe': iprobe, 'MPI_Probe': probe, 'MPI_Get_count': count, 'MPI_Test': test, 'MPI_Comm_rank': rank, 'MPI_Comm_size': size, 'MPI_Barrier': coll('MPI_Barrier', barrier, nop), 'MPI_Allreduce': reduce(False), 'MPI_Reduce': reduce(True),
                'MPI_Bcast': coll('MPI_Bcast', bcast, bfin), 'MPI_Gather': gather(True, False), 'MPI_Allgather': gather(False, True), 'MPI_Gatherv': gatherv(True), 'MPI_Allgatherv': gatherv(False),
                'MPI_Alltoall': coll('MPI_Alltoall', alltoall, same), 'MPI_Alltoallv': coll('MPI_Alltoallv', alltoallv, same), 'MPI_Sendrecv': sendrecv, 'MPI_Send': send, 'MPI_Ssend': send, 'MPI_Recv': recv,
                'MPI_Isend': isend, 'MPI_Issend': isend, 'MPI_Irecv': irecv, 'MPI_Wait': wait, 'MPI_Waitall': waitall, 'MPI_Type_contiguous': contiguous, 'MPI_Type_commit': commit, 'MPI_Type_free': tfree}

    def span(self, spans, lo, n, at):
        if n and any(lo < b and a < lo + n for a, b in spans):
            self.problems.append('received pieces overlap at %s' % at)
        if n:
            spans.append((lo, lo + n))

    def combine(self, op, a, b, k):
        r = k == R
        if op == 'sum':
            return E.fbin('fadd', a, b) if r else E.ibin('add', a, b)
        if op in ('min', 'max'):
            c = E.fcmp('olt', b, a) if r else E.icmp('slt', b, a)
            return E.ite(c, b, a) if op == 'min' else E.ite(c, a, b)
        z = ic(0, k[1])
        x, y = E.bnot(E.icmp('eq', a, z)), E.bnot(E.icmp('eq', b, z))
        if op in ('land', 'lor'):
            return E.ite(E.band(x, y) if op == 'land' else E.bor(x, y), ic(1, k[1]), z)
        raise Incomplete('MPI operation ' + op)
