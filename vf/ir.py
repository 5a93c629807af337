"""Loading of irdump output; control-flow graphs and post-dominators."""
import json


class Fn:
    def __init__(self, j):
        self.name = j['n']
        self.dem = j['d']
        self.noret = bool(j.get('noret'))
        self.ret = j['ret']
        self.args = j['args']
        self.decl = bool(j.get('decl'))
        self.file = j.get('file', '')
        self.line = j.get('line', 0)
        self._pd = None
        if not self.decl:
            self.order = [b for b, _ in j['blocks']]
            self.blocks = dict((b, i) for b, i in j['blocks'])
            self.entry = self.order[0]

    def succs(self, b):
        t = self.blocks[b][-1]
        op = t[1]
        if op == 'br':
            return [t[3]] if len(t) == 5 else [t[4], t[5]]
        if op == 'switch':
            return [t[4]] + [d for _, d in t[5]]
        if op == 'invoke':
            return [t[-3]]
        return []

    def preds(self):
        p = {b: [] for b in self.order}
        for b in self.order:
            for s in self.succs(b):
                p[s].append(b)
        return p

    def insts(self):
        for b in self.order:
            for i in self.blocks[b]:
                yield b, i

    def ends_noret(self, b, noret=None):
        """block cannot complete normally"""
        for i in self.blocks[b]:
            if i[1] in ('call', 'invoke') and call_noret(i):
                return True
            if noret and i[1] in ('call', 'invoke'):
                c = callee(i)
                if c in noret:
                    return True
        return self.blocks[b][-1][1] in ('unreachable', 'resume')

    def ipdom(self, noret=None):
        """immediate post-dominators, 'X' = exit; blocks that never complete are ignored"""
        if self._pd is not None:
            return self._pd
        ok = set()
        pr = self.preds()
        st = [b for b in self.order if self.blocks[b][-1][1] == 'ret' and not self.ends_noret(b, noret)]
        ok.update(st)
        while st:
            b = st.pop()
            for p in pr[b]:
                if p not in ok and not self.ends_noret(p, noret):
                    ok.add(p)
                    st.append(p)
        # blocks in infinite loops etc. are not in ok
        succ = {b: ([s for s in self.succs(b) if s in ok] if self.blocks[b][-1][1] != 'ret' else ['X']) for b in ok}
        # reverse postorder on the reverse graph
        rpred = {b: [] for b in ok}
        rpred['X'] = []
        for b in ok:
            for s in succ[b]:
                rpred[s].append(b)
        order, seen, stack = [], {'X'}, [('X', iter(rpred['X']))]
        while stack:
            n, it = stack[-1]
            for m in it:
                if m not in seen:
                    seen.add(m)
                    stack.append((m, iter(rpred[m])))
                    break
            else:
                order.append(n)
                stack.pop()
        num = {n: i for i, n in enumerate(order)}
        idom = {'X': 'X'}

        def inter(a, b):
            while a != b:
                while num[a] < num[b]:
                    a = idom[a]
                while num[b] < num[a]:
                    b = idom[b]
            return a
        ch = True
        while ch:
            ch = False
            for n in reversed(order[:-1]):
                new = None
                for s in succ[n]:
                    if s in idom:
                        new = s if new is None else inter(new, s)
                if new is not None and idom.get(n) != new:
                    idom[n] = new
                    ch = True
        self.okblocks = ok
        self._pd = idom
        return idom


def callee(i):
    c = i[3]
    if isinstance(c, list) and c[0] == 'g':
        return c[1]
    return None


def call_noret(i):
    return bool(i[6]) if len(i) > 6 else False


class Module:
    def __init__(self, path):
        self.fns = {}
        self.globals = {}
        with open(path) as f:
            for line in f:
                j = json.loads(line)
                if j['k'] == 'g':
                    self.globals[j['n']] = j
                else:
                    self.fns[j['n']] = Fn(j)
        self.bydem = {}
        for f in self.fns.values():
            self.bydem.setdefault(f.dem, f)
        # functions that never return (transitively, by their exits)
        self.noret = {f.name for f in self.fns.values() if f.noret}
        ch = True
        while ch:
            ch = False
            for f in self.fns.values():
                if f.decl or f.name in self.noret:
                    continue
                if not any(f.blocks[b][-1][1] == 'ret' and not f.ends_noret(b, self.noret) for b in f.order):
                    self.noret.add(f.name)
                    ch = True

    def defined(self):
        return [f for f in self.fns.values() if not f.decl]
