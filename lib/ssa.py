"""Helpers for rules that work directly on the SSA form of a function: definitions, dominators, facts of branches,
access paths from the parameters, definite assignment of freshly allocated records."""
import re


# accessors that give the same again as long as their object is not changed
PURE = re.compile(r'(normal_iterator<.*>::operator(\*|->)|std::vector<.*>::(size|operator\[\]|front|back|at)|shared_ptr_access<.*>::operator(\*|->)|shared_ptr<.*>::get)\(.*\)( const)?$')


class Fx:
    """a function with its definitions, predecessors and dominators"""
    cache = {}

    def __new__(cls, F):
        o = cls.cache.get(id(F))
        if o is None or o.F is not F:
            o = object.__new__(cls)
            o.F = F
            o.d = {}
            for b, blk in enumerate(F.blocks):
                for i, x in enumerate(blk):
                    o.d[x['k']] = (x, b, i)
            o.p = [[] for _ in F.blocks]
            for b in range(len(F.blocks)):
                for s in F.succ(b):
                    o.p[s].append(b)
            seen, w = {0}, [0]
            while w:
                for s in F.succ(w.pop()):
                    if s not in seen:
                        seen.add(s)
                        w.append(s)
            o.live = seen
            o._dom = None
            cls.cache[id(F)] = o
        return o

    def inst(self, o):
        return self.d[o[1]][0] if o[0] == 'i' and o[1] in self.d else None

    def block(self, k):
        return self.d[k][1]

    def insts(self):
        for b, blk in enumerate(self.F.blocks):
            if b in self.live:
                for x in blk:
                    yield b, x

    def doms(self):
        if self._dom is None:
            r = sorted(self.live)
            d = {b: set(r) for b in r}
            d[0] = {0}
            ch = True
            while ch:
                ch = False
                for b in r:
                    if b:
                        n = None
                        for q in self.p[b]:
                            if q in d:
                                n = set(d[q]) if n is None else n & d[q]
                        n = (n or set()) | {b}
                        if n != d[b]:
                            d[b] = n
                            ch = True
            self._dom = d
        return self._dom

    def facts(self, b):
        """conditions known in block b: (operand of the condition, truth) of the branches that dominate it"""
        out = []
        D = self.doms()
        for s in D.get(b, ()):
            ps = [q for q in self.p[s] if q in self.live]
            if len(ps) != 1:
                continue
            t = self.F.blocks[ps[0]][-1]
            if t['op'] == 'br' and len(t['s']) == 2 and t['s'][0] != t['s'][1]:
                out.append((t['o'][0], t['s'][0] == s))
        return out

    def alts(self, o, seen=None):
        """the possible definitions of an operand, through phis and selects"""
        seen = set() if seen is None else seen
        x = self.inst(o)
        if x is None or x['op'] not in ('phi', 'select'):
            return [tuple(o)]
        if x['k'] in seen:
            return []
        seen.add(x['k'])
        out = []
        for q in ([q for _, q in x['o']] if x['op'] == 'phi' else x['o'][1:]):
            out += self.alts(q, seen)
        return out

    def strip(self, o):
        x = self.inst(o)
        while x is not None and x['op'] in ('zext', 'sext', 'trunc', 'bitcast', 'inttoptr', 'ptrtoint'):
            o = x['o'][0]
            x = self.inst(o)
        return o

    def vn(self, o, depth=0):
        """a value number that sees through repeated loads of the same place (memory is not versioned)"""
        o = self.strip(o)
        x = self.inst(o)
        if x is None or depth > 30:
            return tuple(o)
        if x['op'] == 'load':
            return ('load',) + self.place(x['o'][0], depth + 1)
        if x['op'] == 'getelementptr':
            b, off = self.place(o, depth + 1)
            return ('ptr', b, off)
        if x['op'] in ('call', 'invoke') and x.get('fn') and PURE.search(self.F.mod.dem(x['fn'])):
            return ('call', PURE.search(self.F.mod.dem(x['fn'])).group(0).replace('operator->', 'operator*')) + tuple(self.vn(a, depth + 1) for a in x['o'])
        return ('i', x['k'])

    def place(self, o, depth=0):
        off = 0
        x = self.inst(o)
        while x is not None and x['op'] == 'getelementptr' and not x['var']:
            off += x['off']
            o = x['o'][0]
            x = self.inst(o)
        return (self.vn(o, depth), off)


def where(F, x):
    return '%s:%s in %s' % (x.get('f', F.file), x.get('l', F.line), F.dem)


# ---------------------------------------------------------------------------------------------------------------
class Assigned:
    """definite assignment: every record handed out by an allocator has its members set before they are read, and all
    of them when the function that allocated it is left"""

    def __init__(self, mod, rec, source, hints=()):
        self.mod, self.rec = mod, rec
        self.fields = [(n, o, s) for n, o, s, t in mod.allfields(rec)]
        self.deep = frozenset(o for n, o, s, t in mod.allfields(rec) if '::' in t and not t.endswith('*') and s > 4)
        self.source = source            # dem -> bool: hands out an unset record
        self.ret = {}                   # function -> frozenset of fields set in the fresh record it returns
        self.par = {}                   # (function, param) -> (fields set at every return, fields read before they are set)
        self.viol = []
        self.sites = {}

    def names(self, offs):
        return sorted(n for n, o, s in self.fields if o in offs)

    def cover(self, off, size):
        return frozenset(o for n, o, s in self.fields if off <= o and o + s <= off + size)

    def at(self, off):
        for n, o, s in self.fields:
            if o <= off < o + s:
                return o
        return None

    def all(self):
        return frozenset(o for n, o, s in self.fields)

    def roots(self, F):
        """value -> set of (root, offset)"""
        X = Fx(F)
        R = {}
        for b, x in X.insts():
            if x['op'] in ('call', 'invoke') and x.get('fn'):
                G = self.mod.fns.get(x['fn'])
                if self.source(self.mod.dem(x['fn'])):
                    R[x['k']] = {(('n', x['k']), 0)}
                elif G is not None and G.name in self.ret:
                    R[x['k']] = {(('n', x['k']), 0)}
        for i, a in enumerate(F.args):
            if a[1] == 'p':
                R[('a', i)] = {(('a', i), 0)}
        ch = True
        mem = {}        # what a local variable of pointer type may hold
        while ch:
            ch = False
            for b, x in X.insts():
                o = None
                if x['op'] == 'store' and x['w'] == 'p':
                    a = X.inst(x['o'][1])
                    if a is not None and a['op'] == 'alloca':
                        mem[a['k']] = mem.get(a['k'], set()) | self.look(R, x['o'][0])
                elif x['op'] == 'load' and x['t'] == 'p':
                    a = X.inst(x['o'][0])
                    if a is not None and a['op'] == 'alloca':
                        o = mem.get(a['k'], set())
                elif x['op'] == 'getelementptr' and not x['var']:
                    s = self.look(R, x['o'][0])
                    o = {(r, f + x['off']) for r, f in s}
                elif x['op'] == 'phi':
                    o = set().union(*[self.look(R, q) for _, q in x['o']])
                elif x['op'] == 'select':
                    o = self.look(R, x['o'][1]) | self.look(R, x['o'][2])
                if o:
                    o = {(r, f) for r, f in o if -64 <= f <= 4096}
                    if o - R.get(x['k'], set()):
                        R[x['k']] = R.get(x['k'], set()) | o
                        ch = True
        return R

    def direct(self, X, o, r):
        """the operand is the record itself, not a variable that may hold an earlier one"""
        x = X.inst(o)
        while x is not None and x['op'] == 'getelementptr' and not x['var']:
            o = x['o'][0]
            x = X.inst(o)
        return tuple(o) == ('i', r[1]) if r[0] == 'n' else tuple(o) == ('a', r[1])

    def look(self, R, o):
        return R.get(o[1], set()) if o[0] == 'i' else R.get(('a', o[1]), set()) if o[0] == 'a' else set()

    def run(self, F, report=False):
        """one pass over a function with the current summaries; returns True if a summary changed"""
        X = Fx(F)
        R = self.roots(F)
        allf = self.all()
        start = {('a', i): frozenset() for i, a in enumerate(F.args) if a[1] == 'p'}
        inn = {0: dict(start)}
        work = [0]
        need = {}
        rets = []
        seen = {}
        while work:
            b = work.pop()
            st = dict(inn[b])
            for x in F.blocks[b]:
                self.step(F, X, R, x, st, need, report, allf)
                if x['op'] == 'ret':
                    rets = [r for r in rets if r[0] is not x] + [(x, dict(st))]
            for s in F.succ(b):
                old = inn.get(s)
                if old is None:
                    new = dict(st)
                else:
                    new = {}
                    for r in set(old) | set(st):
                        if r in old and r in st:
                            new[r] = old[r] & st[r]
                        else:
                            new[r] = old.get(r, st.get(r))
                if new != old:
                    inn[s] = new
                    if s not in work:
                        work.append(s)
        ch = False
        # summaries
        for i, a in enumerate(F.args):
            if a[1] == 'p':
                r = ('a', i)
                got = allf
                for x, st in rets:
                    got = got & st[r]
                new = (got, frozenset(need.get(r, ())))
                if self.par.get((F.name, i), (allf, frozenset())) != new:
                    self.par[(F.name, i)] = new
                    ch = True
        fresh = None
        for x, st in rets:
            rv = self.look(R, x['o'][0]) if x.get('o') else set()
            rv = {r for r, f in rv if r[0] == 'n' and f == 0}
            for r in rv:
                s = st.get(r, allf)
                fresh = s if fresh is None else fresh & s
            if report:
                for r, s in st.items():
                    if r[0] == 'n' and r not in rv and allf - s:
                        self.bad(F, X, r, x, allf - s, 'left')
        if fresh is not None and fresh != self.ret.get(F.name):
            self.ret[F.name] = fresh
            ch = True
        return ch

    def bad(self, F, X, r, x, miss, how):
        self.viol.append((F, X.d[r[1]][0], x, self.names(miss), how))

    def step(self, F, X, R, x, st, need, report, allf):
        op = x['op']
        if op == 'store':
            p = self.look(R, x['o'][1])
            w = {'p': 8, 'f64': 8, 'f32': 4}.get(x['w']) or max(1, int(re.sub(r'\D', '', x['w']) or 64) // 8)
            for r, f in p:
                if r in st:
                    st[r] = st[r] | self.cover(f, w)
        elif op == 'load':
            p = self.look(R, x['o'][0])
            for r, f in p:
                a = self.at(f)
                if a is None or r not in st or a in st[r] or a in self.deep or not self.direct(X, x['o'][0], r):
                    continue
                if r[0] == 'a':
                    need.setdefault(r, set()).add(a)
                elif report and len(p) == 1:
                    self.viol.append((F, X.d[r[1]][0], x, self.names({a}), 'read'))
        elif op in ('call', 'invoke'):
            if not x.get('fn'):
                return
            dem = self.mod.dem(x['fn'])
            G = self.mod.fns.get(x['fn'])
            if dem.startswith('llvm.'):
                if dem.startswith(('llvm.memset', 'llvm.memcpy', 'llvm.memmove')):
                    n = x['o'][2]
                    for r, f in self.look(R, x['o'][0]):
                        if r in st:
                            st[r] = st[r] | (self.cover(f, n[1]) if n[0] == 'c' else allf)
                return
            for i, o in enumerate(x['o']):
                for r, f in self.look(R, o):
                    if r not in st:
                        continue
                    if f == 0 and G is not None and (G.name, i) in self.par:
                        got, nd = self.par[(G.name, i)]
                        miss = nd - st[r] if self.direct(X, o, r) else frozenset()
                        if miss and r[0] == 'n' and report:
                            self.viol.append((F, X.d[r[1]][0], x, self.names(miss), 'read'))
                        elif r[0] == 'a':
                            need.setdefault(r, set()).update(miss)
                        st[r] = st[r] | got
                    elif f == 0 and re.search(r'::(free|release|destroy)[A-Za-z]*\(', dem):
                        st[r] = allf
                    elif f > 0 or G is None and '::' in dem and i == 0 and f == 0 and not self.mod.dem(x['fn']).startswith('std::'):
                        a = self.at(f)
                        if a is not None and f > 0:
                            st[r] = st[r] | {a}
            me = ('n', x['k'])
            if x['k'] in R and (me, 0) in R[x['k']]:
                if report and me in st and allf - st[me]:
                    self.bad(F, X, me, x, allf - st[me], 'left')
                st[me] = frozenset() if self.source(dem) else self.ret.get(x['fn'], allf)

    def solve(self, fns):
        for F in fns:
            X = Fx(F)
            for b, x in X.insts():
                if x['op'] in ('call', 'invoke') and x.get('fn') and self.source(self.mod.dem(x['fn'])):
                    self.sites.setdefault(F.name, []).append(x['k'])
        for n in range(40):
            ch = False
            for F in fns:
                if not self.source(F.dem):
                    ch |= self.run(F)
            if not ch:
                break
        called = set()
        for F in fns:
            for b, x in Fx(F).insts():
                if x.get('fn'):
                    called.add(x['fn'])
        for F in fns:
            if self.source(F.dem):
                continue
            self.run(F, True)
            if F.name in self.ret and F.name not in called:
                miss = self.all() - self.ret[F.name]
                if miss:
                    self.viol.append((F, None, None, self.names(miss), 'returned'))
