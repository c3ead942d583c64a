"""Path-sensitive abstract interpreter over normalised LLVM IR (see DESIGN.md, "engine").

Values are hash-consed symbolic expressions; memory maps (base, offset) to values; branch
conditions are kept as simple facts (constant domains and order/equality atoms), decided by
look-up only (no solver).  Loops are brought to a fixpoint by widening every location that
changes around the back edge to a fresh symbol; states are kept apart by monitor state.
"""
import json, os, sys, itertools

sys.setrecursionlimit(20000)


_base = None


def baseline():
    global _base
    if _base is None:
        p = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'fields.json')
        _base = json.load(open(p)) if os.path.exists(p) else {}
    return _base


class AnalysisLimit(Exception):
    pass


# ---------------------------------------------------------------- expressions
UIDOPS = ('w', 'call', 'ld', 'new', 'fresh', 'old')
_junk = itertools.count()


class E:
    __slots__ = ('op', 'a', 'uids', 'n', '_s')
    tab = {}
    cnt = itertools.count()

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.n < o.n


def mk(op, *a):
    k = (op,) + a
    e = E.tab.get(k)
    if e is None:
        e = E()
        e.op = op
        e.a = a
        e.n = next(E.cnt)
        u = set()
        if op in UIDOPS:
            u.add(a[0])
        for x in a:
            if isinstance(x, E):
                u |= x.uids
            elif isinstance(x, tuple):
                nested_uids(x, u)
        e.uids = frozenset(u)
        e._s = None
        E.tab[k] = e
    return e


def nested_uids(t, u):
    for x in t:
        if isinstance(x, E):
            u |= x.uids
        elif isinstance(x, tuple):
            nested_uids(x, u)


def C(v, w):
    if True:
        m = 1 << w
        v &= m - 1
        if v >= m >> 1 and w > 1:
            v -= m
    return mk('c', v, w)


def P(base, off=0):
    if base.op == 'p':
        return mk('p', base.a[0], base.a[1] + off)
    return mk('p', base, off)


def show(e, d=0):
    if not isinstance(e, E):
        return str(e)
    o, a = e.op, e.a
    if o == 'c':
        return str(a[0])
    if o == 'p':
        return '&%s+%d' % (show(a[0], d + 1), a[1]) if a[1] else '&%s' % show(a[0], d + 1)
    if o == 'arg':
        return '%' + str(a[0])
    if o == 'ld':
        return '*(%s)' % show(a[1], d + 1)
    if o == 'g':
        return '@' + a[0]
    if o == 'call':
        return 'result(%s)' % (a[1],)
    if o == 'w':
        return 'loopval(%s)' % (a[1],) if d < 3 else 'loopval'
    if o == 'bin':
        return '(%s %s %s)' % (show(a[1], d + 1), a[0], show(a[2], d + 1))
    if o == 'icmp':
        return '(%s %s %s)' % (show(a[1], d + 1), a[0], show(a[2], d + 1))
    if d > 4:
        return o
    return '%s(%s)' % (o, ', '.join(show(x, d + 1) for x in a))


UNDEF = mk('undef')


def is_c(e):
    return e.op == 'c'


# ---------------------------------------------------------------- module
class Fn:
    __slots__ = ('name', 'dem', 'file', 'line', 'args', 'ret', 'blocks', 'headers', 'inloop', 'sp', 'mod', 'loops', 'link', 'sname', '_ind')

    def __init__(self, d, mod):
        self.mod = mod
        self._ind = None
        self.name = d['name']
        self.dem = d['dem']
        self.sname = shortname(d['dem'])
        self.file = d['file']
        self.line = d['line']
        self.args = d['args']
        self.ret = d['ret']
        self.sp = d['sp']
        self.link = d['link']
        self.blocks = d['blocks']
        self._loops()

    def inductive(self, h):
        """header phis that change by a constant (or are shifted by one) on every way around the loop"""
        if self._ind is None:
            self._ind = {}
        if h not in self._ind:
            defs = {x['k']: x for b in self.loops[h] for x in self.blocks[b] if 'k' in x}
            out = {}
            for x in self.blocks[h]:
                if x['op'] != 'phi':
                    break
                st = set()
                for p, o in x['o']:
                    if p not in self.loops[h]:
                        continue
                    d = defs.get(o[1]) if o[0] == 'i' else None
                    a = d['o'] if d else []
                    s = None
                    if d and len(a) == 2 and a[0][0] == 'i' and a[0][1] == x['k'] and a[1][0] == 'c':
                        if d['op'] == 'add':
                            s = ('add', a[1][1])
                        elif d['op'] == 'sub':
                            s = ('add', -a[1][1])
                        elif d['op'] == 'shl' and a[1][1] == 1:
                            s = ('shl', 1)
                    st.add(s)
                if len(st) == 1 and None not in st:
                    out[x['k']] = st.pop()
            self._ind[h] = out
        return self._ind[h]

    def flags(self, h):
        """header phis that are 0 or 1 (a bool the loop carries)"""
        if self._ind is None:
            self._ind = {}
        if ('f', h) not in self._ind:
            defs = {x['k']: x for b in self.blocks for x in b if 'k' in x}

            def flag(o, seen):
                if o[0] == 'c':
                    return o[1] in (0, 1) or o[2] == 1
                d = defs.get(o[1]) if o[0] == 'i' else None
                if d is None:
                    return False
                if d['op'] in ('icmp', 'fcmp') or d.get('t') == 'i1':
                    return True
                if d['op'] == 'zext':
                    return flag(d['o'][0], seen)
                if d['op'] == 'phi':
                    if d['k'] in seen:
                        return True
                    seen.add(d['k'])
                    return all(flag(q, seen) for _, q in d['o'])
                if d['op'] == 'select':
                    return flag(d['o'][1], seen) and flag(d['o'][2], seen)
                return False
            self._ind[('f', h)] = {x['k']: tw(x['t']) for x in self.blocks[h] if x['op'] == 'phi' and x.get('t') in ('i1', 'i8', 'i32') and flag(['i', x['k']], set())}
        return self._ind[('f', h)]

    def fixed(self, h, limit=8):
        """does the loop make a small constant number of turns?"""
        if self._ind is None:
            self._ind = {}
        q = ('u', h)
        if q in self._ind:
            return self._ind[q]
        body = self.loops[h]
        defs = {x['k']: x for b in self.blocks for x in b if 'k' in x}
        where = {x['k']: i for i in body for x in self.blocks[i] if 'k' in x}

        def lin(o, n=0):
            """base and offset: a constant, a local variable, or a header phi of this loop"""
            if o[0] == 'c':
                return ('c',), o[1]
            if o[0] != 'i' or o[1] not in defs or n > 8:
                return None
            d = defs[o[1]]
            if d['op'] == 'alloca' or d['op'] == 'phi' and where.get(d['k']) == h:
                return (d['op'], d['k']), 0
            if d['op'] == 'getelementptr' and not d.get('var'):
                r = lin(d['o'][0], n + 1)
                return r and (r[0], r[1] + d.get('off', 0))
            if d['op'] == 'add' and d['o'][1][0] == 'c':
                r = lin(d['o'][0], n + 1)
                return r and (r[0], r[1] + d['o'][1][1])
            if d['op'] in ('zext', 'sext', 'trunc'):
                return lin(d['o'][0], n + 1)
            return None
        turns = None
        for x in self.blocks[h]:
            if x['op'] != 'phi':
                continue
            init = [lin(v) for f, v in x['o'] if f not in body]
            back = [lin(v) for f, v in x['o'] if f in body]
            if len(init) != 1 or init[0] is None or init[0][0][0] == 'phi' or not back or any(r is None or r[0] != ('phi', x['k']) for r in back) or len({r[1] for r in back}) != 1 or not back[0][1]:
                continue
            step = back[0][1]
            for i in body:
                t = self.blocks[i][-1]
                if t['op'] != 'br' or len(t.get('s', ())) != 2 or all(q in body for q in t['s']) or t['o'][0][0] != 'i':
                    continue
                c = defs.get(t['o'][0][1])
                if c is None or c['op'] != 'icmp':
                    continue
                l, r = lin(c['o'][0]), lin(c['o'][1])
                for a, b in ((l, r), (r, l)):
                    if a and b and a[0] == ('phi', x['k']) and b[0] == init[0][0]:
                        # how many steps from the start to the bound?
                        d = b[1] - init[0][1] - a[1]
                        n = abs(d) // abs(step) if d * step >= 0 else 0
                        if n <= limit:
                            turns = n if turns is None else min(turns, n)
        self._ind[q] = turns is not None
        return self._ind[q]

    def leaves(self, h, known):
        """does every way from the loop header leave the loop, given the values of these header phis?"""
        if self._ind is None:
            self._ind = {}
        q = ('l', h, known)
        if q in self._ind:
            return self._ind[q]
        env = dict(known)
        body = self.loops[h]
        defs = {x['k']: (i, x) for i in body for x in self.blocks[i] if 'k' in x}

        def ev(o, b, pred, n=0):
            if o[0] == 'c':
                return o[1] & 1 if o[2] == 1 else o[1]
            if o[0] != 'i' or n > 8:
                return None
            if o[1] in env:
                return env[o[1]]
            if o[1] not in defs:
                return None
            i, d = defs[o[1]]
            if d['op'] == 'phi':
                if i != b or i == h:
                    return None
                for f, v in d['o']:
                    if f == pred:
                        return ev(v, b, pred, n + 1) if v[0] == 'c' or v[0] == 'i' and v[1] not in defs or v[0] == 'i' and defs[v[1]][0] != b else None
                return None
            if d['op'] in ('zext', 'trunc', 'freeze'):
                v = ev(d['o'][0], b, pred, n + 1)
                return v if v in (0, 1) else None
            if d['op'] in ('icmp', 'xor', 'and', 'or'):
                x, y = (ev(v, b, pred, n + 1) for v in d['o'][:2])
                if d['op'] == 'and' and 0 in (x, y):
                    return 0
                if x is None or y is None:
                    return 1 if d['op'] == 'or' and d.get('t') == 'i1' and 1 in (x, y) else None
                if d['op'] == 'icmp':
                    return {'eq': int(x == y), 'ne': int(x != y)}.get(d['p'])
                return {'xor': x ^ y, 'and': x & y, 'or': x | y}[d['op']]
            if d['op'] == 'select':
                c = ev(d['o'][0], b, pred, n + 1)
                if c is None:
                    x, y = (ev(v, b, pred, n + 1) for v in d['o'][1:3])
                    return x if x == y else None
                return ev(d['o'][1 if c else 2], b, pred, n + 1)
            return None
        out = True
        seen = set()
        work = [(h, None)]
        while work and out:
            b, pred = work.pop()
            if (b, pred) in seen:
                continue
            seen.add((b, pred))
            t = self.blocks[b][-1]
            ss = list(t.get('s', ())) + ([t['d']] if 'd' in t else [])
            if t['op'] == 'switch':
                ss = [v for v in body]      # not followed
            if t['op'] == 'br' and len(ss) == 2:
                v = ev(t['o'][0], b, pred)
                if v is not None:
                    ss = [ss[0 if v else 1]]
            for x in ss:
                if x == h:
                    out = False
                elif x in body:
                    work.append((x, b))
        self._ind[q] = out
        return out

    def memind(self, h):
        """local variables in memory that change by a constant exactly once on every way around the loop: {alloca: (step, width)}"""
        if self._ind is None:
            self._ind = {}
        if ('m', h) not in self._ind:
            out = {}
            loop = self.loops[h]
            cells = {x['k']: x for b in self.blocks for x in b if x['op'] == 'alloca' and x.get('sz') in (4, 8)}
            uses = {}
            for b in loop:
                defs = {}
                for x in self.blocks[b]:
                    if 'k' in x:
                        defs[x['k']] = x
                    for i, o in enumerate(x.get('o') or ()):
                        if isinstance(o, (list, tuple)) and o and o[0] == 'i' and o[1] in cells:
                            uses.setdefault(o[1], []).append((b, x, i, defs))
            for k, us in uses.items():
                step, bad = [], False
                for b, x, i, defs in us:
                    if x['op'] == 'load':
                        continue
                    if x['op'] == 'store' and i == 1:
                        v = x['o'][0]
                        d = defs.get(v[1]) if v[0] == 'i' else None
                        a = d['o'] if d and d['op'] in ('add', 'sub') else []
                        l = defs.get(a[0][1]) if a and a[0][0] == 'i' and a[1][0] == 'c' else None
                        if l is not None and l['op'] == 'load' and list(l['o'][0]) == ['i', k]:
                            step.append((b, a[1][1] if d['op'] == 'add' else -a[1][1], x['w']))
                            continue
                    if x['op'] in ('call', 'invoke') and x.get('fn'):
                        ps = self.mod.dem(x['fn'])
                        ps = ps[ps.find('('):]
                        if 'const&' in ps and ps.count('&') == ps.count('const&') and '*' not in ps:
                            continue
                    bad = True
                if bad or len(step) != 1 or step[0][2][0] != 'i':
                    continue
                sb = step[0][0]
                if any(sb in self.loops[g] for g in self.loops if g != h and g in loop):
                    continue
                if sb != h:   # every way around passes the block
                    seen, w = {h}, [h]
                    around = False
                    while w:
                        for n in self.succ(w.pop()):
                            if n == h:
                                around = True
                            elif n in loop and n != sb and n not in seen:
                                seen.add(n)
                                w.append(n)
                    if around:
                        continue
                out[k] = (step[0][1], int(step[0][2][1:]))
            self._ind[('m', h)] = out
        return self._ind[('m', h)]

    def succ(self, b):
        t = self.blocks[b][-1] if self.blocks[b] else {'op': 'unreachable'}
        o = t['op']
        if o in ('br', 'invoke'):
            return list(t['s'])
        if o == 'switch':
            return [t['d']] + [x[1] for x in t['cs']]
        return []

    def _loops(self):
        # ids in "s"/"phi" refer to block ids in order
        n = len(self.blocks)
        color = [0] * n
        back = []
        st = [(0, iter(self.succ(0)))] if n else []
        if n:
            color[0] = 1
        while st:
            b, it = st[-1]
            for s in it:
                if color[s] == 0:
                    color[s] = 1
                    st.append((s, iter(self.succ(s))))
                    break
                elif color[s] == 1:
                    back.append((b, s))
            else:
                color[b] = 2
                st.pop()
        self.headers = set(h for _, h in back)
        preds = [[] for _ in range(n)]
        for b in range(n):
            for s in self.succ(b):
                preds[s].append(b)
        self.inloop = set()
        self.loops = {}
        for t, h in back:
            body = self.loops.setdefault(h, {h})
            w = [t]
            while w:
                x = w.pop()
                if x in body:
                    continue
                body.add(x)
                w.extend(preds[x])
            self.inloop |= body


class Module:
    def __init__(self, path):
        d = json.load(open(path))
        self.fns = {}
        self.bydem = {}
        for f in d['functions']:
            # map instruction ids of blocks: block ids were assigned in order, so list index == id
            F = Fn(f, self)
            self.fns[F.name] = F
            self.bydem.setdefault(F.dem, F)
        self.records = d['records']
        self.decls = d['decls']
        self.globals = d['globals']
        self.short = {}
        for F in self.fns.values():
            self.short.setdefault(F.sname, []).append(F)

    def dem(self, name):
        f = self.fns.get(name)
        if f:
            return f.dem
        return self.decls.get(name, name)

    def field(self, rec, name):
        """(offset, size, type) of a data member, searching base classes."""
        r = self.records[rec]
        for f in r.get('fields', []):
            if f[0] == name:
                return f[1], f[2], f[3]
        for f in r.get('fields', []):
            if f[0] == '<base>' and f[3] in self.records:
                try:
                    o, s, t = self.field(f[3], name)
                    return o + f[1], s, t
                except KeyError:
                    pass
        # a renamed member: the baseline says which of the unknown members of that type it is
        base = baseline().get(rec)
        if base and name in [n for n, _ in base]:
            ty = dict((n, t) for n, t in base)[name]
            cur = [f for f in r.get('fields', []) if f[0] != '<base>']
            names = set(f[0] for f in cur)
            gone = [n for n, t in base if t == ty and n not in names]
            new = [f for f in cur if f[3] == ty and f[0] not in [n for n, _ in base]]
            if len(gone) == len(new):
                f = new[gone.index(name)]
                return f[1], f[2], f[3]
        raise KeyError(rec + '::' + name)

    def allfields(self, rec, base=0, pre=''):
        out = []
        for f in self.records.get(rec, {}).get('fields', []):
            if f[0] == '<base>':
                out += self.allfields(f[3], base + f[1], pre)
            else:
                out.append((pre + f[0], base + f[1], f[2], f[3]))
        return out

    def fieldname(self, rec, off):
        for n, o, s, t in self.allfields(rec):
            if o <= off < o + max(s, 1):
                if o == off or t not in self.records:
                    if o != off and t in self.records:
                        pass
                    return n if o == off else '%s+%d' % (n, off - o)
                sub = self.fieldname(t, off - o)
                return n + '.' + sub
        return '+%d' % off

    def bases(self, rec):
        out = [rec]
        for f in self.records.get(rec, {}).get('fields', []):
            if f[0] == '<base>':
                out += self.bases(f[3])
        return out

    def vtable(self, rec):
        """list of function names of the primary vtable of record rec"""
        m = mangle_class(rec)
        g = self.globals.get('_ZTV' + m)
        if not g or 'init' not in g:
            return None
        init = g['init']
        first = init[1][1] if init[0] == 'st' else init
        return [x[1] if x[0] == 'g' else None for x in first[2:]][2:]


def mangle_class(rec):
    parts = rec.split('::')
    if len(parts) == 1:
        return '%d%s' % (len(parts[0]), parts[0])
    return 'N' + ''.join('%d%s' % (len(p), p) for p in parts) + 'E'


def shortname(dem):
    """demangled name without return type, template arguments of the function and parameters"""
    i = 0
    depth = 0
    # cut the parameter list: first '(' at template depth 0 that is not part of operator() / (anonymous namespace)
    s = dem.replace('(anonymous namespace)', '{anon}')
    s = s.replace('operator()', 'operator{}').replace('operator->', 'operator{arrow}').replace('operator<<', 'operator{shl}').replace('operator>>', 'operator{shr}').replace('operator<=', 'operator{le}').replace('operator>=', 'operator{ge}').replace('operator<', 'operator{lt}').replace('operator>', 'operator{gt}')
    out = []
    for ch in s:
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        elif ch == '(' and depth == 0:
            break
        if depth == 0 and ch != '>':
            out.append(ch)
        elif depth == 0 and ch == '>':
            pass
    s = ''.join(out)
    # drop return type: last space not after 'operator'
    if ' ' in s and 'operator ' not in s:
        s = s[s.rindex(' ') + 1:]
    for a, b in (('{arrow}', '->'), ('{shl}', '<<'), ('{shr}', '>>'), ('{le}', '<='), ('{ge}', '>='), ('{lt}', '<'), ('{gt}', '>'), ('{}', '()'), ('{anon}', '(anonymous namespace)')):
        s = s.replace(a, b)
    return s


# ---------------------------------------------------------------- state
class State:
    __slots__ = ('env', 'mem', 'clob', 'dom', 'rel', 'mon', 'seen', 'stack', 'inst', 'tr')

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.clob = self.clob
        s.dom = dict(self.dom)
        s.rel = set(self.rel)
        s.mon = self.mon
        s.seen = set(self.seen)
        s.stack = self.stack
        s.inst = dict(self.inst)
        s.tr = self.tr
        return s


def new_state(mon=()):
    s = State()
    s.env = {}
    s.mem = {}
    s.clob = ()
    s.dom = {}
    s.rel = set()
    s.mon = mon
    s.seen = set()
    s.stack = ()
    s.inst = {}
    s.tr = ()
    return s


NEG = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ule': 'ugt', 'ugt': 'ule', 'slt': 'sge', 'sge': 'slt', 'sle': 'sgt', 'sgt': 'sle'}
SWAP = {'eq': 'eq', 'ne': 'ne', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}


def uns(v, w):
    return v & ((1 << w) - 1)


def cmpc(p, x, y, w):
    if p == 'eq':
        return x == y
    if p == 'ne':
        return x != y
    if p[0] == 'u':
        x, y = uns(x, w), uns(y, w)
    return {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[p[1:]]


class Dom:
    """set of values of a w-bit expression: small sets exactly, otherwise signed interval minus exclusions"""
    __slots__ = ('lo', 'hi', 'ex', 'w', 'set')

    def __init__(self, w, lo=None, hi=None, ex=frozenset(), st=None):
        self.w = w
        self.set = st
        self.lo = -(1 << (w - 1)) if lo is None else lo
        self.hi = (1 << (w - 1)) - 1 if hi is None else hi
        if w == 1 and lo is None:
            self.lo, self.hi = 0, 1
        self.ex = ex

    def key(self):
        return (self.w, self.lo, self.hi, self.ex, self.set)

    def __eq__(self, o):
        return self.key() == o.key()

    def contains(self, v):
        if self.set is not None:
            return v in self.set
        return self.lo <= v <= self.hi and v not in self.ex

    def empty(self):
        if self.set is not None:
            return not self.set
        return self.lo > self.hi

    def single(self):
        if self.set is not None:
            return next(iter(self.set)) if len(self.set) == 1 else None
        return self.lo if self.lo == self.hi else None

    def norm(self):
        if self.set is None and self.hi - self.lo < 300:
            self.set = frozenset(v for v in range(self.lo, self.hi + 1) if v not in self.ex)
            self.ex = frozenset()
        if self.set is not None:
            if self.set:
                self.lo, self.hi = min(self.set), max(self.set)
            else:
                self.lo, self.hi = 1, 0
        else:
            while self.lo in self.ex:
                self.ex = self.ex - {self.lo}
                self.lo += 1
            while self.hi in self.ex:
                self.ex = self.ex - {self.hi}
                self.hi -= 1
        return self

    def assume(self, p, c):
        w = self.w
        if self.set is not None:
            return Dom(w, st=frozenset(v for v in self.set if cmpc(p, v, c, w))).norm()
        lo, hi, ex = self.lo, self.hi, self.ex
        if p == 'eq':
            return Dom(w, st=frozenset([c]) if self.contains(c) else frozenset()).norm()
        if p == 'ne':
            return Dom(w, lo, hi, ex | {c}).norm()
        if p[0] == 's':
            if p == 'slt':
                hi = min(hi, c - 1)
            elif p == 'sle':
                hi = min(hi, c)
            elif p == 'sgt':
                lo = max(lo, c + 1)
            elif p == 'sge':
                lo = max(lo, c)
            return Dom(w, lo, hi, ex).norm()
        # unsigned
        if p in ('ult', 'ule'):
            if c >= 0:
                lo = max(lo, 0)
                hi = min(hi, c - 1 if p == 'ult' else c)
            elif lo >= 0 or hi < 0:
                if hi < 0:
                    hi = min(hi, c - 1 if p == 'ult' else c)
        else:
            if c >= 0 and lo >= 0:
                lo = max(lo, c + 1 if p == 'ugt' else c)
            elif c < 0:
                hi = min(hi, -1)
                lo = max(lo, c + 1 if p == 'ugt' else c)
            elif p == 'ugt' and c == 0:
                ex = ex | {0}
            elif p == 'uge' and c == 1:
                ex = ex | {0}
        return Dom(w, lo, hi, frozenset(ex)).norm()

    def decide(self, p, c):
        w = self.w
        if self.set is not None:
            t = f = False
            for v in self.set:
                if cmpc(p, v, c, w):
                    t = True
                else:
                    f = True
                if t and f:
                    return None
            return True if t else False
        if self.assume(p, c).empty():
            return False
        if self.assume(NEG[p], c).empty():
            return True
        return None

    def join(self, o):
        if self.set is not None and o.set is not None:
            return Dom(self.w, st=self.set | o.set).norm()
        lo, hi = min(self.lo, o.lo), max(self.hi, o.hi)
        ex = frozenset(x for x in (self.ex | o.ex) if not self.contains(x) and not o.contains(x))
        return Dom(self.w, lo, hi, ex).norm()

    def __repr__(self):
        if self.set is not None and len(self.set) < 12:
            return '{%s}' % ','.join(map(str, sorted(self.set)))
        return '[%d..%d]\\%s' % (self.lo, self.hi, sorted(self.ex))


class Monitor:
    """Base class of the property monitors."""
    unwind = False  # treat opaque calls as possibly throwing
    prune_mem = False
    induct = False  # loop counters in closed form: initial value plus a multiple of the number of turns
    meminduct = False  # the same for local variables in memory
    nonnull = None  # nonnull(eng, st, e): is the address known to be readable?
    subcmp = False  # a - b compared with 0 is a compared with b (differences of signed numbers do not overflow)
    unroll = False  # loops with a small constant number of turns are run turn by turn
    fork = False    # split the states at every selection between boolean values

    def on_call(self, eng, st, inst, fn, args):
        return None

    def target(self, eng, st, name, args):
        """the function an indirect call reaches, if the rule knows it"""
        return None

    def on_store(self, eng, st, inst, ptr, val, size):
        pass

    def on_load(self, eng, st, inst, ptr, val):
        pass

    def on_enter(self, eng, st, fn, args):
        pass

    def on_branch(self, eng, st, inst, cond, taken):
        pass

    def clobbers_world(self, eng, st, inst, fn, args):
        """may an opaque call change memory outside its arguments (other than this-object and locals)?"""
        return not fn.startswith(('std::', 'operator new', 'operator delete', '__cxa', 'llvm.', '__gnu', 'void std::', 'bool std::'))

    def protected(self, eng, st, base):
        """memory bases an opaque call without the pointer cannot change"""
        return base.op in ('alloca', 'new') or base is eng.this

    def at_loop(self, eng, st, F):
        """called at loop heads before states are joined; may record facts in st.mon"""

    def at_exit(self, eng, x, F):
        """called before the exits of an inlined function are joined; may record facts in x.st"""

    def cut(self, eng, st, F, b):
        """has the analysis been here, in the same state, in another call?"""
        return False

    def loop_key(self, eng, st, F):
        """extra partition of the states at loop heads"""
        return None

    def inline(self, eng, st, F):
        return not F.sname.startswith(('std::', '__gnu_cxx::', 'operator new', 'operator delete'))


PURE_METHODS = {'size', 'empty', 'begin', 'end', 'cbegin', 'cend', 'length', 'c_str', 'data', 'find', 'count', 'compare', 'at', 'front', 'back',
                'operator[]', 'lower_bound', 'upper_bound', 'substr', 'rbegin', 'rend', 'operator*', 'operator->', 'get', 'top'}


class Exit:
    __slots__ = ('kind', 'st', 'val', 'inst')

    def __init__(self, kind, st, val, inst):
        self.kind, self.st, self.val, self.inst = kind, st, val, inst


class Engine:
    def __init__(self, mod, mon, max_steps=400000, visit_cap=300, depth=24, exit_cap=24, inst_cap=40):
        self.mod = mod
        self.mon = mon
        self.this = None
        self.steps = 0
        self.max_steps = max_steps
        self.visit_cap = visit_cap
        self.depth = depth
        self.exit_cap = exit_cap
        self.inst_cap = inst_cap
        self.key_cap = 200
        self.instc = itertools.count(1)
        self.callstack = []
        self.analysed = set()

    # ---- memory
    def clob_uid(self, st, base, off):
        for (b, lo, hi, uid) in st.clob:
            if b is base:
                if lo <= off < hi:
                    return uid
            elif b is None and not self.mon.protected(self, st, base):
                return uid
        return None

    def default(self, st, base, off, w):
        if base.op == 'g':
            v = self.gload(base.a[0], off, w)
            if v is not None:
                return v
        u = self.clob_uid(st, base, off)
        if u == 'zero':
            return C(0, w)
        if u is None:
            if base.op == 'new' or base.op == 'alloca':
                return mk('uninit', base, off, w)
            u = 0
        return mk('ld', u, mk('p', base, off), w)

    def gload(self, name, off, w):
        g = self.mod.globals.get(name)
        if not g or not g.get('const') or 'init' not in g:
            return None
        return self.cload(g['init'], off, w)

    def cload(self, c, off, w):
        k = c[0]
        if k == 'st':
            best = None
            for o, x in c[1:]:
                if o <= off:
                    best = (o, x)
            return self.cload(best[1], off - best[0], w) if best else None
        if k == 'arr':
            i = off // c[1]
            if 0 <= i < len(c) - 2:
                return self.cload(c[2 + i], off % c[1], w)
            return None
        if k == 'z':
            return C(0, w)
        if k == 'str':
            if w == 8 and 0 <= off < len(c[1]):
                return C(ord(c[1][off]), 8)
            return None
        if off == 0:
            return self.const(c)
        return None

    def const(self, o):
        k = o[0]
        if k == 'c':
            return C(o[1], o[2])
        if k == 'g':
            return P(mk('g', o[1]), o[2])
        if k == 'f':
            return mk('f', o[1])
        if k == 'ce':
            xs = [self.const(x) for x in o[2:]]
            if o[1] in ('ptrtoint', 'inttoptr', 'bitcast'):
                return xs[0]
            return mk('ce', o[1], *xs)
        if k == 'z':
            return C(0, 64)
        return UNDEF

    def load(self, st, ptr, w):
        if ptr.op != 'p':
            if ptr.op == 'pv':
                b = ptr.a[0]
                u = self.clob_uid(st, b, 0)
                key = (b, ptr)
                v = st.mem.get(key)
                if v is None:
                    v = mk('ld', u if u not in (None, 'zero') else 0, ptr, w)
                    st.mem[key] = v
                return v
            ptr = mk('p', ptr, 0)
        base, off = ptr.a
        key = (base, off)
        v = st.mem.get(key)
        if v is None:
            v = self.default(st, base, off, w)
            st.mem[key] = v
        return v

    def store(self, st, ptr, v):
        if ptr.op == 'pv':
            b = ptr.a[0]
            for k in [k for k in st.mem if k[0] is b and k[1] is not ptr]:
                # only array-like neighbours: drop entries that are not plain record fields below the variable part
                if not isinstance(k[1], int) or k[1] >= ptr.a[1]:
                    del st.mem[k]
            st.mem[(b, ptr)] = v
            return
        if ptr.op != 'p':
            ptr = mk('p', ptr, 0)
        base, off = ptr.a
        st.mem[(base, off)] = v
        for k in [k for k in st.mem if k[0] is base and not isinstance(k[1], int)]:
            if k[1].a[1] <= off:
                del st.mem[k]

    def clobber(self, st, uid, base, lo=None, hi=None):
        if base is None:
            for k in [k for k in st.mem if not self.mon.protected(self, st, k[0]) and not (k[0].op == 'g' and self.mod.globals.get(k[0].a[0], {}).get('const'))]:
                del st.mem[k]
            st.clob = ((None, 0, 0, uid),) + tuple(c for c in st.clob if c[0] is not None and self.mon.protected(self, st, c[0]))
        else:
            lo = -(1 << 40) if lo is None else lo
            hi = 1 << 40 if hi is None else hi
            for k in [k for k in st.mem if k[0] is base]:
                o = k[1] if isinstance(k[1], int) else k[1].a[1]
                if lo <= o < hi:
                    del st.mem[k]
            st.clob = ((base, lo, hi, uid),) + tuple(c for c in st.clob if not (c[0] is base and lo <= c[1] and c[2] <= hi))
            if len(st.clob) > 60:
                raise AnalysisLimit('clobber list')

    # ---- symbols re-created by re-execution
    def subst_uid(self, st, uid):
        memo = {}

        def f(e):
            if uid not in e.uids:
                return e
            r = memo.get(e)
            if r is not None:
                return r
            if e.op in UIDOPS and e.a[0] == uid:
                if e.op == 'old':
                    if e.a[1] < 3:
                        r = mk('old', uid, e.a[1] + 1, *e.a[2:])
                    else:
                        r = mk('junk', next(_junk), width(e))
                else:
                    r = mk('old', uid, 1, e.op, *[strip(x) for x in e.a[1:]])
            else:
                r = rebuild(e, [f(x) if isinstance(x, E) else (map_mon(x, f) if isinstance(x, tuple) else x) for x in e.a])
            memo[e] = r
            return r

        def strip(x):
            return f(x) if isinstance(x, E) else (x if isinstance(x, (int, str)) else str(x))
        self.map_state(st, f)
        st.clob = tuple((f(c[0]) if c[0] is not None else None, c[1], c[2], oldclob(c[3], uid)) for c in st.clob)
        return st

    def map_state(self, st, f):
        st.env = {k: f(v) for k, v in st.env.items()}
        st.mem = {(f(k[0]), k[1] if isinstance(k[1], int) else f(k[1])): f(v) for k, v in st.mem.items()}
        st.dom = {f(k): v for k, v in st.dom.items()}
        st.rel = {(p, f(a), f(b)) for p, a, b in st.rel}
        st.mon = map_mon(st.mon, f)
        st.stack = tuple({k: f(v) for k, v in env.items()} for env in st.stack)

    def site(self, st, inst, what=''):
        uid = (tuple(self.callstack), inst['k'], what)
        uid = hash_uid(uid)
        if uid in st.seen:
            self.subst_uid(st, uid)
        st.seen.add(uid)
        return uid

    def fresh(self, st, inst, name, w):
        return mk('call', self.site(st, inst), name, w)

    # ---- facts
    def domof(self, st, e, w=None):
        if e.op == 'c':
            return Dom(e.a[1], st=frozenset([e.a[0]])).norm()
        d = st.dom.get(e)
        if d is None:
            w = w or width(e)
            d = Dom(w).norm() if w <= 8 else Dom(w)
        return d

    def decide(self, st, e):
        """truth of a boolean expression, or None"""
        if e.op == 'c':
            return e.a[0] != 0
        if e.op == 'not':
            r = self.decide(st, e.a[0])
            return None if r is None else not r
        if e.op == 'and':
            l, r = self.decide(st, e.a[0]), self.decide(st, e.a[1])
            if l is False or r is False:
                return False
            return True if l and r else None
        if e.op == 'or':
            l, r = self.decide(st, e.a[0]), self.decide(st, e.a[1])
            if l or r:
                return True
            return False if l is False and r is False else None
        if e.op == 'icmp':
            p, a, b = e.a
            r = self.decide_cmp(st, p, a, b)
            if r is None and p in ('eq', 'ne'):
                bb = boolpair(a, b)
                if bb:
                    x, y = self.decide(st, bb[0]), self.decide(st, bb[1])
                    if x is not None and y is not None:
                        return (x == y) == (p == 'eq')
            return r
        if e.op == 'bin' and e.a[0] == 'xor' and width(e) == 1:
            x, y = self.decide(st, e.a[1]), self.decide(st, e.a[2])
            return None if x is None or y is None else x != y
        d = st.dom.get(e)
        if d is not None:
            s = d.single()
            if s is not None:
                return s != 0
        return None

    def decide_cmp(self, st, p, a, b):
        if a is b:
            return p in ('eq', 'ule', 'uge', 'sle', 'sge')
        if is_c(a) and not is_c(b):
            a, b, p = b, a, SWAP[p]
        if is_c(b):
            if is_c(a):
                return cmpc(p, a.a[0], b.a[0], b.a[1])
            if b.a[0] == 0 and p in ('uge', 'ult'):
                return p == 'uge'
            if p in ('eq', 'ne') and a.op == 'bin' and a.a[0] == 'add' and is_c(a.a[2]):
                d = st.dom.get(a)
                r = d.decide(p, b.a[0]) if d is not None else None
                if r is not None:
                    return r
                return self.decide_cmp(st, p, a.a[1], C(b.a[0] - a.a[2].a[0], b.a[1]))
            if p in ('eq', 'ne') and b.a[0] in (0, -1) and not a.op == 'c':
                q = 'ugt' if b.a[0] == 0 else 'ult'
                if any(t[0] == q and t[1] is a for t in st.rel):
                    return p == 'ne'
            nz = nonzero_ptr(a)
            if nz and b.a[0] == 0 and p in ('eq', 'ne'):
                return p == 'ne'
            d = st.dom.get(a)
            if d is None and width(a) <= 8:
                d = Dom(width(a)).norm()
            if d is not None:
                r = d.decide(p, b.a[0])
                if r is not None:
                    return r
        else:
            if a.op == 'p' and b.op == 'p' and p in ('eq', 'ne'):
                if a.a[0] is b.a[0]:
                    return (a.a[1] == b.a[1]) == (p == 'eq')
                if nonzero_ptr(a) and nonzero_ptr(b) and a.a[0].op in ('new', 'alloca', 'g') and b.a[0].op in ('new', 'alloca', 'g'):
                    return p == 'ne'
            da, db = st.dom.get(a), st.dom.get(b)
            if da is not None and db is not None:
                sa, sb = da.single(), db.single()
                if sb is not None:
                    r = da.decide(p, sb)
                    if r is not None:
                        return r
                if sa is not None:
                    r = db.decide(SWAP[p], sa)
                    if r is not None:
                        return r
                if p in ('eq', 'ne') and (da.hi < db.lo or db.hi < da.lo):
                    return p == 'ne'
        R = st.rel

        def holds(q):
            return (q, a, b) in R
        if holds(p):
            return True
        if holds(NEG[p]):
            return False
        sg = p[0] if p not in ('eq', 'ne') else None
        if p in ('eq', 'ne'):
            for s in 'us':
                if holds(s + 'lt') or holds(s + 'gt'):
                    return p == 'ne'
            for s in 'us':
                if holds(s + 'le') and holds(s + 'ge'):
                    return p == 'eq'
            if not is_c(b):
                # one congruence step through equalities
                for q, x, y in list(R):
                    if q == 'eq' and x is a and y is not b:
                        if (('eq', y, b) in R):
                            return p == 'eq'
                        if is_c(y) and is_c(b):
                            return (y.a[0] == b.a[0]) == (p == 'eq')
        else:
            if holds('eq'):
                return p[1:] in ('le', 'ge')
            l = p[1:]
            if l == 'lt' and (holds(sg + 'gt') or holds(sg + 'ge')):
                return False
            if l == 'gt' and (holds(sg + 'lt') or holds(sg + 'le')):
                return False
            if l == 'le':
                if holds(sg + 'lt'):
                    return True
                if holds(sg + 'gt'):
                    return False
            if l == 'ge':
                if holds(sg + 'gt'):
                    return True
                if holds(sg + 'lt'):
                    return False
            if l == 'lt' and holds(sg + 'le') and holds('ne'):
                return True
            if l == 'gt' and holds(sg + 'ge') and holds('ne'):
                return True
        return None

    def assume(self, st, e, truth):
        """list of states where e has that truth value (0, 1 or more)"""
        r = self.decide(st, e)
        if r is not None:
            return [st] if r == truth else []
        if e.op == 'not':
            return self.assume(st, e.a[0], not truth)
        if e.op in ('and', 'or'):
            a, b = e.a
            if (e.op == 'and') == truth:
                out = []
                for s in self.assume(st, a, truth):
                    out += self.assume(s, b, truth)
                return out
            s2 = st.copy()
            out = self.assume(st, a, truth)
            for s in self.assume(s2, a, not truth):
                out += self.assume(s, b, truth)
            return out
        bb = None
        if e.op == 'icmp' and e.a[0] in ('eq', 'ne'):
            bb = boolpair(e.a[1], e.a[2])
            same = (e.a[0] == 'eq') == truth
        elif e.op == 'bin' and e.a[0] == 'xor' and width(e) == 1:
            bb, same = (e.a[1], e.a[2]), not truth
        if bb:
            out = []
            for v in (True, False):
                for s in self.assume(st.copy(), bb[0], v):
                    out += self.assume(s, bb[1], v if same else not v)
            return out
        if e.op == 'icmp':
            p, a, b = e.a
            if not truth:
                p = NEG[p]
            return [st] if self.assume_cmp(st, p, a, b) else []
        if e.op == 'undef' or e.op == 'uninit':
            return [st]
        st.dom[e] = Dom(width(e)).norm().assume('ne' if truth else 'eq', 0)
        return [st]

    def assume_cmp(self, st, p, a, b):
        if is_c(a):
            a, b, p = b, a, SWAP[p]
        if is_c(b):
            w = width(a)
            d = st.dom.get(a)
            if d is None:
                d = Dom(w)
                if w <= 8:
                    d.norm()
            d = d.assume(p, b.a[0])
            if d.empty():
                return False
            st.dom[a] = d
            st.rel.add((p, a, b))
            # constant known through an equality of symbols
            s = d.single()
            if s is not None or (p == 'ne'):
                for q, x, y in list(st.rel):
                    if q == 'eq' and x is a and not is_c(y):
                        dy = st.dom.get(y)
                        if dy is None:
                            dy = Dom(w)
                        dy = dy.assume(p, b.a[0])
                        if dy.empty():
                            return False
                        st.dom[y] = dy
            return True
        st.rel.add((p, a, b))
        st.rel.add((SWAP[p], b, a))
        if p == 'eq':
            da, db = st.dom.get(a), st.dom.get(b)
            if da is not None and db is None:
                st.dom[b] = da
            elif db is not None and da is None:
                st.dom[a] = db
            elif da is not None and db is not None:
                if da.set is not None:
                    n = Dom(da.w, st=frozenset(v for v in da.set if db.contains(v))).norm()
                elif db.set is not None:
                    n = Dom(db.w, st=frozenset(v for v in db.set if da.contains(v))).norm()
                else:
                    n = Dom(da.w, max(da.lo, db.lo), min(da.hi, db.hi), da.ex | db.ex).norm()
                if n.empty():
                    return False
                st.dom[a] = st.dom[b] = n
        return True

    # ---- joins
    def entails_dom(self, st, e, d):
        if e.op == 'c':
            return d.contains(e.a[0])
        x = st.dom.get(e)
        if x is None:
            return False
        j = x.join(d)
        return j == d

    def join(self, J, S, uid):
        """join S into J (both at the same point, same monitor state); returns (state, changed)"""
        N = State()
        N.mon = J.mon
        N.stack = J.stack
        N.inst = S.inst
        N.tr = J.tr
        changed = False
        N.seen = J.seen | S.seen
        amap = {}   # widened symbol -> value in J ; value in S
        N.env = {}
        pend = []   # (location, J value, S value, setter)
        for k, v in J.env.items():
            if k not in S.env:
                changed = True
                continue
            sv = S.env[k]
            if sv is v:
                N.env[k] = v
            else:
                pend.append(('r%s' % (k,), v, sv, N.env, k, v))
        if J.stack != S.stack:
            ns = []
            for i, (a, b) in enumerate(zip(J.stack, S.stack)):
                d = {}
                for k, v in a.items():
                    if k in b:
                        if b[k] is v:
                            d[k] = v
                        else:
                            pend.append(('s%d.%s' % (i, k), v, b[k], d, k, v))
                    else:
                        changed = True
                ns.append(d)
            N.stack = tuple(ns)
        # clobber lists
        if J.clob == S.clob:
            N.clob = J.clob
        else:
            js, ss = set(J.clob), set(S.clob)
            diff = [c for c in J.clob if c not in ss] + [c for c in S.clob if c not in js]
            add = []
            for c in diff:
                e = (c[0], c[1], c[2], uid)
                if e not in add:
                    add.append(e)
            N.clob = tuple(add) + tuple(c for c in J.clob if c in ss and (c[0], c[1], c[2]) not in set((x[0], x[1], x[2]) for x in add))
            if set(N.clob) != js:
                changed = True
        N.mem = {}
        keys = set(J.mem) | set(S.mem)
        for k in sorted(keys, key=lambda k: (k[0].n, k[1] if isinstance(k[1], int) else 10**9 + k[1].n)):
            jv, sv = J.mem.get(k), S.mem.get(k)
            if (jv is None or sv is None) and (stale(k[0]) or not isinstance(k[1], int) and stale(k[1])):
                continue
            if jv is None or sv is None:
                w0 = width(jv if jv is not None else sv)
                if isinstance(k[1], int):
                    if jv is None:
                        jv = self.default(J, k[0], k[1], w0)
                    if sv is None:
                        sv = self.default(S, k[0], k[1], w0)
                else:
                    if k in J.mem:
                        changed = changed
                    continue
            if jv is sv:
                N.mem[k] = jv
            else:
                pend.append(((k[0].n, k[1] if isinstance(k[1], int) else k[1].n), jv, sv, N.mem, k, J.mem.get(k)))
        # locations that hold the same values in both states share one symbol; locations that differ by the same
        # constant in both states are expressed relative to one symbol
        fam = {}
        lowers = {}
        later = [t for t in pend if t[1].op == t[2].op == 'pure' and t[1].a[0] == t[2].a[0] and isinstance(t[1].a[1], tuple) and isinstance(t[2].a[1], tuple)]
        for t in pend:
            if t in later:
                continue
            jb, jc, jk = linear(t[1])
            sb, sc, sk = linear(t[2])
            kind = 'p' if 'p' in (jk, sk) else 'i' if 'i' in (jk, sk) else '?'
            wd = width(t[1])
            d = (sc - jc) & ((1 << wd) - 1) if kind != 'p' else sc - jc
            fam.setdefault((jb, sb, d, wd), []).append((t, jc, kind))
        for fk, ts in fam.items():
            w = None
            rep = None
            for t, jc, kind in ts:
                if t[1].op == 'w' and t[1].a[0] == uid and t[1].a[1] == t[0]:
                    w, rep = t[1], (t, jc)
            if w is None:
                t, jc, kind = ts[0]
                w, rep = mk('w', uid, t[0], width(t[1])), (t, jc)
            amap[w] = (rep[0][1], rep[0][2])
            kinds = set(k for _, _, k in ts) - {'?'}
            for (loc, jv, sv, d, k, cur), jc, kind in ts:
                delta = jc - rep[1]
                if delta == 0:
                    r = w
                elif len(kinds) == 1 and width(w) == 64:
                    r = self.gep(w, delta, []) if 'p' in kinds else self.binop(N, 'add', w, C(delta, 64), 64)
                else:
                    r = mk('w', uid, loc, width(jv))
                    if r in amap:
                        r = mk('w', uid, (loc, 'b'), width(jv))
                    amap[r] = (jv, sv)
                d[k] = r
                if cur is not r:
                    changed = True
                if is_c(jv) and not is_c(r) and jv.a[0] >= 0 and jv.a[1] in (32, 64):
                    lowers.setdefault(r, (jv, sv))
        # the same function of widened arguments
        for loc, jv, sv, d, k, cur in later:
            r = self.unify(amap, jv, sv)
            if r is None:
                r = mk('w', uid, loc, width(jv))
            amap[r] = (jv, sv)
            d[k] = r
            if cur is not r:
                changed = True
        # facts
        N.dom = {}
        N.rel = set()
        inv = {}
        for w, (jv, sv) in amap.items():
            dj, ds = self.domx(J, jv), self.domx(S, sv)
            if dj is not None and ds is not None:
                d = dj.join(ds)
                # widening: if the interval grows around the loop give up on that end
                if jv is w and d != dj:
                    if d.set is not None and len(d.set) <= (12 if sv.op != "bin" else 2):
                        pass
                    else:
                        d = Dom(d.w, dj.lo if d.lo == dj.lo else None, dj.hi if d.hi == dj.hi else None,
                                frozenset(x for x in ((dj.ex if dj.set is None else frozenset()) | (d.ex & frozenset([0, -1]))) if not d.contains(x)))
                        d.norm()
                N.dom[w] = d
                if jv is w and d != J.dom.get(w):
                    changed = True
            elif jv is w and w in J.dom:
                changed = True
        for e, d in J.dom.items():
            if uid in e.uids:
                if e in amap or e in N.dom:
                    continue
                changed = True
                continue
            sd = S.dom.get(e)
            if sd is None:
                changed = True
                continue
            nd = d.join(sd)
            if nd != d:
                changed = True
                if nd.set is None:
                    nd = Dom(nd.w, d.lo if nd.lo == d.lo else None, d.hi if nd.hi == d.hi else None, nd.ex).norm()
            N.dom[e] = nd
        for p, a, b in J.rel:
            if uid in a.uids or uid in b.uids:
                ok = True
                sa, sb = a, b
                if uid in a.uids:
                    sa = amap[a][1] if a in amap else None
                if uid in b.uids:
                    sb = amap[b][1] if b in amap else None
                if sa is None or sb is None:
                    # compound expressions over widened symbols
                    m = {w: v[1] for w, v in amap.items()}
                    sa = substmap(a, m, uid)
                    sb = substmap(b, m, uid)
                if sa is not None and sb is not None and self.decide_cmp(S, p, sa, sb):
                    N.rel.add((p, a, b))
                else:
                    changed = True
            elif (p, a, b) in S.rel or self.decide_cmp(S, p, a, b):
                N.rel.add((p, a, b))
            else:
                changed = True
        if not any(True for w in amap if amap[w][0] is w):
            pass
        bounds = set()
        if lowers:
            bounds = set(z for z, d in J.dom.items() if d.lo > 0) | set(a for p, a, b in J.rel if is_c(b) and p in ('ugt', 'uge', 'sgt', 'ne'))
        for r, (jv, sv) in lowers.items():
            for z in bounds:
                if width(z) == jv.a[1] and uid not in z.uids and not stale(z) and self.decide_cmp(J, 'ugt', z, jv) and self.decide_cmp(S, 'ult', sv, z):
                    N.rel.add(('ult', r, z))
                    N.rel.add(('ugt', z, r))
            # counters that are advanced only below a bound never exceed it
            if is_c(sv) and sv.a[0] == jv.a[0] + 1:
                zs = set(z for p, z, b in S.rel if not is_c(z) and width(z) == jv.a[1]) | set(z for z in S.dom if width(z) == jv.a[1])
                cand = [('ule', sv, z) for z in zs if self.decide_cmp(S, 'ugt', z, jv) or jv.a[0] == 0 and self.decide_cmp(S, 'ne', z, jv)]
            else:
                cand = list(S.rel)
            for p, a, z in cand:
                if a is sv and p in ('ule', 'ult') and not is_c(z) and uid not in z.uids and not stale(z) and (jv.a[0] == 0 or self.decide_cmp(J, 'ule', jv, z)):
                    N.rel.add(('ule', r, z))
                    N.rel.add(('uge', z, r))
        # relations that hold for the new symbols in both states
        inv = {}
        for w, (jv, sv) in amap.items():
            if jv is not w and not is_c(jv):
                inv.setdefault(jv, []).append((w, sv))
        if inv:
            for p, a, b in J.rel:
                ca = inv.get(a, [])
                cb = inv.get(b, [])
                if not ca and not cb:
                    continue
                if uid not in a.uids:
                    ca = ca + [(a, a)]
                if uid not in b.uids:
                    cb = cb + [(b, b)]
                for wa, sa in ca:
                    for wb, sb in cb:
                        if wa is a and wb is b:
                            continue
                        if (p, wa, wb) not in N.rel and self.decide_cmp(S, p, sa, sb):
                            N.rel.add((p, wa, wb))
                            if not is_c(wb):
                                N.rel.add((SWAP[p], wb, wa))
        return N, changed

    def unify(self, amap, jv, sv):
        args = []
        for x, y in zip(jv.a[1], sv.a[1]):
            if x is y:
                args.append(x)
                continue
            if not isinstance(x, E) or not isinstance(y, E):
                return None
            jb, jc, _ = linear(x)
            sb, sc, _ = linear(y)
            for w, (wj, ws) in amap.items():
                a, b = linear(wj), linear(ws)
                if a[0] is jb and b[0] is sb and jc - a[1] == sc - b[1] and jb is not None:
                    args.append(self.gep(w, jc - a[1], []) if jc != a[1] else w)
                    break
            else:
                return None
        return mk('pure', jv.a[0], tuple(args), *jv.a[2:])

    def domx(self, st, e):
        if e.op == 'c':
            return Dom(e.a[1], st=frozenset([e.a[0]])).norm()
        d = st.dom.get(e)
        if d is None and e.op == 'p' and nonzero_ptr(e):
            return Dom(64, ex=frozenset([0]))
        if d is None and e.op == 'bin' and e.a[0] == 'add' and is_c(e.a[2]) and not is_c(e.a[1]):
            # x + c: the shifted range of x
            x, c, w = e.a[1], e.a[2].a[0], e.a[2].a[1]
            dx = st.dom.get(x)
            if dx is None:
                dx = Dom(w)
            for q, k in (('ult', -1), ('ugt', 0)):
                if dx.set is None and any(t[0] == q and t[1] is x for t in st.rel):
                    dx = dx.assume('ne', k)
            sh = lambda v: C(v + c, w).a[0]
            if dx.set is not None:
                return Dom(w, st=frozenset(sh(v) for v in dx.set)).norm()
            ex = frozenset(sh(v) for v in dx.ex)
            lo, hi = dx.lo + c, dx.hi + c
            m = 1 << (w - 1)
            if lo < -m or hi >= m:
                # around the end: keep the values that are left out
                gap = [v for v in (0, 1) if not dx.contains(C(v - c, w).a[0])]
                return Dom(w, ex=ex | frozenset(gap))
            return Dom(w, lo, hi, ex).norm()
        return d

    # ---- running
    def run(self, F, args, st, top=True):
        """interpret F from state st; returns the list of exits"""
        if len(self.callstack) > self.depth:
            raise AnalysisLimit('call depth in ' + F.dem)
        self.analysed.add(F.name)
        env0 = {}
        for i, a in enumerate(args):
            env0['a%d' % i] = a
        st.env = env0
        self.mon.on_enter(self, st, F, args)
        exits = []
        work = [(0, 0, None, st)]
        store = {}
        visits = {}
        while work:
            b, i, prev, s = work.pop()
            if i == 0:
                visits[b] = visits.get(b, 0) + 1
                # loop header
                if b in F.headers:
                    huid = hash_uid((tuple(self.callstack), F.name, 'h', b))
                    back = prev is not None and prev in F.loops[b]
                    phis = self.phis(F, b, prev, s)
                    # a bool the loop carries: one state for each value
                    fl = F.flags(b)
                    split = None
                    for n, (k, v) in enumerate(phis):
                        if k in fl:
                            f = s.env.pop(('force', b, k), None)
                            if f is not None:
                                phis[n] = (k, f)
                            elif not is_c(v) and split is None:
                                v = v.a[0] if v.op == 'zext' else v
                                if is_bool(v):
                                    split = (k, v)
                    if split is not None:
                        k, v = split
                        for truth in (False, True):
                            for t in self.assume(s.copy(), v, truth):
                                self.mon.on_branch(self, t, F.blocks[b][0], v, truth)
                                for k2, v2 in phis:
                                    if k2 in fl and is_c(v2):
                                        t.env[('force', b, k2)] = v2
                                t.env[('force', b, k)] = C(1 if truth else 0, F.flags(b)[k])
                                work.append((b, 0, prev, t))
                        continue
                    kn = tuple((k, v.a[0]) for k, v in phis if k in fl and is_c(v))
                    if back and kn and F.leaves(b, kn):
                        # as good as a break
                        for k, v in phis:
                            s.env[k] = v
                        self.step_block(F, b, self.nphi(F, b), s, work, exits)
                        continue
                    if self.mon.unroll and F.fixed(b):
                        for k, v in phis:
                            s.env[k] = v
                        if not back:
                            s.inst[(len(self.callstack), b)] = next(self.instc)
                        if visits[b] > self.inst_cap * 40:
                            raise AnalysisLimit('too many turns of a loop of ' + F.dem)
                        self.step_block(F, b, self.nphi(F, b), s, work, exits)
                        continue
                    self.at_back, self.at_header = back, b
                    self.at_phis = phis
                    self.mon.at_loop(self, s, F)
                    if back:
                        iid = s.inst.get((len(self.callstack), b))
                        self.subst_pre(s, huid, phis)
                        key = (b, iid, s.mon, self.lkey(s, F, b, phis))
                    else:
                        iid = next(self.instc)
                        s.inst[(len(self.callstack), b)] = iid
                        key = None
                        if visits[b] > self.inst_cap:
                            for k in store:
                                if k[0] == b and k[2] == s.mon and k[3] == self.lkey(s, F, b, phis):
                                    key = k
                                    s.inst[(len(self.callstack), b)] = k[1]
                                    break
                            self.subst_pre(s, huid, phis)
                        if key is None:
                            key = (b, iid, s.mon, self.lkey(s, F, b, phis))
                    if self.mon.induct:
                        ind = F.inductive(b)
                        for n, (k, v) in enumerate(phis):
                            if k in ind:
                                if not back:
                                    s.env[('ind', b, k)] = v
                                phis[n] = (k, self.closed(s, s.env.get(('ind', b, k), v), ind[k], huid, F.blocks[b][n]))
                    for k, v in phis:
                        s.env[k] = v
                    if self.mon.meminduct:
                        for k, (step, w) in F.memind(b).items():
                            p = s.env.get(k)
                            if p is None or p.op != 'p':
                                continue
                            if not back:
                                s.env[('ind', b, ('m', k))] = self.load(s, p, w)
                            if ('ind', b, ('m', k)) in s.env:
                                self.store(s, p, self.closed(s, s.env[('ind', b, ('m', k))], ('add', step), huid, {'t': 'i%d' % w}))
                    self.trim(F, b, s)
                    if self.mon.cut(self, s, F, b):
                        continue
                    J = store.get(key)
                    if J is None:
                        if sum(1 for k in store if k[0] == b and k[1] == key[1]) > self.key_cap:
                            raise AnalysisLimit('too many monitor states at a loop of ' + F.dem)
                        store[key] = s.copy()
                    else:
                        N, ch = self.join(J, s, huid)
                        if not ch:
                            continue
                        N.inst = dict(s.inst)
                        store[key] = N
                        s = N.copy()
                    i = self.nphi(F, b)
                else:
                    for k, v in self.phis(F, b, prev, s):
                        s.env[k] = v
                    i = self.nphi(F, b)
                    if visits[b] > self.visit_cap:
                        uid = hash_uid((tuple(self.callstack), F.name, 'm', b))
                        key = ('m', b, s.mon, (tuple(sorted((k, v) for k, v in s.inst.items() if k[0] == len(self.callstack))), self.flagvals(F, s)))
                        J = store.get(key)
                        if uid in s.seen:
                            self.subst_uid(s, uid)
                            key = ('m', b, s.mon, key[3])
                        J = store.get(key)
                        if J is None:
                            store[key] = s.copy()
                        else:
                            N, ch = self.join(J, s, uid)
                            if not ch:
                                continue
                            N.seen.add(uid)
                            N.inst = dict(s.inst)
                            store[key] = N
                            s = N.copy()
            self.step_block(F, b, i, s, work, exits)
        if not top:
            exits = self.merge_exits(F, exits)
        return exits

    def flagvals(self, F, s):
        out = []
        for h in F.loops:
            for k in sorted(F.flags(h)):
                v = s.env.get(k)
                if v is not None and is_c(v):
                    out.append((k, v.a[0]))
        return tuple(out)

    def lkey(self, s, F, b, phis):
        fl = F.flags(b)
        return (self.mon.loop_key(self, s, F), tuple((k, v.a[0]) for k, v in phis if k in fl and is_c(v)))

    def closed(self, s, init, step, huid, x):
        t = mk('w', huid, 'turn', 64)
        s.dom[t] = Dom(64).norm()
        w = tw(x['t'])
        if w < 64:
            t = mk('trunc', t, w)
        if step[0] == 'add':
            return self.binop(s, 'add', init, self.binop(s, 'mul', t, C(step[1], w), w) if step[1] != 1 else t, w)
        if init.op == 'bin' and init.a[0] == 'shl' and is_c(init.a[1]) and init.a[1].a[0] == 1:
            return mk('bin', 'shl', init.a[1], self.binop(s, 'add', init.a[2], t, w))
        return mk('bin', 'shl', init, t)

    def subst_pre(self, s, huid, phis):
        # phi values must be renamed together with the state
        for n, (k, v) in enumerate(phis):
            s.env['__phi%d' % n] = v
        self.subst_uid(s, huid)
        for n, (k, v) in enumerate(phis):
            phis[n] = (k, s.env.pop('__phi%d' % n))

    def merge_exits(self, F, exits):
        if len(exits) <= self.exit_cap:
            return exits
        for x in exits:
            self.mon.at_exit(self, x, F)
        groups = {}
        for x in exits:
            groups.setdefault((x.kind, x.st.mon, x.val), []).append(x)
        if len(groups) > 4 * self.exit_cap:
            groups = {}
            for x in exits:
                groups.setdefault((x.kind, x.st.mon, x.val.op if isinstance(x.val, E) and x.val.op != 'c' else x.val), []).append(x)
        out = []
        uid = hash_uid((tuple(self.callstack), F.name, 'x'))
        for g, xs in groups.items():
            J = xs[0].st
            v = xs[0].val
            if isinstance(v, E):
                J.env = {'ret': v}
            else:
                J.env = {}
            if len(xs) > 1 and uid in J.seen:
                self.subst_uid(J, uid)
            for y in xs[1:]:
                y.st.env = {'ret': y.val} if isinstance(y.val, E) else {}
                if uid in y.st.seen:
                    self.subst_uid(y.st, uid)
                J, _ = self.join(J, y.st, uid)
            if len(xs) > 1:
                J.seen.add(uid)
            out.append(Exit(xs[0].kind, J, J.env.get('ret'), xs[0].inst))
        return out

    def nphi(self, F, b):
        n = 0
        for x in F.blocks[b]:
            if x['op'] != 'phi':
                break
            n += 1
        return n

    def phis(self, F, b, prev, s):
        out = []
        for x in F.blocks[b]:
            if x['op'] != 'phi':
                break
            for p, o in x['o']:
                if p == prev:
                    out.append((x['k'], self.val(s, o)))
                    break
        return out

    def trim(self, F, b, s):
        """forget registers defined in the loop body (other than header phis): dead at the header"""
        body = F.loops[b]
        dead = set()
        for bb in body:
            for x in F.blocks[bb]:
                if not (bb == b and x['op'] == 'phi'):
                    dead.add(x['k'])
        for k in [k for k in s.env if k in dead]:
            del s.env[k]

    def val(self, st, o):
        k = o[0]
        if k == 'i':
            v = st.env.get(o[1])
            return v if v is not None else UNDEF
        if k == 'a':
            return st.env['a%d' % o[1]]
        return self.const(o)

    def step_block(self, F, b, i, st, work, exits):
        blk = F.blocks[b]
        n = len(blk)
        while i < n:
            self.steps += 1
            if self.steps > self.max_steps:
                raise AnalysisLimit('step budget in ' + F.dem)
            x = blk[i]
            op = x['op']
            if op == 'load':
                ptr = self.val(st, x['o'][0])
                v = self.load(st, ptr, tw(x['t']))
                v = self.on_load(st, x, ptr, v)
                st.env[x['k']] = v
            elif op == 'store':
                v = self.val(st, x['o'][0])
                ptr = self.val(st, x['o'][1])
                self.mon.on_store(self, st, x, ptr, v, tw(x['w']) // 8)
                self.store(st, ptr, v)
            elif op == 'br':
                if len(x['s']) == 1:
                    work.append((x['s'][0], 0, b, st))
                    return
                c = self.val(st, x['o'][0])
                s2 = st.copy()
                for s in self.assume(s2, c, False):
                    self.mon.on_branch(self, s, x, c, False)
                    work.append((x['s'][1], 0, b, s if s is s2 else s))
                for s in self.assume(st, c, True):
                    self.mon.on_branch(self, s, x, c, True)
                    work.append((x['s'][0], 0, b, s))
                return
            elif op == 'switch':
                self.do_switch(F, b, x, st, work)
                return
            elif op in ('call', 'invoke'):
                res = self.do_call(F, x, st)
                tail = []
                for kind, s, v in res:
                    if kind == 'ret':
                        if x['t'] != 'v' and v is not None:
                            s.env[x['k']] = v
                        if op == 'invoke':
                            work.append((x['s'][0], 0, b, s))
                        else:
                            tail.append(s)
                    elif kind == 'throw':
                        if op == 'invoke':
                            work.append((x['s'][1], 0, b, s))
                        else:
                            exits.append(Exit('throw', s, None, x))
                    else:
                        exits.append(Exit(kind, s, None, x))
                if op == 'invoke' or not tail:
                    return
                for s in tail[1:]:
                    work.append((b, i + 1, None, s))
                st = tail[0]
            elif op == 'ret':
                v = self.val(st, x['o'][0]) if x['o'] else None
                exits.append(Exit('ret', st, v, x))
                return
            elif op == 'unreachable':
                exits.append(Exit('abort', st, None, x))
                return
            elif op == 'resume':
                exits.append(Exit('throw', st, None, x))
                return
            elif op == 'select':
                c = self.val(st, x['o'][0])
                a = self.val(st, x['o'][1])
                d = self.val(st, x['o'][2])
                r = self.decide(st, c)
                if r is not None:
                    st.env[x['k']] = a if r else d
                elif a is d:
                    st.env[x['k']] = a
                elif x['t'] == 'i1' and is_c(d) and d.a[0] == 0 and not self.mon.fork:
                    st.env[x['k']] = self.bool2('and', c, a)
                elif x['t'] == 'i1' and is_c(a) and a.a[0] != 0 and not self.mon.fork:
                    st.env[x['k']] = self.bool2('or', c, d)
                else:
                    s2 = st.copy()
                    for s in self.assume(s2, c, False):
                        s.env[x['k']] = d
                        if self.mon.fork:
                            self.mon.on_branch(self, s, x, c, False)
                        work.append((b, i + 1, None, s))
                    ss = self.assume(st, c, True)
                    for s in ss:
                        s.env[x['k']] = a
                        if self.mon.fork:
                            self.mon.on_branch(self, s, x, c, True)
                        work.append((b, i + 1, None, s))
                    return
            else:
                st.env[x['k']] = self.compute(st, x)
            i += 1

    def on_load(self, st, x, ptr, v):
        r = self.mon.on_load(self, st, x, ptr, v)
        return v if r is None else r

    def bool2(self, op, a, b):
        if is_c(a):
            if op == 'and':
                return b if a.a[0] else a
            return a if a.a[0] else b
        if is_c(b):
            if op == 'and':
                return a if b.a[0] else b
            return b if b.a[0] else a
        return mk(op, a, b)

    def do_switch(self, F, b, x, st, work):
        c = self.val(st, x['o'][0])
        w = tw(x['w'])
        groups = {}
        for v, d in x['cs']:
            groups.setdefault(d, []).append(v)
        allv = [v for v, _ in x['cs']]
        if is_c(c):
            for v, d in x['cs']:
                if v == c.a[0]:
                    work.append((d, 0, b, st))
                    return
            work.append((x['d'], 0, b, st))
            return
        c, conv = strip_ext(c, w)
        dom = self.domof(st, c, width(c))
        # default
        s = st.copy()
        nd = dom
        for v in allv:
            nd = nd.assume('ne', v)
        if not nd.empty():
            s.dom[c] = nd
            for v in allv:
                s.rel.add(('ne', c, C(v, width(c))))
            self.mon.on_branch(self, s, x, c, None)
            work.append((x['d'], 0, b, s))
        for d, vs in groups.items():
            vv = frozenset(v for v in vs if dom.contains(v))
            if not vv:
                continue
            s = st.copy()
            if len(vv) == 1:
                if not self.assume_cmp(s, 'eq', c, C(next(iter(vv)), width(c))):
                    continue
            s.dom[c] = Dom(dom.w, st=vv).norm()
            self.mon.on_branch(self, s, x, c, vv)
            work.append((d, 0, b, s))

    def compute(self, st, x):
        op = x['op']
        if op == 'getelementptr':
            base = self.val(st, x['o'][0])
            off = x['off']
            var = []
            for o, sc in x['var']:
                v = self.val(st, o)
                if is_c(v):
                    off += v.a[0] * sc
                else:
                    var.append((v, sc))
            return self.gep(base, off, var)
        if op == 'icmp':
            return self.icmp(st, x['p'], self.val(st, x['o'][0]), self.val(st, x['o'][1]), tw(x['w']))
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'):
            v = self.val(st, x['o'][0])
            w = tw(x['t'])
            if op in ('bitcast', 'ptrtoint', 'inttoptr', 'freeze', 'addrspacecast'):
                return v
            return self.ext(op, v, tw(x['w']), w)
        if op == 'alloca':
            uid = hash_uid((tuple(self.callstack), F_id(x), x['k']))
            base = mk('alloca', uid, x.get('n', ''))
            for k in [k for k in st.mem if k[0] is base]:
                del st.mem[k]
            if any(c[0] is base for c in st.clob):
                st.clob = tuple(c for c in st.clob if c[0] is not base)
            return P(base, 0)
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            return self.binop(st, op, self.val(st, x['o'][0]), self.val(st, x['o'][1]), tw(x['t']))
        if op == 'extractvalue':
            v = self.val(st, x['o'][0])
            for ix in x['ix']:
                if v.op == 'agg':
                    v = dict(v.a[0]).get(ix, UNDEF)
                else:
                    v = mk('ev', v, ix)
            return v
        if op == 'insertvalue':
            v = self.val(st, x['o'][0])
            e = self.val(st, x['o'][1])
            d = dict(v.a[0]) if v.op == 'agg' else {}
            d[x['ix'][0]] = e
            return mk('agg', tuple(sorted(d.items(), key=lambda t: t[0])))
        if op == 'landingpad':
            return mk('lp', x['k'])
        args = [self.val(st, o) for o in x.get('o', [])]
        if op == 'fcmp':
            return mk('op:fcmp', str(x.get('p')), *args)
        return mk('op:' + op, *args)

    def gep(self, base, off, var):
        if base.op == 'c' and not var:
            return C(base.a[0] + off, 64) if base.a[0] or off else base
        if not var:
            if base.op == 'pv':
                return mkpv(base.a[0], base.a[1] + off, base.a[2])
            if base.op != 'p':
                base = mk('p', base, 0)
            return mk('p', base.a[0], base.a[1] + off)
        if base.op == 'pv':
            vs = dict(base.a[2])
            b0, o0 = base.a[0], base.a[1]
        elif base.op == 'p':
            vs = {}
            b0, o0 = base.a
        else:
            vs = {}
            b0, o0 = base, 0
        for v, sc in var:
            # peel constants
            k = 0
            while v.op == 'bin' and v.a[0] == 'add' and is_c(v.a[2]):
                k += v.a[2].a[0]
                v = v.a[1]
            o0 += k * sc
            if is_c(v):
                o0 += v.a[0] * sc
                continue
            vs[v] = vs.get(v, 0) + sc
            if vs[v] == 0:
                del vs[v]
        if not vs:
            return mk('p', b0, o0 + off)
        return mkpv(b0, o0 + off, tuple(sorted(vs.items(), key=lambda t: t[0].n)))

    def ext(self, op, v, w0, w):
        if is_c(v):
            if op == 'zext':
                return C(uns(v.a[0], w0), w)
            if op == 'sext' and w0 == 1:
                return C(-1 if v.a[0] else 0, w)
            return C(v.a[0], w)
        if op in ('zext', 'trunc') and is_bool(v):
            return v            # booleans are transparent
        if v.op in ('zext', 'sext') and op == 'trunc':
            if width(v.a[0]) == w:
                return v.a[0]
            if width(v.a[0]) > w:
                return self.ext('trunc', v.a[0], width(v.a[0]), w)
            return self.ext(v.op, v.a[0], width(v.a[0]), w)
        if v.op == op and op in ('zext', 'sext'):
            return mk(op, v.a[0], w)
        if v.op == 'zext' and op == 'sext':
            return mk('zext', v.a[0], w)
        return mk(op, v, w)

    def icmp(self, st, p, a, b, w):
        if is_c(a) and is_c(b):
            return C(1 if cmpc(p, a.a[0], b.a[0], w) else 0, 1)
        if is_c(a):
            a, b, p = b, a, SWAP[p]
        if is_c(b):
            c = b.a[0]
            if c == 0 and w == 64 and p in ('eq', 'ne') and self.mon.nonnull and self.mon.nonnull(self, st, a):
                return C(1 if p == 'ne' else 0, 1)
            if self.mon.subcmp and c == 0 and a.op == 'bin' and a.a[0] == 'sub' and p in ('eq', 'ne', 'slt', 'sle', 'sgt', 'sge'):
                return self.icmp(st, p, a.a[1], a.a[2], w)
            if is_bool(a):
                if p == 'ne' and c == 0:
                    return a
                if p == 'eq' and c == 0:
                    return notb(a)
                if p == 'eq' and c == 1:
                    return a
                if p == 'ne' and c == 1:
                    return notb(a)
                if p == 'ugt' and c == 0:
                    return a
            if a.op in ('sext', 'zext'):
                iw = width(a.a[0])
                lo, hi = (-(1 << (iw - 1)), (1 << (iw - 1)) - 1) if a.op == 'sext' else (0, (1 << iw) - 1)
                if lo <= c <= hi:
                    if a.op == 'sext':
                        if p[0] == 'u':
                            if c >= 0:
                                return self.icmp(st, p, a.a[0], C(c, iw), iw)
                        else:
                            return self.icmp(st, p, a.a[0], C(c, iw), iw)
                    else:
                        q = p if p in ('eq', 'ne') else 'u' + p[1:]
                        return self.icmp(st, q, a.a[0], C(c, iw), iw)
                else:
                    if p in ('eq', 'ne'):
                        return C(1 if p == 'ne' else 0, 1)
                    if p[0] == 's':
                        return C(1 if ((c > hi) == (p[1:] in ('lt', 'le'))) else 0, 1)
            if a.op == 'bin' and a.a[0] == 'add' and is_c(a.a[2]) and p in ('eq', 'ne'):
                return self.icmp(st, p, a.a[1], C(c - a.a[2].a[0], w), w)
            if a.op == 'bin' and a.a[0] == 'xor' and is_c(a.a[2]) and p in ('eq', 'ne') and not is_bool(a):
                return self.icmp(st, p, a.a[1], C(c ^ a.a[2].a[0], w), w)
            if a.op == 'bin' and a.a[0] == 'sub' and c == 0 and p in ('eq', 'ne'):
                return self.icmp(st, p, a.a[1], a.a[2], w)
            if a.op == 'p' and c == 0 and p in ('eq', 'ne') and a.a[1] == 0 and not nonzero_ptr(a):
                a = a.a[0]
                return mk('icmp', p, a, b)
        else:
            if a.op in ('sext', 'zext') and b.op == a.op and width(a.a[0]) == width(b.a[0]):
                return self.icmp(st, p if p in ('eq', 'ne') else (p if a.op == 'sext' else 'u' + p[1:]), a.a[0], b.a[0], width(a.a[0]))
            if a.op == 'p' and b.op != 'p' and a.a[1] == 0:
                a = a.a[0]
            if b.op == 'p' and a.op != 'p' and b.a[1] == 0:
                b = b.a[0]
            if is_bool(a) and is_bool(b) and p in ('eq', 'ne'):
                pass
        if a is b:
            return C(1 if p in ('eq', 'ule', 'uge', 'sle', 'sge') else 0, 1)
        if a.n > b.n and not is_c(b):
            a, b, p = b, a, SWAP[p]
        r = self.decide_cmp(st, p, a, b)
        if r is not None and (is_c(b) or True):
            return C(1 if r else 0, 1)
        return mk('icmp', p, a, b)

    def binop(self, st, op, a, b, w):
        if is_c(a) and is_c(b):
            x, y = a.a[0], b.a[0]
            try:
                r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
                     'shl': lambda: x << y, 'lshr': lambda: uns(x, w) >> y, 'ashr': lambda: x >> y, 'udiv': lambda: uns(x, w) // uns(y, w),
                     'urem': lambda: uns(x, w) % uns(y, w), 'sdiv': lambda: int(x / y), 'srem': lambda: x - int(x / y) * y}[op]()
                return C(r, w)
            except ZeroDivisionError:
                return UNDEF
        if op in ('add', 'mul', 'and', 'or', 'xor') and is_c(a):
            a, b = b, a
        if w == 1 and op in ('and', 'or'):
            return self.bool2(op, a, b)
        if op == 'xor' and is_bool(a) and is_c(b):
            return notb(a) if b.a[0] & 1 else a
        if op in ('and', 'or') and is_bool(a) and is_bool(b) and not is_c(b):
            return self.bool2(op, a, b)
        if op == 'or' and is_c(b) and b.a[0] == 1 and (is_bool(a) or a.op == 'zext' and is_bool(a.a[0])):
            return C(1, w)
        if op == 'and' and is_c(b) and is_bool(a):
            return a if b.a[0] & 1 else C(0, w)
        if is_c(b):
            y = b.a[0]
            if y == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                return a
            if y == 0 and op in ('mul', 'and'):
                return C(0, w)
            if y == 1 and op in ('mul', 'udiv', 'sdiv'):
                return a
            if op == 'sub':
                return self.binop(st, 'add', a, C(-y, w), w)
            if op == 'add' and a.op == 'bin' and a.a[0] == 'add' and is_c(a.a[2]):
                return self.binop(st, 'add', a.a[1], C(a.a[2].a[0] + y, w), w)
            if op == 'add' and a.op == 'p':
                return P(a, y)
        if op == 'sub' and a.op == 'bin' and a.a[0] == 'add' and b in (a.a[1], a.a[2]):
            return a.a[2] if b is a.a[1] else a.a[1]
        if op == 'add' and a.op == 'bin' and a.a[0] == 'sub' and a.a[2] is b:
            return a.a[1]
        if op == 'sub' and a is b:
            return C(0, w)
        if op == 'sub' and a.op == 'p' and b.op == 'p' and a.a[0] is b.a[0]:
            return C(a.a[1] - b.a[1], w)
        if op == 'sub' and a.op == 'pv' and (b is a.a[0] or b.op == 'p' and b.a[0] is a.a[0]):
            r = C(a.a[1] - (b.a[1] if b.op == 'p' else 0), 64)
            for v, sc in a.a[2]:
                r = self.binop(st, 'add', r, self.binop(st, 'mul', v, C(sc, 64), 64), 64)
            return r
        if op == 'sub' and a.op == 'p' and b is a.a[0]:
            return C(a.a[1], 64)
        if op in ('add', 'mul', 'and', 'or', 'xor') and not is_c(b) and a.n > b.n:
            a, b = b, a
        r = mk('bin', op, a, b)
        if op == 'add' and is_c(b) and b.a[0] == 1 and hasattr(st, 'rel'):
            for p, x, z in [t for t in st.rel if t[1] is a and t[0] == 'ult' and not is_c(t[2])]:
                st.rel.add(('ule', r, z))
                st.rel.add(('uge', z, r))
        return r

    # ---- calls
    def resolve(self, st, x):
        if 'fn' in x:
            return x['fn']
        v = self.val(st, x['fp'])
        if v.op == 'p' and v.a[0].op == 'g' and v.a[1] == 0:
            return v.a[0].a[0]
        return None

    def do_call(self, F, x, st):
        args = [self.val(st, o) for o in x['o']]
        name = self.resolve(st, x)
        dem = self.mod.dem(name) if name else '<indirect>'
        if name is None:
            dem = self.indirect_name(st, x, args)
            name = self.mon.target(self, st, dem, args)
            if name:
                dem = self.mod.dem(name)
        r = self.mon.on_call(self, st, x, dem, args)
        if r is not None:
            return [t if len(t) == 3 else ('ret',) + tuple(t) for t in r]
        if name and name.startswith('llvm.'):
            return self.intrinsic(st, x, name, args)
        G = self.mod.fns.get(name) if name else None
        if G is not None and G.blocks and self.mon.inline(self, st, G):
            key = G.name
            if sum(1 for c in self.callstack if c[0] == key) < 2:
                return self.inline_call(F, x, st, G, args)
        return self.opaque(st, x, name, dem, args)

    def inline_call(self, F, x, st, G, args):
        st = st.copy()
        st.stack = st.stack + (st.env,)
        self.callstack.append((G.name, F.name, x['k']))
        try:
            ex = self.run(G, args, st, top=False)
        finally:
            self.callstack.pop()
        out = []
        d = len(self.callstack) + 1
        for e in ex:
            s = e.st
            s.env = dict(s.stack[-1])
            s.stack = s.stack[:-1]
            for k in [k for k in s.inst if k[0] >= d]:
                del s.inst[k]
            out.append((e.kind, s, e.val))
        return out

    def indirect_name(self, st, x, args):
        v = self.val(st, x['fp'])
        # function pointer loaded from a vtable slot: *( *(obj) + 8*k )
        if v.op == 'ld' and v.a[1].op == 'p':
            base, off = v.a[1].a
            if base.op == 'ld' or base.op == 'w':
                return '<virtual:%d>' % (off // 8)
        return '<indirect>'

    def intrinsic(self, st, x, name, args):
        if name.startswith('llvm.memcpy') or name.startswith('llvm.memmove'):
            d, s_, n = args[0], args[1], args[2]
            if d.op == 'p' and s_.op == 'p' and is_c(n):
                size = n.a[0]
                db, do = d.a
                sb, so = s_.a
                new = {}
                for k, v in st.mem.items():
                    if k[0] is sb and isinstance(k[1], int) and so <= k[1] < so + size:
                        new[(db, k[1] - so + do)] = v
                uid = self.site(st, x)
                self.clobber(st, uid, db, do, do + size)
                for k, v in new.items():
                    self.mon.on_store(self, st, x, mk('p', *k), v, None)
                    st.mem[k] = v
                h = getattr(self.mon, 'on_memcpy', None)
                if h:
                    h(self, st, x, d, s_, size)
            else:
                self.arg_clobber(st, x, [d])
            return [('ret', st, None)]
        if name.startswith('llvm.memset'):
            d, v, n = args[0], args[1], args[2]
            h = getattr(self.mon, 'on_memset', None)
            if h:
                h(self, st, x, d, v, n)
            if d.op == 'p':
                hi = d.a[1] + n.a[0] if is_c(n) else None
                if is_c(v) and v.a[0] == 0:
                    self.clobber(st, 'zero', d.a[0], d.a[1], hi)
                else:
                    self.clobber(st, self.site(st, x), d.a[0], d.a[1], hi)
            return [('ret', st, None)]
        if name.startswith(('llvm.umax', 'llvm.umin', 'llvm.smax', 'llvm.smin')):
            a, b = args
            p = {'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[name.split('.')[1]]
            c = self.icmp(st, p, a, b, width(a))
            s2 = st.copy()
            return [('ret', s, a) for s in self.assume(s2, c, True)] + [('ret', s, b) for s in self.assume(st, c, False)]
        if name.startswith('llvm.expect'):
            return [('ret', st, args[0])]
        if x['t'] == 'v':
            return [('ret', st, None)]
        return [('ret', st, mk('intr', name, *args))]

    SIZES = {'std::vector': 24, 'std::__cxx11::basic_string': 32, 'std::map': 48, 'std::set': 48, 'std::list': 24, 'std::unordered_map': 56,
             'std::unordered_set': 56, 'std::deque': 80, 'std::unique_ptr': 8, 'std::multimap': 48, 'std::pair': 16}

    def argsize(self, dem, i, ptr):
        s = shortname(dem)
        cls = s.rsplit('::', 1)[0] if '::' in s else ''
        if i == 0:
            for k, v in self.SIZES.items():
                if dem.startswith(k + '<') or (' ' + k + '<') in dem.split('(')[0]:
                    return v
            r = self.mod.records.get(cls)
            if r:
                return r['size']
        return None

    def arg_clobber(self, st, x, args, dem=''):
        uid = self.site(st, x)
        for i, a in enumerate(args):
            if a.op == 'pv':
                a = mk('p', a.a[0], a.a[1])
            if a.op == 'p':
                base, off = a.a
                if base.op == 'g':
                    continue
                n = self.argsize(dem, i, a)
                if n is None:
                    n = self.mon.arg_size(self, st, x, dem, i, a) if hasattr(self.mon, 'arg_size') else None
                self.clobber(st, uid, base, off, None if n is None else off + n)
            elif x.get('fpw') or a.op in ('ld', 'call', 'w', 'arg', 'new'):
                if a.op in ('ld', 'call', 'arg', 'new') and width(a) == 64 and any(k[0] is a for k in st.mem):
                    self.clobber(st, uid, a, 0, None)
        return uid

    def opaque(self, st, x, name, dem, args):
        if dem.startswith('__cxa_throw') or dem.startswith('__cxa_rethrow'):
            return [('throw', st, None)]
        if x.get('nr') or name in ('abort', 'exit', '__assert_fail', '_exit'):
            if dem.startswith('std::__throw'):
                return [('throw', st, None)]
            return [('abort', st, None)]
        if name in ('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t', 'calloc'):
            uid = self.site(st, x)
            base = mk('new', uid, x['k'])
            for k in [k for k in st.mem if k[0] is base]:
                del st.mem[k]
            st.clob = tuple(c for c in st.clob if c[0] is not base)
            return [('ret', st, P(base, 0))]
        if name == '__cxa_allocate_exception':
            uid = self.site(st, x)
            return [('ret', st, P(mk('new', uid, 'exc'), 0))]
        w = tw(x['t'])
        short = shortname(dem)
        last = short.rsplit('::', 1)[-1]
        if short.startswith('std::') and (last in PURE_METHODS) and ') const' in dem or (short.startswith('std::') and last in PURE_METHODS and args and not x['t'] == 'v') or name in ('strcmp', 'strlen', 'memcmp', 'isspace', 'isalpha', 'isdigit', '_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base'):
            # sret returns a fresh local; treat as a write to that local only
            F = self.mod.fns.get(name)
            vers = tuple(self.objver(st, a) for a in args)
            sret = x['t'] == 'v'
            if not sret:
                v = mk('pure', short, vers, w, *args)
                return [('ret', st, v)]
        if x['t'] == 'v' and not args:
            v = None
        nothrow = last in ('~' + short.rsplit('::', 2)[-2],) if '::' in short else False
        world = self.mon.clobbers_world(self, st, x, dem, args)
        uid = self.arg_clobber(st, x, args, dem) if not self.is_const_call(dem) else self.site(st, x)
        if world:
            self.clobber(st, uid, None)
        out = []
        if self.mon.unwind and not nothrow and self.mon.may_throw(self, st, x, dem):
            out.append(('throw', st.copy(), None))
        v = None
        if x['t'] != 'v':
            v = mk('call', uid, short, w)
        out.append(('ret', st, v))
        return out

    def is_const_call(self, dem):
        return dem.endswith(') const')

    def objver(self, st, a):
        """version of the memory behind pointer a: changes whenever the object may have been modified"""
        if a.op in ('p', 'pv'):
            base = a.a[0]
            off = a.a[1]
        else:
            base, off = a, 0
        for (b, lo, hi, uid) in st.clob:
            if b is base and lo <= off < hi:
                return mk('fresh', uid, 'v', 8)
            if b is None and not self.mon.protected(self, st, base):
                return mk('fresh', uid, 'v', 8)
        return C(0, 8)


def oldclob(c, uid):
    if c == uid:
        return ('stale', uid, 1)
    if isinstance(c, tuple) and c[0] == 'stale' and c[1] == uid:
        return ('stale', uid, c[2] + 1) if c[2] < 3 else 'junk%d' % next(_junk)
    return c


def map_mon(m, f):
    if isinstance(m, E):
        return f(m)
    if isinstance(m, tuple):
        return tuple(map_mon(x, f) for x in m)
    if isinstance(m, frozenset):
        return frozenset(map_mon(x, f) for x in m)
    return m


_stale = {}


def stale(e):
    """does the expression mention a symbol of an earlier loop round?"""
    r = _stale.get(e)
    if r is None:
        r = e.op in ('junk', 'old') or any(isinstance(x, E) and stale(x) or isinstance(x, tuple) and any(isinstance(y, E) and stale(y) or isinstance(y, tuple) and any(isinstance(z, E) and stale(z) for z in y) for y in x) for x in e.a)
        _stale[e] = r
    return r


def linear(e):
    """(base or None, constant, kind)"""
    if e.op == 'c':
        return None, uns(e.a[0], e.a[1]), 'i'
    if e.op == 'p':
        return e.a[0], e.a[1], 'p'
    if e.op == 'bin' and e.a[0] == 'add' and is_c(e.a[2]):
        return e.a[1], uns(e.a[2].a[0], e.a[2].a[1]), 'i'
    return e, 0, '?'


def mkpv(base, off, vs):
    return mk('pv', base, off, vs)


def F_id(x):
    return (x.get('f'), x.get('l'), x.get('n'))


_uids = {}


def hash_uid(t):
    u = _uids.get(t)
    if u is None:
        u = 'u%d' % len(_uids)
        _uids[t] = u
    return u


def tw(t):
    if t == 'p':
        return 64
    if t[0] in 'ifs':
        try:
            n = int(t[1:])
            return n if t[0] != 's' else n * 8
        except ValueError:
            return 64
    return 64


def width(e):
    o = e.op
    if o == 'c':
        return e.a[1]
    if o in ('p', 'pv', 'new', 'alloca', 'g'):
        return 64
    if o == 'ld':
        return e.a[2]
    if o == 'uninit':
        return e.a[2]
    if o in ('call', 'w'):
        return e.a[2]
    if o == 'fresh':
        return e.a[2]
    if o in ('icmp', 'and', 'or', 'not', 'op:fcmp'):
        return 1
    if o in ('zext', 'sext', 'trunc'):
        return e.a[1]
    if o == 'bin':
        w = width(e.a[1])
        return w if e.a[1].op != 'c' else width(e.a[2])
    if o == 'pure':
        return e.a[2]
    if o == 'arg':
        return e.a[1] if len(e.a) > 1 else 64
    if o == 'old':
        return 64 if e.a[2] == 'new' else e.a[4]
    if o == 'junk':
        return e.a[1]
    return 64


def is_bool(e):
    return e.op in ('icmp', 'and', 'or', 'not') or (e.op == 'c' and e.a[1] == 1) or width(e) == 1


def boolpair(a, b):
    """two truth values that are compared with each other, at least one of them composed"""
    a, b = (x.a[0] if x.op == 'zext' else x for x in (a, b))
    if is_c(a) or is_c(b) or not any(x.op in ('icmp', 'and', 'or', 'not') for x in (a, b)):
        return None
    return (a, b) if is_bool(a) and is_bool(b) else None


def notb(e):
    if e.op == 'not':
        return e.a[0]
    if e.op == 'icmp':
        return mk('icmp', NEG[e.a[0]], e.a[1], e.a[2])
    if e.op == 'c':
        return C(0 if e.a[0] else 1, 1)
    return mk('not', e)


def nonzero_ptr(e):
    if e.op != 'p':
        return False
    b = e.a[0]
    return b.op in ('new', 'alloca', 'g') or (b.op == 'arg' and b.a[-1] == 'nn') or e.a[1] != 0


def strip_ext(c, w):
    while c.op in ('sext', 'zext'):
        c = c.a[0]
    return c, None


def rebuild(e, a):
    if e.op == 'p' and isinstance(a[0], E) and a[0].op == 'p':
        return mk('p', a[0].a[0], a[0].a[1] + a[1])
    if e.op == 'pv':
        return mk('pv', a[0], a[1], a[2])
    return mk(e.op, *a)


def substmap(e, m, uid):
    if e in m:
        return m[e]
    if uid not in e.uids:
        return e
    if e.op in UIDOPS and e.a[0] == uid:
        return None
    xs = []
    for x in e.a:
        if isinstance(x, E):
            y = substmap(x, m, uid)
            if y is None:
                return None
            xs.append(y)
        elif isinstance(x, tuple):
            u = set()
            nested_uids(x, u)
            if uid in u:
                return None
            xs.append(x)
        else:
            xs.append(x)
    return rebuild(e, xs)
