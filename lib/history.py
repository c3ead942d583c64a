"""Call-history analysis of pull operators: interprets first()/next() over an abstract object
state until the set of reachable states is closed, with abstract inputs whose rows are symbols."""
from ops import *


def rowchild(e):
    if e.op == 'fresh' and isinstance(e.a[1], str) and e.a[1].startswith('row:'):
        return e.a[1][4:]
    if e.op == 'old' and e.a[2] == 'fresh' and isinstance(e.a[3], str) and e.a[3].startswith('row:'):
        return e.a[3][4:]
    if e.op == 'row':
        return e.a[0]
    return None


def walk(x, seen, out):
    if isinstance(x, E):
        if x in seen:
            return
        seen.add(x)
        if rowchild(x) is not None:
            out.append(x)
            return
        for y in x.a:
            walk(y, seen, out)
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            walk(y, seen, out)


def fuzzy(e):
    """does the expression contain a symbol introduced by precision loss?"""
    if not isinstance(e, E):
        if isinstance(e, tuple):
            return any(fuzzy(x) for x in e)
        return False
    if e.op in ('w', 'junk', 'undef'):
        return True
    if e.op == 'old' and e.a[2] == 'w':
        return True
    return any(fuzzy(x) for x in e.a)


def count(row):
    return mk('pure', 'count', row, 64)


def val(reg, row):
    return mk('pure', 'val:' + reg, row, 64)


class Child:
    __slots__ = ('name', 'status', 'row', 'used')

    def __init__(self, name, status, row, used):
        self.name, self.status, self.row, self.used = name, status, row, used


class OpMon(Monitor):
    """mon = (children, ext): children = tuple of (name, status, row, used); status none/pos/end"""

    def __init__(self, mod, rep, cls):
        self.mod = mod
        self.rep = rep
        self.cls = cls
        self.kids = {}            # receiver expression -> child name
        self.regs = {}            # child name -> {regname: (base, off)}
        self.ownregs = {}         # registers written by the operator itself
        self.slots = virt_slots(mod, 'Operator')
        self.method = ''
        self.F = None
        self.base = None
        self.restart = ''
        self.voff = mod.field('Register', 'value')[0]
        self.vecs = set()
        self.pure_virtual = {}

    # --- child state in mon
    def kid(self, st, name):
        for c in st.mon[0]:
            if c[0] == name:
                return Child(*c)

    def setkid(self, st, name, **kw):
        out = []
        for c in st.mon[0]:
            if c[0] == name:
                c = Child(*c)
                for k, v in kw.items():
                    setattr(c, k, v)
                c = (c.name, c.status, c.row, c.used)
            out.append(c)
        st.mon = (tuple(out), st.mon[1])

    def ext(self, st):
        return st.mon[1]

    def setext(self, st, e):
        st.mon = (st.mon[0], e)

    def initmon(self, ext=()):
        return (tuple((n, 'none', None, True) for n in sorted(set(self.kids.values()))), ext)

    # --- reporting
    def ctx(self):
        return '%s::%s%s%s' % (self.cls, self.method, self.cfg, self.restart)

    def fail(self, kind, x, msg, what=''):
        self.rep.fail(kind, self.ctx() + (':' + what if what else ''), where(self.F, x), msg)

    def oblige(self, cond, kind, x, msg, what=''):
        return self.rep.decide(cond, kind, self.ctx() + (':' + what if what else ''), where(self.F, x), msg)

    # --- memory model
    def protected(self, eng, st, base):
        if base.op in ('alloca', 'new') or base is eng.this:
            return True
        if base.op in ('fresh', 'old') and 'vec' in base.a[1:4]:
            return True
        if base.op in ('ld', 'old') and isinstance(base.a[-2], E) and base.a[-2].op == 'p' and base.a[-2].a[0] is eng.this:
            return base.a[-2].a[1] in self.vecs
        if base.op == 'w' and isinstance(base.a[1], tuple) and base.a[1][0] == eng.this.n:
            return base.a[1][1] in self.vecs
        if self.active is not None:
            for n, rs in self.regs.items():
                if n != self.active and any(base is b for b, _ in rs.values()):
                    return True
        if any(base is b for b, _ in self.ownregs.values()):
            return True
        return False

    active = None
    cfg = ''

    def child_of(self, eng, st, recv):
        if recv in self.kids:
            return self.kids[recv]
        return None

    # hooks for the specific operators
    def before_advance(self, eng, st, x, name, method):
        """obligations when a row of the child is left behind"""

    def after_row(self, eng, st, x, name, method):
        pass

    def after_end(self, eng, st, x, name, method):
        pass

    def other_call(self, eng, st, x, fn, args):
        return None

    def on_call(self, eng, st, x, fn, args):
        if fn.startswith('<virtual:') and args:
            name = self.child_of(eng, st, args[0])
            if name is not None:
                meth = self.slots.get(int(fn[9:-1]))
                if meth in ('first', 'next'):
                    return self.advance(eng, st, x, name, meth)
        if len(args) == 2 and '::vector(std::vector<' in fn and fn.endswith(' const&)'):
            # copy constructor: same number of elements
            u = eng.site(st, x)
            b = mk('fresh', u, 'vec', 64)
            d = eng.binop(st, 'sub', eng.load(st, eng.gep(args[1], 8, []), 64), eng.load(st, args[1], 64), 64)
            eng.store(st, args[0], b)
            e = eng.gep(b, 0, [(d, 1)])
            eng.store(st, eng.gep(args[0], 8, []), e)
            eng.store(st, eng.gep(args[0], 16, []), e)
            return [(st, None)]
        return self.other_call(eng, st, x, fn, args)

    def advance(self, eng, st, x, name, meth):
        k = self.kid(st, name)
        if meth == 'next':
            self.oblige(k.status == 'pos', 'input-protocol', x, 'the %s input is asked for another row although it is %s' % (name, {'none': 'not started', 'end': 'exhausted'}.get(k.status, k.status)), name)
        self.before_advance(eng, st, x, name, meth)
        uid = eng.site(st, x)
        self.active = name
        eng.clobber(st, uid, None)
        for r, (b, o) in self.regs.get(name, {}).items():
            eng.clobber(st, uid, b, o, o + 8)
        self.active = None
        row = mk('fresh', uid, 'row:' + name, 8)
        z = st.copy()
        self.setkid(z, name, status='end', row=None, used=True)
        self.after_end(eng, z, x, name, meth)
        self.setkid(st, name, status='pos', row=row, used=False)
        for r, (b, o) in self.regs.get(name, {}).items():
            st.mem[(b, o)] = val(r, row)
        eng.assume_cmp(st, 'ne', count(row), C(0, 64))
        self.after_row(eng, st, x, name, meth)
        return [(z, C(0, 64)), (st, count(row))]

    def loop_key(self, eng, st, F):
        return self.control(st) if self.base is not None else None

    # --- state keys
    def control(self, st):
        out = []
        for n, o, s, t in self.ctl:
            v = st.mem.get((self.base, o))
            if v is not None and v.op == 'c':
                out.append((o, v.a[0]))
            else:
                out.append((o, None))
        return tuple(out)


def setup(mon, mod, eng, base):
    eng.this = base
    mon.base = base
    mon.ctl = [f for f in mod.allfields(mon.cls) if f[2] in (1, 4) and (f[3] == 'bool' or 'enum' in mod.records.get(f[3], {}))]
    mon.vecs = set(f[1] for f in mod.allfields(mon.cls) if 'vector' in f[3])


def canon(mon, st):
    """rename the input rows to role names: current row of an input, then older rows in field order"""
    m = {}
    cnt = {}
    for (n, s, r, u) in st.mon[0]:
        if r is not None:
            m[r] = mk('row', n, 0)
            cnt[n] = 0
    keys = sorted([k for k in st.mem if k[0] is mon.base], key=lambda k: (k[1] if isinstance(k[1], int) else 10**9 + k[1].n))
    keys += sorted([k for k in st.mem if k[0] is not mon.base], key=lambda k: (k[0].n, k[1] if isinstance(k[1], int) else 10**9 + k[1].n))
    for src in [st.mem[k] for k in keys] + [st.mon[1]] + [x for k in sorted(st.dom) for x in [k]] + [x for p, a, b in sorted(st.rel, key=lambda t: (t[0], t[1].n, t[2].n)) for x in (a, b)]:
        out = []
        walk(src, set(), out)
        for r in out:
            if r not in m:
                n = rowchild(r)
                cnt[n] = cnt.get(n, 0) + 1
                m[r] = mk('row', n, cnt[n])
    memo = {}

    def f(e):
        if e in m:
            return m[e]
        r = memo.get(e)
        if r is None:
            xs = [f(x) if isinstance(x, E) else (map_mon(x, f) if isinstance(x, tuple) else x) for x in e.a]
            r = e if all(a is b for a, b in zip(xs, e.a)) else rebuild(e, xs)
            memo[e] = r
        return r
    mapst(st, f)


def mapst(st, f):
    st.mem = {(f(k[0]), k[1] if isinstance(k[1], int) else f(k[1])): f(v) for k, v in st.mem.items()}
    st.dom = {f(k): v for k, v in st.dom.items()}
    st.rel = {(p, f(a), f(b)) for p, a, b in st.rel}
    st.mon = map_mon(st.mon, f)
    st.clob = tuple((f(c[0]) if c[0] is not None else None, c[1], c[2], c[3]) for c in st.clob)


def prune(mon, st):
    """drop what cannot matter for the next invocation"""
    for k in [k for k in st.mem if k[0].op == 'alloca']:
        del st.mem[k]
    st.clob = tuple(c for c in st.clob if c[0] is None or c[0].op != 'alloca')


def run_history(rep, mod, eng, mon, s0, fns, check_exit, restart=False, rounds=400, allowed=None):
    """fns: {'first': Fn, 'next': Fn}; check_exit(mon, eng, exit, method, pre) -> True when a row was produced"""
    store = {}
    work = []
    init = s0.copy()
    init.env = {}
    init.stack = ()
    init.inst = {}
    prune(mon, init)
    todo = [('first', init, '')]
    n = 0
    while todo:
        meth, st, tag = todo.pop()
        n += 1
        if n > rounds:
            rep.undecided('history', mon.cls, 'history budget')
            return
        mon.method = meth
        mon.restart = tag
        F = fns[meth]
        mon.F = F
        rep.fn(F)
        s = st.copy()
        pre = mon.enter(eng, s, meth) if hasattr(mon, 'enter') else None
        try:
            exits = eng.run(F, [P(mon.base, 0)], s)
        except AnalysisLimit as ex:
            rep.undecided('history', mon.ctx(), str(ex))
            continue
        for e in exits:
            if e.kind != 'ret':
                continue
            row = check_exit(mon, eng, e, meth, pre)
            t = e.st
            t.env = {}
            t.stack = ()
            t.inst = {}
            prune(mon, t)
            canon(mon, t)
            rt = tag
            key = (bool(row), t.mon, mon.control(t), tag)
            uid = hash_uid(('hist', key))
            if uid in t.seen:
                eng.subst_uid(t, uid)
                key = (bool(row), t.mon, mon.control(t), tag)
                uid = hash_uid(('hist', key))
            J = store.get(key)
            if J is None:
                t.seen.add(uid)
                store[key] = t.copy()
                N = t
            else:
                N, ch = eng.join(J, t, uid)
                if not ch:
                    continue
                N.seen.add(uid)
                N.inst = {}
                store[key] = N.copy()
            if row:
                todo.append(('next', N.copy(), tag))
            if restart and not tag:
                todo.append(('first', N.copy(), ':restart'))
            if restart and tag and not row:
                pass
    mon.reached = len(store)
