"""Row specifications of the one-input operators."""
from opspecs import *

GH = mk('ghost', 'cursor')


def vec(eng, st, base, off):
    """(begin, end) of a vector member"""
    return eng.load(st, P(base, off), 64), eng.load(st, P(base, off + 8), 64)


def sizes(eng, st, be, sz):
    d = eng.binop(st, 'sub', be[1], be[0], 64)
    k = sz.bit_length() - 1
    out = [eng.binop(st, 'sdiv', d, C(sz, 64), 64), eng.binop(st, 'ashr', d, C(k, 64), 64), eng.binop(st, 'lshr', d, C(k, 64), 64), eng.binop(st, 'udiv', d, C(sz, 64), 64)]
    return out


def past(eng, st, c, be, sz):
    """is the position known to be at or behind the end of the vector?"""
    if be[0] is be[1] or eng.decide_cmp(st, 'eq', be[0], be[1]):
        return True
    for n in sizes(eng, st, be, sz):
        for p in ('uge', 'eq', 'sge'):
            if eng.decide_cmp(st, p, c, n):
                return True
        if is_c(c) and c.a[0] == 0 and eng.decide_cmp(st, 'eq', n, C(0, 64)):
            return True
    # the element address itself may have been compared with the end
    ad = eng.gep(be[0], 0, [(c, sz)])
    if eng.decide_cmp(st, 'eq', ad, be[1]) or eng.decide_cmp(st, 'uge', ad, be[1]):
        return True
    return False


def elem(eng, st, be, c, sz=8, w=64):
    return eng.load(st, eng.gep(be[0], 0, [(c, sz)]), w)


class Cur:
    """ghost position in a vector, kept as an index (64 and 32 bit) and as an address"""

    def __init__(self, slot, off, sz=8, ref=False):
        self.slot, self.off, self.sz, self.ref = slot, off, sz, ref

    def at(self, mon, eng, st):
        return eng.load(st, P(mon.base, self.off), 64) if self.ref else P(mon.base, self.off)

    def reset(self, mon, eng, st, at=None):
        at = np(self.at(mon, eng, st) if at is None else at)
        s = self.slot
        st.mem[(GH, s + 16384)] = C(0, 8)
        st.mem[(GH, s)] = C(0, 64)
        st.mem[(GH, s + 8)] = eng.load(st, at, 64)
        st.mem[(GH, s + 4096)] = C(0, 32)
        st.mem[(GH, s + 20480)] = C(0, 8)
        st.mem[(GH, s + 8192)] = eng.load(st, at, 64)
        st.mem[(GH, s + 8200)] = eng.load(st, eng.gep(at, 8, []), 64)

    def valid(self, st):
        return (GH, self.slot) in st.mem

    def settle(self, mon, eng, st, d=0):
        """replace a position that is known to be at the end by that fact"""
        if self.valid(st) and self.done(mon, eng, st, d):
            st.mem[(GH, self.slot + 16384)] = C(1, 8)

    def addrs(self, mon, eng, st):
        b = st.mem[(GH, self.slot + 8192)]
        return [eng.gep(b, 0, [(st.mem[(GH, self.slot)], self.sz)]), np(st.mem[(GH, self.slot + 8)]), eng.gep(b, 0, [(eng.ext('zext', st.mem[(GH, self.slot + 4096)], 32, 64), self.sz)])] + \
            [eng.gep(b, 0, [(eng.ext('zext', st.mem[(GH, self.slot + 20480)], 8, 64), self.sz)])]

    def elems(self, mon, eng, st, o=0):
        return [eng.load(st, eng.gep(a, o, []), 64) for a in self.addrs(mon, eng, st)]

    def inside(self, mon, eng, st, d=0):
        """is the position (plus d) known to be before the end?"""
        be = (st.mem[(GH, self.slot + 8192)], st.mem[(GH, self.slot + 8200)])
        i64 = eng.binop(st, 'add', st.mem[(GH, self.slot)], C(d, 64), 64)
        i32 = eng.ext('zext', eng.binop(st, 'add', st.mem[(GH, self.slot + 4096)], C(d, 32), 32), 32, 64)
        if is_c(i64) and i64.a[0] == 0 and eng.decide_cmp(st, 'ne', be[0], be[1]):
            return True
        for z in sizes(eng, st, be, self.sz):
            if eng.decide_cmp(st, 'ult', i64, z) or eng.decide_cmp(st, 'ult', i32, z):
                return True
        pp = st.mem[(GH, self.slot + 8)]
        if d:
            pp = eng.gep(pp, d * self.sz, [])
        return bool(eng.decide_cmp(st, 'ne', pp, be[1]) or eng.decide_cmp(st, 'ult', pp, be[1]))

    def advance(self, eng, st, n=1):
        st.mem[(GH, self.slot + 16384)] = C(0, 8)
        st.mem[(GH, self.slot)] = eng.binop(st, 'add', st.mem[(GH, self.slot)], C(n, 64), 64)
        st.mem[(GH, self.slot + 8)] = eng.gep(st.mem[(GH, self.slot + 8)], n * self.sz, [])
        st.mem[(GH, self.slot + 4096)] = eng.binop(st, 'add', st.mem[(GH, self.slot + 4096)], C(n, 32), 32)
        st.mem[(GH, self.slot + 20480)] = eng.binop(st, 'add', st.mem[(GH, self.slot + 20480)], C(n, 8), 8)

    def done(self, mon, eng, st, d=0):
        """is the position (plus d) known to be the end?"""
        if not self.valid(st):
            return False
        m = st.mem.get((GH, self.slot + 16384))
        if m is not None and is_c(m) and m.a[0] == 1:
            return True
        be = (st.mem[(GH, self.slot + 8192)], st.mem[(GH, self.slot + 8200)])
        i32 = eng.binop(st, 'add', st.mem[(GH, self.slot + 4096)], C(d, 32), 32)
        i8 = eng.ext('zext', eng.binop(st, 'add', st.mem[(GH, self.slot + 20480)], C(d, 8), 8), 8, 64)
        for z in sizes(eng, st, be, self.sz):
            if eng.decide_cmp(st, 'uge', i8, z) or eng.decide_cmp(st, 'eq', i8, z):
                return True
            t = eng.ext('trunc', z, 64, 32)
            for x, y in ((i32, t), (eng.ext('zext', i32, 32, 64), z)):
                if eng.decide_cmp(st, 'uge', x, y) or eng.decide_cmp(st, 'eq', x, y):
                    return True
        pp = st.mem[(GH, self.slot + 8)]
        if d:
            pp = eng.gep(pp, d * self.sz, [])
        if pp.op == 'p' and pp.a[1] == 0:
            pp = pp.a[0]
        i64 = eng.binop(st, 'add', st.mem[(GH, self.slot)], C(d, 64), 64)
        return past(eng, st, i64, be, self.sz) or np(pp) is np(be[1]) or bool(eng.decide_cmp(st, 'eq', pp, be[1])) or bool(eng.decide_cmp(st, 'uge', pp, be[1]))


def np(ptr):
    return ptr if ptr.op in ('p', 'pv') else P(ptr)


def isreg(eng, ptr):
    """a store target that is not the operator itself, a local or a fresh object"""
    b = ptr.a[0] if ptr.op in ('p', 'pv') else ptr
    return b.op not in ('alloca', 'new', 'ghost', 'g') and b is not eng.this


class OneIn(OpMon):
    """every row of the input is delivered once with its own multiplicity, or dropped for a stated reason"""
    def at_loop(self, eng, st, F):
        if self.base is None or not st.mon[0]:
            return
        k = self.kid(st, 'input')
        if k.status == 'pos' and not k.used and self.ext(st) == ():
            c = self.classify(eng, st, k)
            if c is not None:
                self.setext(st, c)

    def after_row(self, eng, st, x, name, method):
        self.setext(st, ())

    def after_end(self, eng, st, x, name, method):
        self.setext(st, ())

    def classify(self, eng, st, k):
        return None

    def protected(self, eng, st, base):
        return base is GH or OpMon.protected(self, eng, st, base)

    def before_advance(self, eng, st, x, name, meth):
        k = self.kid(st, name)
        if k.status == 'pos' and not k.used and meth == 'next':
            self.dropped(eng, st, x, k)

    def dropped(self, eng, st, x, k):
        self.oblige(False, 'no-loss', x, 'a row of the input is skipped', k.name)


def one_exit(mon, eng, e, meth, pre):
    s = e.st
    k = mon.kid(s, 'input')
    v = e.val
    if is_c(v) and v.a[0] == 0:
        if k.status == 'pos' and not k.used:
            mon.dropped(eng, s, e.inst, k)
            mon.oblige(mon.mayend(eng, s, k), 'end', e.inst, 'the operator ends although its input still has rows')
            return False
        mon.oblige(k.status in ('end', 'none') and (k.status == 'end' or mon.mayend(eng, s, k)) or k.status == 'pos' and mon.mayend(eng, s, k), 'end', e.inst, 'the operator ends although its input is %s' % {'pos': 'not exhausted', 'none': 'not started'}.get(k.status, k.status))
        return False
    if k.status != 'pos':
        mon.fail('multiplicity', e.inst, 'a row (%s) is produced although the input has none' % show(v))
        return True
    mon.oblige(v is count(k.row), 'multiplicity', e.inst, 'a row is produced with multiplicity %s instead of that of its input row' % show(v))
    mon.oblige(not k.used, 'once', e.inst, 'a row of the input is delivered twice')
    mon.keep(eng, s, e.inst, k)
    mon.setkid(s, 'input', used=True)
    return True


OneIn.mayend = lambda self, eng, st, k: False
OneIn.keep = lambda self, eng, st, x, k: None


# ---------------------------------------------------------------- value filter
class FilterMon(OneIn):
    def classify(self, eng, st, k):
        m = self.member(eng, st, k)
        return None if m is None else (m,)

    def member(self, eng, st, k):
        """is the value of the row known to be (not) in the set?"""
        if self.ext(st):
            return self.ext(st)[0]
        v = val('filter', k.row)
        lo = eng.load(st, P(self.base, self.off['min']), 64)
        hi = eng.load(st, P(self.base, self.off['max']), 64)
        if eng.decide_cmp(st, 'ult', v, lo) or eng.decide_cmp(st, 'ugt', v, hi):
            return False
        if eng.decide_cmp(st, 'ugt', lo, hi):
            # min > max: nothing is listed; a path that knows min <= v <= max cannot be taken
            if eng.decide_cmp(st, 'uge', v, lo) and eng.decide_cmp(st, 'ule', v, hi):
                return 'dead'
            return False
        b = eng.load(st, P(self.base, self.off['valid']), 64)
        d = eng.binop(st, 'sub', v, lo, 64)
        a = eng.binop(st, 'add', b, d, 64)
        for cand in (eng.gep(P(b), 0, [(d, 1)]), a):
            t = eng.load(st, cand, 8)
            z = eng.decide_cmp(st, 'eq', t, C(0, 8))
            if z is not None:
                if not z and not (eng.decide_cmp(st, 'uge', v, lo) and eng.decide_cmp(st, 'ule', v, hi)):
                    return None
                return not z
        return None

    def dropped(self, eng, st, x, k):
        m = self.member(eng, st, k)
        ex = eng.load(st, P(self.base, self.off['exclude']), 8)
        ez = eng.decide_cmp(st, 'eq', ex, C(0, 8))
        self.oblige(m == 'dead' or m is not None and ez is not None and m is (not ez), 'drop', x, 'a row is dropped although its value is not known to be %s the listed ones' % ('among' if ez is False else 'outside' if ez else 'ruled out by'))

    def keep(self, eng, st, x, k):
        m = self.member(eng, st, k)
        ex = eng.load(st, P(self.base, self.off['exclude']), 8)
        ez = eng.decide_cmp(st, 'eq', ex, C(0, 8))
        self.oblige(m == 'dead' or m is not None and ez is not None and m is ez, 'keep', x, 'a row is delivered although its value is not known to be %s the listed ones' % ('outside' if ez is False else 'among' if ez else 'allowed by'))


def offs(mod, rep, cls, names):
    out = {}
    for n in names:
        try:
            out[n] = mod.field(cls, n)[0]
        except KeyError:
            rep.need(False, '%s::%s is gone' % (cls, n))
    return out


def run_filter(rep, mod, restart=False):
    cls = 'Filter'
    I = P(opn('input'))
    mon, eng, base, ctor = new_op(mod, rep, FilterMon, cls, [0] * 5)
    mon.kids = {I: 'input'}
    mon.regs = {'input': {'filter': (reg('filter'), mon.voff)}}
    mon.off = offs(mod, rep, cls, ['min', 'max', 'valid', 'exclude'])
    for s in construct(mon, eng, base, ctor, [I, P(reg('filter')), P(mk('arg', 'values', 64, 'nn')), mk('arg', 'exclude', 1), mk('arg', 'card', 64)]):
        run_history(rep, mod, eng, mon, s, methods(mod, rep, cls), one_exit, restart)


# ---------------------------------------------------------------- nested loop filter
class NLFMon(OpMon):
    """the list is worked off in order: ghost cursor = position of the value the input is restricted to"""

    def protected(self, eng, st, base):
        return base is GH or OpMon.protected(self, eng, st, base)

    def enter(self, eng, st, meth):
        if meth == 'first':
            st.mem[(GH, 0)] = C(-1, 64)
            self.setkid(st, 'input', status='none', row=None, used=True)

    def before_advance(self, eng, st, x, name, meth):
        k = self.kid(st, name)
        if meth == 'next':
            self.oblige(k.used, 'no-loss', x, 'a row of the input is skipped')
            return
        self.oblige(k.status != 'pos', 'no-loss', x, 'the input is restarted before it was exhausted for the current value')
        c = eng.binop(st, 'add', st.mem[(GH, 0)], C(1, 64), 64)
        b = eng.load(st, P(self.base, self.off['values']), 64)
        want = eng.load(st, eng.gep(b, 0, [(c, 8)]), 64)
        got = st.mem.get((reg('filter'), self.voff))
        self.oblige(got is want, 'value', x, 'the input is started with %s in the filter register instead of the value after the last one tried' % (show(got) if got is not None else 'an unknown value'))
        st.mem[(GH, 0)] = c

    def after_row(self, eng, st, x, name, meth):
        # the register is set by the operator, the input only reads it
        pass


def nlf_exit(mon, eng, e, meth, pre):
    s = e.st
    k = mon.kid(s, 'input')
    v = e.val
    if is_c(v) and v.a[0] == 0:
        c = eng.binop(s, 'add', s.mem[(GH, 0)], C(1, 64), 64)
        done = past(eng, s, c, vec(eng, s, mon.base, mon.off['values']), 8)
        mon.oblige(k.status != 'pos' and done, 'end', e.inst, 'the operator ends although %s' % ('the input has rows left for the current value' if k.status == 'pos' else 'not all listed values are known to have been tried'))
        return False
    if k.status != 'pos':
        mon.fail('multiplicity', e.inst, 'a row (%s) is produced although the input has none' % show(v))
        return True
    mon.oblige(v is count(k.row), 'multiplicity', e.inst, 'a row is produced with multiplicity %s instead of that of its input row' % show(v))
    mon.oblige(not k.used, 'once', e.inst, 'a row of the input is delivered twice')
    mon.setkid(s, 'input', used=True)
    return True


def run_nlf(rep, mod, restart=False):
    cls = 'NestedLoopFilter'
    I = P(opn('input'))
    mon, eng, base, ctor = new_op(mod, rep, NLFMon, cls, [0] * 4)
    mon.kids = {I: 'input'}
    mon.ownregs = {'filter': (reg('filter'), mon.voff)}
    mon.off = offs(mod, rep, cls, ['values'])
    for s in construct(mon, eng, base, ctor, [I, P(reg('filter')), P(mk('arg', 'values', 64, 'nn')), mk('arg', 'card', 64)]):
        run_history(rep, mod, eng, mon, s, methods(mod, rep, cls), nlf_exit, restart)


# ---------------------------------------------------------------- copying into registers, element by element
def split_index(v):
    a = addr_of(v)
    if a is None or a.op != 'pv':
        return False

    def two(i):
        if i.op == 'bin' and i.a[0] == 'add':
            return all(isinstance(x, E) and fuzzy(x) for x in i.a[1:3])
        return i.op == 'add' and all(isinstance(x, E) and fuzzy(x) for x in i.a[:2])
    return any(two(i) for i, _ in a.a[2])


class Copier(OneIn):
    lost = False

    """the output registers are written one after the other; self.out is the ghost position"""

    def sources(self, eng, st):
        """acceptable values of the register written next, None: not checked"""
        raise NotImplementedError

    def on_store(self, eng, st, inst, ptr, v, size):
        if self.method == 'constructor' or not isreg(eng, ptr):
            return
        if any(ptr.op == 'p' and ptr.a[0] is b for b, _ in self.ownregs.values()) or not self.out.valid(st):
            return
        tg = [np(eng.gep(t, self.voff, [])) for t in self.targets(eng, st)]
        if np(ptr) in tg:
            want = self.sources(eng, st)
            if want is not None:
                if v not in want and fuzzy(v):
                    self.rep.undecided('value', self.ctx(), show(v))
                    if split_index(v):
                        self.lost = True    # the position is kept as the sum of two variables
                        self.written(eng, st)
                        return
                self.oblige(v in want, 'value', inst, 'an output register receives %s instead of %s' % (show(v), ' or '.join(show(w) for w in want)))
            self.written(eng, st)
        else:
            self.oblige(False, 'target', inst, 'the value is written to %s instead of the next output register %s' % (show(ptr), show(tg[0])))

    def targets(self, eng, st):
        return self.out.elems(self, eng, st)

    def written(self, eng, st):
        self.out.advance(eng, st)

    def complete(self, eng, st, inst):
        self.oblige(self.out.valid(st) and self.out.done(self, eng, st), 'complete', inst, 'a row is delivered although not all output registers are known to have been set for it')


    def at_exit(self, eng, x, F):
        self.out.settle(self, eng, x.st)


class AssignMon(Copier):
    def after_row(self, eng, st, x, name, meth):
        OneIn.after_row(self, eng, st, x, name, meth)
        self.out.reset(self, eng, st)
        self.arg.reset(self, eng, st)

    def written(self, eng, st):
        self.out.advance(eng, st)
        self.arg.advance(eng, st)

    def sources(self, eng, st):
        out = []
        for a in self.arg.addrs(self, eng, st):
            f = eng.load(st, a, 64)
            z = eng.decide_cmp(st, 'eq', f, C(0, 64))
            if z:
                out.append(eng.load(st, eng.gep(a, 8, []), 64))
            elif z is False:
                out.append(eng.load(st, eng.gep(f, self.voff, []), 64))
        return out

    def keep(self, eng, st, x, k):
        self.oblige(self.arg.valid(st) and (self.arg.done(self, eng, st) or self.out.done(self, eng, st)), 'complete', x, 'a row is delivered although not all output registers are known to have been set for it')


def run_assign(rep, mod, restart=False):
    cls = 'Assignment'
    I = P(opn('input'))
    mon, eng, base, ctor = new_op(mod, rep, AssignMon, cls, [0] * 4)
    mon.kids = {I: 'input'}
    o = offs(mod, rep, cls, ['inputArgs', 'outputVars'])
    mon.out = Cur(0, o['outputVars'])
    mon.arg = Cur(16, o['inputArgs'], 16)
    for s in construct(mon, eng, base, ctor, [I, P(mk('arg', 'args', 64, 'nn')), P(mk('arg', 'outs', 64, 'nn')), mk('arg', 'card', 64)]):
        run_history(rep, mod, eng, mon, s, methods(mod, rep, cls), one_exit, restart)


# ---------------------------------------------------------------- table function
class TableMon(Copier):
    """ext of the current input row: () before the table was requested, ('req',) afterwards; (GH,32) = next table entry"""

    def enter(self, eng, st, meth):
        self.out.reset(self, eng, st)

    def before_advance(self, eng, st, x, name, meth):
        k = self.kid(st, name)
        if k.status == 'pos' and meth == 'next':
            done = self.ext(st) == ('req',) and eng.decide_cmp(st, 'eq', eng.load(st, P(self.base, self.off['tableIter']), 64), eng.load(st, P(self.base, self.off['tableLimit']), 64))
            self.oblige(done, 'no-loss', x, 'the next input row is fetched although the table of the current one is not known to be used up')

    def other_call(self, eng, st, x, fn, args):
        if shortname(fn) == 'TableFunction::requestTable':
            self.oblige(self.kid(st, 'input').status == 'pos' and self.ext(st) == (), 'request', x, 'the table is requested without a new input row')
            u = eng.site(st, x)
            for n in ('tableIter', 'tableLimit'):
                st.mem[(self.base, self.off[n])] = mk('fresh', u, n, 64)
            eng.clobber(st, u, self.base, self.off['table'], self.off['table'] + 24)
            self.setext(st, ('req',))
            st.mem[(GH, 32)] = st.mem[(self.base, self.off['tableIter'])]
            return [(st, None)]
        return None

    def at_loop(self, eng, st, F):
        pass

    def sources(self, eng, st):
        p = st.mem.get((GH, 32))
        return [eng.load(st, p, 64)] if p is not None else None

    def written(self, eng, st):
        self.out.advance(eng, st)
        if (GH, 32) in st.mem:
            st.mem[(GH, 32)] = eng.gep(st.mem[(GH, 32)], 8, [])


def table_exit(mon, eng, e, meth, pre):
    s = e.st
    k = mon.kid(s, 'input')
    v = e.val
    if is_c(v) and v.a[0] == 0:
        mon.oblige(k.status == 'end', 'end', e.inst, 'the operator ends although its input is not exhausted')
        return False
    if k.status != 'pos':
        mon.fail('multiplicity', e.inst, 'a row (%s) is produced although the input has none' % show(v))
        return True
    mon.oblige(v is count(k.row), 'multiplicity', e.inst, 'a row is produced with multiplicity %s instead of that of its input row' % show(v))
    mon.complete(eng, s, e.inst)
    it = eng.load(s, P(mon.base, mon.off['tableIter']), 64)
    g = s.mem.get((GH, 32))
    mon.oblige(g is not None and (np(it) is np(g) or eng.decide_cmp(s, 'eq', it, g)), 'once', e.inst, 'the position in the table is not the one behind the values just delivered')
    return True


def run_table(rep, mod, restart=False):
    cls = 'TableFunction'
    I = P(opn('input'))
    mon, eng, base, ctor = new_op(mod, rep, TableMon, cls, [0] * 7)
    mon.kids = {I: 'input'}
    rep.need(mod.short.get('TableFunction::requestTable'), 'TableFunction::requestTable is gone')
    mon.off = offs(mod, rep, cls, ['outputVars', 'tableIter', 'tableLimit', 'table'])
    mon.out = Cur(0, mon.off['outputVars'])
    a = [I] + [P(mk('arg', n, 64, 'nn')) for n in ('runtime',)] + [mk('arg', 'id', 64)] + [P(mk('arg', n, 64, 'nn')) for n in ('name', 'args', 'outs')] + [mk('arg', 'card', 64)]
    for s in construct(mon, eng, base, ctor, a):
        run_history(rep, mod, eng, mon, s, methods(mod, rep, cls), table_exit, restart)


# ---------------------------------------------------------------- constant rows
class ValuesMon(Copier):
    def enter(self, eng, st, meth):
        self.out.reset(self, eng, st)
        if meth == 'first':
            self.src.reset(self, eng, st)

    def at_loop(self, eng, st, F):
        pass

    def sources(self, eng, st):
        return self.src.elems(self, eng, st)

    def written(self, eng, st):
        self.out.advance(eng, st)
        self.src.advance(eng, st)


def values_exit(mon, eng, e, meth, pre):
    s = e.st
    v = e.val
    if is_c(v) and v.a[0] == 0:
        regs = vec(eng, s, mon.base, mon.off['regs'])
        if mon.lost:
            mon.rep.undecided('end', mon.ctx(), 'the position in the list is the sum of two variables')
            return False
        mon.oblige(mon.src.done(mon, eng, s) or eng.decide_cmp(s, 'eq', regs[0], regs[1]) or any(eng.decide_cmp(s, 'eq', z, C(0, 64)) for z in sizes(eng, s, regs, 8)), 'end', e.inst, 'the scan ends although not all listed values are known to have been delivered')
        return False
    mon.oblige(is_c(v) and v.a[0] == 1, 'multiplicity', e.inst, 'a row is produced with multiplicity %s instead of 1' % show(v))
    mon.complete(eng, s, e.inst)
    return True


def run_values(rep, mod, restart=False):
    cls = 'ValuesScan'
    mon, eng, base, ctor = new_op(mod, rep, ValuesMon, cls, [0] * 3)
    mon.off = offs(mod, rep, cls, ['regs', 'values'])
    mon.out = Cur(0, mon.off['regs'])
    mon.src = Cur(16, mon.off['values'], ref='&' in [f for f in mod.allfields(cls) if f[0] == 'values'][0][3] or [f for f in mod.allfields(cls) if f[0] == 'values'][0][2] == 8)
    for s in construct(mon, eng, base, ctor, [P(mk('arg', n, 64, 'nn')) for n in ('regs', 'values')] + [mk('arg', 'card', 64)]):
        run_history(rep, mod, eng, mon, s, methods(mod, rep, cls), values_exit, restart)


# ---------------------------------------------------------------- union
class UnionMon(OneIn):
    """cur = ghost position in the list of parts; map/ini = ghost positions in the register lists of that part"""

    def at_loop(self, eng, st, F):
        if self.method != 'constructor':
            self.map.settle(self, eng, st)
            self.ini.settle(self, eng, st)
            if self.cur.valid(st):
                st.mem[(GH, self.cur.slot + 24576)] = C(1 if self.cleft(eng, st) else 0, 8)

    def cleft(self, eng, st):
        """is it known that there is a part to start next?"""
        m = st.mem.get((GH, self.cur.slot + 24576))
        d = 1 if self.kid(st, 'input').status == 'end' else 0
        return m is not None and is_c(m) and m.a[0] == 1 or self.cur.inside(self, eng, st, d)

    def enter(self, eng, st, meth):
        if meth == 'first':
            self.cur.reset(self, eng, st)
            self.setkid(st, 'input', status='none', row=None, used=True)

    def child_of(self, eng, st, recv):
        if not self.cur.valid(st):
            return None
        return 'input' if np(recv) in [np(x) for i in (0, 1) for x in self.parts(eng, st, i)] or recv.op == 'ld' else None

    def parts(self, eng, st, d):
        c = self.cur
        b = st.mem[(GH, c.slot + 8192)]
        i = eng.binop(st, 'add', st.mem[(GH, c.slot)], C(d, 64), 64)
        i32 = eng.binop(st, 'add', st.mem[(GH, c.slot + 4096)], C(d, 32), 32)
        return [eng.load(st, a, 64) for a in (eng.gep(b, 0, [(i, 8)]), np(eng.gep(st.mem[(GH, c.slot + 8)], 8 * d, [])), eng.gep(b, 0, [(eng.ext('zext', i32, 32, 64), 8)]))]

    def on_call(self, eng, st, x, fn, args):
        if fn.startswith('<virtual:') and args and self.slots.get(int(fn[9:-1])) in ('first', 'next') and self.method != 'constructor':
            meth = self.slots[int(fn[9:-1])]
            k = self.kid(st, 'input')
            d = 1 if meth == 'first' and k.status == 'end' else 0
            hit = np(args[0]) in [np(p) for p in self.parts(eng, st, d)]
            if not hit and fuzzy(args[0]):
                self.rep.undecided('order', self.ctx(), show(args[0]))
            self.oblige(hit, 'order', x, '%s is called on %s, which is not %s' % (meth, show(args[0]), 'the part after the exhausted one' if d else 'the current part'), meth)
            if meth == 'first':
                self.oblige(self.cleft(eng, st), 'bounds', x, 'a part is started without a check that there is one left')
                self.oblige(k.status != 'pos', 'no-loss', x, 'a new part is started before the current one was exhausted')
            if d:
                self.cur.advance(eng, st)
            st.mem[(GH, self.cur.slot + 24576)] = C(0, 8)
            return self.advance(eng, st, x, 'input', meth)
        return OpMon.on_call(self, eng, st, x, fn, args)

    def at_exit(self, eng, x, F):
        self.map.settle(self, eng, x.st)
        self.ini.settle(self, eng, x.st)
        self.cur.settle(self, eng, x.st, 1 if self.kid(x.st, 'input').status == 'end' else 0)

    def lists(self, eng, st, off):
        b = eng.load(st, P(self.base, off), 64)
        c = self.cur
        return eng.gep(b, 0, [(st.mem[(GH, c.slot)], 24)])

    def after_row(self, eng, st, x, name, meth):
        self.map.reset(self, eng, st, self.lists(eng, st, self.off['mappings']))
        if meth == 'first':
            self.ini.reset(self, eng, st, self.lists(eng, st, self.off['initializations']))

    def on_store(self, eng, st, inst, ptr, v, size):
        if self.method == 'constructor' or not isreg(eng, ptr) or not self.map.valid(st):
            return
        q = np(ptr)
        for a in self.map.addrs(self, eng, st):
            to = np(eng.gep(eng.load(st, eng.gep(a, 8, []), 64), self.voff, []))
            if q is to:
                src = eng.load(st, eng.gep(eng.load(st, a, 64), self.voff, []), 64)
                self.oblige(v is src, 'value', inst, 'a result register receives %s instead of the value of its source register' % show(v))
                self.map.advance(eng, st, 2)
                return
        for t in self.ini.elems(self, eng, st):
            if q is np(eng.gep(t, self.voff, [])):
                self.oblige(v is C(-1, 64), 'null', inst, 'a register the part does not bind is set to %s instead of the null id' % show(v))
                self.ini.advance(eng, st)
                return
        if fuzzy(ptr):
            self.rep.undecided('target', self.ctx(), show(ptr))
        self.oblige(False, 'target', inst, 'a value is written to %s, which is not the next register of the current part' % show(ptr))

    def keep(self, eng, st, x, k):
        self.oblige(self.map.done(self, eng, st) or self.map.done(self, eng, st, 1), 'complete', x, 'a row is delivered although not all of its values are known to have been copied to the result registers')
        self.oblige(self.ini.done(self, eng, st), 'unbound', x, 'a row is delivered although not all registers the part does not bind are known to have been set to null')

    def mayend(self, eng, st, k):
        return False


def union_exit(mon, eng, e, meth, pre):
    s = e.st
    k = mon.kid(s, 'input')
    v = e.val
    if is_c(v) and v.a[0] == 0:
        if k.status == 'pos' and mon.cur.done(mon, eng, s, 0):
            return False        # cannot be: a part that has a row is one of the list
        done = mon.cur.done(mon, eng, s, 1 if k.status == 'end' else 0)
        mon.oblige(k.status != 'pos' and done, 'end', e.inst, 'the union ends although %s' % ('the current part still has a row' if k.status == 'pos' else 'not all parts are known to have been processed'))
        return False
    return one_exit(mon, eng, e, meth, pre)


def run_union(rep, mod, restart=False):
    cls = 'Union'
    mon, eng, base, ctor = new_op(mod, rep, UnionMon, cls, [0] * 4)
    mon.kids = {mk('none'): 'input'}
    mon.off = offs(mod, rep, cls, ['parts', 'mappings', 'initializations'])
    mon.cur = Cur(0, mon.off['parts'])
    mon.map = Cur(32, 0)
    mon.ini = Cur(64, 0)
    for s in construct(mon, eng, base, ctor, [P(mk('arg', n, 64, 'nn')) for n in ('parts', 'mappings', 'inits')] + [mk('arg', 'card', 64)]):
        run_history(rep, mod, eng, mon, s, methods(mod, rep, cls), union_exit, restart)


# ---------------------------------------------------------------- trivial scans
def single_exit(mon, eng, e, meth, pre):
    v = e.val
    if meth == 'first':
        mon.oblige(is_c(v) and v.a[0] == 1, 'multiplicity', e.inst, 'the single row is produced with multiplicity %s' % show(v))
        return True
    mon.oblige(is_c(v) and v.a[0] == 0, 'end', e.inst, 'a second row is produced')
    return False


def empty_exit(mon, eng, e, meth, pre):
    mon.oblige(is_c(e.val) and e.val.a[0] == 0, 'end', e.inst, 'a row is produced')
    return meth == 'first'


def run_trivial(rep, mod, restart=False):
    for cls, ex in (('SingletonScan', single_exit), ('EmptyScan', empty_exit)):
        mon, eng, base, ctor = new_op(mod, rep, OpMon, cls, [])
        for s in construct(mon, eng, base, ctor, []):
            run_history(rep, mod, eng, mon, s, methods(mod, rep, cls), ex, restart)


# ---------------------------------------------------------------- limit, offset and expansion of duplicates
class LimitMon(OneIn):
    """ghosts: 100 = rows delivered since first(), 108 = positions of the current row passed (delivered or skipped),
    116 = positions skipped so far, 124 = positions still to be skipped"""

    def enter(self, eng, st, meth):
        if meth == 'first':
            off = eng.load(st, P(self.base, self.off['offset']), 64)
            for o in (100, 108, 116):
                st.mem[(GH, o)] = C(0, 64)
            st.mem[(GH, 124)] = off

    def dup(self, eng, st):
        return eng.decide_cmp(st, 'eq', eng.load(st, P(self.base, self.off['duplicateHandling']), 32), C(0, 32))

    def dropped(self, eng, st, x, k):
        pass

    def before_advance(self, eng, st, x, name, meth):
        k = self.kid(st, name)
        if k.status == 'pos' and meth == 'next':
            d = st.mem[(GH, 108)]
            dup = self.dup(eng, st)
            ok = eng.decide_cmp(st, 'ne', d, C(0, 64)) and (dup is False or eng.decide_cmp(st, 'uge', d, count(k.row)))
            self.oblige(ok, 'no-loss', x, 'the next input row is fetched although %s' % ('the current one is not known to have been counted' if dup is False else 'the duplicates of the current one are not known to have been used up'))

    def after_row(self, eng, st, x, name, meth):
        self.setext(st, ())
        st.mem[(GH, 108)] = C(1 if meth == 'first' else 0, 64)
        if meth == 'first':
            self.setkid(st, name, used=False)

    def position(self, eng, st, x, what):
        """one more position of the current row is passed"""
        k = self.kid(st, 'input')
        d = st.mem[(GH, 108)]
        if k.status != 'pos':
            self.fail('multiplicity', x, 'a row is %s although the input has none' % what)
            return
        new = eng.decide_cmp(st, 'eq', d, C(0, 64))
        self.oblige(new or self.dup(eng, st) and eng.decide_cmp(st, 'ult', d, count(k.row)), 'duplicates', x, 'an input row is %s again although duplicates are not known to be wanted or left' % what)
        st.mem[(GH, 108)] = eng.binop(st, 'add', d, C(1, 64), 64)

    def other_call(self, eng, st, x, fn, args):
        if self.method == 'first' and shortname(fn) in self.steps and fn in self.mod.bydem:
            self.seen_step = True
            G = self.mod.bydem[fn]
            out = []
            n = len(eng.callstack)
            for kind, s, v in eng.inline_call(self.F, x, st, G, args):
                if kind == 'ret' and v is not None and not isz(eng, s, v):
                    self.position(eng, s, x, 'skipped')
                    s.mem[(GH, 116)] = eng.binop(s, 'add', s.mem[(GH, 116)], C(1, 64), 64)
                    s.mem[(GH, 124)] = eng.binop(s, 'add', s.mem[(GH, 124)], C(-1, 64), 64)
                out.append((kind, s, v))
            return out
        return None


def limit_exit(mon, eng, e, meth, pre):
    s = e.st
    k = mon.kid(s, 'input')
    v = e.val
    lim = eng.load(s, P(mon.base, mon.off['limit']), 64)
    T = s.mem[(GH, 100)]
    if isz(eng, s, v):
        mon.oblige(k.status == 'end' or eng.decide_cmp(s, 'uge', T, lim), 'end', e.inst, 'the operator ends although neither its input is exhausted nor the limit is known to be reached')
        return False
    mon.oblige(is_c(v) and v.a[0] == 1, 'multiplicity', e.inst, 'a row is produced with multiplicity %s instead of 1' % show(v))
    mon.oblige(eng.decide_cmp(s, 'ult', T, lim), 'limit', e.inst, 'a row is produced although fewer than the limit are not known to have been delivered')
    if meth == 'next':
        mon.position(eng, s, e.inst, 'delivered')
    else:
        off = eng.load(s, P(mon.base, mon.off['offset']), 64)
        ok = eng.decide_cmp(s, 'eq', s.mem[(GH, 124)], C(0, 64)) or eng.decide_cmp(s, 'eq', s.mem[(GH, 116)], off) or eng.decide_cmp(s, 'uge', s.mem[(GH, 116)], off)
        if not ok and not mon.seen_step:
            mon.rep.undecided('offset', mon.ctx(), 'the way rows are skipped is not recognised')
        else:
            mon.oblige(ok, 'offset', e.inst, 'the first row is produced although not exactly the offset is known to have been skipped')
    s.mem[(GH, 100)] = eng.binop(s, 'add', T, C(1, 64), 64)
    return True


def run_limit(rep, mod, restart=False):
    cls = 'DuplLimit'
    I = P(opn('input'))
    mon, eng, base, ctor = new_op(mod, rep, LimitMon, cls, [0] * 5)
    mon.kids = {I: 'input'}
    mon.off = offs(mod, rep, cls, ['limit', 'offset', 'duplicateHandling'])
    mon.steps = {cls + '::next'}
    mon.seen_step = False
    nx = mod.short[cls + '::next'][0]
    inner = [mod.dem(i['fn']) for b in nx.blocks for i in b if i['op'] in ('call', 'invoke') and 'fn' in i]
    own = [shortname(d) for d in inner if shortname(d).startswith(cls + '::')]
    if own and not any(i['op'] in ('call', 'invoke') and 'fn' not in i for b in nx.blocks for i in b):
        mon.steps |= set(own[:1])
    for s in construct(mon, eng, base, ctor, [I, P(mk('arg', 'outs', 64, 'nn')), mk('arg', 'dup', 32), mk('arg', 'limit', 64), mk('arg', 'offset', 64)]):
        run_history(rep, mod, eng, mon, s, methods(mod, rep, cls), limit_exit, restart)


# ---------------------------------------------------------------- the list of a value filter
class FilterCtorMon(OneIn):
    """every listed value lies between the bounds, and its mark is set"""
    def __init__(self, *a):
        OneIn.__init__(self, *a)
        self.cur = (Cur(0, 0), Cur(32, 0))     # from the first value on, from the second one on
        self.kind, self.bad, self.sites = {}, {}, {}

    def protected(self, eng, st, base):
        return True

    def bounds(self, eng, st):
        return [eng.load(st, P(self.eng_this, self.off[n]), 64) for n in ('min', 'max')]

    def elems(self, eng, st, n):
        return self.cur[n].elems(self, eng, st)

    def leave(self, eng, st):
        """the loop that was entered last is over"""
        b = st.mem.get((GH, 200))
        if b is None or b.a[0] < 0:
            return
        for n in (0, 1):
            if not self.cur[n].done(self, eng, st):
                self.bad.setdefault((b.a[0], n), set()).add('the loop may end before the last listed value')

    def at_loop(self, eng, st, F):
        if F is not self.F:
            return
        h = eng.at_header
        lo, hi = self.bounds(eng, st)
        if not eng.at_back:
            self.leave(eng, st)
            st.mem[(GH, 200)] = C(h, 64)
            for n in (0, 1):
                self.cur[n].reset(self, eng, st)
                if n:
                    self.cur[n].advance(eng, st)
        else:
            for n in (0, 1):
                xs = self.elems(eng, st, n)
                le = eng.decide_cmp
                l0, h0 = st.mem[(GH, 208)], st.mem[(GH, 216)]
                inv = is_c(st.mem[(GH, 240)]) and st.mem[(GH, 240)].a[0] == 1
                up = inv and (hi is h0 or le(st, 'uge', hi, h0))
                dn = inv and (lo is l0 or le(st, 'ule', lo, l0))
                ok = any((le(st, 'ule', lo, x) or lo is x or dn and le(st, 'ugt', x, h0)) and (le(st, 'uge', hi, x) or hi is x or up and le(st, 'ult', x, l0)) for x in xs)
                ok = ok and (lo is l0 or le(st, 'ule', lo, l0)) and (hi is h0 or le(st, 'uge', hi, h0))
                if not ok:
                    self.bad.setdefault((h, n), set()).add('a listed value is passed although the bounds are not known to include it')
                vb = eng.load(st, P(self.eng_this, self.off['valid']), 64)
                ok = any(eng.decide_cmp(st, 'ne', eng.load(st, eng.gep(vb, 0, [(eng.binop(st, 'sub', x, lo, 64), 1)]), 8), C(0, 8)) for x in xs)
                if not ok:
                    self.bad.setdefault((h, 2 + n), set()).add('a listed value is passed although its mark is not known to be set')
                self.cur[n].advance(eng, st)
        inv = lo is hi or eng.decide_cmp(st, 'ule', lo, hi)
        if not inv and eng.at_back and is_c(st.mem[(GH, 240)]) and st.mem[(GH, 240)].a[0] == 1:
            l0, h0 = st.mem[(GH, 208)], st.mem[(GH, 216)]
            inv = (lo is l0 or eng.decide_cmp(st, 'ule', lo, l0)) and (hi is h0 or eng.decide_cmp(st, 'uge', hi, h0))
        st.mem[(GH, 240)] = C(1 if inv else 0, 8)
        st.mem[(GH, 208)], st.mem[(GH, 216)] = lo, hi

    def on_store(self, eng, st, inst, ptr, v, size):
        h = st.mem.get((GH, 200))
        b = ptr.a[0] if ptr.op in ('p', 'pv') else ptr
        if h is None:
            return
        if ptr.op == 'p' and b is self.eng_this and ptr.a[1] in (self.off['min'], self.off['max']) and h.a[0] >= 0:
            self.kind.setdefault(h.a[0], set()).add('bounds')
            self.sites[h.a[0]] = inst
        vb = eng.load(st, P(self.eng_this, self.off['valid']), 64)
        if (b is vb or vb.op == 'p' and b is vb.a[0]) and h.a[0] >= 0:
            self.kind.setdefault(h.a[0], set()).add('marks')
            self.sites[h.a[0]] = inst

    def other_call(self, eng, st, x, fn, args):
        last = shortname(fn).rsplit('::', 1)[-1]
        if args and np(args[0]) is P(self.eng_this, self.off['valid']) and last in ('resize', 'assign'):
            lo, hi = self.bounds(eng, st)
            n = args[1]
            want = [eng.binop(st, 'add', eng.binop(st, 'sub', hi, lo, 64), C(d, 64), 64) for d in (1,)]
            if fuzzy(n) and n not in want:
                self.rep.undecided('size', self.ctx(), show(n))
            else:
                self.oblige(n in want, 'size', x, 'the list of marks gets the size %s instead of the distance of the bounds plus one' % show(n))
            st.mem[(self.eng_this, self.off['valid'])] = mk('fresh', eng.site(st, x), 'marks', 64)
            st.mem[(GH, 224)] = C(1, 64)
            return [(st, None)]
        return None


def run_filter_ctor(rep, mod, restart=False):
    cls = 'Filter'
    mon, eng, base, ctor = new_op(mod, rep, FilterCtorMon, cls, [0] * 5)
    mon.eng_this = base
    mon.off = offs(mod, rep, cls, ['min', 'max', 'valid', 'exclude'])
    V = mk('arg', 'values', 64, 'nn')
    mon.base = V
    mon.F, mon.method = ctor, 'Filter'
    st = new_state(mon.initmon())
    st.mem[(GH, 200)] = C(-1, 64)
    rets = 0
    empty = False
    for e in eng.run(ctor, [P(base), P(mk('arg', 'input', 64, 'nn')), P(reg('filter')), P(V), mk('arg', 'exclude', 1), mk('arg', 'card', 64)], st):
        if e.kind != 'ret':
            continue
        s = e.st
        rets += 1
        vb, ve = eng.load(s, P(V), 64), eng.load(s, P(V, 8), 64)
        lo, hi = mon.bounds(eng, s)
        if s.mem[(GH, 200)].a[0] < 0:
            # no loop was entered: there are no values, and the bounds exclude everything
            if vb is ve or eng.decide_cmp(s, 'eq', vb, ve):
                empty = True
                mon.oblige(eng.decide_cmp(s, 'ugt', lo, hi), 'empty', e.inst, 'for an empty list the bounds (%s, %s) do not exclude every value' % (show(lo), show(hi)))
            continue
        mon.leave(eng, s)
    kinds = {}
    for h, ks in mon.kind.items():
        for k in ks:
            kinds.setdefault(k, []).append(h)
    for k, d in (('bounds', 0), ('marks', 2)):
        if not kinds.get(k):
            rep.undecided(k, mon.ctx(), 'no loop that sets the %s' % k)
            continue
        for h in kinds[k]:
            bad0 = mon.bad.get((h, d), set()) | (mon.bad.get((h, 0), set()) & {'the loop may end before the last listed value'})
            bad1 = mon.bad.get((h, d + 1), set()) | (mon.bad.get((h, 1), set()) & {'the loop may end before the last listed value'}) if k == 'bounds' else {'x'}
            mon.oblige(not bad0 or not bad1, k, mon.sites[h], '; '.join(sorted(bad0)))
