"""Row specifications of the operators that materialise rows."""
import os
from opspecs1 import *

BIND = mk('ghost', 'bind')


def idx(slot):
    return (GH, slot), (GH, slot + 4096)


class Idx:
    """ghost counter kept in 64 and 32 bit"""

    def __init__(self, slot):
        self.slot = slot

    def set(self, st, v):
        st.mem[(GH, self.slot)] = C(v, 64)
        st.mem[(GH, self.slot + 4096)] = C(v, 32)

    def valid(self, st):
        return (GH, self.slot) in st.mem

    def all(self, eng, st):
        a, b = st.mem[(GH, self.slot)], st.mem[(GH, self.slot + 4096)]
        return [a, eng.ext('zext', b, 32, 64), eng.ext('sext', b, 32, 64)]

    def inc(self, eng, st):
        st.mem[(GH, self.slot)] = eng.binop(st, 'add', st.mem[(GH, self.slot)], C(1, 64), 64)
        st.mem[(GH, self.slot + 4096)] = eng.binop(st, 'add', st.mem[(GH, self.slot + 4096)], C(1, 32), 32)

    def atleast(self, eng, st, n):
        return any(eng.decide_cmp(st, p, i, n) for i in self.all(eng, st) for p in ('uge', 'eq', 'sge')) or \
            any(eng.decide_cmp(st, 'uge', st.mem[(GH, self.slot + 4096)], t) for t in [eng.ext('trunc', n, 64, 32)])


# ---------------------------------------------------------------- sorted materialisation (GroupBy)
class GroupMon(OneIn):
    """ghost n: values of the current input row stored so far; I: position in the list of rows; j: registers set so far
    ext: ('row', stored, count stored) while reading; ('sorted',)/('unsorted',); ('diff',)"""
    n, j = Idx(0), Idx(8)
    I = None
    helper_seen = False

    def protected(self, eng, st, base):
        if base is BIND or base.op == 'pure' and base.a[0] == 'slot':
            return True
        if base.op == 'ld' and isinstance(base.a[1], E) and base.a[1].op in ('p', 'pv') and base.a[1].a[0].op == 'ld' and base.a[1].a[0].a[1] is P(self.base, self.off['values']):
            return True       # the materialised rows
        if base.op == 'ld' and isinstance(base.a[1], E) and base.a[1].op == 'p' and base.a[1].a[1] == 0 and base.a[1].a[0].op == 'ld' and base.a[1].a[0] is not eng.this and self.protected(eng, st, base.a[1].a[0]) and base.a[1].a[0].a[1].op != 'p':
            return True
        return OneIn.protected(self, eng, st, base)

    def at_loop(self, eng, st, F):
        if self.method == 'constructor':
            return

    def at_exit(self, eng, x, F):
        pass

    def enter(self, eng, st, meth):
        self.setext(st, ('unsorted', 0, 0) if meth == 'first' else ('next', 0, 0))
        self.j.set(st, 0)
        if meth == 'first':
            self.I.reset(self, eng, st)
            self.n.set(st, 0)
            vb, ve = vec(eng, st, self.base, self.off['values'])
            st.mem[(GH, 200)] = C(1 if vb is ve or eng.decide_cmp(st, 'eq', vb, ve) else 0, 8)

    def after_row(self, eng, st, x, name, method):
        self.n.set(st, 0)
        self.setext(st, ('row', 0, 0))

    def after_end(self, eng, st, x, name, method):
        self.setext(st, ('unsorted', 0, 0))

    def dropped(self, eng, st, x, k):
        self.oblige(False, 'no-loss', x, 'an input row is left behind although it was not stored', k.name)

    def distinct(self, eng, st):
        z = eng.decide_cmp(st, 'eq', eng.load(st, P(self.base, self.off['distinct']), 8), C(0, 8))
        return None if z is None else not z

    def size(self, eng, st):
        fn = [d for d in self.mod.bydem if 'std::map<unsigned int, Register*' in d and shortname(d).endswith('::size')]
        return mk('pure', 'size-of', BIND, 64)

    def slot(self, key):
        return P(mk('pure', 'slot', key, 64), 0)

    def keyat(self, eng, st, i):
        return eng.load(st, eng.gep(eng.load(st, P(self.base, self.off['keys']), 64), 0, [(i, 4)]), 32)

    def regvals(self, eng, st, ix):
        out = []
        for i in ix:
            r = eng.load(st, self.slot(self.keyat(eng, st, i)), 64)
            out.append(np(eng.gep(r, self.voff, [])))
        return out

    def other_call(self, eng, st, x, fn, args):
        sh = shortname(fn)
        last = sh.rsplit('::', 1)[-1]
        if sh.startswith('std::map') and args and np(args[0]) is P(self.base, self.off['bindings']):
            if last == 'operator[]':
                return [(st, self.slot(eng.load(st, args[1], 32)))]
            if last == 'size':
                return [(st, self.size(eng, st))]
            if last == 'at':
                return [(st, self.slot(eng.load(st, args[1], 32)))]
        if self.method == 'constructor':
            return None
        k = self.kid(st, 'input')
        if args and np(args[0]) is P(self.base, self.off['values']) and last in ('clear', 'operator=', 'assign', '_M_erase_at_end'):
            st.mem[(GH, 200)] = C(1, 8)
            z = mk('fresh', eng.site(st, x), 'vec', 64)
            for o in (0, 8, 16):
                st.mem[(self.base, self.off['values'] + o)] = z
            return [(st, None)]
        if args and sh.endswith('::swap') and P(self.base, self.off['values']) in [np(a) for a in args[:2]]:
            st.mem[(GH, 200)] = C(1, 8)
            eng.clobber(st, eng.site(st, x), self.base, self.off['values'], self.off['values'] + 24)
            return [(st, None)]
        if last in ('push_back', 'emplace_back') and args:
            if np(args[0]) is P(self.base, self.off['values']):
                self.empty(st, x)
                self.oblige(self.ext(st)[0] == 'row' and self.ext(st)[1] == 0, 'once', x, 'a row is stored %s' % ('twice' if self.ext(st)[0] == 'row' else 'although the input has none'))
                self.oblige(self.n.atleast(eng, st, self.size(eng, st)), 'complete', x, 'a row is stored although not all of its values are known to have been copied')
                d = self.distinct(eng, st)
                self.oblige(d if not self.ext(st)[2] else d is False or d is None, 'count', x, 'a row is stored without its multiplicity although duplicates have to be kept')
                self.setext(st, ('row', 1, self.ext(st)[2]))
                self.setkid(st, 'input', used=True)
                eng.clobber(st, eng.site(st, x), self.base, self.off['values'], self.off['values'] + 24)
                return [(st, None)]
            if self.method == 'first' and self.ext(st)[0] == 'row' and 'unsigned long' in fn:
                v = eng.load(st, args[1], 64)
                if k.row is not None and v is count(k.row):
                    self.oblige(self.n.atleast(eng, st, self.size(eng, st)), 'count-pos', x, 'the multiplicity is stored before all values were')
                    self.setext(st, ('row', self.ext(st)[1], 1))
                else:
                    want = [eng.load(st, r, 64) for r in self.regvals(eng, st, self.n.all(eng, st))]
                    if v not in want and fuzzy(v):
                        self.rep.undecided('value', self.ctx(), show(v))
                    else:
                        self.oblige(v in want, 'value', x, 'the value stored is %s instead of the next bound register' % show(v))
                    self.n.inc(eng, st)
                return [(st, None)]
        if sh in ('std::sort', 'std::stable_sort') and self.method == 'first':
            vb, ve = vec(eng, st, self.base, self.off['values'])
            if np(args[0]) is np(vb):
                self.oblige(np(args[1]) is np(ve), 'sort', x, 'only a part of the rows is sorted')
                self.empty(st, x)
                self.setext(st, ('sorted', 0, 0))
                self.I.reset(self, eng, st)
                return [(st, None)]
        if sh == 'GroupBy::sameThanPrevious':
            self.helper_seen = True
            self.oblige(np(args[1]) in [np(i) for i in self.idxs(eng, st)], 'compare', x, 'position %s is compared with its predecessor instead of the next one' % show(args[1]))
            d = self.distinct(eng, st)
            z = st.copy()
            self.setext(z, ('diff', 0, 0))
            self.oblige(d is True, 'skip', x, 'rows may be skipped although duplicates are wanted')
            self.I.advance(eng, st)
            return [(z, C(0, 1)), (st, C(1, 1))]
        if sh == 'GroupBy::calculateFieldsToCompare':
            eng.clobber(st, eng.site(st, x), np(args[0]).a[0])
            return [(st, None)]
        return None

    def empty(self, st, x):
        e = st.mem.get((GH, 200))
        self.oblige(e is not None and is_c(e) and e.a[0] == 1, 'fresh', x, 'the rows of an earlier execution are still in the list when new rows are added')

    def idxs(self, eng, st):
        s = self.I.slot
        return [st.mem[(GH, s)], eng.ext('zext', st.mem[(GH, s + 4096)], 32, 64)]

    def rows(self, eng, st):
        """begin of the stored row at the current position"""
        return [eng.load(st, np(u), 64) for u in self.I.elems(self, eng, st)]

    def on_store(self, eng, st, inst, ptr, v, size):
        if self.method == 'constructor' or not isreg(eng, ptr) or not self.j.valid(st) or not self.I.valid(st):
            return
        b = ptr.a[0] if ptr.op in ('p', 'pv') else ptr
        if not (b.op in ('ld', 'w', 'old') and width(v) == 64):
            return
        if self.ext(st)[0] == 'row':
            return
        regs = self.regvals(eng, st, self.j.all(eng, st))
        if np(ptr) in regs:
            want = [eng.load(st, eng.gep(tb, 0, [(i, 8)]), 64) for tb in self.rows(eng, st) for i in self.j.all(eng, st)]
            if v not in want and fuzzy(v):
                self.rep.undecided('value', self.ctx(), show(v))
            else:
                self.oblige(v in want, 'output', inst, 'the register receives %s instead of the value of the next row' % show(v))
            self.j.inc(eng, st)
        elif fuzzy(ptr):
            self.rep.undecided('target', self.ctx(), show(ptr))
        else:
            self.oblige(False, 'target', inst, 'a value is written to %s instead of the next bound register' % show(ptr))


def group_exit(mon, eng, e, meth, pre):
    s = e.st
    v = e.val
    k = mon.kid(s, 'input')
    ex = mon.ext(s)
    mon.oblige(k.status == 'end', 'end', e.inst, 'the input was not read to its end')
    vb, ve = vec(eng, s, mon.base, mon.off['values'])
    if is_c(v) and v.a[0] == 0:
        mon.oblige(mon.I.done(mon, eng, s) or eng.decide_cmp(s, 'eq', vb, ve), 'end', e.inst, 'the operator ends although not all stored rows are known to have been delivered', 'rows')
        return False
    if meth == 'first':
        mon.oblige(ex[0] == 'sorted', 'sort', e.inst, 'the first row is delivered although the rows were not sorted', 'first')
    d = mon.distinct(eng, s)
    mon.oblige(mon.j.atleast(eng, s, mon.size(eng, s)), 'complete', e.inst, 'a row is delivered although not all registers are known to have been set', 'out')
    if is_c(v) and v.a[0] == 1:
        mon.oblige(d is True, 'multiplicity', e.inst, 'a row is delivered with multiplicity 1 although duplicates are wanted')
    else:
        want = [eng.load(s, eng.gep(tb, 0, [(i, 8)]), 64) for tb in mon.rows(eng, s) for i in [mon.size(eng, s)]]
        if v not in want and fuzzy(v):
            mon.rep.undecided('multiplicity', mon.ctx(), show(v))
        else:
            mon.oblige(v in want and d is False, 'multiplicity', e.inst, 'a row is delivered with multiplicity %s instead of the one stored with it' % show(v))
    if meth == 'next' and mon.helper_seen:
        mon.oblige(d is False or ex[0] == 'diff', 'skip', e.inst, 'a row is delivered although it may equal the one before it')
    mon.I.advance(eng, s)
    mon.setext(s, ())
    return True


def run_group(rep, mod, restart=False):
    cls = 'GroupBy'
    for d in (0, 1):
        I = P(opn('input'))
        mon, eng, base, ctor = new_op(mod, rep, GroupMon, cls, [0] * 5)
        mon.cfg = ':distinct' if d else ':all'
        mon.kids = {I: 'input'}
        mon.off = offs(mod, rep, cls, ['bindings', 'keys', 'values', 'distinct', 'index', 'child', 'fields'])
        mon.vecs.discard(None)
        mon.I = Cur(64, mon.off['values'])
        st = new_state(mon.initmon())
        mon.method = 'constructor'
        base = mon.base
        st.mem[(base, mon.off['child'])] = I
        st.mem[(base, mon.off['distinct'])] = C(d, 8)
        st.mem[(base, 0)] = P(mk('g', '_ZTV7GroupBy'), 16)
        z = mk('fresh', 'u-empty', 'vec', 64)
        for o in (0, 8, 16):
            st.mem[(base, mon.off['values'] + o)] = z
        mon.F = ctor
        run_history(rep, mod, eng, mon, st, methods(mod, rep, cls), group_exit, restart)


# ---------------------------------------------------------------- comparison helpers
class CmpMon(OneIn):
    """a loop over a list of positions; every position passed has been found equal"""
    def at_loop(self, eng, st, F):
        if eng.at_back:
            a, b = self.pair(eng, st)
            self.oblige(any(eng.decide_cmp(st, 'eq', x, y) for x, y in zip(a, b)), 'compare', None, 'a position is passed although the values there are not known to be equal')
            self.cur.advance(eng, st)

    def pair(self, eng, st):
        w = 8 * self.cur.sz
        fs = [eng.load(st, a, w) for a in self.cur.addrs(self, eng, st)]
        fs = [eng.ext('zext', f, w, 64) if w < 64 else f for f in fs]
        return [[eng.load(st, eng.gep(eng.load(st, base, 64), 0, [(f, 8)]), 64) for f in fs] for base in self.sides(eng, st)]

    def other_call(self, eng, st, x, fn, args):
        return None

    def protected(self, eng, st, base):
        return True


def run_compare(rep, mod, fname, cls, fieldsoff, sides, args, ordered):
    fs = mod.short.get(fname)
    if not fs:
        return rep.undecided('result', fname, 'no such helper')
    F = fs[0]
    mon = CmpMon(mod, rep, cls)
    eng = Engine(mod, mon)
    base = mk('arg', 'this:' + cls, 64, 'nn')
    setup(mon, mod, eng, base)
    mon.cur = Cur(0, fieldsoff, 4)
    mon.sides = sides
    mon.F, mon.method = F, fname.split('::')[-1]
    rep.fn(F)
    st = new_state(mon.initmon())
    mon.cur.reset(mon, eng, st)
    for e in eng.run(F, [P(base)] + args, st):
        if e.kind != 'ret':
            continue
        s = e.st
        a, b = mon.pair(eng, s)

        def known(p):
            return any(eng.decide_cmp(s, p, x, y) for x, y in zip(a, b))
        v = e.val
        z = eng.decide_cmp(s, 'eq', v, C(0, width(v)))
        inner = v.op == 'cmp' and v.a[0] in ('ne', 'eq', 'ult', 'ugt')
        if z is None:
            rep.undecided('result', mon.ctx(), show(v))
        elif ordered:
            mon.oblige(known('ugt') or mon.cur.done(mon, eng, s) if z else known('ult'), 'result', e.inst, 'the comparison says %s although the first different position does not decide so' % ('"not smaller"' if z else '"smaller"'))
        else:
            mon.oblige(known('ne') or known('ult') or known('ugt') if z else mon.cur.done(mon, eng, s), 'result', e.inst, 'the comparison says %s' % ('"different" although no position is known to differ' if z else '"equal" although not all positions are known to have been compared'))


class FieldsMon(OneIn):
    """the position recorded for each register is the one where the key list holds that register"""
    cur = None

    def at_loop(self, eng, st, F):
        pass

    def protected(self, eng, st, base):
        return True

    def other_call(self, eng, st, x, fn, args):
        last = shortname(fn).rsplit('::', 1)[-1]
        if last in ('push_back', 'emplace_back') and args and np(args[0]) is P(self.out):
            v = eng.load(st, args[1], 32)
            ks = eng.load(st, P(self.K), 64)
            want = [eng.load(st, a, 32) for a in self.cur.addrs(self, eng, st)]
            got = [eng.load(st, eng.gep(ks, 0, [(i, 4)]), 32) for i in (eng.ext('zext', v, 32, 64), eng.ext('sext', v, 32, 64))]
            if v.op == 'ext' or v.op == 'trunc':
                got.append(eng.load(st, eng.gep(ks, 0, [(v.a[0], 4)]), 32))
            good = any(g is w or eng.decide_cmp(st, 'eq', g, w) for g in got for w in want)
            self.oblige(good, 'position', x, 'the position recorded for a sort register is not known to be the one of that register')
            self.cur.advance(eng, st)
            return [(st, None)]
        if last in ('vector', 'reserve', '~vector', 'size', 'begin', 'end') or 'exception' in fn or '__throw' in fn:
            return None
        return None


def run_fields(rep, mod):
    fs = mod.short.get('GroupBy::calculateFieldsToCompare')
    if not fs or len(fs[0].args) not in (3, 4):
        return rep.undecided('position', 'GroupBy::calculateFieldsToCompare', 'no such helper')
    F = fs[0]
    mon = FieldsMon(mod, rep, 'GroupBy')
    eng = Engine(mod, mon)
    setup(mon, mod, eng, mk('arg', 'this:GroupBy', 64, 'nn'))
    mon.out, mon.K, R = mk('arg', 'result', 64, 'nn'), mk('arg', 'keys', 64, 'nn'), mk('arg', 'regs', 64, 'nn')
    mon.base = R
    mon.cur = Cur(0, 0, 4)
    mon.F, mon.method = F, 'calculateFieldsToCompare'
    rep.fn(F)
    st = new_state(mon.initmon())
    mon.cur.reset(mon, eng, st)
    args = [P(mon.out)] + ([P(mk('arg', 'this:GroupBy', 64, 'nn'))] if len(F.args) > 3 else []) + [P(mon.K), P(R)]
    for e in eng.run(F, args, st):
        if e.kind == 'ret':
            mon.oblige(mon.cur.done(mon, eng, e.st), 'position', e.inst, 'not all sort registers are known to have been given a position', 'all')


def run_group_helpers(rep, mod, restart=False):
    run_fields(rep, mod)
    off = offs(mod, rep, 'GroupBy', ['fields', 'values'])
    i = mk('arg', 'index', 64)
    B = mk('arg', 'this:GroupBy', 64, 'nn')

    def sides(eng, st):
        v = eng.load(st, P(B, off['values']), 64)
        return [eng.load(st, eng.gep(v, 0, [(eng.binop(st, 'add', i, C(d, 64), 64), 8)]), 64) for d in (-1, 0)]
    run_compare(rep, mod, 'GroupBy::sameThanPrevious', 'GroupBy', off['fields'], sides, [i], False)
    fo = mod.field('ValueSorter', 'fields')
    if not fo:
        return rep.undecided('result', 'ValueSorter', 'no such helper')
    a, b = mk('arg', 'v1', 64, 'nn'), mk('arg', 'v2', 64, 'nn')
    run_compare(rep, mod, 'ValueSorter::operator()', 'ValueSorter', fo[0], lambda eng, st: [eng.load(st, P(x), 64) for x in (a, b)], [P(a), P(b)], True)


# ---------------------------------------------------------------- set difference
class MinusMon(OneIn):
    """ext = (whose row the probe buffer is filled for, result of the last probe, values copied to the hash storage, inserted)"""
    cur = cp = None

    def protected(self, eng, st, base):
        if OneIn.protected(self, eng, st, base):
            return True
        return base.op == 'ld' and isinstance(base.a[1], E) and base.a[1].op in ('p', 'pv') and base.a[1].a[0].op == 'ld' and base.a[1].a[0].a[1] is P(self.base, self.off['regsToCheck'])

    def at_loop(self, eng, st, F):
        pass

    def at_exit(self, eng, x, F):
        if self.cur.valid(x.st):
            self.cur.settle(self, eng, x.st)
            self.cp.settle(self, eng, x.st)

    def start(self, eng, st, who):
        self.setext(st, (who, None, 0))
        self.cur.reset(self, eng, st)
        self.cp.reset(self, eng, st)
        self.mark(eng, st, 320)

    def mark(self, eng, st, i):
        """the position the values of this row will be stored at"""
        b, e = vec(eng, st, self.base, self.off['valuesHashMap'])
        for n in sizes(eng, st, (b, e), 8):
            for z in sizes(eng, st, vec(eng, st, self.base, self.off['row']), 8):
                for o in ('udiv', 'sdiv'):
                    st.mem[(GH, i)] = eng.binop(st, o, n, z, 64)
                    i += 8

    def after_row(self, eng, st, x, name, meth):
        self.start(eng, st, name)

    def after_end(self, eng, st, x, name, meth):
        if self.kid(st, 'main').status == 'pos' and name == 'minus':
            self.start(eng, st, 'main')
        else:
            self.setext(st, ('none', None, 0))

    def before_advance(self, eng, st, x, name, meth):
        k = self.kid(st, name)
        ex = self.ext(st)
        if k.status != 'pos' or meth == 'first' and name == 'main':
            return
        if meth == 'first' and name == 'minus':
            self.oblige(False, 'no-loss', x, 'the rows to remove are started again while they are being read')
        if name == 'main' and not k.used:
            self.oblige(ex[0] == 'main' and ex[1] == 'in', 'drop', x, 'a row is dropped although it is not known to be among the rows to remove')
        if name == 'minus':
            self.oblige(ex[0] == 'minus' and (ex[1] == 'in' or ex[2] == 'inserted'), 'no-loss', x, 'a row to remove is not recorded')

    def full(self, eng, st):
        return self.cur.valid(st) and self.cur.done(self, eng, st)

    def on_store(self, eng, st, inst, ptr, v, size):
        if self.method == 'constructor' or not self.cur.valid(st):
            return
        b = ptr.a[0] if ptr.op in ('p', 'pv') else ptr
        rb = eng.load(st, P(self.base, self.off['row']), 64)
        if b is eng.this or b.op in ('alloca', 'ghost', 'g', 'new'):
            return
        who = self.ext(st)[0]
        tgt = [eng.gep(rb, 0, [(i, 8)]) for i in [st.mem[(GH, 0)], eng.ext('zext', st.mem[(GH, 4096)], 32, 64)]]
        if np(ptr) not in [np(t) for t in tgt]:
            if fuzzy(ptr):
                self.rep.undecided('target', self.ctx(), show(ptr))
            else:
                self.oblige(False, 'target', inst, 'a value is written to %s instead of the next element of the probe buffer' % show(ptr))
            return
        o = 0 if who == 'main' else 8
        want = [eng.load(st, eng.gep(r, self.voff, []), 64) for r in self.cur.elems(self, eng, st, o)]
        if v not in want and fuzzy(v):
            self.rep.undecided('value', self.ctx(), show(v))
        else:
            self.oblige(v in want, 'value', inst, 'the probe buffer receives %s instead of the next register of the %s row' % (show(v), {'main': 'delivered', 'minus': 'removed'}.get(who, who)))
        self.cur.advance(eng, st)

    def other_call(self, eng, st, x, fn, args):
        sh = shortname(fn)
        last = sh.rsplit('::', 1)[-1]
        ex = self.ext(st)
        if sh.startswith('std::unordered_set') and args and np(args[0]) is P(self.base, self.off['valuesToCheck']) and self.method != 'constructor':
            if last in ('count', 'find'):
                key = eng.load(st, args[1], 64)
                self.oblige(is_c(key) and key.a[0] == -1, 'probe', x, 'the set is asked for %s instead of the probe buffer' % show(key))
                self.oblige(self.full(eng, st), 'probe-complete', x, 'the set is asked although not all values are known to have been copied to the probe buffer')
                if ex[0] == 'main':
                    m = self.kid(st, 'minus').status
                    self.oblige(m == 'end', 'loaded', x, 'a row is compared although the rows to remove were not read to their end')
                else:
                    self.mark(eng, st, 600)
                a = st.copy()
                self.setext(a, (ex[0], 'in', ex[2]))
                self.setext(st, (ex[0], 'out', ex[2]))
                if last == 'find':
                    n = mk('fresh', eng.site(st, x), 'node', 64)
                    eng.assume_cmp(a, 'ne', n, C(0, 64))
                    return [(a, n), (st, C(0, 64))]
                return [(a, C(1, 64)), (st, C(0, 64))]
            if last in ('end', 'cend'):
                return [(st, C(0, 64))]
            if last in ('insert', 'emplace'):
                key = eng.load(st, args[1], 64)
                self.oblige(ex[0] == 'minus', 'insert', x, 'a row is recorded although it is not one to remove')
                self.oblige(self.cp.valid(st) and self.cp.done(self, eng, st), 'insert-complete', x, 'a row is recorded although not all of its values are known to have been stored')
                want = [st.mem[k] for k in st.mem if k[0] is GH and isinstance(k[1], int) and 320 <= k[1] < 1000]
                if key not in want:
                    if fuzzy(key):
                        self.rep.undecided('insert-key', self.ctx(), show(key))
                    else:
                        self.oblige(False, 'insert-key', x, 'the row is recorded under position %s instead of the one its values were stored at' % show(key))
                else:
                    self.oblige(True, 'insert-key', x, '')
                self.setext(st, (ex[0], ex[1], 'inserted'))
                return [(st, mk('call', eng.site(st, x), 'ins', 64))]
            if last == 'clear':
                return None
        if last in ('push_back', 'emplace_back') and args and np(args[0]) is P(self.base, self.off['valuesHashMap']):
            v = eng.load(st, args[1], 64)
            want = self.cp.elems(self, eng, st)
            if v not in want and fuzzy(v):
                self.rep.undecided('stored', self.ctx(), show(v))
            else:
                self.oblige(v in want, 'stored', x, 'the value stored is %s instead of the next one of the probe buffer' % show(v))
            self.cp.advance(eng, st)
            u = eng.site(st, x)
            st.mem[(self.base, self.off['valuesHashMap'])] = mk('fresh', u, 'vec', 64)
            st.mem[(self.base, self.off['valuesHashMap'] + 8)] = mk('fresh', u + '8' if isinstance(u, str) else (u, 8), 'vec', 64)
            return [(st, None)]
        return None


def minus_exit(mon, eng, e, meth, pre):
    s = e.st
    k = mon.kid(s, 'main')
    ex = mon.ext(s)
    v = e.val
    if is_c(v) and v.a[0] == 0:
        mon.oblige(k.status == 'end', 'end', e.inst, 'the operator ends although its input still has rows')
        return False
    if k.status != 'pos':
        mon.fail('multiplicity', e.inst, 'a row (%s) is produced although the input has none' % show(v))
        return True
    mon.oblige(v is count(k.row), 'multiplicity', e.inst, 'a row is produced with multiplicity %s instead of that of its input row' % show(v))
    mon.oblige(not k.used, 'once', e.inst, 'a row of the input is delivered twice')
    mon.oblige(ex[0] == 'main' and ex[1] == 'out', 'keep', e.inst, 'a row is delivered although it is not known to be different from all rows to remove')
    mon.setkid(s, 'main', used=True)
    mon.setext(s, ())
    return True


def run_minus(rep, mod, restart=False):
    cls = 'Minus'
    A, B = P(opn('main')), P(opn('minus'))
    mon, eng, base, ctor = new_op(mod, rep, MinusMon, cls, [0] * 4)
    mon.kids = {A: 'main', B: 'minus'}
    mon.off = offs(mod, rep, cls, ['regsToCheck', 'loaded', 'row', 'valuesHashMap', 'valuesToCheck', 'mainTree', 'minusTree'])
    mon.cur = Cur(0, mon.off['regsToCheck'], 16)
    mon.cp = Cur(64, mon.off['row'], 8)
    st = new_state(mon.initmon())
    st.mem[(base, mon.off['mainTree'])] = A
    st.mem[(base, mon.off['minusTree'])] = B
    st.mem[(base, mon.off['loaded'])] = C(0, 8)
    st.mem[(base, 0)] = P(mk('g', '_ZTV5Minus'), 16)
    mon.F = ctor
    mon.method = 'first'
    run_history(rep, mod, eng, mon, st, methods(mod, rep, cls), minus_exit, restart)


class UnrollMon(OneIn):
    """loops with a constant trip count are followed iteration by iteration"""
    def at_loop(self, eng, st, F):
        if eng.at_back:
            k = st.mem.get((GH, 900), C(0, 64))
            st.mem[(GH, 900)] = C(k.a[0] + 1, 64)
            if k.a[0] > 64:
                raise AnalysisLimit('loop does not end')

    def loop_key(self, eng, st, F):
        k = st.mem.get((GH, 900))
        return k.a[0] if k is not None else 0

    def protected(self, eng, st, base):
        return True

    def other_call(self, eng, st, x, fn, args):
        return None


class EqMon(OneIn):
    ctl = ()
    i = Idx(0)

    def protected(self, eng, st, base):
        return True

    def other_call(self, eng, st, x, fn, args):
        return None

    def which(self, eng, st):
        l, r = self.lhs, self.rhs
        if eng.decide_cmp(st, 'eq', l, C(-1, 64)):
            return r
        if eng.decide_cmp(st, 'eq', r, C(-1, 64)):
            return l
        return None

    def pair(self, eng, st):
        o = self.which(eng, st)
        if o is None:
            return []
        out = []
        for i in self.i.all(eng, st):
            a = eng.load(st, eng.gep(P(mk('arg', 'A', 64, 'nn')), 0, [(i, 8)]), 64)
            for j in (eng.binop(st, 'add', eng.binop(st, 'mul', o, self.size, 64), i, 64), eng.binop(st, 'add', eng.binop(st, 'mul', self.size, o, 64), i, 64)):
                out.append((a, eng.load(st, eng.gep(P(mk('arg', 'B', 64, 'nn')), 0, [(j, 8)]), 64)))
        return out

    def known(self, eng, st, p):
        return any(eng.decide_cmp(st, p, a, b) for a, b in self.pair(eng, st))

    def at_loop(self, eng, st, F):
        if eng.at_back:
            self.oblige(self.known(eng, st, 'eq'), 'compare', None, 'a position is passed although the values there are not known to be equal')
            self.i.inc(eng, st)


def run_minus_helpers(rep, mod, restart=False):
    A, B = mk('arg', 'A', 64, 'nn'), mk('arg', 'B', 64, 'nn')
    # hash: the value of a stored row equals that of an equal probe row
    h = 'Minus::HashVectors'
    fs = mod.short.get(h + '::operator()') or mod.short.get(h + '::operator{}')
    if fs and h in mod.records:
        F = fs[0]
        rep.fn(F)
        off = offs(mod, rep, h, ['v1', 'v2', 'size'])
        for n in range(4):
            res = []
            for idx in (-1, 0, 3):
                mon = UnrollMon(mod, rep, h)
                mon.method, mon.F, mon.cfg = 'operator()', F, ':%d' % n
                eng = Engine(mod, mon)
                T = mk('arg', 'this:h', 64, 'nn')
                eng.this = mon.base = T
                st = new_state(mon.initmon())
                V, W, X = (mk('arg', s, 64, 'nn') for s in ('vec1', 'vec2', 'idx'))
                st.mem[(T, off['v1'])], st.mem[(T, off['v2'])], st.mem[(T, off['size'])] = P(V), P(W), C(n, 64)
                st.mem[(V, 0)], st.mem[(W, 0)], st.mem[(X, 0)] = P(A), P(B), C(idx, 64)
                st.mem[(V, 8)], st.mem[(W, 8)] = P(A, 8 * n), P(B, 8 * 64)
                for i in range(n):
                    st.mem[(A, 8 * i)] = mk('arg', 'e%d' % i, 64)
                    if idx >= 0:
                        st.mem[(B, 8 * (idx * n + i))] = mk('arg', 'e%d' % i, 64)
                try:
                    res.append([e.val for e in eng.run(F, [P(T), P(X)], st) if e.kind == 'ret'])
                except AnalysisLimit as ex:
                    rep.undecided('hash', h, str(ex))
            mon.oblige(len(res) == 3 and all(len(r) == 1 for r in res) and res[0][0] is res[1][0] and res[1][0] is res[2][0], 'hash', None, 'a stored row and an equal probe row of %d values do not get the same hash value: %s' % (n, [[show(x) for x in r] for r in res]))
    else:
        rep.undecided('hash', h, 'no such helper')
    h = 'Minus::EqualVectors'
    fs = mod.short.get(h + '::operator()') or mod.short.get(h + '::operator{}')
    if fs and h in mod.records:
        F = fs[0]
        rep.fn(F)
        off = offs(mod, rep, h, ['v1', 'v2', 'size'])
        mon = EqMon(mod, rep, h)
        mon.method, mon.F = 'operator()', F
        eng = Engine(mod, mon)
        T = mk('arg', 'this:h', 64, 'nn')
        eng.this = mon.base = T
        st = new_state(mon.initmon())
        V, W, X, Y = (mk('arg', s, 64, 'nn') for s in ('vec1', 'vec2', 'lhs', 'rhs'))
        mon.size, mon.lhs, mon.rhs = mk('arg', 'size', 64), mk('arg', 'l', 64), mk('arg', 'r', 64)
        st.mem[(T, off['v1'])], st.mem[(T, off['v2'])], st.mem[(T, off['size'])] = P(V), P(W), mon.size
        st.mem[(V, 0)], st.mem[(W, 0)], st.mem[(X, 0)], st.mem[(Y, 0)] = P(A), P(B), mon.lhs, mon.rhs
        mon.i.set(st, 0)
        for e in eng.run(F, [P(T), P(X), P(Y)], st):
            if e.kind != 'ret':
                continue
            s, v = e.st, e.val
            z = eng.decide_cmp(s, 'eq', v, C(0, width(v)))
            same = eng.decide_cmp(s, 'eq', mon.lhs, mon.rhs)
            probe = eng.decide_cmp(s, 'eq', mon.lhs, C(-1, 64)) or eng.decide_cmp(s, 'eq', mon.rhs, C(-1, 64))
            stored = eng.decide_cmp(s, 'ne', mon.lhs, C(-1, 64)) and eng.decide_cmp(s, 'ne', mon.rhs, C(-1, 64))
            if z is None:
                mon.oblige(stored or same, 'equal', e.inst, 'the result is %s' % show(v))
            elif z:
                mon.oblige(same is False and stored or probe and mon.known(eng, s, 'ne'), 'equal', e.inst, 'two rows are called different although no difference is known')
            else:
                mon.oblige(same or probe and mon.i.atleast(eng, s, mon.size), 'equal', e.inst, 'two rows are called equal although not all values are known to have been compared')
    else:
        rep.undecided('equal', h, 'no such helper')


# ---------------------------------------------------------------- hash grouping
class HashMon(OneIn):
    """ext = (state of the input row: ''/open/counted/new/linked, pool emptied, chained head)"""
    j = None

    def protected(self, eng, st, base):
        if base.op == 'fresh' and 'group' in base.a[1:4] or base is BIND:
            return True
        return OneIn.protected(self, eng, st, base)

    def put(self, st, **kw):
        e = list(self.ext(st))
        for k, v in kw.items():
            e[{'row': 0, 'pool': 1, 'chain': 2, 'out': 3, 'tab': 4}[k]] = v
        self.setext(st, tuple(e))

    def enter(self, eng, st, meth):
        self.setext(st, ('', 0, 0, 0, ''))

    def after_row(self, eng, st, x, name, meth):
        self.put(st, row='open')
        for k in [k for k in st.mem if k[0] is GH and k[1] in (600, 608, 616, 656, 664, 672, 680)]:
            del st.mem[k]
        self.j.reset(self, eng, st)

    def after_end(self, eng, st, x, name, meth):
        self.put(st, row='')

    def before_advance(self, eng, st, x, name, meth):
        if meth == 'next' and self.kid(st, name).status == 'pos':
            self.oblige(self.ext(st)[4] == '', 'rehashed', x, 'the next input row is fetched although the groups were not entered into the new hash table')
            self.oblige(self.ext(st)[0] in ('counted', 'linked'), 'no-loss', x, 'the next input row is fetched although the current one was not %s' % ('entered into the hash table' if self.ext(st)[0] == 'new' else 'counted'))

    def regvals(self, eng, st):
        return [eng.load(st, eng.gep(r, self.voff, []), 64) for r in self.j.elems(self, eng, st)]

    def groupvals(self, eng, st, X):
        out = []
        for i in [st.mem[(GH, 0)], eng.ext('zext', st.mem[(GH, 4096)], 32, 64)]:
            out.append(eng.gep(X, self.g['values'], [(i, 8)]))
        return out

    def relation(self, eng, st, X, p):
        """is the value of group X at the current position known to be equal / different?"""
        for a in self.groupvals(eng, st, X):
            v = eng.load(st, a, 64)
            for r in self.regvals(eng, st):
                if eng.decide_cmp(st, p, v, r):
                    return True
        return False

    def at_loop(self, eng, st, F):
        if not self.ext(st) or not self.j.valid(st):
            return
        if not eng.at_back:
            if self.ext(st)[0] in ('open', 'new'):
                self.j.reset(self, eng, st)
                st.mem.pop((GH, 608), None)
            return
        if self.ext(st)[0] == 'open' and (GH, 600) in st.mem:
            X = st.mem[(GH, 600)]
            if self.relation(eng, st, X, 'eq'):
                self.j.advance(eng, st)
            elif (GH, 680) in st.mem or self.relation(eng, st, X, 'ne'):
                nx = eng.load(st, eng.gep(X, self.g['next'], []), 64)
                if any(np(v) is np(nx) for _, v in eng.at_phis):
                    st.mem[(GH, 600)] = nx
                    st.mem.pop((GH, 680), None)
                else:
                    st.mem[(GH, 680)] = C(1, 64)    # known to differ, found in an inner loop

    def at_exit(self, eng, x, F):
        pass

    def slotat(self, eng, st, ptr):
        """is ptr a slot of the hash table? returns True when its position is some hash masked with the size"""
        t = st.mem.get((GH, 624))
        if t is None:
            return False
        tb = eng.load(st, t, 64)
        b = ptr.a[0] if ptr.op in ('p', 'pv') else ptr
        return b is tb or tb.op == 'p' and b is tb.a[0]

    def on_load(self, eng, st, inst, ptr, val):
        if self.method == 'first' and self.ext(st) and self.ext(st)[0] == 'open' and (GH, 600) not in st.mem and self.slotat(eng, st, ptr):
            st.mem[(GH, 600)] = val
            st.mem[(GH, 616)] = np(ptr)
            st.mem[(GH, 664)] = val
            st.mem[(GH, 656)] = C(0, 64)
            ix = ptr.a[2] if ptr.op == 'pv' else ()
            n = st.mem.get((GH, 648))
            if len(ix) == 1 and ix[0][0].op == 'bin' and ix[0][0].a[0] == 'and' and n is not None:
                m = eng.binop(st, 'sub', n, C(1, 64), 64)
                h = [y for y, z in ((ix[0][0].a[1], ix[0][0].a[2]), (ix[0][0].a[2], ix[0][0].a[1])) if z is m]
            elif len(ix) == 1 and ix[0][0].op == 'and' and n is not None:
                m = eng.binop(st, 'sub', n, C(1, 64), 64)
                h = [y for y, z in ((ix[0][0].a[0], ix[0][0].a[1]), (ix[0][0].a[1], ix[0][0].a[0])) if z is m]
            elif ptr.op == 'p' or not ix:
                h = []      # first slot: no values, the hash value is the initial one
            else:
                h = None
            if not ix:
                pass
            elif h is None:
                self.rep.undecided('slot', self.ctx(), show(ptr))
            else:
                self.oblige(len(h) == 1, 'slot', inst, 'the position in the hash table is not the hash value masked with the size of the table')
                if h:
                    st.mem[(GH, 656)] = h[0]
        return None

    def on_store(self, eng, st, inst, ptr, v, size):
        if self.method == 'constructor' or not self.ext(st):
            return
        b = ptr.a[0] if ptr.op in ('p', 'pv') else ptr
        k = self.kid(st, 'input')
        row = self.ext(st)[0]
        o = ptr.a[1] if ptr.op == 'p' else None
        if self.method == 'first' and not self.ext(st)[3]:
            if b.op in ('alloca', 'ghost', 'g') or b is eng.this or k.status != 'pos':
                return
            fresh = st.mem.get((GH, 632))
            if fresh is not None and b is fresh:
                if o == self.g['count']:
                    self.oblige(v is count(k.row), 'count', inst, 'a new group starts with count %s instead of the multiplicity of the row' % show(v))
                elif o in (self.g['next'], self.g['hash']):
                    return
                elif np(ptr) in [np(a) for a in self.groupvals(eng, st, P(fresh))]:
                    want = self.regvals(eng, st)
                    self.oblige(v in want or fuzzy(v), 'value', inst, 'a new group receives %s instead of the next value' % show(v))
                    self.j.advance(eng, st)
                    if self.j.done(self, eng, st):
                        pass
                else:
                    self.oblige(fuzzy(ptr), 'target', inst, 'a value is stored at %s instead of the next value of the group' % show(ptr))
                return
            if np(v) is P(fresh) if fresh is not None else False:
                S = st.mem.get((GH, 616))
                self.oblige(row == 'new' and S is not None and np(ptr) is np(S), 'link', inst, 'the new group is entered at another place than the one that was searched')
                nx = eng.load(st, P(fresh, self.g['next']), 64)
                self.oblige(S is not None and (nx is st.mem.get((GH, 664)) or nx is st.mem.get((GH, 672)) or nx is eng.load(st, S, 64)), 'link', inst, 'the new group does not continue the chain that was there')
                self.complete(eng, st, inst)
                if (GH, 656) in st.mem:
                    h = eng.load(st, P(fresh, self.g['hash']), 64)
                    self.oblige(h is st.mem[(GH, 656)], 'hash', inst, 'the hash value stored with the group is %s instead of the one used to find it' % show(h))
                self.put(st, row='linked')
                return
            if self.slotat(eng, st, ptr):
                self.oblige(False, 'link', inst, 'the hash table receives %s' % show(v))
                return
            # the count of an existing group
            X = st.mem.get((GH, 600))
            if X is not None and np(ptr) is np(eng.gep(X, self.g['count'], [])):
                self.oblige(row == 'open', 'once', inst, 'a row is counted twice')
                self.oblige(self.j.done(self, eng, st) or eng.decide_cmp(st, 'eq', *vec(eng, st, self.base, self.off['values'])), 'match', inst, 'a row is counted in a group although not all values are known to be equal')
                self.oblige(v is add(eng, st, eng.load(st, ptr, 64), count(k.row)) or v is add(eng, st, count(k.row), eng.load(st, ptr, 64)), 'count', inst, 'the count of the group becomes %s' % show(v))
                self.put(st, row='counted')
            elif fuzzy(ptr):
                self.rep.undecided('target', self.ctx(), show(ptr))
            else:
                self.oblige(False, 'target', inst, 'a store to %s while an input row is accounted for' % show(ptr))
            return
        # output
        if b is eng.this or b.op in ('alloca', 'ghost', 'g'):
            return
        G = st.mem.get((GH, 640))
        tg = [np(eng.gep(r, self.voff, [])) for r in self.j.elems(self, eng, st)]
        if np(ptr) in tg:
            want = [eng.load(st, a, 64) for a in self.groupvals(eng, st, G)]
            if v not in want and fuzzy(v):
                self.rep.undecided('value', self.ctx(), show(v))
            else:
                self.oblige(v in want, 'output', inst, 'a register receives %s instead of the next value of the group' % show(v))
            self.j.advance(eng, st)
        elif fuzzy(ptr):
            self.rep.undecided('target', self.ctx(), show(ptr))
        else:
            self.oblige(False, 'target', inst, 'a value is written to %s instead of the next register' % show(ptr))

    def complete(self, eng, st, inst):
        self.oblige(self.j.done(self, eng, st) or eng.decide_cmp(st, 'eq', *vec(eng, st, self.base, self.off['values'])), 'complete', inst, 'a group is entered although not all of its values are known to be stored')

    def out(self, eng, st, x):
        g = eng.load(st, P(self.base, self.off['groupsIter']), 64)
        if self.method == 'first':
            ch = self.ext(st)[2]
            self.oblige(ch != 0 and g is ch, 'chain', x, 'the output starts with %s instead of the first of all groups' % show(g))
        st.mem[(GH, 640)] = g
        self.put(st, out=1)
        self.j.reset(self, eng, st)

    def on_enter(self, eng, st, F, args):
        if F.sname == 'HashGroupify::next' and self.ext(st) and self.ext(st)[3] == 0:
            self.out(eng, st, None)

    def other_call(self, eng, st, x, fn, args):
        sh = shortname(fn)
        last = sh.rsplit('::', 1)[-1]
        if self.method == 'constructor' or not self.ext(st):
            return None
        pool = args and np(args[0]) is P(self.base, self.off['groupsPool'])
        if pool and last == 'freeAll':
            self.put(st, pool=1)
            return [(st, None)]
        if pool and last == 'alloc':
            self.oblige(self.ext(st)[1] == 1, 'fresh', x, 'groups of an earlier execution are still in the pool')
            X = st.mem.get((GH, 600))
            self.oblige(self.ext(st)[0] == 'open' and X is not None and eng.decide_cmp(st, 'eq', X, C(0, 64)), 'searched', x, 'a new group is created although the chain is not known to hold no matching group')
            if (GH, 616) in st.mem:
                st.mem[(GH, 672)] = eng.load(st, st.mem[(GH, 616)], 64)
            g = mk('fresh', eng.site(st, x), 'group', 64)
            st.mem[(GH, 632)] = g
            eng.assume_cmp(st, 'ne', g, C(0, 64))
            self.j.reset(self, eng, st)
            self.put(st, row='new')
            return [(st, P(g))]
        if pool and last.startswith('enumAll') or pool and 'enumAll' in fn:
            b = np(args[1])
            if 'Chainer' in fn:
                self.oblige(self.kid(st, 'input').status == 'end' and self.ext(st)[1] == 1, 'chain', x, 'the groups are chained before the input was read to its end')
                h = mk('fresh', eng.site(st, x), 'group', 64)
                try:
                    o = self.mod.field('HashGroupify::Chainer', 'head')[0]
                except KeyError:
                    o = 0
                eng.clobber(st, eng.site(st, x), b.a[0])
                st.mem[(b.a[0], b.a[1] + o)] = h
                self.put(st, chain=h)
            if 'Rehasher' in fn:
                self.oblige(self.ext(st)[4] == 'resized', 'rehashed', x, 'the groups are entered into a hash table that was not emptied', 'empty')
                self.put(st, tab='')
            return [(st, None)]
        if last in ('resize', 'clear') and args and 'Group*' in fn:
            t = np(args[0])
            st.mem[(GH, 624)] = t
            if self.kid(st, 'input').status == 'pos':
                self.put(st, tab='cleared' if last == 'clear' else 'resized' if self.ext(st)[4] == 'cleared' else 'stale')
            u = eng.site(st, x)
            if last == 'resize':
                st.mem[(t.a[0], t.a[1])] = mk('fresh', u, 'vec', 64)
                st.mem[(t.a[0], t.a[1] + 8)] = eng.gep(mk('fresh', u, 'vec', 64), 0, [(args[1], 8)])
                st.mem[(GH, 648)] = args[1]
            return [(st, None)]
        return None


def hash_exit(mon, eng, e, meth, pre):
    s = e.st
    v = e.val
    k = mon.kid(s, 'input')
    mon.oblige(k.status == 'end', 'end', e.inst, 'the input was not read to its end')
    G = s.mem.get((GH, 640))
    if G is None:
        mon.fail('chain', e.inst, 'no group is delivered')
        return False
    if is_c(v) and v.a[0] == 0:
        mon.oblige(eng.decide_cmp(s, 'eq', G, C(0, 64)), 'end', e.inst, 'the operator ends although not all groups are known to have been delivered', 'groups')
        mon.setext(s, ())
        return False
    mon.oblige(mon.j.done(mon, eng, s) or eng.decide_cmp(s, 'eq', *vec(eng, s, mon.base, mon.off['values'])), 'complete', e.inst, 'a row is delivered although not all registers are known to have been set', 'out')
    want = eng.load(s, eng.gep(G, mon.g['count'], []), 64)
    if v is not want and fuzzy(v) and not fuzzy(want):
        mon.rep.undecided('multiplicity', mon.ctx(), show(v))
    else:
        mon.oblige(v is want, 'multiplicity', e.inst, 'a row is delivered with multiplicity %s instead of the count of the group' % show(v))
    it = eng.load(s, P(mon.base, mon.off['groupsIter']), 64)
    mon.oblige(it is eng.load(s, eng.gep(G, mon.g['next'], []), 64), 'step', e.inst, 'the group delivered next is %s instead of the next one in the chain' % show(it))
    mon.setext(s, ())
    return True


def run_hash(rep, mod, restart=False):
    cls = 'HashGroupify'
    I = P(opn('input'))
    mon, eng, base, ctor = new_op(mod, rep, HashMon, cls, [0] * 3)
    mon.kids = {I: 'input'}
    mon.off = offs(mod, rep, cls, ['values', 'input', 'groups', 'groupsIter', 'groupsPool'])
    mon.g = offs(mod, rep, 'HashGroupify::Group', ['next', 'hash', 'count', 'values'])
    mon.j = Cur(0, mon.off['values'])
    st = new_state(mon.initmon())
    st.mem[(base, mon.off['input'])] = I
    st.mem[(base, 0)] = P(mk('g', '_ZTV' + mangle_class(cls)), 16)
    mon.F = ctor
    mon.method = 'constructor'
    run_history(rep, mod, eng, mon, st, methods(mod, rep, cls), hash_exit, restart)


def run_hash_helpers(rep, mod, restart=False):
    """what is done with each group when the table grows and when the output is chained"""
    goff = offs(mod, rep, 'HashGroupify::Group', ['next', 'hash', 'count', 'values'])
    T, G, S = mk('arg', 'this:r', 64, 'nn'), mk('arg', 'g', 64, 'nn'), mk('arg', 'table', 64, 'nn')
    h = 'HashGroupify::Rehasher'
    fs = mod.short.get(h + '::operator()') or mod.short.get(h + '::operator{}')
    if fs and h in mod.records and mod.allfields(h):
        F = fs[0]
        rep.fn(F)
        n = mk('arg', 'size', 64)
        mon = UnrollMon(mod, rep, h)
        mon.method, mon.F = 'operator()', F
        eng = Engine(mod, mon)
        eng.this = mon.base = T
        st = new_state(mon.initmon())
        D = mk('arg', 'data', 64, 'nn')
        st.mem[(T, mod.allfields(h)[0][1])] = P(S)
        st.mem[(S, 0)] = P(D)
        hv = mk('arg', 'hash', 64)
        st.mem[(G, goff['hash'])] = hv
        be = (eng.load(st, P(S), 64), eng.load(st, P(S, 8), 64))
        st0 = st.copy()
        for e in eng.run(F, [P(T), P(G)], st):
            if e.kind != 'ret':
                continue
            s = e.st
            ok = False
            for z in sizes(eng, s, be, 8):
                m = eng.binop(s, 'sub', z, C(1, 64), 64)
                for ix in (eng.bool2('and', hv, m) if False else eng.binop(s, 'and', hv, m, 64), eng.binop(s, 'and', m, hv, 64)):
                    a = eng.gep(P(D), 0, [(ix, 8)])
                    old = eng.load(st0, a, 64)
                    ok = ok or eng.load(s, a, 64) is P(G) and eng.load(s, P(G, goff['next']), 64) is old
            mon.oblige(ok, 'rehash', e.inst, 'the group is not entered in front of the chain of the slot its hash value selects')
            mon.oblige(s.mem.get((G, goff['hash'])) is hv and not any(k[0] is G and isinstance(k[1], int) and k[1] >= goff['count'] for k in s.mem), 'unchanged', e.inst, 'the group itself is changed')
    else:
        rep.undecided('rehash', h, 'no such helper')
    h = 'HashGroupify::Chainer'
    fs = mod.short.get(h + '::operator()') or mod.short.get(h + '::operator{}')
    gh = mod.short.get(h + '::getHead')
    if fs and h in mod.records:
        F = fs[0]
        rep.fn(F)
        off = offs(mod, rep, h, ['head', 'tail'])
        for empty in (True, False):
            mon = UnrollMon(mod, rep, h)
            mon.method, mon.F, mon.cfg = 'operator()', F, ':first' if empty else ':next'
            eng = Engine(mod, mon)
            eng.this = mon.base = T
            st = new_state(mon.initmon())
            H, L = mk('arg', 'head', 64, 'nn'), mk('arg', 'tail', 64, 'nn')
            st.mem[(T, off['head'])] = C(0, 64) if empty else P(H)
            st.mem[(T, off['tail'])] = C(0, 64) if empty else P(L)
            for e in eng.run(F, [P(T), P(G)], st):
                if e.kind != 'ret':
                    continue
                s = e.st
                hd, tl = eng.load(s, P(T, off['head']), 64), eng.load(s, P(T, off['tail']), 64)
                mon.oblige(tl is P(G), 'chain', e.inst, 'the group does not become the last one of the chain', 'tail')
                mon.oblige(hd is (P(G) if empty else P(H)), 'chain', e.inst, 'the first group of the chain is %s' % show(hd), 'head')
                mon.oblige(eng.load(s, P(G, goff['next']), 64) is C(0, 64), 'chain', e.inst, 'the chain does not end behind the group', 'end')
                mon.oblige(empty or eng.load(s, P(L, goff['next']), 64) is P(G), 'chain', e.inst, 'the group is not linked behind the previous one', 'link')
        ct = [f for f in mod.short.get(h + '::Chainer', [])]
        for F in ct[:1]:
            mon = UnrollMon(mod, rep, h)
            mon.method, mon.F = 'Chainer', F
            eng = Engine(mod, mon)
            eng.this = mon.base = T
            for e in eng.run(F, [P(T)], new_state(mon.initmon())):
                if e.kind == 'ret':
                    mon.oblige(all(e.st.mem.get((T, off[x])) is C(0, 64) for x in off), 'chain', e.inst, 'the chain does not start empty', 'init')
        for F in (gh or [])[:1]:
            mon = UnrollMon(mod, rep, h)
            mon.method, mon.F = 'getHead', F
            eng = Engine(mod, mon)
            eng.this = mon.base = T
            st = new_state(mon.initmon())
            st.mem[(T, off['head'])] = P(mk('arg', 'head', 64, 'nn'))
            for e in eng.run(F, [P(T)], st):
                if e.kind == 'ret':
                    mon.oblige(e.val is P(mk('arg', 'head', 64, 'nn')), 'chain', e.inst, 'the chain is said to start at %s' % show(e.val), 'head')
    else:
        rep.undecided('chain', h, 'no such helper')
