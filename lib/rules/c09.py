"""C09: the row and cluster tables (storage of the pairs of one key) and the readers of their numbers."""
import build, eff, ops
from ops import where
from seq import *

S1, S2, SC = 3, 7, 2
ROW, HDR = S1 + S2, S1 + SC
ANCH = 20000


def module():
    return Module(build.dump(['/verif/lib/units/tables.cpp'.replace('/verif', build.VERIF)], [r'.'], stop=[r'^(.* )?std::', r'^__gnu']))


class TabMon(Monitor):
    """pointers into a table: rows that are known on the path, and, for every pointer that a loop moves, what all
    its steps have in common"""
    induct = True
    FIELDS = ('start', 'current', 'end', 'currentValue1', 'currentValue2', 'count', 'isSecondColumnIgnored')

    def __init__(self, mod, rep):
        self.mod, self.rep = mod, rep
        self.off = {f: mod.field(self.rec, f)[0] for f in self.FIELDS}
        self.w = {f: mod.field(self.rec, f)[1] * 8 for f in self.FIELDS}
        self.koff = mod.field('PairItr', 'key')[0]
        self.loops, self.ids, self.turnbase, self.entry = {}, {}, {}, {}
        self.low = lambda eng, st, L: None
        self.preds = {}
        self.reads = True

    def protected(self, eng, st, base):
        return True

    def clobbers_world(self, eng, st, inst, fn, args):
        return False

    def target(self, eng, st, name, args):
        if name.startswith('<virtual:') and args and args[0] is eng.this:
            m = ops.virt_slots(self.mod, self.rec).get(int(name[9:-1]))
            for F in self.mod.fns.values():
                if m and F.sname == self.cls + '::' + m and len(F.args) == len(args):
                    return F.name
        return None

    def get(self, eng, st, f):
        return eng.load(st, P(self.this, self.off[f]), self.w[f])

    def flag(self, eng, st):
        return eng.decide(st, eng.ext('trunc', self.get(eng, st, 'isSecondColumnIgnored'), 8, 1))

    def setup(self, eng, st):
        for f in self.FIELDS:
            setattr(self, 'e_' + f, self.get(eng, st, f))
        self.e_key = eng.load(st, P(self.this, self.koff), 64)

    # ---- reads
    def on_call(self, eng, st, x, fn, args):
        last = shortname(fn)
        if last in ('RA::read', 'RB::read', 'RC::read'):
            v = mk('pure', last[:2], (args[0],), 64)
            st.dom.setdefault(v, Dom(64, 0, (1 << 62)))
            self.on_read(eng, st, x, last[:2], lin(args[0]))
            return [(st, v)]
        return None

    def on_read(self, eng, st, x, which, L):
        pass

    def cells(self, st):
        out = {}
        for e in terms(st):
            e = strip(e)
            if e.op == 'pure' and e.a[0] in ('RA', 'RB', 'RC'):
                out.setdefault((e.a[0], lkey(lin(e.a[1][0]))), set()).add(e)
        return out

    def nonnull(self, eng, st, e):
        L = lkey(lin(e))
        return any(k == L for w, k in self.cells(st))

    def cmp(self, eng, st, l, which, L, b):
        """content at L  l  b"""
        here = self.cells(st).get((which, lkey(L)), ())
        for e, b in [(e, b) for e in here] + [(y, b) for p, x, y in st.rel if p == 'eq' and strip(x) in here] + [(e, y) for e in here for p, x, y in st.rel if p == 'eq' and x is b]:
            r = any_cmp(eng, st, l, e, b)
            if r is not None:
                return r
            if l in ('gt', 'lt') and any_cmp(eng, st, l[0] + 'e', e, b) and any_cmp(eng, st, 'ne', e, b):
                return True
        return None

    def is_read(self, v, which, L):
        v = strip(v)
        return v.op == 'pure' and v.a[0] == which and lin(v.a[1][0]) == L

    def inside(self, eng, st, L, end, row=ROW):
        """is the row at L before the end? (rows are aligned)"""
        le = lin(end)
        k = const(ladd(L, le, -1))
        if k is not None:
            return k < 0
        ge = ne = False
        for p, a, b in st.rel:
            for q, x, y in ((p, a, b), ({'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'eq': 'eq', 'ne': 'ne'}.get(p), b, a)):
                if q is None or lin(y) != le:
                    continue
                k = const(ladd(lin(x), L, -1))
                if k is None or k % row:
                    continue
                if q == 'ult' and k >= 0 or q == 'ule' and k > 0:
                    return True
                if q == 'eq':
                    return k > 0
                if q == 'ne' and k == 0:
                    ne = True
                if q == 'uge' and k <= 0 or q == 'ugt' and k <= row - 1:
                    return False
        for t, d in st.dom.items():
            t = strip(t)
            if t.op == 'bin' and lin(t) == ladd(le, L, -1):
                for l, k, r in (('sge', 1, True), ('sgt', 0, True), ('slt', row, False), ('sle', 0, False)):
                    if d.decide(l, k):
                        return r
        return True if ne else None

    # ---- pointers moved by loops
    def anchor(self, eng, F, h, n):
        k = (tuple(eng.callstack), F.name, h, n)
        return self.ids.setdefault(k, ANCH + 2 * len(self.ids))

    def tracked(self, eng, st, F):
        for n, (k, v) in enumerate(eng.at_phis):
            if tw(F.blocks[eng.at_header][n]['t']) == 64 and F.blocks[eng.at_header][n]['t'] == 'p':
                yield n, v, st.env.get(k)
        yield 'cur', self.get(eng, st, 'current'), None

    def at_loop(self, eng, st, F):
        h = eng.at_header
        inst = F.blocks[h][-1]
        for n, v, old in self.tracked(eng, st, F):
            a = self.anchor(eng, F, h, n)
            if not eng.at_back:
                st.mem[(GH, a)] = st.mem[(GH, a + 1)] = v
                t = mk('w', hash_uid((tuple(eng.callstack), F.name, 'h', h)), 'turn', 64)
                self.turnbase.setdefault((t, lkey(lin(v))), a)
                self.loops.setdefault(a, {p: None for p in self.preds})
                if self.origin is not None:
                    for p in self.preds:
                        k = (a, p)
                        self.entry[k] = self.entry.get(k, True) and self.justify(eng, st, lin(v), p, self.origin) is True
                continue
            if n == 'cur' or old is None:
                old = st.mem.get((GH, a))
            if old is None:
                continue
            if old is not v:
                for p, f in self.preds.items():
                    if self.loops[a][p] is None and not self.step(eng, st, p, lin(old), lin(v)):
                        self.loops[a][p] = inst
            st.mem[(GH, a)] = v
        self.turns(eng, st, F, h, inst)

    def turns(self, eng, st, F, h, inst):
        pass

    def step(self, eng, st, p, frm, to):
        f, mono = self.preds[p]
        if mono and self.known(eng, st, p, to, frm):
            return True
        rows = self.between(eng, st, p, frm, to)
        return rows is not None and all(f(eng, st, r) for r in rows)

    def known(self, eng, st, p, to, frm=None):
        """a sorted sequence: the row at the place, or the one before, satisfies p, so all before do"""
        f = self.preds[p][0]
        d = const(ladd(to, frm, -1)) if frm is not None else None
        return d is not None and d <= 0 or f(eng, st, to) or f(eng, st, ladd(to, {1: -ROW}))

    def between(self, eng, st, p, frm, to):
        """the rows from one place to another, None if this is not known"""
        d = const(ladd(to, frm, -1))
        if d is None or d < 0 or d % ROW or d > 8 * ROW:
            return None
        return [ladd(frm, {1: j}) for j in range(0, d, ROW)]

    def justify(self, eng, st, L, p, origin, depth=0):
        """do all rows from the origin to L satisfy p? True / False / None"""
        rs = [self.justify1(eng, st, L, q, origin, depth, p) for q in (p,) + tuple(self.implied.get(p, ()))]
        return True if True in rs else False if False in rs else None

    origin = None
    implied = {}    # p: predicates that imply p

    def justify1(self, eng, st, L, p, origin, depth, asked):
        f, mono = self.preds[p]
        if L == origin:
            return True
        if mono and self.known(eng, st, p, L):
            return True
        if depth > 6:
            return None
        res = None
        rows = self.between(eng, st, p, origin, L)
        if rows is not None:
            return all(f(eng, st, r) for r in rows)
        d = const(ladd(L, origin, -1))
        if d is not None:
            return None if d < 0 else False
        cand = []
        for (g, k), v in st.mem.items():
            if g is GH and isinstance(k, int) and k >= ANCH and not k % 2:
                cand.append((lin(v), k, lin(st.mem[(GH, k + 1)])))
        for t in [t for t in L if isinstance(t, E) and t.op == 'w' and len(t.a) > 1 and t.a[1] == 'turn']:
            rest = dict(L)
            c = rest.pop(t)
            for (u, b), a in self.turnbase.items():
                j = const(ladd(rest, dict(b), -1))
                if u is t and j is not None:
                    cand.append((ladd(dict(b), {t: c}), a, dict(b)))
        for A, a, base in cand:
            if A == base and A != L:
                continue
            rows = self.between(eng, st, p, A, L)
            if rows is None and mono and A != L:
                d = const(ladd(L, A, -1))
                rows = [] if d is not None and d < 0 else None
            if rows is None:
                continue
            if not all(f(eng, st, r) for r in rows):
                res = False if res is None else res
                continue
            if A == base:
                r = self.justify(eng, st, base, asked, origin, depth + 1) if base != L else None
            elif self.loops[a][p] is not None:
                r = False
            elif origin == self.origin and self.entry.get((a, asked)):
                r = True
            else:
                r = self.justify(eng, st, base, asked, origin, depth + 1)
            if r:
                return True
            if r is False:
                res = False
        return res


def strip(e):
    while e.op in ('sext', 'zext', 'trunc'):
        e = e.a[0]
    return e


class RowMon(TabMon):
    rec, cls = 'NewRowTable<RA, RB>', 'NewRowTable'


def runs(rep, mod, mon, name, nargs, pre=None):
    fs = [F for F in eff.find(mod, rep, mon.cls + '::' + name) if len(F.args) == nargs]
    rep.need(fs, '%s::%s with %d arguments not found' % (mon.cls, name, nargs))
    F = fs[0]
    eng = Engine(mod, mon, exit_cap=400)
    a = eff.argvec(F)
    mon.this = eng.this = a[0]
    mon.F, mon.args = F, a
    st = new_state(())
    mon.setup(eng, st)
    if pre:
        pre(eng, st)
    return F, eng, [e for e in eff.exits(eng, F, a, st) if possible(eng, e.st)]


def possible(eng, st):
    for p, a, b in st.rel:
        if p in ('ugt', 'uge', 'eq'):
            d = ladd(lin(b), lin(a), -1)
            if d.get(1, 0) > 0 and all(k > 0 and (t == 1 or t.op == 'pure' and t.a[0] == 'RC') for t, k in d.items()):
                return False    # a place before itself
        if p[0] == 's':
            x, y = eng.domx(st, a), eng.domx(st, b)
            if x is not None and y is not None:
                if p in ('slt', 'sle') and x.lo is not None and y.hi is not None and (x.lo > y.hi or p == 'slt' and x.lo >= y.hi):
                    return False
                if p in ('sgt', 'sge') and y.lo is not None and x.hi is not None and (y.lo > x.hi or p == 'sgt' and y.lo >= x.hi):
                    return False
    return True


def bools(eng, e):
    for t in (True, False):
        v = eng.ext('trunc', e.val, 8, 1) if width(e.val) == 8 else e.val
        for q in eng.assume(e.st.copy(), v, t):
            yield t, q


def same(mon, eng, s, fields):
    return [f for f in fields if mon.get(eng, s, f) is not getattr(mon, 'e_' + f)]


def verdict(rep, r, rule, key, w, msg):
    if r is None:
        rep.undecided(rule, key, msg + ' (not recognised)')
    else:
        rep.decide(r, rule, key, w, msg)


# ---------------------------------------------------------------- row table
def isnew(mon, eng, s, v):
    """currentValue1 == -1: nothing was delivered yet"""
    return any_cmp(eng, s, 'eq', v, C(-1, 64))


def row_setup(rep, mod):
    mon = RowMon(mod, rep)
    F, eng, ex = runs(rep, mod, mon, 'setup', 3)
    for e in ex:
        s, w = e.st, where(F, e.inst)
        a = mon.args
        rep.decide(mon.get(eng, s, 'start') is a[1] and mon.get(eng, s, 'current') is a[1] and mon.get(eng, s, 'end') is a[2], 'range', 'setup', w, 'the table does not cover the range it was given')
        blank(rep, mon, eng, s, w, 'setup')
        rep.decide(lin(mon.get(eng, s, 'count')) == {1: 1}, 'range', 'setup:count', w, 'the count of an earlier use is kept')
    for two in (False, True):
        row_range(rep, mod, two)


def blank(rep, mon, eng, s, w, key):
    for f in ('currentValue1', 'currentValue2'):
        rep.decide(lin(mon.get(eng, s, f)) == {1: -1}, 'range', key + ':' + f, w, 'a pair of an earlier use is kept')
    rep.decide(mon.flag(eng, s) is False, 'range', key + ':mode', w, 'the mode of an earlier use is kept')


def row_range(rep, mod, two):
    mon = RowMon(mod, rep)
    n = 5 if two else 4
    name = 'setup(c1, c2)' if two else 'setup(c1)'

    def low(eng, st, L):
        c1 = mon.args[1]
        if mon.cmp(eng, st, 'lt', 'RA', L, c1):
            return True
        return bool(two and mon.cmp(eng, st, 'eq', 'RA', L, c1) and mon.cmp(eng, st, 'lt', 'RB', ladd(L, {1: S1}), mon.args[2]))

    def match(eng, st, L):
        return bool(mon.cmp(eng, st, 'eq', 'RA', L, mon.args[1]) and (not two or mon.cmp(eng, st, 'eq', 'RB', ladd(L, {1: S1}), mon.args[2])))

    def high(eng, st, L):
        c1 = mon.args[1]
        if mon.cmp(eng, st, 'gt', 'RA', L, c1):
            return True
        return bool(two and mon.cmp(eng, st, 'ge', 'RA', L, c1) and mon.cmp(eng, st, 'gt', 'RB', ladd(L, {1: S1}), mon.args[2]))

    def other(eng, st, L):
        return low(eng, st, L) or high(eng, st, L) or bool(mon.cmp(eng, st, 'ne', 'RA', L, mon.args[1]) or two and mon.cmp(eng, st, 'ne', 'RB', ladd(L, {1: S1}), mon.args[2]))
    mon.preds = {'low': (low, True), 'match': (match, False), 'other': (other, False)}
    mon.implied = {'other': ('low',)}
    bad = []

    def on_read(eng, st, x, which, L):
        p = L if which == 'RA' else ladd(L, {1: -S1})
        r = mon.inside(eng, st, p, mon.args[-1])
        if r is False:
            bad.append(x)
        elif r is None:
            # the first row, or one row after a place that a loop reached: only known to be there if this was tested
            at = [lin(v) for (g, k), v in st.mem.items() if g is GH and isinstance(k, int) and k >= ANCH and not k % 2]
            if p == lin(mon.args[-2]) or any(const(ladd(p, v, -1)) == ROW for v in at):
                bad.append(x)
    mon.on_read = on_read
    def pre(eng, st):
        mon.origin = lin(mon.args[-2])
    F, eng, ex = runs(rep, mod, mon, 'setup', n, pre)
    s0, end = lin(mon.args[-2]), mon.args[-1]
    some = 0
    for e in ex:
        s, w = e.st, where(F, e.inst)
        st, en = lin(mon.get(eng, s, 'start')), lin(mon.get(eng, s, 'end'))
        rep.decide(lin(mon.get(eng, s, 'current')) == st, 'range', name + ':first', w, 'the first pair of the range is not the next one')
        blank(rep, mon, eng, s, w, name)
        verdict(rep, mon.justify(eng, s, st, 'other', s0), 'range', name + ':before', w, 'pairs before the range may satisfy the constraint')
        if st == en:
            none = mon.inside(eng, s, st, end) is False or high(eng, s, st) or other(eng, s, st) and mon.inside(eng, s, ladd(st, {1: ROW}), end) is False
            rep.decide(bool(none), 'range', name + ':none', w, 'the range is empty although a pair may satisfy the constraint')
            continue
        some += 1
        m = mon.justify(eng, s, en, 'match', st)
        if m is None and en == lin(end) and mon.inside(eng, s, ladd(st, {1: ROW}), end) is not False:
            m = False
        verdict(rep, m, 'range', name + ':match', w, 'the range may contain a pair that does not satisfy the constraint')
        rep.decide(mon.inside(eng, s, st, end) is True, 'range', name + ':inside', w, 'the range may reach beyond the end of the table')
        if not two:
            rep.decide(mon.inside(eng, s, en, end) is False or bool(mon.cmp(eng, s, 'ne', 'RA', en, mon.args[1])), 'range', name + ':after', w, 'pairs after the range may satisfy the constraint')
    rep.decide(some > 0, 'range', name + ':some', where(F), 'no path delivers a pair')
    for x in bad[:1]:
        rep.fail('range', name + ':read', where(F, x), 'a row at the end of the table is read')


def row_next(rep, mod):
    for n in (1, 4):
        mon = RowMon(mod, rep)
        key = 'next' if n == 1 else 'next(v1, v2, v3)'
        cur = None

        def same1(eng, st, L):
            v = mon.e_first
            return bool(mon.cmp(eng, st, 'eq', 'RA', L, v)) or L == lin(mon.e_current)
        mon.preds = {'group': (same1, False)}
        counts = []

        def pre(eng, st):
            mon.e_first = mk('pure', 'RA', (mon.e_current,), 64)
            st.mem[(GH, 1)] = mon.e_current
            st.mem[(GH, 2)] = mon.e_count

        def turns(eng, st, F, h, inst):
            counted(mon, eng, st, inst, counts)
        mon.turns = turns
        F, eng, ex = runs(rep, mod, mon, 'next', n, pre)
        c0 = lin(mon.e_current)
        for e in ex:
            s, w = e.st, where(F, e.inst)
            cur = lin(mon.get(eng, s, 'current'))
            ign = mon.flag(eng, s)
            rep.decide(ign is not None, 'next', key + ':mode', w, 'the mode of the iterator is not considered')
            v1 = mon.get(eng, s, 'currentValue1')
            rep.decide(mon.is_read(v1, 'RA', c0), 'next', key + ':first', w, 'the first value is not that of the next row')
            outs = n == 4 and [eng.load(s, a, 64) for a in mon.args[1:]]
            if outs:
                rep.decide(outs[0] is mon.e_key and outs[1] is v1, 'next', key + ':out', w, 'the values that are returned are not those of the pair')
            if not ign:
                v2 = mon.get(eng, s, 'currentValue2')
                rep.decide(cur == ladd(c0, {1: ROW}), 'next', key + ':step', w, 'next does not move by one row')
                rep.decide(mon.is_read(v2, 'RB', ladd(c0, {1: S1})), 'next', key + ':second', w, 'the second value is not that of the next row')
                if outs:
                    rep.decide(outs[2] is v2, 'next', key + ':out', w, 'the values that are returned are not those of the pair')
                rep.decide(mon.get(eng, s, 'count') is mon.e_count or lin(mon.get(eng, s, 'count')) == {1: 1}, 'next', key + ':count', w, 'a pair is counted more than once')
            else:
                verdict(rep, mon.justify(eng, s, cur, 'group', c0), 'group', key + ':group', w, 'rows of another group are passed over')
                end = mon.inside(eng, s, cur, mon.e_end) is False or mon.cmp(eng, s, 'ne', 'RA', cur, mon.e_first)
                rep.decide(bool(end), 'group', key + ':all', w, 'rows of the group may be left')
                counted(mon, eng, s, e.inst, counts)
                if not counts:
                    rep.ok('group', key + ':count')
            if n == 4:
                for t, q in bools(eng, e):
                    rep.decide(mon.inside(eng, q, cur, mon.e_end) is t, 'next', key + ':more', w, 'the answer whether pairs are left is wrong')
        for x, msg, und in counts[:3]:
            (rep.undecided('group', key, msg) if und else rep.fail('group', key + ':count', where(F, x), msg))


def counted(mon, eng, st, inst, out):
    """position and count advance together: one row, one more; the count starts with the first row"""
    c0, n0 = st.mem[(GH, 1)], st.mem[(GH, 2)]
    c, n = mon.get(eng, st, 'current'), mon.get(eng, st, 'count')
    if c is c0 and (n is n0 or n0 is mon.e_count):
        return
    first = n0 is mon.e_count
    have = lin(n) if first else ladd(lin(n), lin(n0), -1)
    got = ladd(lin(c), lin(c0), -1)
    want = {t: k // ROW if k % ROW == 0 else None for t, k in got.items()}
    st.mem[(GH, 1)], st.mem[(GH, 2)] = c, n
    if first and strip(n0) in have:
        out.append((inst, 'the count of the previous group is continued', False))
    elif have != want:
        und = const(have) is None or const(got) is None
        out.append((inst, 'rows and count do not agree', und))


def row_more(rep, mod):
    mon = RowMon(mod, rep)
    F, eng, ex = runs(rep, mod, mon, 'hasNext', 1)
    for e in ex:
        w = where(F, e.inst)
        rep.decide(not same(mon, eng, e.st, mon.FIELDS), 'pure', 'hasNext', w, 'asking whether pairs are left changes the iterator')
        for t, s in bools(eng, e):
            rep.decide(mon.inside(eng, s, lin(mon.e_current), mon.e_end) is t, 'next', 'hasNext', w, 'the answer whether pairs are left is wrong')


def row_moveto(rep, mod):
    for ign in (False, True):
        mon = RowMon(mod, rep)
        key = 'moveto:' + ('groups' if ign else 'pairs')

        def low(eng, st, L):
            if mon.cmp(eng, st, 'lt', 'RA', L, mon.args[1]):
                return True
            return bool(not ign and mon.cmp(eng, st, 'lt', 'RB', ladd(L, {1: S1}), mon.args[2]) and (
                mon.cmp(eng, st, 'eq', 'RA', L, mon.args[1]) or mon.cmp(eng, st, 'le', 'RA', L, mon.args[1])))

        def pre(eng, st):
            st.mem[(mon.this, mon.off['isSecondColumnIgnored'])] = C(1 if ign else 0, 8)
            if ign:
                mon.args[2] = C(0, 64)
            else:
                st.dom[mon.args[2]] = Dom(64, 0, 1 << 62)
            for v in (mon.e_currentValue1, mon.args[1]):
                st.dom[v] = Dom(64, 0, 1 << 62)
            if not ign:
                st.dom[mon.e_currentValue2] = Dom(64, 0, 1 << 62)
            st.dom[mon.e_count] = Dom(64, 1, 1 << 40)
        mon.preds = {'low': (low, False)}
        F, eng, ex = runs(rep, mod, mon, 'moveto', 3, pre)
        c1, c2 = mon.args[1], mon.args[2]
        c0 = lin(mon.e_current)
        bw = fw = 0
        for e in ex:
            s, w = e.st, where(F, e.inst)
            cur = lin(mon.get(eng, s, 'current'))
            v1, v2 = mon.e_currentValue1, mon.e_currentValue2
            reached = any_cmp(eng, s, 'ge', v1, c1) and (ign or any_cmp(eng, s, 'gt', v1, c1) or any_cmp(eng, s, 'ne', v1, c1) or any_cmp(eng, s, 'ge', v2, c2))
            below = any_cmp(eng, s, 'lt', v1, c1) or any_cmp(eng, s, 'le', v1, c1) and ign is False and any_cmp(eng, s, 'lt', v2, c2)
            d = ladd(cur, c0, -1)
            if d == {1: -ROW} or lkey(d) == lkey({strip(mon.e_count): -ROW}):
                bw += 1
                rep.decide(bool(reached), 'moveto', key + ':back', w, 'the last delivered pair is delivered again although it may lie before the target')
                if ign:
                    rep.decide(const(d) is None, 'moveto', key + ':group', w, 'the group is delivered again without its first rows')
                else:
                    rep.decide(const(d) is not None, 'moveto', key + ':pair', w, 'more than one pair is delivered again')
                continue
            fw += 1
            rep.decide(bool(below), 'moveto', key + ':forward', w, 'the last delivered pair is passed over although it may lie at or after the target')
            verdict(rep, mon.justify(eng, s, cur, 'low', c0), 'moveto', key + ':pass', w, 'a pair is passed over that may lie at or after the target')
            end = mon.inside(eng, s, cur, mon.e_end) is False
            at = mon.cmp(eng, s, 'gt', 'RA', cur, c1) or mon.cmp(eng, s, 'ge', 'RA', cur, c1) and (ign or zero(eng, s, c2) or mon.cmp(eng, s, 'ne', 'RA', cur, c1) or mon.cmp(eng, s, 'ge', 'RB', ladd(cur, {1: S1}), c2)) \
                or mon.cmp(eng, s, 'ne', 'RA', cur, c1) and before(mon, eng, s, cur, c1)
            rep.decide(bool(end or at), 'moveto', key + ':reach', w, 'the position may stop before the target')
        rep.decide(bw > 0 and fw > 0, 'moveto', key + ':both', where(F), 'the move is not possible in both directions')


def before(mon, eng, st, L, c1):
    """a row that was passed has a first value of at least c1, so that the row at L has as well"""
    return any(w == 'RA' and k != lkey(L) and mon.cmp(eng, st, 'ge', 'RA', dict(k), c1) for w, k in mon.cells(st))


def zero(eng, st, v):
    return any_cmp(eng, st, 'le', v, C(0, 64))


def marks(rep, mod, M, fields, ign=None):
    mon = M(mod, rep)
    F, eng, ex = runs(rep, mod, mon, 'mark', 1)
    saved = {}
    for f in fields:
        s = None
        for e in ex:
            here = {k[1] for k, v in e.st.mem.items() if k[0] is mon.this and isinstance(k[1], int) and v is getattr(mon, 'e_' + f) and k[1] != mon.off[f]}
            s = here if s is None else s & here
        saved[f] = s
    for e in ex:
        rep.decide(not same(mon, eng, e.st, mon.FIELDS), 'mark', mon.cls + ':mark', where(F, e.inst), 'marking a position changes what is delivered next')
    mon = M(mod, rep)
    F, eng, ex = runs(rep, mod, mon, 'reset', 2)
    for e in ex:
        for f in fields:
            v = mon.get(eng, e.st, f)
            okk = v.op == 'ld' and v.a[1].op == 'p' and v.a[1].a[0] is mon.this and v.a[1].a[1] in saved[f]
            rep.decide(okk, 'mark', '%s:reset:%s' % (mon.cls, f), where(F, e.inst), 'the %s of the mark is not restored' % {'current': 'position', 'count': 'count', 'countgroup': 'count'}.get(f, 'pair'))


def pure(rep, mod, M):
    for m in ('getCardinality', 'estCardinality', 'getValue1', 'getValue2', 'getCount'):
        mon = M(mod, rep)

        def pre(eng, st):
            if m == 'getCardinality':
                st.mem[(mon.this, mon.off['isSecondColumnIgnored'])] = st.mem.get((mon.this, mon.off['isSecondColumnIgnored']), mon.e_isSecondColumnIgnored)
        F, eng, ex = runs(rep, mod, mon, m, 1, pre)
        for e in ex:
            w = where(F, e.inst)
            bad = same(mon, eng, e.st, mon.FIELDS)
            rep.decide(not bad, 'pure', mon.cls + ':' + m, w, 'asking for the cardinality, count or value changes what is delivered next (%s)' % ', '.join(bad))
            if m.startswith('getValue'):
                rep.decide(e.val is getattr(mon, 'e_currentValue' + m[-1]), 'pure', '%s:%s:value' % (mon.cls, m), w, 'the value is not the delivered one')
            if m == 'getCardinality' and mon.cls == 'NewRowTable' and mon.flag(eng, e.st) is False:
                rep.decide(divided(e.val, ladd(lin(mon.e_end), lin(mon.e_start), -1), ROW), 'pure', 'NewRowTable:pairs', w, 'the cardinality is not the number of rows')
            if m == 'getCount':
                if mon.cls == 'NewRowTable':
                    rep.decide(e.val is mon.e_count or mon.flag(eng, e.st) is False and lin(e.val) == {1: 1}, 'group', 'NewRowTable:getCount', w, 'the count is not that of the delivered group')
                else:
                    ign = mon.flag(eng, e.st)
                    rep.decide(ign and e.val is mon.e_countgroup or ign is False and lin(e.val) == {1: 1}, 'group', 'NewClusterTable:getCount', w, 'the count is not that of the delivered group')


def divided(v, L, k):
    v = strip(v)
    return v.op == 'bin' and v.a[0] in ('sdiv', 'udiv') and is_c(v.a[2]) and v.a[2].a[0] == k and lin(v.a[1]) == L


def row_mode(rep, mod):
    mon = RowMon(mod, rep)

    def group(eng, st, L):
        return bool(mon.cmp(eng, st, 'eq', 'RA', L, mon.e_currentValue1))
    mon.preds = {'group': (group, False)}
    F, eng, ex = runs(rep, mod, mon, 'ignoreSecondColumn', 1)
    for e in ex:
        s, w = e.st, where(F, e.inst)
        cur = lin(mon.get(eng, s, 'current'))
        rep.decide(mon.flag(eng, s) is True, 'mode', 'row:set', w, 'the mode is not changed')
        verdict(rep, mon.justify(eng, s, cur, 'group', lin(mon.e_current)), 'mode', 'row:pass', w, 'rows of another group are passed over')
        if not isnew(mon, eng, s, mon.e_currentValue1):
            end = mon.inside(eng, s, cur, mon.e_end) is False or mon.cmp(eng, s, 'ne', 'RA', cur, mon.e_currentValue1)
            rep.decide(bool(end), 'mode', 'row:rest', w, 'the group that was already delivered may be delivered again')


def row_at(rep, mod):
    for name, n in (('s_getValue1AtRow', 2), ('s_getValue12AtRow', 6)):
        mon = RowMon(mod, rep)
        fs = [F for F in eff.find(mod, rep, 'NewRowTable::' + name)]
        F = fs[0]
        eng = Engine(mod, mon)
        a = eff.argvec(F)
        mon.this = eng.this = mk('arg', 'nobody', 64, 'nn')
        ex = eff.exits(eng, F, a)
        start, row = (a[0], a[1]) if n == 2 else (a[2], a[3])
        L = ladd(lin(start), {strip(row): ROW})
        for e in ex:
            w = where(F, e.inst)
            v1 = e.val if n == 2 else eng.load(e.st, a[4], 64)
            rep.decide(mon.is_read(v1, 'RA', L), 'random', name, w, 'the value is not that of the requested row')
            if n == 6:
                rep.decide(mon.is_read(eng.load(e.st, a[5], 64), 'RB', ladd(L, {1: S1})), 'random', name, w, 'the second value is not that of the requested row')


def run_row(rep, mod):
    for f in (row_setup, row_next, row_more, row_moveto, row_mode, row_at):
        f(rep, mod)
    marks(rep, mod, RowMon, ('current', 'currentValue1', 'currentValue2', 'count'))
    pure(rep, mod, RowMon)


# ---------------------------------------------------------------- cluster table
class CluMon(TabMon):
    """groups: first value, number of seconds, seconds.  Predicates named g.. walk over groups, those named s.. over the
    seconds of one group (sorted, so that one of them speaks for all before, or after, it)"""
    rec, cls = 'NewClusterTable<RA, RB, RC>', 'NewClusterTable'
    FIELDS = TabMon.FIELDS + ('countgroup',)

    def setup(self, eng, st):
        TabMon.setup(self, eng, st)
        for f in ('count', 'countgroup'):
            st.dom[getattr(self, 'e_' + f)] = Dom(64, 0, 1 << 40)

    def seconds(self, st, G):
        """linear form of the number of pairs of the group at G, if it was read"""
        L = ladd(G, {1: S1})
        for e in list(st.mem.values()) + list(terms(st)):
            for x in nested(e):
                if x.op == 'pure' and x.a[0] == 'RC' and lin(x.a[1][0]) == L:
                    return {x: 1}
        return None

    def after(self, st, G, n):
        return ladd(ladd(G, {1: HDR}), n, S2)

    def between(self, eng, st, p, frm, to):
        if p[0] == 's':
            d = const(ladd(to, frm, -1))
            if d is None or d < 0 or d % S2 or d > 8 * S2:
                return None
            return [ladd(frm, {1: j}) for j in range(0, d, S2)]
        out, pos = [], frm
        while pos != to and len(out) < 6:
            out.append(pos)
            n = [t for t in to if isinstance(t, E) and t.op == 'pure' and t.a[0] == 'RC' and lin(t.a[1][0]) == ladd(pos, {1: S1})]
            if not n:
                return None
            pos = self.after(st, pos, {n[0]: 1})
        return out if pos == to else None

    def known(self, eng, st, p, to, frm=None):
        f = self.preds[p][0]
        if p == 'shigh':
            return f(eng, st, to)
        if self.aim is not None and self.cmp(eng, st, 'eq', 'RB', to, self.aim):
            return True    # each pair occurs once
        return f(eng, st, ladd(to, {1: -S2}))

    aim = None

    def on_read(self, eng, st, x, which, L):
        if which != 'RB':
            return
        for (g, k), v in st.mem.items():
            if g is GH and isinstance(k, int) and k >= ANCH and not k % 2:
                d = ladd(L, lin(v), -1)
                if len(d) == 1 and 1 not in d:
                    t, c = list(d.items())[0]
                    n, r = 1, t
                    while r.op == 'bin' and r.a[0] in ('udiv', 'sdiv', 'lshr', 'ashr') and is_c(r.a[2]):
                        n *= r.a[2].a[0] if r.a[0] in ('udiv', 'sdiv') else 1 << r.a[2].a[0]
                        r = strip(r.a[1])
                    if c == S2 and ladd(lin(r), lin(v)).keys() != lin(r).keys():
                        self.middles.append((x, n >= 2 * S2))


def nested(e):
    e = strip(e)
    yield e
    if e.op in ('bin', 'p', 'pv'):
        for x in e.a:
            if isinstance(x, E):
                yield from nested(x)
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, tuple):
                        for z in y:
                            if isinstance(z, E):
                                yield from nested(z)


def quotient(v, L):
    """v is L / size of a second value"""
    x = strip(v)
    return x.op == 'bin' and x.a[0] in ('sdiv', 'udiv') and is_c(x.a[2]) and x.a[2].a[0] == S2 and lin(x.a[1]) == L or {t: k * S2 for t, k in lin(x).items()} == L


def clu_next(rep, mod):
    for n in (1, 4):
        mon = CluMon(mod, rep)
        key = 'cluster next' if n == 1 else 'cluster next(v1, v2, v3)'
        F, eng, ex = runs(rep, mod, mon, 'next', n)
        c0 = lin(mon.e_current)
        seen = set()
        for e in ex:
            s, w = e.st, where(F, e.inst)
            cur, cnt = lin(mon.get(eng, s, 'current')), mon.get(eng, s, 'count')
            ign = mon.flag(eng, s)
            outs = n == 4 and [eng.load(s, a, 64) for a in mon.args[1:]]
            v1 = mon.get(eng, s, 'currentValue1')
            if outs:
                rep.decide(outs[0] is mon.e_key and outs[1] is v1, 'next', key + ':out', w, 'the values that are returned are not those of the pair')
            nn = mon.seconds(s, c0)
            if ign:
                seen.add('ign')
                rep.decide(mon.is_read(v1, 'RA', c0), 'group', key + ':first', w, 'the first value is not that of the next group')
                rep.decide(nn is not None and cur == mon.after(s, c0, nn), 'group', key + ':step', w, 'next does not move to the next group')
                rep.decide(nn is not None and lin(mon.get(eng, s, 'countgroup')) == nn, 'group', key + ':count', w, 'the count is not that of the group')
            elif ign is None:
                rep.fail('next', key + ':mode', w, 'the mode of the iterator is not considered')
            else:
                inner = any_cmp(eng, s, 'gt', mon.e_count, C(0, 64))
                v2 = mon.get(eng, s, 'currentValue2')
                if outs:
                    rep.decide(outs[2] is v2, 'next', key + ':out', w, 'the values that are returned are not those of the pair')
                if inner is None and any_cmp(eng, s, 'ne', mon.e_count, C(0, 64)):
                    inner = True
                if inner:
                    seen.add('in')
                    rep.decide(mon.is_read(v2, 'RB', c0) and v1 is mon.e_currentValue1, 'next', key + ':pair', w, 'the pair is not the next one of the group')
                    rep.decide(cur == ladd(c0, {1: S2}) and lin(cnt) == ladd(lin(mon.e_count), {1: -1}), 'next', key + ':step', w, 'next does not move by one pair')
                    rep.decide(mon.get(eng, s, 'countgroup') is mon.e_countgroup, 'next', key + ':size', w, 'the size of the group is changed within the group')
                elif inner is False:
                    seen.add('new')
                    rep.decide(mon.is_read(v1, 'RA', c0) and mon.is_read(v2, 'RB', ladd(c0, {1: HDR})), 'next', key + ':new', w, 'the pair is not the first one of the next group')
                    rep.decide(cur == ladd(c0, {1: HDR + S2}) and nn is not None and lin(cnt) == ladd(nn, {1: -1}) and lin(mon.get(eng, s, 'countgroup')) == nn, 'next', key + ':enter', w, 'the number of pairs left in the group is wrong')
                else:
                    rep.fail('next', key + ':left', w, 'the number of pairs left in the group is not considered')
            if n == 4:
                for t, q in bools(eng, e):
                    rep.decide(mon.inside(eng, q, cur, mon.e_end, 1) is t, 'next', key + ':more', w, 'the answer whether pairs are left is wrong')
        rep.decide(seen == {'ign', 'in', 'new'}, 'next', key + ':cases', where(F), 'not all cases are handled')


def clu_setup(rep, mod):
    mon = CluMon(mod, rep)
    F, eng, ex = runs(rep, mod, mon, 'setup', 3)
    for e in ex:
        s, w, a = e.st, where(F, e.inst), mon.args
        rep.decide(mon.get(eng, s, 'start') is a[1] and mon.get(eng, s, 'current') is a[1] and mon.get(eng, s, 'end') is a[2], 'range', 'cluster setup', w, 'the table does not cover the range it was given')
        blank(rep, mon, eng, s, w, 'cluster setup')
        rep.decide(lin(mon.get(eng, s, 'count')) == {}, 'range', 'cluster setup:count', w, 'the pairs left of an earlier use are kept')
    for two in (False, True):
        clu_range(rep, mod, two)


def clu_range(rep, mod, two):
    mon = CluMon(mod, rep)
    mon.middles = []
    name = 'cluster setup(c1, c2)' if two else 'cluster setup(c1)'

    def other(eng, st, L):
        return bool(mon.cmp(eng, st, 'ne', 'RA', L, mon.args[1]) or mon.cmp(eng, st, 'lt', 'RA', L, mon.args[1]) or mon.cmp(eng, st, 'gt', 'RA', L, mon.args[1]))

    def slow(eng, st, L):
        return bool(two and mon.cmp(eng, st, 'lt', 'RB', L, mon.args[2]))

    def shigh(eng, st, L):
        return bool(two and (mon.cmp(eng, st, 'gt', 'RB', L, mon.args[2]) or mon.cmp(eng, st, 'ge', 'RB', L, mon.args[2])))
    mon.preds = {'gother': (other, False)}
    if two:
        mon.preds.update({'slow': (slow, True), 'shigh': (shigh, True)})

    def pre(eng, st):
        mon.origin = lin(mon.args[-2])
        mon.aim = mon.args[2] if two else None
    F, eng, ex = runs(rep, mod, mon, 'setup', 5 if two else 4, pre)
    s0, end = lin(mon.args[-2]), mon.args[-1]
    some = 0
    for e in ex:
        s, w = e.st, where(F, e.inst)
        cur, en = lin(mon.get(eng, s, 'current')), lin(mon.get(eng, s, 'end'))
        groups = {k for (wh, k) in mon.cells(s) if wh == 'RA'}
        hit = [dict(k) for k in groups if mon.cmp(eng, s, 'eq', 'RA', dict(k), mon.args[1])]
        passed = None
        for (g, k), v in s.mem.items():
            if g is GH and isinstance(k, int) and k >= ANCH and not k % 2:
                L = lin(v)
                if mon.cmp(eng, s, 'gt', 'RA', L, mon.args[1]) or mon.inside(eng, s, L, end, 1) is False:
                    r = mon.justify(eng, s, L, 'gother', s0)
                    passed = r if passed is None or r else passed
        if cur == en or mon.inside(eng, s, cur, mon.get(eng, s, 'end'), 1) is False:
            if hit and two:
                G, n = hit[0], mon.seconds(s, hit[0])
                lo = [lin(v) for (g, k), v in s.mem.items() if g is GH and isinstance(k, int) and k >= ANCH and not k % 2 and mon.justify(eng, s, lin(v), 'slow', ladd(G, {1: HDR}))]
                lo += [ladd(G, {1: HDR})]
                hi = [lin(v) for (g, k), v in s.mem.items() if g is GH and isinstance(k, int) and k >= ANCH and not k % 2 and n and mon.justify(eng, s, lin(v), 'shigh', mon.after(s, G, n))]
                if n:
                    hi += [mon.after(s, G, n)]
                met = any(l == h or ptrcmp(eng, s, 'uge', l, h) for l in lo for h in hi)
                rep.decide(met, 'range', name + ':search', w, 'the range is empty although the second value may be in the group')
                rep.decide(mon.justify(eng, s, G, 'gother', s0) is True, 'range', name + ':before', w, 'an earlier group may have the first value')
            else:
                verdict(rep, passed if not hit else False, 'range', name + ':none', w, 'the range is empty although a group may satisfy the constraint')
            continue
        some += 1
        if not hit:
            rep.fail('range', name + ':match', w, 'the range may contain pairs with another first value')
            continue
        G, n = hit[0], mon.seconds(s, hit[0])
        rep.decide(mon.justify(eng, s, G, 'gother', s0) is True, 'range', name + ':before', w, 'an earlier group may have the first value')
        if not two:
            rep.decide(cur == G and lin(mon.get(eng, s, 'start')) == G, 'range', name + ':first', w, 'the range does not begin with the group')
            rep.decide(n is not None and en == mon.after(s, G, n), 'range', name + ':last', w, 'the range does not end with the group')
            blank(rep, mon, eng, s, w, name)
            rep.decide(lin(mon.get(eng, s, 'count')) == {}, 'range', name + ':count', w, 'the pairs left of an earlier use are kept')
            continue
        rep.decide(bool(mon.cmp(eng, s, 'eq', 'RB', cur, mon.args[2])), 'range', name + ':pair', w, 'the range may contain a pair with another second value')
        rep.decide(en == ladd(cur, {1: S2}) and lin(mon.get(eng, s, 'count')) == {1: 1}, 'range', name + ':one', w, 'the range does not consist of the one pair')
        v1 = mon.get(eng, s, 'currentValue1')
        rep.decide(v1 is mon.args[1] or mon.is_read(v1, 'RA', G), 'range', name + ':value', w, 'the first value is not that of the pair')
    rep.decide(some > 0, 'range', name + ':some', where(F), 'no path delivers a pair')
    middle(rep, mon, F, name)


def middle(rep, mon, F, name):
    for x, good in mon.middles:
        rep.decide(good, 'range', name + ':middle', where(F, x), 'the search may read the value after the group')


def ptrcmp(eng, s, l, a, b):
    return any(p == l and lin(x) == a and lin(y) == b for p, x, y in s.rel)


def clu_more(rep, mod):
    mon = CluMon(mod, rep)
    F, eng, ex = runs(rep, mod, mon, 'hasNext', 1)
    for e in ex:
        w = where(F, e.inst)
        rep.decide(not same(mon, eng, e.st, mon.FIELDS), 'pure', 'cluster hasNext', w, 'asking whether pairs are left changes the iterator')
        for t, s in bools(eng, e):
            rep.decide(mon.inside(eng, s, lin(mon.e_current), mon.e_end, 1) is t, 'next', 'cluster hasNext', w, 'the answer whether pairs are left is wrong')


def clu_mode(rep, mod):
    mon = CluMon(mod, rep)
    F, eng, ex = runs(rep, mod, mon, 'ignoreSecondColumn', 1)
    for e in ex:
        s, w = e.st, where(F, e.inst)
        cur = lin(mon.get(eng, s, 'current'))
        rest = ladd(lin(mon.e_current), lin(mon.e_count), S2)
        zero0 = any_cmp(eng, s, 'eq', mon.e_count, C(0, 64)) or isnew(mon, eng, s, mon.e_currentValue1)
        rep.decide(mon.flag(eng, s) is True, 'mode', 'cluster:set', w, 'the mode is not changed')
        if any(isinstance(t, E) and t.op == 'w' for t in cur):
            rep.undecided('mode', 'cluster:rest', 'the position is advanced in a loop')
        else:
            rep.decide(cur == rest or bool(zero0) and cur == lin(mon.e_current), 'mode', 'cluster:rest', w, 'the position is not the next group')


def clu_moveto(rep, mod):
    for ign in (False, True):
        mon = CluMon(mod, rep)
        mon.middles = []
        key = 'cluster moveto:' + ('groups' if ign else 'pairs')

        def low(eng, st, L):
            return bool(mon.cmp(eng, st, 'lt', 'RA', L, mon.args[1]))

        def slow(eng, st, L):
            return bool(mon.cmp(eng, st, 'lt', 'RB', L, mon.args[2]))

        def shigh(eng, st, L):
            return bool(mon.cmp(eng, st, 'gt', 'RB', L, mon.args[2]) or mon.cmp(eng, st, 'ge', 'RB', L, mon.args[2]))
        mon.preds = {'glow': (low, False)}
        if not ign:
            mon.preds.update({'slow': (slow, True), 'shigh': (shigh, True)})

        def pre(eng, st):
            st.mem[(mon.this, mon.off['isSecondColumnIgnored'])] = C(1 if ign else 0, 8)
            if ign:
                mon.args[2] = C(0, 64)
            else:
                st.dom[mon.args[2]] = Dom(64, 0, 1 << 62)
                st.dom[mon.e_currentValue2] = Dom(64, 0, 1 << 62)
            for v in (mon.e_currentValue1, mon.args[1]):
                st.dom[v] = Dom(64, 0, 1 << 62)
            st.dom[mon.e_countgroup] = Dom(64, 1, 1 << 40)
            mon.aim = mon.args[2]
        F, eng, ex = runs(rep, mod, mon, 'moveto', 3, pre)
        c1, c2 = mon.args[1], mon.args[2]
        c0 = lin(mon.e_current)
        seen = set()
        for e in ex:
            s, w = e.st, where(F, e.inst)
            cur, cnt = lin(mon.get(eng, s, 'current')), mon.get(eng, s, 'count')
            v1, v2 = mon.e_currentValue1, mon.e_currentValue2
            reached = any_cmp(eng, s, 'ge', v1, c1) and (ign or any_cmp(eng, s, 'gt', v1, c1) or any_cmp(eng, s, 'ne', v1, c1) or any_cmp(eng, s, 'ge', v2, c2))
            below = any_cmp(eng, s, 'lt', v1, c1) or any_cmp(eng, s, 'le', v1, c1) and ign is False and any_cmp(eng, s, 'lt', v2, c2)
            d = ladd(cur, c0, -1)
            if d == {1: -S2} and not ign or ign and d == ladd({1: -HDR}, lin(mon.e_countgroup), -S2):
                seen.add('back')
                rep.decide(bool(reached), 'moveto', key + ':back', w, 'the last delivered pair is delivered again although it may lie before the target')
                if not ign:
                    rep.decide(lin(cnt) == ladd(lin(mon.e_count), {1: 1}), 'moveto', key + ':left', w, 'the number of pairs left in the group does not include the one that is delivered again')
                    rep.decide(mon.get(eng, s, 'currentValue1') is v1, 'moveto', key + ':value', w, 'the pair is delivered again with another first value')
                continue
            rep.decide(bool(below), 'moveto', key + ':forward', w, 'the last delivered pair is passed over although it may lie at or after the target')
            seen.add('forward')
            if not d and (ign or cnt is mon.e_count) and mon.inside(eng, s, cur, mon.e_end, 1) is False:
                rep.ok('moveto', key + ':end')
                continue
            if not ign and ('RA', lkey(c0)) in mon.cells(s) and not any_cmp(eng, s, 'eq', mon.e_count, C(0, 64)):
                rep.fail('moveto', key + ':leave', w, 'a pair of the group that is left is read as a group')
                continue
            nextg = ladd(c0, {}) if ign or any_cmp(eng, s, 'eq', mon.e_count, C(0, 64)) else ladd(c0, lin(mon.e_count), S2)
            # within the group of the last pair
            if any_cmp(eng, s, 'eq', v1, c1) and not ign:
                seen.add('within')
                inner(rep, mon, eng, s, w, key, cur, cnt, c0, ladd(c0, lin(mon.e_count), S2), c2)
                rep.decide(mon.get(eng, s, 'currentValue1') is v1, 'moveto', key + ':value', w, 'pairs of the group are delivered with another first value')
                continue
            hit = [dict(k) for wh, k in mon.cells(s) if wh == 'RA' and mon.cmp(eng, s, 'eq', 'RA', dict(k), c1) and mon.justify(eng, s, dict(k), 'glow', nextg)]
            if ign or lin(cnt) == {}:
                r = mon.justify(eng, s, cur, 'glow', nextg)
                verdict(rep, r, 'moveto', key + ':pass', w, 'a group is passed over that may lie at or after the target')
                at = mon.inside(eng, s, cur, mon.e_end, 1) is False or mon.cmp(eng, s, 'gt', 'RA', cur, c1) or mon.cmp(eng, s, 'ge', 'RA', cur, c1) and (ign or mon.cmp(eng, s, 'ne', 'RA', cur, c1) or zero(eng, s, c2))
                rep.decide(bool(at), 'moveto', key + ':reach', w, 'the position may stop before the target')
                continue
            if not hit:
                rep.undecided('moveto', key, 'the position is not recognised')
                continue
            seen.add('new')
            G, n = hit[0], mon.seconds(s, hit[0])
            if n is None:
                rep.undecided('moveto', key, 'the size of the group is not known')
                continue
            inner(rep, mon, eng, s, w, key, cur, cnt, ladd(G, {1: HDR}), mon.after(s, G, n), c2)
            nv = mon.get(eng, s, 'currentValue1')
            rep.decide(mon.is_read(nv, 'RA', G) or nv is c1, 'moveto', key + ':value', w, 'pairs of the group are delivered with another first value')
            rep.decide(lin(mon.get(eng, s, 'countgroup')) == n, 'moveto', key + ':size', w, 'the size of another group is kept')
        rep.decide(seen >= ({'back', 'forward'} if ign else {'back', 'forward', 'within', 'new'}), 'moveto', key + ':cases', where(F), 'not all moves are possible')
        middle(rep, mon, F, key)


def inner(rep, mon, eng, s, w, key, cur, cnt, first, last, c2):
    """a position among the seconds first..last of a group"""
    ok = mon.justify(eng, s, cur, 'slow', first)
    verdict(rep, ok, 'moveto', key + ':seconds', w, 'a pair is passed over that may lie at or after the target')
    his = [last] + [lin(v) for (g, k), v in s.mem.items() if g is GH and isinstance(k, int) and k >= ANCH and not k % 2 and mon.justify(eng, s, lin(v), 'shigh', last)]
    at = mon.cmp(eng, s, 'ge', 'RB', cur, c2) or mon.cmp(eng, s, 'eq', 'RB', cur, c2) or any(cur == h or ptrcmp(eng, s, 'uge', cur, h) for h in his)
    rep.decide(bool(at), 'moveto', key + ':stop', w, 'the position may stop before the target')
    rep.decide(quotient(cnt, ladd(last, cur, -1)), 'moveto', key + ':count', w, 'the number of pairs left in the group is wrong')


def run_cluster(rep, mod):
    for f in (clu_setup, clu_next, clu_more, clu_mode, clu_moveto):
        f(rep, mod)
    marks(rep, mod, CluMon, ('current', 'currentValue1', 'currentValue2', 'count', 'countgroup'))
    pure(rep, mod, CluMon)


# ---------------------------------------------------------------- readers
def run_readers(rep, mod):
    for cls, n in (('ByteReader', 1), ('ShortReader', 2), ('IntReader', 4), ('LongIntReader', 5), ('LongReader', 8)):
        mon = Monitor()
        F = eff.one(mod, rep, cls + '::size')
        eng = Engine(mod, mon)
        mon.this = eng.this = mk('arg', 'nobody', 64, 'nn')
        for e in eff.exits(eng, F, []):
            rep.decide(lin(e.val) == {1: n}, 'reader', cls + ':size', where(F, e.inst), 'the size of the number is not %d bytes' % n)
        F = eff.one(mod, rep, cls + '::read')
        eng = Engine(mod, mon)
        a = eff.argvec(F)
        mon.this = eng.this = mk('arg', 'nobody', 64, 'nn')
        for e in eff.exits(eng, F, a):
            got = eff.bitvec(e.val)
            if got is None:
                rep.undecided('reader', cls, 'the value is not recognised')
                continue
            want = [((a[0], n - 1 - i // 8), i % 8) for i in range(8 * n)] + [0] * (64 - 8 * n)
            rep.decide(got == want, 'reader', cls + ':value', where(F, e.inst), 'the value is not the unsigned number, highest byte first, of the %d bytes' % n)


def run(rep, tier):
    mod = module()
    rep.explain = 'Abstract interpretation of every method of the row and cluster table over opaque readers of different sizes; every loop to a fixpoint.'
    rep.rule('the range of a lookup is bounded on both sides by rows that are known to violate the constraint')
    rep.rule('a row is passed over only where the path has established that it belongs to the delivered group or lies before the target')
    rep.assumptions = ['the table is sorted and its rows are complete', 'numbers are non-negative', 'if the second column is ignored, the second target of a move is 0']
    rep.parts((run_row, run_cluster, run_readers), rep, mod)
