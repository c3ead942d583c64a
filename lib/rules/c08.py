"""C08: iterators over pair lists and over a list minus a list."""
import build, eff, ops
from ops import where
from seq import *


def module():
    j = build.dump(['src/trident/iterators/arrayitr.cpp', 'src/trident/iterators/rmitr.cpp'], [r'.'], stop=[r'^(.* )?std::', r'^__gnu'])
    return Module(j)


FIELDS = ('array', 'nElements', 'pos', 'v1', 'v2', 'markPos', 'hasNextChecked', 'n', 'ignSecondColumn', 'countElems', 'constraint1', 'constraint2')


class ArrMon(SeqMon):
    """ArrayItr: rows are (first, second) pairs of the list, the cursor is an index"""
    cls = 'ArrayItr'

    def __init__(self, mod, rep):
        SeqMon.__init__(self, mod, rep)
        self.off = {f: mod.field('ArrayItr', f)[0] for f in FIELDS}
        self.w = {f: mod.field('ArrayItr', f)[1] * 8 for f in FIELDS}

    def get(self, eng, st, f):
        return eng.load(st, P(self.this, self.off[f]), self.w[f])

    def flag(self, eng, st, f):
        v = self.get(eng, st, f)
        return eng.decide(st, eng.ext('trunc', v, 8, 1))

    def cur(self, eng, st):
        return self.get(eng, st, 'pos')

    def rows(self, st):
        """{(column, index form): [expressions]} of the rows that were looked at"""
        out = {}
        for e in terms(st):
            k = self.rowof(e)
            if k:
                out.setdefault((k[0], lkey(k[1])), []).append(e)
        return out

    def rowof(self, e):
        while e.op in ('sext', 'zext', 'trunc'):
            e = e.a[0]
        if e.op != 'ld':
            return None
        d = lin(e.a[1])
        bases = [t for t in d if isinstance(t, E) and t.op == 'ld' and d[t] == 1 and t.a[2] == 64 and t is self.begin_ptr]
        if len(bases) != 1:
            return None
        del d[bases[0]]
        c = d.get(1, 0)
        if any(v % 16 for t, v in d.items() if t != 1) or c % 8:
            return None
        col = (c % 16) // 8
        if c % 16:
            _ = d.pop(1)
            if c - 8:
                d[1] = c - 8
        return col, {t: v // 16 for t, v in d.items()}

    def rowcmp(self, eng, st, l, col, idx, b):
        """row idx column col  l  b, from the facts of the path"""
        R = self.rows(st)
        for e in R.get((col, lkey(idx)), ()):
            r = any_cmp(eng, st, l, e, b)
            if r is not None:
                return r
        return None

    def rowrow(self, eng, st, l, col, i, j):
        R = self.rows(st)
        for e in R.get((col, lkey(i)), ()):
            for f in R.get((col, lkey(j)), ()):
                r = any_cmp(eng, st, l, e, f)
                if r is not None:
                    return r
        return None

    def inside(self, eng, st, idx):
        """True: the index is below the number of rows, False: at or above, 'beyond': above (impossible: the cursor never
        passes a row without having looked at it)"""
        n = self.get(eng, st, 'nElements')
        ps = {p for p, a, b in st.rel if (b is n or self.issize(b)) and lin(a) == idx}
        if ps & {'sgt', 'ugt'} or ps & {'sge', 'uge'} and 'ne' in ps:
            return 'beyond'
        if ps & {'sge', 'uge', 'eq'}:
            return False
        return True if ps & {'slt', 'ult', 'ne'} else None

    def issize(self, e):
        return e.op == 'bin' and e.a[0] in ('sdiv', 'ashr', 'lshr') and e.a[1].op == 'bin' and e.a[1].a[0] == 'sub' and e.a[1].a[2] is self.begin_ptr

    def setup(self, eng, st):
        arr = eng.load(st, P(self.this, self.off['array']), 64)
        self.begin_ptr = eng.load(st, P(arr, 0), 64)
        for f in FIELDS:
            setattr(self, 'e_' + f, self.get(eng, st, f))
        self.begin(eng, st)

    def search_jump(self, eng, st, frm, to, term):
        """the position found by the binary search (its rule: rows before it are smaller than the term)"""
        for r, (start, end, key) in self.searches.items():
            if to.get(r):
                if start != frm:
                    return 'the search does not start at the current position'
                if lin(key) != lin(term):
                    return 'the search looks for another term'
                n = self.get(eng, st, 'nElements')
                if end is not n and not self.issize(strip_ext(end, 64)[0]) and lin(end) != lin(n):
                    return 'the search does not extend to the end of the list'
                q = dict(to)
                c = q.pop(r)
                d = st.dom.get(r)
                k = const(q)
                if c == 1 and k is not None and d.decide('sge', 0):
                    return True if k <= 0 else 'rows after the one that was found are passed over'
                if c == -1 and k is not None and d.decide('slt', 0):
                    return True if k <= -1 else 'rows after the one that was found are passed over'
                return None
        return None

    def on_call(self, eng, st, x, fn, args):
        last = shortname(fn)
        if last == 'ArrayItr::binarySearch':
            u = eng.site(st, x)
            neg, pos = st, st.copy()
            r = mk('fresh', u, 'found', 32)
            neg.dom[r] = Dom(32, -(1 << 31), -1)
            pos.dom[r] = Dom(32, 0, (1 << 31) - 1)
            self.searches[r] = (lin(args[1]), args[2], args[3])
            return [(neg, r), (pos, r)]
        if 'throw_out_of_range' in last:
            return None
        return None


def runs(rep, mod, name, mon, args=None, pre=None):
    F = eff.one(mod, rep, 'ArrayItr::' + name)
    eng = Engine(mod, mon, exit_cap=400)
    a = eff.argvec(F)
    mon.this = eng.this = a[0]
    mon.searches = {}
    st = new_state(())
    mon.F, mon.args = F, a
    mon.setup(eng, st)
    if pre:
        pre(eng, st)
    return F, eng, eff.exits(eng, F, a, st)


def bool_cases(eng, e):
    """the exits split by the truth of the returned value"""
    for t in (True, False):
        s = e.st.copy()
        v = eng.ext('trunc', e.val, 8, 1) if width(e.val) == 8 else e.val
        for q in eng.assume(s, v, t):
            yield t, q


# ---------------------------------------------------------------- hasNext
class HasNextMon(ArrMon):
    def passed(self, eng, st, pos):
        if self.flag(eng, st, 'ignSecondColumn') is not True:
            return False
        return True if self.rowcmp(eng, st, 'eq', 0, pos, self.e_v1) else False


def c1set(mon, eng, s, f):
    """is the constraint given?"""
    return eng.decide_cmp(s, 'ne', getattr(mon, 'e_' + f), C(-1, 64))


def stored(mon, eng, s, f):
    """truth value of a flag when the function returns: list of (truth, state)"""
    v = eng.ext('trunc', mon.get(eng, s, f), 8, 1)
    return [(t, q) for t in (True, False) for q in eng.assume(s.copy(), v, t)]


def mismatch(mon, eng, s, idx):
    """row idx is known to violate a constraint"""
    if mon.rowcmp(eng, s, 'ne', 0, idx, mon.e_constraint1) and c1set(mon, eng, s, 'constraint1'):
        return True
    return bool(mon.rowcmp(eng, s, 'ne', 1, idx, mon.e_constraint2) and c1set(mon, eng, s, 'constraint2'))


def match(mon, eng, s, idx):
    a = c1set(mon, eng, s, 'constraint1') is False
    if a:
        return True
    if not mon.rowcmp(eng, s, 'eq', 0, idx, mon.e_constraint1):
        return False
    return c1set(mon, eng, s, 'constraint2') is False or bool(mon.rowcmp(eng, s, 'eq', 1, idx, mon.e_constraint2))


def run_hasnext(rep, mod):
    mon = HasNextMon(mod, rep)
    F, eng, ex = runs(rep, mod, 'hasNext', mon)
    for e in ex:
        w = where(F, e.inst)
        mon.leg(eng, e.st, F, e.inst, 'exit')
        pos = lin(mon.cur(eng, e.st))
        for t, s in bool_cases(eng, e):
            if mon.inside(eng, s, pos) == 'beyond':
                continue
            if eng.decide(s, eng.ext('trunc', mon.e_hasNextChecked, 8, 1)):
                same = eng.decide(s, eng.ext('trunc', mon.e_n, 8, 1)) is t and not ladd(pos, lin(mon.e_pos), -1)
                rep.decide(same, 'ahead', 'hasNext:cached', w, 'an answer that was already given is not repeated')
                continue
            ign = mon.flag(eng, s, 'ignSecondColumn')
            if mon.flag(eng, s, 'hasNextChecked'):
                rep.decide(mon.flag(eng, s, 'n') is t, 'ahead', 'hasNext:stored', w, 'the remembered answer differs from the answer that is given')
            elif mon.flag(eng, s, 'hasNextChecked') is None:
                rep.undecided('ahead', 'hasNext', 'whether the answer is remembered')
            if t:
                rep.decide(mon.inside(eng, s, pos) is True, 'more', 'hasNext:inside', w, 'a further row is announced beyond the end of the list')
                rep.decide(match(mon, eng, s, pos), 'more', 'hasNext:match', w, 'a further row is announced that may violate a constraint')
                if ign:
                    rep.decide(bool(mon.rowcmp(eng, s, 'ne', 0, pos, mon.e_v1)), 'more', 'hasNext:new', w, 'the next row may have the first term that was already delivered')
            else:
                rep.decide(mon.inside(eng, s, pos) is False or mismatch(mon, eng, s, pos), 'more', 'hasNext:end', w, 'the end is announced although the next row may satisfy the constraints')
    mon.report(rep, F)


# ---------------------------------------------------------------- next
class NextMon(ArrMon):
    def passed(self, eng, st, pos):
        return True if pos == lin(self.e_pos) else False


def run_next(rep, mod):
    mon = NextMon(mod, rep)
    F, eng, ex = runs(rep, mod, 'next', mon)
    for e in ex:
        s, w = e.st, where(F, e.inst)
        mon.leg(eng, s, F, e.inst, 'exit')
        rep.decide(ladd(lin(mon.cur(eng, s)), lin(mon.e_pos), -1) == {1: 1}, 'row', 'next:one', w, 'next does not move to the row after the delivered one')
        for c, f in ((0, 'v1'), (1, 'v2')):
            k = mon.rowof(mon.get(eng, s, f))
            rep.decide(k is not None and k[0] == c and k[1] == lin(mon.e_pos), 'row', 'next:' + f, w, 'next does not deliver column %d of the announced row' % (c + 1))
        rep.decide(mon.flag(eng, s, 'hasNextChecked') is False, 'ahead', 'next:stale', w, 'the answer about the row that was delivered is kept for the following one')
        rep.decide(eng.decide_cmp(s, 'eq', mon.get(eng, s, 'countElems'), C(0, 64)), 'count', 'next:reset', w, 'the count of the previous group is kept')
    mon.report(rep, F)


# ---------------------------------------------------------------- getCount
class CountMon(ArrMon):
    def passed(self, eng, st, pos):
        return bool(self.ingroup(eng, st, 'eq', pos))

    def ingroup(self, eng, st, l, pos):
        """the first term of a row against that of the group: the row before it, the row delivered last, or its value"""
        return self.rowrow(eng, st, l, 0, pos, ladd(pos, {1: -1})) or \
            self.rowrow(eng, st, l, 0, pos, ladd(lin(self.e_pos), {1: -1})) or \
            self.rowcmp(eng, st, l, 0, pos, self.e_v1)

    def leg(self, eng, st, F, inst, what):
        """count and position move together; the first count after next() is one for no row passed"""
        g = ladd(lin(self.cur(eng, st)), lin(st.mem[(GH, CUR)]), -1)
        c0, c = st.mem[(GH, 9001)], self.get(eng, st, 'countElems')
        back = what == 'loop' and eng.at_back
        if back:
            self.steps.setdefault(self.turn(eng, F, eng.at_header), set()).add(const(g))
        first = c0 is self.e_countElems
        if first and c is c0:
            pass    # counted in a local variable, or known
        else:
            st.mem[(GH, 9001)] = c
            zero0 = first and eng.decide_cmp(st, 'eq', c0, C(0, 64))
            have = lin(c) if zero0 else ladd(lin(c), lin(c0), -1)
            want = ladd(g, {1: 1}) if zero0 else g
            ts = [t for t in have if isinstance(t, E) and t.op == 'w' and len(t.a) > 1 and t.a[1] == 'turn']
            if zero0 and len(ts) == 1 and have[ts[0]] == 1 and ts[0] not in g:
                # counted in a local variable: one per turn of a loop that passes one row per turn
                k = const(ladd(have, {ts[0]: 1}, -1))
                if self.steps.get(ts[0]) != {1} or k is None:
                    self.odd.append(('getCount:' + what, inst))
                elif k != 1:
                    self.lost.append((F, inst, 'getCount:' + what, 'the count of a group of one row is %d' % k))
            elif have != want:
                if const(have) is not None and const(want) is not None:
                    self.lost.append((F, inst, 'getCount:' + what, 'the count is %d where %d rows belong to the group' % (const(have), const(want))))
                else:
                    self.odd.append(('getCount:' + what, inst))
        ArrMon.leg(self, eng, st, F, inst, what)


def run_count(rep, mod):
    mon = CountMon(mod, rep)
    mon.steps = {}

    def pre(eng, st):
        st.mem[(GH, 9001)] = mon.e_countElems
    F, eng, ex = runs(rep, mod, 'getCount', mon, pre=pre)
    for e in ex:
        s, w = e.st, where(F, e.inst)
        mon.leg(eng, s, F, e.inst, 'exit')
        rep.decide(lin(e.val) == lin(mon.get(eng, s, 'countElems')), 'count', 'getCount:value', w, 'the value that is returned is not the count that is kept')
        if eng.decide_cmp(s, 'ne', mon.e_countElems, C(0, 64)):
            rep.decide(e.val is mon.e_countElems and mon.cur(eng, s) is mon.e_pos, 'count', 'getCount:known', w, 'a known count is not returned unchanged')
            continue
        pos = lin(mon.cur(eng, s))
        end = mon.inside(eng, s, pos) in (False, 'beyond') or mon.ingroup(eng, s, 'ne', pos)
        rep.decide(bool(end), 'count', 'getCount:all', w, 'the count may miss rows of the group')
    mon.report(rep, F)


# ---------------------------------------------------------------- moveto
class MoveMon(ArrMon):
    def passed(self, eng, st, pos):
        c1, c2 = self.args[1], self.args[2]
        if self.rowcmp(eng, st, 'lt', 0, pos, c1):
            return True
        if self.rowcmp(eng, st, 'eq', 0, pos, c1) and self.rowcmp(eng, st, 'lt', 1, pos, c2):
            return True
        return False

    def jump(self, eng, st, frm, to):
        n = const(ladd(to, frm, -1))
        if n == -1:
            turns = st.mem.get((GH, 9002), C(0, 8))
            st.mem[(GH, 9002)] = C(1, 8)
            if turns.a[0] == 0:
                return True
            if self.flag(eng, st, 'ignSecondColumn') and self.rowcmp(eng, st, 'eq', 0, to, self.e_v1):
                return True
            return 'the position moves back by more than the row that was delivered'
        return self.search_jump(eng, st, frm, to, self.args[1])


def st0(st, k):
    return st.mem.get((GH, k), C(0, 8)).a[0]


def zero(eng, st, l):
    """is the linear form known to be at most 0?"""
    if const(l) is not None:
        return const(l) <= 0
    for t, d in st.dom.items():
        if lin(t) == l and d.hi is not None and d.hi <= 0:
            return True
        if lin(t) == l and d.set is not None and max(d.set) <= 0:
            return True
    return False


def run_moveto(rep, mod):
    mon = MoveMon(mod, rep)
    F, eng, ex = runs(rep, mod, 'moveto', mon)
    c1, c2 = mon.args[1], mon.args[2]
    fw = bw = 0
    for e in ex:
        s, w = e.st, where(F, e.inst)
        mon.leg(eng, s, F, e.inst, 'exit')
        pos = lin(mon.cur(eng, s))
        back = st0(s, 9002)
        ign = eng.decide(s, eng.ext('trunc', mon.e_ignSecondColumn, 8, 1))
        v1, v2 = mon.e_v1, mon.e_v2
        reached = any_cmp(eng, s, 'ge', v1, c1) and (ign or any_cmp(eng, s, 'gt', v1, c1) or any_cmp(eng, s, 'ge', v2, c2))
        below = any_cmp(eng, s, 'lt', v1, c1) or any_cmp(eng, s, 'le', v1, c1) and ign is False and any_cmp(eng, s, 'lt', v2, c2)
        ahead, n = mon.flag(eng, s, 'hasNextChecked'), mon.flag(eng, s, 'n')
        if back:
            bw += 1
            rep.decide(bool(reached), 'moveto', 'back', w, 'the last delivered row is delivered again although it may lie before the target')
            if ign:
                rep.decide(zero(eng, s, pos) or bool(mon.rowcmp(eng, s, 'ne', 0, ladd(pos, {1: -1}), v1)), 'moveto', 'back:group', w, 'the group is delivered again without its first rows')
            rep.decide(ahead is True and n is True or ahead is False and ign is False, 'moveto', 'back:ahead', w, 'the row that is delivered again is not announced')
            continue
        fw += 1
        rep.decide(bool(below), 'moveto', 'forward', w, 'the last delivered row is passed over although it may lie at or after the target')
        end = mon.inside(eng, s, pos) in (False, 'beyond')
        at = mon.rowcmp(eng, s, 'gt', 0, pos, c1) or mon.rowcmp(eng, s, 'ge', 0, pos, c1) and (ign or mon.rowcmp(eng, s, 'ge', 1, pos, c2) or mon.rowcmp(eng, s, 'ne', 0, pos, c1))
        rep.decide(bool(end or at), 'moveto', 'reach', w, 'the position may stop at a row before the target')
        rep.decide(ahead is False or ahead is True and n is (not end), 'moveto', 'forward:ahead', w, 'an answer about the old position is kept')
    mon.report(rep, F)
    rep.decide(bw > 0, 'moveto', 'some-back', where(F), 'no path delivers the current row again')


# ---------------------------------------------------------------- init
class InitMon(ArrMon):
    def setup(self, eng, st):
        self.begin_ptr = eng.load(st, P(eng.load(st, P(self.args[1], 0), 64), 0), 64)
        self.e_constraint1, self.e_constraint2 = self.args[2], self.args[3]
        self.e_pos = C(0, 32)
        st.mem[(GH, CUR)] = C(0, 32)
        self.e_init = self.get(eng, st, 'pos')

    def leg(self, eng, st, F, inst, what):
        if self.cur(eng, st) is self.e_init:
            return
        ArrMon.leg(self, eng, st, F, inst, what)

    def passed(self, eng, st, pos):
        return mismatch(self, eng, st, pos)

    def jump(self, eng, st, frm, to):
        if not to:
            st.mem[(GH, CUR)] = C(0, 32)
            return True
        return self.search_jump(eng, st, frm, to, self.args[2])


def run_init(rep, mod):
    mon = InitMon(mod, rep)
    F, eng, ex = runs(rep, mod, 'init', mon)
    for e in ex:
        s0, w = e.st, where(F, e.inst)
        mon.leg(eng, s0, F, e.inst, 'exit')
        pos = lin(mon.cur(eng, s0))
        for f, v in (('constraint1', mon.args[2]), ('constraint2', mon.args[3]), ('array', eng.load(s0, P(mon.args[1], 0), 64))):
            rep.decide(mon.get(eng, s0, f) is v, 'init', f, w, 'the iterator does not keep its list and constraints')
        n = mon.get(eng, s0, 'nElements')
        rep.decide(mon.issize(strip_ext2(n)), 'init', 'nElements', w, 'the number of rows is not the size of the list')
        for f in ('v1', 'v2'):
            rep.decide(eng.decide_cmp(s0, 'eq', mon.get(eng, s0, f), C(-1, 64)), 'init', f, w, 'a pair of an earlier use is kept')
        rep.decide(eng.decide_cmp(s0, 'eq', mon.get(eng, s0, 'countElems'), C(0, 64)), 'init', 'countElems', w, 'a count of an earlier use is kept')
        rep.decide(mon.flag(eng, s0, 'ignSecondColumn') is False, 'init', 'ignSecondColumn', w, 'the mode of an earlier use is kept')
        found = [r for r in mon.searches if s0.dom.get(r) is not None and s0.dom[r].decide('sge', 0) is not None]
        absent = any(s0.dom[r].decide('slt', 0) and (sr, lin(key)) == ({}, lin(mon.args[2])) for r in found for sr, en, key in [mon.searches[r]])
        for a, s1 in stored(mon, eng, s0, 'hasNextChecked'):
            if not a:
                continue
            for t, s in stored(mon, eng, s1, 'n'):
                if mon.inside(eng, s, pos) == 'beyond':
                    continue
                if t:
                    # the search result is a position of the list
                    ins = mon.inside(eng, s, pos) is True or any(mon.searches[r][0] == {} and pos == {r: 1} for r in found if s.dom[r].decide('sge', 0)) or somerow(mon, s, pos)
                    rep.decide(bool(ins), 'init', 'first:inside', w, 'a first row is announced although the list may be empty')
                    rep.decide(match(mon, eng, s, pos), 'init', 'first:match', w, 'a first row is announced that may violate a constraint')
                else:
                    end = mon.inside(eng, s, pos) is False or mismatch(mon, eng, s, pos) or absent or atmost0(mon, s)
                    rep.decide(bool(end), 'init', 'first:none', w, 'the end is announced although the first row may satisfy the constraints')
    mon.report(rep, F)


def strip_ext2(e):
    while e.op in ('sext', 'zext', 'trunc'):
        e = e.a[0]
    return e


def somerow(mon, s, pos):
    """position 0 of a list that is not empty"""
    if pos:
        return False
    return any(mon.issize(strip_ext2(t)) and (d.decide('sgt', 0) or d.decide('ne', 0)) for t, d in s.dom.items())


def atmost0(mon, s):
    return any(mon.issize(strip_ext2(t)) and (d.decide('sle', 0) or d.decide('eq', 0)) for t, d in s.dom.items())


# ---------------------------------------------------------------- the binary search
class SearchMon(ArrMon):
    def __init__(self, mod, rep):
        ArrMon.__init__(self, mod, rep)
        self.kind, self.inits = {}, set()
    induct = False

    def setup(self, eng, st):
        self.begin_ptr = eng.load(st, P(self.args[0], 0), 64)

    def on_call(self, eng, st, x, fn, args):
        return None

    def at_loop(self, eng, st, F):
        h = eng.at_header
        w = where(F, F.blocks[h][-1])
        key = self.args[3]
        for n, (k, v) in enumerate(eng.at_phis):
            if not eng.at_back:
                d = lin(v)
                i = ladd(d, lin(self.args[1]), -1)
                j = ladd(d, lin(self.args[2]), -1)
                if const(i) is not None:
                    self.kind[(h, n)] = 'low'
                    self.rep.decide(const(i) <= 0, 'search', 'low:start', w, 'the search starts after the first row of the range')
                elif const(j) is not None:
                    self.kind[(h, n)] = 'high'
                    self.inits.add(const(j))
                    self.rep.decide(-1 <= const(j) <= 0, 'search', 'high:start', w, 'the search does not start at the last row of the range')
                else:
                    self.kind[(h, n)] = None
                continue
            old = st.env.get(k)
            if old is v:
                continue
            kind = self.kind.get((h, n))
            d = lin(v)
            if kind == 'low':
                self.rep.decide(bool(self.rowcmp(eng, st, 'lt', 0, ladd(d, {1: -1}), key)), 'search', 'low:move', w, 'rows are excluded from the search that may not be smaller than the term')
            elif kind == 'high':
                okk = self.rowcmp(eng, st, 'gt', 0, ladd(d, {1: 1}), key) or self.rowcmp(eng, st, 'ge', 0, d, key) or self.rowcmp(eng, st, 'gt', 0, d, key)
                self.rep.decide(bool(okk), 'search', 'high:move', w, 'rows are excluded from the search that may be the first with the term')
            else:
                self.rep.undecided('search', 'binarySearch', 'a loop variable is not recognised')


def run_search(rep, mod):
    mon = SearchMon(mod, rep)
    F = eff.one(mod, rep, 'ArrayItr::binarySearch')
    eng = Engine(mod, mon, exit_cap=400)
    a = eff.argvec(F)
    mon.this = eng.this = mk('arg', 'this', 64, 'nn')
    mon.F, mon.args = F, a
    st = new_state(())
    mon.setup(eng, st)
    ex = eff.exits(eng, F, a, st)
    key, end = a[3], a[2]
    if not mon.kind:
        rep.undecided('search', 'binarySearch', 'no loop')
        return
    for e in ex:
        s, w, r = e.st, where(F, e.inst), lin(e.val)
        if mon.rowcmp(eng, s, 'eq', 0, r, key):
            low = any(p == 'eq' and (lin(x) == r or lin(y) == r) for p, x, y in s.rel if not mon.rowof(x) and not mon.rowof(y))
            rep.decide(low or any(lin(x) == r for x in lowvals(mon, F, s)), 'search', 'first', w, 'a row with the term is returned that may not be the first one')
            continue
        lows, highs = lowvals(mon, F, s), lowvals(mon, F, s, 'high')
        if not lows or not highs:
            rep.undecided('search', 'binarySearch', 'the loop variables are not recognised')
            continue
        lo, hi = lows[0], highs[0]
        rep.decide(bool(any_cmp(eng, s, 'gt', lo, hi)) or bool(any_cmp(eng, s, 'ge', lo, hi)) and 0 in mon.inits, 'search', 'absent', w, 'the term is reported absent before all rows have been excluded')
        L = lin(lo)
        neg = ladd({1: -1}, L, -1)
        if r == neg:
            rep.ok('search', 'absent:value')
        elif r in (lin(hi), ladd(L, {1: -1})) or r == L:
            lim = any_cmp(eng, s, 'lt', lo, end)
            rep.decide(bool(lim), 'search', 'absent:value', w, 'a position beyond the range may be returned')
        else:
            rep.fail('search', 'absent:value', w, 'the position that is returned for an absent term is not where the search ended')


def lowvals(mon, F, s, kind='low'):
    out = []
    for (h, n), k in mon.kind.items():
        if k == kind:
            x = [y for y in F.blocks[h] if y['op'] == 'phi'][n]
            v = s.env.get(x['k'])
            if v is not None:
                out.append(v)
    return out


# ---------------------------------------------------------------- mark and reset, questions without effect
def run_mark(rep, mod):
    mon = ArrMon(mod, rep)
    F, eng, ex = runs(rep, mod, 'mark', mon)
    saved = {}
    for f in ('pos', 'v1', 'v2'):
        s = None
        for e in ex:
            here = {k[1] for k, v in e.st.mem.items() if k[0] is mon.this and isinstance(k[1], int) and v is getattr(mon, 'e_' + f) and k[1] != mon.off[f]}
            s = here if s is None else s & here
        saved[f] = s
        for e in ex:
            for g in ('pos', 'v1', 'v2', 'hasNextChecked', 'n', 'countElems'):
                rep.decide(mon.get(eng, e.st, g) is getattr(mon, 'e_' + g), 'mark', 'mark:' + g, where(F, e.inst), 'marking a position changes what is delivered next')
    mon = ArrMon(mod, rep)
    F, eng, ex = runs(rep, mod, 'reset', mon)
    for e in ex:
        s, w = e.st, where(F, e.inst)
        for f in ('pos', 'v1', 'v2'):
            v = mon.get(eng, s, f)
            okk = v.op == 'ld' and v.a[1].op == 'p' and v.a[1].a[0] is mon.this and v.a[1].a[1] in saved[f]
            rep.decide(okk, 'mark', 'reset:' + f, w, 'the %s of the mark is not restored' % ('position' if f == 'pos' else 'pair'))
        rep.decide(mon.flag(eng, s, 'hasNextChecked') is False, 'mark', 'reset:ahead', w, 'an answer about the position before the reset is kept')


def run_pure(rep, mod):
    for m in ('getCardinality', 'estCardinality', 'getValue1', 'getValue2'):
        if m.startswith('getValue') and not [1 for G in mod.fns.values() if G.sname == 'ArrayItr::' + m]:
            continue
        mon = ArrMon(mod, rep)
        F, eng, ex = runs(rep, mod, m, mon)
        for e in ex:
            same = all(mon.get(eng, e.st, f) is getattr(mon, 'e_' + f) for f in ('pos', 'v1', 'v2', 'hasNextChecked', 'n', 'nElements'))
            rep.decide(same, 'pure', m, where(F, e.inst), 'asking for the cardinality or value changes what is delivered next')
            if m.startswith('getValue'):
                rep.decide(e.val is getattr(mon, 'e_v' + m[-1]), 'pure', m + ':value', where(F, e.inst), 'the value is not the delivered one')


# ---------------------------------------------------------------- a list minus a list
RF = ('itr', 'rmitr', 'rmitrvalid', 'noseccol', 'v1', 'v2', 'curCount', 'nextCount', 'hnc', 'hn')
MAIN, REM = 1, 2
PEND = 9100     # a main row was fetched and not yet dropped


class RmMon(Monitor):
    subcmp = True

    def __init__(self, mod, rep):
        self.mod, self.rep = mod, rep
        self.off = {f: mod.field('RmItr', f)[0] for f in RF}
        self.wd = {f: mod.field('RmItr', f)[1] * 8 for f in RF}
        self.koff = mod.field('PairItr', 'key')[0]
        self.slots = ops.virt_slots(mod, 'PairItr')
        self.odd = []

    def protected(self, eng, st, base):
        return True

    def clobbers_world(self, eng, st, inst, fn, args):
        return False

    def get(self, eng, st, f):
        return eng.load(st, P(self.this, self.off[f]), self.wd[f])

    def flag(self, eng, st, f):
        return eng.decide(st, eng.ext('trunc', self.get(eng, st, f), 8, 1))

    def start(self, eng, st):
        self.objs = {self.get(eng, st, 'itr'): MAIN, self.get(eng, st, 'rmitr'): REM}
        for f in RF:
            setattr(self, 'e_' + f, self.get(eng, st, f))
        for o in (MAIN, REM):
            self.row(st, o, None)
        st.mem[(GH, PEND)] = C(0, 8)

    def value(self, eng, st, o, f, w=64):
        if f == 'key':
            return eng.load(st, P(self.ptr(o), self.koff), 64)
        return st.mem[(GH, o * 10 + ('v1', 'v2', 'count', 'more').index(f))]

    def row(self, st, o, u):
        """a new current row"""
        for i, f in enumerate(('v1', 'v2', 'count', 'more')):
            st.mem[(GH, o * 10 + i)] = mk('call', u, '%s:%d' % (f, o), 8 if f == 'more' else 64) if u else mk('arg', '%s:%d' % (f, o), 8 if f == 'more' else 64)

    def ptr(self, o):
        return [p for p, q in self.objs.items() if q == o][0]

    def rel(self, eng, st, l):
        """removed row  l  main row, lexicographically (l: lt, eq, gt)"""
        cols = ['key', 'v1'] + ([] if self.flag(eng, st, 'noseccol') else ['v2'])
        for i, f in enumerate(cols):
            a, b = self.value(eng, st, REM, f), self.value(eng, st, MAIN, f)
            if l != 'eq' and any_cmp(eng, st, l, a, b):
                return True
            if not any_cmp(eng, st, 'eq', a, b):
                return False
        return l == 'eq'

    def counts(self, eng, st):
        """main count minus removed count: 'pos', 'neg' (at most 0) or None"""
        a, b = self.value(eng, st, MAIN, 'count'), self.value(eng, st, REM, 'count')
        if any_cmp(eng, st, 'gt', a, b):
            return 'pos'
        return 'neg' if any_cmp(eng, st, 'le', a, b) else None

    def removed(self, eng, st):
        if self.flag(eng, st, 'rmitrvalid') is not True or not self.rel(eng, st, 'eq'):
            return False
        return self.flag(eng, st, 'noseccol') is False or self.flag(eng, st, 'noseccol') is True and self.counts(eng, st) == 'neg'

    def on_call(self, eng, st, x, fn, args):
        if not fn.startswith('<virtual:') or not args:
            return None
        o = self.objs.get(args[0])
        m = self.slots.get(int(fn[9:-1]))
        if o is None or m is None:
            return None
        w = where(self.F, x)
        if m in ('getValue1', 'getValue2', 'getCount'):
            return [(st, self.value(eng, st, o, {'getValue1': 'v1', 'getValue2': 'v2', 'getCount': 'count'}[m]))]
        if m == 'hasNext':
            v = self.value(eng, st, o, 'more')
            st.dom[v] = Dom(8, st=frozenset([0, 1])) if v not in st.dom else st.dom[v]
            return [(st, eng.ext('trunc', v, 8, 1))]
        if m == 'next':
            self.on_next(eng, st, o, w)
            self.renew(eng, st, x, o)
            self.log(st, o, 'next', ())
            return [(st, None)]
        if m in ('moveto', 'reset', 'mark', 'ignoreSecondColumn'):
            if m in ('moveto', 'reset'):
                self.renew(eng, st, x, o)
            self.log(st, o, m, tuple(args[1:]))
            return [(st, None)]
        if m in ('getCardinality', 'estCardinality'):
            return [(st, mk('pure', m, (args[0],), 64))]
        return None

    def more(self, eng, st, o):
        return eng.decide(st, eng.ext('trunc', self.value(eng, st, o, 'more'), 8, 1))

    def renew(self, eng, st, x, o):
        u = eng.site(st, x)
        self.row(st, o, u)
        eng.clobber(st, u, self.ptr(o))

    def log(self, st, o, m, args):
        st.mon = st.mon + ((o, m, args),) if len(st.mon) < 12 and not self.nolog else st.mon

    nolog = False

    def on_next(self, eng, st, o, w):
        pass


class RmNextMon(RmMon):
    nolog = True

    def on_next(self, eng, st, o, w):
        rep = self.rep
        rep.decide(self.more(eng, st, o) is True, 'minus', 'next:more:%d' % o, w, 'a row is fetched from a side that may have none')
        p = st.mem[(GH, PEND)]
        if o == MAIN:
            if p.op != 'c':
                rep.undecided('minus', 'hasNext', 'rows fetched')
            elif p.a[0]:
                rep.decide(self.removed(eng, st), 'minus', 'drop', w, 'a pair is dropped that may not be one of the removed pairs')
            st.mem[(GH, PEND)] = C(1, 8)
        else:
            rep.decide(self.rel(eng, st, 'lt'), 'minus', 'advance', w, 'a removed pair is passed over that may still match a later pair')

    def on_store(self, eng, st, inst, ptr, val, size):
        if ptr.op == 'p' and ptr.a[0] is self.this and ptr.a[1] == self.off['rmitrvalid']:
            old = self.flag(eng, st, 'rmitrvalid')
            if old is False:
                return
            if is_c(val) and not val.a[0]:
                self.rep.decide(self.rel(eng, st, 'lt') and self.more(eng, st, REM) is False, 'minus', 'exhausted', where(self.F, inst), 'the removed pairs are given up although some may be left')

    def known(self, eng, st):
        """what is known about the pending pair: kept apart where paths meet"""
        p = st.mem[(GH, PEND)]
        cols = tuple(tuple(any_cmp(eng, st, l, self.value(eng, st, REM, f), self.value(eng, st, MAIN, f)) for l in ('lt', 'eq', 'gt')) for f in ('key', 'v1', 'v2'))
        return (p.a[0] if is_c(p) else None, cols, self.counts(eng, st), self.flag(eng, st, 'rmitrvalid'), self.flag(eng, st, 'noseccol'), self.more(eng, st, MAIN), self.more(eng, st, REM))

    def loop_key(self, eng, st, F):
        return self.known(eng, st)

    def at_exit(self, eng, x, F):
        x.st.mon = ('known', self.known(eng, x.st))


def rm_run(rep, mod, name, mon, pre=None):
    F = eff.one(mod, rep, 'RmItr::' + name)
    eng = Engine(mod, mon, exit_cap=400)
    a = eff.argvec(F)
    mon.this = eng.this = a[0]
    mon.F, mon.args = F, a
    st = new_state(())
    mon.start(eng, st)
    if pre:
        pre(eng, st)
    return F, eng, eff.exits(eng, F, a, st)


def run_rm_hasnext(rep, mod):
    mon = RmNextMon(mod, rep)
    F, eng, ex = rm_run(rep, mod, 'hasNext', mon)
    for e in ex:
        w = where(F, e.inst)
        for t, s in bool_cases(eng, e):
            p = s.mem[(GH, PEND)]
            if eng.decide(s, eng.ext('trunc', mon.e_hnc, 8, 1)):
                rep.decide(eng.decide(s, eng.ext('trunc', mon.e_hn, 8, 1)) is t and is_c(p) and p.a[0] == 0, 'minus', 'cached', w, 'an answer that was already given is not repeated')
                continue
            rep.decide(mon.flag(eng, s, 'hnc') is True and mon.flag(eng, s, 'hn') is t, 'minus', 'remember', w, 'the answer is not remembered, and asking again fetches another row')
            pend = is_c(p) and p.a[0] == 1
            if t:
                valid, nosec = mon.flag(eng, s, 'rmitrvalid'), mon.flag(eng, s, 'noseccol')
                keep = valid is False or mon.rel(eng, s, 'gt')
                part = nosec and mon.rel(eng, s, 'eq') and mon.counts(eng, s) == 'pos'
                rep.decide(pend, 'minus', 'fetched', w, 'a pair is announced that was not fetched')
                rep.decide(bool(keep or part), 'minus', 'keep', w, 'a pair is announced that may be one of the removed pairs')
                c = lin(mon.get(eng, s, 'nextCount'))
                a, b = lin(mon.value(eng, s, MAIN, 'count')), lin(mon.value(eng, s, REM, 'count'))
                rep.decide(keep and c == a or part and c == ladd(a, b, -1), 'minus', 'count', w, 'the number of occurrences that remain is not the count minus the removed count')
            else:
                rep.decide(mon.more(eng, s, MAIN) is False, 'minus', 'end', w, 'the end is announced although pairs may be left')
                if not is_c(p):
                    # a row of an earlier round: it was dropped, which is checked where the next one is fetched
                    rep.undecided('minus', 'end', 'rows fetched')
                elif p.a[0]:
                    rep.ok('minus', 'end:dropped')


def run_rm_next(rep, mod):
    mon = RmMon(mod, rep)
    F, eng, ex = rm_run(rep, mod, 'next', mon)
    for e in ex:
        s, w = e.st, where(F, e.inst)
        for f in ('v1', 'v2'):
            rep.decide(mon.get(eng, s, f) is mon.value(eng, s, MAIN, f), 'minus', 'next:' + f, w, 'the pair that is delivered is not the one that was announced')
        rep.decide(eng.load(s, P(mon.this, mon.koff), 64) is mon.value(eng, s, MAIN, 'key'), 'minus', 'next:key', w, 'the key that is delivered is not that of the pair')
        rep.decide(mon.get(eng, s, 'curCount') is mon.e_nextCount, 'minus', 'next:count', w, 'the count of another pair is delivered')
        rep.decide(mon.flag(eng, s, 'hnc') is False, 'minus', 'next:stale', w, 'the answer about the delivered pair is kept for the following one')
        rep.decide(not [m for m in s.mon if m[1] == 'next'], 'minus', 'next:rows', w, 'rows are fetched when the announced pair is delivered')


def run_rm_move(rep, mod):
    mon = RmMon(mod, rep)
    F, eng, ex = rm_run(rep, mod, 'moveto', mon)
    for e in ex:
        s, w = e.st, where(F, e.inst)
        for o in (MAIN, REM):
            mv = [m[2] for m in s.mon if m[:2] == (o, 'moveto')]
            if o == REM and not mv and eng.decide(s, eng.ext('trunc', mon.e_rmitrvalid, 8, 1)) is False:
                continue
            rep.decide(mv == [(mon.args[1], mon.args[2])], 'minus', 'moveto:%d' % o, w, 'one of the two sides is not moved to the target')
        rm = [m[1] for m in s.mon if m[0] == REM]
        if rm:
            after = rm[rm.index('moveto') + 1:] if 'moveto' in rm else []
            for t, q in [(t, q) for t in (True, False) for q in eng.assume(s.copy(), eng.ext('trunc', mon.get(eng, s, 'rmitrvalid'), 8, 1), t)]:
                if t:
                    rep.decide(after == ['next'], 'minus', 'moveto:removed', w, 'the removed pair of the old position is kept')
                else:
                    was = eng.decide(q, eng.ext('trunc', mon.e_rmitrvalid, 8, 1)) is False
                    rep.decide(was or after == [] and mon.more(eng, q, REM) is False, 'minus', 'moveto:removed', w, 'the removed pairs are given up although some may be left')
        rep.decide(not [m for m in s.mon if m[:2] == (MAIN, 'next')], 'minus', 'moveto:rows', w, 'a pair is dropped by the move')
        rep.decide(mon.flag(eng, s, 'hnc') is False, 'minus', 'moveto:stale', w, 'an answer about the old position is kept')


def run_rm_state(rep, mod):
    mon = RmMon(mod, rep)

    def pre(eng, st):
        mon.objs = {mon.args[1]: MAIN, mon.args[2]: REM}
    F, eng, ex = rm_run(rep, mod, 'init', mon, pre=pre)
    for e in ex:
        s, w = e.st, where(F, e.inst)
        rep.decide(mon.get(eng, s, 'itr') is mon.args[1] and mon.get(eng, s, 'rmitr') is mon.args[2], 'minus', 'init:sides', w, 'the two sides are not kept')
        for f in ('noseccol', 'hnc'):
            rep.decide(mon.flag(eng, s, f) is False, 'minus', 'init:' + f, w, 'the state of an earlier use is kept')
        calls = [m[:2] for m in s.mon]
        for t, q in [(t, q) for t in (True, False) for q in eng.assume(s.copy(), eng.ext('trunc', mon.get(eng, s, 'rmitrvalid'), 8, 1), t)]:
            if t:
                rep.decide(calls == [(REM, 'next')], 'minus', 'init:first', w, 'the first removed pair is not fetched')
            else:
                rep.decide(calls == [] and mon.more(eng, q, REM) is False, 'minus', 'init:none', w, 'the removed pairs are given up although there may be some')
    mon = RmMon(mod, rep)
    F, eng, ex = rm_run(rep, mod, 'mark', mon)
    saved = {}
    for f in ('rmitrvalid', 'curCount', 'nextCount'):
        s = None
        for e in ex:
            here = {k[1] for k, v in e.st.mem.items() if k[0] is mon.this and isinstance(k[1], int) and strip_ext2(v) is strip_ext2(getattr(mon, 'e_' + f)) and k[1] != mon.off[f]}
            s = here if s is None else s & here
        saved[f] = s
    for e in ex:
        rep.decide({m[:2] for m in e.st.mon} == {(MAIN, 'mark'), (REM, 'mark')}, 'minus', 'mark', where(F, e.inst), 'one of the two sides is not marked')
    mon = RmMon(mod, rep)
    F, eng, ex = rm_run(rep, mod, 'reset', mon)
    for e in ex:
        s, w = e.st, where(F, e.inst)
        rep.decide({m for m in s.mon} == {(MAIN, 'reset', (mon.args[1],)), (REM, 'reset', (mon.args[1],))}, 'minus', 'reset', w, 'one of the two sides is not reset')
        rep.decide(mon.flag(eng, s, 'hnc') is False, 'minus', 'reset:stale', w, 'an answer about the position before the reset is kept')
        for f in ('rmitrvalid', 'curCount', 'nextCount'):
            v = strip_ext2(mon.get(eng, s, f))
            okk = v.op == 'ld' and v.a[1].op == 'p' and v.a[1].a[0] is mon.this and v.a[1].a[1] in saved[f]
            rep.decide(okk, 'minus', 'reset:' + f, w, 'the state of the mark is not restored')
    mon = RmMon(mod, rep)
    F, eng, ex = rm_run(rep, mod, 'ignoreSecondColumn', mon)
    for e in ex:
        s, w = e.st, where(F, e.inst)
        rep.decide({m[:2] for m in s.mon} == {(MAIN, 'ignoreSecondColumn'), (REM, 'ignoreSecondColumn')}, 'minus', 'mode', w, 'one of the two sides does not change its mode')
        rep.decide(mon.flag(eng, s, 'noseccol') is True, 'minus', 'mode:set', w, 'the mode is not changed')
    mon = RmMon(mod, rep)
    F, eng, ex = rm_run(rep, mod, 'getCount', mon)
    for e in ex:
        rep.decide(e.val is mon.e_curCount, 'minus', 'getCount', where(F, e.inst), 'the count is not that of the delivered pair')


def run(rep, tier):
    mod = module()
    rep.explain = 'Abstract interpretation of the methods of the pair iterators: every path, cursors and rows symbolic.'
    rep.rule('a row is passed over only where the path has established that it must be (repeated first term, below the target, violates a constraint)')
    rep.rule('an answer that is remembered equals what the constraints say about the row at the cursor; moving forgets it')
    rep.rule('a pair is dropped only when it equals a removed pair, and a removed pair is passed over only when it is smaller')
    rep.assumptions = ['the list is sorted', 'positions stay below 2^31, differences of keys, terms and counts do not overflow', 'the count of a group is asked before the next pair is looked for']
    rep.parts((run_hasnext, run_next, run_count, run_moveto, run_init, run_search, run_mark, run_pure, run_rm_hasnext, run_rm_next, run_rm_move, run_rm_state), rep, mod)
