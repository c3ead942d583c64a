"""C07: skip hints and value domains never hide a value that may qualify."""
import ops, eff
from absint import *
from ops import where
from history import fuzzy

GH = mk('ghost', 'c07')


def addr_of(e):
    """address a value was loaded from (the load operations keep their address)"""
    return e.a[1] if e.op == 'ld' else None


def loc(p):
    return (p.a[0], p.a[1]) if p.op == 'p' else (p, 0)


# ---------------------------------------------------------------- scan hints
class HintMon(Monitor):
    """Raises of a position must be justified by a lower bound for that position, and reset the later positions."""

    def __init__(self, mod, rep, cls, hint, n):
        self.mod, self.rep, self.cls, self.n = mod, rep, cls, n
        self.ctx = hint
        self.vals = [mk('arg', 'value%d' % (i + 1), 64, 'nn') for i in range(n)]
        rec = cls
        self.off = {}
        for i in range(1, n + 1):
            for f in ('value%d', 'bound%d', 'merge%d'):
                self.off[f % i] = mod.field(rec, f % i)[0]
        self.roff = {f: mod.field('Register', f)[0] for f in ('value', 'domain')}
        self.cand = {}
        self.F = None

    def fail(self, kind, x, msg):
        self.rep.fail(kind, '%s:%s' % (self.ctx, self.what), where(self.F, x), msg)

    def protected(self, eng, st, base):
        return True

    def reg_of(self, eng, st, r):
        """('value', i) or ('merge', i) for a register pointer of the scan, None if unknown"""
        a = addr_of(r)
        if a is None:
            return None
        b, o = loc(a)
        if b is self.scan and o in [self.off['value%d' % i] for i in range(1, self.n + 1)]:
            return ('value', [i for i in range(1, self.n + 1) if self.off['value%d' % i] == o][0])
        # an element of a merge list: addressed from the start of the list or bounded by its end
        root = b.a[0] if b.op == 'pv' else b
        names = set()
        for i in range(1, self.n + 1):
            beg = eng.load(st, P(self.scan, self.off['merge%d' % i]), 64)
            end = eng.load(st, P(self.scan, self.off['merge%d' % i] + 8), 64)
            if root is beg or root.op == 'p' and root.a[0] is beg or beg.op == 'p' and root is beg.a[0]:
                names.add(i)
            for q in (root, a):
                if ('ne', q, end) in st.rel or ('ne', end, q) in st.rel or ('ult', q, end) in st.rel:
                    names.add(i)
        return ('merge', names.pop()) if len(names) == 1 else None

    def source(self, eng, st, v):
        """(kind, position, extra) of a candidate lower bound"""
        if v in self.cand:
            return ('domain',) + self.cand[v]
        a = addr_of(v)
        if a is None:
            return None
        b, o = loc(a)
        if o != self.roff['value']:
            return None
        r = self.reg_of(eng, st, b)
        return r

    def flags(self, st, i):
        v = st.mem.get((GH, i))
        return v.a[0] if v is not None else 0

    def setflag(self, st, i, v):
        st.mem[(GH, i)] = C(v, 64)

    # flags of a later position: 0 as is, 1 must be reset, 2 reset ahead of the raise of an earlier position, 3 reset
    def on_store(self, eng, st, inst, ptr, v, size):
        b, o = loc(ptr)
        if b not in self.vals or o:
            return
        i = self.vals.index(b) + 1
        self.what = 'value%d' % i
        cur = eng.load(st, ptr, 64)
        if v is cur and not is_c(v):
            return
        if is_c(v) and v.a[0] == 0:
            if self.flags(st, i) == 1:
                self.setflag(st, i, 3)
                self.rep.ok('reset', '%s:%s' % (self.ctx, self.what))
            elif self.flags(st, i) != 3:
                self.setflag(st, i, 2)
            return
        src = self.source(eng, st, v)
        if src is None:
            if is_c(v):
                self.fail('bound', inst, 'the position is moved to the constant %s' % show(v))
            else:
                self.rep.undecided('bound', '%s:%s' % (self.ctx, self.what), 'origin of %s is not known' % show(v))
        else:
            kind, pos = src[0], src[1]
            if pos != i:
                self.fail('bound', inst, 'the position is moved to a bound of position %d (%s)' % (pos, kind))
            elif kind == 'value':
                bd = eng.load(st, P(self.scan, self.off['bound%d' % i]), 8)
                self.judge(eng, st, inst, 'bound', self.truth(eng, st, bd), 'the position is moved to the value of its own register although the register is not known to be bound')
            elif kind == 'domain':
                self.judge(eng, st, inst, 'bound', src[2] is cur or eng.decide_cmp(st, 'ule', src[2], cur), 'the candidate was computed for another value than the current one')
            else:
                self.rep.ok('bound', '%s:%s:merge' % (self.ctx, self.what))
            if kind != 'domain':
                self.judge(eng, st, inst, 'null', eng.decide_cmp(st, 'ne', v, C(-1, 64)), 'the position is moved to the value of a register that may be null')
            self.judge(eng, st, inst, 'forward', eng.decide_cmp(st, 'ugt', v, cur) , 'the position is moved although the bound is not known to be larger')
        for j in range(i + 1, self.n + 1):
            self.setflag(st, j, 3 if self.flags(st, j) == 2 else 1)
        if self.flags(st, i) == 1:
            # a larger value on top of a stale one
            self.fail('reset', inst, 'the position is raised from the value it had before an earlier position was moved')
        self.setflag(st, i, 0 if self.flags(st, i) != 2 else 2)

    def truth(self, eng, st, bd):
        if eng.decide_cmp(st, 'ne', bd, C(0, 8)):
            return True
        t = eng.binop(st, 'and', bd, C(1, 8), 8)
        return eng.decide_cmp(st, 'ne', t, C(0, 8)) or eng.decide(st, eng.ext('trunc', bd, 8, 1)) is True

    def judge(self, eng, st, inst, kind, ok, msg):
        if ok:
            self.rep.ok(kind, '%s:%s' % (self.ctx, self.what))
        else:
            self.fail(kind, inst, msg)

    def settle(self, eng, st, inst, at):
        for j in range(1, self.n + 1):
            self.what = 'value%d' % j
            f = self.flags(st, j)
            if f == 1:
                self.fail('reset', inst, 'an earlier position was moved, but this position keeps its old value %s' % at)
            elif f == 2:
                self.fail('reset', inst, 'the position is set back to 0 although no earlier position was moved %s' % at)
            self.setflag(st, j, 0)

    def at_loop(self, eng, st, F):
        self.settle(eng, st, None, 'at a loop')

    def on_call(self, eng, st, x, fn, args):
        if shortname(fn).rsplit('::', 1)[-1] == 'nextCandidate' and len(args) == 2:
            v = mk('fresh', eng.site(st, x), 'candidate', 64)
            d = args[0]
            a = addr_of(d)
            pos = None
            if a is not None and loc(a)[1] == self.roff['domain']:
                r = self.reg_of(eng, st, loc(a)[0])
                if r:
                    pos = r[1]
            self.what = 'domain'
            if pos is not None:
                self.cand[v] = (pos, args[1])
                self.judge(eng, st, x, 'domain', eng.decide_cmp(st, 'ne', d, C(0, 64)), 'the domain of the register may be missing')
            return [(st, v)]
        return None


def run_hints(rep, mod):
    for cls, hint, n in (('IndexScan', 'IndexScanHint', 3), ('AggregatedIndexScan', 'AggregatedHint', 2), ('FullyAggregatedIndexScan', 'FullyAggregatedHint', 1)):
        F = eff.one(mod, rep, '%s::%s::next' % (cls, hint))
        mon = HintMon(mod, rep, cls, cls + '::' + hint, n)
        mon.F = F
        eng = Engine(mod, mon)
        this = mk('arg', 'this', 64, 'nn')
        eng.this = this
        mon.scan = mk('arg', 'scan', 64, 'nn')
        st = new_state(())
        st.mem[(this, mod.field(cls + '::' + hint, 'scan')[0])] = P(mon.scan)
        rep.need(len(F.args) == n + 1, 'parameters of ' + F.dem)
        for e in eng.run(F, [this] + mon.vals, st):
            if e.kind == 'ret':
                mon.settle(eng, e.st, e.inst, 'when the hint returns')
                rep.ok('return', mon.ctx)


# ---------------------------------------------------------------- registration of merge partners
class MergeMon(Monitor):
    fork = True

    def __init__(self, mod, rep, cls, n):
        self.mod, self.rep, self.cls, self.n = mod, rep, cls, n
        self.voff = [mod.field(cls, 'value%d' % i)[0] for i in range(1, n + 1)]
        self.moff = [mod.field(cls, 'merge%d' % i)[0] for i in range(1, n + 1)]
        self.regs = [mk('arg', 'reg1', 64, 'nn'), mk('arg', 'reg2', 64, 'nn')]
        self.pushed = 0

    def protected(self, eng, st, base):
        return True

    def on_branch(self, eng, st, inst, cond, taken):
        if cond.op == 'not':
            cond, taken = cond.a[0], not taken
        if cond.op == 'icmp' and cond.a[0] in ('eq', 'ne') and (cond.a[0] == 'eq') == bool(taken):
            for x, y in ((cond.a[1], cond.a[2]), (cond.a[2], cond.a[1])):
                if x in self.regs:
                    r = self.member(eng, st, y)
                    if r is not None:
                        st.mon = tuple(sorted(set(st.mon) | {(self.regs.index(x), r)}))

    def member(self, eng, st, y):
        """index of the list (or of the register) a value was loaded from"""
        a = addr_of(y)
        if a is None:
            return None
        b, o = loc(a)
        if b is self.this and o in self.voff:
            return self.voff.index(o)
        root = b.a[0] if b.op == 'pv' else b
        for i, m in enumerate(self.moff):
            beg, end = eng.load(st, P(self.this, m), 64), eng.load(st, P(self.this, m + 8), 64)
            if root is beg or any(('ne', q, end) in st.rel or ('ne', end, q) in st.rel or ('ult', q, end) in st.rel for q in (root, a)):
                return i
        return None

    def on_call(self, eng, st, x, fn, args):
        last = shortname(fn).rsplit('::', 1)[-1]
        if last in ('push_back', 'emplace_back') and len(args) == 2:
            b, o = loc(args[0])
            if b is self.this and o in self.moff:
                i = self.moff.index(o)
                v = eng.load(st, args[1], 64)
                key = '%s:merge%d' % (self.cls, i + 1)
                if v not in self.regs:
                    self.rep.undecided('partner', key, 'a register of unknown origin is added: ' + show(v))
                else:
                    p = 1 - self.regs.index(v)
                    ok = (p, i) in st.mon or eng.decide_cmp(st, 'eq', self.regs[p], eng.load(st, P(self.this, self.voff[i]), 64))
                    self.pushed += 1
                    if not ok and any(k.op == 'w' for k in list(st.dom) + [x for r in st.rel for x in r[1:] if isinstance(x, E)] if width(k) in (1, 8)):
                        self.rep.undecided('partner', key, 'the condition is kept in a variable that a loop changes')
                    else:
                        self.rep.decide(ok, 'partner', key, where(self.F, x), 'a register is added to the bounds of position %d although its partner is not known to be equal to the value of that position' % (i + 1))
                return [(st, None)]
        return None


def run_merge(rep, mod):
    for cls, n in (('IndexScan', 3), ('AggregatedIndexScan', 2), ('FullyAggregatedIndexScan', 1)):
        F = eff.one(mod, rep, cls + '::addMergeHint')
        mon = MergeMon(mod, rep, cls, n)
        mon.F = F
        eng = Engine(mod, mon)
        mon.this = eng.this = mk('arg', 'this', 64, 'nn')
        for e in eng.run(F, [mon.this] + mon.regs, new_state(())):
            pass
        if not mon.pushed:
            rep.undecided('partner', cls, 'no registration recognised')


# ---------------------------------------------------------------- domains
class StoreLog(Monitor):
    """records the stores of every path in the state"""
    def __init__(self, base):
        self.base = base
        self.copies = []
        self.stores = []

    def protected(self, eng, st, base):
        return True

    def loop_key(self, eng, st, F):
        # the bounds are told apart, however the paths to the loop over the filter came about
        return tuple(st.mem.get((b, k)) for b in self.base for k in (0, 8))

    def on_store(self, eng, st, inst, ptr, v, size):
        b = ptr.a[0] if ptr.op in ('p', 'pv') else ptr
        if b in self.base:
            self.stores.append((st.copy(), inst, ptr, v))

    def on_call(self, eng, st, x, fn, args):
        s = shortname(fn)
        if 'Mutex::' in s or s == 'getLock':
            return [(st, mk('fresh', eng.site(st, x), 'lock', 64))]
        if s.startswith(('llvm.memset', 'llvm.memcpy', 'memset', 'memcpy', 'memmove', 'llvm.memmove')):
            self.copies.append((s, x, args))
        return None


def setup(rep, mod):
    rec = 'DomainDescription'
    o = {f: mod.field(rec, f)[0] for f in ('min', 'max', 'filter')}
    size = mod.records[rec]['size']
    return o, size


def slot_expr(ptr, base, o):
    """(index expression, element size) of an access to the filter of base, None if it is none"""
    if ptr.op == 'p' and ptr.a[0].op == 'pv':
        ptr = ptr.a[0] if ptr.a[1] == 0 else ptr
    if ptr.op == 'pv' and ptr.a[0] is base and ptr.a[1] == o['filter'] and len(ptr.a[2]) == 1:
        return ptr.a[2][0]
    if ptr.op == 'p' and ptr.a[0] is base and ptr.a[1] >= o['filter'] and (ptr.a[1] - o['filter']) % 8 == 0:
        return (C((ptr.a[1] - o['filter']) // 8, 64), 8)
    return None


def filter_load(v, base, o):
    a = addr_of(v)
    return slot_expr(a, base, o) if a is not None else None


def bit_of(e):
    """(slices) of a one-bit mask 1 << k"""
    if e.op == 'bin' and e.a[0] == 'shl' and is_c(e.a[1]) and e.a[1].a[0] == 1:
        return eff.bits(e.a[2])
    return None


def masks(e):
    """the terms of a conjunction / disjunction of bit vectors"""
    if e.op != 'bin':
        return []
    return [y for x in (e.a[1], e.a[2]) for y in (masks(x) if x.op == 'bin' and x.a[0] == e.a[0] else [x])]


def run_qualify(rep, mod):
    o, size = setup(rep, mod)
    # the test
    F = eff.one(mod, rep, 'DomainDescription::couldQualify')
    this, val = mk('arg', 'this', 64, 'nn'), mk('arg', 'value', 64)
    mon = StoreLog(())
    eng = Engine(mod, mon)
    eng.this = this
    geo = set()
    lo, hi = None, None
    for e in eff.exits(eng, F, [this, val]):
        s = e.st
        mn, mx = eng.load(s, P(this, o['min']), 64), eng.load(s, P(this, o['max']), 64)
        r = e.val
        if eng.decide_cmp(s, 'ult', val, mn) or eng.decide_cmp(s, 'ugt', val, mx):
            rep.ok('test', 'couldQualify:range')
            continue
        if is_c(r) and r.a[0] & 1:
            rep.ok('test', 'couldQualify:true')
            # the bit must have been seen to be set, or nothing is excluded: sound either way
            continue
        g = test_expr(eng, s, r, this, o)
        if is_c(r):
            g = None
            for p, a, b in [x for x in s.rel if len(x) == 3 and x[0] == 'eq'] + [('eq', k, C(0, 64)) for k, d in s.dom.items() if d.single() == 0]:
                if is_c(b) and b.a[0] == 0:
                    g = g or test_expr(eng, s, mk('icmp', 'ne', a, b), this, o)
            if g is None:
                rep.fail('test', 'couldQualify', where(F, e.inst), 'a value inside the bounds is excluded although its bit is not known to be clear')
                continue
        if g is None:
            rep.undecided('test', 'couldQualify', 'the result %s is not recognised' % show(r)[:200])
        else:
            geo.add(g)
            rep.ok('test', 'couldQualify:bit')
    # the recording
    F = eff.one(mod, rep, 'ObservedDomainDescription::add')
    mon = StoreLog((this,))
    eng = Engine(mod, mon)
    eng.this = this
    for e in eff.exits(eng, F, [this, val]):
        s = e.st
        mn0, mx0 = eng.default(s, this, o['min'], 64), eng.default(s, this, o['max'], 64)
        mn, mx = eng.load(s, P(this, o['min']), 64), eng.load(s, P(this, o['max']), 64)
        for n, cur, old, p in (('min', mn, mn0, 'ule'), ('max', mx, mx0, 'uge')):
            for t, what in ((val, 'the recorded value'), (old, 'an earlier value')):
                rep.decide(cur is t or eng.decide_cmp(s, p, cur, t), 'record', 'add:%s:%s' % (n, what.replace(' ', '_')), where(F, e.inst), 'after recording, the bound %s = %s may exclude %s' % (n, show(cur), what))
        hit = 0
        for (b, off), v in s.mem.items():
            if b is not this:
                continue
            sl = slot_expr(off if isinstance(off, E) else P(b, off), this, o)
            if sl is None:
                if isinstance(off, E):
                    rep.undecided('record', 'add', 'store to ' + show(off))
                continue
            if v.op == 'ld' and filter_load(v, this, o) == sl:
                continue
            t = masks(v) if v.op == 'bin' and v.a[0] == 'or' else None
            if t is None or not any(filter_load(x, this, o) == sl for x in t):
                if v.op == 'bin' and v.a[0] in ('and', 'xor', 'shl') or is_c(v):
                    rep.fail('record', 'add:filter', where(F, e.inst), 'recording a value may clear the bit of an earlier one (%s)' % show(v)[:160])
                else:
                    rep.undecided('record', 'add', 'store of ' + show(v)[:200])
                continue
            m = [x for x in t if filter_load(x, this, o) != sl]
            k = bit_of(m[0]) if m else None
            ix = eff.bits(sl[0])
            if k is None or ix is None:
                rep.undecided('record', 'add', 'position %s, bit %s not recognised' % (show(sl[0]), show(m[0]) if m else '?'))
                hit = None
                continue
            g = (ix[1:], k[1:])
            if ix[0] is not val or k[0] is not val:
                rep.fail('record', 'add:filter', where(F, e.inst), 'the bit that is set is not a function of the recorded value')
                continue
            if hit is not None:
                hit += 1
            for h in geo:
                rep.decide(g == h, 'geometry', 'add:couldQualify', where(F, e.inst), 'the bit that is set (entry = bits %s of the value, bit = bits %s) is not the bit that is tested (entry = bits %s, bit = bits %s)' % tuple('%d..%d' % (a, a + n - 1) for a, n in (g + h)))
        if hit == 0:
            rep.fail('record', 'add:filter', where(F, e.inst), 'a value is recorded without setting its bit')
        elif hit:
            rep.ok('record', 'add:filter')


def test_expr(eng, s, r, this, o):
    """geometry (slice of the entry, slice of the bit) of 'filter[x] & (1<<y) != 0'"""
    def strip(x):
        while x.op in ('zext', 'trunc', 'not') and x.op != 'not':
            x = x.a[0]
        return x
    r = strip(r)
    if r.op == 'icmp' and r.a[0] == 'ne' and is_c(r.a[2]) and r.a[2].a[0] == 0:
        r = strip(r.a[1])
    elif r.op == 'icmp':
        return None
    if r.op != 'bin':
        return None
    if r.a[0] == 'and':
        for x, y in ((r.a[1], r.a[2]), (r.a[2], r.a[1])):
            sl = filter_load(x, this, o)
            k = bit_of(y)
            if sl is None and x.op == 'bin' and x.a[0] == 'lshr' and is_c(y) and y.a[0] == 1:
                sl, k = filter_load(x.a[1], this, o), eff.bits(x.a[2])
            if sl and k:
                ix = eff.bits(sl[0])
                if ix and ix[0] is k[0]:
                    return (ix[1:], k[1:])
    return None


def run_sets(rep, mod):
    o, size = setup(rep, mod)
    rng = (o['filter'], size)
    A, B = mk('arg', 'this', 64, 'nn'), mk('arg', 'other', 64, 'nn')
    for name, both in (('PotentialDomainDescription::sync', True), ('PotentialDomainDescription::restrictTo', False)):
        F = eff.one(mod, rep, name)
        mon = StoreLog((A, B))
        eng = Engine(mod, mon)
        eng.this = A
        short = name.split('::')[1]
        for e in eff.exits(eng, F, [A, B]):
            s = e.st
            old = {(n, b): eng.default(s, b, o[n], 64) for n in ('min', 'max') for b in (A, B)}
            for b in (A, B):
                for n, p in (('min', 'ule'), ('max', 'uge')):
                    cur = eng.load(s, P(b, o[n]), 64)
                    which = 'this' if b is A else 'other'
                    if b is B and not both:
                        rep.decide(cur is old[(n, B)], 'intersect', '%s:%s:%s' % (short, which, n), where(F, e.inst), 'the observed domain is changed')
                        continue
                    # a value both admit lies inside both pairs of bounds
                    ok = any(cur is old[(n, x)] or eng.decide_cmp(s, p, cur, old[(n, x)]) for x in (A, B))
                    if not ok and fuzzy(cur):
                        rep.undecided('intersect', '%s:%s:%s' % (short, which, n), show(cur))
                        continue
                    rep.decide(ok, 'intersect', '%s:%s:%s' % (short, which, n), where(F, e.inst), 'the new bound %s = %s may exclude a value that both domains admit' % (n, show(cur)))
        seen = 0
        for s, inst, ptr, v in mon.stores:
            b = ptr.a[0]
            sl = slot_expr(ptr, b, o)
            if sl is None:
                continue
            seen += 1
            ok = None
            terms = masks(v) if v.op == 'bin' and v.a[0] in ('and', 'or') else [v]
            own = [[filter_load(t, x, o) for x in (A, B)] for t in terms]
            same = [any(q == sl for q in l) for l in own]
            if all(same):
                ok = True
            elif v.op == 'bin' and v.a[0] == 'or' and any(same):
                ok = True
            elif is_c(v) and v.a[0] == -1:
                ok = True
            elif is_c(v) or v.op == 'bin' and v.a[0] not in ('and', 'or') or all(any(q for q in l) for l in own):
                ok = False
            if ok is None:
                rep.undecided('intersect', short + ':filter', 'an entry becomes ' + show(v)[:200])
            else:
                rep.decide(ok, 'intersect', short + ':filter', where(F, inst), 'an entry of the filter becomes %s, which may exclude a value that both domains admit' % show(v)[:200])
        if not seen:
            rep.undecided('intersect', short + ':filter', 'no store to the filter recognised')
    # constructors and copies
    for name, pot in (('PotentialDomainDescription::PotentialDomainDescription', True), ('ObservedDomainDescription::ObservedDomainDescription', False)):
        F = [f for f in eff.find(mod, rep, name) if len(f.args) == 1]
        rep.need(F, 'default constructor ' + name)
        F = F[0]
        mon = StoreLog((A,))
        eng = Engine(mod, mon)
        eng.this = A
        for e in eff.exits(eng, F, [A]):
            s = e.st
            mn, mx = s.mem.get((A, o['min'])), s.mem.get((A, o['max']))
            k = name.split('::')[1]
            rep.decide(mn is not None and mx is not None, 'start', k + ':bounds', where(F, e.inst), 'the bounds are not initialised')
            if pot and mn is not None and mx is not None:
                rep.decide(is_c(mn) and mn.a[0] == 0 and is_c(mx) and mx.a[0] == -1, 'start', k + ':all', where(F, e.inst), 'the unrestricted domain has the bounds %s..%s' % (show(mn), show(mx)))
            ms = [a for n, x, a in mon.copies if 'memset' in n]
            if not ms:
                rep.undecided('start', k + ':filter', 'the initialisation of the filter is not recognised')
                continue
            cov = False
            for a in ms:
                b, off = loc(a[0])
                if b is A and is_c(a[2]) and off <= rng[0] and off + a[2].a[0] >= rng[1] and off + a[2].a[0] <= size:
                    cov = is_c(a[1]) and (a[1].a[0] & 255) in ((255,) if pot else (255, 0))
            rep.decide(cov, 'start', k + ':filter', where(F, e.inst), 'the filter is not completely set to %s' % ('all ones' if pot else 'a defined value'))
    for F in [f for f in mod.fns.values() if f.sname in ('DomainDescription::DomainDescription', 'DomainDescription::operator=') and len(f.args) == 2]:
        rep.fn(F)
        mon = StoreLog((A,))
        eng = Engine(mod, mon)
        eng.this = A
        for e in eff.exits(eng, F, [A, B]):
            s = e.st
            if A is B or eng.decide_cmp(s, 'eq', A, B):
                continue
            k = F.sname.split('::')[1]
            for n in ('min', 'max'):
                cur = s.mem.get((A, o[n]))
                rep.decide(cur is eng.default(s, B, o[n], 64), 'copy', k + ':' + n, where(F, e.inst), 'the copy has the bound %s = %s' % (n, show(cur) if cur is not None else 'undefined'))
            cs = [a for n, x, a in mon.copies if 'mem' in n and 'set' not in n]
            if not cs:
                rep.undecided('copy', k + ':filter', 'the copy of the filter is not recognised')
                continue
            ok = any(loc(a[0])[0] is A and loc(a[1])[0] is B and loc(a[0])[1] == loc(a[1])[1] <= rng[0] and is_c(a[2]) and loc(a[0])[1] + a[2].a[0] >= rng[1] for a in cs)
            rep.decide(ok, 'copy', k + ':filter', where(F, e.inst), 'the filter is not copied completely')


class Lin:
    """linear forms modulo 8192 over the bits of the looked-up value and opaque terms"""
    M = 8192

    def __init__(self, roots):
        self.roots = roots

    def add(self, d, o, k=1):
        for x, c in o.items():
            c = (d.get(x, 0) + c * k) % self.M
            if c:
                d[x] = c
            else:
                d.pop(x, None)
        return d

    def of(self, e):
        if is_c(e):
            return self.add({}, {1: e.a[0] % self.M})
        b = eff.bits(e)
        if b and b[0] in self.roots:
            d = {}
            for j in range(b[1], min(b[1] + b[2], b[1] + 13, 64)):
                self.add(d, {(b[0], j): 1 << (j - b[1])})
            return d
        if e.op in ('zext', 'trunc'):
            return self.of(e.a[0])
        if e.op == 'bin':
            op, x, y = e.a[0], e.a[1], e.a[2]
            if op in ('add', 'sub'):
                return self.add(dict(self.of(x)), self.of(y), 1 if op == 'add' else -1)
            if op == 'mul' and (is_c(y) or is_c(x)):
                c, z = (y, x) if is_c(y) else (x, y)
                return self.add({}, self.of(z), c.a[0])
            if op == 'shl' and is_c(y):
                return self.add({}, self.of(x), 1 << y.a[0])
        return {e: 1}


def zeros(st):
    return [k for k, d in st.dom.items() if d.single() == 0] + [x[1] for x in st.rel if len(x) == 3 and x[0] == 'eq' and is_c(x[2]) and x[2].a[0] == 0]


def nonzeros(st):
    return [k for k, d in st.dom.items() if not d.contains(0)] + [x[1] for x in st.rel if len(x) == 3 and x[0] == 'ne' and is_c(x[2]) and x[2].a[0] == 0]


class CandMon(Monitor):
    induct = True

    def __init__(self, mod, rep, o, this, val):
        self.mod, self.rep, self.o, self.this = mod, rep, o, this
        self.good, self.bad, self.step = {}, {}, {}
        self.lin = None
        self.bitloops = set()   # loops that try the bits of one entry, one after the other

    def protected(self, eng, st, base):
        return True

    def tested(self, e):
        """('entry', index) or ('bit', index, bit) of an expression over the filter"""
        sl = filter_load(e, self.this, self.o)
        if sl:
            return ('entry', sl[0])
        if e.op == 'bin' and e.a[0] == 'and':
            for x, y in ((e.a[1], e.a[2]), (e.a[2], e.a[1])):
                sl = filter_load(x, self.this, self.o)
                if sl:
                    if y.op == 'bin' and y.a[0] == 'shl' and is_c(y.a[1]) and y.a[1].a[0] == 1:
                        return ('bit', sl[0], y.a[2])
                    k = eff.pow2(y)
                    if k is not None:
                        return ('bit', sl[0], C(k, 64))
                    z = y
                    if z.op == 'bin' and z.a[0] == 'add' and is_c(z.a[2]) and z.a[2].a[0] == -1 and z.a[1].op == 'bin' and z.a[1].a[0] == 'shl':
                        return ('low', sl[0], z.a[1].a[2])
                    if z.op == 'bin' and z.a[0] == 'xor' and is_c(z.a[2]) and z.a[2].a[0] == -1:
                        z = z.a[1]
                        if z.op == 'bin' and z.a[0] in ('add', 'sub') and is_c(z.a[2]) and z.a[2].a[0] == (-1 if z.a[0] == 'add' else 1):
                            z = z.a[1]
                            if z.op == 'bin' and z.a[0] == 'shl' and is_c(z.a[1]) and z.a[1].a[0] == 1:
                                return ('rest', sl[0], z.a[2])
                    if y.op == 'bin' and y.a[0] == 'sub' and is_c(y.a[1]) and y.a[1].a[0] == 0:
                        z = y.a[2]
                        if z.op == 'bin' and z.a[0] == 'shl' and is_c(z.a[1]) and z.a[1].a[0] == 1:
                            return ('rest', sl[0], z.a[2])
                    if y.op == 'bin' and y.a[0] == 'shl' and is_c(y.a[1]) and y.a[1].a[0] == -1:
                        return ('rest', sl[0], y.a[2])
                x2 = x
                if x2.op == 'bin' and x2.a[0] == 'lshr' and is_c(y) and y.a[0] == 1:
                    sl = filter_load(x2.a[1], self.this, self.o)
                    if sl:
                        return ('bit', sl[0], x2.a[2])
        if e.op == 'bin' and e.a[0] == 'lshr':
            sl = filter_load(e.a[1], self.this, self.o)
            if sl:
                return ('rest', sl[0], e.a[2])
        return None

    def at_loop(self, eng, st, F):
        if not eng.at_back or F is not self.F:
            return
        h = eng.at_header
        t = mk('w', hash_uid((tuple(eng.callstack), F.name, 'h', h)), 'turn', 64)
        ok = False
        for e in zeros(st):
            k = self.tested(e)
            if not k:
                continue
            if k[0] == 'entry':
                c = self.lin.of(k[1]).get(t, 0)
                if c:
                    ok = 'entry'
                    self.step.setdefault(h, set()).add(('entry', c))
            elif k[0] == 'bit':
                c = self.lin.of(k[2]).get(t, 0)
                if c and not self.lin.of(k[1]).get(t, 0):
                    ok = 'bit'
                    self.bitloops.add((t, k[1]))
                    self.step.setdefault(h, set()).add(('bit', c))
        (self.good if ok else self.bad).setdefault(h, set()).add(ok)


def run_candidate(rep, mod):
    o, size = setup(rep, mod)
    F = eff.one(mod, rep, 'DomainDescription::nextCandidate')
    this, val = mk('arg', 'this', 64, 'nn'), mk('arg', 'value', 64)
    mon = CandMon(mod, rep, o, this, val)
    mon.F = F
    eng = Engine(mod, mon)
    eng.this = this
    st = new_state(())
    mn, mx = eng.load(st, P(this, o['min']), 64), eng.load(st, P(this, o['max']), 64)
    L = mon.lin = Lin((val, mn))
    n = (size - o['filter']) // 8
    if n * 64 != L.M:
        rep.undecided('candidate', 'nextCandidate', 'the filter has %d bits' % (n * 64))
        return
    ex = eff.exits(eng, F, [this, val], st)
    for h in sorted(set(mon.good) | set(mon.bad)):
        x = F.blocks[h][0]
        if h not in mon.good:
            rep.undecided('pass', 'nextCandidate', 'what a loop passes over is not recognised')
            continue
        rep.decide(h not in mon.bad, 'pass', 'nextCandidate:tested', where(F, F.blocks[h][-1]), 'the search may pass over an entry of the filter without having seen that it is empty')
        for k, c in mon.step.get(h, ()):
            rep.decide(c == 1, 'pass', 'nextCandidate:step:' + k, where(F, F.blocks[h][-1]), 'the search advances by %d instead of 1' % c)

    def turns(d):
        return [x for x in d if isinstance(x, E) and x.op == 'w' and x.a[1] == 'turn']

    def base(d):
        d = dict(d)
        for t in turns(d):
            del d[t]
        return d
    for e in ex:
        s, r = e.st, e.val
        w = where(F, e.inst)
        root = mn if eng.decide_cmp(s, 'ult', val, mn) else val
        if root is val and not eng.decide_cmp(s, 'uge', val, mn):
            rep.undecided('candidate', 'nextCandidate', 'the value that is looked up is not known')
            continue
        slot, ofs = {}, {}
        for j in range(13):
            (slot if j >= 6 else ofs)[(root, j)] = 1 << (j - 6 if j >= 6 else j)
        nslot = L.add(dict(slot), {1: 1})
        sets = [k for k in map(mon.tested, nonzeros(s)) if k and k[0] == 'bit']
        zs = [k for k in map(mon.tested, zeros(s)) if k]
        if is_c(r):
            if r.a[0] != -1:
                rep.fail('candidate', 'nextCandidate:const', w, 'the constant %s is returned' % show(r))
                continue
            if eng.decide_cmp(s, 'ugt', root, mx):
                rep.ok('end', 'nextCandidate:range')
                continue
            big = [x for x in s.rel if len(x) == 3 and (x[0] == 'ugt' and x[2] is mx or x[0] == 'ult' and x[1] is mx)]
            big = [x[1] if x[0] == 'ugt' else x[2] for x in big]
            if any(L.of(b) == L.add(L.add({}, L.of(k[1]), 64), L.of(k[2])) for b in big for k in sets):
                rep.ok('end', 'nextCandidate:beyond')
                continue
            # all entries were looked at
            full = [x for x in s.rel if len(x) == 3 and x[0] in ('ugt', 'uge') and base(L.of(x[1])) == {} and turns(L.of(x[1])) and
                    (L.of(x[2]) == (slot if x[0] == 'ugt' else nslot) or is_c(x[2]) and x[2].a[0] >= n - (x[0] == 'ugt'))]
            full += [k for k, d in s.dom.items() if turns(L.of(k)) and base(L.of(k)) == {} and d.lo is not None and d.lo >= n]
            if full:
                rep.ok('end', 'nextCandidate:all')
            elif not mon.good or [b for b in mon.bad if b not in mon.good]:
                rep.undecided('end', 'nextCandidate', 'the end is not recognised')
            else:
                rep.fail('end', 'nextCandidate:all', w, 'the end is reported although not all entries of the filter are known to be empty')
            continue
        hit = [k for k in sets if L.of(r) == L.add(L.add({}, L.of(k[1]), 64), L.of(k[2]))]
        if not hit:
            if sets:
                rep.fail('candidate', 'nextCandidate', w, 'the value that is returned is not the value of the bit that was found')
            else:
                rep.undecided('candidate', 'nextCandidate', 'no bit is known to be set')
            continue
        rep.ok('candidate', 'nextCandidate')
        ix, k = L.of(hit[0][1]), base(L.of(hit[0][2]))
        first = base(ix)
        if not turns(ix) and first == slot:
            if k == ofs:
                rep.ok('first', 'nextCandidate:same')
            elif not [x for x in k if x != 1]:
                rep.fail('first', 'nextCandidate:same', w, 'the search in the entry of the value does not start at its bit')
            else:
                rep.undecided('first', 'nextCandidate', 'start of the search in an entry')
            continue
        if k:
            if not [x for x in k if x != 1]:
                rep.fail('first', 'nextCandidate:bit', w, 'the search in a later entry starts at bit %d' % k.get(1, 0))
            else:
                rep.undecided('first', 'nextCandidate', 'start of the search in a later entry')
            continue
        rest = [z for z in zs if z[0] == 'rest' and L.of(z[1]) == slot and L.of(z[2]) == ofs or z[0] == 'entry' and L.of(z[1]) == slot]
        if not rest:
            if [z for z in zs if z[0] == 'bit' and L.of(z[1]) == slot]:
                known = [q for q in zeros(s) if mon.tested(q) is None]
                known += [t for t, i in mon.bitloops if L.of(i) == slot and (any(L.of(q).get(t) for q in s.dom) or any(isinstance(q, E) and L.of(q).get(t) for x in s.rel for q in x))]
                if known:
                    rep.undecided('first', 'nextCandidate:rest', 'the test of the rest of the entry is not recognised')
                else:
                    rep.fail('first', 'nextCandidate:rest', w, 'later entries are searched although the rest of the entry of the value is not known to be empty')
            else:
                rep.undecided('first', 'nextCandidate:rest', 'no test of the entry of the value')
        else:
            rep.ok('first', 'nextCandidate:rest')
        if first == nslot or first == slot and turns(ix):
            rep.ok('first', 'nextCandidate:next')
        elif first == {}:
            done = [x for x in s.rel if len(x) == 3 and x[0] in ('ugt', 'uge') and is_c(x[2]) and turns(L.of(x[1])) and base(L.of(x[1])) in (nslot, slot) and x[2].a[0] >= n - (x[0] == 'ugt')]
            done += [q for q, d in s.dom.items() if turns(L.of(q)) and base(L.of(q)) in (nslot, slot) and d.lo is not None and d.lo >= n]
            rep.decide(bool(done), 'first', 'nextCandidate:wrap', w, 'the search starts over at the first entry although the later entries are not known to be empty')
        else:
            d = L.add(dict(first), nslot, -1)
            if not [x for x in first if x != 1] or not [x for x in d if x != 1]:
                rep.fail('first', 'nextCandidate:next', w, 'the search does not continue at the entry after the one of the value')
            else:
                rep.undecided('first', 'nextCandidate', 'start of the search over the entries')


# ---------------------------------------------------------------- the domain published by a value filter
class PublishMon(Monitor):
    induct = True

    def __init__(self, mod, rep):
        self.mod, self.rep = mod, rep
        self.off = {f: mod.field('Filter', f)[0] for f in ('min', 'max', 'valid', 'exclude', 'filter', 'input')}
        self.doff = mod.field('Register', 'domain')[0]
        self.loops = {}

    def protected(self, eng, st, base):
        return True

    def turn(self, eng, F, h):
        return mk('w', hash_uid((tuple(eng.callstack), F.name, 'h', h)), 'turn', 64)

    def rel(self, eng, st, x):
        """x as (symbol or None, constant) relative to the lower bound"""
        lo = eng.load(st, P(self.this, self.off['min']), 64)
        return eng.binop(st, 'sub', x, lo, 64)

    def mark_index(self, eng, st, e):
        if e.op in ('zext', 'trunc'):
            return self.mark_index(eng, st, e.a[0])
        a = addr_of(e)
        if a is None:
            return None
        vb = eng.load(st, P(self.this, self.off['valid']), 64)
        if a.op == 'pv' and a.a[0] is vb and len(a.a[2]) == 1 and a.a[2][0][1] == 1:
            return a.a[2][0][0] if a.a[1] == 0 else eng.binop(st, 'add', a.a[2][0][0], C(a.a[1], 64), 64)
        return None

    def at_loop(self, eng, st, F):
        h = eng.at_header
        if F is not self.F:
            return
        if not eng.at_back:
            st.mem[(GH, 300)] = C(0, 64)
            return
        t = self.turn(eng, F, h)
        L = self.loops.setdefault(h, {'ok': 0, 'bad': 0})
        a = st.mem.get((GH, 300))
        if a is t:
            L['ok'] += 1
        elif any(self.mark_index(eng, st, z) is t for z in zeros(st)):
            L['ok'] += 1
        elif t in [self.mark_index(eng, st, z) for z in nonzeros(st)]:
            L['bad'] += 1
        else:
            L['odd'] = 1
        st.mem[(GH, 300)] = C(0, 64)

    def on_call(self, eng, st, x, fn, args):
        last = shortname(fn)
        if last == 'ObservedDomainDescription::add':
            st.mem[(GH, 300)] = self.rel(eng, st, args[1])
            return [(st, None)]
        if last == 'PotentialDomainDescription::restrictTo':
            reg = eng.load(st, P(self.this, self.off['filter']), 64)
            self.rep.decide(args[0] is eng.load(st, P(reg, self.doff), 64), 'publish', 'Filter:register', where(self.F, x), 'the domain of another register is restricted')
            ex = eng.load(st, P(self.this, self.off['exclude']), 8)
            no = eng.decide_cmp(st, 'eq', ex, C(0, 8)) or eng.decide(st, eng.ext('trunc', ex, 8, 1)) is False
            self.rep.decide(bool(no), 'publish', 'Filter:exclude', where(self.F, x), 'the domain is restricted to the listed values although the filter may exclude them')
            mx = eng.load(st, P(self.this, self.off['max']), 64)
            lo = eng.load(st, P(self.this, self.off['min']), 64)
            rr = [r for r in st.rel if len(r) == 3 and r[0] in ('ugt', 'uge') and r[2] is mx]
            done = [r for r in rr if r[0] == 'ugt' and (r[1] is lo or any(eng.binop(st, 'sub', r[1], lo, 64) is self.turn(eng, self.F, h) for h in self.loops))]
            if self.loops:
                part = [r for r in rr if r[0] == 'uge' and any(eng.binop(st, 'sub', r[1], lo, 64) is self.turn(eng, self.F, h) for h in self.loops)]
                if done:
                    self.rep.ok('publish', 'Filter:complete')
                elif part:
                    self.rep.fail('publish', 'Filter:complete', where(self.F, x), 'the domain is restricted although the largest listed value may not have been recorded')
                else:
                    self.rep.undecided('publish', 'Filter', 'the end of the loop over the listed values is not recognised')
            return [(st, None)]
        if shortname(fn).endswith('DomainDescription'):
            return [(st, None)]
        if x['op'] in ('call', 'invoke') and 'fn' not in x:
            return [(st, mk('fresh', eng.site(st, x), 'rows', 64))]
        if last == 'Filter::next':
            return [(st, mk('fresh', eng.site(st, x), 'rows', 64))]
        return None


def run_publish(rep, mod):
    F = eff.one(mod, rep, 'Filter::first')
    mon = PublishMon(mod, rep)
    mon.F = F
    eng = Engine(mod, mon)
    mon.this = eng.this = mk('arg', 'this', 64, 'nn')
    for e in eng.run(F, [mon.this], new_state(())):
        pass
    used = [h for h, L in mon.loops.items() if L['ok'] or L['bad']]
    if not used:
        rep.undecided('publish', 'Filter', 'the loop over the listed values is not recognised')
    for h in used:
        L = mon.loops[h]
        if L.get('odd'):
            rep.undecided('publish', 'Filter:listed', 'a value is passed under conditions that are not recognised')
        rep.decide(not L['bad'], 'publish', 'Filter:listed', where(F, F.blocks[h][-1]), 'a listed value is not recorded in the domain the filter publishes')


def run(rep, tier):
    mod = ops.rdf_module()
    rep.explain = 'Abstract interpretation of the scan hints, of the registration of merge partners and of the domain operations on every path, with symbolic values.'
    rep.rule('a scan position moves only forward, only to a bound of that position that is in force (bound register, merge partner, candidate of its domain), and the later positions restart at 0 exactly then')
    rep.rule('a domain admits every recorded value afterwards (bounds and bit, tested and set at the same place) and intersection keeps every value both admit')
    rep.assumptions = ['merge partners deliver ascending values']
    rep.parts((run_hints, run_merge, run_qualify, run_candidate, run_sets, run_publish), rep, mod)
