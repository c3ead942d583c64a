"""Index scans: column/variable correspondence, constants, multiplicity, order.

For every order x bound combination the factory is interpreted; the object it builds is then
interpreted through its vtable (first, next, next...), with an abstract database scan whose
entries are symbolic.  Facts on the symbolic entry at every exit decide the obligations."""
from ops import *

CLASSES = [('IndexScan', 3), ('AggregatedIndexScan', 2), ('FullyAggregatedIndexScan', 1)]
AGGR = {3: 'AGGR_NO', 2: 'AGGR_SKIP_LAST', 1: 'AGGR_SKIP_2LAST'}


def comps(ename):
    if ename.startswith('Order_No_Order_'):
        return ename[len('Order_No_Order_'):]
    m = {'Subject': 'S', 'Predicate': 'P', 'Object': 'O'}
    parts = ename.split('_')[1:]
    return ''.join(m[p] for p in parts)


class Mon(Monitor):
    def __init__(self, mod, rep, slots):
        self.mod = mod
        self.rep = rep
        self.slots = slots        # slot -> name on DBLayer::Scan
        self.scan = None
        self.ctx = ''
        self.K = {}               # column -> constant symbol
        self.F = None

    # mon = (pos, delivered): pos E or 'end'/'none'
    def on_call(self, eng, st, x, fn, args):
        if fn.startswith('<virtual:') and args and self.isscan(args[0]):
            slot = int(fn[9:-1])
            name = self.slots.get(slot)
            pos, dlv, seek = st.mon
            if name in ('next', 'first'):
                self.skip_rule(eng, st, x, pos, dlv)
                newseek = seek
                if name == 'first':
                    newseek = self.seek_rule(eng, st, x, args[1:])
                elif pos in ('none', 'end'):
                    self.fail('advance-after-end', x, 'the scan is advanced although it is not positioned on an entry (%s)' % pos)
                uid = eng.site(st, x)
                p = mk('fresh', uid, 'pos', 8)
                a = st.copy()
                a.mon = ('end', True, newseek)
                st.mon = (p, False, newseek)
                return [(a, C(0, 1)), (st, C(1, 1))]
            if name and name.startswith('get'):
                if pos in ('none', 'end'):
                    self.fail('column-read-off-entry', x, 'a column is read although the scan is not positioned on an entry')
                    return [(st, mk('call', eng.site(st, x), name, 64))]
                return [(st, mk('pure', name, pos, 64))]
        if 'getScan' in fn or fn.startswith('<virtual:'):
            if self.db in args[:2]:
                i = args.index(self.db)
                self.getscan.append((x, args[i:], st.copy()))
                if i:
                    eng.store(st, args[0], self.scan)
                    return [(st, None)]
                return [(st, self.scan)]
        return None

    def isscan(self, a):
        return a is self.scan or (a.op == 'p' and a.a[1] == 0 and a.a[0] is self.scan)

    def fail(self, kind, x, msg):
        self.rep.fail(kind, self.ctx, where(self.F, x), msg)

    def clobbers_world(self, eng, st, inst, fn, args):
        return False

    def col(self, pos, k):
        return mk('pure', 'getValue%d' % k, pos, 64)

    def mismatch(self, eng, st, pos):
        """facts show that the entry differs from the constants in some bound column"""
        for k, c in self.K.items():
            v = self.col(pos, k)
            for p in ('ne', 'ugt', 'ult'):
                if eng.decide_cmp(st, p, v, c):
                    return True
        return False

    def beyond(self, eng, st, pos, seek):
        """facts show that the entry lies behind every entry with the bound prefix (lexicographically greater)"""
        for k in range(1, self.n + 1):
            c = self.K.get(k)
            if c is None:
                return False
            v = self.col(pos, k)
            if eng.decide_cmp(st, 'ugt', v, c):
                return True
            if eng.decide_cmp(st, 'ne', v, c) and seek >= k:
                return True
            if eng.decide_cmp(st, 'eq', v, c):
                continue
            if seek >= k and eng.decide_cmp(st, 'ule', v, c):
                continue
            # unknown relation on this column: the remaining columns decide nothing
            return False
        return False

    def on_branch(self, eng, st, inst, cond, taken):
        pos, dlv, seek = st.mon
        if pos not in ('none', 'end') and dlv is False and self.mismatch(eng, st, pos):
            st.mon = (pos, 'mismatch', seek)

    def skip_rule(self, eng, st, x, pos, dlv):
        if pos in ('none', 'end') or dlv is True:
            return
        self.rep.decide(dlv == 'mismatch' or self.mismatch(eng, st, pos), 'no-skip', self.ctx, where(self.F, x),
                        'the scan is advanced past an entry that is not known to differ from the constants: a matching row is dropped')

    def seek_rule(self, eng, st, x, a):
        depth = 0
        okk = True
        for k in range(len(a) // 2):
            v, flag = a[2 * k], a[2 * k + 1]
            if flag.op == 'c' and flag.a[0] == 0:
                continue
            c = self.K.get(k + 1)
            good = c is not None and (v is c) and depth == k
            if not good:
                okk = False
            depth = k + 1
        self.rep.decide(okk, 'seek', self.ctx, where(self.F, x), 'the scan is positioned with a key that is not the constant of that column')
        return depth if okk else 0


def run(rep, tier='quick'):
    mod = rdf_module()
    rep.level = 'proof'
    rep.explain = 'Abstract interpretation of the scan factories and of every scan implementation they build, for every index order and every combination of constants.'
    rep.trusted = ['the database scan delivers entries in ascending order starting at the sought key (the storage layer is outside this rule)']
    rep.rule('create(order, bounds) installs the register and bound flag of component c in the column where the order (by its name) holds c, and opens the scan with that order and the matching aggregation level')
    rep.rule('an exit of first()/next() that reports a row implies: bound columns equal their constants (equality facts, or ordering facts plus the seek), free columns\' registers hold the current entry\'s column, the value returned is 1 / the entry\'s count')
    rep.rule('an exit that reports no row implies: the scan is exhausted or the entry is past the bound prefix; an entry is only skipped under a fact that it mismatches')
    scanrec = 'DBLayer::Scan'
    rep.need(scanrec in mod.records, 'DBLayer::Scan is gone')
    enum = mod.records.get('DBLayer::DataOrder', {}).get('enum')
    aggr = None
    for r, d in mod.records.items():
        if 'enum' in d and 'AGGR_NO' in d['enum']:
            aggr = d['enum']
    rep.need(enum and aggr, 'the order / aggregation enumerations are gone')
    slots = virt_slots(mod, scanrec)
    sf, sn = slot_of(mod, 'Operator', 'first'), slot_of(mod, 'Operator', 'next')
    rep.need(sf is not None and sn is not None, 'Operator::first/next are gone')
    voff = mod.field('Register', 'value')[0]
    for cls, n in CLASSES:
        creates = mod.short.get(cls + '::create', [])
        rep.need(creates, cls + '::create is gone')
        F = creates[0]
        rep.fn(F)
        for ename, ev in sorted(enum.items(), key=lambda t: t[1]):
            cs = comps(ename)[:n]
            for bits in range(1 << n):
                bound = {c: bool(bits >> i & 1) for i, c in enumerate(cs)}
                one(rep, mod, F, cls, n, ename, ev, cs, bound, aggr, slots, sf, sn, voff)


def one(rep, mod, F, cls, n, ename, ev, cs, bound, aggr, slots, sf, sn, voff):
    mon = Mon(mod, rep, slots)
    mon.n = n
    mon.db = P(mk('arg', 'db', 64, 'nn'), 0)
    scansym = P(mk('arg', 'scan', 64, 'nn'), 0)
    mon.scan = scansym
    mon.getscan = []
    ctx = '%s:%s:%s' % (cls, ename, ''.join(c if bound[c] else c.lower() for c in cs))
    mon.ctx = ctx
    mon.F = F
    R = {c: mk('arg', 'reg' + c, 64, 'nn') for c in 'SPO'}
    # components that the aggregated scans drop are passed as null
    def reg(c):
        return P(R[c], 0) if c in cs else C(0, 64)

    def flag(c):
        return C(1 if bound.get(c) else 0, 1)
    eng = Engine(mod, mon)
    st = new_state(('none', True, 0))
    vals = {'S': 'subject', 'P': 'predicate', 'O': 'object'}
    args = [mon.db, C(ev, 32), reg('S'), flag('S'), reg('P'), flag('P'), reg('O'), flag('O'), mk('arg', 'card', 64)]
    rets = [e for e in eng.run(F, args, st) if e.kind == 'ret']
    rep.decide(len(rets) >= 1, 'create-returns', ctx, where(F), 'no scan is built for this order')
    for e in rets:
        obj = e.val
        if obj is None or obj.op != 'p' or obj.a[0].op not in ('new',):
            rep.fail('create-object', ctx, where(F), 'the factory does not return a newly built scan')
            continue
        base, off = obj.a
        rec, sym = obj_class(mod, e.st, base, off)
        rep.decide(sym is not None, 'create-object', ctx, where(F), 'the object built has no known class')
        if sym is None:
            continue
        # the database scan is opened with the order and aggregation level
        good = any(any(a.op == 'c' and a.a[1] == 32 and a.a[0] == ev for a in a_[1:2]) and len(a_) > 2 and a_[2].op == 'c' and a_[2].a[0] == aggr[AGGR[n]] for _, a_, _ in mon.getscan)
        rep.decide(len(mon.getscan) == 1 and good, 'open-order', ctx, where(F), 'the database scan is not opened with the requested order and aggregation level')
        hint = mon.getscan[0][1][3] if mon.getscan and len(mon.getscan[0][1]) > 3 else None
        if hint is not None and hint.op == 'p' and hint.a[0] is base:
            hv = [v for (b, o), v in e.st.mem.items() if b is base and isinstance(o, int) and hint.a[1] <= o and v.op == 'p' and v.a[0] is base]
            rep.decide(any(v is obj or v.a[1] == off for v in hv), 'hint-bound', ctx, where(F), 'the skip hint handed to the database scan does not refer to this operator')
        K = {}
        stf = e.st.copy()
        for i, c in enumerate(cs):
            k0 = mk('arg', 'const' + c, 64)
            init = mk('arg', 'init' + c, 64)
            stf.mem[(R[c], voff)] = k0 if bound[c] else init
            if bound[c]:
                K[i + 1] = k0
        mon.K = K
        ff, fnx = vt_entry(mod, sym, sf), vt_entry(mod, sym, sn)
        if ff not in mod.fns or fnx not in mod.fns:
            rep.fail('create-object', ctx, where(F), 'the class built does not implement first/next here')
            continue
        FF, FN = mod.fns[ff], mod.fns[fnx]
        rep.fn(FF)
        rep.fn(FN)
        eng.this = base
        # first()
        stf.mon = ('none', True, 0)
        outs = invoke(rep, mod, eng, mon, FF, obj, stf, ctx + ':first', cs, bound, R, K, voff, n)
        done = set()
        rounds = 0
        while outs and rounds < 4:
            rounds += 1
            nxt = []
            for s in outs:
                key = tuple(sorted(((o, v.n) for (b, o), v in s.mem.items() if b is base and isinstance(o, int)), key=str))
                key = (s.mon[2], tuple(k for k in key if not volatile(mod, rec, k[0])))
                if key in done:
                    continue
                done.add(key)
                nxt += invoke(rep, mod, eng, mon, FN, obj, s, ctx + ':next', cs, bound, R, K, voff, n)
            outs = nxt


def volatile(mod, rec, off):
    if rec is None:
        return False
    return 'observed' in mod.fieldname(rec, off)


def invoke(rep, mod, eng, mon, G, obj, st, ctx, cs, bound, R, K, voff, n):
    mon.ctx = ctx
    mon.F = G
    out = []
    st = st.copy()
    st.env = {}
    st.stack = ()
    st.inst = {}
    # the row delivered before may have been consumed: free registers hold anything
    if st.mon[0] not in ('none',):
        st.mon = (st.mon[0], True, st.mon[2])
        for c in cs:
            if not bound[c]:
                st.mem[(R[c], voff)] = mk('arg', 'prev' + c, 64)
    try:
        exits = eng.run(G, [obj], st)
    except AnalysisLimit as ex:
        rep.undecided('scan', ctx, str(ex))
        return out
    for e in exits:
        if e.kind != 'ret':
            continue
        s = e.st
        pos, dlv, seek = s.mon
        v = e.val
        zero = eng.decide_cmp(s, 'eq', v, C(0, 64))
        if v is not None and v.op == 'pure' and v.a[0] == 'getCount':
            zero = False
        w = where(G, e.inst)
        if zero is None:
            rep.fail('return-value', ctx, w, 'the result is neither 0, 1 nor the multiplicity of the current entry: %s' % show(v))
            continue
        if zero:
            rep.decide(pos == 'end' or (pos != 'none' and dlv is not True and mon.beyond(eng, s, pos, seek)), 'end', ctx, w,
                       'end of scan is reported although the current entry is not known to lie behind the constants')
            continue
        if pos in ('end', 'none'):
            rep.fail('row', ctx, w, 'a row is reported although the scan is not positioned on an entry')
            continue
        rep.decide(dlv is not True, 'row-fresh', ctx, w, 'the same entry is reported twice')
        good = (v.op == 'pure' and v.a[0] == 'getCount' and v.a[1] is pos) or (n == 3 and v.op == 'c' and v.a[0] == 1)
        rep.decide(good, 'multiplicity', ctx, w, 'the reported multiplicity is %s, not that of the current entry' % show(v))
        for i, c in enumerate(cs):
            col = mon.col(pos, i + 1)
            cur = s.mem.get((R[c], voff))
            if bound[c]:
                rep.decide(cur is K[i + 1] or (cur is col), 'const-kept', ctx + ':' + c, w, 'the register of a constant is overwritten')
                rep.decide(matches(eng, s, mon, pos, i + 1, seek), 'const-match', ctx + ':' + c, w,
                           'a row is reported whose column %d is not known to equal its constant' % (i + 1))
            else:
                rep.decide(cur is col, 'bind', ctx + ':' + c, w, 'the variable\'s register does not hold column %d of the current entry (%s)' % (i + 1, show(cur) if cur else 'nothing'))
        out.append(s)
    return out


def matches(eng, s, mon, pos, k, seek):
    c = mon.K[k]
    v = mon.col(pos, k)
    if eng.decide_cmp(s, 'eq', v, c):
        return True
    if seek < k:
        return False
    for j in range(1, k + 1):
        vj, cj = mon.col(pos, j), mon.K.get(j)
        if cj is None:
            return False
        if eng.decide_cmp(s, 'eq', vj, cj):
            continue
        if eng.decide_cmp(s, 'ult', vj, cj) or (eng.decide_cmp(s, 'ule', vj, cj) and eng.decide_cmp(s, 'ne', vj, cj)):
            return True      # cannot happen after the seek
        if not eng.decide_cmp(s, 'ule', vj, cj):
            return False
        if j < k:
            continue
    return True
