"""Row specification of the merge join, seen from one arbitrary left row and one arbitrary right row.

The two rows carry the same join value PV; every other value is below, equal to, or above it.  A row
is abstracted to its role: the marked row (its multiplicity, join value and carried values are symbols
of their own) or another row of one of the three classes.  The comparison of two values of the same
class other than PV is left open.  The object states reachable by first, next, next, ... are finite
in this abstraction and are enumerated; all obligations are stated for the marked rows, which are
arbitrary."""
import time
from history import *
import opspecs

NT = 2
PV = C(1 << 20, 64)
MAXV = C((1 << 64) - 1, 64)
VL, VH, VJ = mk('arg', 'low', 64), mk('arg', 'high', 64), mk('arg', 'stale', 64)
OC, LC, RC = mk('arg', 'count', 64), mk('arg', 'lcount', 64), mk('arg', 'rcount', 64)
OT, JT = mk('arg', 'tail', 64), mk('arg', 'staletail', 64)
OBS = mk('arg', 'observed', 64)
CLS = {'L': VL, 'V': PV, 'H': VH}
BUFB, BUFI, BUFE = mk('arg', 'buffer', 64, 'nn'), mk('arg', 'bufpos', 64, 'nn'), mk('arg', 'bufend', 64, 'nn')
KIDS = ('left', 'right')


def star(side):
    return (LC if side == 'left' else RC,) + (PV,) + tuple(mk('arg', '%s%d' % (side, i), 64) for i in range(NT))


TOK = {}
for _s in KIDS:
    for _i, _t in enumerate(star(_s)):
        if _t is not PV:
            TOK[_t] = (_s, _i)


def regof(side, i):
    return mk('arg', 'reg:%s%d' % (side, i), 64, 'nn')


class G:
    """ghost part: per input (position of the marked row, class of the last row, has a row with the value
    been seen), has the pair been delivered, has the row been delivered without partner, buffer contents"""
    F = ('pos', 'last', 'seen', 'alone', 'pair', 'buf', 'wr', 'used')

    def __init__(self, t=None):
        self.pos, self.last, self.seen, self.alone, self.pair, self.buf, self.wr, self.used = t or (('b', 'b'), (None, None), (0, 0), (0, 0), 0, (), (), 0)

    def t(self):
        return (self.pos, self.last, self.seen, self.alone, self.pair, self.buf, self.wr, self.used)


def upd(t, i, v):
    return t[:i] + (v,) + t[i + 1:]


class MJEngine(Engine):
    def icmp(self, st, p, a, b, w):
        x, y = self.bufref(a), self.bufref(b)
        if x and y and (x == 'end') != (y == 'end') and p in ('eq', 'ne', 'ult', 'ugt'):
            it = a if y == 'end' else b
            more = (p in ('ne', 'ult', 'ugt'))
            e = mk('ndb', it)
            return e if more else mk('not', e)
        if w == 64 and a in (VL, VH, VJ, OT, JT, OC) and b in (VL, VH, VJ, OT, JT, OC) and (a is b or VJ in (a, b) or JT in (a, b)):
            if p in ('eq', 'ne', 'ult', 'ugt', 'ule', 'uge'):
                return mk('nd', p, a, b)
        return Engine.icmp(self, st, p, a, b, w)

    def subst_pre(self, s, huid, phis):
        pass

    def bufref(self, e):
        if e.op == 'p' and e.a[0] in (BUFB, BUFI):
            return 'it'
        if e.op == 'p' and e.a[0] is BUFE or e is BUFE:
            return 'end'
        return None

    def decide(self, st, e):
        if e.op in ('nd', 'ndb'):
            return None
        return Engine.decide(self, st, e)

    def assume(self, st, e, truth):
        if e.op == 'not':
            return self.assume(st, e.a[0], not truth)
        if e.op == 'nd':
            return [st]
        if e.op == 'ndb':
            return self.mon.buffer(self, st, e.a[0], truth)
        return Engine.assume(self, st, e, truth)


class MJMon(OpMon):
    def g(self, st):
        return G(st.mon)

    def kid(self, st, name):
        return None

    def fail(self, kind, x, msg, what=''):
        self.failed = True
        self.rep.fail(kind, self.ctx() + (':' + what if what else ''), where(self.F, x), msg)

    def protected(self, eng, st, base):
        return True

    def loop_key(self, eng, st, F):
        self.turns += 1
        return frozenset(st.mem.items()), tuple(eng.at_phis)

    def cut(self, eng, st, F, b):
        if F is not self.nextfn or len(eng.callstack) > 1 or any(isinstance(v, E) and v.op in ('p', 'pv') and v.a[0] in (BUFB, BUFI) for v in st.env.values()):
            return False
        if any(b in body for h, body in F.loops.items() if h != b):
            return False
        k = (b, len(eng.callstack), frozenset(canonical(self, st).items()), st.mon, frozenset((a, v) for a, v in st.env.items() if not isinstance(a, tuple)))
        if k in self.heads:
            return True
        self.heads.add(k)
        return False

    def hint(self, x, side, regs):
        if self.opt[1 - KIDS.index(side)]:
            self.fail('hint', x, 'the %s input may skip rows below the value of the other input although its rows are kept without partner' % side, side)
        elif {r.a[0] if r.op == 'p' else r for r in regs} == {regof('left', 0), regof('right', 0)}:
            self.rep.ok('hint', self.ctx() + ':' + side)
        else:
            self.fail('hint', x, 'the skip hint for the %s input does not relate the two join values' % side, side)

    def row(self, eng, st, side, toks):
        for i in range(NT + 1):
            eng.store(st, P(regof(side, i), self.voff), toks[i + 1])

    def on_store(self, eng, st, x, ptr, v, size):
        self.bounds(ptr, x)

    def on_load(self, eng, st, x, ptr, v):
        self.bounds(ptr, x)
        b = ptr.a[0] if ptr.op == 'p' else ptr
        if b in (BUFB, BUFI) and (b, ptr.a[1] if ptr.op == 'p' else 0) not in st.mem:
            self.fail('buffer-read', x, 'the buffer is read where no record is left in it')

    def bounds(self, ptr, x):
        if ptr.op == 'p' and ptr.a[0] in self.sizes:
            if not (isinstance(ptr.a[1], int) and 0 <= ptr.a[1] < self.sizes[ptr.a[0]]):
                self.fail('bounds', x, 'an element outside of a vector is used')

    def on_call(self, eng, st, x, fn, args):
        if fn.startswith('<virtual:') and args and args[0] in self.kids:
            meth = self.slots.get(int(fn[9:-1]))
            if meth in ('first', 'next'):
                return self.pull(eng, st, x, self.kids[args[0]], meth)
            if meth == 'addMergeHint' and len(args) == 3:
                self.hint(x, self.kids[args[0]], args[1:])
            return [(st, None)]
        sh = shortname(fn)
        if args and args[0].op == 'p' and args[0].a[0] is self.base and args[0].a[1] == self.bufoff:
            g = self.g(st)
            if sh.endswith('::clear'):
                g.buf, g.wr, g.used = (), (), 0
                st.mon = g.t()
                return [(st, None)]
            if sh.endswith(('::push_back', '::emplace_back')):
                self.push(eng, st, x, eng.load(st, args[1], 64))
                return [(st, None)]
            if sh.endswith(('::insert', '::_M_range_insert', '::_M_insert_range')) or '::insert<' in fn or '::_M_range_insert<' in fn:
                ps = [a for a in args[1:] if a.op == 'p' and a.a[0] in self.sizes and isinstance(a.a[1], int)]
                if len(ps) == 2 and ps[0].a[0] is ps[1].a[0] and any(eng.bufref(a) == 'end' for a in args[1:]):
                    for o in range(ps[0].a[1], ps[1].a[1], 8):
                        self.push(eng, st, x, eng.load(st, P(ps[0].a[0], o), 64))
                    return [(st, None)]
            if sh.endswith(('::begin', '::cbegin')):
                return [(st, P(BUFB))]
            if sh.endswith(('::end', '::cend')):
                return [(st, P(BUFE))]
            if sh.endswith('::empty'):
                return [(st, C(0 if g.buf else 1, 1))]
            if sh.endswith('::reserve'):
                return [(st, None)]
        if sh.endswith(('::resize', '::assign')) and args and args[0].op == 'p' and args[0].a[0] is self.base and args[0].a[1] in self.shadow:
            side = self.shadow[args[0].a[1]]
            n = args[1]
            if not is_c(n):
                raise AnalysisLimit('size of the copy of a row')
            b = mk('arg', 'shadow:' + side, 64, 'nn')
            self.sizes[b] = 8 * n.a[0]
            eng.store(st, args[0], P(b))
            eng.store(st, eng.gep(args[0], 8, []), P(b, 8 * n.a[0]))
            for i in range(n.a[0]):
                st.mem[(b, 8 * i)] = C(0, 64)
            return [(st, None)]
        if args and args[0].op == 'p' and args[0].a[0] is self.base and (args[0].a[1] in self.shadow or args[0].a[1] == self.bufoff) and self.method != 'constructor':
            raise AnalysisLimit('%s of a vector of the join' % sh)
        if len(args) == 2 and '::vector(std::vector<' in fn and fn.endswith(' const&)') and args[1].op == 'p' and args[1].a[0] in self.tails:
            side = self.tails[args[1].a[0]]
            b = mk('arg', 'tailvec:' + side, 64, 'nn')
            eng.store(st, args[0], P(b))
            eng.store(st, eng.gep(args[0], 8, []), P(b, 8 * NT))
            return [(st, None)]
        return None

    def push(self, eng, st, x, v):
        g = self.g(st)
        g.wr += (v,)
        if len(g.wr) == NT + 2:
            r = g.wr
            g.wr = ()
            if any(t in TOK for t in r) and r in g.buf:
                self.fail('buffer-twice', x, 'the same right row is put into the buffer twice')
            if r not in g.buf:
                g.buf = tuple(sorted(g.buf + (r,), key=lambda r: [t.n for t in r]))
        st.mon = g.t()

    def buffer(self, eng, st, it, truth):
        """the position in the buffer is compared with its end"""
        g = self.g(st)
        b, o = it.a[0], it.a[1]
        if b is BUFB and o == 0:
            g.used = 0
        rec = 8 * (NT + 2)
        if not isinstance(o, int) or o % rec:
            self.fail('buffer-read', None, 'the reading position is not at the start of a record')
            return []
        if g.wr:
            self.fail('buffer-write', None, 'the last record in the buffer is not complete')
            return []
        own = [r for r in g.buf if any(t in TOK for t in r)]
        if not truth:
            if own and g.used < len(own):
                return []
            st.mon = g.t()
            return [st]
        out = []
        for r in g.buf:
            if r in own:
                if own.index(r) != g.used:
                    continue
            s = st.copy()
            h = G(g.t())
            if r in own:
                h.used += 1
            s.mon = h.t()
            for i, t in enumerate(r):
                s.mem[(b, o + 8 * i)] = t
            out.append(s)
        return out

    def pull(self, eng, st, x, side, meth):
        if time.time() > self.stop:
            raise AnalysisLimit('two minutes')
        i = KIDS.index(side)
        g = self.g(st)
        last = g.last[i]
        if meth == 'first':
            g.pos, g.last, g.seen, g.alone, g.pair = upd(g.pos, i, 'b'), upd(g.last, i, None), upd(g.seen, i, 0), upd(g.alone, i, 0), 0
            last = None
        elif last in (None, 'E'):
            self.fail('input-protocol', x, 'the %s input is asked for another row although it is %s' % (side, 'exhausted' if last else 'not started'), side)
            return []
        else:
            self.rep.ok('input-protocol', self.ctx())
        out = []

        def go(toks, val, **kw):
            s = st.copy()
            h = G(g.t())
            for k, v in kw.items():
                setattr(h, k, upd(getattr(h, k), i, v))
            s.mon = h.t()
            self.row(eng, s, side, toks)
            out.append((s, val))
        p = g.pos[i]
        go((OC, VJ) + (JT,) * NT, C(0, 64), last='E', pos='a' if p == 'b' else p)
        if last in (None, 'L'):
            go((OC, VL) + (OT,) * NT, OC, last='L')
        if last in (None, 'L', 'V'):
            go((OC, PV) + (OT,) * NT, OC, last='V', seen=1)
            if p == 'b':
                go(star(side), star(side)[0], last='V', seen=1, pos='s')
        go((OC, VH) + (OT,) * NT, OC, last='H', pos='a' if p == 'b' else p)
        return out

    # ---- what is delivered
    def delivered(self, eng, s, side, x):
        """(kind, multiplicity, join value) of the row in the registers of a side"""
        v = [eng.load(s, P(regof(side, i), self.voff), 64) for i in range(NT + 1)]
        st = star(side)
        if any(t in TOK for t in v):
            if tuple(v) == st[1:]:
                return 'star', st[0], PV
            self.fail('row', x, 'the registers of the %s input hold values of different rows' % side, side)
            return None
        if any(t is MAXV for t in v):
            if all(t is MAXV for t in v):
                return 'null', None, None
            self.fail('row', x, 'only some of the registers of the missing %s row hold the null value' % side, side)
            return None
        if v[0] in (PV, VL, VH) and all(t is OT for t in v[1:]):
            return 'other', OC, v[0]
        self.fail('row', x, 'the registers of the %s input hold what is not a row of the input: %s' % (side, ', '.join(show(t) for t in v)), side)
        return None

    def exit(self, eng, e, meth):
        s, v, x = e.st, e.val, e.inst
        g = self.g(s)
        opt = self.opt
        if is_c(v) and v.a[0] == 0:
            if not g.pair and 'a' not in g.pos:
                self.fail('end', x, 'the join ends although a row of the left and a row of the right input with the same value have not been combined', 'pair')
            else:
                self.rep.ok('end', self.ctx())
            for i in (0, 1):
                if opt[1 - i] and g.pos[i] != 'a':
                    if g.pos[i] == 'b' or (not g.seen[1 - i] and not g.alone[i]):
                        self.fail('end', x, 'the join ends although a row of the %s input without partner has not been delivered' % KIDS[i], KIDS[i])
                    else:
                        self.rep.ok('end', self.ctx() + ':' + KIDS[i])
            return False
        rows = [self.delivered(eng, s, d, x) for d in KIDS]
        if None in rows:
            return True
        (lk, lc, lv), (rk, rc, rv) = rows
        if lk == rk == 'null':
            self.fail('row', x, 'a row without any input row is delivered')
            return True
        want = opspecs.mul(eng, s, lc, rc) if lc is not None and rc is not None else (lc if lc is not None else rc)
        if v is want:
            self.rep.ok('multiplicity', self.ctx())
        else:
            self.fail('multiplicity', x, 'a row is delivered with multiplicity %s instead of %s' % (show(v), show(want)))
        if 'null' not in (lk, rk):
            if (lv is PV) == (rv is PV):
                self.rep.ok('match', self.ctx())
            else:
                self.fail('match', x, 'two rows with different join values are combined (%s and %s)' % (show(lv), show(rv)))
            if lk == rk == 'star':
                if g.pair:
                    self.fail('once', x, 'the same pair of rows is delivered twice')
                else:
                    self.rep.ok('once', self.ctx())
                g.pair = 1
        for i, (k, o) in enumerate(((lk, rk), (rk, lk))):
            if o == 'null':
                n = KIDS[i]
                if not opt[1 - i]:
                    self.fail('row', x, 'a %s row is delivered without partner although the join does not ask for that' % n, n)
                elif k == 'star':
                    if g.alone[i]:
                        self.fail('once', x, 'the same %s row is delivered twice without partner' % n, n)
                    elif g.seen[1 - i]:
                        self.fail('alone', x, 'a %s row is delivered without partner although it has one' % n, n)
                    elif g.last[1 - i] not in ('H', 'E'):
                        self.fail('alone', x, 'a %s row is delivered without partner before the other input is behind its value' % n, n)
                    else:
                        self.rep.ok('alone', self.ctx() + ':' + n)
                    g.alone = upd(g.alone, i, 1)
        s.mon = g.t()
        return True


def canonical(mon, s):
    """what the next call can depend on"""
    bo = mon.iteroff
    it = s.mem.get((mon.base, bo))
    m = {}
    for (b, o), v in s.mem.items():
        if b is mon.base or b in mon.sizes or b in mon.regbases:
            m[(b, o)] = v
    if it is not None and it.op == 'p' and it.a[0] in (BUFB, BUFI) and isinstance(it.a[1], int) and (it.a[0] is BUFI or it.a[1]):
        rec = 8 * (NT + 2)
        m[(mon.base, bo)] = P(BUFI, it.a[1] % rec)
        if it.a[1] % rec:
            m[(mon.base, bo)] = P(BUFI, 8)
    m[(mon.base, mon.obsoff)] = OBS
    return m


def stale(mod, mon, s, g, dom):
    """the object is in an arbitrary state, except for what the constructor was given"""
    fixed = {mod.field(mon.cls, n)[0] for n in ('left', 'right', 'leftValue', 'rightValue', 'leftOptional', 'rightOptional', 'expectedOutputCardinality')}
    for n, o, z, t in mod.allfields(mon.cls):
        if o in fixed or o == 0 or z not in (1, 2, 4, 8):
            continue
        v = mk('arg', 'stale:' + n, 8 * z)
        if t == 'bool':
            dom[v] = Dom(8, st=frozenset((0, 1)))
        elif 'enum' in mod.records.get(t, {}):
            dom[v] = Dom(32, st=frozenset(range(len(mod.records[t]['enum']))))
        elif z == 8:
            v = VJ
        s.mem[(mon.base, o)] = v
    s.mem[(mon.base, mon.iteroff)] = P(BUFI, 8)
    for k in list(s.mem):
        if k[0] in mon.sizes and k[0].a[0].startswith('shadow'):
            s.mem[k] = VJ
    g.buf = ((VJ,) * (NT + 2),)


def run_one(rep, mod, opt, restart=False, limit=6000):
    cls = 'MergeJoin'
    rep.need(cls in mod.records, cls + ' is gone')
    ctors = [F for F in mod.short.get('MergeJoin::MergeJoin', []) if len(F.args) == 10]
    rep.need(ctors, 'the constructor of MergeJoin is gone')
    mon = MJMon(mod, rep, cls)
    mon.cfg = {(0, 0): '', (1, 0): ':left-optional', (0, 1): ':right-optional'}[opt]
    mon.opt = opt
    mon.turns = 0
    mon.failed = False
    mon.stop = time.time() + 120
    mon.heads = set()
    eng = MJEngine(mod, mon, max_steps=10**9, visit_cap=10**9, exit_cap=10**9, inst_cap=10**9)
    eng.key_cap = 4000
    base = mk('arg', 'this:' + cls, 64, 'nn')
    setup(mon, mod, eng, base)
    L, R = P(opspecs.opn('left')), P(opspecs.opn('right'))
    mon.kids = {L: 'left', R: 'right'}
    f = lambda n: mod.field(cls, n)[0]
    for n in ('buffer', 'bufferIter', 'leftShadow', 'rightShadow', 'leftTail', 'rightTail', 'observedOutputCardinality'):
        rep.need(mod.field(cls, n) is not None, 'MergeJoin::%s is gone' % n)
    mon.bufoff, mon.iteroff, mon.obsoff = f('buffer'), f('bufferIter'), f('observedOutputCardinality')
    mon.shadow = {f('leftShadow'): 'left', f('rightShadow'): 'right'}
    ta = {s: mk('arg', s + 'Tail', 64, 'nn') for s in KIDS}
    mon.tails = {ta[s]: s for s in KIDS}
    mon.sizes = {}
    mon.regbases = {regof(s, i) for s in KIDS for i in range(NT + 1)}
    st = new_state(G().t())
    for s in KIDS:
        b = mk('arg', 'tailvec:' + s, 64, 'nn')
        mon.sizes[b] = 8 * NT
        for i in range(NT):
            st.mem[(b, 8 * i)] = P(regof(s, i + 1))
        st.mem[(ta[s], 0)] = P(b)
        st.mem[(ta[s], 8)] = P(b, 8 * NT)
        for i in range(NT + 1):
            st.mem[(regof(s, i), mon.voff)] = VJ
    st.mem[(mk('g', '_ZN8Operator15disableSkippingE'), 0)] = C(0, 8)
    one = PV.a[0]
    dom = {VL: Dom(64).assume('ult', one), VH: Dom(64, one + 1, one << 20), VJ: Dom(64, 0, one << 20)}
    for t in (OC, LC, RC):
        dom[t] = Dom(64).assume('ne', 0)
    st.dom.update(dom)
    mon.method, mon.F = 'constructor', ctors[0]
    rep.fn(ctors[0])
    outs = [e.st for e in eng.run(ctors[0], [P(base), L, P(regof('left', 0)), P(ta['left']), R, P(regof('right', 0)), P(ta['right']), C(opt[0], 1), C(opt[1], 1), mk('arg', 'card', 64)], st) if e.kind == 'ret']
    rep.need(len(outs) == 1 and len([b for b in mon.sizes if b.a[0].startswith('shadow')]) == 2, 'the constructor of MergeJoin does not set up its copies')
    s = outs[0]
    s.mem[(base, 0)] = P(mk('g', '_ZTV9MergeJoin'), 16)
    s.mem[(base, mon.bufoff)] = P(BUFB)
    s.mem[(base, mon.bufoff + 8)] = P(BUFE)
    g0 = G()
    if restart:
        mon.restart = ':restart'
        stale(mod, mon, s, g0, dom)
    fns = opspecs.methods(mod, rep, cls)
    rep.fn(fns['first'])
    rep.fn(fns['next'])
    glob = {k: v for k, v in st.mem.items() if k[0].op == 'g'}
    mon.nextfn = fns['next']
    seen = set()
    todo = [('first', canonical(mon, s), g0.t())]
    n = 0
    while todo:
        meth, mem, g = todo.pop()
        n += 1
        if mon.failed and n > (1 if restart else 600):
            break
        if n > limit or time.time() > mon.stop:
            rep.undecided('history', mon.ctx(), 'more than %d object states or two minutes' % limit)
            return
        mon.method, mon.F = meth, fns[meth]
        t = new_state(g)
        t.mem = dict(mem)
        t.mem.update(glob)
        t.dom = dict(dom)
        for e in eng.run(fns[meth], [P(base)], t):
            if e.kind != 'ret':
                continue
            row = mon.exit(eng, e, meth)
            if not row:
                continue
            m = canonical(mon, e.st)
            key = (frozenset(m.items()), e.st.mon)
            if key not in seen:
                seen.add(key)
                todo.append(('next', m, e.st.mon))
    mon.reached = len(seen)
    rep.ok('states', mon.ctx() + ': %d object states' % len(seen))
    return len(seen)


def run_inner(rep, mod, restart=False):
    run_one(rep, mod, (0, 0), restart)


def run_left(rep, mod, restart=False):
    run_one(rep, mod, (1, 0), restart)


def run_right(rep, mod, restart=False):
    run_one(rep, mod, (0, 1), restart)
