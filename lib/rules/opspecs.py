"""Row specifications of the query operators."""
from history import *


def reg(name):
    return mk('arg', 'reg:' + name, 64, 'nn')


def opn(name):
    return mk('arg', 'op:' + name, 64, 'nn')


def new_op(mod, rep, monc, cls, ctor_args, ext=(), exit_cap=24):
    """interpret the constructor of cls on a symbolic object; returns (mon, eng, states)"""
    rep.need(cls in mod.records, cls + ' is gone')
    ctors = [F for F in mod.short.get(cls + '::' + cls.split('::')[-1], []) if len(F.args) - 1 == len(ctor_args)]
    rep.need(ctors, 'the constructor of %s is gone' % cls)
    mon = monc(mod, rep, cls)
    eng = Engine(mod, mon, exit_cap=exit_cap)
    base = mk('arg', 'this:' + cls, 64, 'nn')
    setup(mon, mod, eng, base)
    return mon, eng, base, ctors[0]


def construct(mon, eng, base, ctor, args, ext=()):
    st = new_state(mon.initmon(ext))
    mon.method = 'constructor'
    mon.F = ctor
    outs = [e.st for e in eng.run(ctor, [P(base, 0)] + args, st) if e.kind == 'ret']
    v = mangle_class(mon.cls)
    for s in outs:
        s.mem[(base, 0)] = P(mk('g', '_ZTV' + v), 16)
    return outs


def methods(mod, rep, cls):
    out = {}
    for m in ('first', 'next'):
        fs = mod.short.get(cls + '::' + m)
        rep.need(fs, '%s::%s is gone' % (cls, m))
        out[m] = fs[0]
    return out


def isz(eng, s, v):
    return eng.decide_cmp(s, 'eq', v, C(0, width(v)))


def mul(eng, s, a, b):
    return eng.binop(s, 'mul', a, b, 64)


def add(eng, s, a, b):
    return eng.binop(s, 'add', a, b, 64)


# ---------------------------------------------------------------- nested loop join
class NLJ(OpMon):
    def before_advance(self, eng, st, x, name, meth):
        l, r = self.kid(st, 'left'), self.kid(st, 'right')
        if name == 'left':
            if meth == 'next' and l.status == 'pos':
                self.oblige(r.status == 'end', 'no-loss', x, 'the left row is left behind before the right input was exhausted for it', 'left')
            self.setkid(st, 'right', status='stale' if r.status == 'pos' else r.status)
        else:
            if meth == 'first':
                self.oblige(l.status == 'pos', 'input-protocol', x, 'the right input is started without a left row', 'right-first')
            elif r.status == 'pos':
                self.oblige(r.used, 'no-loss', x, 'a right row is skipped', 'right')
            if meth == 'first' and r.status == 'pos':
                self.oblige(False, 'no-loss', x, 'the right input is restarted before it was exhausted', 'right-restart')

    def after_row(self, eng, st, x, name, meth):
        if name == 'left':
            self.setkid(st, 'right', status='none', row=None)


def nlj_exit(mon, eng, e, meth, pre):
    s = e.st
    l, r = mon.kid(s, 'left'), mon.kid(s, 'right')
    z = isz(eng, s, e.val)
    if e.val.op == 'bin' and e.val.a[0] == 'mul':
        z = False
    if z:
        mon.oblige(l.status == 'end', 'end', e.inst, 'the join ends although the left input still has a row')
        return False
    okk = l.status == 'pos' and r.status == 'pos' and not r.used and e.val is mul(eng, s, count(l.row), count(r.row))
    mon.oblige(okk, 'multiplicity', e.inst, 'a row is produced with multiplicity %s instead of the product of the multiplicities of the current left and right rows' % show(e.val))
    mon.setkid(s, 'right', used=True)
    mon.setkid(s, 'left', used=True)
    return True


def run_nlj(rep, mod, restart=False):
    cls = 'NestedLoopJoin'
    L, R = P(opn('left')), P(opn('right'))
    mon, eng, base, ctor = new_op(mod, rep, NLJ, cls, [0, 0, 0])
    mon.kids = {L: 'left', R: 'right'}
    for s in construct(mon, eng, base, ctor, [L, R, mk('arg', 'card', 64)]):
        run_history(rep, mod, eng, mon, s, methods(mod, rep, cls), nlj_exit, restart)


# ---------------------------------------------------------------- merge union
class MU(OpMon):
    def before_advance(self, eng, st, x, name, meth):
        k = self.kid(st, name)
        if k.status == 'pos' and not (meth == 'first'):
            self.oblige(k.used, 'no-loss', x, 'a row of the %s input is skipped' % name, name)


def mu_exit(mon, eng, e, meth, pre):
    s = e.st
    l, r = mon.kid(s, 'left'), mon.kid(s, 'right')
    z = isz(eng, s, e.val)
    out = s.mem.get((reg('result'), mon.voff))
    cands = []
    if l.status == 'pos':
        cands.append(('left', count(l.row)))
    if r.status == 'pos':
        cands.append(('right', count(r.row)))
    if l.status == 'pos' and r.status == 'pos':
        cands.append(('both', add(eng, s, count(l.row), count(r.row))))
    hit = [n for n, c in cands if c is e.val]
    if not hit:
        if z or (e.val.op == 'c' and e.val.a[0] == 0):
            left_over = [k.name for k in (l, r) if k.status == 'pos' and not k.used or k.status == 'pos']
            mon.oblige(l.status == 'end' and r.status == 'end', 'end', e.inst, 'the union ends although an input still has rows (%s)' % ', '.join(left_over))
            return False
        mon.fail('multiplicity', e.inst, 'a row is produced with multiplicity %s, which is not that of the current input row(s)' % show(e.val))
        return True
    h = hit[0]
    lv = val('left', l.row) if l.row is not None else None
    rv = val('right', r.row) if r.row is not None else None
    if h in ('left', 'both'):
        mon.oblige(out is lv or (out is not None and h == 'both' and out is rv), 'value', e.inst, 'the result register does not hold the value of the left row', h)
        mon.oblige(not l.used, 'once', e.inst, 'the left row is delivered twice', h)
        mon.setkid(s, 'left', used=True)
    if h in ('right', 'both'):
        mon.oblige(out is rv or (out is not None and h == 'both' and out is lv), 'value', e.inst, 'the result register does not hold the value of the right row', h)
        mon.oblige(not r.used, 'once', e.inst, 'the right row is delivered twice', h)
        mon.setkid(s, 'right', used=True)
    if h == 'left' and r.status == 'pos' and not r.used:
        mon.oblige(eng.decide_cmp(s, 'ule', lv, rv), 'order', e.inst, 'the left row is delivered although it is not known to be the smaller one')
    if h == 'right' and l.status == 'pos' and not l.used:
        mon.oblige(eng.decide_cmp(s, 'ule', rv, lv), 'order', e.inst, 'the right row is delivered although it is not known to be the smaller one')
    if h == 'both':
        mon.oblige(eng.decide_cmp(s, 'eq', lv, rv), 'order', e.inst, 'two rows are merged although their values are not known to be equal', 'both')
    return True


def run_mu(rep, mod, restart=False):
    cls = 'MergeUnion'
    L, R = P(opn('left')), P(opn('right'))
    mon, eng, base, ctor = new_op(mod, rep, MU, cls, [0] * 6)
    mon.kids = {L: 'left', R: 'right'}
    mon.regs = {'left': {'left': (reg('left'), mon.voff)}, 'right': {'right': (reg('right'), mon.voff)}}
    mon.ownregs = {'result': (reg('result'), mon.voff)}
    for s in construct(mon, eng, base, ctor, [P(reg('result')), L, P(reg('left')), R, P(reg('right')), mk('arg', 'card', 64)]):
        run_history(rep, mod, eng, mon, s, methods(mod, rep, cls), mu_exit, restart)
