"""C14: operators own their inputs, show each of them once, and pass skip hints on only to inputs that may skip rows."""
import ops, opspecs, opspecs1
from opspecs import *
from opspecs1 import Cur

GH = opspecs1.GH

# class -> constructor arguments: an upper case name is an input, 'vec' a vector of inputs, '@x' an object, '.x' a number
SPEC = {
    'Assignment': ['INPUT', '@args', '@regs', '.card'],
    'DuplLimit': ['INPUT', '@regs', '.dup', '.limit', '.offset'],
    'Filter': ['INPUT', '@reg', '@values', '.excl', '.card'],
    'GroupBy': ['INPUT', '@bind', '@regs', '.dist', '.card'],
    'HashGroupify': ['INPUT', '@regs', '.card'],
    'MergeJoin': ['LEFT', '@lv', '@lt', 'RIGHT', '@rv', '@rt', '.lo', '.ro', '.card'],
    'MergeUnion': ['@res', 'LEFT', '@lv', 'RIGHT', '@rv', '.card'],
    'Minus': ['MAIN', 'MINUS', '@regs', '.card'],
    'NestedLoopFilter': ['INPUT', '@reg', '@values', '.card'],
    'NestedLoopJoin': ['LEFT', 'RIGHT', '.card'],
    'TableFunction': ['INPUT', '@rt', '.id', '@name', '@args', '@out', '.card'],
    'Union': ['vec', '@map', '@init', '.card'],
}
# inputs that may be told to skip rows which no partner of the join value needs: the operator hands their rows on one
# by one, with the values of their registers unchanged, and a row that is not asked for changes none of the others
MAYSKIP = {('Assignment', 'INPUT'), ('Filter', 'INPUT'), ('TableFunction', 'INPUT'), ('MergeJoin', 'LEFT'), ('MergeJoin', 'RIGHT'),
           ('MergeUnion', 'LEFT'), ('MergeUnion', 'RIGHT'), ('Minus', 'MAIN'), ('NestedLoopJoin', 'LEFT'), ('GroupBy', 'INPUT')}
# inputs that are not offered for background work (they are read only while the operator itself runs)
NOASYNC = {('Minus', 'MINUS')}


class Tree(Monitor):
    """mon = ((input, deleted, hinted, printed, offered), ..., ('out', phase))"""
    unwind = False
    unknown = False

    def __init__(self, mod, rep, cls):
        self.mod, self.rep, self.cls = mod, rep, cls
        self.kids = {}
        self.method = ''
        self.F = None
        self.base = None
        self.cur = None
        self.slots = virt_slots(mod, 'Operator')
        self.pslots = virt_slots(mod, 'PlanPrinter')
        self.out = mk('arg', 'out', 64, 'nn')
        self.sched = mk('arg', 'sched', 64, 'nn')
        self.hint = (mk('arg', 'hint1', 64, 'nn'), mk('arg', 'hint2', 64, 'nn'))
        self.slot = None

    def ctx(self, what=''):
        return '%s::%s%s' % (self.cls, self.method, ':' + what if what else '')

    def oblige(self, cond, kind, x, msg, what=''):
        return self.rep.decide(cond, kind, self.ctx(what), where(self.F, x), msg)

    def get(self, st, k):
        return dict(st.mon).get(k)

    def put(self, st, k, v):
        d = dict(st.mon)
        d[k] = v
        st.mon = tuple(sorted(d.items()))

    def protected(self, eng, st, base):
        # an input or the printer does not change the operator
        return base is self.base or base.op in ('alloca', 'new') or (base.op == 'fresh' and 'vec' in base.a[1:4]) or base is GH

    def clobbers_world(self, eng, st, x, fn, args):
        return False

    def recv(self, eng, st, x, a):
        """name of the input a call goes to; the part under the cursor of a vector of inputs is 'PART'"""
        if a in self.kids:
            return self.kids[a]
        if self.cur is not None and self.cur.valid(st):
            els = self.cur.elems(self, eng, st)
            if any(a is e or np(a) is np(e) for e in els):
                return 'PART'
        return None

    def event(self, eng, st, x, name, what):
        """one of delete, print, offer"""
        if name == 'PART':
            if not self.cur.inside(self, eng, st):
                self.rep.undecided('owns', self.ctx(what), 'cannot tell that the part exists')
            self.cur.advance(eng, st)
            return
        k = name + ':' + what
        self.oblige(not self.get(st, k), what + '-once', x, 'input %s: %s twice' % (name.lower(), what), name)
        self.put(st, k, True)

    def on_call(self, eng, st, x, fn, args):
        if len(args) == 2 and '::vector(std::vector<' in fn and fn.endswith(' const&)'):
            u = eng.site(st, x)
            b = mk('fresh', u, 'vec', 64)
            n = eng.binop(st, 'sub', eng.load(st, eng.gep(args[1], 8, []), 64), eng.load(st, args[1], 64), 64)
            eng.store(st, args[0], b)
            e = eng.gep(b, 0, [(n, 1)])
            eng.store(st, eng.gep(args[0], 8, []), e)
            eng.store(st, eng.gep(args[0], 16, []), e)
            if np(args[1]) is np(P(mk('arg', 'vec', 64, 'nn'))) and args[0].op == 'p' and args[0].a[0] is self.base:
                self.slot = args[0].a[1]
            return [(st, None)]
        if self.method == 'print' and ('std::' in fn.split('(')[0] or 'operator<<' in fn) and any(k in fn for k in ('basic_string<', 'basic_stringstream<', 'basic_ostream<', 'basic_ostringstream<')) and 'vector' not in fn.split('(')[0]:
            # texts
            return [(st, None if x['t'] == 'v' else mk('call', eng.site(st, x), 'text', tw(x['t'])))]
        if '::~unique_ptr' in fn and args:
            v = eng.load(st, args[0], 64)
            name = self.recv(eng, st, x, v)
            if name:
                self.event(eng, st, x, name, 'deleted')
            return [(st, None)]
        if fn.startswith('<virtual:') and args:
            slot = int(fn[9:-1])
            for i, a in enumerate(args[:2]):
                # the second argument if the result is returned in memory
                if np(a) is np(P(self.out)) and (i == 0 or args[0].op == 'p' and args[0].a[0].op == 'alloca'):
                    return self.printer(eng, st, x, self.pslots.get(slot), args)
            name = self.recv(eng, st, x, args[0])
            meth = self.slots.get(slot)
            if name is None and self.cur is not None and self.cur.valid(st):
                # another part than the one that is due?
                for at in self.cur.addrs(self, eng, st):
                    if args[0].op == 'ld' and args[0].a[1].op in ('p', 'pv') and eng.decide_cmp(st, 'eq', addr(args[0]), at) is False:
                        self.oblige(False, 'part-due', x, 'a part is left out', 'PART')
                        raise AnalysisLimit('a part is left out')
            if name is None:
                if self.method in ('destructor', 'print', 'getAsyncInputCandidates', 'addMergeHint'):
                    self.rep.undecided('owns', self.ctx(), 'call of an unknown object')
                    self.unknown = True
                return None
            if meth is None:
                self.oblige(self.method == 'destructor', 'deleted-late', x, 'input %s is deleted while the operator is still in use' % name.lower(), name)
                self.event(eng, st, x, name, 'deleted')
                return [(st, None)]
            if meth == 'print':
                ph = self.get(st, 'out')
                self.oblige(self.method == 'print', 'print-only', x, 'input %s is printed' % name.lower(), name)
                self.oblige(np(args[1]) is np(P(self.out)), 'print-where', x, 'input %s is printed to another printer' % name.lower(), name)
                self.oblige(ph == 'open', 'print-nested', x, 'input %s is printed %s the operator' % (name.lower(), 'before' if ph != 'done' else 'after'), name)
                self.event(eng, st, x, name, 'printed')
                return [(st, None)]
            if meth == 'getAsyncInputCandidates':
                self.oblige(self.method == meth, 'offer-only', x, 'input %s is offered for background work' % name.lower(), name)
                self.oblige(np(args[1]) is np(P(self.sched)), 'offer-where', x, 'input %s is offered to another scheduler' % name.lower(), name)
                self.event(eng, st, x, name, 'offered')
                return [(st, None)]
            if meth == 'addMergeHint':
                self.oblige((self.cls, name) in MAYSKIP, 'may-skip', x, 'a skip hint is passed on to input %s of %s, whose rows are all needed' % (name.lower(), self.cls), name)
                if self.method == 'addMergeHint':
                    got = {np(a) for a in args[1:3]}
                    self.oblige(got == {np(P(h)) for h in self.hint}, 'hint-registers', x, 'the skip hint for input %s names other registers than the one received' % name.lower(), name)
                elif self.method == 'constructor' and self.cls != 'MergeJoin':
                    self.oblige(False, 'hint-source', x, 'input %s is told to skip rows although the operator joins nothing' % name.lower(), name)
                elif self.method not in ('constructor',):
                    self.oblige(False, 'hint-source', x, 'input %s is told to skip rows' % name.lower(), name)
                return [(st, None)]
            if meth in ('first', 'next'):
                self.oblige(False, 'no-rows', x, 'input %s is executed' % name.lower(), name)
                return [(st, mk('call', eng.site(st, x), 'rows', 64))]
            return [(st, None)]
        return None

    def printer(self, eng, st, x, meth, args):
        ph = self.get(st, 'out')
        if meth == 'beginOperator':
            self.oblige(ph is None, 'print-begin', x, 'the operator is opened twice')
            self.put(st, 'out', 'open')
        elif meth == 'endOperator':
            self.oblige(ph == 'open', 'print-end', x, 'the operator is closed although it is not open')
            self.put(st, 'out', 'done')
        elif meth and meth.startswith('add'):
            self.oblige(ph == 'open', 'print-inside', x, 'an annotation is printed outside of the operator')
        if x['t'] == 'v':
            return [(st, None)]
        return [(st, mk('call', eng.site(st, x), 'printed', tw(x['t'])))]


def addr(e):
    return P(*e.a[1].a) if e.a[1].op == 'p' else e.a[1]


def isvec(a):
    """an element of the copied vector"""
    return a.op == 'ld' and isinstance(a.a[1], E) and a.a[1].op in ('p', 'pv') and a.a[1].a[0].op == 'fresh' and 'vec' in a.a[1].a[0].a[1:4]


class PartEngine(Engine):
    """the inputs in the vector are there"""

    def icmp(self, st, p, a, b, w):
        if p in ('eq', 'ne') and is_c(b) and b.a[0] == 0 and self.mon.cur is not None and (self.mon.recv(self, st, None, a) == 'PART' or isvec(a)):
            return C(1 if p == 'ne' else 0, 1)
        return Engine.icmp(self, st, p, a, b, w)


SCANS = ('IndexScan', 'AggregatedIndexScan', 'FullyAggregatedIndexScan', 'ValuesScan', 'SingletonScan', 'EmptyScan')


class Leaf(Tree):
    def printer(self, eng, st, x, meth, args):
        if meth == 'addScanAnnotation':
            self.put(st, 'pos', (self.get(st, 'pos') or ()) + ((args[1], args[2]),))
        return Tree.printer(self, eng, st, x, meth, args)


def leaf(cls):
    """scans: the operator is opened and closed once, and every position is shown once with its own bound flag"""
    def part(rep, mod):
        mon = Leaf(mod, rep, cls)
        eng = Engine(mod, mon, exit_cap=40)
        base = mk('arg', 'this:' + cls, 64, 'nn')
        mon.base = base
        eng.this = base
        F = fns_of(mod, rep, cls, 'print')
        rep.fn(F)
        mon.method, mon.F = 'print', F
        fl = {f[0]: f for f in mod.allfields(cls)}
        st = new_state(())
        want = []
        for i in (1, 2, 3):
            v, b = fl.get('value%d' % i), fl.get('bound%d' % i)
            if v and b:
                st.mem[(base, v[1])] = P(mk('arg', 'value%d' % i, 64, 'nn'), 0)
                st.mem[(base, b[1])] = mk('arg', 'bound%d' % i, 8)
                want.append((st.mem[(base, v[1])], st.mem[(base, b[1])]))
        for e in eng.run(F, [P(base, 0), P(mon.out, 0)], st):
            if e.kind != 'ret':
                continue
            mon.oblige(mon.get(e.st, 'out') == 'done', 'print-closed', e.inst, 'the operator is not closed exactly once after it was opened')
            got = list(mon.get(e.st, 'pos') or ())
            if want:
                for i, (v, b) in enumerate(want):
                    hits = [g for g in got if np(g[0]) is np(v)]
                    mon.oblige(len(hits) == 1, 'print-positions', e.inst, 'position %d is shown %d times' % (i + 1, len(hits)), str(i + 1))
                    for g in hits:
                        if any(leafarg(g[1]) == 'bound%d' % (j + 1) for j in range(3)):
                            mon.oblige(leafarg(g[1]) == 'bound%d' % (i + 1), 'print-bound', e.inst, 'position %d is shown with the bound flag of another position' % (i + 1), str(i + 1))
    part.__name__ = 'leaf_' + cls
    return part


def leafarg(e):
    """the argument an expression is made of"""
    out = set()

    def go(t):
        if isinstance(t, E):
            if t.op == 'arg':
                out.add(t.a[0])
            else:
                for y in t.a:
                    go(y)
    go(e)
    return out.pop() if len(out) == 1 else None


def printer(rep, mod):
    """the nesting level of the printer follows the operators that are open"""
    cls = 'DebugPlanPrinter'
    f = mod.field(cls, 'level')
    rep.need(f, 'DebugPlanPrinter::level is gone')
    w = f[1] * 8
    base = mk('arg', 'this:' + cls, 64, 'nn')
    for m, d in (('beginOperator', 1), ('endOperator', -1)):
        F = fns_of(mod, rep, cls, m)
        rep.fn(F)
        mon = Tree(mod, rep, cls)
        mon.base, mon.method, mon.F = base, 'print', F
        eng = Engine(mod, mon, exit_cap=24)
        eng.this = base
        lv = mk('arg', 'level', w)
        st = new_state(())
        st.mem[(base, f[0])] = lv
        args = [P(base, 0)] + [mk('arg', 'a%d' % i, tw(a[1]) if isinstance(a, (list, tuple)) else 64, 'nn') for i, a in enumerate(F.args[1:])]
        try:
            exits = eng.run(F, args, st)
        except AnalysisLimit as ex:
            rep.undecided('print-level', '%s::%s' % (cls, m), str(ex))
            continue
        for e in exits:
            if e.kind != 'ret':
                continue
            v = eng.load(e.st, P(base, f[0]), w)
            zero = eng.decide_cmp(e.st, 'eq', lv, C(0, w))
            if v is not lv and fuzzy(v):
                rep.undecided('print-level', '%s::%s' % (cls, m), show(v))
                continue
            good = v is eng.binop(e.st, 'add', lv, C(d, w), w) or (d < 0 and zero and (v is lv or is_c(v) and v.a[0] == 0))
            rep.decide(good, 'print-level', '%s::%s' % (cls, m), where(F, e.inst), 'the nesting level becomes %s instead of %s' % (show(v), 'level + 1' if d > 0 else 'level - 1'))


def np(e):
    return opspecs1.np(e)


def fns_of(mod, rep, cls, name):
    fs = [F for F in mod.short.get(cls + '::' + name, []) if F.blocks]
    if name.startswith('~'):
        fs = [F for F in fs if F.name.endswith('D2Ev')] or fs
    rep.need(fs, '%s::%s is gone' % (cls, name))
    return fs[0]


def one(cls):
    def part(rep, mod):
        spec = SPEC[cls]
        rep.need(cls in mod.records, cls + ' is gone')
        ctors = [F for F in mod.short.get(cls + '::' + cls, []) if len(F.args) - 1 == len(spec) and F.blocks]
        rep.need(ctors, 'the constructor of %s is gone' % cls)
        mon = Tree(mod, rep, cls)
        eng = PartEngine(mod, mon, exit_cap=24, max_steps=20000)
        base = mk('arg', 'this:' + cls, 64, 'nn')
        mon.base = base
        eng.this = base
        args = [P(base, 0)]
        names = []
        for a in spec:
            if a == 'vec':
                args.append(P(mk('arg', 'vec', 64, 'nn'), 0))
            elif a[0] == '@':
                args.append(P(mk('arg', a, 64, 'nn'), 0))
            elif a[0] == '.':
                F = ctors[0]
                w = tw(F.args[len(args)][1]) if isinstance(F.args[len(args)], (list, tuple)) else 64
                args.append(mk('arg', a, w))
            else:
                p = P(mk('arg', 'op:' + a, 64, 'nn'), 0)
                mon.kids[p] = a
                mon.kids[p.a[0]] = a
                names.append(a)
                args.append(p)
        mon.method, mon.F = 'constructor', ctors[0]
        rep.fn(ctors[0])
        states = [e.st for e in eng.run(ctors[0], args, new_state(())) if e.kind == 'ret']
        for s in states:
            s.env, s.stack, s.inst, s.mon = {}, (), {}, ()
            # any state the operator may have reached: only the inputs it was given stay
        if 'vec' in spec:
            if mon.slot is None:
                for m in ('~' + cls, 'print', 'getAsyncInputCandidates'):
                    rep.undecided('owns', '%s::%s' % (cls, m), 'cannot see where the inputs are kept')
                return
        for m, extra in (('~' + cls, []), ('print', [P(mon.out, 0)]), ('getAsyncInputCandidates', [P(mon.sched, 0)]), ('addMergeHint', [P(h, 0) for h in mon.hint])):
            F = fns_of(mod, rep, cls, m)
            rep.fn(F)
            mon.method = 'destructor' if m[0] == '~' else m
            mon.F = F
            mon.unknown = False
            what = {'destructor': 'deleted', 'print': 'printed', 'getAsyncInputCandidates': 'offered'}.get(mon.method)
            for s0 in states[:6]:
                s = s0.copy()
                if 'vec' in spec:
                    mon.cur = Cur(64, mon.slot)
                    mon.cur.reset(mon, eng, s)
                try:
                    exits = eng.run(F, [P(base, 0)] + extra, s)
                except AnalysisLimit as ex:
                    rep.undecided('owns', mon.ctx(), str(ex))
                    continue
                for e in exits:
                    if e.kind != 'ret':
                        continue
                    if m == 'print':
                        mon.oblige(mon.get(e.st, 'out') == 'done', 'print-closed', e.inst, 'the operator is not closed exactly once after it was opened')
                    if what:
                        for n in names:
                            if what == 'offered' and (cls, n) in NOASYNC:
                                continue
                            mon.oblige(mon.get(e.st, n + ':' + what), what + '-all', e.inst, 'input %s is never %s' % (n.lower(), what), n)
                        if 'vec' in spec:
                            if mon.cur.done(mon, eng, e.st):
                                rep.ok(what + '-all', mon.ctx('PART'))
                            elif mon.cur.inside(mon, eng, e.st) or not mon.unknown and is_c(e.st.mem[(GH, 64)]):
                                mon.oblige(False, what + '-all', e.inst, 'a part of the union is never %s' % what, 'PART')
                            else:
                                rep.undecided(what + '-all', mon.ctx('PART'), 'cannot tell whether all parts are %s' % what)
    part.__name__ = 'tree_' + cls
    return part


def run(rep, tier):
    mod = ops.rdf_module()
    rep.explain = 'Abstract interpretation of constructor, destructor, print, getAsyncInputCandidates and addMergeHint of the query operators over symbolic inputs.'
    rep.rule('the destructor deletes every input the constructor received exactly once; nothing else deletes an input')
    rep.rule('print opens the operator once, prints every input once while it is open, and closes it once; no annotation is written outside')
    rep.rule('every input is offered once for background work, to the scheduler received')
    rep.rule('a skip hint is passed on unchanged, and only to inputs whose unneeded rows may be skipped')
    rep.rule('a scan shows every position once, with its own bound flag; the nesting level of the printer follows the open operators')
    rep.assumptions = ['operators do not replace their inputs after construction']
    rep.parts([one(c) for c in SPEC] + [leaf(c) for c in SCANS] + [printer], rep, mod)
