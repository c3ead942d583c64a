"""C13: query plans are well formed and complete (PlanGen, QueryGraph)."""
import re
import build, eff, ssa
from absint import *
from ops import where

STOP = [r'^([^(]* )?(std::(map|set|_Rb_tree|_V2|basic|char_traits)|__gnu)', r'^StructPool<.*>::(alloc|free)\(']
ROOTS = [r'PlanGen::', r'PlanContainer::', r'isUnused', r'normalizePattern', r'collectVariables', r'findFilters', r'findOrdering', r'onstructEdges', r'onstructFilterEdges', r'QueryGraph::Filter::']
ORDERS = {'Subject': 's', 'Predicate': 'p', 'Object': 'o', 'S': 's', 'P': 'p', 'O': 'o'}


def module():
    return Module(build.dump(['rdf3x/src/cts/PlanGen.cpp', 'rdf3x/src/cts/QueryGraph.cpp'], ROOTS, stop=STOP, inline=[r'QueryGraph::(c_)?(get|projection|order)\w*\(']))


def fn(rep, mod, name):
    F = [F for F in mod.fns.values() if F.sname == name or re.search(r'(^|[ :])' + re.escape(name) + r'\(', F.dem)]
    rep.need(F, 'the function ' + name)
    return F


ENUM = {}


def enums(mod):
    """operators of the plan nodes and orders of the database, from the source"""
    if not ENUM:
        import os
        for f, n in (('rdf3x/include/cts/plangen/Plan.hpp', 'Op'), ('include/layers/TridentLayer.hpp', None), ('rdf3x/include/dblayer.hpp', 'DataOrder')):
            p = os.path.join(build.REPO, f)
            if n is None or not os.path.exists(p):
                continue
            t = re.sub(r'//[^\n]*|/\*.*?\*/', '', open(p, errors='replace').read(), flags=re.S)
            m = re.search(r'enum\s+' + n + r'\b[^{;]*\{([^}]*)\}', t)
            d, v = {}, 0
            for e in m.group(1).split(','):
                e = e.strip()
                if e:
                    k, _, w = e.partition('=')
                    v = int(w, 0) if w.strip() else v
                    d[v] = k.strip()
                    v += 1
            ENUM[n] = d
    return ENUM


# ---------------------------------------------------------------- complete nodes
def run_nodes(rep, mod):
    rep.rule('Definite assignment: every plan node, subproblem and filter argument handed out by a pool has all its members set before they are read and when the function that made it hands it on.')
    n = 0
    for rec, src in (('Plan', 'StructPool<Plan>::alloc('), ('PlanGen::Problem', 'StructPool<PlanGen::Problem>::alloc('), ('FilterArgs', 'StructPool<FilterArgs>::alloc(')):
        if rec not in mod.records:
            rep.undecided('node', rec, 'the record is gone')
            continue
        A = ssa.Assigned(mod, rec, lambda d: d.startswith(src))
        A.solve(list(mod.fns.values()))
        bad = {}
        for F, a, x, names, how in A.viol:
            bad.setdefault(F.name, []).append((a, x, names, how))
        for F in mod.fns.values():
            R = [x for b, x in ssa.Fx(F).insts() if x['op'] in ('call', 'invoke') and x.get('fn') and (A.source(mod.dem(x['fn'])) or x['fn'] in A.ret)]
            if not R or A.source(F.dem):
                continue
            rep.fn(F)
            sh = F.sname.split('(')[0]
            for i, x in enumerate(R):
                v = [t for t in bad.get(F.name, []) if t[0] is not None and t[0]['k'] == x['k']]
                n += 1
                key = '%s:%s#%d' % (rec, sh, i)
                if v:
                    a, y, names, how = v[0]
                    rep.fail('node', key, where(F, y or x), '%s of a %s %s unset' % (', '.join(sorted({q for t in v for q in t[2]})), rec, {'read': 'is read', 'left': 'is handed on', 'returned': 'is returned'}[how]))
                else:
                    rep.ok('node', key)
    rep.need(n, 'an allocation of a plan node')


# ---------------------------------------------------------------- base scans
class ScanMon(Monitor):
    def __init__(self, mod, rep, const, unused):
        self.mod, self.rep = mod, rep
        self.const, self.unused = const, unused
        self.added, self.bad, self.asked = [], [], []
        self.count = 0
        f = lambda n: mod.field('Plan', n)[0]
        self.pf = {n: f(n) for n in ('op', 'opArg', 'left', 'right', 'next', 'ordering')}
        self.owidth = mod.field('Plan', 'ordering')[1] * 8
        self.plans = mod.field('PlanGen::Problem', 'plans')[0]

    def protected(self, eng, st, base):
        return base.op in ('alloca', 'new') or base in (self.node, self.this) or base.op == 'sym'

    def clobbers_world(self, eng, st, inst, fn, args):
        return False

    def loop_key(self, eng, st, F):
        return tuple(v for k, v in (eng.at_phis or ()) if v.op in ('p', 'c'))

    def member(self, eng, st, v):
        """which component of the pattern is the value?"""
        for c, n in (('s', 'subject'), ('p', 'predicate'), ('o', 'object')):
            t = eng.load(st, P(self.node, self.mod.field('QueryGraph::Node', n)[0]), 64)
            if v is t or v.op in ('trunc', 'zext') and v.a[0] is t or v.op == 'trunc' and v.a[0].op == 'trunc' and v.a[0].a[0] is t:
                return c
        return None

    def on_call(self, eng, st, x, fn, args):
        s = shortname(fn)
        if 'getCardinality' in fn or 'fn' not in x:
            # sizes and costs only rank the plans
            return [(st, C(10, tw(x['t'])) if x['t'] in ('i64', 'i32') else eng.fresh(st, x, 'cost', 64))]
        if re.match(r'(bool )?isUnused\(', fn):
            m = self.member(eng, st, args[-1])
            q = args[0]
            full = eng.load(st, P(self.this, self.mod.field('PlanGen', 'fullQuery')[0]), 64)
            if m is None:
                return None
            if q is not full and not (q.op == 'p' and q.a[0] is full and q.a[1] == 0):
                self.bad.append(('scope', x, 'the use of a variable is looked up in a part of the query'))
            return [(st, C(int(m in self.unused), 8) if x['t'] != 'i1' else C(int(m in self.unused), 1))]
        if s.endswith('::alloc') and 'Pool' in s or s.endswith('PlanContainer::alloc'):
            self.count += 1
            return [(st, P(mk('new', self.count, 0), 0))]
        if s.endswith('PlanGen::buildFilters'):
            p = args[2]
            o = eng.load(st, P(p.a[0], p.a[1] + self.pf['op']), 32)
            key = p
            self.filtered = getattr(self, 'filtered', {})
            self.filtered[key] = (x, args[3:6])
            if self.count % 2:
                return [(st, p)]
            self.count += 1
            w = P(mk('new', self.count, 0), 0)
            eng.store(st, P(w.a[0], self.pf['op']), C(self.FILTER, 32))
            eng.store(st, P(w.a[0], self.pf['left']), p)
            eng.store(st, P(w.a[0], self.pf['ordering']), eng.load(st, P(p.a[0], self.pf['ordering']), self.owidth))
            return [(st, w)]
        if s.endswith('PlanGen::addPlan'):
            pr, p = args[1], args[2]
            at = P(pr.a[0], pr.a[1] + self.plans)
            q = p
            wrapped = False
            while q.op == 'p' and q.a[0].op == 'new':
                op = eng.load(st, P(q.a[0], self.pf['op']), 32)
                if is_c(op) and op.a[0] == self.FILTER:
                    q = eng.load(st, P(q.a[0], self.pf['left']), 64)
                    wrapped = True
                    continue
                break
            self.added.append((x, q, op, eng.load(st, P(q.a[0], self.pf['opArg']), 32), eng.load(st, P(p.a[0], self.pf['ordering']), self.owidth), wrapped, tuple(eng.callstack)))
            eng.store(st, P(p.a[0], self.pf['next']), eng.load(st, at, 64))
            eng.store(st, at, p)
            st.mon = st.mon + (len(self.added) - 1,)
            return [(st, None)]
        return None


def all_ones(v):
    return is_c(v) and v.a[0] & 0xffffffff == 0xffffffff


def scan_ok(mon, eng, st, op, arg, orde, const, unused, ops, orders, filt):
    """problems of one base scan"""
    out = []
    n = {'IndexScan': 3, 'AggregatedIndexScan': 2, 'FullyAggregatedIndexScan': 1}.get(ops.get(op.a[0]))
    if n is None:
        return [('op', 'a plan of a triple pattern is not a scan')]
    name = orders.get(arg.a[0], '')
    m = re.fullmatch(r'Order_No_Order_([SPO]{3})', name)
    unordered = bool(m)
    seq = [ORDERS[t] for t in (m.group(1) if m else name[len('Order_'):].split('_'))]
    if len(seq) != 3:
        return [('order', 'unknown order ' + name)]
    full = {'s': 'subject', 'p': 'predicate', 'o': 'object'}
    for c in seq[n:]:
        if c in const:
            out.append(('lost', 'the constant %s is not part of the scan %s %s' % (full[c], ops[op.a[0]], name)))
        elif c not in unused:
            out.append(('lost', 'the variable of the %s is used elsewhere but is not read by %s %s' % (full[c], ops[op.a[0]], name)))
    if not all_ones(orde):
        c = mon.member(eng, st, orde)
        if c is None:
            out.append((None, 'ordering ' + show(orde)))
        elif unordered:
            out.append(('sorted', 'a scan without order %s claims to be sorted by the %s' % (name, full[c])))
        elif c in const or c not in seq[:n] or any(d not in const for d in seq[:seq.index(c)]):
            out.append(('sorted', 'the scan %s %s claims to be sorted by the %s' % (ops[op.a[0]], name, full[c])))
    for v in filt or ():
        if not all_ones(v):
            c = mon.member(eng, st, v)
            if c is None:
                out.append((None, 'filter variable ' + show(v)))
            elif c not in seq[:n] or c in const:
                out.append(('filters', 'filters on the %s are applied to %s %s, which does not read it' % (full[c], ops[op.a[0]], name)))
    return out


def run_scan(rep, mod):
    rep.rule('For each of the 64 cases of constant and unused components of a triple pattern: the scans planned for it are scans of an order and width that read every constant and every used variable, claim at most the ordering by the first variable behind constants, and have filters applied only on variables they read; at least one scan is planned and each points to its pattern.')
    F = fn(rep, mod, 'PlanGen::buildScan')[0]
    rep.fn(F)
    E = enums(mod)
    ops, orders = E['Op'], E['DataOrder']
    for n in ('buildIndexScan', 'buildAggregatedIndexScan', 'buildFullyAggregatedIndexScan'):
        for G in mod.fns.values():
            if G.sname.endswith('::' + n):
                rep.fn(G)
    args = eff.argvec(F)
    types = params(F.dem)
    ni = [i for i, t in enumerate(types) if 'Node' in t][0] + 1
    ii = [i for i, t in enumerate(types) if re.match(r'unsigned|uint', t)][0] + 1
    fl = {c: mod.field('QueryGraph::Node', 'const' + n)[0] for c, n in (('s', 'Subject'), ('p', 'Predicate'), ('o', 'Object'))}
    und = set()
    seen = 0
    for bits in range(8):
        const = {c for i, c in enumerate('spo') if bits >> i & 1}
        for ub in range(8):
            unused = {c for i, c in enumerate('spo') if ub >> i & 1} - const
            if bits & ub:
                continue
            mon = ScanMon(mod, rep, const, unused)
            mon.FILTER = [k for k, v in ops.items() if v == 'Filter'][0]
            mon.F = F
            eng = Engine(mod, mon, max_steps=400000)
            eng.this = mon.this = args[0]
            mon.node = args[ni]
            st = new_state(())
            for c in 'spo':
                eng.store(st, P(mon.node, fl[c]), C(int(c in const), 8))
                # identifiers are not the values that stand for 'none'
                v = eng.load(st, P(mon.node, mod.field('QueryGraph::Node', {'s': 'subject', 'p': 'predicate', 'o': 'object'}[c])[0]), 64)
                eng.assume_cmp(st, 'ult', v, C((1 << 64) - 1 if c in const else (1 << 32) - 2, 64))
            ctx = 'const=%s,unused=%s' % (''.join(sorted(const)) or '-', ''.join(sorted(unused)) or '-')
            try:
                exits = [e for e in eng.run(F, args, st) if e.kind == 'ret']
            except AnalysisLimit as e:
                und.add(str(e))
                continue
            for k, x, msg in mon.bad:
                rep.fail('scan', k, where(F, x), msg)
            if not mon.added:
                rep.decide(False, 'scan', 'none:' + ctx, where(F, F.blocks[0][0]), 'no scan is planned for a pattern') if exits else und.add('no end')
                continue
            for x, q, op, arg, orde, wrapped, cs in mon.added:
                G = mod.fns.get(cs[-1][0], F) if cs else F
                # the outermost call in buildScan tells the scans apart
                if not is_c(op) or not is_c(arg):
                    und.add('operator or order of a scan unknown')
                    continue
                key = '%s:%s' % (ops.get(op.a[0]), orders.get(arg.a[0]))
                xx = x
                wf = F
                if cs:
                    top = cs[0]
                    i = [y for b, y in ssa.Fx(F).insts() if y['k'] == top[2]]
                    if top[1] == F.name and i:
                        xx = i[0]
                    else:
                        wf = G
                v = scan_ok(mon, eng, exits[0].st if exits else st, op, arg, orde, const, unused, ops, orders, mon.filtered.get(q, (None, ()))[1] if hasattr(mon, 'filtered') else ())
                for k, m in v:
                    if k is None:
                        und.add(m)
                    else:
                        rep.fail('scan', '%s:%s' % (k, key), where(wf, xx), m + ' (constants: %s, unused variables: %s)' % (''.join(sorted(const)) or 'none', ''.join(sorted(unused)) or 'none'))
                if not v:
                    rep.ok('scan', key + ':' + ctx)
                    seen += 1
            for e in exits:
                s = e.st
                for x, q, op, arg, orde, wrapped, cs in [mon.added[i] for i in s.mon]:
                    l, r = (eng.load(s, P(q.a[0], mon.pf[n]), 64) for n in ('left', 'right'))
                    okr = r is mon.node or r.op == 'p' and r.a[0] is mon.node and r.a[1] == 0
                    idt = args[ii]
                    okl = l is idt or l.op == 'p' and l.a[0] is idt and l.a[1] == 0 or l.op in ('pv', 'p') and idt in l.a or 'a%d' % ii in show(l) or show(idt) in show(l)
                    if not okr:
                        if is_c(r):
                            rep.fail('pattern', 'right', where(F, x), 'a scan does not refer to its triple pattern')
                        else:
                            und.add('pattern of a scan: ' + show(r))
                    else:
                        rep.ok('pattern', 'right:' + ctx)
    for m in sorted(und):
        rep.undecided('scan', 'buildScan', m)
    rep.need(seen or und, 'a scan of a pattern')


# ---------------------------------------------------------------- pruning of plans
class AddMon(Monitor):
    """one turn of the loops over the kept plans, for an arbitrary place in the list: `first` is the front of the list,
    otherwise the plan before the current one is kept"""

    def __init__(self, mod, rep, first, end):
        self.mod, self.rep, self.first, self.end = mod, rep, first, end
        self.f = {n: mod.field('Plan', n) for n in ('next', 'ordering', 'costs')}
        self.plans = mod.field('PlanGen::Problem', 'plans')[0]
        self.cur, self.last = mk('sym', 'kept', 64), mk('sym', 'before', 64)
        self.heads = {}
        self.viol, self.und, self.done = [], set(), 0

    def protected(self, eng, st, base):
        return True

    def clobbers_world(self, eng, st, inst, fn, args):
        return False

    def inline(self, eng, st, F):
        return Monitor.inline(self, eng, st, F)

    def get(self, eng, st, p, n):
        o, s = self.f[n][:2]
        p = p if p.op == 'p' else P(p, 0)
        return eng.load(st, P(p.a[0], p.a[1] + o), 8 * s if n != 'costs' else 64)

    def same(self, a, b):
        n = lambda p: p.a if p.op == 'p' else (p, 0)
        return n(a) == n(b)

    def canon(self, eng, st, F):
        """an arbitrary place in the list"""
        phis = eng.at_phis
        head = P(self.problem, self.plans)
        it = eng.load(st, head, 64)
        link = head if self.first else P(self.last, self.f['next'][0])
        cur = C(0, 64) if self.end else P(self.cur, 0)
        eng.assume_cmp(st, 'ne', self.cur, C(0, 64))
        for n, (k, v) in enumerate(phis):
            if is_c(v) and v.a[0] == 0:
                if not self.first:
                    phis[n] = (k, P(self.last, 0))
            elif self.same(v, it):
                phis[n] = (k, cur)
            elif self.same(v, head):
                phis[n] = (k, link)
            else:
                # a value that does not change in the loop
                phis[n] = (k, v)
        if not self.first:
            eng.assume_cmp(st, 'ne', self.last, C(0, 64))
            eng.assume_cmp(st, 'ne', self.last, self.cur)
            eng.assume_cmp(st, 'ne', self.last, self.plan)
        eng.assume_cmp(st, 'ne', self.cur, self.plan)
        eng.store(st, link, cur)
        self.link = link

    def at_loop(self, eng, st, F):
        if F is not self.F:
            return
        key = eng.at_header
        if not eng.at_back:
            if key in self.heads:
                raise AnalysisLimit('a loop entered twice')
            st.mon = ('in', ())
            self.canon(eng, st, F)
            self.heads[key] = ([(k, v) for k, v in eng.at_phis], st.copy())
            return
        phis, base = self.heads[key]
        # the invariant for the next plan
        freed = st.mon[1] if st.mon else ()
        nxt = eng.load(base.copy(), P(self.cur, self.f['next'][0]), 64)
        was_freed = any(self.same(p, P(self.cur, 0)) for p in freed)
        now = {k: v for k, v in eng.at_phis}
        at = eng.load(st, self.link, 64)
        moved = self.link if was_freed else P(self.cur, self.f['next'][0])
        x = F.blocks[key][0]
        for k, v in phis:
            w = now[k]
            if self.same(v, P(self.cur, 0)):
                if not self.same(w, nxt):
                    self.viol.append(('link', 'next', x, 'the walk over the kept plans does not go on with the next plan'))
            elif is_c(v) and v.a[0] == 0 or self.same(v, P(self.last, 0)):
                if was_freed:
                    good = self.same(w, v)
                else:
                    good = self.same(w, P(self.cur, 0))
                if not good:
                    self.viol.append(('link', 'before', x, 'the plan before the current one is not the last one kept'))
            elif self.same(v, self.link):
                if not self.same(w, moved):
                    self.viol.append(('link', 'before', x, 'the link to the current plan is not followed'))
        if was_freed:
            if not self.same(at, nxt):
                self.viol.append(('link', 'removed', x, 'a freed plan stays in the list'))
        else:
            if not self.same(at, P(self.cur, 0)):
                self.viol.append(('link', 'kept', x, 'a plan that is not freed is taken out of the list'))
            if not self.same(eng.load(st, P(self.cur, self.f['next'][0]), 64), nxt):
                self.viol.append(('link', 'kept', x, 'the plans behind a kept plan are cut off'))
        self.done += 1
        # arbitrary again
        c = base.copy()
        for a in ('env', 'mem', 'dom', 'rel', 'mon', 'clob'):
            setattr(st, a, getattr(c, a))
        for n, (k, v) in enumerate(phis):
            eng.at_phis[n] = (k, v)

    def least(self, eng, st, a, b):
        """costs of a <= costs of b?"""
        x, y = self.get(eng, st, a, 'costs'), self.get(eng, st, b, 'costs')
        if x is y:
            return True
        for e, v in list(st.dom.items()) + [(None, None)]:
            if e is None:
                continue
            t = v.single() if hasattr(v, 'single') else None
            if t is None or 'fcmp' not in str(e.op):
                continue
            p, l, r = self.fparts(e)
            if p is None or not ({l, r} == {x, y}):
                continue
            if l is y:
                p = {'olt': 'ogt', 'ogt': 'olt', 'ole': 'oge', 'oge': 'ole', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule'}.get(p, p)
            p = p[1:]
            if t == 0:
                p = {'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt', 'eq': 'ne', 'ne': 'eq'}[p]
            if p in ('lt', 'le', 'eq'):
                return True
            if p in ('gt',):
                return False
        return None

    def fparts(self, e):
        a = [t for t in e.a if isinstance(t, E)]
        p = [t for t in e.a if isinstance(t, str)]
        if len(a) == 2 and p and re.fullmatch(r'[ou](lt|le|gt|ge|eq|ne)', p[-1]):
            return p[-1], a[0], a[1]
        return None, None, None

    def on_call(self, eng, st, x, fn, args):
        s = shortname(fn)
        if s.endswith('::free') and ('Pool' in s or 'Container' in s):
            p = args[1]
            cur = P(self.cur, 0)
            plan = P(self.plan, 0)
            if self.same(p, plan):
                keep, how = cur, 'new'
            elif self.same(p, cur):
                keep, how = plan, 'old'
            else:
                self.und.add('a plan that is neither the new one nor the current one is freed')
                return [(st, None)]
            op, ok = self.get(eng, st, p, 'ordering'), self.get(eng, st, keep, 'ordering')
            w = self.f['ordering'][1] * 8
            sub = eng.decide_cmp(st, 'eq', op, ok)
            none = eng.decide_cmp(st, 'eq', op, C((1 << w) - 1, w))
            if not sub and not none:
                self.viol.append(('pruned', how + ':order', x, 'a plan is dropped for one with another ordering'))
            le = self.least(eng, st, keep, p)
            if le is not True:
                self.viol.append(('pruned', how + ':costs', x, 'a plan is dropped for one that may be more expensive'))
            if how == 'old' and st.mon and any(self.same(q, cur) for q in st.mon[1]):
                self.viol.append(('pruned', how + ':twice', x, 'a plan is freed twice'))
            st.mon = ('in', (st.mon[1] if st.mon else ()) + (p,))
            self.done += 1
            return [(st, None)]
        return None


def run_add(rep, mod):
    rep.rule('Pruning, for an arbitrary place in the list of kept plans: a plan is dropped only for a kept plan that costs no more and has the same ordering (or the dropped one has none), it is taken out of the list, all other plans stay in it, and a plan that is not dropped is put in front.')
    F = fn(rep, mod, 'PlanGen::addPlan')[0]
    rep.fn(F)
    args = eff.argvec(F)
    und, n = set(), 0
    for first, end in ((True, False), (False, False), (True, True), (False, True)):
        mon = AddMon(mod, rep, first, end)
        cur = C(0, 64) if end else P(mon.cur, 0)
        mon.F = F
        eng = Engine(mod, mon)
        eng.this = args[0]
        st = new_state(())
        mon.problem, mon.plan = args[1], args[2]
        eng.assume_cmp(st, 'ne', args[1], args[2])
        exits = eng.run(F, args, st)
        head = P(mon.problem, mon.plans)
        for e in exits:
            if e.kind != 'ret':
                continue
            freed = e.st.mon[1] if e.st.mon else ()
            if any(mon.same(p, P(mon.plan, 0)) for p in freed):
                if any(mon.same(p, P(mon.cur, 0)) for p in freed):
                    continue
                if not mon.same(eng.load(e.st, head, 64), cur if first else eng.load(new_state(()), head, 64)):
                    mon.viol.append(('link', 'unchanged', e.inst, 'the list changes although the new plan is dropped'))
                n += 1
                continue
            n += 1
            h = eng.load(e.st, head, 64)
            if not mon.same(h, P(mon.plan, 0)):
                mon.viol.append(('link', 'front', e.inst, 'a plan that is not dropped is not put into the list'))
            else:
                old = cur if first else eng.load(new_state(()), head, 64)
                nx = mon.get(eng, e.st, P(mon.plan, 0), 'next')
                if not mon.same(nx, old) and not mon.same(nx, C(0, 64)):
                    mon.viol.append(('link', 'rest', e.inst, 'the other plans are lost when a plan is put in front: ' + show(nx)))
        for k, key, x, msg in mon.viol:
            rep.fail(k, key, where(F, x), msg)
        und |= mon.und
        for k in ('link', 'pruned'):
            if not any(v[0] == k for v in mon.viol):
                rep.ok(k, ('front' if first else 'middle') + (':end' if end else ''))
        rep.need(mon.done or end, 'a walk over the kept plans')
    rep.need(n, 'an end of the walk')
    for m in und:
        rep.undecided('pruned', 'addPlan', m)


# ---------------------------------------------------------------- orderings
KEEP = {'NestedLoopJoin', 'Filter', 'TableFunction', 'Minus'}
ANY = {'Having', 'Aggregates', 'Singleton'}
NONE = {'HashJoin', 'CartProd', 'Union', 'HashGroupify', 'Subselect', 'ValuesScan', 'GroupBy'}
BINARY = {'NestedLoopJoin', 'MergeJoin', 'HashJoin', 'CartProd', 'Minus', 'MergeUnion', 'Union'}


class Nodes:
    """the plan nodes made in a function: what is stored in their members"""

    def __init__(self, mod):
        self.mod = mod
        self.A = ssa.Assigned(mod, 'Plan', lambda d: d.startswith('StructPool<Plan>::alloc('))
        self.A.solve(list(mod.fns.values()))
        self.off = {n: mod.field('Plan', n)[0] for n in ('op', 'opArg', 'left', 'right', 'ordering', 'next')}
        self.keeps = {}
        self.raw = {'PlanContainer::alloc'}

    def direct(self, F):
        """calls of functions that hand out an unset node"""
        for b, x in ssa.Fx(F).insts():
            if x['op'] in ('call', 'invoke') and x.get('fn') and (self.A.source(self.mod.dem(x['fn'])) or x['fn'] in self.A.ret and self.off['op'] not in self.A.ret[x['fn']]):
                yield b, x

    def of(self, F):
        """{node: {member: [(block, store, value)]}}"""
        R = self.A.roots(F)
        X = ssa.Fx(F)
        out = {x['k']: {} for b, x in self.direct(F)}
        for b, x in X.insts():
            if x['op'] == 'store':
                roots = self.A.look(R, x['o'][1])
                for r, o in roots:
                    if r[0] == 'n' and r[1] in out and (self.A.direct(X, x['o'][1], r) or len(roots) == 1):
                        for n, q in self.off.items():
                            if q == o:
                                out[r[1]].setdefault(n, []).append((b, x, x['o'][0]))
        return out

    def vo(self, X, p):
        """value number of the ordering of a plan"""
        return ('load',) + (X.vn(p), self.off['ordering'])

    def keeper(self, G):
        """parameters whose ordering the plan returned by a function has"""
        if G.name in self.keeps:
            return self.keeps[G.name]
        self.keeps[G.name] = set()
        X = ssa.Fx(G)
        N = self.of(G)
        res = None
        for b, x in X.insts():
            if x['op'] == 'ret' and x.get('o'):
                for a in X.alts(x['o'][0]):
                    s = set()
                    for i, p in enumerate(G.args):
                        if a == ('a', i):
                            s.add(i)
                        elif a[0] == 'i' and a[1] in N and any(X.vn(v) == self.vo(X, ['a', i]) for _, _, v in N[a[1]].get('ordering', ())) and len(N[a[1]].get('ordering', ())) == 1:
                            s.add(i)
                    res = s if res is None else res & s
        self.keeps[G.name] = res or set()
        return self.keeps[G.name]


    def part_sorted(self, X, L, u, nodes, b):
        """does a part of a merge union have the ordering u?"""
        y = X.inst(list(L))
        if L[0] in ('c', 'n'):
            return True
        if y is None:
            return None
        if y['op'] in ('call', 'invoke') and y.get('fn') and L[1] not in nodes:
            return X.vn(y['o'][-1]) == u if 'findOrdering' in self.mod.dem(y['fn']) else None
        if L[1] in nodes:
            return True
        if equal_fact(X, b, self.vo(X, L), u):
            return True
        if y['op'] == 'load':
            z, off = list(X.strip(y['o'][0])), 0
            g = X.inst(z)
            while g is not None and g['op'] == 'getelementptr' and not g['var']:
                off, z = off + g['off'], X.strip(g['o'][0])
                g = X.inst(z)
            if off in (self.off['left'], self.off['right']) and all(q[0] == 'i' and q[1] in nodes for q in X.alts(z)):
                return True
            # an element of a container: do results of findOrdering get into one?
            found = {w['k'] for _, w in X.insts() if w['op'] in ('call', 'invoke') and 'findOrdering' in self.mod.dem(w.get('fn') or '')}
            cells = {tuple(w['o'][1]) for _, w in X.insts() if w['op'] == 'store' and any(q[0] == 'i' and q[1] in found for q in X.alts(w['o'][0]))}
            if any(w['op'] in ('call', 'invoke') and any(tuple(q) in cells for q in w['o']) for _, w in X.insts()):
                return None
            return False
        return None

    def same_order(self, X, u, L, depth=0):
        """is u the ordering of the plan L?"""
        if u == self.vo(X, L):
            return True
        y = X.inst(list(L))
        if y is not None and y['op'] in ('call', 'invoke'):
            G = self.mod.fns.get(y.get('fn'))
            if G is not None and any(self.same_order(X, u, y['o'][i], depth + 1) for i in self.keeper(G)):
                return True
        if y is not None and y['op'] in ('phi', 'select') and depth < 6:
            r = [self.same_order(X, u, q, depth + 1) for q in ([q for _, q in y['o']] if y['op'] == 'phi' else y['o'][1:])]
            if all(r):
                return True
        return False if u[0] == 'load' and u[-1] == self.off['ordering'] else None


def minus1(o):
    return o[0] == 'c' and o[1] in (-1, 0xffffffff, 0xffffffffffffffff)


def equal_fact(X, b, u, v):
    """is u == v known in block b (value numbers)?"""
    for c, t in X.facts(b):
        x = X.inst(c)
        if x is not None and x['op'] == 'icmp' and x['p'] in ('eq', 'ne') and (x['p'] == 'eq') == t:
            l, r = X.vn(x['o'][0]), X.vn(x['o'][1])
            if (l, r) in ((u, v), (v, u)):
                return True
    return False


def sorted_fact(X, b, u):
    """is u known not to be the value for 'not sorted'?"""
    for c, t in X.facts(b):
        x = X.inst(c)
        if x is None or x['op'] != 'icmp' or x['p'] not in ('eq', 'ne') or (x['p'] == 'ne') != t:
            continue
        for l, r in (x['o'], x['o'][::-1]):
            if X.vn(l) == u and minus1(r):
                return True
            y = X.inst(X.strip(l))
            if y is not None and y['op'] == 'xor' and r[0] == 'c' and r[1] == 0 and any(minus1(q) and X.vn(p) == u for p, q in (y['o'], y['o'][::-1])):
                return True
    return False


def run_order(rep, mod):
    rep.rule('Ordering of every plan node: none, or that of the left input for operators that keep it, the join variable of a merge join, whose inputs are two different plans known to be sorted by it, or the common ordering of the parts of a merge union.')
    N = Nodes(mod)
    ops = enums(mod)['Op']
    n = 0
    for F in list(mod.fns.values()):
        if 'PlanContainer::' in F.dem or N.A.source(F.dem):
            continue
        nodes = N.of(F)
        if not nodes:
            continue
        rep.fn(F)
        X = ssa.Fx(F)
        count = {}
        for k, m in nodes.items():
            at = X.d[k][0]
            vals = [a for _, _, v in m.get('op', ()) for a in X.alts(v)]
            names = {ops.get(a[1]) if a[0] == 'c' else None for a in vals}
            base = '%s:%s' % (F.sname.split('(')[0], '+'.join(sorted(str(q) for q in names)))
            count[base] = count.get(base, 0) + 1
            key = '%s#%d' % (base, count[base])
            if not names or None in names:
                rep.undecided('order', key, 'operator of a plan node unknown')
                continue
            if any('Scan' in q and q != 'ValuesScan' for q in names):
                continue
            w = where(F, at)
            lefts = [tuple(v) for _, _, v in m.get('left', ())]
            rights = [tuple(v) for _, _, v in m.get('right', ())]
            if names & BINARY and len(m.get('left', ())) == 1 and len(m.get('right', ())) == 1:
                l, r = X.vn(m['left'][0][2]), X.vn(m['right'][0][2])
                rep.decide(l != r, 'inputs', key, w, 'both inputs of a %s are the same plan' % '/'.join(sorted(names)))
            for b, x, v in m.get('ordering', ()):
                n += 1
                for a in X.alts(v):
                    if minus1(a):
                        rep.ok('order', key)
                        continue
                    u = X.vn(a)
                    good, why = None, ''
                    if names <= KEEP | ANY:
                        r = [N.same_order(X, u, L) for L in lefts]
                        good = None if None in r else all(r)
                        why = 'a %s claims an ordering that is not the one of its left input' % '/'.join(sorted(names))
                    elif names == {'MergeJoin'}:
                        ol = [N.vo(X, L) for L in lefts]
                        orr = [N.vo(X, L) for L in rights]
                        args = [X.vn(t) for _, _, t in m.get('opArg', ())]
                        good = u in ol or u in orr or u in args
                        why = 'a merge join claims an ordering that is not the one of its inputs'
                    elif names == {'MergeUnion'}:
                        good = True
                        for L in [a for v in lefts + rights for a in X.alts(v)]:
                            r = N.part_sorted(X, L, u, nodes, b)
                            if r is not True:
                                good, why = r, 'a part of a merge union is not sorted by its variable'
                                if r is False:
                                    break
                    elif names <= NONE:
                        good = False
                        why = 'a %s does not keep an order but claims one' % '/'.join(sorted(names))
                    if good is None:
                        rep.undecided('order', key, 'ordering of a plan node')
                    else:
                        rep.decide(good, 'order', key, where(F, x), why)
            if 'MergeJoin' in names and len(lefts) == 1 and len(rights) == 1:
                b = X.block(k)
                ol, orr = N.vo(X, lefts[0]), N.vo(X, rights[0])
                for bb, x, v in m.get('opArg', ()):
                    a = X.vn(v)
                    sl = a == ol or equal_fact(X, bb, ol, a) or equal_fact(X, bb, orr, a) and equal_fact(X, bb, ol, orr)
                    sr = a == orr or equal_fact(X, bb, orr, a) or equal_fact(X, bb, ol, a) and equal_fact(X, bb, ol, orr) or a == ol and equal_fact(X, bb, ol, orr)
                    rep.decide(sl and sr, 'merge', key + ':sorted', w, 'a merge join is planned for inputs that are not both sorted by the join variable')
                    rep.decide(any(sorted_fact(X, bb, q) for q in (a, ol, orr)), 'merge', key + ':unordered', w, 'a merge join is planned for inputs that may both be unsorted')
            elif 'MergeJoin' in names:
                rep.undecided('merge', key, 'inputs of a merge join')
    rep.need(n, 'an ordering of a plan node')
    # a plan with a given ordering is one that has it
    for F in mod.fns.values():
        if F.dem.startswith('findOrdering(') or F.sname == 'findOrdering':
            X = ssa.Fx(F)
            rep.fn(F)
            for b, x in X.insts():
                if x['op'] == 'ret':
                    rep.decide(has_order(X, N, x['o'][0], X.vn(['a', len(F.args) - 1]), b, None), 'order', 'findOrdering', where(F, x), 'a plan is returned whose ordering was not compared with the wanted one')


def has_order(X, N, o, v, p, to, seen=frozenset()):
    """is the plan o null or known to have the ordering v, at the end of block p on the way to block to?"""
    o = X.strip(o)
    if o[0] in ('c', 'n'):
        return True
    if any(equal_fact(X, p, X.vn(o), z) or to is not None and cond_edge(X, p, to, X.vn(o), z) for z in (X.vn(['c', 0, 64]), X.vn(['n']))):
        return True
    u = N.vo(X, o)
    if equal_fact(X, p, u, v) or to is not None and cond_edge(X, p, to, u, v):
        return True
    y = X.inst(o)
    if y is None:
        return False
    if y['op'] in ('call', 'invoke') and y.get('fn') == X.F.name:
        # what it finds itself
        return X.vn(y['o'][-1]) == v
    if y['op'] == 'phi':
        return y['k'] in seen or all(has_order(X, N, q, v, b, X.block(y['k']), seen | {y['k']}) for b, q in y['o'])
    if y['op'] == 'select':
        c = X.inst(y['o'][0])
        r = []
        for t, q in ((True, y['o'][1]), (False, y['o'][2])):
            if c is not None and c['op'] == 'icmp' and c['p'] in ('eq', 'ne') and (c['p'] == 'eq') == t and {X.vn(c['o'][0]), X.vn(c['o'][1])} == {N.vo(X, q), v}:
                r.append(True)
            else:
                r.append(has_order(X, N, q, v, p, to, seen))
        return all(r)
    return False


def cond_edge(X, p, b, u, v):
    """is u == v known on the edge p -> b?"""
    t = X.F.blocks[p][-1]
    if t['op'] == 'br' and len(t['s']) == 2 and t['s'][0] != t['s'][1]:
        x = X.inst(t['o'][0])
        if x is not None and x['op'] == 'icmp' and x['p'] in ('eq', 'ne') and (x['p'] == 'eq') == (t['s'][0] == b):
            l, r = X.vn(x['o'][0]), X.vn(x['o'][1])
            return (l, r) in ((u, v), (v, u))
    return False


# ---------------------------------------------------------------- every part of a query is looked at
VROOTS = [r'isUnused', r'collectVariables', r'onstructEdges', r'onstructFilterEdges', r'QueryGraph::Filter::isApplicable', r'QueryGraph::Filter::all']
VSTOP = [r'^([^(]* )?std::(map|set|_Rb_tree|_V2|basic|char_traits|vector<.*>::(vector|~|_M_|operator=|resize|push_back|insert|emplace))']
VINL = [r'QueryGraph::(c_)?(get|projection|order)\w*\(', r'normal_iterator', r'std::vector<.*>::(begin|end|size|empty|operator\[\])\(']


def params(dem):
    """the parameter types of a demangled signature"""
    out, d, cur = [], 0, ''
    s = dem[dem.index('(') + 1:dem.rindex(')')]
    for ch in s:
        d += ch in '<('
        d -= ch in '>)'
        if ch == ',' and not d:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    return out + [cur.strip()]


def vmodule():
    return Module(build.dump(['rdf3x/src/cts/PlanGen.cpp', 'rdf3x/src/cts/QueryGraph.cpp'], VROOTS, stop=VSTOP, inline=VINL))


SIZES = {'unsigned int': 4, 'unsigned': 4, 'uint64_t': 8, 'unsigned long': 8}


def parse(mod, rec, spec):
    """a path such as nodes[].subject in terms of offsets; * is a step through a pointer"""
    out = []
    size = None
    for tok in re.findall(r'\w+|\[\]|\*', spec):
        if tok == '[]':
            out.append('[]')
            t = re.sub(r'^(const )?(class |struct )?', '', t)
            m = re.match(r'std::vector<(.*)>$', t)
            t = m.group(1).strip() if m else ''
            t = re.sub(r', std::allocator<.*', '', t)
            rec = next((r for r in (t, 'QueryGraph::' + t) if r in mod.records), None)
        elif tok == '*':
            out.append('d')
            m = re.search(r'<(.*)>|(\S+) ?\*', t)
            n = (m.group(1) or m.group(2)).strip() if m else ''
            rec = next((r for r in (n, 'QueryGraph::' + n) if r in mod.records), None)
        else:
            f = [(o, ty) for n, o, s, ty in mod.allfields(rec) if n == tok]
            if not f:
                raise KeyError('%s.%s' % (rec, tok))
            t = f[0][1]
            out.append(f[0][0])
            rec = next((r for r in (t, 'QueryGraph::' + t) if r in mod.records), None)
    return norm(tuple(out))


def norm(p):
    out = []
    for s in p:
        if isinstance(s, int) and out and isinstance(out[-1], int):
            out[-1] += s
        else:
            out.append(s)
        if out and out[-1] == 0 and isinstance(out[-1], int):
            out.pop()
    return tuple(out)


class VisitMon(Monitor):
    """which parts of its argument has a function looked at, on every path and in every turn of its loops"""
    fork = True
    unroll = True

    def __init__(self, mod, rep, fam, F, root):
        self.mod, self.rep, self.fam, self.F, self.root = mod, rep, fam, F, root
        self.heads, self.und, self.bad = {}, set(), {}
        self.target = None
        self.ixel = {}
        self.turns, self.ends = [], []
        self.down = {}      # counters that go from the number of elements down to 0
        self.done = False

    def inline(self, eng, st, F):
        return True

    def protected(self, eng, st, base):
        return True

    def clobbers_world(self, eng, st, inst, fn, args):
        return False

    def add(self, st, *f):
        st.mon = tuple(sorted(set(st.mon) | {f}, key=str))

    def path(self, eng, st, e, d=0):
        if d > 12 or not isinstance(e, E):
            return None
        if e is self.root:
            return ()
        if e.op == 'p':
            if e.a[0].op == 'alloca':
                return None
            b = self.path(eng, st, e.a[0], d + 1)
            return None if b is None else norm(b + (e.a[1],))
        if e.op == 'sym' and e.a[0] == 'elem':
            return e.a[1] + ('[]',)
        if e.op == 'ld':
            b = self.path(eng, st, e.a[1], d + 1)
            return None if b is None else b + ('d',)
        if e.op in ('zext', 'trunc', 'sext'):
            return self.path(eng, st, e.a[0], d + 1)
        if e.op == 'pv':
            b = self.path(eng, st, e.a[0], d + 1)
            if b is None or b[-1:] != ('d',):
                return None
            if len(e.a[2]) == 1 and self.index(e.a[2][0][0]) in self.down:
                i, off = self.index(e.a[2][0][0]), e.a[1] + e.a[2][0][1]
                if 0 <= off < e.a[2][0][1]:
                    self.ixel[b[:-1], i] = mk('pv', e.a[0], -e.a[2][0][1], e.a[2])
                    return norm(b[:-1] + ('[]', off))
            elif len(e.a[2]) == 1 and self.index(e.a[2][0][0]) is not None:
                self.ixel[b[:-1], self.index(e.a[2][0][0])] = mk('pv', e.a[0], 0, e.a[2])
                return norm(b[:-1] + ('[]', e.a[1]))
            return norm(b[:-1] + ('[i]', e.a[1]))
        return None

    def index(self, v):
        while v.op in ('zext', 'sext', 'trunc'):
            v = v.a[0]
        return v if v.op == 'sym' and v.a[0] == 'idx' else None

    def counted(self, eng, st, e):
        """the container whose number of elements a term is"""
        while e.op in ('zext', 'sext', 'trunc'):
            e = e.a[0]
        if e.op == 'bin' and e.a[0] in ('sdiv', 'udiv', 'ashr', 'lshr') and is_c(e.a[2]):
            if e.a[1].op == 'bin' and e.a[1].a[0] == 'mul' and e.a[2] in e.a[1].a[1:]:
                return self.counted(eng, st, [q for q in e.a[1].a[1:] if q is not e.a[2]][0])
            e = e.a[1]
            if e.op == 'bin' and e.a[0] == 'sub':
                a, b = self.path(eng, st, e.a[1]), self.path(eng, st, e.a[2])
                if a and b and b[-1] == 'd' and a == norm(b[:-1] + (8,)) + ('d',):
                    return b[:-1]
        return None

    # ---- loops
    def at_loop(self, eng, st, F):
        """one turn for an arbitrary element stands for all turns"""
        key = (tuple(eng.callstack), F.name, eng.at_header)
        if not eng.at_back:
            toks = []
            for n, (k, v) in enumerate(eng.at_phis):
                p = self.path(eng, st, v)
                if p and p[-1] == 'd' and v.op == 'ld':
                    e = mk('sym', 'elem', p[:-1], hash_uid(key))
                    eng.at_phis[n] = (k, e)
                    toks.append((k, e, p[:-1]))
                elif v.op == 'c' and v.a[0] == 0 and v.a[1] in (32, 64):
                    e = mk('sym', 'idx', str(k), hash_uid(key), v.a[1])
                    eng.at_phis[n] = (k, e)
                    toks.append((k, e, None))
                elif v.op == 'bin' and v.a[0] in ('ashr', 'lshr') and self.counted(eng, st, v.a[1]) is not None:
                    # an unrolled search
                    self.add(st, 'unknown', ())
                elif self.counted(eng, st, v) is not None:
                    e = mk('sym', 'idx', str(k), hash_uid(key), width(v))
                    self.down[e] = self.counted(eng, st, v)
                    eng.at_phis[n] = (k, e)
                    toks.append((k, e, None))
                elif k not in F.flags(eng.at_header):
                    # anything else the loop changes
                    eng.at_phis[n] = (k, mk('sym', 'turn', str(k), hash_uid(key), width(v)))
            old = st.mon
            self.add(st, 'loop', key, hash_uid((key, old)))
            self.heads[key, hash_uid((key, old))] = (list(eng.at_phis), st.copy(), toks)
            return
        h = [self.heads[key, f[2]] for f in st.mon if f[0] == 'loop' and f[1] == key]
        if not h:
            raise AnalysisLimit('a loop without an entry')
        phis, base, toks = h[-1]
        if 'std::' in F.dem.split('(')[0] or '__gnu' in F.dem.split('(')[0]:
            # an algorithm of the library: not followed
            self.add(base, 'unknown', ())
            toks = []
        now = dict(eng.at_phis)
        new = frozenset(st.mon) - frozenset(base.mon)
        for k, e, c in toks:
            v = now.get(k)
            if c is None:
                for q in [f for f in new if f[0] == 'in' and f[2] is e]:
                    self.turn(eng, st, F, q[1], self.ixel.get((q[1], e)), v is not None and v.op == 'bin' and v.a[0] == 'add' and v.a[1] is e and is_c(v.a[2]) and v.a[2].a[0] == (-1 if e in self.down else 1), new, e)
                continue
            sz = self.esize.get(c)
            ok = v is not None and v.op == 'p' and v.a[0] is e and v.a[1] > 0 and (sz is None or v.a[1] == sz)
            self.turn(eng, st, F, c, e, ok, new)
        if all(c is None and not any(f[0] == 'in' and f[2] is e for f in new) for k, e, c in toks):
            self.add(base, 'unknown', ())
        # an answer that the loop carries on
        fl = F.flags(eng.at_header)
        kept = {k: v for k, v in eng.at_phis if k in fl and is_c(v)}
        was = {k: v for k, v in phis if k in fl}
        carried = any(v is not was.get(k) for k, v in kept.items())
        if not carried:
            self.hits(F, new)
        c = base.copy()
        for a in ('env', 'mem', 'dom', 'rel', 'mon', 'clob'):
            setattr(st, a, getattr(c, a))
        if carried:
            for f in new:
                if f[0] == 'hit':
                    self.add(st, *f)
        for n, (k, v) in enumerate(phis):
            eng.at_phis[n] = (k, kept.get(k, v))

    def turn(self, eng, st, F, c, e, ok, facts, tok=None):
        for kind, name, req, excuse in self.reqs:
            conts = [i for i, t in enumerate(req) if t == '[]']
            if not any(req[:i] == c for i in conts):
                continue
            good = self.fam['stop'] is not None and any(f[0] == 'hit' for f in st.mon) or ok and bool(self.seen(kind, req, facts) or excuse and e is not None and self.excused(eng, st, excuse, e))
            inner = [req[:i] for i in conts if len(c) < i] if ok else []
            self.turns.append((kind, name, tok or e, c, good, inner, facts, 'some elements are passed over' if ok else 'a loop does not go from one element to the next', self.unknown(facts, req) or e is None))

    def finish(self, eng, st, F):
        facts = frozenset(st.mon)
        self.done = True
        if eng.decide_cmp(st, 'eq', self.root, C(0, 64)) or any(eng.decide_cmp(st, 'eq', self.root, o) for o in self.same):
            return
        for kind, name, req, excuse in self.reqs:
            conts = [i for i, t in enumerate(req) if t == '[]']
            if self.seen(kind, req, facts):
                continue
            if excuse and (not conts or 'd' in req[:conts[0]]) and self.excused(eng, st, excuse, self.root):
                continue
            self.ends.append((kind, name, req[:conts[0]] if conts else None, facts, self.unknown(facts, req)))
        self.hits(F, facts)

    def judge(self, F):
        """all turns of a loop have to be good for its end to count"""
        failed, why, dim = set(), {}, set()

        def walked(kind, name, c, facts):
            return any(f[0] == 'done' and f[1] == c and (kind, name, f[2], c) not in failed for f in facts)
        more = True
        while more:
            more = False
            for kind, name, e, c, good, inner, facts, text, unknown in self.turns:
                k = (kind, name, e, c)
                if k in failed or good or any(walked(kind, name, i, facts) for i in inner):
                    continue
                failed.add(k)
                more = True
                # why an inner walk does not count matters more
                t = [why[q] for q in why if any(f[0] == 'done' and f[1] in inner and q == (kind, name, f[2], f[1]) for f in facts)]
                why[k] = t[0] if t else (text, unknown)
        for kind, name, c, facts, unknown in self.ends:
            if c is not None and walked(kind, name, c, facts):
                continue
            t = [why[q] for q in why if any(f[0] == 'done' and f[1] == c and q == (kind, name, f[2], c) for f in facts)]
            if unknown or t and all(u for m, u in t):
                self.und.add('%s: %s' % (F.dem.split('(')[0], name))
            else:
                self.report(F, name, ([m for m, u in t if not u] or [self.fam['text']])[0])

    def hits(self, F, facts):
        if self.fam['stop'] is not None and any(f[0] == 'hit' for f in facts) and ('unknown', ()) not in facts:
            self.report(F, 'answer', 'the answer for a part is not taken over')

    def seen(self, kind, req, facts):
        if kind != 'obj':
            return (kind, req + ('d',)) in facts or req[-1:] == ('[]',) and ('begin', req[:-1], kind) in facts
        return any(f[0] == 'obj' and f[1][:len(req)] == req for f in facts)

    def unknown(self, facts, req):
        for f in facts:
            if f[0] == 'unknown' and (not f[1] or f[1][:len(req)] == req[:len(f[1])]):
                return True
            # elements reached in another way than by a walk
            if f[0] in ('val', 'own', 'out', 'obj') and '[i]' in f[1] and f[1][:f[1].index('[i]')] == req[:f[1].index('[i]')]:
                return True
        return False

    def on_branch(self, eng, st, inst, cond, taken):
        self.path(eng, st, cond)
        # the end of a walk over a container
        if cond.op == 'icmp':
            for a, b in ((cond.a[1], cond.a[2]), (cond.a[2], cond.a[1])):
                if a.op == 'sym' and a.a[0] == 'elem':
                    p = self.path(eng, st, b)
                    if p == norm(a.a[1] + (8,)) + ('d',) and eng.decide_cmp(st, 'eq', a, b):
                        self.add(st, 'done', a.a[1], a)
            for a, b, less in ((cond.a[1], cond.a[2], ('ult', 'slt', 'ne')), (cond.a[2], cond.a[1], ('ugt', 'sgt', 'ne'))):
                i, c = self.index(a), self.counted(eng, st, b)
                if i in self.down:
                    if not is_c(b) or b.a[0]:
                        self.add(st, 'unknown', self.down[i])
                        continue
                    t = eng.decide_cmp(st, 'eq', i, b)
                    self.add(st, *(('unknown', self.down[i]) if t is None else ('done', self.down[i], i) if t else ('in', self.down[i], i)))
                elif i is not None and c is None:
                    # counts something else
                    self.add(st, 'unknown', ())
                elif i is not None:
                    inside = cond.a[0] in less and taken or cond.a[0] == 'eq' and not taken
                    outside = cond.a[0] in less and not taken or cond.a[0] == 'eq' and taken
                    if inside:
                        self.add(st, 'in', c, i)
                    elif outside:
                        self.add(st, 'done', c, i)
                    else:
                        self.add(st, 'unknown', c)
        self.compared(eng, st, inst, cond, taken)

    def compared(self, eng, st, inst, cond, taken):
        if self.fam['value'] != 'compare' or cond.op != 'icmp' or cond.a[0] not in ('eq', 'ne'):
            return
        for a, b in ((cond.a[1], cond.a[2]), (cond.a[2], cond.a[1])):
            p = self.path(eng, st, a)
            if p and p[-1] == 'd' and self.is_val(b):
                self.add(st, 'val', p)
                if (cond.a[0] == 'eq') == taken:
                    self.add(st, 'hit', p)

    def to(self, target):
        """which of the sets a variable is put into"""
        if self.fam['name'] != 'constructEdges':
            return 'val'
        return 'out' if target is self.out else 'own'

    def is_val(self, b):
        while b.op in ('zext', 'trunc'):
            b = b.a[0]
        return b is self.val

    # ---- calls
    def on_call(self, eng, st, x, fn, args):
        if re.match(r'([^(]*[ >&*])?(std::(find|any_of|all_of|none_of|for_each|count)|std::__)', fn):
            self.add(st, 'unknown', ())
        if re.search(self.fam['visit'], fn) and not fn.startswith('std::') and 'lambda' not in fn and '$_' not in fn:
            i = 0
            p = self.path(eng, st, args[i])
            if p is None:
                self.add(st, 'unknown', ())
            else:
                self.add(st, 'obj', p)
            if x['t'] in ('i1', 'i8'):
                w = tw(x['t'])
                s2 = st.copy()
                self.add(s2, 'hit', p or ())
                return [(s2, C(self.fam['stop'], w)), (st, C(1 - self.fam['stop'], w))]
            return [(st, eng.fresh(st, x, 'visited', 64) if x['t'] != 'v' else None)]
        if self.fam['value'] == 'insert' and re.search(r'std::set<.*>::(insert|emplace)', fn):
            own = self.target is None or args[0] is self.target
            for a in args[1:] if x.get('t') != 'v' or len(args) > 2 else args[1:]:
                for p in (self.path(eng, st, a), self.path(eng, st, eng.load(st, a, 32)) if a.op in ('p', 'arg', 'ld') else None):
                    if p is not None and own:
                        self.add(st, self.to(args[0]), p if p[-1] == 'd' else p + ('d',))
                        if p[-1] == 'd':
                            self.add(st, 'begin', p[:-1], self.to(args[0]))
            return [(st, eng.fresh(st, x, 'insert', 64) if x['t'] != 'v' else None)] if x['t'] != 'agg' else None
        if self.fam['value'] == 'count' and re.search(r'std::set<.*>::(count|find|contains)', fn) and 'count' in fn:
            p = self.path(eng, st, args[1])
            q = self.path(eng, st, eng.load(st, args[1], 32))
            for t in (p + ('d',) if p is not None else None, q):
                if t:
                    self.add(st, 'val', t)
            s2 = st.copy()
            self.add(s2, 'hit', p or q or ())
            return [(s2, C(0, 64)), (st, C(1, 64))]
        if re.search(r'std::vector<std::set<.*::(resize|vector)\(unsigned long', fn) and len(args) > 1 and args[0].op == 'p' and args[0].a[0].op == 'alloca':
            # as many elements as are asked for
            m = mk('sym', 'list', args[0].a[0], args[0].a[1])
            eng.store(st, P(args[0], 0), P(m, 0))
            eng.store(st, P(args[0], 8), eng.gep(P(m, 0), 0, [(args[1], 48)]))
            return [(st, None)]
        if re.search(r'std::vector<.*>::vector\(std::vector', fn) and args[0].op == 'p' and args[0].a[0].op == 'alloca':
            p = self.path(eng, st, args[1])
            if p is not None:
                # the copy has the same elements
                for k in (0, 8, 16):
                    eng.store(st, P(args[0], k), eng.load(st, P(args[1], k), 64))
                return [(st, None)]
        if x.get('fn') and not (self.mod.fns.get(x['fn']) and self.mod.fns[x['fn']].blocks) and not fn.startswith('llvm.'):
            if '::~' in fn or 'shared_ptr' in fn and '~' in fn:
                return [(st, None)]
            for a in args:
                p = self.path(eng, st, a)
                if p is not None and self.fam.get('target') != a:
                    self.add(st, 'unknown', p)
        return None

    # ---- requirements
    def excused(self, eng, st, excuse, el):
        for off, val in excuse.get('flags', ()):
            if self.flag(eng, st, el, off, val):
                return True
        if excuse.get('null') is not None:
            v = eng.load(st, eng.gep(el, excuse['null'], ()), 64)
            if eng.decide_cmp(st, 'eq', v, C(0, 64)):
                return True
        if excuse.get('same') is not None:
            for o in excuse['same']:
                if eng.decide_cmp(st, 'eq', el if excuse.get('at') is None else P(el, excuse['at']), o) or eng.decide_cmp(st, 'eq', P(el, 0), o):
                    return True
        for off, p, val in excuse.get('cmp', ()):
            v = eng.load(st, eng.gep(el, off, ()), 32)
            if eng.decide_cmp(st, p, v, C(val, 32)):
                return True
        return False

    def flag(self, eng, st, el, off, val):
        v = eng.load(st, eng.gep(el, off, ()), 8)
        t = eng.decide(st, eng.ext('trunc', v, 8, 1))
        if t is None:
            t2 = eng.decide_cmp(st, 'eq', v, C(val, 8))
            return bool(t2)
        return t == bool(val)

    def report(self, F, name, msg):
        self.bad.setdefault((name, msg), F)


def run_visits(rep, mod0):
    rep.rule('The functions that ask whether a variable is used, that collect the variables of a part of a query, that ask whether a filter can be applied and that look for patterns in filters look at every part that can mention a variable: on every path that does not stop early with the final answer, in every turn of every loop, and all elements of every container; the answer for a part is taken over.')
    mod = vmodule()
    f = lambda r, n: mod.field(r, n)[0]
    en = filter_types()
    nodeflags = {'subject': 'constSubject', 'predicate': 'constPredicate', 'object': 'constObject'}
    FR, TR, SR, QR = 'QueryGraph::Filter', 'QueryGraph::TableFunction', 'QueryGraph::SubQuery', 'QueryGraph'
    args = [('obj', 'arg%d*' % i, {'null': f(FR, 'arg%d' % i)}) for i in (1, 2, 3, 4)]
    subs = [('obj', n + '*', {'null': f(FR, n)}) for n in ('subquery', 'subpattern')]
    tv = en.get('Variable')
    isvar = {'cmp': [(f(FR, 'type'), 'ne', tv)]}
    nodes = [('val', 'nodes[].' + n, {'flags': [(f('QueryGraph::Node', c), 1)]}) for n, c in nodeflags.items()]
    query = [('val', 'projection[]', None), ('val', 'order[].id', None), ('val', 'groupby[]', None), ('obj', 'having[]', None), ('obj', 'assignments[]', None), ('obj', 'query', None)]
    inner = [('obj', 'optional[]', None), ('obj', 'unions[][]', None), ('obj', 'minuses[]*', None)]
    fams = [
        dict(name='isUnused', visit=r'(^|[ :])isUnused\(', value='compare', stop=0, final=1, text='a variable counts as unused although not everything was looked at',
             reqs={FR: [('val', 'id', isvar)] + args + subs, TR: [('obj', 'associatedFilter*', {'null': f(TR, 'associatedFilter')}), ('val', 'input[].id', None)],
                   SR: [('obj', 'filters[]', None), ('obj', 'tableFunctions[]', None), ('obj', 'subqueries[]*', None), ('val', 'valueNodes[].variables[]', None)] + nodes + inner, QR: query}),
        dict(name='collectVariables', visit=r'(^|[ :])collectVariables\(', value='insert', stop=None, final=None, text='variables are not collected',
             reqs={FR: [('val', 'id', isvar)] + args + subs, TR: [('obj', 'associatedFilter*', {'null': f(TR, 'associatedFilter')}), ('val', 'input[].id', {'cmp': [(f(TR + '::Argument', 'id'), 'eq', -1)]}), ('val', 'output[]', None)],
                   SR: [('obj', 'filters[]', None), ('obj', 'tableFunctions[]', None), ('obj', 'subqueries[]*', None), ('val', 'valueNodes[].variables[]', None)] + nodes + inner, QR: query}),
        dict(name='isApplicable', visit=r'QueryGraph::Filter::isApplicable\(', value='count', stop=0, final=1, text='a filter counts as applicable although not everything was looked at',
             reqs={FR: [('val', 'id', isvar)] + [(k, n, dict(e, **isvar2(isvar, en))) for k, n, e in args] + [('obj', 'subpattern*', dict(subs[1][2], **isvar2(isvar, en))), ('val', 'subquery*projection[]', dict(subs[0][2], **isvar2(isvar, en)))]}),
        dict(name='constructFilterEdges', visit=r'construct(Filter)?Edges\(', value='none', stop=None, final=None, text='the patterns of a filter are not joined',
             reqs={FR: args + [subs[1]]}),
        dict(name='constructEdges', visit=r'onstruct(Filter)?Edges\(', value='insert', stop=None, final=None, text='not all parts are joined',
             reqs={SR: [('out', n, e) for k, n, e in nodes] + [('own', n, e) for k, n, e in nodes] +
                   [('own', 'subqueries[]*projection[]', None), ('own', 'valueNodes[].variables[]', None), ('out', 'valueNodes[].variables[]', None)] +
                   [('obj', n, None) for n in ('filters[]', 'optional[]', 'unions[][]', 'minuses[]*')]}),
    ]
    n = 0
    for fam in fams:
        for F in mod.fns.values():
            if 'lambda' in F.dem or '$_' in F.dem:
                continue
            if not re.search({'constructFilterEdges': r'constructFilterEdges\(', 'constructEdges': r'^constructEdges\('}.get(fam['name'], fam['visit']), F.dem) or not F.blocks:
                continue
            par = params(F.dem)
            rec = FR if 'isApplicable' in fam['name'] else re.sub(r'( const)?[&*]$', '', par[0])
            if rec not in fam['reqs']:
                continue
            rep.fn(F)
            a = eff.argvec(F)
            st = new_state(())
            mon = VisitMon(mod, rep, fam, F, a[0])
            eng = Engine(mod, mon, exit_cap=200)
            eng.this = mon.this = a[0]
            mon.val = a[-1]
            mon.out = a[1] if len(a) > 1 else None
            mon.reqs, mon.esize = [], {}
            mon.same = [q for q, t in zip(a[1:], par[1:]) if 'Node' in t or t.startswith('void')]
            short = '%s(%s)' % (fam['name'], rec.split('::')[-1])
            for kind, name, exc in fam['reqs'][rec]:
                try:
                    req = parse(mod, rec, name)
                except (KeyError, AttributeError, TypeError) as e:
                    rep.undecided('visit', short + ':' + name, 'the member is gone')
                    continue
                exc = dict(exc or {})
                # what the caller excludes
                exc['same'] = mon.same
                mon.reqs.append((kind, name, req, exc))
            try:
                for e in eng.run(F, a, st):
                    if e.kind != 'ret':
                        continue
                    v = e.val
                    if fam['final'] is not None and v is not None:
                        t = eng.decide(e.st, v if width(v) == 1 else eng.ext('trunc', v, width(v), 1)) if not is_c(v) else bool(v.a[0] & 1)
                        if t is False:
                            continue
                    mon.finish(eng, e.st, F)
            except AnalysisLimit as e:
                rep.undecided('visit', short, str(e))
                continue
            if not mon.done:
                rep.undecided('visit', short, 'no way to the end was followed')
                continue
            mon.judge(F)
            for name in [r[1] for r in mon.reqs] + ['answer']:
                v = [m for (nm, m) in mon.bad if nm == name]
                if v:
                    rep.fail('visit', short + ':' + name, where(F, F.blocks[0][0]), v[0] + ': ' + name)
                else:
                    rep.ok('visit', short + ':' + name)
                n += 1
            for m in sorted(mon.und):
                rep.undecided('visit', short, m)
    rep.need(n, 'a function that looks at the parts of a query')
    # the variables a union shares with the rest are looked for in the whole query
    q = mod0.field('PlanGen', 'fullQuery')[0] if mod0 is not None else 0
    for F in list(mod0.fns.values()) if mod0 is not None else ():
        if not F.sname.startswith('PlanGen::'):
            continue
        X = ssa.Fx(F)
        calls = [x for b, x in X.insts() if x['op'] in ('call', 'invoke') and re.match(r'collectVariables\(QueryGraph const&', mod0.dem(x.get('fn') or ''))]
        if not calls:
            continue
        rep.fn(F)
        ex = [[a for a in X.alts(x['o'][-1])] for x in calls]
        for i, x in enumerate(calls):
            rep.decide(X.vn(x['o'][0]) == ('load', X.vn(['a', 0]), q), 'visit', '%s:whole' % F.sname.split('(')[0], where(F, x), 'the variables used outside of a part are not those of the whole query')
            o = x['o'][-1]
            rep.decide(any(o[0] == 'a' for o in ex[i]), 'visit', '%s:except' % F.sname.split('(')[0], where(F, x), 'the part itself is not left out')


def run_filters(rep, mod):
    rep.rule('Filters: a filter is put on a scan only after it was found to be applicable to the variables of this scan; a NOT EXISTS filter, and no other, gets the plan of its own pattern.')
    en = filter_types()
    off = {n: mod.field('FilterArgs', n)[0] for n in ('filter', 'plan')}
    toff = mod.field('QueryGraph::Filter', 'type')[0]
    n = 0
    for F in list(mod.fns.values()):
        X = ssa.Fx(F)
        made = {x['k'] for b, x in X.insts() if x['op'] in ('call', 'invoke') and re.search(r'(StructPool<FilterArgs>::alloc|PlanContainer::allocFilterArgs)\(', callee(mod, x))}
        if not made or 'PlanContainer::' in F.dem:
            continue
        rep.fn(F)
        name = F.sname.split('(')[0]
        val = {}
        for b, x in X.insts():
            if x['op'] == 'store':
                p, o = X.place(x['o'][1])
                if p[0] == 'i' and p[1] in made and o in off.values():
                    val.setdefault(p[1], {}).setdefault(o, []).append((b, x))
        for i, k in enumerate(sorted(val)):
            m = val[k]
            if len(m.get(off['filter'], ())) != 1 or len(m.get(off['plan'], ())) != 1:
                rep.undecided('filters', '%s#%d' % (name, i), 'arguments of a filter')
                continue
            b, x = m[off['filter']][0]
            f = X.vn(x['o'][0])
            n += 1
            if re.search(r'buildFilters', name):
                tests = [X.inst(c) for c, t in X.facts(b) if t and X.inst(c) is not None and 'isApplicable(' in callee(mod, X.inst(c))]
                tests += [X.inst(q[0]) for q in ()]
                rep.decide(any(X.vn(y['o'][0]) == f for y in tests), 'filters', '%s#%d:applicable' % (name, i), where(F, x), 'a filter is put on a scan without a test that it is applicable')
            b2, x2 = m[off['plan']][0]
            want = en.get('Builtin_notexists')
            r = filter_plan(X, mod, x2['o'][0], b2, None, f, toff, want)
            if r is None and X.strip(x2['o'][0])[0] in ('c', 'n') and not any(X.inst(c) is not None and X.inst(c)['op'] in ('call', 'invoke', 'phi') and not re.search(r'isApplicable|operator|count', callee(mod, X.inst(c))) for c, t in X.facts(b2)):
                r = False
            if r is None:
                rep.undecided('filters', '%s#%d:plan' % (name, i), 'the plan of a filter')
            else:
                rep.decide(r, 'filters', '%s#%d:plan' % (name, i), where(F, x2), 'a NOT EXISTS filter has no plan or another filter has one')
    rep.need(n, 'the arguments of a filter')


def filter_plan(X, mod, o, p, to, f, toff, want):
    o = X.strip(o)
    known = None
    conds = list(X.facts(p))
    t = X.F.blocks[p][-1]
    if to is not None and t['op'] == 'br' and len(t['s']) == 2 and t['s'][0] != t['s'][1]:
        conds.append((t['o'][0], t['s'][0] == to))
    for c, truth in conds:
        x = X.inst(c)
        if x is None or x['op'] != 'icmp' or x['p'] not in ('eq', 'ne'):
            continue
        for l, r in (x['o'], x['o'][::-1]):
            if r[0] == 'c' and X.vn(l) == ('load', f, toff):
                if r[1] == want:
                    known = (x['p'] == 'eq') == truth
                elif (x['p'] == 'eq') == truth:
                    known = False
    x = X.inst(o)
    if o[0] in ('c', 'n'):
        return None if known is None else not known
    if x is None:
        return None
    if x['op'] == 'phi':
        r = [filter_plan(X, mod, v, q, X.block(x['k']), f, toff, want) for q, v in x['o']]
        return False if False in r else None if None in r else True
    if x['op'] in ('call', 'invoke') and 'buildFilterPlan' in callee(mod, x):
        ok = X.vn(x['o'][-1]) == f
        k2 = filter_plan(X, mod, ['c', 0, 64], X.block(x['k']), None, f, toff, want)
        return None if k2 is None and ok else bool(ok and k2 is False)
    return None


# ---------------------------------------------------------------- which parts are joined
def callee(mod, x):
    n = x.get('fn') or (x['fp'][1] if x.get('fp') and x['fp'][0] == 'g' else '')
    return mod.dem(n) if n else ''


def lin(X, o, kind, depth=0):
    """an integer as {term: factor}: ('size', kind), ('i', phi) and 1; None if it is something else"""
    o = X.strip(o)
    if o[0] == 'c':
        return {1: o[1]} if o[1] else {}
    x = X.inst(o)
    if x is None or depth > 12:
        return None
    if x['op'] == 'phi':
        return {('i', x['k']): 1}
    if x['op'] in ('add', 'sub'):
        l, r = (lin(X, q, kind, depth + 1) for q in x['o'])
        if l is None or r is None:
            k = container_size(X, o, kind)
            return {('size', k): 1} if k is not None else None
        out = dict(l)
        for t, n in r.items():
            out[t] = out.get(t, 0) + (n if x['op'] == 'add' else -n)
        return {t: n for t, n in out.items() if n}
    k = container_size(X, o, kind)
    return {('size', k): 1} if k is not None else None


def container_size(X, o, kind):
    x = X.inst(X.strip(o))
    if x is not None and x['op'] in ('call', 'invoke') and re.search(r'std::vector<.*>::size\(', callee(X.F.mod, x)):
        return kind(X.place(x['o'][0]))
    if x is not None and x['op'] in ('sdiv', 'udiv', 'ashr', 'lshr'):
        x = X.inst(X.strip(x['o'][0]))
    if x is None or x['op'] != 'sub':
        return None
    e, b = X.inst(X.strip(x['o'][0])), X.inst(X.strip(x['o'][1]))
    if e is None or b is None or e['op'] != 'load' or b['op'] != 'load':
        return None
    (pe, oe), (pb, ob) = X.place(e['o'][0]), X.place(b['o'][0])
    return kind((pb, ob)) if pe == pb and oe == ob + 8 else None


def element(X, o, kind):
    """(kind of container, linear index) of the place of an element"""
    x = X.inst(X.strip(o))
    if x is None:
        return None
    if x['op'] in ('call', 'invoke') and re.search(r'std::vector<.*>::(operator\[\]|at)\(', callee(X.F.mod, x)):
        return kind(X.place(x['o'][0])), lin(X, x['o'][1], kind)
    if x['op'] == 'getelementptr' and len(x['var']) == 1 and not x['off']:
        b = X.inst(X.strip(x['o'][0]))
        if b is not None and b['op'] == 'load':
            return kind(X.place(b['o'][0])), lin(X, x['var'][0][0], kind)
    return None


def bound(X, k, kind):
    """(init, step, linear limit) of a counting loop"""
    x, b, _ = X.d[k]
    inc = {True: [], False: []}
    for p, o in x['o']:
        y = X.inst(X.strip(o))
        back = y is not None and y['op'] == 'add' and any(X.strip(q) == ['i', k] or tuple(X.strip(q)) == ('i', k) for q in y['o'])
        inc[back].append(o)
    if len(inc[True]) != 1 or len(inc[False]) != 1:
        return None
    st = lin(X, inc[True][0], kind)
    t = X.F.blocks[b][-1]
    if t['op'] != 'br' or len(t['s']) != 2:
        return None
    c = X.inst(t['o'][0])
    if c is None or c['op'] != 'icmp':
        return None
    l, r = lin(X, c['o'][0], kind), lin(X, c['o'][1], kind)
    p = c['p']
    if r == {('i', k): 1}:
        l, r, p = r, l, {'ugt': 'ult', 'sgt': 'slt'}.get(p, p)
    if l != {('i', k): 1} or p not in ('ult', 'slt', 'ne'):
        return None
    return lin(X, inc[False][0], kind), st == {('i', k): 1, 1: 1}, r


def walked(X, b, kind):
    """the container a loop with header b walks over"""
    t = X.F.blocks[b][-1]
    if t['op'] != 'br' or len(t['s']) != 2:
        return None
    c = X.inst(t['o'][0])
    if c is None or c['op'] != 'icmp':
        return None
    for o in c['o']:
        x = X.inst(X.strip(o))
        if x is not None and x['op'] == 'load':
            p, off = X.place(x['o'][0])
            k = kind((p, off - 8))
            if k is not None:
                return k
        l = lin(X, o, kind)
        if l and len(l) == 1 and list(l)[0] != 1 and list(l)[0][0] == 'size':
            return list(l)[0][1]
    return None


PARTS = ('nodes', 'optional', 'unions', 'subqueries', 'valueNodes')


def numbering(rep, mod, names):
    """the order in which the planner numbers the parts of a group"""
    F = fn(rep, mod, 'PlanGen::translate_int')[0]
    X = ssa.Fx(F)
    group = {('a', 1)}
    local = {}

    def kind(place):
        p, off = place
        if p in group:
            return names.get(off)
        if off == 0 and p in local:
            return local[p]
        return None
    # local lists that get one element per part
    for b, x in X.insts():
        if x['op'] in ('call', 'invoke') and re.search(r'push_back', callee(mod, x)):
            for h, body in F.loops.items() if isinstance(F.loops, dict) else ():
                if b in body:
                    w = walked(X, h, kind)
                    if w:
                        local.setdefault(X.vn(x['o'][0]), w)
    cur = {x['k']: x for b, x in X.insts() if x['op'] == 'phi' and x['t'] in ('i32', 'i64')}
    start = [x['o'][-1] for b, x in X.insts() if x['op'] in ('call', 'invoke') and 'buildScan' in callee(mod, x)]
    if not start:
        return None, F, {}, mod
    k = X.strip(start[0])
    out, chain = [], {}
    while k is not None and k[0] == 'i' and k[1] in cur:
        w = walked(X, X.block(k[1]), kind)
        if w is None or w in out:
            break
        out.append(w)
        chain[k[1]] = w
        nxt = [q for q, y in cur.items() if q != k[1] and any(tuple(X.strip(o)) == tuple(k) for _, o in y['o']) and len(y['o']) == 2 and not any(tuple(X.strip(o)) == tuple(k) for p, o in cur[k[1]]['o'])]
        nxt = [q for q in nxt if walked(X, X.block(q), kind)]
        k = ['i', min(nxt)] if nxt else None
    return out, F, chain, mod


def run_edges(rep, mod0):
    rep.rule('Joins between the parts of a group: for every two parts that have a variable in common there is an edge, whose ends are the numbers the planner gives to these two parts.')
    mod = vmodule()
    names = {mod.field('QueryGraph::SubQuery', n)[0]: n for n in PARTS + ('tableFunctions',)}
    order, T, chain, M = numbering(rep, Module(build.dump(['rdf3x/src/cts/PlanGen.cpp'], [r'PlanGen::translate_int'], stop=VSTOP + [r'PlanGen::build'], inline=VINL)), names)
    rep.fn(T)
    if not order or set(PARTS) - set(order):
        rep.undecided('edges', 'numbering', 'the numbers of the parts are not recognised: %s' % (order,))
        return
    rep.ok('edges', 'numbering:' + ','.join(order))
    problem_numbers(rep, mod0, M, T, chain)
    F = next((F for F in mod.fns.values() if re.match(r'constructEdges\(', F.dem) and F.blocks), None)
    rep.need(1 if F is not None else 0, 'the function that joins the parts of a group')
    rep.fn(F)
    X = ssa.Fx(F)
    local = {}

    def kind(place):
        p, off = place
        if p == ('a', 0):
            return names.get(off)
        return local.get(p) if off == 0 else None
    for b, x in X.insts():
        if x['op'] in ('call', 'invoke') and re.search(r'std::vector<std::set<.*::(resize|vector)\(unsigned long', callee(mod, x)) and len(x['o']) >= 2:
            l = lin(X, x['o'][1], kind)
            if l and len(l) == 1 and list(l.values()) == [1] and list(l)[0] != 1 and list(l)[0][0] == 'size':
                local[X.vn(x['o'][0])] = list(l)[0][1]
    base = {k: {('size', q): 1 for q in order[:i]} for i, k in enumerate(order)}
    found, und, sites = {}, False, 0
    for b, x in X.insts():
        g = callee(mod, x) if x['op'] in ('call', 'invoke') else ''
        if not g:
            continue
        if not re.match(r'QueryGraph::Edge::Edge\(unsigned', g):
            G = mod.fns.get(x.get('fn'))
            if G is not None and G is not F and G.blocks and any('QueryGraph::Edge::Edge(unsigned' in callee(mod, y) for q, y in ssa.Fx(G).insts() if y['op'] in ('call', 'invoke')):
                und = True
            continue
        sites += 1
        w = where(F, x)
        test = [X.inst(c) for c, t in X.facts(b) if t and X.inst(c) is not None and 'intersects(' in callee(mod, X.inst(c))]
        if not test:
            # other ways to test for a common variable are not followed
            und = True
            rep.undecided('edges', 'site:%d' % sites, 'how common variables are found')
            continue
        ends = [element(X, o, kind) for o in test[-1]['o'][:2]]
        nums = [lin(X, o, kind) for o in x['o'][1:3]]
        if None in ends or None in nums or any(e[0] is None or e[1] is None for e in ends):
            und = True
            rep.undecided('edges', 'site:%d' % sites, 'the ends of an edge')
            continue
        name = '%s-%s' % tuple(e[0] for e in ends)
        ok = True
        for (k, i), v in zip(ends, nums):
            want = dict(base[k])
            for t, n in i.items():
                want[t] = want.get(t, 0) + n
            ok = ok and v == want
        if not ok and [{**base[k], **i} for k, i in ends] == nums[::-1]:
            ok = True
        rep.decide(ok, 'edges', 'ends:' + name, w, 'the ends of an edge are not the numbers of the parts that have a variable in common')
        same = any(tuple(map(str, o)) == tuple(map(str, q)) for o in (x['o'][3],) for q in (test[-1]['o'][2],))
        rep.decide(same, 'edges', 'common:' + name, w, 'the variables of an edge are not the common ones')
        # all pairs
        r = all_pairs(X, ends, kind)
        extra = [c for c, t in X.facts(b) if X.inst(c) is not test[-1] and not counting(X, c, kind)]
        pair = tuple(sorted((e[0] for e in ends), key=order.index))
        if r is None or extra:
            found.setdefault(pair, None)
        elif r or not found.get(pair):
            found[pair] = (r, w)
    rep.need(sites + und, 'an edge between two parts')
    for i, k in enumerate(PARTS):
        for q in PARTS[i:]:
            pair = tuple(sorted((k, q), key=order.index))
            key = 'pair:%s-%s' % pair
            if pair not in found:
                if und:
                    rep.undecided('edges', key, 'edges are made elsewhere')
                else:
                    rep.fail('edges', key, where(F, F.blocks[0][0]), 'two parts with a common variable are not joined: %s and %s' % pair)
            elif found[pair] is None:
                rep.undecided('edges', key, 'which pairs are looked at')
            else:
                rep.decide(found[pair][0], 'edges', key, found[pair][1], 'not all pairs of %s and %s are looked at' % pair)


def problem_numbers(rep, mod0, mod, T, chain):
    """every problem of a part carries the number of this part"""
    def sets(m, F):
        X = ssa.Fx(F)
        made = {x['k'] for b, x in X.insts() if x['op'] in ('call', 'invoke') and 'StructPool<PlanGen::Problem>::alloc' in callee(m, x)}
        for b, x in X.insts():
            if x['op'] in ('call', 'invoke') and re.match(r'(void )?BitSet::set\(', callee(m, x)):
                q = X.place(x['o'][0])[0]
                if q[0] == 'i' and q[1] in made:
                    yield X, b, x
    par = {}
    for F in mod0.fns.values():
        if re.search(r'(^|[ :])PlanGen::build\w+\(', F.dem):
            for X, b, x in sets(mod0, F):
                o = X.strip(x['o'][1])
                if o[0] == 'a':
                    par[F.name] = o[1]
                    rep.ok('edges', 'number:' + F.sname.split('(')[0])
                elif o[0] == 'c':
                    rep.fail('edges', 'number:' + F.sname.split('(')[0], where(F, x), 'a part is not given its own number')
    X = ssa.Fx(T)
    spots = [(b, x, x['o'][1]) for _, b, x in sets(mod, T)]
    spots += [(b, x, x['o'][par[x['fn']]]) for b, x in X.insts() if x['op'] in ('call', 'invoke') and x.get('fn') in par]
    n = {}
    for b, x, o in spots:
        o = X.strip(o)
        own = {k for k in chain for h, body in T.loops.items() if h == X.block(k) and b in body}
        what = '+'.join(sorted(chain[k] for k in own)) or 'other'
        n[what] = n.get(what, 0) + 1
        good = o[0] == 'i' and (o[1] in own if own else o[1] in chain)
        rep.decide(good, 'edges', 'number:%s#%d' % (what, n[what]), where(T, x), 'a part is not given its own number')


def counting(X, c, kind):
    x = X.inst(c)
    if x is None:
        return False
    if x['op'] == 'icmp':
        return any((lambda y: y is not None and y['op'] == 'phi')(X.inst(X.strip(o))) for o in x['o'])
    return False


def all_pairs(X, ends, kind):
    """do the loops around an edge go through all pairs of elements?"""
    (ka, ia), (kb, ib) = ends
    if any(len(i) != 1 or list(i)[0] == 1 or list(i.values()) != [1] for i in (ia, ib)):
        return None
    a, b = list(ia)[0][1], list(ib)[0][1]
    if a == b:
        return False
    la, lb = bound(X, a, kind), bound(X, b, kind)
    if la is None or lb is None or None in la or None in lb:
        return None
    if not la[1] or not lb[1]:
        return False
    if ka != kb:
        return not la[0] and not lb[0] and la[2] == {('size', ka): 1} and lb[2] == {('size', kb): 1}
    for (i, x), (j, y) in (((a, la), (b, lb)), ((b, lb), (a, la))):
        if not x[0] and y[0] in ({('i', i): 1, 1: 1},) and x[2] == {('size', ka): 1} and y[2] == {('size', ka): 1}:
            return True
        # every pair twice or the lower triangle
        if not x[0] and not y[0] and y[2] in ({('size', ka): 1}, {('i', i): 1}) and x[2] == {('size', ka): 1}:
            return True
    return False


# ---------------------------------------------------------------- common variables
POS = ('before', 'at', 'after', 'end')
NODE = {(i, p): 0x7100000000 + 0x1000000 * i + 0x1000 * (n + 1) for i in (0, 1) for n, p in enumerate(POS)}
RNODE = {v: k for k, v in NODE.items()}
PROBE = 1000000


class WalkMon(Monitor):
    """two sorted sets seen from one arbitrary value: an iterator stands on a smaller value, on the value, on a larger one or
    at the end; `member` tells which of the sets contain the value"""
    fork = True

    def __init__(self, args, member):
        self.sets, self.out, self.member = args[:2], args[2], member
        self.viol, self.und, self.ends, self.turns = [], set(), 0, 0

    def protected(self, eng, st, base):
        return True

    def clobbers_world(self, eng, st, inst, fn, args):
        return False

    def loop_key(self, eng, st, F):
        flags = tuple(v.a[0] for k, v in eng.at_phis if is_c(v) and v.a[1] <= 8)
        return flags + tuple(sorted((str(k[0].a), v.a[0]) for k, v in st.mem.items() if is_c(v) and v.a[0] in RNODE and k[0].op == 'alloca'))

    def which(self, p):
        p = p if p.op == 'p' else P(p, 0)
        for i, a in enumerate(self.sets):
            if p is P(a, 0):
                return i
        return None

    def from_(self, i, p):
        """the possible places from `p` on"""
        if p == 'before':
            return ['before'] + (['at'] if self.member[i] else ['after', 'end'])
        if p in ('at', 'after'):
            return ['after', 'end']
        return ['end']

    def states(self, eng, st, i, ps):
        return [(st.copy(), C(NODE[(i, p)], 64)) for p in ps]

    def where(self, eng, st, p):
        v = eng.load(st, p, 64)
        return RNODE.get(v.a[0]) if is_c(v) else None

    def on_call(self, eng, st, x, fn, args):
        s = shortname(fn)
        m = s.split('::')[-1]
        if s.startswith(('std::set::', 'std::_Rb_tree::')):
            i = self.which(args[0]) if args else None
            if i is None:
                self.und.add('a set that is none of the arguments is used')
                return None
            full = True if self.member[i] else st.mon[2 + i]
            if m in ('begin', 'cbegin'):
                ps = self.from_(i, 'before')
                return self.states(eng, st, i, ps if full is None else [p for p in ps if p != 'end'] if full else ['end'])
            if m in ('end', 'cend'):
                return self.states(eng, st, i, ['end'])
            if m in ('empty', 'size'):
                out = []
                for f in (True, False):
                    if full is None or full == f:
                        t = st.copy()
                        t.mon = t.mon[:2 + i] + (f,) + t.mon[3 + i:]
                        if m == 'empty':
                            out.append((t, C(0 if f else 1, 1)))
                        elif f:
                            v = eng.fresh(t, x, 'size', 64)
                            eng.assume_cmp(t, 'ne', v, C(0, 64))
                            out.append((t, v))
                        else:
                            out.append((t, C(0, 64)))
                return out
            if m in ('lower_bound', 'upper_bound', 'find', 'count'):
                k = eng.load(st, args[1], 32)
                if full is False:
                    return [(st, C(0, 64))] if m == 'count' else self.states(eng, st, i, ['end'])
                out = []
                for p in ('ult', 'eq', 'ugt'):
                    if eng.decide_cmp(st, p, k, C(PROBE, 32)) is False:
                        continue
                    t = st.copy()
                    eng.assume_cmp(t, p, k, C(PROBE, 32))
                    if m == 'lower_bound':
                        ps = self.from_(i, 'before') if p == 'ult' else (['at'] if self.member[i] else ['after', 'end']) if p == 'eq' else ['after', 'end']
                    elif m == 'upper_bound':
                        ps = self.from_(i, 'before') if p == 'ult' else ['after', 'end']
                    elif p == 'eq':
                        ps = ['at'] if self.member[i] else ['end']
                    else:
                        ps = ['before' if p == 'ult' else 'after', 'end']
                    if m == 'count':
                        out += [(t.copy(), C(0 if q == 'end' else 1, 64)) for q in ps]
                    else:
                        out += self.states(eng, t, i, ps)
                return out
            self.und.add('%s of a set' % m)
            return None
        if 'const_iterator' in s or '_Rb_tree_iterator' in s:
            if m == 'operator++':
                r = self.where(eng, st, args[0])
                if r is None:
                    self.und.add('an iterator at an unknown place is advanced')
                    return None
                i, p = r
                if p == 'end':
                    self.viol.append(('walk', 'end', x, 'an iterator at the end of a set is advanced'))
                    return []
                out = []
                for q in self.from_(i, p):
                    t = st.copy()
                    eng.store(t, args[0], C(NODE[(i, q)], 64))
                    out.append((t, args[0]))
                return out
            if m == 'operator*':
                r = self.where(eng, st, args[0])
                if r is None:
                    self.und.add('the value of an iterator at an unknown place is used')
                    return None
                i, p = r
                if p == 'end':
                    self.viol.append(('walk', 'end', x, 'the value at the end of a set is read'))
                    return []
                st = st.copy()
                ptr = P(mk('new', 'element%d%s' % (i, p), 0), 0)
                v = C(PROBE, 32)
                if p != 'at':
                    v = eng.fresh(st, x, p, 32)
                    eng.assume_cmp(st, 'ult' if p == 'before' else 'ugt', v, C(PROBE, 32))
                eng.store(st, ptr, v)
                return [(st, ptr)]
        if s.startswith('std::vector::') and args and (args[0] if args[0].op == 'p' else P(args[0], 0)) is (self.out if self.out.op == 'p' else P(self.out, 0)):
            if m in ('push_back', 'emplace_back'):
                v = eng.load(st, args[1], 32)
                d = eng.decide_cmp(st, 'eq', v, C(PROBE, 32))
                if d is None:
                    self.und.add('it is not known which value is put into the result')
                self.turns += 1
                if d and not all(self.member):
                    self.viol.append(('walk', 'foreign', x, 'a variable of only one of the sets is put into the result'))
                if d is not False:
                    st = st.copy()
                    st.mon = ('in', 'some') + st.mon[2:]
                elif not st.mon[1]:
                    st = st.copy()
                    st.mon = ('', 'some') + st.mon[2:]
                return [(st, None)]
            if m == 'empty' and st.mon[1] != 'old':
                return [(st, C(0 if st.mon[1] else 1, 1))]
            if m == 'clear':
                st = st.copy()
                st.mon = ('', '') + st.mon[2:]
                return [(st, None)]
            self.und.add('%s of the result' % m)
        return None


def run_intersects(rep, mod):
    rep.rule('Common variables, seen from one arbitrary variable: the walk over two sorted sets reaches it in both if both contain it, puts it into the result then and only then, reports a result if and only if there is one, and never goes beyond the end of a set.')
    fs = [F for F in mod.fns.values() if re.match(r'(bool )?intersects\(', F.dem)]
    if not fs:
        rep.undecided('common', 'intersects', 'there is no function for the common variables of two sets')
        return
    for F in fs:
        rep.fn(F)
        args = eff.argvec(F)
        if len(args) != 3:
            rep.undecided('common', F.sname, 'unknown arguments')
            continue
        for member in ((True, True), (True, False), (False, True)):
            mon = WalkMon(args, member)
            eng = Engine(mod, mon, visit_cap=6000, inst_cap=6000)
            st = new_state(())
            for i in (0, 1):
                eng.assume_cmp(st, 'ne', args[i], args[1 - i])
            # the result may be left over from another pair
            st.mon = ('', 'old', None, None)
            n = 0
            for e in eng.run(F, args, st):
                if e.kind != 'ret':
                    continue
                n += 1
                v = e.val
                d = eng.decide_cmp(e.st, 'ne', v, C(0, width(v))) if v is not None else None
                has = e.st.mon
                if all(member):
                    if d is False:
                        mon.viol.append(('walk', 'missed', e.inst, 'two sets with a common variable are reported as disjoint'))
                    elif has[0] != 'in':
                        mon.viol.append(('walk', 'missed', e.inst, 'a common variable is not in the result'))
                if has[1] == 'old' and d is not False:
                    mon.viol.append(('walk', 'stale', e.inst, 'the result keeps the variables of an earlier pair'))
                if d is not False and not has[1]:
                    mon.viol.append(('walk', 'empty', e.inst, 'a common variable is reported but none is in the result'))
                if d is False and has[1] == 'some':
                    mon.viol.append(('walk', 'missed', e.inst, 'two sets with a common variable are reported as disjoint'))
                if d is None and v is not None:
                    mon.und.add('the reported result')
            name = 'both' if all(member) else 'first' if member[0] else 'second'
            if mon.und:
                for m in sorted(mon.und):
                    rep.undecided('common', name, m)
                continue
            for k, key, x, msg in mon.viol:
                rep.fail('common', name + ':' + key, where(F, x), msg)
            rep.need(n, 'an end of the walk')
            if not mon.viol:
                rep.ok('common', name)


def isvar2(isvar, en):
    return {'cmp': [(o, 'eq', v) for o, p, v in isvar['cmp']]}


def filter_types():
    import os
    t = open(os.path.join(build.REPO, 'rdf3x/include/cts/infra/QueryGraph.hpp'), errors='replace').read()
    t = re.sub(r'//[^\n]*|/\*.*?\*/', '', t, flags=re.S)
    m = re.search(r'struct Filter \{.*?enum\s+Type\s*\{([^}]*)\}', t, re.S)
    return {e.strip().split('=')[0].strip(): i for i, e in enumerate(m.group(1).split(',')) if e.strip()}


def run(rep, tier):
    rep.level = 'other'
    mod = module()
    rep.parts([run_nodes, run_scan, run_add, run_order, run_visits, run_edges, run_filters, run_intersects], rep, mod)
