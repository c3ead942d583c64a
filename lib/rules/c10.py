"""C10: the neighbour lists at both ends of an edge (and the edge table) change together."""
import re
import build, eff
from ops import where
from seq import *


def strip(e):
    while e.op in ("zext", "sext"):
        e = e.a[0]
    return e


DIR, UND, EDG = 'dir', 'und', 'edg'
CLASSES = [  # class, kind, functions
    ('TUNGraph', UND), ('TUndirNet', UND),
    ('TNGraph', DIR), ('TDirNet', DIR), ('TNodeNet<TInt>', DIR), ('TNodeEDatNet<TInt, TFlt>', DIR), ('TNGraphMP', DIR),
    ('TNEGraph', EDG), ('TNodeEdgeNet<TInt, TFlt>', EDG), ('TNEANet', EDG)]
METHODS = 'AddNode|AddNodeUnchecked|AddEdge|AddEdgeUnchecked|AddEdge2|DelEdge|DelNode|IsEdge'
STOP = [r'^(.* )?std::', r'^__gnu', r'^([^(]* )?THash<', r'^([^(]* )?TVec<', r'^([^(]* )?TStr::', r'^([^(]* )?TAttr', r'^([^(]* )?.*::GetNIdPos\(']
INL = [r'^([^(]* )?T[A-Za-z]*(<.*>)?::(TNode|TEdge)::', r'^([^(]* )?(TInt|TMath|TFlt)::', r'^([^(]* )?TPair<']
VEC = {'InNIdV': 'in', 'OutNIdV': 'out', 'NIdV': 'nbr', 'InEIdV': 'in', 'OutEIdV': 'out'}


def module():
    cls = '|'.join(re.escape(c) for c, _ in CLASSES) + '|TBPGraph'
    return Module(build.dump([(build.VERIF + '/lib/units/graphs.cpp', ['-femit-all-decls', '-Xclang', '-mno-constructor-aliases'])], [r'^([^(]* )?(' + cls + r')::(' + METHODS + r')\('], stop=STOP, inline=INL))


def method(dem):
    """(class with template arguments removed, method) of a demangled name"""
    s = dem.split('(', 1)[0] if not dem.startswith('(') else dem
    d, out, depth = dem, '', 0
    for ch in d:
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        elif depth == 0:
            if ch == '(' and not out.endswith('operator'):
                break
            out += ch
    out = out.split(' ')[-1] if 'operator' not in out else out
    return out


class GMon(Monitor):
    """st.mon: the effects on the neighbour lists, the node table and the edge table, in order; ('turn', ..) entries mark loops"""
    induct = meminduct = True
    fork = True

    def __init__(self, mod, rep, cls, kind):
        self.mod, self.rep, self.cls, self.kind = mod, rep, cls, kind
        self.bad = []
        self.nodes = {}
        self.turn = None
        self.count = 0
        hs = {}
        for f, off, *_ in [(n, o) for n, o in self.tables()]:
            hs[off] = f
        self.hash = hs
        nrec = cls + '::TNode'
        self.vec = {}
        for n in VEC:
            try:
                self.vec[mod.field(nrec, n)[0]] = VEC[n]
            except KeyError:
                pass
        rep.need(self.vec, 'neighbour lists of %s not found' % nrec)
        self.nid = mod.field(nrec, 'Id')[0]
        self.counters = []
        for n in ('MxNId', 'MxEId', 'NEdges'):
            try:
                self.counters.append(mod.field(cls, n)[0])
            except KeyError:
                pass
        self.edge = {}
        if kind == EDG:
            for n in ('Id', 'SrcNId', 'DstNId'):
                self.edge[n] = mod.field(cls + '::TEdge', n)[0]
            self.eoff = mod.field(cls, 'EdgeH')[0]

    def tables(self):
        out = []
        for n in ('NodeH', 'EdgeH', 'LeftH', 'RightH'):
            try:
                out.append((n, self.mod.field(self.cls, n)[0]))
            except KeyError:
                pass
        return out

    def protected(self, eng, st, base):
        return True

    def clobbers_world(self, eng, st, inst, fn, args):
        return False

    # ---- terms
    def key(self, eng, st, p):
        return strip(eng.load(st, p, 32))

    def table(self, p):
        if p.op == 'p' and isinstance(p.a[1], int) and p.a[0] is self.this:
            return self.hash.get(p.a[1])
        return None

    def tabs(self, eng, st, p):
        """[(state, table)] of the table a pointer refers to"""
        t = self.table(p)
        if t:
            return [(st, t)]
        return []

    def node(self, st, table, key):
        return mk('arg', ('node', table, key), 64, 'nn')

    def where_vec(self, p):
        """(table, key, list) of the neighbour list at p"""
        if p.op == 'p' and isinstance(p.a[1], int) and p.a[0].op == 'arg' and isinstance(p.a[0].a[0], tuple) and p.a[0].a[0][0] == 'node':
            f = self.vec.get(p.a[1])
            if f:
                return (p.a[0].a[0][1], p.a[0].a[0][2], f)
        if p.op == 'arg' and isinstance(p.a[0], tuple) and p.a[0][0] == 'node':
            f = self.vec.get(0)
            if f:
                return (p.a[0][1], p.a[0][2], f)
        return None

    def differ(self, eng, st, a, b):
        return a is not b and any_cmp(eng, st, 'ne', a, b) is True

    def same(self, eng, st, a, b):
        return a is b or any_cmp(eng, st, 'eq', a, b) is True

    def version(self, eng, st, v):
        n = 0
        for e in st.mon:
            if e[0] in ('add', 'del', 'append', 'set') and e[1][2] == v[2] and e[1][0] == v[0] and not self.differ(eng, st, e[1][1], v[1]):
                n += 1
            elif e[0] == 'addnode' and e[1] == v[0] and not self.differ(eng, st, e[2], v[1]):
                n += 1
        return n

    def find(self, eng, st, v, val):
        f = mk('pure', 'find', v + (val, self.version(eng, st, v)), 32)
        return f

    def found(self, eng, st, f):
        r = any_cmp(eng, st, 'ne', f, C(-1, 32))
        if r is None and eng.decide(st, eng.icmp(st, 'sge', f, C(0, 32), 32)) is True:
            r = True
        return r

    def has(self, eng, st, table, key):
        """is the key in the table now?"""
        n = 0
        for e in st.mon:
            if e[0] == 'addnode' and e[1] == table:
                if self.same(eng, st, e[2], key):
                    n = True
                elif not self.differ(eng, st, e[2], key):
                    n += 1
            if e[0] == 'delnode' and e[1] == table and not self.differ(eng, st, e[2], key):
                n = False if self.same(eng, st, e[2], key) else n + 1
        if n is True or n is False:
            return C(1 if n else 0, 1)
        b = mk('pure', 'iskey', (table, key, n), 1)
        return b

    def note(self, st, *e):
        st.mon = st.mon + (e,)

    def fail(self, x, msg):
        self.bad.append((x, msg))

    # ---- calls
    def on_call(self, eng, st, x, fn, args):
        m = method(fn)
        if m.endswith('ExeStop') or m in ('ExeStop', 'FailR', 'TExcept::Throw'):
            return [('abort', st, None)]
        if m.startswith('TStr::'):
            if x['t'] == 'p':
                return [(st, P(mk('new', eng.site(st, x), x['k']), 0))]
            return [(st, None if x['t'] == 'v' else mk('fresh', eng.site(st, x), 'str', tw(x['t'])))]
        if m.startswith('THash::'):
            return self.on_hash(eng, st, x, m[7:], args)
        if m.startswith('TVec::'):
            return self.on_vec(eng, st, x, m[6:], args, fn)
        if m.endswith('::GetNIdPos'):
            v = self.where_vec(args[0])
            if v:
                return [(st, self.find(eng, st, v, self.key(eng, st, args[1])))]
        return None

    def on_hash(self, eng, st, x, m, args):
        t = self.table(args[0])
        if t is None:
            if args[0].op == 'p' and args[0].a[0] is self.this:
                return [(st, None if x['t'] == 'v' else P(mk('new', eng.site(st, x), x['k']), 0) if x['t'] == 'p' else mk('fresh', eng.site(st, x), m, tw(x['t'])))]
            return None
        k = self.key(eng, st, args[1]) if len(args) > 1 else None
        edge = t == 'EdgeH'
        if m in ('GetDat', 'operator()', 'operator[]'):
            return [(st, P(self.node(st, t, k), 0))]
        if m == 'IsKey':
            return [(st, self.has(eng, st, t, k))]
        if m == 'AddDat':
            n = self.node(st, t, k)
            if len(args) > 2:
                d = args[2]
                if edge:
                    vals = tuple(strip(eng.load(st, shift(d, self.edge[f]), 32)) for f in ('Id', 'SrcNId', 'DstNId'))
                else:
                    vals = (strip(eng.load(st, shift(d, self.nid), 32)),)
            else:
                vals = None
            self.note(st, 'addnode', t, k, vals)
            return [(st, P(n, 0))]
        if m == 'DelKey':
            self.note(st, 'delnode', t, k, None)
            return [(st, None)]
        if m == 'GetKeyId':
            return [(st, mk('pure', 'keyid', (t, k), 32))]
        return None

    def on_vec(self, eng, st, x, m, args, fn):
        v = self.where_vec(args[0])
        if v is None:
            if args and (m in ('TVec', '~TVec') or args[0].op == 'p' and args[0].a[0].op == 'alloca'):
                return None
            return [(st, None if x['t'] == 'v' else P(mk('new', eng.site(st, x), x['k']), 0) if x['t'] == 'p' else mk('fresh', eng.site(st, x), m, tw(x['t'])))]
        if m in ('AddSorted', 'AddMerged', 'Add', 'DelIfIn', 'SearchBin', 'IsIn', 'IsInBin'):
            if m == 'Add' and len(args) < 2:
                self.note(st, 'set', v, None)
                return None
            if m == 'AddSorted' and len(args) > 2 and eng.decide(st, eng.ext('trunc', eng.load(st, args[2], 8), 8, 1)) is not True:
                self.fail(x, 'an entry is added in descending order')
            val = self.key(eng, st, args[1])
            if m in ('SearchBin', 'IsIn', 'IsInBin'):
                f = self.find(eng, st, v, val)
                if m == 'SearchBin':
                    return [(st, f)]
                return [(st, eng.icmp(st, 'ne', f, C(-1, 32), 32))]
            if m == 'DelIfIn':
                self.note(st, 'del', v, val)
                return [(st, mk('pure', 'isin', v + (val,), 1) if x['t'] != 'v' else None)]
            self.note(st, 'append' if m == 'Add' else 'add', v, val)
            return [(st, mk('fresh', eng.site(st, x), 'pos', 32) if x['t'] != 'v' else None)]
        if m == 'Del' and len(args) == 2:
            i = self.key(eng, st, args[1])
            if i.op == 'pure' and i.a[0] == 'find' and self.same(eng, st, i.a[1][1], v[1]) and i.a[1][0] == v[0] and i.a[1][2] == v[2]:
                if self.found(eng, st, i) is not True:
                    self.fail(x, 'the entry to delete may not exist')
                if i.a[1][4] != self.version(eng, st, v):
                    self.fail(x, 'the position of the entry to delete is out of date')
                self.note(st, 'del', v, i.a[1][3])
            else:
                self.note(st, 'del', v, None)
            return [(st, None)]
        if m in ('Len', 'Empty'):
            l = mk('pure', 'len', v + (self.version(eng, st, v),), 32)
            st.dom.setdefault(l, Dom(32, 0, 0x7fffffff))
            return [(st, l if m == 'Len' else eng.icmp(st, 'eq', l, C(0, 32), 32))]
        if m in ('operator[]', 'GetVal'):
            i = self.key(eng, st, args[1])
            return [(st, P(mk('arg', ('elt', v, i, self.version(eng, st, v)), 64, 'nn'), 0))]
        if ') const' in fn:
            return None
        self.note(st, 'set', v, m, args[1] if len(args) > 1 else None)
        return [(st, None if x['t'] == 'v' else args[0] if x['t'] == 'p' else mk('fresh', eng.site(st, x), m, tw(x['t'])))]

    def on_store(self, eng, st, inst, ptr, val, size):
        pass

    # ---- loops
    def at_loop(self, eng, st, F):
        h = hash_uid((tuple(eng.callstack), F.name, 'h', eng.at_header))
        if not eng.at_back:
            if any(e[0] == 'turn' and e[1] == h for e in st.mon):
                return
            st.mon = st.mon + (('turn', h, '?'),)
            return
        for n in range(len(st.mon) - 1, -1, -1):
            if st.mon[n][0] == 'turn' and st.mon[n][1] == h:
                break
        else:
            return
        cover = self.on_turn(eng, st, F, [e for e in st.mon[n + 1:] if e[0] != 'turn'], st.mon[n][2])
        st.mon = st.mon[:n] + (('turn', h, cover),)

    def loop_key(self, eng, st, F):
        return tuple(eng.load(st, P(self.this, o), 32) for o in self.counters)

    def on_turn(self, eng, st, F, effs, before):
        """checks the effects of one turn of a loop and says what it covers"""
        if effs:
            self.fail(F.blocks[eng.at_header][-1], 'changes in a loop that is not understood')
        return before

    # ---- runs over all elements
    def index(self, eng, st, h, v, l, done=False):
        """the index of the element visited in this turn of loop h, which runs up from 0 or down from the last element of the list
        v (None: it does not run over the list); done: did the loop visit every element?"""
        t = mk('trunc', mk('w', h, 'turn', 64), 32)
        if done:
            if any_cmp(eng, st, 'ge', t, l) is True or any_cmp(eng, st, 'eq', t, l) is True:
                return True
        elif eng.decide_cmp(st, 'slt', t, l) is True or any_cmp(eng, st, 'ne', t, l) is True:
            return t
        for x, d in st.dom.items():
            f = dict(lin(x))
            if f.get(t.a[0]) == -1 and f.get(l) == 1:
                c = const(ladd(ladd(lin(x), lin(l), -1), lin(t)))
                if c is None:
                    continue
                if done:
                    if d.decide('sle', c) is True or d.decide('eq', c) is True:
                        return True
                elif d.decide('sgt', c) is True or d.decide('ne', c) is True:
                    want = ladd(ladd(lin(l), lin(t), -1), lin(C(1, 32)), -1)
                    for e in terms(st):
                        for q in self.elts(eng, st).values():
                            if q[:2] == ('elt', v) and lin(q[2]) == want:
                                return q[2]
                    return eng.binop(st, 'sub', eng.binop(st, 'sub', l, C(1, 32), 32), t, 32)
        return False if done else None

    # ---- the counter and the element of the current turn
    def elts(self, eng, st, effs=()):
        out = {}
        for e in terms(st):
            self.elt_in(strip(e), out)
        for e in effs:
            for y in e:
                for z in (y if isinstance(y, tuple) else (y,)):
                    if isinstance(z, E):
                        self.elt_in(strip(z), out)
        return out

    def elt_in(self, e, out, d=0):
        if d > 6:
            return
        if e.op == 'ld' and e.a[1].op in ('p', 'arg'):
            p = e.a[1]
            b = p.a[0] if p.op == 'p' else p
            if b.op == 'arg' and isinstance(b.a[0], tuple) and b.a[0][0] == 'elt':
                out[e] = b.a[0]
            if b.op == 'arg' and isinstance(b.a[0], tuple) and b.a[0][0] == 'node':
                self.elt_in(strip(b.a[0][2]), out, d + 1)
        elif e.op == 'arg' and isinstance(e.a[0], tuple) and e.a[0][0] == 'elt':
            out[e] = e.a[0]


def shift(p, n):
    if p.op == 'p':
        return P(p.a[0], p.a[1] + n)
    return P(p, n)


def show_eff(e):
    names = {'add': 'adds', 'append': 'appends', 'del': 'deletes', 'addnode': 'enters', 'delnode': 'removes', 'set': 'changes'}
    if e[0] in ('addnode', 'delnode'):
        return '%s %s in %s' % (names[e[0]], show(e[2]), e[1])
    return '%s %s %s list of node %s' % (names[e[0]], show(e[2]) if isinstance(e[2], E) else e[2], e[1][2], show(e[1][1]))


# ---------------------------------------------------------------- expectations
OPP = {'in': 'out', 'out': 'in', 'nbr': 'nbr'}


class NodeMon(GMon):
    """DelNode: each turn takes back one edge at its other end"""

    def on_turn(self, eng, st, F, effs, before):
        h = hash_uid((tuple(eng.callstack), F.name, 'h', eng.at_header))
        inst = F.blocks[eng.at_header][-1]
        for tab in self.tabs_of(eng, st):
            for f in sorted(set(self.vec.values())):
                v = (tab, self.n, f)
                ver = 0
                idx = self.index(eng, st, h, v, mk('pure', 'len', v + (ver,), 32))
                if idx is None:
                    continue
                if not (before == '?' or before == f):
                    continue
                self.turn_ok(eng, st, F, inst, v, strip(eng.load(st, P(mk('arg', ('elt', v, idx, ver), 64, 'nn'), 0), 32)), effs)
                return f
        if effs:
            self.fail(inst, 'a loop changes the graph but does not run over the edges of the node')
        for x in terms(st):
            if strip(x).op == 'pure' and strip(x).a[0] == 'len':
                return None
        return before

    def tabs_of(self, eng, st):
        return ['NodeH']

    def other(self, tab):
        return tab

    def turn_ok(self, eng, st, F, inst, v, elt, effs):
        tab, n, f = v
        if self.kind == EDG:
            e = P(self.node(st, 'EdgeH', elt), 0)
            o = strip(eng.load(st, shift(e, self.edge['DstNId' if f == 'out' else 'SrcNId']), 32))
            want = [('del', ('NodeH', o, OPP[f]), elt), ('delnode', 'EdgeH', elt)]
        else:
            if self.same(eng, st, elt, n):
                want = []
            else:
                want = [('del', (self.other(tab), elt, OPP[f]), n)]
        self.compare(eng, st, inst, want, effs, 'while the edges in the %s list of the deleted node are taken back' % f)

    def compare(self, eng, st, inst, want, effs, when):
        rest = list(effs)
        for w in want:
            for e in rest:
                if e[0] == w[0] and (e[1] == w[1] if isinstance(w[1], str) else e[1][0] == w[1][0] and e[1][2] == w[1][2] and self.same(eng, st, e[1][1], w[1][1])) and isinstance(e[2], E) and self.same(eng, st, e[2], w[2]):
                    rest.remove(e)
                    break
            else:
                if w[0] == 'del' and self.absent(eng, st, w[1], w[2]):
                    continue
                self.fail(inst, '%s: "%s" does not happen' % (when, show_eff(w)))
                return False
        if rest:
            self.fail(inst, '%s: "%s" is not expected' % (when, show_eff(rest[0])))
            return False
        return True

    def absent(self, eng, st, v, val):
        for n in range(4):
            f = mk('pure', 'find', v + (val, n), 32)
            if any_cmp(eng, st, 'eq', f, C(-1, 32)) is True or eng.decide_cmp(st, 'slt', f, C(0, 32)) is True:
                return True
        return False


def drop(mon):
    return [e for e in mon if e[0] != 'turn']


class G:
    """one method of one class"""

    def __init__(self, mod, rep, cls, kind, F, mon=None):
        self.mod, self.rep, self.cls, self.kind, self.F = mod, rep, cls, kind, F
        self.mon = (mon or NodeMon)(mod, rep, cls, kind)
        self.args = eff.argvec(F)
        self.mon.this = self.args[0]
        self.eng = Engine(mod, self.mon)
        self.eng.this = self.args[0]
        self.key = '%s::%s' % (re.sub('<.*>', '', cls), F.sname.split('::')[-1])
        self.st0 = new_state(())
        self.vals = []
        for a, (n, t, *_) in list(zip(self.args, F.args))[1:]:
            self.vals.append(strip(self.eng.load(self.st0, a, 32)) if t == 'p' else a)
        rep.fn(F)

    def run(self, kind, check, n=None):
        self.kindname = kind
        mon = self.mon
        mon.n = self.vals[0] if self.vals else None
        mon.vals = self.vals
        self.ret = None
        if n is not None:
            self.key += n
        ex = eff.exits(self.eng, self.F, self.args, self.st0.copy())
        self.rep.need(ex, '%s has no return' % self.F.dem)
        ok = True
        for e in ex:
            r = check(self, e)
            if r is not None:
                ok = False
                self.rep.fail(kind, self.key, where(self.F, e.inst), r)
        for x, msg in mon.bad:
            ok = False
            self.rep.fail(kind, self.key, where(self.F, x), msg)
        if ok:
            self.rep.ok(kind, self.key)

    def fld(self, st, name):
        return strip(self.eng.load(st, P(self.args[0], self.mod.field(self.cls, name)[0]), 32))

    def delta(self, st, name):
        return ladd(lin(self.fld(st, name)), lin(self.fld(self.st0, name)), -1)


def run(rep, tier):
    mod = module()
    rep.rule('at every return of AddNode, DelNode, AddEdge and DelEdge the changes of the neighbour lists, the node table, the edge table and the counters are the expected ones, given the branches taken')
    rep.parts((adders, lists, deleters, lookups, edge_search, edge_removal, bipartite), mod, rep)


def fns(mod, cls, name, n=None, pick=None):
    out = []
    for F in mod.fns.values():
        if F.sname == cls + '::' + name or method(F.dem) == re.sub('<.*>', '', cls) + '::' + name and F.dem.startswith(cls):
            if n is None or len(F.args) == n:
                if pick is None or pick in F.dem:
                    out.append(F)
    return out


def bound(g, st, new, old, k):
    """the next free number is larger than the number handed out, and never decreases"""
    e = g.eng
    a, b = lin(g.fld(st, new)), lin(k)
    d = const(ladd(a, b, -1))
    o = g.fld(g.st0, new)
    do = const(ladd(a, lin(o), -1))
    if do is None and d is not None and d >= 0 and any_cmp(e, st, 'ge', k, o) is True:
        do = 0
    big = d is not None and d >= 1 or any_cmp(e, st, 'gt', g.fld(st, new), k) is True or any_cmp(e, st, 'ge', g.fld(st, new), e.binop(st, 'add', k, C(1, 32), 32)) is True
    mono = do is not None and do >= 0 or any_cmp(e, st, 'ge', g.fld(st, new), o) is True or any_cmp(e, st, 'gt', g.fld(st, new), o) is True
    return None if big and mono else 'the next free number %s %s' % (new, 'is not above the number handed out' if not big else 'may decrease')


def adders(mod, rep):
    for cls, kind in CLASSES:
        for F in fns(mod, cls, 'AddEdge', 3 if kind != EDG else 4):
            if 'TEdgeI' in F.dem:
                continue
            G(mod, rep, cls, kind, F).run('add edge', add_edge)
        for name in ('AddEdgeUnchecked', 'AddEdge2'):
            for F in fns(mod, cls, name, 3):
                G(mod, rep, cls, kind, F).run('add edge', add_edge)
        for F in fns(mod, cls, 'AddNode', 2):
            if '(int)' in F.dem:
                G(mod, rep, cls, kind, F).run('add node', add_node)
        for F in fns(mod, cls, 'AddNodeUnchecked', 2):
            G(mod, rep, cls, kind, F).run('add node', add_node)
        for F in fns(mod, cls, 'AddNode', 3):
            if '(int, ' in F.dem:
                G(mod, rep, cls, kind, F).run('add node', add_node, ' with data')


def expected_edge(g, st, src, dst):
    m = g.mon
    if g.kind == DIR:
        return [(('NodeH', src, 'out'), dst), (('NodeH', dst, 'in'), src)]
    if m.same(g.eng, st, src, dst):
        return [(('NodeH', src, 'nbr'), dst)]
    return [(('NodeH', src, 'nbr'), dst), (('NodeH', dst, 'nbr'), src)] if m.differ(g.eng, st, src, dst) else None


def match(g, st, want, effs, ops):
    """the expected changes not found and the changes not expected"""
    m = g.mon
    rest, miss = list(effs), []
    for v, val in want:
        for e in rest:
            if e[0] in ops and e[1][0] == v[0] and e[1][2] == v[2] and m.same(g.eng, st, e[1][1], v[1]) and isinstance(e[2], E) and m.same(g.eng, st, e[2], val):
                rest.remove(e)
                break
        else:
            miss.append((v, val))
    return miss, rest


def add_edge(g, e):
    st, m = e.st, g.mon
    effs = drop(st.mon)
    src, dst = g.vals[0], g.vals[1]
    name = g.F.sname.split('::')[-1]
    if g.kind == EDG:
        k = strip(e.val)
        edges = [x for x in effs if x[0] == 'addnode']
        if len(edges) != 1 or edges[0][1] != 'EdgeH' or not m.same(g.eng, st, edges[0][2], k):
            return 'the edge is not entered once in the edge table under the number that is returned'
        if edges[0][3] is None or not all(m.same(g.eng, st, a, b) for a, b in zip(edges[0][3], (k, src, dst))):
            return 'the edge entered in the edge table does not have the number and the end points of the new edge'
        want = [(('NodeH', src, 'out'), k), (('NodeH', dst, 'in'), k)]
        miss, rest = match(g, st, want, [x for x in effs if x[0] != 'addnode'], ('add',))
        return wrong(miss, rest) or bound(g, st, 'MxEId', None, k)
    v0 = expected_edge(g, st, src, dst)
    f0 = ('NodeH', src, 'out' if g.kind == DIR else 'nbr')
    lists = [x for x in effs if x[0] not in ('addnode',)]
    if name == 'AddEdge2':
        if any(m.same(g.eng, st, y, C(-1, 32)) for y in (src, dst)):
            return None          # not the number of a node
        for x in effs:
            if x[0] == 'addnode' and not (x[1] == 'NodeH' and any(m.same(g.eng, st, x[2], y) for y in (src, dst))):
                return 'a node is created that is not an end point of the edge'
    elif len(lists) != len(effs):
        return 'a node is created'
    if is_c(e.val) and e.val.a[0] == -2:
        if lists:
            return 'the edge exists already, but "%s"' % show_eff(lists[0])
        if g.kind == UND and g.delta(st, 'NEdges'):
            return 'the edge exists already, but it is counted again'
        for n in range(3):
            if any_cmp(g.eng, st, 'ne', mk('pure', 'find', f0 + (dst, n), 32), C(-1, 32)) is True:
                return None
        return 'an edge may be refused although it does not exist'
    if v0 is None:
        return 'an edge from a node to itself is entered like any other edge'
    miss, rest = match(g, st, v0, lists, ('add', 'append') if name == 'AddEdgeUnchecked' else ('add',))
    r = wrong(miss, rest)
    if r:
        return r
    if g.kind == UND and const(g.delta(st, 'NEdges')) != 1:
        return 'the number of edges does not increase by one'
    if name != 'AddEdgeUnchecked' and not any(any_cmp(g.eng, st, 'eq', mk('pure', 'find', f0 + (dst, n), 32), C(-1, 32)) is True for n in range(3)):
        return 'an edge that exists already may be entered again'
    return None


def wrong(miss, rest):
    if miss:
        return 'the %s list of node %s does not change by %s' % (miss[0][0][2], show(miss[0][0][1]), show(miss[0][1]))
    if rest:
        return '"%s" is not expected' % show_eff(rest[0])
    return None


def add_node(g, e):
    st, m = e.st, g.mon
    effs = drop(st.mon)
    k = strip(e.val)
    if not effs and g.F.sname.endswith('Unchecked'):
        has = m.has(g.eng, st, 'NodeH', g.vals[0])
        return None if g.eng.decide(st, has) is True else 'a node is not entered although it does not exist'
    nodes = [x for x in effs if x[0] == 'addnode']
    if len(nodes) != 1 or len(effs) != 1 or nodes[0][1] != 'NodeH' or not m.same(g.eng, st, nodes[0][2], k):
        return 'the node is not entered once in the node table under the number that is returned'
    if nodes[0][3] is None or not m.same(g.eng, st, nodes[0][3][0], k):
        return 'the node entered in the node table does not carry its own number'
    given = g.vals[0]
    if m.differ(g.eng, st, given, C(-1, 32)) and not m.same(g.eng, st, k, given):
        return 'the node is not entered under the number asked for'
    if not m.differ(g.eng, st, given, C(-1, 32)) and g.F.sname.endswith('::AddNode') and not m.same(g.eng, st, k, g.fld(g.st0, 'MxNId')):
        return 'a node without a number does not get the next free number'
    return bound(g, st, 'MxNId', None, k)


def deleters(mod, rep):
    for cls, kind in CLASSES:
        if cls == 'TNGraphMP':
            for F in fns(mod, cls, 'DelEdge', 4):
                G(mod, rep, cls, kind, F).run('delete edge', del_edge)
            continue
        for F in fns(mod, cls, 'DelNode', 2):
            if 'TNode const' in F.dem:
                continue
            G(mod, rep, cls, kind, F).run('delete node', del_node)
        for F in fns(mod, cls, 'DelEdge'):
            if kind == EDG:
                if len(F.args) == 2:
                    G(mod, rep, cls, kind, F).run('delete edge', del_edge_id)
            else:
                G(mod, rep, cls, kind, F).run('delete edge', del_edge)


def del_node(g, e):
    st, m = e.st, g.mon
    if not st.mon or st.mon[-1][0] != 'delnode' or st.mon[-1][1] != 'NodeH' or not m.same(g.eng, st, st.mon[-1][2], m.n):
        return 'the node is not removed from the node table at the end'
    if len(drop(st.mon)) != 1:
        return '"%s" is not expected' % show_eff(drop(st.mon)[0])
    for f in sorted(set(m.vec.values())):
        if not covered(g, st, ('NodeH', m.n, f)):
            return 'the edges in the %s list of the node are not all taken back' % f
    if g.kind == UND:
        d = g.delta(st, 'NEdges')
        if d != {mk('pure', 'len', ('NodeH', m.n, 'nbr', 0), 32): -1}:
            return 'the number of edges does not decrease by the number of edges of the node'
    return None


def covered(g, st, v):
    l = mk('pure', 'len', v + (0,), 32)
    for x in st.mon:
        if x[0] == 'turn' and x[2] in ('?', v[2]) and g.mon.index(g.eng, st, x[1], v, l, True):
            return True
    return False


def del_edge(g, e):
    st, m = e.st, g.mon
    effs = drop(st.mon)
    src, dst = g.vals[0], g.vals[1]
    if g.kind == DIR:
        want = [(('NodeH', src, 'out'), dst), (('NodeH', dst, 'in'), src)]
        back = [(('NodeH', dst, 'out'), src), (('NodeH', src, 'in'), dst)]
        flag = g.eng.decide(st, g.eng.ext('trunc', g.eng.load(st, g.args[3], 8), 8, 1))
        if flag is None:
            return 'the direction is not looked at'
        if flag is False:
            want += back
    else:
        want = expected_edge(g, st, src, dst)
        if want is None:
            return 'an edge from a node to itself is not told from other edges'
    miss, rest = match(g, st, want, effs, ('del',))
    gone = [w for w in miss if not m.absent(g.eng, st, *w)]
    if gone or rest:
        return wrong(gone, rest)
    if g.kind == UND:
        if 0 < len(miss) < len(want):
            return None      # an edge that is known at one end only
        if const(g.delta(st, 'NEdges')) != (0 if miss else -1):
            return 'the number of edges does not decrease by one'
    return None


def del_edge_id(g, e):
    st, m = e.st, g.mon
    k = g.vals[0]
    effs = drop(st.mon)
    ed = P(m.node(st, 'EdgeH', k), 0)
    src, dst = (strip(g.eng.load(st, shift(ed, m.edge[f]), 32)) for f in ('SrcNId', 'DstNId'))
    out = [x for x in effs if x[0] == 'delnode']
    if len(out) != 1 or out[0][1] != 'EdgeH' or not m.same(g.eng, st, out[0][2], k):
        return 'the edge is not removed from the edge table once'
    miss, rest = match(g, st, [(('NodeH', src, 'out'), k), (('NodeH', dst, 'in'), k)], [x for x in effs if x[0] != 'delnode'], ('del',))
    return wrong([w for w in miss if not m.absent(g.eng, st, *w)], rest)


def lookups(mod, rep):
    for cls, kind in CLASSES:
        if kind == EDG:
            continue
        for F in fns(mod, cls, 'IsEdge'):
            G(mod, rep, cls, kind, F).run('is edge', is_edge)


def is_edge(g, e):
    st0, m = e.st, g.mon
    src, dst = g.vals[0], g.vals[1]
    if drop(st0.mon):
        return 'a question changes the graph'
    for truth in (True, False):
        st = st0.copy()
        d = g.eng.decide(st, e.val)
        if d is not None and d is not truth:
            continue
        if d is None and g.eng.assume(st, e.val, truth) is False:
            continue
        fw = mk('pure', 'find', ('NodeH', src, 'out' if g.kind == DIR else 'nbr', dst, 0), 32)
        bw = mk('pure', 'find', ('NodeH', dst, 'out', src, 0), 32)
        flag = True if g.kind == UND else g.eng.decide(st, g.eng.ext('trunc', g.eng.load(st, g.args[3], 8), 8, 1))
        a, b = any_cmp(g.eng, st, 'ne', fw, C(-1, 32)), any_cmp(g.eng, st, 'ne', bw, C(-1, 32))
        nodes = [g.eng.decide(st, mk('pure', 'iskey', ('NodeH', n, 0), 1)) for n in (src, dst)]
        if truth:
            if not (a is True or b is True and flag is False):
                return 'an edge is reported that does not exist'
        elif not (False in nodes or a is False and (flag is True or b is False)):
            return 'an existing edge is not reported'
    return None


# ---------------------------------------------------------------- nodes with given lists
class ListMon(NodeMon):
    """AddNode with neighbours: each turn enters the new node in the list of one neighbour"""

    def on_vec(self, eng, st, x, m, args, fn):
        if args[0] is self.given:
            if m == 'Len':
                l = mk('pure', 'len', ('given',), 32)
                st.dom.setdefault(l, Dom(32, 0, 0x7fffffff))
                return [(st, l)]
            if m in ('operator[]', 'GetVal'):
                return [(st, P(mk('arg', ('elt', 'given', self.key(eng, st, args[1])), 64, 'nn'), 0))]
        return NodeMon.on_vec(self, eng, st, x, m, args, fn)

    def on_turn(self, eng, st, F, effs, before):
        idx = self.index(eng, st, hash_uid((tuple(eng.callstack), F.name, 'h', eng.at_header)), 'given', mk('pure', 'len', ('given',), 32))
        if idx is None:
            if effs:
                self.fail(F.blocks[eng.at_header][-1], 'a loop changes the graph but does not run over the given neighbours')
            return None
        nbr = strip(eng.load(st, P(mk('arg', ('elt', 'given', idx), 64, 'nn'), 0), 32))
        k = strip(eng.load(st, P(self.this, self.mod.field(self.cls, 'MxNId')[0]), 32)) if False else self.newid(st)
        if k is None:
            return None
        want = [] if self.same(eng, st, nbr, k) else [(('NodeH', nbr, 'nbr'), k)]
        rest = list(effs)
        for v, val in want:
            hit = [e for e in rest if e[0] == 'add' and e[1][0] == v[0] and e[1][2] == v[2] and self.same(eng, st, e[1][1], v[1]) and self.same(eng, st, e[2], val)]
            if not hit:
                self.fail(F.blocks[eng.at_header][-1], 'the new node is not entered in the list of its neighbour')
                return 'given'
            rest.remove(hit[0])
            if not self.differ(eng, st, nbr, k):
                self.fail(F.blocks[eng.at_header][-1], 'a node that is its own neighbour is entered twice in its list')
        if rest:
            self.fail(F.blocks[eng.at_header][-1], '"%s" is not expected' % show_eff(rest[0]))
        return 'given'

    def newid(self, st):
        ks = [e[2] for e in st.mon if e[0] == 'addnode']
        return ks[0] if len(ks) == 1 else None


def lists(mod, rep):
    for cls, kind in CLASSES:
        if kind == EDG or cls.endswith('>'):
            continue
        for F in fns(mod, cls, 'AddNode'):
            if 'TVec<TInt, int> const&' not in F.dem or 'TVecPool' in F.dem:
                continue
            g = G(mod, rep, cls, kind, F, ListMon)
            g.mon.given = g.args[2] if kind == UND else None
            g.run('add node', add_node_lists, ' with neighbours')


def add_node_lists(g, e):
    st, m = e.st, g.mon
    k = strip(e.val)
    nodes = [x for x in st.mon if x[0] == 'addnode']
    if len(nodes) != 1 or nodes[0][1] != 'NodeH' or not m.same(g.eng, st, nodes[0][2], k):
        return 'the node is not entered once in the node table under the number that is returned'
    if not m.same(g.eng, st, strip(g.eng.load(st, P(m.node(st, 'NodeH', nodes[0][2]), m.nid), 32)), k):
        return 'the node entered in the node table does not carry its own number'
    params = {'nbr': g.args[2]} if g.kind == UND else {'in': g.args[2], 'out': g.args[3]}
    for f, a in params.items():
        steps = [(x[2], x[3]) for x in st.mon if x[0] == 'set' and x[1][2] == f and m.same(g.eng, st, x[1][1], k)]
        if not steps or steps[0][0] not in ('operator=', 'AddV', 'AddVMerged') or steps[0][1] is not a:
            return 'the %s list of the new node is not the given one' % f
        if not any(s[0] == 'Sort' for s in steps[1:]):
            return 'the %s list of the new node is not sorted' % f
    if g.kind == UND:
        l = mk('pure', 'len', ('given',), 32)
        if not any(x[0] == 'turn' and x[2] in ('?', 'given') and m.index(g.eng, st, x[1], 'given', l, True) for x in st.mon):
            return 'not every neighbour learns of the new node'
        d = g.delta(st, 'NEdges')
        if not (len(d) == 1 and list(d.values()) == [1] and list(d)[0].op == 'pure' and list(d)[0].a[0] == 'len'):
            return 'the number of edges does not increase by the number of neighbours'
    return bound(g, st, 'MxNId', None, k)


# ---------------------------------------------------------------- graphs with an edge table: search and removal
class EdgeMon(NodeMon):
    """IsEdge: a turn passes an edge that does not lead to the wanted node"""

    def on_turn(self, eng, st, F, effs, before):
        h = hash_uid((tuple(eng.callstack), F.name, 'h', eng.at_header))
        inst = F.blocks[eng.at_header][-1]
        if effs:
            self.fail(inst, 'a question changes the graph')
        for f in ('in', 'out'):
            v = ('NodeH', self.n, f)
            idx = self.index(eng, st, h, v, mk('pure', 'len', v + (0,), 32))
            if idx is not None and before in ('?', f):
                elt = strip(eng.load(st, P(mk('arg', ('elt', v, idx, 0), 64, 'nn'), 0), 32))
                o = strip(eng.load(st, shift(P(self.node(st, 'EdgeH', elt), 0), self.edge['DstNId' if f == 'out' else 'SrcNId']), 32))
                if not self.differ(eng, st, o, self.vals[1]):
                    self.fail(inst, 'an edge in the %s list is passed over although it may lead to the wanted node' % f)
                return f
        return None


def edge_search(mod, rep):
    for cls, kind in CLASSES:
        if kind == EDG:
            for F in fns(mod, cls, 'IsEdge', 5):
                G(mod, rep, cls, kind, F, EdgeMon).run('is edge', find_edge)


def find_edge(g, e):
    st, m = e.st, g.mon
    src, dst = g.vals[0], g.vals[1]
    r = g.eng.decide(st, e.val)
    flag = g.eng.decide(st, g.eng.ext('trunc', g.eng.load(st, g.args[4], 8), 8, 1))
    if r is None:
        return 'the answer is not known'
    if r is False:
        nodes = [g.eng.decide(st, mk('pure', 'iskey', ('NodeH', n, 0), 1)) for n in (src, dst)]
        if False in nodes:
            return None
        if not covered(g, st, ('NodeH', src, 'out')) or flag is not True and not covered(g, st, ('NodeH', src, 'in')):
            return 'an existing edge may not be found'
        return None
    v = strip(g.eng.load(st, g.args[3], 32))
    for f in ('out', 'in'):
        cand = {}
        for x in list(terms(st)) + [v]:
            m.elt_in(strip(x), cand)
            x = strip(x)
            if x.op == 'ld' and x.a[1].op in ('p', 'arg'):
                b = x.a[1].a[0] if x.a[1].op == 'p' else x.a[1]
                if b.op == 'arg' and isinstance(b.a[0], tuple) and b.a[0][0] == 'node':
                    m.elt_in(strip(b.a[0][2]), cand)
        for elt, d in cand.items():
            if d[1] != ('NodeH', src, f):
                continue
            ed = P(m.node(st, 'EdgeH', elt), 0)
            if not any(m.same(g.eng, st, v, y) for y in (elt, strip(g.eng.load(st, shift(ed, m.edge['Id']), 32)))):
                continue
            if m.same(g.eng, st, strip(g.eng.load(st, shift(ed, m.edge['DstNId' if f == 'out' else 'SrcNId']), 32)), dst):
                if f == 'in' and flag is not False:
                    return 'an edge in the opposite direction is reported although the direction matters'
                return None
    return 'the number of the edge is not that of an edge between the two nodes'


FOUND = mk('arg', 'edge found', 32)
GB, GP = 7000, 7001


class RemovalMon(NodeMon):
    """DelEdge between two nodes: an edge that was found is removed from both lists and from the edge table"""

    def on_call(self, eng, st, x, fn, args):
        m = method(fn)
        base = re.sub('<.*>', '', self.cls)
        if m == base + '::IsEdge' and len(args) == 5:
            self.settle(eng, st, x)
            b = mk('fresh', eng.site(st, x), 'isedge', 1)
            eng.store(st, args[3], FOUND)
            same = [strip(eng.load(st, a, 32)) for a in args[1:3]]
            if same != self.vals[:2]:
                self.fail(x, 'the edges of other nodes are searched')
            f1, f2 = (eng.decide(st, eng.ext('trunc', eng.load(st, a, 8), 8, 1)) for a in (args[4], self.flag))
            if eng.load(st, args[4], 8) is not eng.load(st, self.flag, 8) and f1 != f2:
                self.fail(x, 'the direction is not passed on')
            st.mem[(GH, GB)] = b
            st.mon = ('open',)
            return [(st, b)]
        if m == base + '::DelEdge' and len(args) == 2:
            if strip(eng.load(st, args[1], 32)) is FOUND:
                st.mon = st.mon + ('all',)
            else:
                self.fail(x, 'another edge is removed')
            return [(st, None)]
        return NodeMon.on_call(self, eng, st, x, fn, args)

    def at_loop(self, eng, st, F):
        pass

    def version(self, eng, st, v):
        return 0

    def settle(self, eng, st, x):
        """is the edge that was found last completely removed (or not touched at all)?"""
        effs = [e for e in st.mon if isinstance(e, tuple)]
        if 'all' in st.mon or not effs:
            return
        src, dst = self.vals[0], self.vals[1]
        flag = eng.decide(st, eng.ext('trunc', eng.load(st, self.flag, 8), 8, 1))
        want = [('del', ('NodeH', src, 'out'), FOUND), ('del', ('NodeH', dst, 'in'), FOUND), ('delnode', 'EdgeH', FOUND)]
        if flag is not True:
            want += [('del', ('NodeH', dst, 'out'), FOUND), ('del', ('NodeH', src, 'in'), FOUND)]
        for w in want:
            if not any(e[0] == w[0] and e[1] == w[1] and e[2] is w[2] for e in effs):
                self.fail(x, 'an edge that was found is not completely removed: "%s" does not happen' % show_eff(w))
                return


def edge_removal(mod, rep):
    for cls, kind in CLASSES:
        if kind == EDG:
            for F in fns(mod, cls, 'DelEdge', 4):
                g = G(mod, rep, cls, kind, F, RemovalMon)
                g.mon.flag = g.args[3]
                g.every = cls != 'TNodeEdgeNet<TInt, TFlt>'
                g.run('delete edge', remove_found, ' between two nodes')


def remove_found(g, e):
    st, m = e.st, g.mon
    if (GH, GB) not in st.mem:
        return 'the edges are not searched'
    b = g.eng.decide(st, st.mem[(GH, GB)])
    m.settle(g.eng, st, e.inst)
    if b is not False and not [x for x in st.mon if x != 'open']:
        return 'an edge that was found is not removed'
    if g.every and b is not False:
        return 'not every edge is removed'
    return None


# ---------------------------------------------------------------- bipartite graphs
class BPMon(NodeMon):
    def tabs_of(self, eng, st):
        return ['LeftH', 'RightH']

    def other(self, tab):
        return {'LeftH': 'RightH', 'RightH': 'LeftH'}[tab]


def bipartite(mod, rep):
    cls = 'TBPGraph'
    for name, n, check, kind in (('AddEdge', 3, bp_add, 'add edge'), ('DelEdge', 3, bp_del, 'delete edge'), ('DelNode', 2, bp_del_node, 'delete node'), ('AddNode', 3, bp_add_node, 'add node'), ('IsEdge', 3, bp_is, 'is edge')):
        for F in fns(mod, cls, name, n):
            if 'TNode const' in F.dem or 'TNodeI' in F.dem:
                continue
            G(mod, rep, cls, 'bp', F, BPMon).run(kind, check)


def side(g, st, n, upto=0):
    """the table a node is in, as far as the branches tell"""
    l, r = (g.eng.decide(st, mk('pure', 'iskey', (t, n, 0), 1)) for t in ('LeftH', 'RightH'))
    return 'LeftH' if l is True and r is not True else 'RightH' if r is True and l is not True else 'LeftH' if l is True else None


def bp_pair(g, st):
    a, b = g.vals[0], g.vals[1]
    sa, sb = side(g, st, a), side(g, st, b)
    if sa is None or sb is None or sa == sb:
        return None
    return [((sa, a, 'nbr'), b), ((sb, b, 'nbr'), a)]


def bp_add(g, e):
    st, m = e.st, g.mon
    want = bp_pair(g, st)
    if want is None:
        return 'an edge is accepted although its end points are not on different sides'
    effs = drop(st.mon)
    known = [any_cmp(g.eng, st, 'ne', mk('pure', 'find', v + (val, 0), 32), C(-1, 32)) for v, val in want]
    if is_c(e.val) and e.val.a[0] == -2:
        if effs:
            return 'the edge exists already, but "%s"' % show_eff(effs[0])
        return None if True in known else 'an edge may be refused although it does not exist'
    r = wrong(*match(g, st, want, effs, ('add',)))
    return r or (None if False in known else 'an edge that exists already may be entered again')


def bp_del(g, e):
    st, m = e.st, g.mon
    want = bp_pair(g, st)
    if want is None:
        return 'the end points are not on different sides'
    miss, rest = match(g, st, want, drop(st.mon), ('del',))
    return wrong([w for w in miss if not m.absent(g.eng, st, *w)], rest)


def bp_del_node(g, e):
    st, m = e.st, g.mon
    s = side(g, st, m.n)
    if s is None and g.eng.decide(st, mk('pure', 'iskey', ('LeftH', m.n, 0), 1)) is False:
        s = 'RightH'
    if s is None:
        return 'the side of the node is not looked at'
    if not st.mon or st.mon[-1][0] != 'delnode' or st.mon[-1][1] != s or not m.same(g.eng, st, st.mon[-1][2], m.n):
        return 'the node is not removed from its table at the end'
    if len(drop(st.mon)) != 1:
        return '"%s" is not expected' % show_eff(drop(st.mon)[0])
    return None if covered(g, st, (s, m.n, 'nbr')) else 'the edges of the node are not all taken back'


def bp_add_node(g, e):
    st, m = e.st, g.mon
    k = strip(e.val)
    effs = drop(st.mon)
    left = g.eng.decide(st, g.eng.ext('trunc', g.eng.load(st, g.args[2], 8), 8, 1))
    if not effs:
        s = side(g, st, k)
        if s is None or left is not (s == 'LeftH'):
            return 'a node is not entered although it does not exist on the side asked for'
        return None if m.same(g.eng, st, k, g.vals[0]) else 'the node is not the one asked for'
    if left is None or len(effs) != 1 or effs[0][0] != 'addnode' or effs[0][1] != ('LeftH' if left else 'RightH') or not m.same(g.eng, st, effs[0][2], k):
        return 'the node is not entered once on the side asked for under the number that is returned'
    if effs[0][3] is None or not m.same(g.eng, st, effs[0][3][0], k):
        return 'the node that is entered does not carry its own number'
    if m.same(g.eng, st, g.vals[0], C(-1, 32)):
        if not m.same(g.eng, st, k, g.fld(g.st0, 'MxNId')):
            return 'a node without a number does not get the next free number'
    else:
        if not m.same(g.eng, st, k, g.vals[0]):
            return 'the node is not entered under the number asked for'
        if [g.eng.decide(st, mk('pure', 'iskey', (t, k, 0), 1)) for t in ('LeftH', 'RightH')] != [False, False]:
            return 'a node that exists already may be entered again'
    return bound(g, st, 'MxNId', None, k)


def bp_is(g, e):
    st0, m = e.st, g.mon
    a, b = g.vals[0], g.vals[1]
    if drop(st0.mon):
        return 'a question changes the graph'
    for truth in (True, False):
        st = st0.copy()
        d = g.eng.decide(st, e.val)
        if d is not None and d is not truth or d is None and g.eng.assume(st, e.val, truth) is False:
            continue
        s = side(g, st, a)
        has = [g.eng.decide(st, mk('pure', 'iskey', (t, n, 0), 1)) for n in (a, b) for t in ('LeftH', 'RightH')]
        fd = any_cmp(g.eng, st, 'ne', mk('pure', 'find', ((s, a, 'nbr') if s else ('LeftH', a, 'nbr')) + (b, 0), 32), C(-1, 32))
        if truth and fd is not True:
            return 'an edge is reported that does not exist'
        if not truth and not (has[:2] == [False, False] or has[2:] == [False, False] or fd is False):
            return 'an existing edge is not reported'
    return None
