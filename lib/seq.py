"""Cursors over ordered sequences: which rows does a piece of code pass over, and what does it know about them?

A cursor is a member (or pointer) that designates the next row.  At every loop head and at every exit the distance from the
last checkpoint is computed as a linear form; every row that was passed has to be justified by a predicate of the rule,
decided from the branch facts that hold on the path."""
from absint import *

GH = mk('ghost', 'seq')
CUR = 9000


def lin(e, d=None, k=1):
    """linear form {term: coefficient}, extensions and truncations transparent"""
    if d is None:
        d = {}
    if is_c(e):
        return _acc(d, 1, e.a[0] * k)
    if e.op in ('sext', 'zext', 'trunc'):
        return lin(e.a[0], d, k)
    if e.op == 'p':
        lin(e.a[0], d, k) if e.a[0].op in ('bin', 'p', 'pv') else _acc(d, e.a[0], k)
        return _acc(d, 1, e.a[1] * k)
    if e.op == 'pv':
        lin(e.a[0], d, k) if e.a[0].op in ('bin', 'p', 'pv') else _acc(d, e.a[0], k)
        _acc(d, 1, e.a[1] * k)
        for v, c in e.a[2]:
            lin(v, d, k * c)
        return d
    if e.op == 'bin':
        op, x, y = e.a[0], e.a[1], e.a[2]
        if op in ('add', 'sub'):
            lin(x, d, k)
            return lin(y, d, k if op == 'add' else -k)
        if op == 'mul' and (is_c(x) or is_c(y)):
            c, z = (x, y) if is_c(x) else (y, x)
            return lin(z, d, k * c.a[0])
        if op == 'shl' and is_c(y):
            return lin(x, d, k << y.a[0])
        if op == 'xor' and is_c(y) and y.a[0] == -1:
            _acc(d, 1, -k)
            return lin(x, d, -k)
    return _acc(d, e, k)


def _acc(d, t, k):
    c = d.get(t, 0) + k
    if c:
        d[t] = c
    else:
        d.pop(t, None)
    return d


def ladd(a, b, k=1):
    d = dict(a)
    for t, c in b.items():
        _acc(d, t, c * k)
    return d


def lkey(d):
    return frozenset(d.items())


def const(d):
    """the value of a constant linear form, None otherwise"""
    return None if [t for t in d if t != 1] else d.get(1, 0)


def terms(st):
    """symbols about which something is known on this path"""
    out = set(st.dom)
    for p, a, b in st.rel:
        out.add(a)
        out.add(b)
    return out


def any_cmp(eng, st, l, a, b):
    """a l b, signed or unsigned (values are non-negative)"""
    if l in ('eq', 'ne'):
        r = eng.decide_cmp(st, l, a, b)
        if r is None and a.op != 'c' and b.op != 'c':
            # distances
            d = st.dom.get(mk('bin', 'sub', a, b))
            if d is not None:
                r = d.decide(l, 0)
            if r is None:
                d = st.dom.get(mk('bin', 'sub', b, a))
                if d is not None:
                    r = d.decide(l, 0)
        return r
    for s in 'su':
        r = eng.decide_cmp(st, s + l, a, b)
        if r is not None:
            return r
    for x, y, q in ((a, b, l), (b, a, {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}[l])):
        d = st.dom.get(mk('bin', 'sub', x, y))
        if d is not None:
            r = d.decide('s' + q, 0)
            if r is not None:
                return r
    return None


class SeqMon(Monitor):
    induct = True

    def __init__(self, mod, rep):
        self.mod, self.rep = mod, rep
        self.turns = {}        # turn symbol -> all rows passed in that loop are justified
        self.odd = []
        self.lost = []

    def protected(self, eng, st, base):
        return True

    def clobbers_world(self, eng, st, inst, fn, args):
        return False

    cls = None

    def target(self, eng, st, name, args):
        """virtual calls on the object itself reach its own class"""
        import ops
        if self.cls and name.startswith('<virtual:') and args and args[0] is eng.this:
            m = ops.virt_slots(self.mod, self.cls).get(int(name[9:-1]))
            for F in self.mod.fns.values():
                if m and F.sname == self.cls + '::' + m and len(F.args) == len(args):
                    return F.name
        return None

    # ---- to be provided
    def cur(self, eng, st):
        """the cursor (an expression)"""
        raise NotImplementedError

    def row(self):
        """size of a row in cursor units"""
        return 1

    def passed(self, eng, st, pos):
        """may the row at linear form pos be passed on this path? True, False or None (not known)"""
        return None

    def jump(self, eng, st, frm, to):
        """a distance that is not a number of rows"""
        return None

    def begin(self, eng, st):
        st.mem[(GH, CUR)] = self.cur(eng, st)

    # ----
    def turn(self, eng, F, h):
        return mk('w', hash_uid((tuple(eng.callstack), F.name, 'h', h)), 'turn', 64)

    def leg(self, eng, st, F, inst, what):
        """checks the way from the last checkpoint to the current position"""
        g, c = st.mem[(GH, CUR)], self.cur(eng, st)
        frm, to = lin(g), lin(c)
        d = ladd(to, frm, -1)
        st.mem[(GH, CUR)] = c
        if not d:
            return
        ts = [t for t in d if isinstance(t, E) and t.op == 'w' and len(t.a) > 1 and t.a[1] == 'turn']
        rest = dict(d)
        for t in ts:
            del rest[t]
        n = const(rest)
        key = '%s:%s' % (F.sname, what)
        s = self.row()
        if n is None or n < 0 or n % s or any(d[t] != s for t in ts) or n > 8 * s or len(ts) > 1:
            r = self.jump(eng, st, frm, to)
            if r is None:
                self.odd.append((key, inst))
            elif r is not True:
                self.lost.append((F, inst, key, r))
            else:
                self.rep.ok('pass', key + ':jump')
            return
        if ts:
            ok = self.turns.get((ts[0], lkey(frm)))
            if ok is None:
                self.odd.append((key, inst))
            elif ok is not True:
                self.lost.append((F, ok, key, 'a row may be passed over without the test that allows it'))
            else:
                self.rep.ok('pass', key + ':loop')
            frm = ladd(frm, {ts[0]: s})
        for j in range(0, n, s):
            r = self.passed(eng, st, ladd(frm, {1: j}))
            if r is True:
                self.rep.ok('pass', key)
            elif r is False:
                self.lost.append((F, inst, key, 'a row may be passed over without the test that allows it'))
            else:
                self.odd.append((key, inst))

    def at_loop(self, eng, st, F):
        if (GH, CUR) not in st.mem:
            return
        h = eng.at_header
        inst = F.blocks[h][-1]
        if eng.at_back:
            # rows counted by the loop itself (a local cursor)
            t = self.turn(eng, F, h)
            base = lin(st.mem[(GH, CUR)])
            k = (t, lkey(base))
            r = self.passed(eng, st, ladd(base, {t: self.row()}))
            if self.turns.get(k, True) is True:
                self.turns[k] = True if r is True else inst
        self.leg(eng, st, F, inst, 'loop')

    def report(self, rep, F):
        for G, inst, key, msg in self.lost:
            import ops
            rep.fail('pass', key, ops.where(G, inst), msg)
        if not self.lost:
            for key, inst in self.odd:
                rep.undecided('pass', key, 'movement of the cursor is not recognised (line %s)' % (inst or {}).get('l'))
