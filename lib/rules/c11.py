"""C11: copies and stored forms keep every member."""
import re
import build, eff
from ops import where
from seq import *
from c10 import method, strip

UNITS = [(build.VERIF + '/lib/units/snapall.cpp', ['-femit-all-decls', '-Xclang', '-mno-constructor-aliases'])]
STOP = [r'^(.* )?std::', r'^__gnu', r'^([^(]* )?(TExcept|TStr|ErrNotify|SaveToErrLog|ExeStop|FailR|TMemIn|TMemOut|TRnd|TFOut|TFIn)']
QUIET = ('TCRef',)   # reference counts are not part of the value


def norm(t):
    t = re.sub(r'\s+', '', t.replace('const', '').replace('class', '')) if t else t
    return t


class Mod(Module):
    def norms(self):
        if not hasattr(self, '_n'):
            self._n = {}
            for r in self.records:
                self._n.setdefault(norm(r), r)
        return self._n

    def rec(self, name):
        return self.norms().get(norm(name))

    def sizeat(self, rec, off):
        for n, o, s, t in self.allfields(rec):
            if o == off:
                return s
        return None


def module():
    return Mod(build.dump(UNITS, [r'^([^(]* )?(T[A-Z]|S[A-Z])[A-Za-z0-9]*(<[^(]*>)?::'], stop=STOP))


def split(dem):
    """class, method, parameter list of a demangled name"""
    depth = 0
    i = dem.find('::operator()(')
    j = None
    for k, ch in enumerate(dem):
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        elif ch == '(' and depth == 0 and not dem[:k].endswith('operator'):
            j = k
            break
    if j is None:
        return None, dem, ''
    head, par = dem[:j], dem[j + 1:dem.rfind(')')]
    depth = 0
    cut = None
    start = 0
    for k, ch in enumerate(head):
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        elif depth == 0 and ch == ' ' and 'operator' not in head[:k]:
            start = k + 1
        elif depth == 0 and head.startswith('::', k):
            cut = k
    if cut is None:
        return None, head[start:], par
    return head[start:cut], head[cut + 2:], par


def short(cls):
    return re.sub(r'<.*>', '', cls).split('::')[-1]


def copiers(mod):
    """(function, class record, kind) of every copy constructor and copy assignment"""
    seen = set()
    for F in sorted(mod.fns.values(), key=lambda f: (f.dem, f.name)):
        if F.dem in seen:
            continue
        cls, m, par = split(F.dem)
        if not cls or norm(par) != norm(cls) + '&' or not par.endswith('const&'):
            continue
        r = mod.rec(cls)
        if r is None or len(F.args) < 2:
            continue
        if m == short(cls) or m.split('<')[0] == short(cls):
            seen.add(F.dem)
            yield F, r, 'constructor'
        elif m == 'operator=':
            seen.add(F.dem)
            yield F, r, 'assignment'


BYDESIGN = {   # members a copy is documented or meant not to take over
    'TVec': ('MxVals',), 'TMem': ('MxBfL',), 'TChA': ('MxBfL',),          # reserved capacity
    'TBSet': ('LastB4Mask', 'B4s'),                                              # computed from the number of bits
    'TTable': ('IntColIndexes', 'StrMapColIndexes', 'FltColIndexes', 'AggrPolicy', 'RowIdBuckets', 'CurrBucket'),               # where an iteration over its graphs stands
    'TDirNet': ('SAttrN', 'SAttrE'), 'TUndirNet': ('SAttrN', 'SAttrE'), 'TNEANet': ('SAttrN', 'SAttrE'),
}
ATTR = ('KeyToIndex', 'IntDefaults', 'StrDefaults', 'FltDefaults', 'VecOf')


def add(st, e):
    if e not in st.mon:
        st.mon = st.mon + (e,)


class CopyMon(Monitor):
    """st.mon: (offset, size, offset in the other) of every part of this that was set from the other object, and
    ('buf', destination, source, length or step) for copied memory"""
    fork = False
    induct = meminduct = True
    indirect = False    # members are written through pointers kept in local variables

    def __init__(self, mod, F):
        self.mod, self.F = mod, F
        self.this = self.other = None

    def off(self, p, base):
        if p is base:
            return 0
        if isinstance(p, E) and p.op == 'p' and p.a[0] is base:
            return p.a[1]
        return None

    def on_call(self, eng, st, x, fn, args):
        if fn.startswith(('ExeStop(', 'TExcept::Throw')):
            return [('unwind', st, None)]
        if '::$_' in fn or '{lambda' in fn or "'lambda" in fn:
            return None
        cls, m, par = split(fn)
        t = self.off(args[0], self.this) if args else None
        val = None if x['t'] == 'v' else args[0] if x['t'] == 'p' and args and isinstance(args[0], E) else mk('fresh', eng.site(st, x), 'r', tw(x['t']), *[a for a in args if isinstance(a, E)]) 
        r = self.mod.rec(cls) if cls else None
        if t is not None:
            for a in args[1:]:
                o = self.off(a, self.other) if isinstance(a, E) else None
                if o is None:
                    continue
                if fn.startswith('llvm.mem'):
                    n = args[2].a[0] if len(args) > 2 and is_c(args[2]) else 0
                elif r is not None and t == 0 and r == self.rec0 and len(eng.callstack) < 4:
                    return None      # the same copy under another name, or a helper
                elif r is not None:
                    n = self.mod.records[r]['size']
                else:
                    n = self.mod.sizeat(self.rec0, t)
                    if n is None:
                        continue
                add(st, (t, n, o))
                return [(st, val)]
        if fn.startswith('llvm.mem') and len(args) > 2:
            add(st, ('buf', args[0], args[1], args[2]))
            return [(st, val)]
        if fn.startswith('strcpy') and len(args) > 1:
            add(st, ('buf', args[0], args[1], None))
            return [(st, val)]
        if t is None and r is not None and len(args) == 2 and norm(par) == norm(cls) + '&' and all(isinstance(a, E) and width(a) in (64, None) for a in args):
            self.elem(st, args[0], args[1])
            return [(st, val)]
        if any(isinstance(a, E) and (self.off(a, self.this) is not None or self.off(a, self.other) is not None) for a in args):
            own = t == 0 and r == self.rec0 or args and isinstance(args[0], E) and self.off(args[0], self.other) is not None
            if own or fn.startswith('operator new'):
                return None
            if t is not None and t > 0 and r is not None and not m.startswith('~') and (m == 'operator=' or any(isinstance(a, E) and touches(a, self.other) for a in args[1:])):
                # a method of a member, called with something read from the other object
                add(st, (t, self.mod.records[r]['size'], t))
                return [(st, val)]
        if t is not None and len(args) == 1 and r is not None and m.split('<')[0] == short(cls) and r != self.rec0:
            add(st, ('init', t, self.mod.records[r]['size']))
        if fn.startswith('llvm.') and not fn.startswith('llvm.mem') or fn.startswith('operator new') or fn.startswith('malloc'):
            return None
        if val is not None and val is args[0] if args else False:
            val = mk('fresh', eng.site(st, x), 'r', tw(x['t']), *[a for a in args if isinstance(a, E)])
        return [(st, val)]

    def elem(self, st, dst, src):
        b, k, ts = pos(src)
        if touches(b, self.other):
            if not k and not ts and not pos(dst)[1] and not pos(dst)[2]:
                add(st, ('one', pos(dst)[0], b))
            dk, dts = pos(dst)[1:]
            step = ts[0][1] if ts else 0
            same = len(ts) == len(dts) == 1 and dts[0][1] == step and sym(ts[0][0]) == sym(dts[0][0])
            add(st, ('elem', b, same if len(ts) == 1 and len(dts) == 1 else None, k, step, sym(ts[0][0]) if ts else None))

    def inline(self, eng, st, G):
        c = split(G.dem)[0]
        return c and self.mod.rec(c) == self.rec0 and len(G.blocks) < 200 or len(eng.callstack) < 4 and sum(len(b) for b in G.blocks) <= 60 and len(G.blocks) <= 12

    def on_store(self, eng, st, inst, ptr, val, size):
        if isinstance(val, E) and self.off(val, self.this) and ptr.op in ('p', 'pv') and ptr.a[0].op == 'alloca':
            self.indirect = True
        if ptr.op == 'pv' and isinstance(val, E) and val.op == 'ld':
            self.elem(st, ptr, val.a[1])


def sym(e):
    """a linear form as text and constant, to outlive the turn it belongs to"""
    l = lin(e)
    return ' '.join(sorted('%s*%s' % (show(t), c) for t, c in l.items() if t != 1)), l.get(1, 0)


def width(e):
    return None if e.op in ('p', 'pv', 'arg', 'new') else 64


def touches(e, base):
    if e is base:
        return True
    for y in e.a:
        if isinstance(y, E) and touches(y, base):
            return True
        if isinstance(y, tuple) and any(isinstance(z, E) and touches(z, base) for z in y):
            return True
    return False


def leaves(mod, rec, base=0):
    for n, o, s, t in mod.allfields(rec):
        r = mod.rec(t)
        if n.startswith('_vptr') or t in QUIET:
            continue
        if r is not None and not mod.allfields(r):
            if mod.records[r]['size'] <= 1 or s not in (4, 8):
                continue
            r = None      # an enumeration
        yield n, base + o, s, t, r


def skip(rec, n):
    c = short(rec)
    return n in BYDESIGN.get(c, ()) or c in ('TDirNet', 'TUndirNet', 'TNEANet') and (n in ('SAttrN', 'SAttrE') or n.startswith(ATTR))


def covered(g, mod, st, rec, top, base=0, pre=''):
    """(member, offset, verdict, value) for the members of this that do not simply hold a copy"""
    out = []
    for n, o, s, t, r in leaves(mod, rec, base):
        if not pre and skip(top, n):
            continue
        hit = [e for e in st.mon if isinstance(e[0], int) and e[0] <= o and o + s <= e[0] + e[1]]
        if hit:
            if hit[-1][0] != hit[-1][2]:
                out.append((pre + n, o, 'other', None))
            continue
        if t.startswith('TPt<') and any(e[0] == 'init' and e[1] == o for e in st.mon):
            out.append((pre + n, o, 'null', None))
            continue
        if r is not None:
            out += covered(g, mod, st, r, top, o, pre + n + '.')
            continue
        w = s * 8
        if t.startswith('std::') and s > 8:
            w = 64        # its first word tells whether it was ever set
        if w not in (8, 16, 32, 64):
            if r is None and s > 8 and g.load(st, P(g.mon_this, o + s - 8), 64) is g.load(g.st0, P(g.mon_this, o + s - 8), 64) and any(isinstance(e[0], int) and o <= e[0] < o + s for e in st.mon):
                out.append((pre + n, o, 'none', None))     # its end is not set
            continue
        v = g.load(st, P(g.mon_this, o), w)
        if t.endswith('*') and mod.rec(t[:-1]) == top and o in owned(mod, top):
            ov = g.load(g.st0, P(g.mon_other, o), w)
            if any(e[0] == 'one' and e[1] is pos(v)[0] and e[2] is ov for e in st.mon):
                continue
            if not (is_c(v) and v.a[0] == 0 and any(p == 'eq' and a is ov and is_c(b) and b.a[0] == 0 for p, a, b in st.rel)):
                out.append((pre + n, o, 'shared' if v is ov else 'unknown' if v.op in ('w', 'fresh', 'call', 'old', 'sym') else 'none', v))
            continue
        if v is g.load(g.st0, P(g.mon_other, o), w):
            continue
        ov = g.load(g.st0, P(g.mon_other, o), w)
        if any(p == 'eq' and a is v and b is ov for p, a, b in st.rel):
            continue
        srcs = set()
        roots(v, g.mon_other, srcs)
        if t.endswith('*') and (v.op in ('p', 'pv', 'new', 'fresh', 'call', 'w') or is_c(v) and v.a[0] == 0):
            out.append((pre + n, o, 'null' if is_c(v) else 'array', v))
        elif t.endswith('*') and (v.op != 'ld' or any(e[0] == 'buf' and pos(e[1])[0] is v or e[0] == 'elem' for e in st.mon)):
            out.append((pre + n, o, 'array', v))
        elif v.op in ('fresh', 'call') or v.op == 'w' and g.loops:
            continue
        elif not srcs:
            out.append((pre + n, o, 'none', v))
        elif o not in srcs:
            out.append((pre + n, o, 'other', v))
    return out


class DropMon(Monitor):
    def __init__(self):
        self.out = set()

    def on_call(self, eng, st, x, fn, args):
        if fn.startswith('operator delete') or '::~' in fn:
            e = args[0] if args and isinstance(args[0], E) else None
            if e is not None and e.op == 'ld':
                a = e.a[1]
                if a is self.this:
                    self.out.add(0)
                elif isinstance(a, E) and a.op == 'p' and a.a[0] is self.this:
                    self.out.add(a.a[1])
        if fn.startswith('llvm.'):
            return None
        return [(st, None if x['t'] == 'v' else mk('fresh', eng.site(st, x), 'r', tw(x['t'])))]


def owned(mod, rec):
    """offsets of the members that the destructor deletes"""
    if not hasattr(mod, '_owned'):
        mod._owned = {}
    if rec not in mod._owned:
        out = set()
        for F in mod.fns.values():
            cls, m, par = split(F.dem)
            if m == '~' + short(rec) and cls and mod.rec(cls) == rec and F.args:
                mon = DropMon()
                args = eff.argvec(F)
                mon.this = args[0]
                try:
                    list(eff.exits(Engine(mod, mon), F, args, new_state(())))
                except AnalysisLimit:
                    pass
                out |= mon.out
        mod._owned[rec] = out
    return mod._owned[rec]


def roots(e, other, out):
    if not isinstance(e, E):
        return
    if e.op == 'ld':
        p = e.a[1] if isinstance(e.a[1], E) else None
        if p is not None:
            if p is other:
                out.add(0)
            elif p.op == 'p' and p.a[0] is other:
                out.add(p.a[1])
    for x in e.a:
        if isinstance(x, E):
            roots(x, other, out)
        elif isinstance(x, tuple):
            for y in x:
                roots(y, other, out)


def pos(p):
    """(base, constant, ((term, step), ..)) of a pointer"""
    if p.op == 'pv':
        return p.a[0], p.a[1], p.a[2]
    if p.op == 'p':
        return p.a[0], p.a[1], ()
    return p, 0, ()


def contents(g, mod, st, rec, o, src, events):
    """is the array the other object holds at src copied completely?  True, an explanation, or None if that cannot be said"""
    counts = {}
    for n, co, s, t, r in leaves(mod, rec):
        if s in (4, 8) and not t.endswith('*') and not any(x in t for x in ('double', 'float')):
            counts[g.load(g.st0, P(g.mon_other, co), s * 8)] = n
    lcounts = {lkey(lin(c)): n for c, n in counts.items()}
    best = 'its contents are not copied'
    for e in events:
        if e[0] == 'buf':
            b, k, ts = pos(e[2])
            if b is not src:
                continue
            if k or ts or pos(e[1])[1] > 16:
                best = 'its contents are not copied from the start'
                continue
            if e[3] is None:
                return True
            l = lin(e[3])
            hit = None
            for c in counts:
                k = [l[x] / y for x, y in lin(c).items() if x != 1 and x in l]
                d = ladd(l, lin(c), -k[0] if k and k[0] >= 1 and k[0] == int(k[0]) else -1)
                if const(d) is not None:
                    hit = const(d) if hit is None else max(hit, const(d))
            if hit is None:
                best = None if best != True else best
            elif hit < 0:
                best = 'its last %d bytes are not copied' % -hit
            else:
                return True
        elif e[0] == 'elem':
            b, same, k, step, ix = e[1:]
            if b is not src:
                continue
            if same is None:
                best = None
                continue
            if not same:
                return 'its elements are copied to other places'
            if k + step * ix[1] > 0:
                return 'its elements are not copied from the start'
            end = None
            for op, a, b2 in st.rel:
                if op not in ('sge', 'uge', 'eq'):
                    continue
                d = sym(a)
                if d[0] != ix[0]:
                    continue
                for c in counts:
                    m = ladd(lin(b2), lin(c), -1)
                    if const(m) is not None:
                        # index + d >= count + m
                        v = const(m) - d[1] + ix[1]
                        end = v if end is None else max(end, v)
            if end is None:
                best = None
            elif end < 0:
                return 'its last %d elements are not copied' % -end
            else:
                return True
    return best


def copies(mod, rep):
    rep.rule('every member of a class holds a copy of the same member of the other object when a copy constructor or an assignment returns; arrays are copied from the first to the last element')
    for F, rec, kind in copiers(mod):
        mon = CopyMon(mod, F)
        args = eff.argvec(F)
        mon.this, mon.other, mon.rec0 = args[0], args[1], rec
        eng = Engine(mod, mon)
        eng.mon_this, eng.mon_other = args[0], args[1]
        st = new_state(())
        eng.st0 = st
        s0 = st.copy()
        key = '%s %s' % (rec, kind)
        try:
            eng.assume_cmp(s0, 'ne', args[0], args[1])
            ex = eff.exits(eng, F, args, s0)
        except AnalysisLimit as e:
            rep.undecided('copy', key, repr(e)[:200])
            continue
        rep.fn(F)
        if not ex:
            continue     # not supported by this class: the function always stops
        bad = und = None
        arrays = {}
        loops = [m for e in ex for m in e.st.mon if m[0] == 'elem']
        eng.loops = loops
        for e in ex:
            cov = covered(eng, mod, e.st, rec, rec)
            for f, o, why, v in cov:
                if why == 'none' and mon.indirect:
                    und = 'what the member %s becomes' % f
                elif why == 'none':
                    bad = (e.inst, 'the member %s does not depend on the other object' % f)
                elif why == 'unknown':
                    und = 'what the member %s becomes' % f
                elif why == 'shared':
                    bad = (e.inst, 'the member %s is the one of the other object, which both will delete' % f)
                elif why == 'other':
                    bad = (e.inst, 'the member %s is set from another member' % f)
                elif why == 'null':
                    arrays.setdefault((f, o), set()).add('null')
                elif why == 'array':
                    src = eng.load(eng.st0, P(eng.mon_other, o), 64)
                    c = contents(eng, mod, e.st, rec, o, src, list(e.st.mon) + loops)
                    arrays.setdefault((f, o), set()).add(c)
                    if c is None:
                        und = 'how the array %s is copied' % f
                    elif c is not True:
                        bad = (e.inst, 'the member %s is a new array, but %s' % (f, c))
        for (f, o), how in arrays.items():
            if how == {'null'} and all(f in {c[0] for c in covered(eng, mod, e.st, rec, rec)} for e in ex):
                bad = (None, 'the member %s does not depend on the other object' % f)
        if bad:
            rep.fail('copy', key, where(F, bad[0]), bad[1])
        elif und:
            rep.undecided('copy', key, und)
        else:
            rep.ok('copy', key)


# ---------------------------------------------------------------- stored forms
START, END = ('start', None), ('end', None)


def streams(mod):
    """record -> (the functions that write it, the functions that read it)"""
    out = {}
    seen = set()
    for F in sorted(mod.fns.values(), key=lambda f: (f.dem, f.name)):
        cls, m, par = split(F.dem)
        if not cls or F.dem in seen:
            continue
        r = mod.rec(cls)
        if r is None or len(F.args) < 2:
            continue
        p0 = par.split(',')[0].strip()
        seen.add(F.dem)
        if m == 'Save' and p0 == 'TSOut&' and (par.count(',') == 0 or 'bool' in par):
            out.setdefault(r, ([], []))[0].append(F)
        elif p0 == 'TSIn&' and (m == 'Load' or m.split('<')[0] == short(cls)) and F.args and 'this' in str(F.args[0]):
            out.setdefault(r, ([], []))[1].append(F)
    return out


class StreamMon(Monitor):
    """st.mon: the last thing written or read; edges: which followed which"""
    fork = False
    induct = meminduct = True

    def __init__(self, mod, rec, F):
        self.mod, self.rec0, self.F = mod, rec, F
        self.edges = {}
        self.unknown = None
        self.touched = {}      # offset of a member -> methods called on it
        self.ends = []
        self.names = {}
        self.alias = {}        # what was read into a temporary -> the members it was put in

    def place(self, p):
        if p is self.this:
            return 0
        if isinstance(p, E) and p.op == 'p' and p.a[0] is self.this:
            return p.a[1]
        return '*'

    def event(self, st, what, inst):
        self.edges.setdefault((st.mon, what), inst)
        st.mon = what

    def on_call(self, eng, st, x, fn, args):
        if fn.startswith(('ExeStop(', 'TExcept::Throw', 'SaveToErrLog', 'FailR')):
            return [('unwind', st, None)]
        cls, m, par = split(fn)
        val = None if x['t'] == 'v' else mk('fresh', eng.site(st, x), 'r', tw(x['t']), *[a for a in args if isinstance(a, E)])
        inst = x
        if m == 'operator=' and len(args) > 1 and self.place(args[0]) != '*' and isinstance(args[1], E):
            self.alias.setdefault(show(args[1]), set()).add(self.place(args[0]))
        for i, a in enumerate(args):
            if isinstance(a, E) and self.place(a) != '*' and not (i == 0 and len(args) == 1 and m.split('<')[0] == (cls and short(cls))) and not m.startswith('~'):
                self.touched.setdefault(self.place(a), set()).add(m)
        if args and args[0] is self.stream and cls in (None, 'TSIn', 'TSOut', 'TSBase'):
            p = par.replace('const', '').replace('&', '').strip().replace('unsigned ', 'u')
            if m in ('Save', 'Load') and p in ('bool', 'uchar', 'char', 'short', 'ushort', 'int', 'uint', 'int64', 'long', 'ulong', 'long long', 'ulong long', 'double', 'float', 'long double', 'sfloat'):
                pl = self.place(args[1])
                u = eng.site(st, x)
                if m == 'Load' and pl == '*':
                    pl = ('tmp', show(args[1]))
                    self.names[u] = pl[1]
                self.event(st, ('number ' + p, pl), inst)
                if m == 'Load':
                    q = args[1]
                    base, off = (q.a[0], q.a[1]) if q.op == 'p' else (q, 0)
                    eng.clobber(st, u, base, off, off + 8)
            elif m in ('SaveBf', 'LoadBf', 'PutBf', 'GetBf'):
                self.event(st, ('bytes', '*'), inst)
            elif m in ('SaveCs', 'LoadCs'):
                self.event(st, ('checksum', '*'), inst)
            elif fn.startswith('<virtual'):
                if len(args) > 1 or tw(x['t']) == 8:
                    self.event(st, ('bytes', '*'), inst)
            else:
                self.unknown = m
            return [(st, val)]
        if any(a is self.stream for a in args):
            r = self.mod.rec(cls) if cls else None
            if r is None:
                self.unknown = fn
                return [(st, val)]
            if m in ('Save', 'Load') or m.split('<')[0] == short(cls):
                o = self.place(args[0])
                if r == self.rec0 and o == 0:
                    return None
                if self.scalar(r):
                    return None
                if o == '*' and args[0].op in ('alloca', 'p'):
                    o = ('tmp', show(args[0]))
                self.event(st, ('object ' + norm(r), o), inst)
                return [(st, val)]
            if r == self.rec0:
                return None
            self.unknown = fn
            return [(st, val)]
        r = self.mod.rec(cls) if cls else None
        if args and isinstance(args[0], E) and self.place(args[0]) == 0 and r == self.rec0 and not m.startswith('~'):
            return None
        if fn.startswith('llvm.') and not fn.startswith('llvm.mem') or fn.startswith('operator new') or fn.startswith('malloc'):
            return None
        return [(st, val)]

    def on_store(self, eng, st, inst, ptr, val, size):
        o = self.place(ptr)
        if o != '*' and isinstance(val, E):
            for u in val.uids:
                if u in self.names:
                    self.alias.setdefault(self.names[u], set()).add(o)

    def resolve(self):
        def f(ev):
            if not isinstance(ev[1], tuple):
                return ev
            a = self.alias.get(ev[1][1], ())
            return ev[0], min(a) if len(a) == 1 else '*'
        self.edges = {(f(p), f(q)): i for (p, q), i in self.edges.items()}

    def scalar(self, r):
        fs = [f for f in self.mod.allfields(r) if f[3] not in QUIET and self.mod.rec(f[3]) is None or True]
        fs = list(self.mod.allfields(r))
        return len(fs) == 1 and not fs[0][3].endswith('*') and self.mod.rec(fs[0][3]) is None

    def inline(self, eng, st, G):
        if len(eng.callstack) > 5:
            return False
        c = split(G.dem)[0]
        r = self.mod.rec(c) if c else None
        return r is not None and (r == self.rec0 or self.scalar(r)) and len(G.blocks) < 200 or sum(len(b) for b in G.blocks) <= 40 and len(G.blocks) <= 8


def same(a, b):
    return a[0] == b[0] and (a[1] == b[1] or '*' in (a[1], b[1]))


def trace(mod, rep, rec, F):
    mon = StreamMon(mod, rec, F)
    args = eff.argvec(F)
    mon.this, mon.stream = args[0], args[1]
    eng = Engine(mod, mon)
    st = new_state(START)
    for e in eff.exits(eng, F, args, st):
        mon.edges.setdefault((e.st.mon, END), e.inst)
        mon.ends.append(e.st)
    mon.resolve()
    mon.eng = eng
    mon.st0 = new_state(START)
    rep.fn(F)
    return mon


UNSTORED = {   # members that are not part of the stored form on purpose
    'TCrossNet': ('Net',),            # the network it belongs to, set by that network
    'TModeNet': ('MMNet',),
    'TTable': ('Context', 'AggrPolicy', 'IdColName', 'RowIdMap', 'IntColIndexes', 'StrMapColIndexes', 'FltColIndexes', 'GroupStmtNames', 'GroupIDMapping', 'GroupMapping', 'SrcCol', 'DstCol', 'EdgeAttrV',
               'SrcNodeAttrV', 'DstNodeAttrV', 'CommonNodeAttrs', 'RowIdBuckets', 'CurrBucket', 'IsNextDirty'),      # only the rows and columns of a table are stored
    'TVec': ('MxVals',), 'TMem': ('MxBfL',), 'TChA': ('MxBfL',),
    'TBSet': ('LastB4Mask',),
    'TUniChDb': ('sbExTrie',),      # exceptions the caller sets, not part of the data base
}


def lost(mod, rec, a, b):
    """the members that a, which writes, does not look at and b, which reads, leaves at a constant or untouched"""
    evs = {q for k in a.edges for q in k}
    star = any(e[1] == '*' for e in evs)
    rng = []
    for e in evs:
        if e[1] in (None, '*'):
            continue
        r = mod.rec(e[0][7:]) if e[0].startswith('object ') else None
        rng.append((e[1], e[1] + (mod.records[r]['size'] if r else 1)))
    out = []
    for n, o, s, t, r in leaves(mod, rec):
        if n in UNSTORED.get(short(rec), ()) or any(x <= o < y for x, y in rng):
            continue
        if star and (r is None or a.scalar(r) or t.startswith('TPt<')) or o in a.touched:
            continue
        if any(o <= k < o + max(s, 1) for k in b.touched if k or not o):
            continue
        if r is None or a.scalar(r):
            if s not in (1, 2, 4, 8):
                continue
            for st in b.ends:
                v = b.eng.load(st, P(b.this, o), s * 8)
                if not (is_c(v) or v is b.eng.load(b.st0, P(b.this, o), s * 8)):
                    break
            else:
                out.append(n)
        else:
            out.append(n)
    return out


def describe(mod, rec, ev):
    if ev[1] in (None, '*'):
        return ev[0]
    for n, o, s, t in mod.allfields(rec):
        if o <= ev[1] < o + max(s, 1):
            return '%s (member %s)' % (ev[0], n)
    return '%s at %s' % ev


def stored(mod, rep):
    rep.rule('what a class reads back follows, part by part, what it has written: each part read after another is written after it, and each part written is read')
    for rec, (savers, loaders) in sorted(streams(mod).items()):
        for S in savers:
            for L in loaders:
                if 'bool' in S.dem and 'bool' not in L.dem or 'bool' in L.dem and 'bool' not in S.dem and len(loaders) > 1:
                    continue      # different forms
                key = '%s, %s' % (S.dem, 'Load' if '::Load(' in L.dem else 'constructor')
                try:
                    a, b = trace(mod, rep, rec, S), trace(mod, rep, rec, L)
                except AnalysisLimit as e:
                    rep.undecided('stored', key, repr(e)[:200])
                    continue
                if not any(k[1] is END for k in a.edges) or not any(k[1] is END for k in b.edges):
                    continue      # not supported by this class: it always stops
                if a.unknown or b.unknown:
                    rep.undecided('stored', key, 'uses %s' % (a.unknown or b.unknown))
                    continue
                bad = None
                gone = lost(mod, rec, a, b)
                if not gone:
                    rep.ok('member', short(rec) + ' by ' + key)
                for n in gone:
                    if ('%s.%s' % (short(rec), n), 'done') not in rep.__dict__.setdefault('_lost', set()):
                        rep._lost.add(('%s.%s' % (short(rec), n), 'done'))
                        rep.fail('member', '%s.%s' % (short(rec), n), where(S, None), 'the member %s is not written, and not computed when the object is read back' % n)
                if any(q[0] == 'object ' + norm(rec) and q[1] in ('*', 0) for p, q in b.edges):
                    continue      # reads another object of its class and copies it
                for p, q in list(a.edges):       # there may be no bytes to read
                    if p[0] == 'bytes':
                        for p0, q0 in list(a.edges):
                            if q0 == p:
                                a.edges.setdefault((p0, q), a.edges[p, q])
                for (p, q), inst in b.edges.items():
                    if not any(same(p, x) and same(q, y) for x, y in a.edges):
                        bad = (L, inst, '%s is read after %s, but not written after it' % (describe(mod, rec, q), describe(mod, rec, p)))
                for (p, q), inst in a.edges.items():
                    for z in (p, q):
                        if not any(same(z, y) for e in b.edges for y in e):
                            bad = (S, inst, '%s is written, but not read' % describe(mod, rec, z))
                if bad:
                    rep.fail('stored', key, where(bad[0], bad[1]), bad[2])
                else:
                    rep.ok('stored', key)


def trident():
    return Mod(build.dump(['rdf3x/src/cts/QueryGraph.cpp', 'rdf3x/src/cts/SPARQLParser.cpp', 'rdf3x/src/rts/DomainDescription.cpp'],
                          [r'^(QueryGraph|SPARQLParser|DomainDescription)'], stop=STOP, extra=build.stub_flags()))


def own(mod, rep):
    copies(mod, rep)


def run(rep, tier):
    mod = module()
    rep.parts([copies, stored], mod, rep)
    rep.parts([own], trident(), rep)
