"""Small helpers for rules that look at the effects of one function (or a few) on every path."""
from absint import *
import ops


def argvec(F, names=None):
    out = []
    for i, (n, t, *_) in enumerate(F.args):
        w = 64 if t == 'p' else int(t[1:]) if t[0] == 'i' else 64
        out.append(mk('arg', n or 'arg%d' % i, w, 'nn') if t == 'p' else mk('arg', n or 'arg%d' % i, w))
    return out


def find(mod, rep, dem):
    """functions with this qualified name (without parameters); at least one must exist"""
    fs = [F for F in mod.fns.values() if F.sname == dem]
    rep.need(fs, 'function %s not found' % dem)
    for F in fs:
        rep.fn(F)
    return fs


def one(mod, rep, dem, pick=None):
    fs = find(mod, rep, dem)
    if pick:
        fs = [F for F in fs if pick in F.dem]
        rep.need(fs, 'function %s with %s not found' % (dem, pick))
    return fs[0]


def pow2(e):
    if is_c(e):
        v = e.a[0] & ((1 << e.a[1]) - 1)
        if v > 0 and v & (v - 1) == 0:
            return v.bit_length() - 1
    return None


def bits(e):
    """(root, lo, n): the value is bits lo..lo+n-1 of root, shifted down to bit 0; None if not of this shape"""
    if not isinstance(e, E):
        return None
    if e.op == 'zext':
        r = bits(e.a[0])
        return r
    if e.op == 'trunc':
        r = bits(e.a[0])
        return r and (r[0], r[1], min(r[2], e.a[1] if len(e.a) > 1 and isinstance(e.a[1], int) else 64))
    if e.op == 'bin':
        op, a, b = e.a[0], e.a[1], e.a[2]
        if op == 'and':
            for x, y in ((a, b), (b, a)):
                if is_c(y):
                    m = (y.a[0] & ((1 << y.a[1]) - 1)) + 1
                    if m & (m - 1) == 0:
                        r = bits(x)
                        return r and (r[0], r[1], min(r[2], m.bit_length() - 1))
                    # a mask that clears low bits does not fit
            return None
        k = pow2(b)
        if op == 'urem' and k is not None:
            r = bits(a)
            return r and (r[0], r[1], min(r[2], k))
        if op == 'udiv' and k is not None or op == 'lshr' and is_c(b):
            if op == 'lshr':
                k = b.a[0]
            r = bits(a)
            if not r:
                return None
            if r[2] <= k:
                return None
            return (r[0], r[1] + k, r[2] - k)
        return None
    if e.op in ('arg', 'ld', 'w', 'fresh', 'call', 'old'):
        try:
            return (e, 0, width(e) or 64)
        except Exception:
            return (e, 0, 64)
    return None


def exits(eng, F, args, st=None):
    st = st or new_state(())
    return [e for e in eng.run(F, args, st) if e.kind == 'ret']


def bitvec(v, depth=0):
    """the bits of a value, lowest first: 0, 1, or (root, bit) of a memory cell or argument; None if an operation is not
    understood; 'X' where bits collide"""
    w = width(v)
    if w is None or depth > 60:
        return None
    if is_c(v):
        return [v.a[0] >> i & 1 for i in range(w)]
    if v.op in ('zext', 'sext', 'trunc'):
        b = bitvec(v.a[0], depth + 1)
        if b is None:
            return None
        if v.op == 'trunc':
            return b[:w]
        return b + [0 if v.op == 'zext' else b[-1]] * (w - len(b))
    if v.op == 'bin':
        op = v.a[0]
        a, b = bitvec(v.a[1], depth + 1), bitvec(v.a[2], depth + 1)
        if a is None or b is None:
            return None
        if op in ('shl', 'lshr', 'ashr', 'mul', 'udiv', 'urem'):
            if not all(x in (0, 1) for x in b):
                if op == 'mul' and all(x in (0, 1) for x in a):
                    a, b = b, a
                else:
                    return None
            k = sum(x << i for i, x in enumerate(b))
            if op in ('mul', 'udiv', 'urem'):
                if k <= 0 or k & (k - 1):
                    return None
                k = k.bit_length() - 1
                if op == 'urem':
                    return a[:k] + [0] * (w - k)
                op = 'shl' if op == 'mul' else 'lshr'
            if op == 'shl':
                return ([0] * k + a)[:w]
            return a[k:] + [0 if op == 'lshr' else a[-1]] * min(k, w)
        if op == 'and':
            if any(x not in (0, 1) and y not in (0, 1) and x != y for x, y in zip(a, b)):
                return None
            return [0 if x == 0 or y == 0 else x if y == 1 else y for x, y in zip(a, b)]
        if op in ('or', 'add', 'xor'):
            out, bad = [], False
            for x, y in zip(a, b):
                if x != 0 and y != 0 and not (op == 'or' and x == y):
                    bad = True
                    out.append('X')
                else:
                    out.append('X' if bad and op == 'add' else y if x == 0 else x)
            return out
        return None
    if v.op == 'ld':
        p = v.a[1]
        if p.op == 'p' and isinstance(p.a[1], int) and w % 8 == 0:
            return [((p.a[0], p.a[1] + i // 8), i % 8) for i in range(w)]
        return [(v, i) for i in range(w)]
    if v.op in ('arg', 'w', 'call', 'fresh', 'old', 'new', 'pure'):
        return [(v, i) for i in range(w)]
    return None
