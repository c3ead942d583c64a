"""Helpers for the query-operator rules (rdf3x runtime)."""
import build, absint
from absint import *

_mod = {}


def rdf_module(extra_units=(), flags=(), key='rdf'):
    """all KOGNAC-free rdf3x units in one linked module"""
    k = (key, tuple(extra_units), tuple(flags))
    if k not in _mod:
        j = build.dump(build.free_units('rdf3x') + list(extra_units), [r'.'], stop=[r'^(.* )?std::', r'^__gnu'], extra=flags)
        _mod[k] = Module(j)
    return _mod[k]


def where(F, inst=None):
    f = F.file if F else '?'
    f = f.replace('/repo/', '')
    l = inst.get('l') if inst else None
    return '%s (%s:%s)' % (F.dem, f, l or F.line)


def virt_slots(mod, rec):
    """{slot: method name} of a class and its bases, from the debug information"""
    out = {}
    for r in reversed(mod.bases(rec)):
        for v in mod.records.get(r, {}).get('virt', []):
            if v[1].startswith('~'):
                continue
            out[v[0]] = v[1]
    return out


def slot_of(mod, rec, name):
    for s, n in virt_slots(mod, rec).items():
        if n == name:
            return s
    return None


def obj_class(mod, st, base, off=0):
    """vtable symbol -> class record name of an object under construction"""
    v = st.mem.get((base, off))
    if v is not None and v.op == 'p' and v.a[0].op == 'g' and v.a[0].a[0].startswith('_ZTV'):
        sym = v.a[0].a[0]
        for r in mod.records:
            if '_ZTV' + mangle_class(r) == sym:
                return r, sym
        return None, sym
    return None, None


def vt_entry(mod, sym, slot):
    g = mod.globals.get(sym)
    if not g or 'init' not in g:
        return None
    init = g['init']
    first = init[1][1] if init[0] == 'st' else init
    ent = [x[1] if x[0] in 'gf' else None for x in first[2:]][2:]
    return ent[slot] if slot < len(ent) else None
