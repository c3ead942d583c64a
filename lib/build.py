"""Compiles the selected translation units of /repo's working tree to LLVM bitcode with the
project's flags and produces the normalised JSON form the rules analyse."""
import hashlib, os, re, subprocess, sys, tempfile, shutil, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
CLANG = shutil.which('clang++') or '/usr/lib/llvm-18/bin/clang++'
LLVM = '/usr/lib/llvm-18'

BASE = ['-std=c++11', '-fsigned-char', '-include', 'cstdint', '-DSPARQL', '-DML', '-DANALYTICS', '-DSERVER',
        '-Iinclude', '-Irdf3x/include', '-Irapidjson/include', '-Isnap/glib-core', '-Isnap/snap-core', '-Isnap']
CG = ['-w', '-g', '-fstandalone-debug', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-discard-value-names', '-emit-llvm']


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def readf(p):
    with open(p, 'rb') as f:
        return f.read()


def tool():
    """the irdump tool, built from its committed source when needed"""
    src = os.path.join(VERIF, 'tools', 'irdump.cpp')
    out = os.path.join(CACHE, 'irdump-' + sha(readf(src)))
    if not os.path.exists(out):
        os.makedirs(CACHE, exist_ok=True)
        tmp = out + '.%d' % os.getpid()
        r = subprocess.run(['g++', '-std=c++17', '-O1', '-w', '-I' + LLVM + '/include', '-o', tmp, src, '-L' + LLVM + '/lib', '-lLLVM-18', '-Wl,-rpath,' + LLVM + '/lib'], capture_output=True, text=True)
        if r.returncode:
            raise BuildError('irdump does not build:\n' + r.stderr[-3000:])
        os.rename(tmp, out)
    return out


def stub_flags():
    return ['-I' + os.path.join(VERIF, 'stubs')]


def compile_unit(src, extra=()):
    """bitcode of one unit; src is relative to the repository or absolute (in /verif)"""
    os.makedirs(CACHE, exist_ok=True)
    flags = BASE + list(extra)
    pre = subprocess.run([CLANG] + flags + ['-w', '-E', '-o', '-', src], cwd=REPO, capture_output=True)
    if pre.returncode:
        raise BuildError('%s does not preprocess:\n%s' % (src, pre.stderr.decode(errors='replace')[-3000:]))
    key = sha(pre.stdout, ' '.join(flags + CG))
    out = os.path.join(CACHE, 'bc-' + key + '.bc')
    if not os.path.exists(out):
        tmp = out + '.%d.tmp' % os.getpid()
        r = subprocess.run([CLANG] + flags + CG + ['-c', src, '-o', tmp], cwd=REPO, capture_output=True, text=True)
        if r.returncode:
            raise BuildError('%s does not compile:\n%s' % (src, r.stderr[-3000:]))
        os.rename(tmp, out)
    return out


NOINL = (r'^(?!.*::(push_back|pop_back|emplace_back|insert|emplace|erase|resize|reserve|clear|assign|_M_realloc_insert|_M_fill_insert|_M_range_insert|_M_insert_aux|_M_insert_rval|_M_default_append|_M_fill_assign|_M_emplace_aux)(<|\())'
         r'(?!.*std::(sort|stable_sort|unique|copy|copy_backward|move_backward|remove|remove_if|find|find_if|lower_bound|upper_bound|equal|equal_range|transform|fill|fill_n|reverse|accumulate|for_each|count_if|binary_search|merge|rotate|__(introsort|sort|final|insertion|unguarded|heap|make_heap|pop_heap|push_heap|adjust_heap|move_median|partial|partition|unique_|copy|remove|find|lower|upper|equal|fill|uninitialized|relocate|lg|reverse|rotate|merge|inplace|stable|is_sorted)[a-zA-Z_0-9]*|uninitialized_[a-z_]*|_Destroy[a-z_]*)<)'
         r'(?!.*__ops::)')
INLINE = [NOINL + x for x in [
    r'.*(__normal_iterator|_Rb_tree_(const_)?iterator|_List_(const_)?iterator|_Node_(const_)?iterator|_Deque_iterator)',
    r'([^(]* )?std::(vector|array|list|deque)<.*>::(begin|end|cbegin|cend|size|empty|front|back|data|operator\[\]|at|_M_range_check)\(',
    r'([^(]* )?std::(unique_ptr|__uniq_ptr_impl|__uniq_ptr_data|_Tuple_impl|_Head_base|tuple|default_delete|shared_ptr|__shared_ptr|__shared_ptr_access)<',
    r'([^(]* )?std::(get|__get_helper|max|min|move|forward|swap|addressof|__addressof|make_pair|__pair_get)<',
    r'([^(]* )?std::pair<',
    r'([^(]* )?std::_(Vector|List)_base<.*>::_M_get_Tp_allocator\(',
]]
KEEP = [r'^(.* )?std::(shared_ptr|__shared_ptr)<.*>::~?(__)?shared_ptr\(', r'^(.* )?std::__shared_count']


def dump(units, roots, stop=(), extra=(), inline=(), keep=(), passes=None):
    """compile + link + normalise; returns the path of the JSON form"""
    t = tool()
    with cf.ThreadPoolExecutor(8) as ex:
        bcs = list(ex.map(lambda u: compile_unit(u[0], tuple(extra) + tuple(u[1])) if isinstance(u, tuple) else compile_unit(u, extra), units))
    cfg = ''.join('inline %s\n' % r for r in list(INLINE) + list(inline)) + ''.join('keep %s\n' % r for r in list(KEEP) + list(keep)) + \
        ''.join('root %s\n' % r for r in roots) + ''.join('stop %s\n' % r for r in stop) + (('passes %s\n' % passes) if passes else '')
    key = sha(cfg, t, *[os.path.basename(b) for b in bcs])
    out = os.path.join(CACHE, 'ir-' + key + '.json')
    if not os.path.exists(out):
        tmp = out + '.%d.tmp' % os.getpid()
        cfgp = tmp + '.cfg'
        with open(cfgp, 'w') as f:
            f.write(cfg)
        r = subprocess.run([t, tmp, cfgp] + bcs, capture_output=True, text=True)
        os.unlink(cfgp)
        if r.returncode:
            raise BuildError('irdump failed: ' + r.stderr[-2000:])
        os.rename(tmp, out)
    return out


def free_units(prefix=''):
    """the units of the repository that build without KOGNAC (same list as the project build here)"""
    p = '/opt/vp/kognac-free-sources.txt'
    names = [l.strip() for l in open(p)] if os.path.exists(p) else []
    return [n for n in names if n.startswith(prefix) and os.path.exists(os.path.join(REPO, n))]
