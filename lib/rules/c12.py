"""C12: the lock discipline of the worker pool and of shared domains, and the order of background work."""
import ops, eff
from absint import *
from ops import where
from history import fuzzy

THIS = mk('arg', 'this', 64, 'nn')
GH = mk('ghost', 'c12')
ACQ = {'pthread_mutex_lock', 'std::mutex::lock', 'pthread_spin_lock'}
REL = {'pthread_mutex_unlock', 'std::mutex::unlock', 'pthread_spin_unlock'}
WAIT = {'pthread_cond_wait': 1, 'pthread_cond_timedwait': 1}
WAKE = {'pthread_cond_broadcast': 'all', 'pthread_cond_signal': 'one'}


def base_off(p):
    if p.op == 'p':
        return p.a[0], p.a[1] if isinstance(p.a[1], int) else None
    if p.op == 'pv':
        return p.a[0], None
    return p, 0


def leaves(e, out=None):
    out = set() if out is None else out
    if isinstance(e, E):
        if e.op == 'arg':
            out.add(e)
        else:
            for x in e.a:
                leaves(x, out)
    elif isinstance(e, tuple):
        for x in e:
            leaves(x, out)
    return out


class LockMon(Monitor):
    """typestate of the locks along every path: what is held, what changed in this critical section, who was woken"""
    induct = True

    def __init__(self, mod, rep, ctx):
        self.mod, self.rep, self.ctx = mod, rep, ctx
        self.F = None

    # ---- state
    def get(self, st, k, d=None):
        for n, v in st.mon:
            if n == k:
                return v
        return d

    def put(self, st, k, v):
        l = [(n, w) for n, w in st.mon if n != k]
        if v is not None:
            l.append((k, v))
        st.mon = tuple(sorted(l, key=lambda t: t[0]))

    def held(self, st):
        return self.get(st, 'held', ())

    def fail(self, kind, x, msg, key=''):
        self.rep.fail(kind, self.ctx + (':' + key if key else ''), where(self.F, x), msg)

    def ok(self, kind, key=''):
        self.rep.ok(kind, self.ctx + (':' + key if key else ''))

    def protected(self, eng, st, base):
        return True

    # ---- events
    def on_call(self, eng, st, x, fn, args):
        s = shortname(fn)
        if s in ACQ:
            self.acquire(eng, st, x, args[0])
            return [(st, C(0, 32) if x['t'] != 'v' else None)]
        if s in ('pthread_mutex_trylock', 'std::mutex::try_lock'):
            a, b = st.copy(), st
            self.acquire(eng, a, x, args[0])
            good = C(0, 32) if s.startswith('pthread') else C(1, 1)
            return [(a, good), (b, C(16, 32) if s.startswith('pthread') else C(0, 1))]
        if s in REL:
            self.release(eng, st, x, args[0])
            return [(st, C(0, 32) if x['t'] != 'v' else None)]
        if s in WAIT:
            m = args[1]
            if m not in self.held(st):
                self.fail('wait', x, 'waits for an event with a mutex it does not hold', 'held')
            else:
                self.ok('wait', 'held')
                if len(self.held(st)) > 1:
                    self.fail('wait', x, 'goes to sleep while it holds another lock', 'other')
            self.sleeping(eng, st, x, args[0], m)
            self.end_section(eng, st, x, m)
            self.new_section(eng, st, x, m)
            return [(st, mk('fresh', eng.site(st, x), 'wait', 32))]
        if s in WAKE:
            self.wake(eng, st, x, args[0], WAKE[s])
            return [(st, C(0, 32))]
        if s == '__cxa_rethrow':
            return [('abort', st, None)]
        r = self.other(eng, st, x, fn, s, args)
        if r is None and s.startswith('pthread_'):
            return [(st, mk('fresh', eng.site(st, x), 'thread', 32))]
        return r

    def other(self, eng, st, x, fn, s, args):
        return None

    def acquire(self, eng, st, x, m):
        h = self.held(st)
        if m in h:
            self.fail('twice', x, 'locks a mutex that this thread holds already')
            return
        for o in h:
            self.order(eng, st, x, o, m)
        self.ok('twice')
        self.put(st, 'held', h + (m,))
        self.new_section(eng, st, x, m)

    def order(self, eng, st, x, o, m):
        if eng.decide_cmp(st, 'ult', o, m) or eng.decide_cmp(st, 'ugt', o, m):
            d = 'up' if eng.decide_cmp(st, 'ult', o, m) else 'down'
            self.dirs.setdefault(d, x)
            self.ok('order')
            return
        if any(fuzzy(y) for y in (o, m)):
            self.rep.undecided('order', self.ctx, 'the order of %s and %s is not known' % (show(o), show(m)))
            return
        self.fail('order', x, 'takes a second lock without a fixed order between the two')

    dirs = {}

    def release(self, eng, st, x, m):
        h = self.held(st)
        if m not in h:
            if any(eng.decide_cmp(st, 'eq', m, o) for o in h):
                m = [o for o in h if eng.decide_cmp(st, 'eq', m, o)][0]
            else:
                self.fail('unheld', x, 'unlocks a mutex that this thread does not hold')
                return
        self.ok('unheld')
        self.end_section(eng, st, x, m)
        self.put(st, 'held', tuple(o for o in h if o is not m))

    def new_section(self, eng, st, x, m):
        pass

    def end_section(self, eng, st, x, m):
        pass

    def sleeping(self, eng, st, x, cond, m):
        pass

    def wake(self, eng, st, x, cond, how):
        pass

    def finish(self, eng, e):
        """end of the function"""
        if e.kind not in ('ret', 'throw'):
            return
        if self.held(e.st):
            self.fail('balance', e.inst, 'a lock is still held %s' % ('at the end' if e.kind == 'ret' else 'when an exception leaves the function'))
        else:
            self.ok('balance')


# ---------------------------------------------------------------- shared domains
class DomainMon(LockMon):
    """potential domains are shared: every access holds the lock that belongs to the domain"""

    def __init__(self, mod, rep, ctx, objs, size):
        LockMon.__init__(self, mod, rep, ctx)
        self.objs, self.size = objs, size
        self.dirs = {}

    def owns(self, eng, st, m, obj):
        own = leaves(m) & set(self.objs)
        if own == {obj}:
            return True
        if len(own) == 1:
            alt = substitute(m, {list(own)[0]: obj})
            return eng.decide_cmp(st, 'eq', m, alt) is True
        return None if not own else False

    def access(self, eng, st, inst, ptr, write):
        b, o = base_off(ptr)
        while b.op in ('p', 'pv'):
            b = b.a[0]
        if b not in self.objs:
            return
        k = self.names[b]
        r = [self.owns(eng, st, m, b) for m in self.held(st)]
        if any(x is True for x in r):
            self.ok('guard', k)
        elif any(x is None for x in r):
            self.rep.undecided('guard', self.ctx + ':' + k, 'the lock that is held is not recognised')
        else:
            self.fail('guard', inst, '%s the domain "%s" without holding its lock' % ('changes' if write else 'reads', k), k)

    def on_load(self, eng, st, inst, ptr, v):
        self.access(eng, st, inst, ptr, False)

    def on_store(self, eng, st, inst, ptr, v, size):
        self.access(eng, st, inst, ptr, True)

    def loop_key(self, eng, st, F):
        h = self.held(st)
        return tuple(eng.decide_cmp(st, 'eq', m, substitute(m, {a: b})) for m in h for a in self.objs for b in self.objs if a is not b)


def substitute(e, m):
    if isinstance(e, E):
        if e in m:
            return m[e]
        return mk(e.op, *[substitute(x, m) for x in e.a])
    if isinstance(e, tuple):
        return tuple(substitute(x, m) for x in e)
    return e


def run_domains(rep, mod):
    fs = [F for F in mod.fns.values() if F.sname in ('PotentialDomainDescription::sync', 'PotentialDomainDescription::restrictTo')]
    rep.need(len(fs) == 2, 'the operations on shared domains')
    for F in fs:
        rep.fn(F)
        args = eff.argvec(F)
        types = F.dem[F.dem.index('(') + 1:-1].split(', ')
        objs = [args[0]] + [a for a, t in zip(args[1:], types) if t.startswith('PotentialDomainDescription')]
        mon = DomainMon(mod, rep, F.sname.split('::')[1], objs, mod.records['DomainDescription']['size'])
        mon.names = {a: F.args[i][0] or 'arg%d' % i for i, a in enumerate(args)}
        mon.F = F
        eng = Engine(mod, mon, exit_cap=200)
        mon.this = eng.this = args[0]
        st = new_state(())
        for i, a in enumerate(objs):
            for b in objs[i + 1:]:
                eng.assume_cmp(st, 'ne', a, b)
        n = 0
        for e in eng.run(F, args, st):
            mon.finish(eng, e)
            n += e.kind == 'ret'
        rep.need(n, 'an end of ' + F.dem)
        if len(mon.dirs) > 1:
            rep.fail('order', mon.ctx + ':direction', where(F, list(mon.dirs.values())[1]), 'two locks are taken in either order')


# ---------------------------------------------------------------- the worker pool
class PoolMon(LockMon):
    """Scheduler: guarded state, wake-ups, jobs"""

    def __init__(self, mod, rep, ctx, role):
        LockMon.__init__(self, mod, rep, ctx)
        self.role = role
        self.idx = None
        self.induct = role == 'register'
        f = lambda n: mod.field('Scheduler', n)
        self.lock = P(THIS, f('workerLock')[0])
        self.cond = f('workerSignal')[0]
        self.o = {n: f(n)[0] for n in ('registeredPoints', 'workQueue', 'threads', 'activeWorkers', 'workerThreads', 'workersDie')}
        self.size = {'registeredPoints': 24, 'workQueue': 24, 'activeWorkers': 4, 'workerThreads': 4, 'workersDie': 1}
        self.deps = mod.field('Scheduler::RegisteredPoint', 'dependencies')[0]
        self.point = mod.field('Scheduler::RegisteredPoint', 'point')[0]
        self.run = ops.slot_of(mod, 'Scheduler::AsyncPoint', 'run')
        self.slots = {n: ops.slot_of(mod, 'Operator', n) for n in ('first', 'next', 'getAsyncInputCandidates')}
        self.ready = {}

    def name_at(self, off):
        for n, s in self.size.items():
            if off is not None and self.o[n] <= off < self.o[n] + s:
                return n
        return None

    def ld(self, eng, st, n):
        return eng.load(st, P(THIS, self.o[n]), self.size[n] * 8 if self.size[n] < 8 else 64)

    def vec(self, eng, st, n):
        return eng.load(st, P(THIS, self.o[n]), 64), eng.load(st, P(THIS, self.o[n] + 8), 64)

    def empty(self, eng, st, n):
        """True/False/None: is the list known to be (non-)empty now?"""
        b, e = self.vec(eng, st, n)
        if eng.decide_cmp(st, 'eq', b, e):
            return True
        if eng.decide_cmp(st, 'ne', b, e):
            return False
        d = eng.binop(st, 'sub', e, b, 64)
        for n in (d, eng.binop(st, 'ashr', d, C(3, 64), 64), eng.binop(st, 'sdiv', d, C(8, 64), 64)):
            if eng.decide_cmp(st, 'eq', n, C(0, 64)):
                return True
            if eng.decide_cmp(st, 'ne', n, C(0, 64)):
                return False
        return None

    # ---- guarded state
    def shared(self, eng, st, n):
        """can another thread use the field now?"""
        r = self.role
        if r == 'ctor':
            return bool(self.get(st, 'started'))
        if r == 'register':
            return False
        t = eng.load(st, P(THIS, self.o['threads']), 32)
        if eng.decide_cmp(st, 'eq', t, C(0, 32)):
            return False
        if r == 'dtor':
            return not self.get(st, 'gone')
        if r == 'execute' and n == 'registeredPoints':
            return bool(self.get(st, 'entered'))
        if r == 'execute' and self.get(st, 'idle'):
            return n != 'registeredPoints'
        return True

    def access(self, eng, st, inst, ptr, write):
        b, o = base_off(ptr)
        if b is not THIS:
            return None
        n = self.name_at(o)
        if n is None:
            return None
        if self.shared(eng, st, n):
            if self.lock not in self.held(st):
                self.fail('guard', inst, '%s %s without holding the lock that protects it' % ('changes' if write else 'reads', n), n)
            else:
                self.ok('guard', n)
        return n

    def on_load(self, eng, st, inst, ptr, v):
        self.access(eng, st, inst, ptr, False)

    def on_store(self, eng, st, inst, ptr, v, size):
        n = self.access(eng, st, inst, ptr, True)
        if n in ('activeWorkers', 'workerThreads'):
            old = eng.load(st, P(THIS, self.o[n]), 32)
            d = self.delta(old, v)
            cur = self.get(st, n, 0)
            if self.role == 'ctor' and not self.get(st, 'started') and is_c(v):
                return
            if d is None or not isinstance(cur, int):
                self.put(st, n, '?')
                if is_c(v):
                    self.fail('count', inst, 'sets %s to %d' % (n, v.a[0]), n)
                else:
                    self.rep.undecided('count', self.ctx + ':' + n, show(v)[:120])
            else:
                self.put(st, n, cur + d or None)
            if d is None or d < 0:
                self.changed(st, n)
        elif n == 'workersDie':
            if not (is_c(v) and v.a[0] & 1 == 0):
                self.changed(st, n)
            self.put(st, 'die', 1 if is_c(v) and v.a[0] & 1 else None)
        if self.role == 'execute' and self.get(st, 'pushed') is not None:
            q = ptr.a[0] if ptr.op == 'p' and ptr.a[1] == 0 else ptr
            beg, end = self.vec(eng, st, 'registeredPoints')
            if self.at_place(eng, st, q, self.get(st, 'pushed')) and v is eng.load(st, P(end.a[0], end.a[1] - 8) if end.op == 'p' else P(end, -8), 64):
                self.put(st, 'moved', 1)

    def delta(self, old, v):
        d = lin_diff(v, old)
        return d

    def changed(self, st, n):
        """another thread may be waiting for this change"""
        if self.role != 'ctor' or self.get(st, 'started'):
            c = self.get(st, 'changed', ())
            if n not in c:
                self.put(st, 'changed', tuple(sorted(c + (n,))))

    def wake(self, eng, st, x, cond, how):
        b, o = base_off(cond)
        if b is not THIS or o != self.cond:
            return
        if how == 'all':
            if self.lock in self.held(st):
                self.put(st, 'woke', 'all')
        elif self.get(st, 'woke') is None:
            self.put(st, 'woke', 'one')

    def new_section(self, eng, st, x, m):
        if m is not self.lock:
            return
        self.put(st, 'woke', None)
        self.put(st, 'changed', None)
        self.put(st, 'entered', 1)
        uid = eng.site(st, x)
        for n in self.size:
            if n == 'registeredPoints' and self.role in ('execute', 'dtor'):
                continue  # only this thread adds and removes points
            if n == 'workQueue' and self.role in ('execute', 'dtor') and self.empty(eng, st, n):
                continue  # workers only take jobs out of the queue
            if n == 'workersDie' and self.role == 'dtor':
                continue
            eng.clobber(st, uid, THIS, self.o[n], self.o[n] + self.size[n])

    def end_section(self, eng, st, x, m):
        if m is not self.lock:
            return
        ch, wk = self.get(st, 'changed'), self.get(st, 'woke')
        if ch:
            if wk is None:
                self.fail('wakeup', x, 'gives the lock up after changing %s without waking the threads that wait for the change' % ', '.join(ch), ch[0])
            elif wk == 'one':
                self.fail('wakeup', x, 'wakes only one thread after changing %s, although threads wait for different things' % ', '.join(ch), ch[0])
            else:
                self.ok('wakeup', ch[0])
        if self.role == 'worker':
            self.worker_section(eng, st, x)
        if self.role == 'dtor':
            if self.get(st, 'die') != 1:
                self.fail('stop', x, 'gives the lock up without asking the workers to stop', 'asked')
            else:
                self.ok('stop', 'asked')
            if eng.decide_cmp(st, 'eq', self.ld(eng, st, 'workerThreads'), C(0, 32)):
                self.put(st, 'gone', 1)
        if self.role == 'execute':
            if self.get(st, 'pushed') is not None:
                self.fail('jobs', x, 'gives the lock up with a queued point that is still registered and would be queued again', 'removed')
                self.put(st, 'pushed', None)
            if self.empty(eng, st, 'workQueue') and self.empty(eng, st, 'registeredPoints') and eng.decide_cmp(st, 'eq', self.ld(eng, st, 'activeWorkers'), C(0, 32)):
                self.put(st, 'idle', 1)

    def sleeping(self, eng, st, x, cond, m):
        b, o = base_off(cond)
        if b is not THIS or o != self.cond or m is not self.lock:
            self.fail('wait', x, 'waits for another event than the one the other threads signal', 'event')
            return
        self.ok('wait', 'event')
        if self.role == 'worker':
            e = self.empty(eng, st, 'workQueue')
            if e is not True:
                self.fail('sleep', x, 'a worker goes to sleep although the queue is not known to be empty', 'queue')
            else:
                self.ok('sleep', 'queue')
            if eng.decide(st, eng.ext('trunc', self.ld(eng, st, 'workersDie'), 8, 1)) is not False:
                self.fail('sleep', x, 'a worker goes to sleep without having checked in this critical section whether it is to stop', 'stop')
            else:
                self.ok('sleep', 'stop')
        elif self.role == 'dtor':
            if eng.decide_cmp(st, 'ne', self.ld(eng, st, 'workerThreads'), C(0, 32)) is not True:
                self.fail('sleep', x, 'waits although no worker may be left to wake it', 'workers')
            else:
                self.ok('sleep', 'workers')
        elif self.role == 'execute':
            if self.empty(eng, st, 'workQueue') is True and eng.decide_cmp(st, 'eq', self.ld(eng, st, 'activeWorkers'), C(0, 32)) is True:
                self.fail('sleep', x, 'waits although nothing is queued or running', 'busy')
            else:
                self.ok('sleep', 'busy')

    # ---- jobs of a worker: taken -> ran -> released -> deleted
    def worker_section(self, eng, st, x):
        j = self.get(st, 'job')
        a = self.get(st, 'activeWorkers', 0)
        state = j[1] if j else None
        want = {None: 0, 'taken': 1, 'ran': 1}.get(state)
        if a == '?':
            return
        if state == 'ran' and a == 0:
            if not self.get(st, 'freed') and self.empty(eng, st, 'registeredPoints') is not True:
                self.fail('release', x, 'a finished job is no longer counted as running, but the points that depend on it still wait for it')
            else:
                self.ok('release')
            return
        if want is not None and a != want:
            self.fail('count', x, 'gives the lock up with a job that is %s, but changed the number of running jobs by %d' % (state or 'not taken', a), 'activeWorkers')
        else:
            self.ok('count', 'activeWorkers')

    def other(self, eng, st, x, fn, s, args):
        F = self.F
        # guarded lists handed to library functions
        last = s.rsplit('::', 1)[-1]
        lib = s.startswith(('std::', 'void std::', '__gnu'))
        for i, a in enumerate(args):
            b, o = base_off(a)
            if b is THIS and self.name_at(o) and lib:
                n = self.access(eng, st, x, a, True)
                if n == 'workQueue' and i == 0:
                    if last in ('push_back', 'emplace_back', 'insert', 'emplace'):
                        return self.push(eng, st, x, last, args)
                    if last in ('erase', 'pop_back'):
                        return self.take(eng, st, x, last, args)
                    if last in ('clear', 'resize', 'swap', 'operator=', 'assign'):
                        self.fail('jobs', x, 'jobs of the queue are dropped (%s)' % last, 'drop')
                if n == 'registeredPoints' and i == 0 and self.role == 'register' and last in ('push_back', 'emplace_back'):
                    self.registered(eng, st, x, args)
                if n == 'registeredPoints' and i == 0 and self.role == 'execute' and self.get(st, 'entered') and last in ('pop_back', 'erase', 'clear', 'resize'):
                    self.removed(eng, st, x, last, args)
                if n and i == 0 and s.rsplit('::', 2)[-2:-1] != ['set']:
                    uid = eng.site(st, x)
                    eng.clobber(st, uid, THIS, self.o[n], self.o[n] + self.size[n])
                    return [(st, mk('fresh', uid, 'lib', tw(x['t'])) if x['t'] != 'v' else None)]
        if self.role == 'register' and lib and last in ('insert', 'emplace', 'push_back') and '::set<' in fn:
            self.depends(eng, st, x, args)
        if lib and '::set<' in fn and last in ('empty', 'size'):
            b, o = base_off(args[0])
            if o == self.deps or o is None:
                n = mk('ghost', 'deps', args[0], 64)
                return [(st, eng.icmp(st, 'eq', n, C(0, 64), 64) if last == 'empty' else n)]
        if lib and '::set<' in fn and last == 'erase' and self.role == 'worker':
            self.freed(eng, st, x, args)
            return [(st, mk('fresh', eng.site(st, x), 'erased', 64))]
        if s == 'Thread::start':
            self.put(st, 'started', 1)
            if self.role == 'ctor':
                if self.lock not in self.held(st):
                    self.rep.undecided('count', self.ctx + ':started', 'workers are started without the lock')
                r = mk('fresh', eng.site(st, x), 'started', 1)
                c = st.copy()
                eng.assume(st, r, True)
                eng.assume(c, r, False)
                n = self.get(st, 'workers', 0)
                self.put(st, 'workers', n + 1)
                return [(st, C(1, 1)), (c, C(0, 1))]
        if fn.startswith('<virtual:'):
            return self.virtual(eng, st, x, int(fn[9:-1]), args)
        if 'operator delete' in s and self.role == 'worker':
            self.deleted(eng, st, x, args)
            return [(st, None)]
        if lib and not any(base_off(a)[0].op == 'alloca' or base_off(a)[0] is THIS for a in args if isinstance(a, E)):
            return [(st, mk('fresh', eng.site(st, x), 'lib', tw(x['t'])) if x['t'] != 'v' else None)]
        return None

    def virtual(self, eng, st, x, slot, args):
        if self.held(st):
            self.fail('callback', x, 'calls foreign code while it holds the lock')
        else:
            self.ok('callback')
        if self.role == 'worker' and slot == self.run:
            j = self.get(st, 'job')
            if j is None:
                self.fail('jobs', x, 'runs a job that was not taken from the queue', 'run')
            elif j[1] != 'taken':
                self.fail('jobs', x, 'runs a job twice', 'run')
            elif not self.same(eng, st, args[0], eng.load(st, P(j[0], self.point), 64)):
                self.rep.undecided('jobs', self.ctx + ':run', show(args[0])) if fuzzy(args[0]) else self.fail('jobs', x, 'runs another point than the one taken from the queue', 'run')
            else:
                self.ok('jobs', 'run')
                self.put(st, 'job', (j[0], 'ran'))
            return [(st, None)]
        if self.role in ('execute', 'single') and slot in (self.slots['first'], self.slots['next']):
            t = eng.load(st, P(THIS, self.o['threads']), 32)
            if self.role == 'execute' and not eng.decide_cmp(st, 'eq', t, C(0, 32)):
                if not self.get(st, 'idle'):
                    self.fail('main', x, 'the main part of the plan starts although background points may be waiting, queued or running')
                else:
                    self.ok('main')
            r = mk('fresh', eng.site(st, x), 'rows', 64)
            if slot == self.slots['first'] and self.get(st, 'rows') is not None:
                self.fail('main', x, 'the plan is started twice', 'once')
            if slot == self.slots['next'] and self.get(st, 'rows') is None:
                self.fail('main', x, 'asks for the next row of a plan that was not started', 'once')
            self.put(st, 'rows', r)
            return [(st, r)]
        if self.role == 'execute' and slot == self.slots['getAsyncInputCandidates']:
            uid = eng.site(st, x)
            eng.clobber(st, uid, THIS, self.o['registeredPoints'], self.o['registeredPoints'] + 24)
            return [(st, None)]
        return None

    def same(self, eng, st, a, b):
        return a is b or eng.decide_cmp(st, 'eq', a, b) is True

    def take(self, eng, st, x, last, args):
        if self.role != 'worker':
            self.fail('jobs', x, 'takes a job out of the queue although it runs none', 'take')
            return [(st, None)]
        e = self.empty(eng, st, 'workQueue')
        if e is not True and e is not False and not self.used(eng, st):
            e = None
        if e is not False:
            self.fail('jobs', x, 'takes a job although the queue is not known to have one in this critical section', 'nonempty')
        else:
            self.ok('jobs', 'nonempty')
        b, en = self.vec(eng, st, 'workQueue')
        pos = b if last == 'erase' and len(args) < 2 else args[1] if last == 'erase' and len(args) == 2 else None
        if last == 'pop_back':
            pos = eng.gep(en, -8, []) if False else P(en.a[0], en.a[1] - 8) if en.op == 'p' else P(en, -8)
        elif last == 'erase':
            pos = next((a for a in args[1:] if a is not None), None)
            if pos is not None and pos.op == 'p' and pos.a[0].op == 'alloca':
                pos = eng.load(st, pos, 64)
            extra = args[2:] if len(args) > 2 else []
        if pos is None:
            self.rep.undecided('jobs', self.ctx + ':take', show(args[0]))
            return None
        v = eng.load(st, pos, 64)
        if self.get(st, 'job') is not None and self.get(st, 'job')[1] != 'done':
            self.fail('jobs', x, 'takes another job before the last one is finished', 'take')
        eng.assume_cmp(st, 'ne', v, C(0, 64))  # no null pointer is ever queued (rule depend)
        self.put(st, 'job', (v, 'taken'))
        self.put(st, 'freed', None)
        self.changed(st, 'workQueue')
        uid = eng.site(st, x)
        eng.clobber(st, uid, THIS, self.o['workQueue'], self.o['workQueue'] + 24)
        return [(st, mk('fresh', uid, 'it', 64) if x['t'] != 'v' else None)]

    def used(self, eng, st):
        return False

    def freed(self, eng, st, x, args):
        """dependencies.erase(job)"""
        b, o = base_off(args[0])
        if o != self.deps:
            return
        j = self.get(st, 'job')
        v = args[1]
        if v.op == 'p' and v.a[0].op == 'alloca':
            v = eng.load(st, v, 64)
        if j is None or j[1] != 'ran':
            self.fail('release', x, 'lets the points that depend on a job go before the job is finished', 'early')
            return
        if not self.same(eng, st, v, j[0]):
            self.fail('release', x, 'releases the points that depend on another job', 'job') if not fuzzy(v) else self.rep.undecided('release', self.ctx, show(v))
            return
        if self.lock not in self.held(st):
            self.fail('guard', x, 'changes the dependencies of the points without holding the lock', 'dependencies')
        if not self.get(st, 'freed'):
            beg, end = self.vec(eng, st, 'registeredPoints')
            first, lastp = eng.load(st, beg if beg.op == 'p' else P(beg, 0), 64), None
            if b is first or b is eng.load(st, P(end, -8) if end.op != 'p' else P(end.a[0], end.a[1] - 8), 64):
                self.ok('release', 'all')
            elif b.op == 'ld':
                self.rep.undecided('release', self.ctx + ':all', show(b))
        self.put(st, 'freed', 1)
        self.changed(st, 'dependencies')

    def deleted(self, eng, st, x, args):
        j = self.get(st, 'job')
        if j is None or not self.same(eng, st, args[0], j[0]):
            return
        if j[1] != 'ran':
            self.fail('jobs', x, 'deletes a job that is %s' % ('not run yet' if j[1] == 'taken' else 'deleted already'), 'delete')
            return
        if not self.get(st, 'freed') and self.empty(eng, st, 'registeredPoints') is not True:
            self.fail('release', x, 'a job is deleted although other points still depend on it', 'delete')
        else:
            self.ok('jobs', 'delete')
        self.put(st, 'job', (j[0], 'done'))

    def loop_key(self, eng, st, F):
        return eng.decide_cmp(st, 'eq', eng.load(st, P(THIS, self.o['threads']), 32), C(0, 32))

    # ---- choice of the next point
    def facts(self, eng, st, v):
        if eng.decide_cmp(st, 'eq', v, C(0, 64)) is True:
            return 'null'
        b, o = base_off(v)
        n = mk('ghost', 'deps', P(b, (o or 0) + self.deps), 64)
        if eng.decide_cmp(st, 'eq', n, C(0, 64)) is True:
            return 'ready'
        return None

    def at_loop(self, eng, st, F):
        if self.role == 'execute' and self.get(st, 'pushed') is not None and eng.at_header == self.outer(F):
            self.fail('jobs', F.blocks[eng.at_header][-1], 'the queued point is still registered and would be queued again', 'removed')
            self.put(st, 'pushed', None)
        if self.role == 'register':
            for k, v in eng.at_phis:
                if lin_all(v).get(self.args[4]) == 1:
                    self.idx = k
        if self.role == 'ctor' and eng.at_back:
            self.counted(eng, st, F.blocks[eng.at_header][-1])
        if self.role != 'execute':
            return
        rd = []
        for k, v in eng.at_phis:
            if width(v) != 64:
                continue
            f = self.facts(eng, st, v)
            if f is None:
                f = self.known(st, v)
            if f:
                rd.append((k, f))
        cells = [(('m', b, o), v) for (b, o), v in st.mem.items() if b.op == 'alloca' and isinstance(o, int) and width(v) == 64]
        for k, v in cells:
            f = self.facts(eng, st, v) or self.known(st, v)
            if f:
                rd.append((k, f))
        vals = {k: v for k, v in list(eng.at_phis) + cells}
        rd = [(str(k), k, f) for k, f in rd]
        old = self.get(st, 'pairs', ())
        pairs = []
        for n, k, f in rd:
            if f != 'ready':
                continue
            for k2, p in vals.items():
                if k2 == k or width(p) != 64:
                    continue
                if eng.load(st, p if p.op in ('p', 'pv') else P(p, 0), 64) is vals[k] or any(self.value(st, a) is vals[k] and self.value(st, b) is p for a, b in old):
                    pairs.append((k, k2))
        self.put(st, 'pairs', tuple(sorted(pairs, key=str)) or None)
        keep = [t for t in self.get(st, 'ready', ()) if not isinstance(t[1], tuple) and t[1] not in [k for k, v in eng.at_phis] and t[1] in st.env]
        self.put(st, 'ready', tuple(sorted(rd + keep)) or None)

    def value(self, st, k):
        if isinstance(k, tuple):
            return st.mem.get(k[1:])
        for env in (st.env,) + tuple(st.stack):
            if k in env:
                return env[k]
        return None

    def at_place(self, eng, st, p, v):
        """is the element at p known to be v?"""
        return any(self.value(st, a) is v and self.same(eng, st, self.value(st, b), p) for a, b in self.get(st, 'pairs', ()))

    def known_first(self, v):
        return False

    def removed(self, eng, st, x, last, args):
        v = self.get(st, 'pushed')
        if v is None:
            self.fail('jobs', x, 'a registered point is dropped without being queued', 'removed')
            return
        beg, end = self.vec(eng, st, 'registeredPoints')
        if last == 'pop_back':
            back = P(end.a[0], end.a[1] - 8) if end.op == 'p' else P(end, -8)
            r = eng.load(st, back, 64)
            src = r.a[1] if r.op == 'ld' else None
            if src is not None and src.op == 'p' and src.a[1] == 0:
                src = src.a[0]
            if r is v or src is not None and self.at_place(eng, st, src, v) or self.get(st, 'moved'):
                self.ok('jobs', 'removed')
            elif any(i['op'] == 'getelementptr' and i.get('var') for b in self.F.blocks for i in b):
                # chosen by a position in the list: not followed
                self.rep.undecided('jobs', self.ctx + ':removed', show(r))
            elif src is not None and (r.a[1] is back or v.op == 'w' and src in (beg, strip(beg)) and not self.known_first(v)):
                self.fail('jobs', x, 'the last registered point is removed, which need not be the one that was queued', 'removed')
            else:
                self.rep.undecided('jobs', self.ctx + ':removed', show(r))
        elif last == 'erase':
            p = args[1] if len(args) > 1 else args[0]
            if p.op == 'p' and p.a[0].op == 'alloca':
                p = eng.load(st, p, 64)
            q = p if p.op in ('p', 'pv') else P(p, 0)
            if self.at_place(eng, st, p, v) or eng.load(st, q, 64) is v:
                self.ok('jobs', 'removed')
            else:
                self.rep.undecided('jobs', self.ctx + ':removed', show(p))
        else:
            self.rep.undecided('jobs', self.ctx + ':removed', last)
        self.put(st, 'pushed', None)
        self.put(st, 'moved', None)

    def outer(self, F):
        """the header of the outermost loop that queues points"""
        h = [b for b in F.headers if any(x.get('op') in ('call', 'invoke') and isinstance(x.get('fn'), str) and '::push_back' in self.mod.dem(x['fn']) for c in F.loops[b] for x in F.blocks[c])]
        h = [b for b in h if not any(b in F.loops[o] and b != o for o in h)]
        return h[0] if h else None

    def known(self, st, v):
        for n, k, f in self.get(st, 'ready', ()):
            if isinstance(k, tuple):
                if st.mem.get(k[1:]) is v:
                    return f
                continue
            for env in (st.env,) + tuple(st.stack):
                if env.get(k) is v:
                    return f
        return None

    def push(self, eng, st, x, last, args):
        v = args[1] if last.endswith('back') else args[-1]
        v = eng.load(st, v, 64)
        if self.role != 'execute':
            self.fail('jobs', x, 'puts a point into the queue outside the execution of a plan', 'push')
            return None
        f = self.facts(eng, st, v) or self.known(st, v)
        if eng.decide_cmp(st, 'ne', v, C(0, 64)) is True and f == 'null':
            f = 'unknown' if v.op == 'w' else None
        if f == 'ready':
            self.ok('depend', 'ready')
        elif f == 'unknown':
            self.rep.undecided('depend', self.ctx + ':ready', 'which point was chosen')
        elif f == 'null':
            self.fail('depend', x, 'puts a null pointer into the queue', 'ready')
        elif v.op == 'w' and not self.asked(st):
            self.fail('depend', x, 'queues a point without checking that all it depends on is finished', 'ready')
        else:
            self.fail('depend', x, 'queues a point that may still depend on unfinished ones', 'ready')
        self.changed(st, 'workQueue')
        self.put(st, 'idle', None)
        if self.get(st, 'pushed') is not None:
            self.fail('jobs', x, 'a point is queued before the one queued last was removed from the registered ones', 'removed')
        self.put(st, 'pushed', v)
        uid = eng.site(st, x)
        eng.clobber(st, uid, THIS, self.o['workQueue'], self.o['workQueue'] + 24)
        # the queue has an element now
        b, e = self.vec(eng, st, 'workQueue')
        eng.assume_cmp(st, 'ne', b, e)
        return [(st, None)]

    def asked(self, st):
        return bool(self.get(st, 'ready'))

    def counted(self, eng, st, x):
        w, d = self.get(st, 'workers', 0), self.get(st, 'workerThreads', 0)
        if d == '?':
            return
        if w != d:
            self.fail('count', x, 'a thread that was started is not counted as a worker, or one that was not started is (%d started, %d counted)' % (w, d), 'started')
        else:
            self.ok('count', 'started')
        self.put(st, 'workers', None)
        self.put(st, 'workerThreads', None)

    # ---- registration
    def registered(self, eng, st, x, args):
        v = eng.load(st, args[1], 64)
        b, o = base_off(v)
        f = eng.load(st, P(b, self.point), 64)
        self.rep.decide(b.op == 'new' and f is self.args[1], 'register', self.ctx + ':point', where(self.F, x), 'the registered entry is not a new one for the given point')
        for n, i in (('schedulingClass', 2), ('priority', 3)):
            off = self.mod.field('Scheduler::RegisteredPoint', n)[0]
            v = st.mem.get((b, off))
            self.rep.decide(v is self.args[i], 'register', self.ctx + ':' + n, where(self.F, x), 'the %s of the registered entry is not the given one' % n)
        self.put(st, 'registered', self.get(st, 'registered', 0) + 1)
        idx = st.env.get(self.idx) if self.idx is not None else None
        if idx is not None:
            beg, end = self.vec(eng, st, 'registeredPoints')
            d = eng.binop(st, 'sub', end, beg, 64)
            ns = [eng.binop(st, 'sdiv', d, C(8, 64), 64), eng.binop(st, 'ashr', d, C(3, 64), 64)]
            w = width(idx)
            z = lambda e: eng.ext('zext', e, w, 64) if w < 64 else e
            if any(eng.decide_cmp(st, 'uge', z(idx), n) for n in ns):
                self.ok('register', 'last')
            elif any(eng.decide_cmp(st, 'uge', j, n) for n in ns for k in (1, 2, 3) for j in (z(eng.binop(st, 'add', idx, C(k, w), w)), eng.binop(st, 'add', z(idx), C(k, 64), 64))):
                self.fail('register', x, 'the last entries the point depends on are left out', 'last')
            else:
                self.rep.undecided('register', self.ctx + ':last', show(idx))

    def depends(self, eng, st, x, args):
        p = args[1]
        beg, end = self.vec(eng, st, 'registeredPoints')
        d = lin_all(p)
        dep = self.args[4]
        ok = d is not None and d.get(strip(beg)) == 1 and d.get(dep) == 8
        if not ok:
            self.rep.undecided('register', self.ctx + ':dependencies', show(p)[:160])
            return
        k = d.get(None, 0)
        turn = [c for e, c in d.items() if isinstance(e, E) and e not in (dep, strip(beg))]
        self.rep.decide(k == 0 and turn in ([8], [-8]), 'register', self.ctx + ':dependencies', where(self.F, x), 'the first or some of the entries the point depends on are left out')


def strip(e):
    return e.a[0] if e.op == 'p' and e.a[1] == 0 else e


def lin_all(e, w=64):
    """sum of multiples of terms, looking through extensions (indexes do not overflow)"""
    if is_c(e):
        v = e.a[0]
        return {None: v} if v else {}
    if e.op in ('zext', 'sext', 'trunc'):
        return lin_all(e.a[0])
    if e.op == 'p':
        d = dict(lin_all(e.a[0]))
        if e.a[1]:
            d[None] = d.get(None, 0) + e.a[1]
        return d
    if e.op == 'pv':
        out = dict(lin_all(e.a[0]))
        for t in e.a[1:]:
            if isinstance(t, int):
                if t:
                    out[None] = out.get(None, 0) + t
            elif isinstance(t, tuple):
                for y in (t if t and isinstance(t[0], tuple) else (t,)):
                    a, b = y
                    ex, k = (a, b) if isinstance(a, E) else (b, a)
                    if not isinstance(k, int):
                        return {e: 1}
                    for z, c in lin_all(ex).items():
                        out[z] = out.get(z, 0) + c * k
            else:
                return {e: 1}
        return out
    if e.op == 'bin' and e.a[0] in ('add', 'sub'):
        a, b = dict(lin_all(e.a[1])), lin_all(e.a[2])
        k = 1 if e.a[0] == 'add' else -1
        for z, c in b.items():
            a[z] = a.get(z, 0) + k * c
            if not a[z]:
                del a[z]
        return a
    if e.op == 'bin' and e.a[0] in ('mul', 'shl') and is_c(e.a[2]):
        k = e.a[2].a[0] if e.a[0] == 'mul' else 1 << e.a[2].a[0]
        return {z: c * k for z, c in lin_all(e.a[1]).items()}
    return {e: 1}


def signed(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


def lin_diff(v, old):
    a, b = lin_all(v), lin_all(old)
    d = {k: a.get(k, 0) - b.get(k, 0) for k in set(a) | set(b)}
    k = d.pop(None, 0)
    if any(d.values()):
        return None
    return signed(k, 32)


def pool(mod, rep, name, role, pick=None):
    fs = [f for f in mod.fns.values() if f.sname == name]
    rep.need(fs, 'function %s' % name)
    F = fs[0]
    rep.fn(F)
    ctx = name.split('::', 1)[1].replace('Scheduler', 'new') if '~' not in name else 'destroy'
    mon = PoolMon(mod, rep, ctx, role)
    mon.F = F
    mon.args = eff.argvec(F)
    mon.args[0] = THIS
    eng = Engine(mod, mon, exit_cap=200)
    mon.this = eng.this = THIS
    st = new_state(())
    exits = eng.run(F, mon.args, st)
    n = 0
    for e in exits:
        mon.finish(eng, e)
        if e.kind != 'ret':
            continue
        n += 1
        s = e.st
        if role == 'worker':
            for k in ('activeWorkers', 'workerThreads'):
                d = mon.get(s, k, 0)
                want = -1 if k == 'workerThreads' else 0
                if d != '?':
                    rep.decide(d == want, 'count', ctx + ':' + k + ':end', where(F, e.inst), 'a worker that ends has changed %s by %d' % (k, d))
            j = mon.get(s, 'job')
            rep.decide(j is None or j[1] == 'done', 'jobs', ctx + ':end', where(F, e.inst), 'a worker ends before its job is finished')
        if role == 'dtor':
            t = eng.load(s, P(THIS, mon.o['threads']), 32)
            rep.decide(bool(mon.get(s, 'gone')) or eng.decide_cmp(s, 'eq', t, C(0, 32)) is True, 'stop', ctx + ':gone', where(F, e.inst), 'the scheduler is destroyed although workers may still use it')
        if role == 'register':
            rep.decide(mon.get(s, 'registered', 0) == 1, 'register', ctx + ':once', where(F, e.inst), 'the point is registered %d times' % mon.get(s, 'registered', 0))
        if role in ('execute', 'single'):
            r = mon.get(s, 'rows')
            if r is None:
                rep.fail('main', ctx + ':drained', where(F, e.inst), 'the plan is not run')
            else:
                rep.decide(eng.decide_cmp(s, 'eq', r, C(0, 64)) is True, 'main', ctx + ':drained', where(F, e.inst), 'the plan is left although it may deliver further rows')
        if role == 'ctor':
            mon.counted(eng, s, e.inst)
    rep.need(n, 'an end of ' + name)
    if role == 'register' and not any(k[0] == 'register' and k[1].endswith(':dependencies') for k in list(rep.obl) + [('register', u[0].split('/', 1)[1]) for u in rep.undec]):
        rep.fail('register', ctx + ':dependencies', where(F), 'the point does not depend on any other')
    return eng


def run_pool(rep, mod):
    pool(mod, rep, 'Scheduler::Scheduler', 'ctor')
    pool(mod, rep, 'Scheduler::~Scheduler', 'dtor')
    pool(mod, rep, 'Scheduler::performWork', 'worker')
    pool(mod, rep, 'Scheduler::execute', 'execute')
    pool(mod, rep, 'Scheduler::executeSingleThreaded', 'single')
    pool(mod, rep, 'Scheduler::registerAsyncPoint', 'register')


# ---------------------------------------------------------------- the primitives
class PrimMon(LockMon):
    def __init__(self, mod, rep, ctx):
        LockMon.__init__(self, mod, rep, ctx)
        self.log = []

    def other(self, eng, st, x, fn, s, args):
        if s == 'gettimeofday':
            self.now = args[0]
            return [(st, C(0, 32))]
        if s.startswith('pthread_'):
            r = mk('fresh', eng.site(st, x), s, 32)
            self.put(st, 'did', self.get(st, 'did', ()) + ((s, tuple(args), r),))
            return [(st, r)]
        return None

    def wake(self, eng, st, x, cond, how):
        self.put(st, 'did', self.get(st, 'did', ()) + (('wake', (cond, how), None),))

    def sleeping(self, eng, st, x, cond, m):
        self.put(st, 'did', self.get(st, 'did', ()) + (('sleep', (cond, m), None),))


def prim(rep, mod, name, check, held=False):
    fs = [F for F in mod.fns.values() if F.sname == name]
    rep.need(fs, 'function ' + name)
    F = fs[0]
    rep.fn(F)
    mon = PrimMon(mod, rep, name)
    mon.F = F
    a = eff.argvec(F)
    mon.args = a
    eng = Engine(mod, mon)
    mon.this = eng.this = a[0]
    st = new_state(())
    if held is not False:
        mon.put(st, 'held', (a[held] if held else a[0],))
    n = 0
    for e in eng.run(F, a, st):
        if e.kind == 'ret':
            n += 1
            check(mon, eng, e, a)
    rep.need(n, 'an end of ' + name)


def at(p, o=0):
    b, k = base_off(p)
    return b, k


def run_prims(rep, mod):
    def expect(kind, msg, pred):
        def c(mon, eng, e, a):
            r = pred(mon, eng, e, a)
            if r is None:
                rep.undecided('primitive', mon.ctx + ':' + kind, 'not recognised')
            else:
                rep.decide(r, 'primitive', mon.ctx + ':' + kind, where(mon.F, e.inst), msg)
        return c
    mo = mod.field('Mutex', 'mutex')[0]
    co = mod.field('Event', 'condVar')[0]
    mine = lambda mon, e, a: [at(m) for m in mon.held(e.st)] == [(a[0], mo)]
    prim(rep, mod, 'Mutex::lock', expect('lock', 'returns without holding the mutex', lambda m, g, e, a: mine(m, e, a)))
    prim(rep, mod, 'Mutex::unlock', expect('unlock', 'returns with the mutex still held', lambda m, g, e, a: not m.held(e.st)), held=0)

    def trylock(m, g, e, a):
        v = e.val if width(e.val) == 1 else g.ext('trunc', e.val, width(e.val), 1)
        d = g.decide(e.st, v)
        return None if d is None else d == bool(m.held(e.st))
    prim(rep, mod, 'Mutex::tryLock', expect('result', 'the result does not tell whether the mutex was acquired', trylock))

    def woke(how):
        return lambda m, g, e, a: any(s == 'wake' and at(x[0]) == (a[0], co) and (x[1] == 'all' or how == 'one') for s, x, r in m.get(e.st, 'did', ()))
    prim(rep, mod, 'Event::notify', expect('wake', 'no waiting thread is woken', woke('one')))
    prim(rep, mod, 'Event::notifyAll', expect('wake', 'not all waiting threads are woken', woke('all')))
    for n in ('Event::wait', 'Event::timedWait'):
        prim(rep, mod, n, expect('wait', 'does not wait once for this event with the given mutex', lambda m, g, e, a: [(s, at(x[0]), at(x[1])) for s, x, r in m.get(e.st, 'did', ()) if s == 'sleep'] == [('sleep', (a[0], co), (a[1], mo))]), held=1)
    run_deadline(rep, mod)

    def started(m, g, e, a):
        d = [(x, r) for s, x, r in m.get(e.st, 'did', ()) if s == 'pthread_create']
        if len(d) != 1:
            return False
        x, r = d[0]
        v = g.decide(e.st, e.val if width(e.val) == 1 else g.ext('trunc', e.val, width(e.val), 1))
        z = g.decide_cmp(e.st, 'eq', r, C(0, 32))
        if x[2] is not a[0] or x[3] is not a[1]:
            return False
        return False if z is None and v is not None else None if v is None else v == z
    prim(rep, mod, 'Thread::start', expect('result', 'the thread does not run the given function, or the result does not tell whether it was started', started))


class Deadline(PrimMon):
    def sleeping(self, eng, st, x, cond, m):
        pass

    def on_call(self, eng, st, x, fn, args):
        if shortname(fn) == 'pthread_cond_timedwait':
            self.seen.append((eng.load(st, args[2], 64), eng.load(st, P(args[2].a[0], args[2].a[1] + 8), 64), x))
        if shortname(fn) == 'gettimeofday':
            b, o = base_off(args[0])
            self.sec, self.usec = mk('fresh', 1, 'sec', 64), mk('fresh', 2, 'usec', 64)
            eng.store(st, P(b, o), self.sec)
            eng.store(st, P(b, o + 8), self.usec)
            return [(st, C(0, 32))]
        return PrimMon.on_call(self, eng, st, x, fn, args)


def scaled(e):
    """a sum of products and quotients of terms by constants: {(term, divisor): factor}"""
    if is_c(e):
        return {None: e.a[0]}
    if e.op in ('zext', 'sext', 'trunc'):
        return scaled(e.a[0])
    if e.op == 'bin':
        op, a, b = e.a
        if op in ('add', 'sub'):
            x, y = scaled(a), scaled(b)
            if x is None or y is None:
                return None
            x = dict(x)
            for k, c in y.items():
                x[k] = x.get(k, 0) + (c if op == 'add' else -c)
            return x
        if op in ('mul', 'shl') and (is_c(a) or is_c(b)):
            c, o = (a, b) if is_c(a) and op == 'mul' else (b, a)
            k = c.a[0] if op == 'mul' else 1 << c.a[0]
            x = scaled(o)
            return x and {t: v * k for t, v in x.items()}
        if op in ('udiv', 'sdiv') and is_c(b):
            x = scaled(a)
            if x and len(x) == 1 and list(x.values()) == [1]:
                t = list(x)[0]
                return {(t[0], t[1] * b.a[0]): 1} if t else None
            return None
        return None
    return {(e, 1): 1}


def run_deadline(rep, mod):
    F = eff.one(mod, rep, 'Event::timedWait')
    mon = Deadline(mod, rep, 'Event::timedWait')
    mon.F, mon.seen = F, []
    a = eff.argvec(F)
    eng = Engine(mod, mon)
    mon.this = eng.this = a[0]
    st = new_state(())
    mon.put(st, 'held', (a[1],))
    eng.run(F, a, st)
    rep.need(mon.seen, 'the timed wait')
    for sec, nsec, x in mon.seen:
        k = 'Event::timedWait:deadline'
        # sec = T / 1000, nsec = (T mod 1000) * 1000000 with T = now + timeout in milliseconds
        T = None
        if sec.op == 'bin' and sec.a[0] in ('udiv', 'sdiv') and is_c(sec.a[2]) and sec.a[2].a[0] == 1000:
            T = sec.a[1]
        rest = nsec.a[1] if nsec.op == 'bin' and nsec.a[0] == 'mul' and is_c(nsec.a[2]) else None
        if T is None or rest is None or not (rest.op == 'bin' and rest.a[0] in ('urem', 'srem') and rest.a[1] is T and is_c(rest.a[2])):
            rep.undecided('deadline', k, '%s / %s' % (show(sec)[:80], show(nsec)[:80]))
            continue
        if rest.a[2].a[0] != 1000 or nsec.a[2].a[0] != 1000000:
            rep.fail('deadline', k, where(F, x), 'the parts of the deadline do not add up')
            continue
        t = scaled(T)
        if t is None:
            rep.undecided('deadline', k, show(T)[:160])
            continue
        got = {n: [c / q[1] for q, c in t.items() if q and q[0] is r] for n, r in (('sec', mon.sec), ('usec', mon.usec), ('timeout', a[2]))}
        want = {'sec': [1000.0], 'usec': [0.001], 'timeout': [1.0]}
        rep.decide(got == want, 'deadline', k, where(F, x), 'the deadline is not the current time plus the timeout in milliseconds (%s)' % ', '.join('%s * %s' % (n, v) for n, v in got.items() if v != want[n]))


def run(rep, tier):
    mod = ops.rdf_module()
    rep.explain = 'Typestate analysis of locks, critical sections and jobs along every path of the worker pool and of the operations on shared domains.'
    rep.rule('every lock taken is given back exactly once on every path; waits hold the lock; guarded state is used under its lock; foreign code runs without locks')
    rep.rule('a change that others wait for wakes all of them before the lock is given up')
    rep.rule('a job is taken from a queue known to be non-empty, run once outside the lock, counted while it runs, releases its dependants, and is deleted afterwards')
    rep.rule('the lock, wait, wake and thread primitives do what their callers rely on')
    rep.parts((run_pool, run_domains, run_prims), rep, mod)
