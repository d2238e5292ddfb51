"""Cross-thread task queue: mutex held, no lost wake-up, no call under lock."""
import psa
from psa import C0, C1
from lib import *

EXPLANATION = ('Lock-set and typestate analysis of every function of the cross-thread task queue along all its paths: which mutexes are held at each access to the queue, at each wait and at each call of a task; '
               'that a stored task is followed by a wake-up the consumer sees (flag read after the store, flag set before the pipe is written); that the consumer clears the flag before it drains to empty; '
               'that every item taken out is released after its task ran or the queue was found closed; that closing is decided under the mutex tasks are added under. '
               'Flags other threads write are taken to change at any moment: every read gives a new unknown.')

GUARDS = ('std::unique_lock<', 'std::lock_guard<', 'std::scoped_lock<')


def meth(info):
    return info['q'].rsplit('::', 1)[-1]


def run(ctx):
    ir = ctx.ir
    QUEUE, MUTEX, SIG, CLOSED, PIPE, LOOP = (field(ctx, 'Performer::' + x) for x in ('m_items', 'm_mutex', 'm_signaled', 'm_closed', 'm_pipe', 'm_runLoop'))
    DONE, IMUTEX, COND, TASK = (field(ctx, 'Performer::Item::' + x) for x in ('m_complete', 'm_mutex', 'm_cond', 'm_task'))
    FLAGS = (SIG, CLOSED, DONE)
    n = dict(acc=set(), task=set(), push=set(), clear=set(), take=set(), wait=set(), close=set(), done=set(), locks=set(), ctor=0)
    mine = {f.key for f in ir.all() if ir.cls_of(f.key) in ('Performer', 'Performer::Item') or f.is_lambda and f.bq.startswith('Performer::')}
    if not mine:
        raise AnalysisError('the task queue has no functions')

    ctx.rule('R1: the task queue is touched only with its mutex held; a mutex is never acquired while it is already held')
    ctx.rule('R2: no task is called while a mutex is held')
    ctx.rule('R3: a task is queued only if the queue was found open since its mutex was acquired, and is followed by a wake-up before the function waits or returns: the flag is found set after the task was queued, or it is set and then the pipe is written')
    ctx.rule('R4: the consumer reads the pipe, and after it clears the flag it takes tasks until it finds the queue empty')
    ctx.rule('R5: a task is taken out only after the queue was found not empty in the same critical section, and every item taken out has its task called unless there is none or the queue was found closed, and then its waiter is released')
    ctx.rule('R6: a waiter waits only with its mutex held and completion found missing since, and returns only when completion was found, the task was called in place, or the queue was found closed; it never waits on the thread of the run loop')
    ctx.rule('R7: closing is recorded with the mutex held and never undone, the descriptor is withdrawn before the pipe is closed, and the queue is then emptied')
    ctx.rule('R8: an item that must signal completion has both a mutex and a condition')

    class R(Watch):
        tracked = frozenset([COND, TASK, IMUTEX, LOOP])
        private = frozenset([COND, TASK, IMUTEX])
        observe = {'RunLoop::isRunningInThisThread': 'inloop'}

        def inline(self, I, key, info):
            return key in mine

        # ---- locks
        def mutex_of(self, v):
            return v[1] if v[0] == 'addr' else ('D', v)

        def held(self, st, f=None):
            return [m for m in self.marks(st, 'held') if f is None or self.fld_of(st, m[1]) == f]

        def fld_of(self, st, p):
            if p[0] == 'F':
                return p[2]
            for q, v in st.mem.items():
                if q[0] == 'F' and p == ('D', v):
                    return q[2]
            for m in self.marks(st, 'ptr'):
                if p == ('D', m[3]):
                    return m[2][0]
            return None

        def acquire(self, I, st, p, guard, op, fr):
            n['locks'].add((fr.fn.key, op.l))
            if any(m[1] == p for m in self.marks(st, 'held')):
                I.fail(fr, op.l, 'a mutex is acquired while it is already held')
            self.mark(st, ('held', p, (), guard))
            if self.fld_of(st, p) == MUTEX:
                self.drop(st, lambda m: m[0] in ('closedrd', 'emptyrd', 'front'))
            else:
                self.drop(st, lambda m: m[0] == 'donerd')

        def release(self, st, pred):
            gone = [m for m in self.marks(st, 'held') if pred(m)]
            self.drop(st, lambda m: m in gone)
            for m in gone:
                if self.fld_of(st, m[1]) == MUTEX:
                    self.drop(st, lambda m: m[0] == 'front')
                    self.drop(st, lambda m: m[0] == 'closedrd' and not true(st, m[3]))
                    self.drop(st, lambda m: m[0] == 'emptyrd' and not true(st, m[3]))

        def on_op(self, I, st, op, fr):
            if op.k == 'dtor':
                p = I.place(st, op.a, fr)
                self.release(st, lambda m: m[3] == ('addr', p))

        # ---- values other threads change
        def on_load(self, I, st, p, op, fr):
            if p[0] == 'F' and p[2] in FLAGS:
                v = I.fresh(st, 'flag', op, fr)
                k = {SIG: 'sigrd', CLOSED: 'closedrd', DONE: 'donerd'}[p[2]]
                self.drop(st, lambda m: m[0] == k and not true(st, m[3]))
                self.mark(st, (k, p[1], (), v))
                return v
            if p[0] == 'F' and p[2] in (IMUTEX, COND, TASK, LOOP):
                v = st.mem.get(p)
                if v is None:
                    v = I.fresh(st, 'ptr', op, fr)
                    st.mem[p] = v
                self.mark(st, ('ptr', C0, (p[2],), v))
                return v
            if p[0] == 'D' and any(m[3] == p[1] for m in self.marks(st, 'front')):
                v = I.fresh(st, 'item', op, fr)
                st.refine(psa.mknz(v), True)       # only items are queued
                return v
            if p[0] == 'E' and p[1] == ('addr', ('F', ('s', 'this', 0), PIPE)) or p[0] == 'E' and p[1][0] == 'addr' and p[1][1][0] == 'F' and p[1][1][2] == PIPE:
                v = I.fresh(st, 'fd', op, fr)
                self.mark(st, ('fd', C0, (p[2],), v))
                return v
            return None

        def fd(self, st, v):
            return next((m[2][0] for m in self.marks(st, 'fd') if m[3] == v), None)

        def on_store(self, I, st, p, v, op, fr):
            if p[0] != 'F' or (op.info or {}).get('init') and fr.fn.d.get('ctor'):
                return
            if p[2] == SIG:
                self.signal(I, st, v, op, fr)
            elif p[2] == CLOSED:
                n['close'].add((fr.fn.key, op.l))
                if not true(st, v):
                    I.fail(fr, op.l, 'a closed queue is opened again')
                if not self.held(st, MUTEX):
                    I.fail(fr, op.l, 'closing is recorded without the mutex: a task may still be queued that nobody will take')
                self.mark(st, ('closing', C0, (), ('c', op.l)))
                self.drop(st, lambda m: m[0] == 'emptyrd')
            elif p[2] == DONE:
                n['done'].add((fr.fn.key, op.l))
                if not true(st, v):
                    return
                if not self.held(st, IMUTEX):
                    I.fail(fr, op.l, 'completion is recorded without the mutex the waiter holds: its wake-up can be lost')
                self.mark(st, ('completed', C0, (), C1))
                if self.marks(st, 'taken') and not self.ran(st, p[1]):
                    I.fail(fr, op.l, 'a waiter is released although its task has not been called')

        def signal(self, I, st, v, op, fr):
            if true(st, v):
                if self.marks(st, 'written'):
                    I.fail(fr, op.l, 'the flag is set after the pipe was written: the consumer may have cleared it already, and no later wake-up is sent')
                self.mark(st, ('sigset', C0, (), C1))
            else:
                n['clear'].add((fr.fn.key, op.l))
                self.drop(st, lambda m: m[0] in ('emptyrd', 'sigset'))
                self.mark(st, ('cleared', C0, (), ('c', op.l)))

        def ran(self, st, item):
            return bool(self.marks(st, 'called') or self.marks(st, 'closed'))

        def settle(self, I, st, op, fr):
            """an item taken out has been dealt with before the next one is"""
            if not self.marks(st, 'taken'):
                return
            for m in self.marks(st, 'taken'):
                if not self.ran(st, m[1]):
                    I.fail(fr, m[3][1], 'a task is taken out of the queue and not called although the queue was not found closed')
                if not self.marks(st, 'released'):
                    I.fail(fr, m[3][1], 'an item is taken out of the queue and its waiter is not released')
            self.drop(st, lambda m: m[0] in ('taken', 'called', 'released', 'completed') or m[0] == 'ptr' and m[2][0] != LOOP)

        def on_call(self, I, st, op, info, args, obj, fr):
            q, m = info['q'], meth(info)
            t = info.get('t') or ''
            if op.k == 'ctor' and t.startswith(GUARDS):
                if args:
                    if len(args) > 1:
                        I.fail(fr, op.l, 'the mutex is not acquired where its guard is created')
                    else:
                        self.acquire(I, st, self.mutex_of(args[0]), ('addr', I.place(st, op.a, fr)), op, fr)
                return [(st, C0)]
            cls = info.get('cls') or ''
            if cls.startswith(GUARDS) and obj is not None:
                if m == 'unlock':
                    for x in [x for x in self.marks(st, 'held') if x[3] == obj]:
                        self.mark(st, ('unlocked', x[1], (), obj))
                    self.release(st, lambda x: x[3] == obj)
                elif m == 'lock':
                    for x in [x for x in self.marks(st, 'unlocked') if x[3] == obj]:
                        self.acquire(I, st, x[1], obj, op, fr)
                return [(st, C0)]
            if cls == 'std::mutex' and obj is not None:
                if m == 'lock':
                    self.acquire(I, st, self.mutex_of(obj), C0, op, fr)
                elif m == 'unlock':
                    self.release(st, lambda x: x[1] == self.mutex_of(obj))
                return [(st, C0)]
            if 'atomic' in cls and obj is not None and obj[0] == 'addr' and obj[1][0] == 'F' and obj[1][2] in FLAGS and m in ('exchange', 'load', 'store'):
                v = self.on_load(I, st, obj[1], op, fr) if m != 'store' else C0
                if m == 'exchange' and obj[1][2] == SIG:
                    self.mark(st, ('xchg', C0, (), v))
                elif m in ('exchange', 'store'):
                    self.on_store(I, st, obj[1], args[0], op, fr)
                return [(st, v)]
            o = info.get('obj')
            if o and o[0] == 'fld' and o[2] == QUEUE and op.k == 'call':
                return self.queue(I, st, op, m, args, fr)
            if cls.startswith('std::condition_variable') and obj is not None:
                if m in ('notify_all', 'notify_one'):
                    if not self.marks(st, 'completed'):
                        I.fail(fr, op.l, 'a waiter is woken before its completion is recorded')
                    self.mark(st, ('released', C0, (), C1))
                elif m in ('wait', 'wait_for', 'wait_until'):
                    n['wait'].add((fr.fn.key, op.l))
                    if not self.held(st, IMUTEX):
                        I.fail(fr, op.l, 'waiting for completion without the mutex of the item')
                    if not true(st, obj):
                        I.fail(fr, op.l, 'waiting on a condition the item may not have')
                    if self.held(st, MUTEX):
                        I.fail(fr, op.l, 'waiting for completion with the mutex of the queue held')
                    self.woken(I, st, fr)
                    if not any(false(st, x[3]) for x in self.marks(st, 'inloop')):
                        I.fail(fr, op.l, 'waiting on a thread that was not found to be another than the run loop\'s')
                    if len(args) > 1:
                        self.mark(st, ('donerd', C0, (), C1))
                    else:
                        if not any(false(st, x[3]) for x in self.marks(st, 'donerd')):
                            I.fail(fr, op.l, 'waiting although completion was not found missing with the mutex held')
                        self.drop(st, lambda x: x[0] == 'donerd')
                return [(st, C0)]
            if q in ('write', 'send') and args and self.fd(st, args[0]) is not None:
                if self.fd(st, args[0]) != C1:
                    I.fail(fr, op.l, 'the wake-up is written to the wrong end of the pipe')
                if len(args) > 2 and not (args[2][0] == 'c' and args[2][1] > 0):
                    I.fail(fr, op.l, 'the wake-up writes nothing')
                self.mark(st, ('written', C0, (), C1))
                if self.marks(st, 'sigset'):
                    self.drop(st, lambda x: x[0] == 'queued')
                return [(st, I.fresh(st, 'ret', op, fr))]
            if q in ('read', 'recv') and args and self.fd(st, args[0]) is not None:
                if self.fd(st, args[0]) != C0:
                    I.fail(fr, op.l, 'the wake-up is read from the wrong end of the pipe')
                self.mark(st, ('read', C0, (), C1))
                return [(st, I.fresh(st, 'ret', op, fr))]
            if q == 'close' and args and self.fd(st, args[0]) is not None:
                if self.marks(st, 'registered'):
                    I.fail(fr, op.l, 'the pipe is closed while its descriptor may be registered')
                if not self.marks(st, 'closing'):
                    I.fail(fr, op.l, 'the pipe is closed before closing is recorded')
                self.mark(st, ('fdclosed', C0, (self.fd(st, args[0]),), C1))
                return [(st, C0)]
            if base_q(q) == 'RunLoop::unregisterDescriptor':
                self.drop(st, lambda x: x[0] == 'registered')
                return [(st, C0)]
            if base_q(q) == 'RunLoop::registerDescriptor' and args:
                if self.fd(st, args[0]) != C0:
                    I.fail(fr, op.l, 'the descriptor registered is not the read end of the pipe')
                return [(st, C0)]
            return Watch.on_call(self, I, st, op, info, args, obj, fr)

        def woken(self, I, st, fr):
            for m in self.marks(st, 'queued'):
                I.fail(fr, m[3][1], 'a task is queued without a wake-up the consumer is sure to see')
            self.drop(st, lambda m: m[0] == 'queued')

        def queue(self, I, st, op, m, args, fr):
            self.nevents += 1
            n['acc'].add((fr.fn.key, op.l))
            if not self.held(st, MUTEX):
                I.fail(fr, op.l, 'the task queue is touched without its mutex held')
            if m in ('push', 'emplace'):
                n['push'].add((fr.fn.key, op.l))
                if not any(false(st, x[3]) for x in self.marks(st, 'closedrd')):
                    I.fail(fr, op.l, 'a task is queued without finding the queue open in the same critical section: nobody may be left to take or release it')
                self.drop(st, lambda x: x[0] in ('sigrd', 'sigset', 'written', 'xchg'))
                self.mark(st, ('queued', C0, (), ('c', op.l)))
                self.mark(st, ('pushed', C0, (), C1))
            elif m in ('empty', 'size'):
                v = I.fresh(st, 'bool', op, fr)
                self.settle(I, st, op, fr)
                self.drop(st, lambda x: x[0] == 'emptyrd')
                self.mark(st, ('emptyrd', C0, (C0 if m == 'size' else C1,), v))
                return [(st, v)]
            elif m in ('front', 'pop'):
                if not self.nonempty(st):
                    I.fail(fr, op.l, 'an item is taken from a queue not found to hold one in the same critical section')
                if m == 'front':
                    v = I.fresh(st, 'ret', op, fr)
                    self.mark(st, ('front', C0, (), v))
                    return [(st, v)]
                if not self.marks(st, 'front'):
                    I.fail(fr, op.l, 'an item is removed from the queue without being taken up')
                n['take'].add((fr.fn.key, op.l))
                self.drop(st, lambda x: x[0] in ('front', 'emptyrd'))
                self.settle(I, st, op, fr)
                self.drop(st, lambda m: m[0] in ('called', 'released', 'completed'))
                self.mark(st, ('taken', C0, (), ('c', op.l)))
            elif m in ('swap', 'operator=', 'back', 'emplace_back'):
                I.fail(fr, op.l, 'the queue is changed in a way the rule does not know')
            return [(st, C0)]

        def nonempty(self, st):
            return any(st.decide(psa.mknz(x[3])) is (x[2][0] == C0) for x in self.marks(st, 'emptyrd'))

        def isempty(self, st):
            return any(st.decide(psa.mknz(x[3])) is (x[2][0] == C1) for x in self.marks(st, 'emptyrd'))

        def on_branch(self, I, st, v, truth, b, fr):
            for m in self.marks(st, 'sigrd'):
                if true(st, m[3]):
                    self.drop(st, lambda y: y[0] == 'queued')
            for m in self.marks(st, 'closedrd'):
                if true(st, m[3]):
                    self.mark(st, ('closed', C0, (), C1))
            for m in self.marks(st, 'ptr'):
                if false(st, m[3]):
                    # no task to call, nobody waits, no run loop is left
                    f = m[2][0]
                    if f == LOOP:
                        self.drop(st, lambda y: y[0] == 'registered')
                    elif f in (COND, TASK) and self.marks(st, 'taken'):
                        self.mark(st, ('released' if f == COND else 'called', C0, (), C1))
            for m in self.marks(st, 'xchg'):
                if true(st, m[3]):
                    self.drop(st, lambda y: y[0] == 'queued')
                elif false(st, m[3]):
                    self.mark(st, ('sigset', C0, (), C1))

        def on_callv(self, I, st, op, fv, args, fr):
            n['task'].add((fr.fn.key, op.l))
            if self.marks(st, 'held'):
                I.fail(fr, op.l, 'a task is called with a mutex held')
            self.mark(st, ('called', C0, (), C1))

        def on_enter(self, I, st, fr):
            if fr.up is None:
                for i, p in enumerate(fr.fn.params):
                    self.mark(st, ('wait' if p['t'] == 'bool' else 'arg', C0, (), ('s', 'bool' if p['t'] == 'bool' else 'arg', i)))
                if fr.fn.bq == 'Performer::close':
                    self.mark(st, ('registered', C0, (), C1))

        def on_exit(self, I, st, rv, fr):
            if fr.up is not None:
                return
            line = fr.fn.line
            self.woken(I, st, fr)
            self.settle(I, st, None, fr)
            if any(m[1][0] != 'L' for m in self.marks(st, 'held') if m[3] == C0):
                I.fail(fr, line, 'a mutex is still held on return')
            for m in self.marks(st, 'cleared'):
                if not self.isempty(st):
                    I.fail(fr, m[3][1], 'the flag is cleared and tasks may be left in the queue without a wake-up')
                if not self.marks(st, 'read'):
                    I.fail(fr, m[3][1], 'the consumer never reads the pipe')
            for m in self.marks(st, 'closing'):
                if not self.isempty(st):
                    I.fail(fr, m[3][1], 'the queue is closed and items may be left whose waiters are never released')
                if {x[2][0] for x in self.marks(st, 'fdclosed')} != {C0, C1}:
                    I.fail(fr, m[3][1], 'closing leaves an end of the pipe open')
            if fr.fn.d.get('ctor') and ir.cls_of(fr.fn.key) == 'Performer::Item':
                n['ctor'] += 1
                has = [f for f in (IMUTEX, COND) if true(st, st.mem.get(('F', fr.this, f), C0))]
                if len(has) == 1 or not has and not all(false(st, m[3]) for m in self.marks(st, 'wait')):
                    I.fail(fr, line, 'an item that must signal completion may lack its mutex or condition')
            if fr.fn.bq == 'Performer::perform':
                ok = (self.marks(st, 'called') or self.marks(st, 'closed') or any(true(st, m[3]) for m in self.marks(st, 'donerd')) or any(false(st, m[3]) for m in self.marks(st, 'arg')))
                if not all(false(st, m[3]) for m in self.marks(st, 'wait')) and not ok:
                    I.fail(fr, line, 'the caller asked to wait and is let go before its task completed')
                if all(false(st, m[3]) for m in self.marks(st, 'wait')) and not self.marks(st, 'pushed') and not ok:
                    I.fail(fr, line, 'a task is dropped although the queue was not found closed')

    called = {t for k in mine for b in ir.fn(k).blocks for o in b.ops if o.k == 'call' for t in ir.targets(o.info)}
    for k in sorted(mine):
        f = ir.fn(k)
        if ir.cls_of(k) == 'Performer' and (f.d.get('ctor') or f.d.get('dtor') or k in called and f.bq != 'Performer::close'):
            continue            # a helper is followed from its callers
        run_root(ctx, 'R', R, k)
    ctx.need('queue_accesses', len(n['acc']), 4)
    ctx.need('task_calls', len(n['task']), 2)
    ctx.need('tasks_queued', len(n['push']), 1)
    ctx.need('items_taken', len(n['take']), 1)
    ctx.need('flag_clears', len(n['clear']), 1)
    ctx.need('waits', len(n['wait']), 1)
    ctx.need('closings', len(n['close']), 1)
    ctx.need('completions', len(n['done']), 1)
    ctx.need('lock_acquisitions', len(n['locks']), 4)
    ctx.need('item_constructions', n['ctor'], 1)
    # the queue has no other user
    others = {(f.bq, o.l) for f, o in sites(ctx, lambda fn, o: o.k in ('call', 'ld', 'store') and any(x == QUEUE for x in str_fields(o))) if f.key not in mine}
    for q, l in sorted(others):
        ctx.viol('R1', [f.key for f in ir.all() if f.bq == q][0], l, 'the task queue is touched outside its class')


def str_fields(o):
    x = o.info.get('obj') if o.k == 'call' else o.a
    return [x[2]] if x and x[0] == 'fld' else []
