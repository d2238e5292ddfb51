"""Run loops never dispatch a withdrawn registration."""
import psa
from psa import C0, C1
from lib import *
from facts import AnalysisError

EXPLANATION = ('Path-sensitive analysis of every run loop implementation: each invocation of a descriptor action, deferred task, timer pass or per-cycle task is reached only with the stop flag read as clear since '
               'the last callback, and a descriptor action only with its own registration found not withdrawn since; every removal or replacement in a registration table is preceded by marking the removed '
               'registration withdrawn; what is handed to the kernel follows every change of a registration; raw descriptor pointers from the kernel are used before any callback; '
               'clearing covers every condition, deferred task and timer.')

ITEM = {'SelectRunLoop': 'SelectRunLoop::Item', 'EPollRunLoop': 'EPollRunLoop::DescriptorItem'}


def run(ctx):
    ir = ctx.ir
    STOP, LATER, CYCLE = field(ctx, 'RunLoop::m_stopping'), field(ctx, 'RunLoop::m_doLaters'), field(ctx, 'RunLoop::onEveryCycle')
    CAN = {c: field(ctx, ITEM[c] + '::m_canceled') for c in ITEM}
    ACT = {field(ctx, ITEM[c] + '::m_action'): CAN[c] for c in ITEM}
    CANS = frozenset(CAN.values())
    SLOTS = field(ctx, 'EPollRunLoop::Descriptor::m_items')
    SEL = field(ctx, 'SelectRunLoop::m_items')
    DESC = field(ctx, 'EPollRunLoop::m_descriptors')
    EVENTS = 'epoll_event::events'
    INTEREST = {STOP, LATER, CYCLE, SLOTS, SEL, DESC} | CANS
    n = dict(act=set(), task=set(), timers=set(), rem=set(), put=set(), raw=set(), ctl=set(), later=set(), run=0, clear=0)
    loops = {q for q in ctx.prog.classes if base_q(q).rsplit('::', 1)[-1].endswith('RunLoop') and ctx.prog.classes[q]['file'].startswith('include/')}
    ctx.need('run_loop_classes', len(loops), 3)
    nconst = const(ctx, 'EXCEPTION') + 1
    files = {f.file for f in ir.all() if ir.cls_of(f.key) in ('RunLoop', 'SelectRunLoop', 'EPollRunLoop')}

    def meth(info):
        return info['q'].rsplit('::', 1)[-1]

    def cont(info, what):
        t = info.get('cls') or ''
        return t.startswith(('std::map<', 'std::unordered_map<')) and any(('shared_ptr<com::zenomt::' + w + '>') in t for w in what)

    def items_map(info):
        return cont(info, ITEM.values())

    def desc_map(info):
        return cont(info, ['EPollRunLoop::Descriptor'])

    class Base(Watch):
        track_all_locals = True
        event_depth = 8

        def on_store(self, I, st, p, v, op, fr):
            if p[0] == 'L' and 'delta' in (op.info or {}) and not (v[0] == 'c' and 0 <= v[1] <= nconst):
                return I.fresh(st, 'cnt', op, fr)
            return self.on_put(I, st, p, v, op, fr)

        def on_put(self, I, st, p, v, op, fr):
            return None

        def inline(self, I, key, info):
            fn = ir.fn(key)
            if fn is not None and ir.cls_of(key) in ('Timer', 'TimerList'):
                return False
            if fn is not None and ir.cls_of(key) in ('RunLoop', 'SelectRunLoop', 'EPollRunLoop'):
                c = I.closure(key)
                return bool(c[4] or (c[1] | c[2]) & INTEREST)
            return fn is not None and fn.file in files and ir.cls_of(key) == '' and not fn.is_lambda or Watch.inline(self, I, key, info)

    # ---- R1
    ctx.rule('R1: a descriptor action is invoked only with its registration found not withdrawn since the last callback, and it, a deferred task, due timers or the per-cycle task only with the stop flag found clear since')

    class R1(Base):
        tracked = CANS

        def go(self, st):
            return any(false(st, m[3]) for m in self.marks(st, 'stop'))

        def on_load(self, I, st, p, op, fr):
            if p[0] == 'F' and p[2] == STOP:
                v = I.fresh(st, 'bool', op, fr)
                self.settle(st)
                self.mark(st, ('stop', C0, (), v))
                return v
            if p[0] == 'F' and p[2] in ACT:
                v = I.fresh(st, 'ld', op, fr)
                self.drop(st, lambda m: m[0] == 'action')
                self.mark(st, ('action', p[1], (('k', p[2]),), v))
                return v

        def settle(self, st):
            go = self.go(st)
            self.drop(st, lambda m: m[0] == 'stop' and (go or st.decide(psa.mknz(m[3])) is not None))
            if go:
                self.mark(st, ('stop', C0, (), C0))

        def on_branch(self, I, st, v, truth, b, fr):
            self.settle(st)

        def on_put(self, I, st, p, v, op, fr):
            if p[0] == 'F' and p[2] == STOP:
                self.drop(st, lambda m: m[0] == 'stop')
                if v == C0:
                    self.mark(st, ('stop', C0, (), C0))

        def ran(self, st):
            self.drop(st, lambda m: m[0] == 'stop')

        def on_callv(self, I, st, op, fv, args, fr):
            p = I.place(st, op.b, fr) if op.b is not None else None
            for m in self.marks(st, 'action'):
                if m[3] == fv:
                    p = ('F', m[1], m[2][0][1])
            if p is not None and p[0] == 'F' and p[2] in ACT:
                self.nevents += 1
                n['act'].add((fr.fn.key, op.l))
                c = st.mem.get(('F', p[1], ACT[p[2]]))
                if c is None or not false(st, c):
                    I.fail(fr, op.l, 'a descriptor action is invoked although its registration may have been withdrawn')
                elif not self.go(st):
                    I.fail(fr, op.l, 'a descriptor action is invoked although the run loop may have been stopped')
                elif 'EPollRunLoop' in p[2] and st.decide(psa.mknz(p[1])) is not True:
                    I.fail(fr, op.l, 'a descriptor action is invoked although the descriptor may have no registration for the condition')
            elif ir.cls_of(fr.fn.key) in ('RunLoop', 'SelectRunLoop', 'EPollRunLoop') and not fr.fn.is_lambda:
                self.nevents += 1
                n['task'].add((fr.fn.key, op.l))
                if not self.go(st):
                    I.fail(fr, op.l, 'a task is invoked although the run loop may have been stopped')
            else:
                return
            self.ran(st)

        def ev_fire(self, I, st, op, info, args, obj, fr):
            n['timers'].add((fr.fn.key, op.l))
            if not self.go(st):
                I.fail(fr, op.l, 'due timers are fired although the run loop may have been stopped')
            self.ran(st)
            I.havoc_fields(st)
        event_calls = {'TimerList::fireDueTimers': ev_fire}

    acts = psa.functions_with(ir, lambda fn, o: o.k == 'callv' and not fn.is_lambda and (o.b is not None and o.b[0] == 'fld' and o.b[2] in ACT or ir.cls_of(fn.key) in ('RunLoop', 'SelectRunLoop', 'EPollRunLoop')))
    fire = {k for k in calls_to(ctx, 'TimerList::fireDueTimers') if ir.cls_of(k) in ('RunLoop', 'SelectRunLoop', 'EPollRunLoop')}
    ctx.discharge('R1', R1, acts | fire)
    ctx.need('descriptor_action_invocations', len(n['act']), 2)
    ctx.need('task_invocations', len(n['task']), 2)
    ctx.need('timer_passes', len(n['timers']), 2)

    # ---- R2
    ctx.rule('R2: a registration is removed or replaced only after it was marked withdrawn, or when there was none; the mark is never taken back')

    class R2(Base):
        tracked = CANS | {EVENTS}

        def loopvar(self, v):
            return v[0] == 's' and v[1] == 'nd'

        def on_branch(self, I, st, v, truth, b, fr):
            neg = v[0] == 'not'
            x, t = (v[1], not truth) if neg else (v, truth)
            inside = None
            if self.loopvar(x):
                inside = t
                if self.marks(st, 'open'):
                    self.mark(st, ('missed', C0, (), C1))
                self.mark(st, ('walk', C0, (), C1))
            for m in self.marks(st, 'hdr'):
                if m[3] == x:
                    inside = t if m[2][0] == C1 else not t
            if inside:
                self.mark(st, ('open', C0, (), C1))
            elif inside is False:
                self.drop(st, lambda m: m[0] in ('open', 'hdr'))

        def on_load(self, I, st, p, op, fr):
            if p[0] == 'E' and (p[1][0] == 'addr' and p[1][1][0] == 'F' and p[1][1][2] == SLOTS):
                v = I.fresh(st, 'ld', op, fr)
                self.mark(st, ('slot', C0, (p[2],), v))
                return v

        def slot(self, I, st, p):
            if p[0] == 'E' and p[1][0] == 'addr' and p[1][1][0] == 'F' and p[1][1][2] == SLOTS:
                return True
            return p[0] == 'D' and any(m[3] == p[1] for m in self.marks(st, 'mapslot'))

        def removal(self, I, st, fr, line, msg):
            self.nevents += 1
            if self.marks(st, 'cancel'):
                self.drop(st, lambda m: m[0] in ('cancel', 'slot', 'count', 'absent'))
                self.mark(st, ('gone', C0, (), C1))
                return
            if self.marks(st, 'gone') or any(true(st, m[3]) for m in self.marks(st, 'absent')) or any(false(st, m[3]) for m in self.marks(st, 'slot') + self.marks(st, 'count')):
                self.mark(st, ('gone', C0, (), C1))
                return
            I.fail(fr, line, msg)

        def on_put(self, I, st, p, v, op, fr):
            if p[0] == 'F' and p[2] in CANS and not (op.info or {}).get('init'):
                if st.decide(psa.mknz(v)) is True:
                    self.drop(st, lambda m: m[0] == 'open')
                    self.mark(st, ('cancel', C0, (), C1))
                elif not (p[1][0] == 's' and p[1][1] in ('new', 'this') and fr.fn.d.get('ctor')):
                    I.fail(fr, op.l, 'the mark that a registration was withdrawn may be taken back')
                return
            if self.slot(I, st, p):
                if st.decide(psa.mknz(v)) is False:
                    n['rem'].add((fr.fn.key, op.l))
                    self.removal(I, st, fr, op.l, 'a registration is removed without marking it withdrawn')
                else:
                    n['put'].add((fr.fn.key, op.l))
                    self.removal(I, st, fr, op.l, 'a registration is replaced without marking the old one withdrawn')
                    self.drop(st, lambda m: m[0] in ('gone', 'slot', 'count', 'absent'))

        def on_call(self, I, st, op, info, args, obj, fr):
            m = meth(info)
            if items_map(info) or desc_map(info):
                if m == 'count':
                    s = I.fresh(st, 'ret', op, fr)
                    self.mark(st, ('count', C0, (), s))
                    return [(st, s)]
                if m == 'find':
                    s = I.fresh(st, 'it', op, fr)
                    self.mark(st, ('find', C0, (), s))
                    return [(st, s)]
                if m == 'begin':
                    self.mark(st, ('walk', C0, (), C1))
            if items_map(info):
                if m == 'operator[]':
                    s = I.fresh(st, 'ref', op, fr)
                    self.mark(st, ('mapslot', C0, (), s))
                    return [(st, s)]
                if m in ('erase', 'extract'):
                    n['rem'].add((fr.fn.key, op.l))
                    self.removal(I, st, fr, op.l, 'a registration is removed without marking it withdrawn')
                elif m in ('insert_or_assign', 'operator=', 'swap'):
                    n['rem'].add((fr.fn.key, op.l))
                    self.removal(I, st, fr, op.l, 'a registration is replaced without marking the old one withdrawn')
                elif m == 'clear':
                    n['rem'].add((fr.fn.key, op.l))
                    if self.marks(st, 'missed') or not self.marks(st, 'walk'):
                        I.fail(fr, op.l, 'registrations are removed all at once without marking each of them withdrawn')
                    self.drop(st, lambda m: m[0] in ('walk', 'missed', 'open', 'cancel'))
            elif desc_map(info) and m in ('erase', 'clear'):
                n['rem'].add((fr.fn.key, op.l))
                ks = {x[2][0][1] for x in self.marks(st, 'slot') if x[2][0][0] == 'c' and false(st, x[3])}
                if not any(false(st, x[3]) or st.decide(psa.mkop('==', C0, x[3])) is True for x in self.marks(st, 'events')) and len(ks) < nconst:
                    I.fail(fr, op.l, 'a descriptor is dropped although it may still have registrations')
            if m in ('operator!=', 'operator==') and '_Rb_tree' in (info.get('key') or ''):
                s = I.fresh(st, 'bool', op, fr)
                vs = [self.deep(I, st, a) for a in args]
                if any(f[3] in (v, v[1]) for f in self.marks(st, 'find') for v in vs):
                    # like a count: false if nothing was found
                    self.mark(st, ('count' if m == 'operator!=' else 'absent', C0, (), s))
                    return [(st, s)]
                if self.marks(st, 'open'):
                    self.mark(st, ('missed', C0, (), C1))
                self.mark(st, ('hdr', C0, (C1 if m == 'operator!=' else C0,), s))
                return [(st, s)]
            return Base.on_call(self, I, st, op, info, args, obj, fr)

        def ev_events(self, I, st, op, info, args, obj, fr):
            s = I.fresh(st, 'ret', op, fr)
            self.mark(st, ('events', C0, (), s))
            return [(st, s)]
        def ev_ctl(self, I, st, op, info, args, obj, fr):
            return [(st, I.fresh(st, 'ret', op, fr))]       # leaves the event it is handed alone
        event_calls = {'EPollRunLoop::Descriptor::getPollEvents': ev_events, 'epoll_ctl': ev_ctl}

    def rem_site(fn, o):
        if o.k == 'call' and (items_map(o.info) and meth(o.info) in ('erase', 'extract', 'clear', 'insert_or_assign', 'operator=', 'swap', 'operator[]') or desc_map(o.info) and meth(o.info) in ('erase', 'clear')):
            return True
        if o.k == 'store' and o.a[0] == 'elem' and o.a[1][0] == 'addr' and o.a[1][1][0] == 'fld' and o.a[1][1][2] == SLOTS:
            return True
        return o.k == 'store' and o.a[0] == 'fld' and o.a[2] in CANS and not fn.d.get('ctor')
    ctx.discharge('R2', R2, {k for k in psa.functions_with(ir, rem_site) if ir.fn(k).file in files})
    ctx.need('registration_removals', len(n['rem']), 4)
    ctx.need('registrations_stored', len(n['put']), 2)

    # ---- R3
    ctx.rule('R3: after every change of the registrations of a descriptor the kernel is told the events that remain, by removal if none remains, before the function returns')

    class R3(Base):
        tracked = frozenset([EVENTS])

        def on_put(self, I, st, p, v, op, fr):
            if p[0] == 'E' and p[1][0] == 'addr' and p[1][1][0] == 'F' and p[1][1][2] == SLOTS:
                self.nevents += 1
                self.drop(st, lambda m: m[0] in ('events', 'dirty'))
                self.mark(st, ('dirty', C0, (), ('c', op.l)))

        def ev_events(self, I, st, op, info, args, obj, fr):
            s = I.fresh(st, 'ret', op, fr)
            self.mark(st, ('events', C0, (), s))
            return [(st, s)]

        def ev_ctl(self, I, st, op, info, args, obj, fr):
            n['ctl'].add((fr.fn.key, op.l))
            ev = next((v for q, v in st.mem.items() if q[0] == 'F' and args[3][0] == 'addr' and q[1] == args[3] and q[2].endswith('::events')), None)
            ms = [m for m in self.marks(st, 'events') if m[3] == ev]
            if args[1] != ('c', 2):
                if not ms and not self.bits(st, ev):
                    I.fail(fr, op.l, 'the events handed to the kernel are not the ones of the registrations that remain')
                elif ms and st.decide(psa.mknz(ms[0][3])) is False:
                    I.fail(fr, op.l, 'a descriptor without registrations stays known to the kernel')
            elif ms and st.decide(psa.mknz(ms[0][3])) is True:
                I.fail(fr, op.l, 'a descriptor with registrations is removed from the kernel')
            self.drop(st, lambda m: m[0] == 'dirty')
            return [(st, I.fresh(st, 'ret', op, fr))]

        def bits(self, st, ev):
            # computed in place: a constant on each path
            return ev is not None and ev[0] == 'c'

        event_calls = {'EPollRunLoop::Descriptor::getPollEvents': ev_events, 'epoll_ctl': ev_ctl}

        def inline(self, I, key, info):
            return ir.bq_of(key) != 'EPollRunLoop::Descriptor::getPollEvents' and Base.inline(self, I, key, info)

        def on_exit(self, I, st, rv, fr):
            if fr.up is None:
                for m in self.marks(st, 'dirty'):
                    I.fail(fr, m[3][1], 'a registration changes without the kernel being told')

    for k in sorted(psa.functions_with(ir, lambda fn, o: o.k == 'store' and o.a[0] == 'elem' and o.a[1][0] == 'addr' and o.a[1][1][0] == 'fld' and o.a[1][1][2] == SLOTS)):
        run_root(ctx, 'R3', R3, k)

    ctx.need('kernel_updates', len(n['ctl']), 2)

    # ---- R4
    ctx.rule('R4: the descriptor pointers the kernel returns are used only between the wait and the first callback after it')

    class R4(Base):
        tracked = frozenset()

        def ev_wait(self, I, st, op, info, args, obj, fr):
            self.drop(st, lambda m: m[0] in ('raw', 'stale', 'ran'))
            self.mark(st, ('waited', C0, (), C1))
        event_calls = {'epoll_wait': ev_wait, 'epoll_pwait': ev_wait, 'epoll_pwait2': ev_wait}

        def ran(self, st):
            self.drop(st, lambda m: m[0] == 'waited')
            for m in self.marks(st, 'raw'):
                self.mark(st, ('stale', C0, (), m[3]))

        def on_callv(self, I, st, op, fv, args, fr):
            self.ran(st)

        def on_load(self, I, st, p, op, fr):
            if p[0] == 'F' and p[2] == 'epoll_data::ptr':
                self.nevents += 1
                n['raw'].add((fr.fn.key, op.l))
                if not self.marks(st, 'waited'):
                    I.fail(fr, op.l, 'a descriptor pointer from the kernel is taken after a callback ran, which may have withdrawn the descriptor')
                v = I.fresh(st, 'raw', op, fr)
                self.mark(st, ('raw', C0, (), v))
                return v
            self.use(I, st, p, op, fr)

        def on_call(self, I, st, op, info, args, obj, fr):
            if obj is not None and any(m[3] == obj for m in self.marks(st, 'stale')):
                I.fail(fr, op.l, 'a descriptor pointer from the kernel is used after a callback ran, which may have withdrawn the descriptor')
            return Base.on_call(self, I, st, op, info, args, obj, fr)

        def use(self, I, st, p, op, fr):
            x = p
            while x[0] in 'FE':
                x = x[1][1] if x[1][0] == 'addr' else ('D', x[1])
            if x[0] == 'D' and any(m[3] == x[1] for m in self.marks(st, 'stale')):
                I.fail(fr, op.l, 'a descriptor pointer from the kernel is used after a callback ran, which may have withdrawn the descriptor')
    waits = calls_to(ctx, 'epoll_wait', 'epoll_pwait', 'epoll_pwait2')
    for k in sorted(waits):
        run_root(ctx, 'R4', R4, k)
    ctx.need('kernel_pointer_uses', len(n['raw']), 1)

    # ---- R5
    ctx.rule('R5: running clears the stop flag before it dispatches, ends only when the stop flag is set or waiting failed, and cancels its own stop timer before it returns')

    class R5(Base):
        tracked = frozenset()
        observe = {'Timer::cancel': 'cancel', 'RunLoop::schedule': 'sched'}

        def on_put(self, I, st, p, v, op, fr):
            if p[0] == 'F' and p[2] == STOP and v == C0:
                self.mark(st, ('cleared', C0, (), C1))

        def on_callv(self, I, st, op, fv, args, fr):
            if ir.cls_of(fr.fn.key) in ('RunLoop', 'SelectRunLoop', 'EPollRunLoop') and not self.marks(st, 'cleared'):
                I.fail(fr, op.l, 'callbacks run before the stop flag of an earlier run is cleared')

        def on_exit(self, I, st, rv, fr):
            if fr.up is None:
                n['run'] += 1
                c = {m[1] for m in self.marks(st, 'cancel')}
                if any(m[3] not in c for m in self.marks(st, 'sched')):
                    I.fail(fr, fr.fn.line, 'running may return without cancelling its stop timer, which then stops a later run')
                if not self.marks(st, 'cleared'):
                    I.fail(fr, fr.fn.line, 'running never clears the stop flag of an earlier run')
    runs = {f.key for f in ir.all() if f.bq.endswith('RunLoop::run') and not f.is_lambda}
    for k in sorted(runs):
        run_root(ctx, 'R5', R5, k)
    ctx.need('run_exits', n['run'], 2)

    # ---- R6
    ctx.rule('R6: a deferred task is taken out of the queue before it runs, and runs from a copy')

    class R6(Base):
        tracked = frozenset()

        def on_call(self, I, st, op, info, args, obj, fr):
            o = info.get('obj')
            if o and o[0] == 'fld' and o[2] == LATER:
                if meth(info) == 'front':
                    self.drop(st, lambda m: m[0] == 'popped')
                    self.mark(st, ('front', C0, (), C1))
                elif meth(info).startswith('pop'):
                    self.mark(st, ('popped', C0, (), C1))
            return Base.on_call(self, I, st, op, info, args, obj, fr)

        def on_callv(self, I, st, op, fv, args, fr):
            if not self.marks(st, 'front'):
                return
            self.nevents += 1
            n['later'].add((fr.fn.key, op.l))
            if not self.marks(st, 'popped'):
                I.fail(fr, op.l, 'a deferred task runs while it is still queued')
            p = I.place(st, op.b, fr) if op.b is not None else ('x',)
            if p[0] != 'L':
                I.fail(fr, op.l, 'a deferred task runs from the queue itself')
            self.drop(st, lambda m: m[0] in ('front', 'popped'))
    later = psa.functions_with(ir, lambda fn, o: o.k == 'call' and o.info.get('obj') and o.info['obj'][0] == 'fld' and o.info['obj'][2] == LATER and meth(o.info) == 'front')
    for k in sorted(later):
        run_root(ctx, 'R6', R6, k)
    ctx.need('deferred_task_invocations', len(n['later']), 1)

    # ---- R7
    ctx.rule('R7: clearing a run loop withdraws the registrations of every condition, drops all timers and leaves no deferred task; withdrawing a descriptor withdraws it for every condition')

    class R7(Base):
        tracked = frozenset()

        def put(self, st, kind, idx):
            if idx is not None and idx[0] == 'c':
                self.mark(st, (kind, C0, (), idx))
            else:
                for i in range(nconst):
                    self.mark(st, (kind, C0, (), ('c', i)))

        def on_call(self, I, st, op, info, args, obj, fr):
            m = meth(info)
            o = info.get('obj')
            if items_map(info) and m == 'clear' and obj is not None:
                p = obj[1] if obj[0] == 'addr' else ('D', obj)
                if p[0] == 'E' and p[1] == ('addr', ('F', ('s', 'this', 0), SEL)):
                    self.put(st, 'emptied', p[2] if p[2][0] == 'c' else None)
                elif p[0] == 'D' and self.marks(st, 'allsel'):
                    self.put(st, 'emptied', None)
                    self.drop(st, lambda m: m[0] == 'open')
            if desc_map(info) and m == 'begin':
                self.mark(st, ('walk', C0, (), C1))
                if obj is not None and obj[0] == 'addr' and obj[1][0] == 'F' and obj[1][2] == DESC:
                    self.mark(st, ('direct', C0, (), C1))
            if m == 'operator++' and '_Rb_tree' in info['q'] and self.marks(st, 'invalid'):
                I.fail(fr, op.l, 'the descriptor table is walked while entries are removed from it')
            if m == 'empty' and (desc_map(info) or o and o[0] == 'fld' and o[2] == LATER):
                s = I.fresh(st, 'bool', op, fr)
                self.mark(st, ('nodesc' if desc_map(info) else 'nolater', C0, (), s))
                return [(st, s)]
            if m in ('operator!=', 'operator==') and '_Rb_tree' in (info.get('key') or ''):
                if self.marks(st, 'open'):
                    self.mark(st, ('missed', C0, (), C1))
                s = I.fresh(st, 'bool', op, fr)
                self.mark(st, ('hdr', C0, (C1 if m == 'operator!=' else C0,), s))
                return [(st, s)]
            return Base.on_call(self, I, st, op, info, args, obj, fr)

        def on_op(self, I, st, op, fr):
            if op.k == 'more' and op.a[0] == 'addr' and I.place(st, op.a[1], fr) == ('F', ('s', 'this', 0), SEL):
                self.mark(st, ('allsel', C0, (), C1))

        def on_branch(self, I, st, v, truth, b, fr):
            x, t = (v[1], not truth) if v[0] == 'not' else (v, truth)
            inside = None
            if x[0] == 's' and x[1] == 'nd':
                if not t and self.marks(st, 'allsel') and not self.marks(st, 'emptied'):
                    return False        # the array of conditions is not empty
                inside = t
                if self.marks(st, 'open'):
                    self.mark(st, ('missed', C0, (), C1))
                self.mark(st, ('walk', C0, (), C1))
            for m in self.marks(st, 'hdr'):
                if m[3] == x:
                    inside = t if m[2][0] == C1 else not t
            if inside:
                self.mark(st, ('open', C0, (), C1))
            elif inside is False:
                self.drop(st, lambda m: m[0] in ('open', 'hdr'))

        def ev_timers(self, I, st, op, info, args, obj, fr):
            self.mark(st, ('timers', C0, (), C1))
            I.havoc_fields(st)

        def ev_unreg(self, I, st, op, info, args, obj, fr):
            if len(args) == 2:
                self.put(st, 'withdrawn', args[1])
            else:
                self.drop(st, lambda m: m[0] == 'open')
                if self.marks(st, 'direct'):
                    self.mark(st, ('invalid', C0, (), C1))
            return [(st, I.retsym(st, op, fr, info))]
        event_calls = {'TimerList::clear': ev_timers, 'RunLoop::unregisterDescriptor': ev_unreg, 'EPollRunLoop::unregisterDescriptor': ev_unreg, 'SelectRunLoop::unregisterDescriptor': ev_unreg}

        def on_exit(self, I, st, rv, fr):
            if fr.up is not None:
                return
            n['clear'] += 1
            q = fr.fn.bq
            if q == 'RunLoop::unregisterDescriptor':
                if len({m[3] for m in self.marks(st, 'withdrawn')}) < nconst:
                    I.fail(fr, fr.fn.line, 'withdrawing a descriptor leaves its registration for some condition')
                return
            if not self.marks(st, 'timers'):
                I.fail(fr, fr.fn.line, 'clearing the run loop leaves its timers')
            if not any(true(st, m[3]) for m in self.marks(st, 'nolater')):
                I.fail(fr, fr.fn.line, 'clearing the run loop may leave deferred tasks')
            if q.startswith('SelectRunLoop') and len({m[3] for m in self.marks(st, 'emptied')}) < nconst:
                I.fail(fr, fr.fn.line, 'clearing the run loop leaves the registrations of some condition')
            if q.startswith('EPollRunLoop') and (self.marks(st, 'missed') or not self.marks(st, 'walk')) and not any(true(st, m[3]) for m in self.marks(st, 'nodesc')):
                I.fail(fr, fr.fn.line, 'clearing the run loop leaves registrations')
    roots = {f.key for f in ir.all() if not f.is_lambda and (f.bq in ('RunLoop::clear', 'SelectRunLoop::clear', 'EPollRunLoop::clear') or f.bq == 'RunLoop::unregisterDescriptor' and len(f.params) == 1)}
    ctx.need('clearing_functions', len(roots), 4)
    for k in sorted(roots):
        run_root(ctx, 'R7', R7, k)
