"""Shutdown lets nothing new start and completes once."""
import psa
from lib import *

EXPLANATION = ('Path-sensitive analysis with obligation lifting: every creation of a session and of a flow to another endpoint lies on paths that found shutdown not requested, flows on an existing session '
               'on paths that found it open; the shutdown request always schedules a task that closes or aborts every session and every opening session and tests for completion; '
               'completion is reported only on paths where it was requested, not yet reported and then noted, no session exists and nothing waits to be sent; every removal of a session and every drained '
               'queue of startup packets is followed by the completion test.')
R, S = 'rtmfp::RTMFP', 'rtmfp::Session'


def run(ctx):
    ir = ctx.ir
    SHUT, DONE = field(ctx, 'RTMFP::m_shutdown'), field(ctx, 'RTMFP::m_shutdownComplete')
    SESSIONS, OPENING = field(ctx, 'RTMFP::m_sessions'), field(ctx, 'RTMFP::m_openingSessions')
    STATE, OPEN = field(ctx, 'Session::m_state'), const(ctx, 'Session::S_OPEN')
    FSESSION = field(ctx, 'Flow::m_session')
    seen = {k: set() for k in ('new', 'flow', 'shut', 'done', 'rep', 'sweep', 'rem', 'drain')}
    SESS_CTOR = S + '::Session'

    def fld_of(info):
        p = info.get('obj')
        return p[2] if p and p[0] == 'fld' else None

    class Base(Watch):
        tracked = frozenset([SHUT, DONE])
        private = frozenset([SHUT, DONE])

        def on_load(self, I, st, p, op, fr):
            if p[0] == 'F' and p[2] == SHUT:
                v = st.mem.get(p) or I.fresh(st, 'bool', op, fr)
                st.mem[p] = v
                self.drop(st, lambda m: m[0] == 'shut')
                self.mark(st, ('shut', C0, (), v))
                self.mark(st, ('tested', C0, (), C1))
                return v
            if p[0] == 'F' and p[2] == DONE:
                self.mark(st, ('tested', C0, (), C1))

        def forget(self, st):
            self.drop(st, lambda m: m[0] == 'shut')

    def running(self, st):
        return any(false(st, m[3]) for m in self.marks(st, 'shut'))

    # ---- R1 sessions and flows
    ctx.rule('R1: a session is created only on a path that found, since the last asynchronous step, that shutdown was not requested')

    class R1(Base):
        def new(self, I, st, op, info, args, obj, fr):
            seen['new'].add((fr.fn.key, op.l))
            if not running(self, st):
                I.fail(fr, op.l, 'a session is created although shutdown may have been requested')
        event_calls = {R + '::makeSession': new}

    ctx.discharge('R1', R1, calls_to(ctx, R + '::makeSession'))
    ctx.need('session_creations', len(seen['new']), 2)
    makers = {ir.bq_of(fn.key) for fn, o in sites(ctx, lambda fn, o: o.k in ('new', 'ctor') and o.info.get('key') and ir.bq_of(o.info['key']) == SESS_CTOR)}
    ctx.rule('R1b: sessions are made in one place')
    ctx.need('session_makers', len(makers), 1)
    for m in makers - {R + '::makeSession'}:
        ctx.viol('R1b', m, 0, 'a session is created outside the function that creates sessions')

    ctx.rule('R2: a sending flow is created only on a path that found shutdown not requested or the session it will use open')

    class R2(Base):
        tracked = frozenset([SHUT, DONE, STATE, FSESSION])

        def on_op(self, I, st, op, fr):
            if op.k in ('new', 'ctor') and op.info.get('key') and ir.bq_of(op.info['key']) == 'rtmfp::SendFlow::SendFlow':
                self.nevents += 1
                seen['flow'].add((fr.fn.key, op.l))
                o = any(q[0] == 'F' and q[2] == STATE and st.rng(v)[:2] == (OPEN, OPEN) for q, v in st.mem.items())
                if not o and not running(self, st):
                    I.fail(fr, op.l, 'a flow is opened although shutdown may have been requested')
    ctx.discharge('R2', R2, psa.functions_with(ir, lambda fn, o: o.k in ('new', 'ctor') and o.info.get('key') and ir.bq_of(o.info['key']) == 'rtmfp::SendFlow::SendFlow'))
    ctx.need('flow_creations', len(seen['flow']), 2)

    # ---- R3 the request
    ctx.rule('R3: a request for shutdown is remembered for good and always schedules the closing task on the protocol thread')
    ctx.rule('R4: the closing task closes or aborts every session and every opening session, then tests for completion')

    class R3(Base):
        CLOSERS = (S + '::close', S + '::abort')

        def events(self):
            return {S + '::close', S + '::abort', R + '::checkShutdownComplete'}

        def on_store(self, I, st, p, v, op, fr):
            if p[0] == 'F' and p[2] in (SHUT, DONE) and not (op.info or {}).get('init'):
                seen['shut' if p[2] == SHUT else 'done'].add((fr.fn.key, op.l))
                if not true(st, v):
                    I.fail(fr, op.l, 'a request for shutdown is taken back' if p[2] == SHUT else 'shutdown may be reported complete again')
                elif p[2] == SHUT:
                    self.mark(st, ('requested', C0, (), C1))

        def on_call(self, I, st, op, info, args, obj, fr):
            q = base_q(info['q'])
            if q == 'rtmfp::IPlatformAdapter::perform' and args and args[0] == C0:
                self.mark(st, ('scheduled', C0, (), C1))
            f = fld_of(info)
            if f in (SESSIONS, OPENING):
                m = q.rsplit('::', 1)[-1]
                if m in ('safeValuesDo', 'valuesDo', 'safeNamesAndValuesDo', 'namesAndValuesDo'):
                    seen['sweep'].add((fr.fn.key, op.l))
                    self.mark(st, ('swept', ('fld', f), (), C1))
                    for a in args:
                        if a[0] == 'lam':
                            lams.add(a[1])
                elif m in ('first', 'begin'):
                    self.mark(st, ('swept', ('fld', f), (), C1))
                    loops.add(fr.fn.key)
            return None

        def on_defer(self, I, st, op, info, i, lam, fr):
            q = base_q(info['q'])
            Watch.on_defer(self, I, st, op, info, i, lam, fr)
            if q == 'rtmfp::IPlatformAdapter::perform' and self.marks(st, 'requested'):
                self.drop(st, lambda m: m[0] in ('swept', 'tested'))
                self.mark(st, ('task', ('k', lam[1]), (), C1))
            return st, None

        def on_exit(self, I, st, rv, fr):
            if fr.up is None:
                if self.marks(st, 'requested') and not self.marks(st, 'scheduled'):
                    I.fail(fr, fr.fn.line, 'a request for shutdown does not always schedule the closing of the sessions')
            for m in self.marks(st, 'task'):
                if m[1] == ('k', fr.fn.key):
                    tasks.add(fr.fn.key)
                    for f, n in ((SESSIONS, 'sessions'), (OPENING, 'opening sessions')):
                        if ('swept', ('fld', f), (), C1) not in (st.auto or ()):
                            I.fail(fr, fr.fn.line, 'shutdown does not always close all ' + n)
                    if not self.marks(st, 'tested'):
                        I.fail(fr, fr.fn.line, 'shutdown does not always test for completion after closing the sessions')
    lams, loops, tasks = set(), set(), set()
    for k in sorted(stores_to(ctx, {SHUT, DONE})):
        run_root(ctx, 'R3', R3, k)
    ctx.need('shutdown_requests', len(seen['shut']), 1)
    ctx.need('completion_notes', len(seen['done']), 1)
    ctx.need('closing_tasks', len(tasks), 1)

    class R4(Base):
        def events(self):
            return {S + '::close', S + '::abort'}

        def on_call(self, I, st, op, info, args, obj, fr):
            if base_q(info['q']) in (S + '::close', S + '::abort'):
                self.mark(st, ('ended', C0, (), C1))
                return [(st, C0)]

        def on_exit(self, I, st, rv, fr):
            if fr.up is None:
                if not self.marks(st, 'ended'):
                    I.fail(fr, fr.fn.line, 'shutdown leaves out some of the sessions')
                if rv is None or not true(st, rv):
                    I.fail(fr, fr.fn.line, 'shutdown may stop before all sessions were closed')
    for k in sorted(lams):
        run_root(ctx, 'R4', R4, k)
    for k in sorted(loops):
        if not any(o.k == 'call' and base_q(o.info['q']) in R3.CLOSERS for b in ir.fn(k).blocks for o in b.ops):
            ctx.viol('R4', k, ir.fn(k).line, 'the sessions are gone through on shutdown without being closed')
    ctx.need('closing_steps', len(lams) + len(loops), 1)

    # ---- R5 completion
    ctx.rule('R5: completion is reported only on paths where shutdown was requested, no session exists, no startup packet waits, and completion was not noted before and is noted')

    class R5(Base):
        def events(self):
            return {R + '::checkShutdownComplete'}

        def forget(self, st):
            pass

        def on_load(self, I, st, p, op, fr):
            if p[0] == 'F' and p[2] == DONE:
                v = st.mem.get(p) or I.fresh(st, 'bool', op, fr)
                st.mem[p] = v
                self.mark(st, ('done', C0, (), v))
                return v
            return Base.on_load(self, I, st, p, op, fr)

        def on_store(self, I, st, p, v, op, fr):
            if p[0] == 'F' and p[2] == DONE and true(st, v):
                self.mark(st, ('noted', C0, (), C1))

        def on_call(self, I, st, op, info, args, obj, fr):
            q = base_q(info['q'])
            if fld_of(info) == SESSIONS and q.endswith('::empty'):
                rv = I.fresh(st, 'bool', op, fr)
                self.mark(st, ('nosessions', C0, (), rv))
                return [(st, rv)]
            if fld_of(info) == SESSIONS and q.endswith('::size'):
                rv = I.fresh(st, 'ret', op, fr)
                st.restrict(rv, 0, psa.INF, frozenset())
                self.mark(st, ('nosessions', C0, (), psa.mknot(psa.mknz(rv))))
                return [(st, rv)]
            if q == 'rtmfp::StartupSession::empty':
                rv = I.fresh(st, 'bool', op, fr)
                self.mark(st, ('sent', C0, (), rv))
                return [(st, rv)]
            if q == 'rtmfp::IPlatformAdapter::onShutdownComplete':
                self.nevents += 1
                seen['rep'].add((fr.fn.key, op.l))
                if not any(true(st, m[3]) for m in self.marks(st, 'shut')):
                    I.fail(fr, op.l, 'shutdown is reported complete although it was not requested')
                if not any(true(st, m[3]) for m in self.marks(st, 'nosessions')):
                    I.fail(fr, op.l, 'shutdown is reported complete while sessions may remain')
                if not any(true(st, m[3]) for m in self.marks(st, 'sent')):
                    I.fail(fr, op.l, 'shutdown is reported complete while closing packets may wait to be sent')
                if not any(false(st, m[3]) for m in self.marks(st, 'done')) or not self.marks(st, 'noted'):
                    I.fail(fr, op.l, 'shutdown may be reported complete more than once')
            return Watch.on_call(self, I, st, op, info, args, obj, fr)
    ctx.discharge('R5', R5, calls_to(ctx, 'rtmfp::IPlatformAdapter::onShutdownComplete'))
    ctx.need('completion_reports', len(seen['rep']), 1)

    class R5b(Watch):
        def on_call(self, I, st, op, info, args, obj, fr):
            q = base_q(info['q'])
            if q.startswith('std::queue') and q.endswith('::empty'):
                seen['drain'].add((fr.fn.key, op.l))
                self.pending(I, st, fr, op.l)
                rv = I.fresh(st, 'bool', op, fr)
                self.mark(st, ('q', C0, (), rv))
                return [(st, rv)]

        def pending(self, I, st, fr, line):
            for m in self.marks(st, 'q'):
                if not true(st, m[3]):
                    I.fail(fr, line, 'a startup packet that waits to be sent is overlooked')
            self.drop(st, lambda m: m[0] == 'q')

        def on_exit(self, I, st, rv, fr):
            if fr.up is None and not false(st, rv):
                self.pending(I, st, fr, fr.fn.line)
    emp = named(ctx, 'rtmfp::StartupSession::empty')
    for k in emp:
        run_root(ctx, 'R5', R5b, k)
    ctx.need('waiting_tests', len(seen['drain']), 1)

    # ---- R6 the completion test happens
    ctx.rule('R6: whenever a session is removed from the table of sessions, and whenever a queue of startup packets is found empty, completion is tested before control returns')

    class R6(Base):
        def events(self):
            return {R + '::checkShutdownComplete'}

        def on_call(self, I, st, op, info, args, obj, fr):
            q = base_q(info['q'])
            if fld_of(info) == SESSIONS and q.rsplit('::', 1)[-1] in ('remove', 'clear', 'removeFirst', 'removeLast'):
                self.nevents += 1
                seen['rem'].add((fr.fn.key, op.l))
                self.drop(st, lambda m: m[0] == 'tested')
                self.mark(st, ('removed', C0, (), C1))

        def on_exit(self, I, st, rv, fr):
            if fr.up is None and self.marks(st, 'removed') and not self.marks(st, 'tested'):
                I.fail(fr, fr.fn.line, 'a session is removed without testing whether shutdown is complete')
    ctx.discharge('R6', R6, psa.functions_with(ir, lambda fn, o: o.k == 'call' and fld_of(o.info) == SESSIONS and o.info['q'].rsplit('::', 1)[-1] in ('remove', 'clear', 'removeFirst', 'removeLast')))
    ctx.need('session_removals', len(seen['rem']), 1)

    class R6b(Base):
        def events(self):
            return {R + '::checkShutdownComplete'}

        def on_exit(self, I, st, rv, fr):
            if fr.up is None and (rv is None or not true(st, rv)) and not self.marks(st, 'tested'):
                I.fail(fr, fr.fn.line, 'the last waiting startup packet is sent without testing whether shutdown is complete')
    w = named(ctx, 'rtmfp::StartupSession::onInterfaceWritable')
    ctx.need('startup_writers', len(w), 1)
    for k in w:
        run_root(ctx, 'R6', R6b, k)
