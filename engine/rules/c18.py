"""Unwanted or unintelligible flows are refused."""
import psa
from lib import *

EXPLANATION = ('Path-sensitive typestate analysis from the handler of user-data chunks: each option taken from the list leaves a fact (metadata, association, ignorable, unknown mandatory); on every path on '
               'which data is handed to a receiving flow, the flow has been closed before or all facts allow it: no unknown mandatory option, and for a flow created on this path metadata was given, '
               'the association (if any) was found live and open among the sending flows of the session, and the flow was found accepted after its arrival callback. '
               'Rejection and the exception answer are checked on every path of the functions that close a receiving flow and assemble its acknowledgement.')
R = 'rtmfp::RecvFlow::'


def run(ctx):
    ir = ctx.ir
    META, ASSOC, CUTOFF = const(ctx, 'USERDATA_OPTION_METADATA'), const(ctx, 'USERDATA_OPTION_RETURN_ASSOCIATION'), const(ctx, 'USERDATA_OPTION_MANDATORY_CUTOFF')
    EXC = const(ctx, 'CHUNK_EXCEPTION')
    REJ, ROPEN = const(ctx, 'RecvFlow::RF_REJECTED'), const(ctx, 'RecvFlow::RF_OPEN')
    SENDFLOWS, ACC, BASE, RST = field(ctx, 'Session::m_sendFlows'), field(ctx, 'RecvFlow::m_accepted'), field(ctx, 'Flow::m_base_isOpen'), field(ctx, 'RecvFlow::m_state')
    CTOR = R + 'RecvFlow'
    for n in ('onData', 'closeAndNotify', 'isOpen', 'accept', 'assembleAck', 'scheduleAck'):
        if not named(ctx, R + n):
            raise AnalysisError('anchor vanished: %s%s' % (R, n))
    seen = dict(data=set(), new=set(), opts=set())

    # ---- R1
    ctx.rule('R1: data is handed to a receiving flow only when it was closed on this path or: no unknown mandatory option was parsed, and for a flow created here metadata was parsed, a parsed association '
             'was found among the sending flows and open, and the flow was found open (accepted) after its arrival callback')

    class R1(Watch):
        max_steps = 200000
        observe = {R + 'closeAndNotify': 'closed', R + 'close': 'closed', R + 'abort': 'closed', 'rtmfp::Flow::close': 'closed', R + 'isOpen': 'open', 'rtmfp::Flow::isOpen': 'open'}

        def events(self):
            return Watch.events(self) | {'rtmfp::Option::parse', R + 'onData', CTOR}

        def settle(self, st):
            for m in self.marks(st, 'opt'):
                self.drop(st, lambda x: x == m)
                ty, val = m[2]
                if false(st, val):
                    continue            # end of the list
                lo, hi, neq = st.rng(ty)
                if lo == hi == META:
                    self.mark(st, ('meta', C0, (), C1))
                elif lo == hi == ASSOC:
                    self.mark(st, ('assoc', C0, (), C1))
                elif lo >= CUTOFF:
                    pass
                else:
                    self.mark(st, ('unk', C0, (), C1))

        def on_callv(self, I, st, op, fv, args, fr):
            if fv[0] != 'lam':
                self.drop(st, lambda m: m[0] == 'open' and m[1][:2] == ('s', 'new'))

        def on_call(self, I, st, op, info, args, obj, fr):
            q = base_q(info['q'])
            if q == 'rtmfp::Option::parse' and len(args) >= 4:
                seen['opts'].add((fr.fn.key, op.l))
                self.settle(st)
                I.unknown_call(st, [], args, obj, info, op, fr)
                rv = I.fresh(st, 'ret', op, fr)
                ty, val = I.fresh(st, 'optt', op, fr), I.fresh(st, 'optv', op, fr)
                for a, v in ((args[2], ty), (args[3], val)):
                    if a[0] == 'addr':
                        st.mem[a[1]] = v
                st.facts[ty] = (0, psa.INF, frozenset())
                self.mark(st, ('opt', C0, (ty, val), rv))
                return [(st, rv)]
            if q == CTOR:
                self.mark(st, ('new', obj if obj is not None else C0, (), C1))
            pl = info.get('obj')
            if pl and pl[0] == 'fld' and pl[2] == SENDFLOWS and q.rsplit('::', 1)[-1] in ('has', 'find', 'count', 'at'):
                I.unknown_call(st, ir.targets(info), args, obj, info, op, fr)
                rv = I.retsym(st, op, fr, info)
                self.mark(st, ('has' if not q.endswith('at') else 'at', C0, (), rv))
                return [(st, rv)]
            if q == R + 'onData':
                seen['data'].add((fr.fn.key, op.l))
                self.settle(st)
                closed = [m for m in self.marks(st, 'closed') if m[1] == obj]
                if closed:
                    I.unknown_call(st, ir.targets(info), args, obj, info, op, fr)
                    return [(st, I.retsym(st, op, fr, info))]
                why = []
                if self.marks(st, 'unk'):
                    why.append('an option list with an unknown mandatory option')
                if obj is not None and obj[0] == 's' and obj[1] == 'new':
                    seen['new'].add((fr.fn.key, op.l))
                    if not self.marks(st, 'meta'):
                        why.append('no metadata')
                    if self.marks(st, 'assoc'):
                        if not [m for m in self.marks(st, 'has') if true(st, m[3])]:
                            why.append('an association not found among the sending flows of the session')
                        elif not [m for m in self.marks(st, 'open') if m[1] != obj and true(st, m[3])]:
                            why.append('an association with a sending flow not known to be open')
                    if not [m for m in self.marks(st, 'open') if m[1] == obj and true(st, m[3])]:
                        why.append('no acceptance by the application')
                for w in why:
                    I.fail(fr, op.l, 'data is processed for a flow that came with %s, without closing it first' % w)
                I.unknown_call(st, ir.targets(info), args, obj, info, op, fr)
                return [(st, I.retsym(st, op, fr, info))]
            return Watch.on_call(self, I, st, op, info, args, obj, fr)
    roots = named(ctx, 'rtmfp::Session::onUserDataChunk') or named(ctx, 'rtmfp::Session::onChunk')
    if len(roots) != 1:
        raise AnalysisError('anchor vanished: Session::onUserDataChunk')
    goal = lambda k: any(o.k == 'call' and base_q(o.info['q']) in (R + 'onData', 'rtmfp::Option::parse') for b in ir.fn(k).blocks for o in b.ops) and not ir.bq_of(k).startswith(('rtmfp::Option', 'rtmfp::VLU', 'rtmfp::EPD'))
    I = psa.Interp(ir, R1())
    I.callers = ctx.callers
    I.force = leading_to(ctx, roots[0], goal) - {roots[0]}
    I.entry(ir.fn(roots[0]))
    for k, l, m, s in I.failures:
        ctx.viol('R1', k, l, m, s)
    ctx.count('steps', I.steps)
    ctx.count('functions_followed', len(I.visited_fns))
    ctx.need('data_hand_overs', len(seen['data']), 1)
    ctx.need('hand_overs_to_new_flows', len(seen['new']), 1)
    ctx.need('option_parses', len(seen['opts']), 1)

    # every hand-over of data is on that path
    inside = I.visited_fns
    for fn, o in sites(ctx, lambda fn, o: o.k == 'call' and base_q(o.info['q']) == R + 'onData'):
        if not any((fn.key, o.l) == d for d in seen['data']):
            ctx.viol('R1', fn, o.l, 'data is handed to a receiving flow outside the handler of user-data chunks')

    # ---- R2 acceptance
    ctx.rule('R2: a receiving flow counts as open only if accepted and not closed; it starts unaccepted and only its accept function, which the protocol core never calls, accepts it')

    class R2(Watch):
        tracked = frozenset([ACC, BASE])

        def on_enter(self, I, st, fr):
            if fr.up is None:
                for f in (ACC, BASE):
                    s = ('s', 'bool', 'in' + f)
                    st.mem[('F', fr.this, f)] = s
                    self.mark(st, ('keep', s, (), C1))

        def on_exit(self, I, st, rv, fr):
            if fr.up is None and rv is not None and not false(st, rv):
                s = st.copy()
                if rv[0] != 'c':
                    s.refine(psa.mknz(rv), True)
                for f, t in ((ACC, 'accepted'), (BASE, 'still open')):
                    if not true(s, ('s', 'bool', 'in' + f)):
                        I.fail(fr, fr.fn.line, 'a receiving flow can count as open without being %s' % t)
    ks = named(ctx, R + 'isOpen')
    for k in ks:
        run_root(ctx, 'R2', R2, k)
    for fn, o in sites(ctx, lambda fn, o: o.k == 'store' and o.a[0] == 'fld' and o.a[2] == ACC):
        if (o.info or {}).get('init'):
            if o.b != C0:
                ctx.viol('R2', fn, o.l, 'a receiving flow is created already accepted')
        elif fn.bq != R + 'accept' and o.b != C0:
            ctx.viol('R2', fn, o.l, 'a receiving flow is accepted outside its accept function')
    core = ('/Session.cpp', '/RTMFP.cpp', '/RecvFlow.cpp', '/SendFlow.cpp', '/Flow.cpp')
    for fn, o in sites(ctx, lambda fn, o: o.k == 'call' and base_q(o.info['q']) == R + 'accept'):
        if fn.file.endswith(core):
            ctx.viol('R2', fn, o.l, 'the protocol core accepts a receiving flow by itself')
    ctx.need('acceptance_tests', len(ks), 1)

    # ---- R3 closing rejects
    ctx.rule('R3: after a receiving flow was closed its state is no longer open, and if closing rejected it an acknowledgement was scheduled')

    class R3(Watch):
        tracked = frozenset([RST])
        observe = {R + 'scheduleAck': 'ack'}

        def enum_range(self, f):
            return (0, 3) if f == RST else None

        def havoc_value(self, I, st, place, old):
            lo = st.rng(old)[0]
            s = ('s', 'enum', int(max(lo, 0)), 3, 'mono')
            I.kill_sym(st, s)
            return s

        def on_store(self, I, st, p, v, op, fr):
            if p[0] == 'F' and p[2] == RST and v == ('c', REJ):
                self.mark(st, ('rej', C0, (), C1))

        def on_exit(self, I, st, rv, fr):
            if fr.up is None:
                s = st.mem.get(('F', fr.this, RST))
                if s is None or not st.rng(s)[0] > ROPEN:
                    I.fail(fr, fr.fn.line, 'a receiving flow can stay open after it was closed')
                if self.marks(st, 'rej') and not self.marks(st, 'ack'):
                    I.fail(fr, fr.fn.line, 'a receiving flow is rejected without scheduling an answer')
    ks = [k for k in named(ctx, R + 'close') if not ir.fn(k).params]
    for k in ks:
        run_root(ctx, 'R3', R3, k)
    ctx.need('close_functions', len(ks), 1)

    # ---- R4 data always answered
    ctx.rule('R4: handling data of a flow always schedules an acknowledgement of that flow')

    class R4(Watch):
        event_depth = 1

        def inline(self, I, key, info):
            return key in I.force or I.near(key, self.events(), frozenset(), 1)
        observe = {R + 'scheduleAck': 'ack'}

        def on_exit(self, I, st, rv, fr):
            if fr.up is None and not [m for m in self.marks(st, 'ack') if m[1] == fr.this]:
                I.fail(fr, fr.fn.line, 'data of a flow is handled without scheduling an answer')
    for k in named(ctx, R + 'onData'):
        run_root(ctx, 'R4', R4, k)

    # ---- R5 the answer of a rejected flow
    ctx.rule('R5: the acknowledgement of a rejected flow is reported assembled only after an exception chunk for it was committed')

    class R5(Watch):
        tracked = frozenset([RST])

        def enum_range(self, f):
            return (0, 3) if f == RST else None

        def havoc_value(self, I, st, place, old):
            return old

        def on_enter(self, I, st, fr):
            if fr.up is None:
                s = ('s', 'enum', 0, 3, 'in')
                st.mem[('F', fr.this, RST)] = s
                self.mark(st, ('keep', s, (), C1))

        def start(self, I, st, op, info, args, obj, fr):
            self.drop(st, lambda m: m[0] == 'cur')
            rv = I.retsym(st, op, fr, info)
            self.mark(st, ('cur', C0, (args[0],), rv))
            return [(st, rv)]

        def commit(self, I, st, op, info, args, obj, fr):
            for m in self.marks(st, 'cur'):
                if m[2][0] == ('c', EXC) and true(st, m[3]):
                    self.mark(st, ('sent', C0, (), C1))
            return [(st, C0)]
        event_calls = {'rtmfp::PacketAssembler::startChunk': start, 'rtmfp::PacketAssembler::commitChunk': commit}

        def on_exit(self, I, st, rv, fr):
            if fr.up is None and rv is not None and not false(st, rv) and not self.marks(st, 'sent'):
                r = st.rng(('s', 'enum', 0, 3, 'in'))
                if r[0] <= REJ <= r[1] and REJ not in r[2]:
                    I.fail(fr, fr.fn.line, 'the acknowledgement of a rejected flow can be sent without an exception')
    for k in named(ctx, R + 'assembleAck'):
        run_root(ctx, 'R5', R5, k)
