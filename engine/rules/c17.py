"""Closed or failed flows accept nothing and call back no more."""
import psa
from ir import FN_RE
from lib import *

EXPLANATION = ('Path-sensitive typestate analysis with obligation lifting of every store to the open flag and the state of a flow, every insertion into its queues and every call of one of its callbacks: '
               'a path that clears the open flag leaves every callback of the flow unset when the closing function returns, the flag is never set again, states only rise, insertions happen only on paths that '
               'know the flow to be open, callbacks are called only when known to be set, and terminal callbacks only after having been taken out of the flow.')
FLOW, SEND, RECV = 'rtmfp::Flow', 'rtmfp::SendFlow', 'rtmfp::RecvFlow'
NS = 'com::zenomt::'
TERMINAL = ('SendFlow::onException', 'RecvFlow::onComplete')


def run(ctx):
    ir = ctx.ir
    OPENFLAG = field(ctx, 'Flow::m_base_isOpen')
    SST, RST = field(ctx, 'SendFlow::m_state'), field(ctx, 'RecvFlow::m_state')
    SQ, RQ = field(ctx, 'SendFlow::m_send_queue'), field(ctx, 'RecvFlow::m_recv_buffer')
    F_OPEN, RF_OPEN = const(ctx, 'SendFlow::F_OPEN'), const(ctx, 'RecvFlow::RF_OPEN')
    term = fields(ctx, *TERMINAL)
    cbs = {c: {NS + c + '::' + f['n'] for f in ctx.prog.classes[NS + c]['fields'] if FN_RE.match(f['t'])} for c in (FLOW, SEND, RECV)}
    allcb = frozenset().union(*cbs.values())
    ctx.need('flow_callbacks', len(allcb), 6)
    hi = {}
    for F, pre in ((SST, 'com::zenomt::rtmfp::SendFlow::F_'), (RST, 'com::zenomt::rtmfp::RecvFlow::RF_')):
        hi[F] = max(v for n, v in ctx.prog.enumval.items() if n.startswith(pre) and not n.endswith('PERIOD') and '.' not in str(v))
    order = [[const(ctx, n) for n in ns] for ns in (('SendFlow::F_OPEN', 'SendFlow::F_CLOSING', 'SendFlow::F_COMPLETE_LINGER', 'SendFlow::F_CLOSED'),
                                                     ('RecvFlow::RF_OPEN', 'RecvFlow::RF_REJECTED', 'RecvFlow::RF_COMPLETE_LINGER', 'RecvFlow::RF_CLOSED'))]
    ctx.rule('R1: the state constants of a flow are ordered open < closing or rejected < lingering < closed')
    for o in order:
        if o != sorted(set(o)):
            ctx.viol('R1', SEND + '::State', 0, 'the order of the flow states is not open < closing < lingering < closed: %s' % o)

    closers = {ir.bq_of(k) for k in stores_to(ctx, {OPENFLAG})}
    flowfns = frozenset(k for k in ctx.prog.funcs if ir.cls_of(k) == FLOW)

    class Base(Watch):
        private = allcb | {OPENFLAG}

        def events(self):
            return Watch.events(self) | closers

        def havoc_value(self, I, st, place, old):
            # nothing in between sets the callbacks or the flag of this flow again
            return old if place[2] in self.private and st.decide(psa.mknz(old)) is False else None

    # ---- R2 states only rise
    ctx.rule('R2: every store to a flow state stores a constant not lower than anything the field may hold there')
    seen = dict(st=set(), cl=set(), ins=set(), cb=set(), term=set())

    class R2(Base):
        tracked = frozenset([SST, RST])

        def enum_range(self, f):
            return (0, hi[f]) if f in hi else None

        def havoc_value(self, I, st, place, old):
            lo = st.rng(old)[0]
            s = ('s', 'enum', int(max(lo, 0)), hi[place[2]], 'mono')
            I.kill_sym(st, s)
            return s

        def on_store(self, I, st, p, v, op, fr):
            if p[0] != 'F' or p[2] not in hi or (op.info or {}).get('init'):
                return
            self.nevents += 1
            seen['st'].add((fr.fn.key, op.l))
            old = st.mem.get(p)
            h = st.rng(old)[1] if old is not None else hi[p[2]]
            if v[0] != 'c':
                I.fail(fr, op.l, 'the state of a flow is assigned a value that is not a constant')
            elif v[1] < h:
                I.fail(fr, op.l, 'the state of a flow is set to %d while it may already be %d' % (v[1], h))
    ctx.discharge('R2', R2, stores_to(ctx, {SST, RST}))
    ctx.need('state_stores', len(seen['st']), 5)

    # ---- R3 closing clears every callback
    ctx.rule('R3: the open flag of a flow is never set again, and when it was cleared every callback of that kind of flow is unset on return')

    class R3(Base):
        tracked = allcb | {OPENFLAG}

        def on_store(self, I, st, p, v, op, fr):
            if p[0] == 'F' and p[2] == OPENFLAG and not (op.info or {}).get('init'):
                self.nevents += 1
                seen['cl'].add((fr.fn.key, op.l))
                if v != C0:
                    I.fail(fr, op.l, 'the open flag of a flow is set to something other than false after construction')
                self.mark(st, ('closed', p[1], (), C1))

        def on_exit(self, I, st, rv, fr):
            if fr.up is not None:
                return
            for m in self.marks(st, 'closed'):
                if m[1] == fr.this:
                    cls = ir.cls_of(fr.fn.key)
                    want = cbs[SEND] | cbs[FLOW] if cls == SEND else cbs[RECV] | cbs[FLOW] if cls == RECV else allcb
                else:
                    want = allcb
                for f in sorted(want):
                    v = st.mem.get(('F', m[1], f))
                    if v is None or st.decide(psa.mknz(v)) is not False:
                        I.fail(fr, fr.fn.line, 'a flow is closed while its callback %s stays set' % f.rsplit('::', 1)[1])
    ctx.discharge('R3', R3, stores_to(ctx, {OPENFLAG}), internal=flowfns)
    ctx.need('open_flag_stores', len(seen['cl']), 1)

    # ---- R4 failure closes
    ctx.rule('R4: the handlers of an exception report, of a failed or completed receiving flow and of its abort leave the flow closed on every path')

    class R4(Base):
        tracked = frozenset([OPENFLAG])

        def on_exit(self, I, st, rv, fr):
            if fr.up is None:
                v = st.mem.get(('F', fr.this, OPENFLAG))
                if v is None or st.decide(psa.mknz(v)) is not False:
                    I.fail(fr, fr.fn.line, 'a failed, aborted or completed flow is not closed')
    n = 0
    for q in ('rtmfp::SendFlow::onExceptionReport', 'rtmfp::RecvFlow::abort', 'rtmfp::SendFlow::close', 'rtmfp::RecvFlow::close', 'rtmfp::Flow::close'):
        for k in named(ctx, q):
            n += 1
            run_root(ctx, 'R4', R4, k)
    ctx.need('closing_functions', n, 5)

    # ---- R5 insertion only while open
    ctx.rule('R5: a fragment is put into the send queue only on paths that know the flow to be open, or its state to be open; into the receive buffer only while its state is open')

    class R5(Base):
        tracked = frozenset([OPENFLAG, SST, RST])

        def enum_range(self, f):
            return (0, hi[f]) if f in hi else None

        def on_call(self, I, st, op, info, args, obj, fr):
            pl = info.get('obj')
            if pl and pl[0] == 'fld' and pl[2] in (SQ, RQ) and not info.get('const') and base_q(info['q']).rsplit('::', 1)[-1] in ('append', 'prepend', 'addBefore', 'addAfter'):
                self.nevents += 1
                seen['ins'].add((fr.fn.key, op.l))
                p = I.place(st, pl, fr)
                o = p[1]
                flag = st.mem.get(('F', o, OPENFLAG))
                s = st.mem.get(('F', o, SST if pl[2] == SQ else RST))
                ok = s is not None and st.rng(s)[:2] == (0, 0)
                if pl[2] == SQ and flag is not None and true(st, flag):
                    ok = True
                if not ok:
                    I.fail(fr, op.l, 'a fragment is %s a flow not known to be open' % ('queued for sending on' if pl[2] == SQ else 'accepted into'))
            return Watch.on_call(self, I, st, op, info, args, obj, fr)
    if F_OPEN or RF_OPEN:
        raise AnalysisError('the open state of a flow is no longer the lowest')
    cs = psa.functions_with(ir, lambda fn, o: o.k == 'call' and (o.info.get('obj') or ('',))[0] == 'fld' and o.info['obj'][2] in (SQ, RQ) and not o.info.get('const')
                            and base_q(o.info['q']).rsplit('::', 1)[-1] in ('append', 'prepend', 'addBefore', 'addAfter'))
    ctx.discharge('R5', R5, cs)
    ctx.need('queue_insertions', len(seen['ins']), 2)

    # ---- R6 calls of callbacks
    ctx.rule('R6: a callback of a flow is called only when known to be set, a terminal one (exception, completion) only when no longer held by the flow')

    class R6(Base):
        tracked = allcb
        private = frozenset([OPENFLAG])

        def on_load(self, I, st, p, op, fr):
            return None

        def on_callv(self, I, st, op, fv, args, fr):
            pl = op.b
            f = pl[2] if pl and pl[0] == 'fld' and pl[2] in allcb else None
            held = [q for q, v in st.mem.items() if q[0] == 'F' and q[2] in term and v == fv and fv[0] == 's']
            came = [m for m in self.marks(st, 'from') if m[3] == fv]
            if f or held or came:
                self.nevents += 1
                seen['cb'].add((fr.fn.key, op.l))
                o = I.place(st, pl, fr)[1] if f else None
                if not true(st, fv) and (o is None or o == fr.this or o[0] == 's' and o[1] in ('arg', 'larg')):
                    I.fail(fr, op.l, 'a callback of a flow is called without having been found set')
            if f in term or held:
                I.fail(fr, op.l, 'a terminal callback is called while the flow still holds it, so it can be called again')
            if came:
                seen['term'].add((fr.fn.key, op.l))

        def on_store(self, I, st, p, v, op, fr):
            # a local that receives a terminal callback
            if p[0] == 'L' and v[0] == 's':
                if any(q[0] == 'F' and q[2] in term and w == v for q, w in st.mem.items()):
                    self.mark(st, ('from', C0, (), v))
    loads = psa.functions_with(ir, lambda fn, o: o.k == 'callv' and (o.b or ('',))[0] == 'fld' and o.b[2] in allcb or o.k == 'ld' and o.a[0] == 'fld' and o.a[2] in term)
    ctx.discharge('R6', R6, loads)
    ctx.need('callback_calls', len(seen['cb']), 6)
    ctx.need('terminal_callback_calls', len(seen['term']), 2)
