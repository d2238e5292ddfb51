"""Congestion marks are used and echoed honestly."""
import psa
from lib import *

EXPLANATION = ('Path-sensitive analysis of the traffic class handed to the platform for every packet (which bits, and which facts hold on the path when it carries ECN-capability), '
               'of the packet-header handler (marks counted exactly once), of report assembly (only when something new arrived, with the current count, cleared only after it was packed), '
               'and of the report handler and the congestion response (a new mark always ends in a congestion reduction).')
S = 'rtmfp::Session'


def run(ctx):
    ir = ctx.ir
    TOS, ECT, SEENREP, NEW = (field(ctx, 'Session::' + n) for n in ('m_tos', 'm_send_ect', 'm_seen_ecn_report', 'm_seen_new_ecn'))
    CE, RXCE, NOTIFIED, ANY = (field(ctx, 'Session::' + n) for n in ('m_ecn_ce_count', 'm_rx_ece_count', 'm_congestionNotifiedThisPacket', 'm_any_acks'))
    STATE, OPEN = field(ctx, 'Session::m_state'), const(ctx, 'Session::S_OPEN')
    SSTH, RECOV = field(ctx, 'Session::m_ssthresh'), field(ctx, 'Session::m_recovery_remaining')
    REPORT, REORDER = const(ctx, 'CHUNK_ECN_REPORT'), const(ctx, 'ECN_CE_DELTA_REORDER')
    seen = {k: set() for k in ('wr', 'tos', 'ect', 'rep', 'clr', 'notif', 'ack', 'upd')}

    # ---- R1 which packets are marked
    ctx.rule('R1: the traffic class of every packet is made of the configured class (two low bits always clear), constants without those bits, and an ECN-capable bit only on paths '
             'where data was put into the packet and the session was found to use marks')

    def nobits(st, v):
        r = st.rng(v)
        if r[0] == r[1]:
            return int(r[0]) & 3 == 0
        if v[0] == 'op' and v[1] == '&':
            return nobits(st, v[2]) or nobits(st, v[3]) or any(x[0] == 'c' and x[1] & 3 == 0 for x in (v[2], v[3]))
        if v[0] == 'op' and v[1] == '|':
            return nobits(st, v[2]) and nobits(st, v[3])
        return any(m[0] == 'clean' and m[3] == v for m in st.auto or ()) or any(q[0] == 'F' and q[2] == TOS and x == v for q, x in st.mem.items())

    class R1(Watch):
        tracked = frozenset([ECT, TOS])
        private = frozenset([TOS])

        def events(self):
            return Watch.events(self) | {S + '::getTrafficClass'}

        def on_load(self, I, st, p, op, fr):
            if p[0] == 'F' and p[2] == TOS:
                v = st.mem.get(p) or I.fresh(st, 'ld', op, fr)
                self.mark(st, ('clean', C0, (), v))
                return v

        def on_branch(self, I, st, v, truth, b, fr):
            if v[0] == 'not':
                v, truth = v[1], not truth
            if truth and any(q[0] == 'F' and q[2] == ECT and psa.mknz(x) == psa.mknz(v) for q, x in st.mem.items()):
                self.mark(st, ('ect', C0, (), C1))

        def on_call(self, I, st, op, info, args, obj, fr):
            q = base_q(info['q'])
            if q == 'rtmfp::SendFlow::assembleData':
                I.unknown_call(st, ir.targets(info), args, obj, info, op, fr)
                t = st.copy()
                self.mark(t, ('data', C0, (), C1))
                return [(t, C1), (st, C0)]
            if q.endswith('::writePacket') and q.startswith('rtmfp::I'):
                self.nevents += 1
                seen['wr'].add((fr.fn.key, op.l))
                if not nobits(st, args[5]):
                    r = st.rng(args[5])
                    parts = [args[5]]
                    while any(x[0] == 'op' and x[1] == '|' for x in parts):
                        parts = [y for x in parts for y in ((x[2], x[3]) if x[0] == 'op' and x[1] == '|' else (x,))]
                    parts = [x for x in parts if not nobits(st, x)]
                    if not all(st.rng(x)[0] == st.rng(x)[1] for x in parts):
                        I.fail(fr, op.l, 'a packet is sent with a traffic class whose congestion bits come from somewhere else than the marking decision')
                    else:
                        if not self.marks(st, 'data'):
                            I.fail(fr, op.l, 'a packet is marked ECN-capable although no user data was put into it')
                        if not self.marks(st, 'ect') and not any(q[0] == 'F' and q[2] == ECT and true(st, x) for q, x in st.mem.items()):
                            I.fail(fr, op.l, 'a packet is marked ECN-capable although the peer may have been found unable to report marks')
            return Watch.on_call(self, I, st, op, info, args, obj, fr)

        def inline(self, I, key, info):
            return base_q(info['q']) != 'rtmfp::SendFlow::assembleData' and Watch.inline(self, I, key, info)
    ctx.discharge('R1', R1, psa.functions_with(ir, lambda fn, o: o.k == 'call' and base_q(o.info['q']).endswith('::writePacket') and ir.cls_of(fn.key) != 'rtmfp::IPlatformAdapter'))
    ctx.need('packet_writes', len(seen['wr']), 1)

    ctx.rule('R2: the configured traffic class is stored with its two low bits clear')

    class R2(Watch):
        def on_store(self, I, st, p, v, op, fr):
            if p[0] == 'F' and p[2] == TOS and not (op.info or {}).get('init'):
                self.nevents += 1
                seen['tos'].add((fr.fn.key, op.l))
                ok = v[0] == 'c' and v[1] & 3 == 0 or v[0] == 'op' and v[1] == '&' and any(x[0] == 'c' and x[1] & 3 == 0 for x in (v[2], v[3]))
                if not ok:
                    I.fail(fr, op.l, 'the congestion bits of a traffic class set by the application are kept')
    ctx.discharge('R2', R2, stores_to(ctx, {TOS}))
    ctx.need('traffic_class_stores', len(seen['tos']), 1)

    # ---- R3 the peer found unable
    ctx.rule('R3: marking is never switched on again, and a packet with acknowledgements but without any report so far switches it off')

    class R3(Watch):
        tracked = frozenset([ECT, SEENREP, ANY, STATE])
        private = frozenset([ECT, SEENREP])

        def enum_range(self, f):
            return (0, 9) if f == STATE else None

        def on_store(self, I, st, p, v, op, fr):
            if p[0] == 'F' and p[2] == ECT and not (op.info or {}).get('init'):
                seen['ect'].add((fr.fn.key, op.l))
                if not false(st, v):
                    I.fail(fr, op.l, 'marking outgoing packets is switched on again for a peer that may be unable to report marks')

        def on_branch(self, I, st, v, truth, b, fr):
            if v[0] == 'not':
                v, truth = v[1], not truth
            a = st.mem.get(('F', fr.this, ANY))
            if not truth and a is not None and psa.mknz(a) == psa.mknz(v):
                self.mark(st, ('noacks', C0, (), C1))
            s = st.mem.get(('F', fr.this, STATE))
            if s is not None and (st.rng(s)[0] > OPEN or st.rng(s)[1] < OPEN or OPEN in st.rng(s)[2]):
                self.mark(st, ('noacks', C0, (), C1))  # not open any more: nothing more is sent

        def on_exit(self, I, st, rv, fr):
            if fr.up is None and base_q(fr.fn.bq) == S + '::onPacketAfterChunks' and not self.marks(st, 'noacks'):
                e, s = st.mem.get(('F', fr.this, ECT)), st.mem.get(('F', fr.this, SEENREP))
                if not (e is not None and false(st, e) or s is not None and true(st, s)):
                    I.fail(fr, fr.fn.line, 'marking goes on although the peer acknowledged data without ever reporting marks')
    for k in sorted(stores_to(ctx, {ECT})):
        run_root(ctx, 'R3', R3, k)
    for k in named(ctx, S + '::onPacketAfterChunks'):
        run_root(ctx, 'R3', R3, k)
    ctx.need('marking_stores', len(seen['ect']), 1)
    ctx.need('after_chunks', len(named(ctx, S + '::onPacketAfterChunks')), 1)

    ctx.rule('R3b: a peer counts as reporting only from the handler of a report')

    class R3b(Watch):
        def on_enter(self, I, st, fr):
            if base_q(fr.fn.bq) == S + '::onEcnReportChunk':
                self.mark(st, ('handler', C0, (), C1))

        def on_store(self, I, st, p, v, op, fr):
            if p[0] == 'F' and p[2] == SEENREP and not (op.info or {}).get('init') and not false(st, v):
                self.nevents += 1
                if not self.marks(st, 'handler'):
                    I.fail(fr, op.l, 'a peer is taken to report marks although no report arrived')
    ctx.discharge('R3b', R3b, stores_to(ctx, {SEENREP}))

    # ---- R4 marks are counted
    ctx.rule('R4: an accepted packet of an open session that carries congestion bits sets the new-marks flag, and one marked as having met congestion raises the count by exactly one')
    BITS = psa.mkop('&', ('s', 'arg', 3), ('c', 3))

    class R4(Watch):
        tracked = frozenset([NEW, CE, STATE])
        private = frozenset([NEW, CE, STATE])

        def on_enter(self, I, st, fr):
            if fr.up is None:
                self.mark(st, ('keep', BITS, (), C1))

        def on_store(self, I, st, p, v, op, fr):
            if p[0] == 'F' and p[2] == CE:
                if not (op.info or {}).get('casg') or op.info.get('delta') != C1 or op.info.get('casg') not in ('+', '++'):
                    I.fail(fr, op.l, 'the count of congestion marks changes other than by one')
                for m in list(self.marks(st, 'inc')):
                    I.fail(fr, op.l, 'a congestion mark is counted more than once')
                self.mark(st, ('inc', C0, (), C1))

        def on_exit(self, I, st, rv, fr):
            if fr.up is not None:
                return
            if rv is not None and false(st, rv):
                if self.marks(st, 'inc'):
                    I.fail(fr, fr.fn.line, 'a congestion mark is counted for a packet that is refused')
                return
            s = st.mem.get(('F', fr.this, STATE))
            lo, hi, ne = st.rng(s) if s is not None else (0, 9, ())
            if lo > OPEN or hi < OPEN or OPEN in ne:
                return
            lo, hi, ne = st.rng(BITS)
            may = [x for x in range(4) if lo <= x <= hi and x not in ne]
            n = st.mem.get(('F', fr.this, NEW))
            if any(may) and not (n is not None and true(st, n)):
                I.fail(fr, fr.fn.line, 'congestion bits of a received packet are not noted for the next report')
            if 3 in may and not self.marks(st, 'inc'):
                I.fail(fr, fr.fn.line, 'a packet marked as having met congestion is not counted')
            if self.marks(st, 'inc') and may != [3]:
                I.fail(fr, fr.fn.line, 'a packet that met no congestion is counted as having met it')
    hdr = named(ctx, S + '::onPacketHeader')
    ctx.need('header_handlers', len(hdr), 1)
    for k in hdr:
        run_root(ctx, 'R4', R4, k)
    ctx.rule('R4b: the count changes, and the new-marks flag is set, only by the packet-header handler')

    class R4b(Watch):
        def on_enter(self, I, st, fr):
            if base_q(fr.fn.bq) == S + '::onPacketHeader':
                self.mark(st, ('handler', C0, (), C1))

        def on_store(self, I, st, p, v, op, fr):
            if p[0] == 'F' and (p[2] == CE or p[2] == NEW and not false(st, v)) and not (op.info or {}).get('init'):
                self.nevents += 1
                if not self.marks(st, 'handler'):
                    I.fail(fr, op.l, 'congestion marks are counted or noted although no packet arrived')
    ctx.discharge('R4b', R4b, stores_to(ctx, {CE, NEW}))

    # ---- R5 reports
    ctx.rule('R5: a report is begun only on paths that know new marks to have arrived, and carries the current count')

    class R5(Watch):
        tracked = frozenset([NEW, CE])
        private = frozenset([NEW, CE])

        def on_call(self, I, st, op, info, args, obj, fr):
            q = base_q(info['q'])
            if q == 'rtmfp::PacketAssembler::startChunk':
                self.drop(st, lambda m: m[0] == 'rep')
                if args[0] == ('c', REPORT) or args[0][0] != 'c' and st.rng(args[0])[0] <= REPORT <= st.rng(args[0])[1] and args[0][0] == 'op':
                    self.nevents += 1
                    seen['rep'].add((fr.fn.key, op.l))
                    if not any(q[0] == 'F' and q[2] == NEW and true(st, x) for q, x in st.mem.items()):
                        I.fail(fr, op.l, 'a report of congestion marks is sent although no marks arrived since the last')
                    rv = I.fresh(st, 'bool', op, fr)
                    self.mark(st, ('rep', C0, (), rv))
                    return [(st, rv)]
            elif q.startswith('rtmfp::PacketAssembler::push') and self.marks(st, 'rep') and len(args) == 1:
                v = args[0]
                if v[0] == 'op' and v[1] == '&' and v[3] == ('c', 255):
                    v = v[2]
                if not any(q[0] == 'F' and q[2] == CE and x == v for q, x in st.mem.items()):
                    I.fail(fr, op.l, 'a report of congestion marks carries something other than the current count')
            return Watch.on_call(self, I, st, op, info, args, obj, fr)
    ctx.discharge('R5', R5, psa.functions_with(ir, lambda fn, o: o.k == 'call' and base_q(o.info['q']) == 'rtmfp::PacketAssembler::startChunk' and o.info['args'][0] == ('c', REPORT)))
    ctx.need('reports', len(seen['rep']), 1)

    ctx.rule('R6: an acknowledgement that was asked to carry a report succeeds only with the report committed to the packet')

    class R6(Watch):
        def on_enter(self, I, st, fr):
            if fr.up is None:
                self.mark(st, ('keep', ('s', 'bool', 2), (), C1))

        def on_call(self, I, st, op, info, args, obj, fr):
            q = base_q(info['q'])
            if q == 'rtmfp::PacketAssembler::startChunk':
                self.drop(st, lambda m: m[0] in ('rep', 'push'))
                rv = I.fresh(st, 'bool', op, fr)
                if args[0] == ('c', REPORT):
                    self.mark(st, ('rep', C0, (), rv))
                return [(st, rv)]
            if q.startswith('rtmfp::PacketAssembler::push'):
                rv = I.fresh(st, 'bool', op, fr)
                if self.marks(st, 'rep'):
                    self.mark(st, ('push', C0, (), rv))
                return [(st, rv)]
            if q == 'rtmfp::PacketAssembler::commitChunk':
                if any(true(st, m[3]) for m in self.marks(st, 'rep')) and any(true(st, m[3]) for m in self.marks(st, 'push')):
                    self.mark(st, ('done', C0, (), C1))
                self.drop(st, lambda m: m[0] in ('rep', 'push'))
                return [(st, C0)]
            return Watch.on_call(self, I, st, op, info, args, obj, fr)

        def events(self):
            return {'rtmfp::PacketAssembler::startChunk'}

        def on_exit(self, I, st, rv, fr):
            if fr.up is None and not false(st, rv) and not false(st, ('s', 'bool', 2)) and not self.marks(st, 'done'):
                I.fail(fr, fr.fn.line, 'an acknowledgement is said to have carried the report of congestion marks although the report was not packed')
    asm = named(ctx, 'rtmfp::RecvFlow::assembleAck')
    ctx.need('acknowledgement_assemblers', len(asm), 1)
    for k in asm:
        run_root(ctx, 'R6', R6, k)

    ctx.rule('R7: every acknowledgement is asked to carry a report whenever new marks arrived; the flag is cleared after each that did, and only then')

    class R7(Watch):
        tracked = frozenset([NEW])
        private = frozenset([NEW])

        def on_call(self, I, st, op, info, args, obj, fr):
            if base_q(info['q']) == 'rtmfp::RecvFlow::assembleAck':
                self.nevents += 1
                seen['ack'].add((fr.fn.key, op.l))
                self.pending(I, st, fr, op.l)
                if not any(q[0] == 'F' and q[2] == NEW and (x == args[2] or psa.mknz(x) == psa.mknz(args[2])) for q, x in st.mem.items()):
                    I.fail(fr, op.l, 'an acknowledgement is not told whether new congestion marks arrived')
                I.unknown_call(st, ir.targets(info), args, obj, info, op, fr)
                t = st.copy()
                self.mark(t, ('packed', C0, (args[2],), C1))
                return [(t, C1), (st, C0)]
            return Watch.on_call(self, I, st, op, info, args, obj, fr)

        def inline(self, I, key, info):
            return base_q(info['q']) != 'rtmfp::RecvFlow::assembleAck' and Watch.inline(self, I, key, info)

        def pending(self, I, st, fr, line):
            for m in self.marks(st, 'packed'):
                if not false(st, m[2][0]):
                    I.fail(fr, line, 'the same congestion marks are reported again although nothing new arrived')
            self.drop(st, lambda m: m[0] == 'packed')

        def on_store(self, I, st, p, v, op, fr):
            if p[0] == 'F' and p[2] == NEW and not (op.info or {}).get('init') and not true(st, v):
                self.nevents += 1
                seen['clr'].add((fr.fn.key, op.l))
                if not self.marks(st, 'packed') and not (p in st.mem and false(st, st.mem[p])):
                    I.fail(fr, op.l, 'new congestion marks are forgotten although they were not reported')
                self.drop(st, lambda m: m[0] == 'packed')

        def on_exit(self, I, st, rv, fr):
            if fr.up is None:
                self.pending(I, st, fr, fr.fn.line)
    ctx.discharge('R7', R7, calls_to(ctx, 'rtmfp::RecvFlow::assembleAck') | stores_to(ctx, {NEW}))
    ctx.need('acknowledgements', len(seen['ack']), 1)
    ctx.need('flag_clearings', len(seen['clr']), 1)

    # ---- R8 a report that came in
    ctx.rule('R8: a report whose count is ahead of the last one within the reordering allowance is remembered and notes congestion, every other report does not')

    class R8(Watch):
        tracked = frozenset([RXCE, NOTIFIED])
        private = frozenset([RXCE, NOTIFIED])

        def term(self, st, v):
            while v[0] in ('not',) or v[0] == 'op' and v[1] in ('nz',):
                v = v[1] if v[0] == 'not' else v[2]
            for x in ([v] if v[0] == 'op' and v[1] == '-' else [y for y in v[2:] if isinstance(y, tuple)] if v[0] == 'op' else []):
                if x[0] == 'op' and x[1] == '-' and any(q[0] == 'F' and q[2] == RXCE and w == x[3] for q, w in st.mem.items()):
                    return x
            return None

        def on_branch(self, I, st, v, truth, b, fr):
            t = self.term(st, v)
            if t is not None:
                self.mark(st, ('delta', t, (), C1))
            u = v[1] if v[0] == 'not' else v
            if u[0] == 'op' and u[1] == '<' and {u[2], u[3]} == {('s', 'arg', 2), ('s', 'arg', 3)} or u[0] == 'op' and u[1] == '==' and {u[2], u[3]} == {('s', 'arg', 2), ('s', 'arg', 3)}:
                tr = truth if v[0] != 'not' else not truth
                if tr != (u[1] == '<' and u[2] == ('s', 'arg', 2)):
                    self.mark(st, ('empty', C0, (), C1))

        def on_store(self, I, st, p, v, op, fr):
            if p[0] == 'F' and p[2] == NOTIFIED and true(st, v):
                self.mark(st, ('notified', C0, (), C1))

        def on_exit(self, I, st, rv, fr):
            if fr.up is not None:
                return
            d = self.marks(st, 'delta')
            n = bool(self.marks(st, 'notified'))
            if not d:
                if n:
                    I.fail(fr, fr.fn.line, 'congestion is noted without comparing the reported count with the last one')
                elif not self.marks(st, 'empty'):
                    I.fail(fr, fr.fn.line, 'a report of congestion marks is not compared with the last one')
                return
            t = d[0][1]
            lo, hi, ne = st.rng(t)
            lo, hi = max(lo, 0), min(hi, 255)
            may = [x for x in range(int(lo), int(hi) + 1) if x not in ne]
            if not n and any(0 < x < REORDER for x in may):
                I.fail(fr, fr.fn.line, 'a newly reported congestion mark is not taken as congestion')
            if n and any(x == 0 or x >= REORDER for x in may):
                I.fail(fr, fr.fn.line, 'an old or reordered report is taken as new congestion')
            if n and st.mem.get(('F', fr.this, RXCE)) != t[2]:
                I.fail(fr, fr.fn.line, 'the reported count is not remembered, so the same marks count as new again')
    rep = named(ctx, S + '::onEcnReportChunk')
    ctx.need('report_handlers', len(rep), 1)
    for k in rep:
        run_root(ctx, 'R8', R8, k)

    ctx.rule('R8b: a note of congestion is withdrawn only at the beginning of a packet')

    class R8b(R4b):
        def on_store(self, I, st, p, v, op, fr):
            if p[0] == 'F' and p[2] == NOTIFIED and not (op.info or {}).get('init') and not true(st, v):
                self.nevents += 1
                seen['notif'].add((fr.fn.key, op.l))
                if not self.marks(st, 'handler'):
                    I.fail(fr, op.l, 'a note of congestion is withdrawn before the packet that reported it was dealt with')
    ctx.discharge('R8b', R8b, stores_to(ctx, {NOTIFIED}))

    ctx.rule('R9: a packet with acknowledgements updates the congestion window, as a loss if congestion was noted')

    class R9(R3):
        tracked = frozenset([NOTIFIED, ANY, STATE])
        private = frozenset([NOTIFIED])

        def on_store(self, I, st, p, v, op, fr):
            pass

        def on_call(self, I, st, op, info, args, obj, fr):
            if base_q(info['q']) == S + '::updateCWND':
                seen['upd'].add((fr.fn.key, op.l))
                n = st.mem.get(('F', fr.this, NOTIFIED))
                if not true(st, args[2]) and not (n is not None and (false(st, n) or psa.mknz(n) == psa.mknz(args[2]))):
                    I.fail(fr, op.l, 'congestion reported by the peer is not taken into account for the window')
                self.mark(st, ('updated', C0, (), C1))
                return None
            return Watch.on_call(self, I, st, op, info, args, obj, fr)

        def inline(self, I, key, info):
            return base_q(info['q']) != S + '::updateCWND' and Watch.inline(self, I, key, info)

        def events(self):
            return {S + '::updateCWND'}

        def on_exit(self, I, st, rv, fr):
            if fr.up is None and not self.marks(st, 'noacks') and not self.marks(st, 'updated'):
                I.fail(fr, fr.fn.line, 'acknowledgements arrive without the congestion window being updated')
    for k in named(ctx, S + '::onPacketAfterChunks'):
        run_root(ctx, 'R9', R9, k)
    ctx.need('window_updates', len(seen['upd']), 1)

    ctx.rule('R10: an update that is told of congestion reduces the window unless a reduction is still being carried out')

    class R10(Watch):
        tracked = frozenset([RECOV])
        private = frozenset([RECOV])

        def on_enter(self, I, st, fr):
            if fr.up is None:
                self.mark(st, ('keep', ('s', 'bool', 2), (), C1))

        def on_branch(self, I, st, v, truth, b, fr):
            if v[0] == 'not':
                v, truth = v[1], not truth
            r = st.mem.get(('F', fr.this, RECOV))
            if r is not None and v[0] == 'op' and v[1] == '<' and v[3] == r and truth:
                self.mark(st, ('recovering', C0, (), C1))

        def on_store(self, I, st, p, v, op, fr):
            if p[0] == 'F' and p[2] == SSTH:
                self.mark(st, ('reduced', C0, (), C1))

        def on_exit(self, I, st, rv, fr):
            if fr.up is None and not false(st, ('s', 'bool', 2)) and not self.marks(st, 'recovering') and not self.marks(st, 'reduced'):
                I.fail(fr, fr.fn.line, 'congestion does not reduce the window')
    upd = named(ctx, S + '::updateCWND')
    for k in upd:
        run_root(ctx, 'R10', R10, k)
