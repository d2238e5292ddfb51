"""User data is sent only within congestion and receive windows."""
import psa
from lib import *

EXPLANATION = ('Path-sensitive analysis of every place that lets a flow put data into a packet and of every place that marks a fragment as sent: on the path the outstanding bytes were compared with the congestion '
               'window (of the flow: with the advertised buffer) and found below it, and nothing was sent since that comparison. Interval analysis of every store to the congestion window, '
               'with the floor of two segments as the invariant assumed of the old value and proved of the new one.')


def run(ctx):
    ir = ctx.ir
    CWND, FRAGS = field(ctx, 'Session::m_cwnd'), field(ctx, 'Session::m_outstandingFrags')
    OUT, RX = field(ctx, 'SendFlow::m_outstanding_bytes'), field(ctx, 'SendFlow::m_rx_buffer_size')
    FLIGHT, RECVLIMIT = field(ctx, 'SendFrag::m_in_flight'), field(ctx, 'SendFlow::m_rx_buffer_size')
    FLOOR = 2 * const(ctx, 'SENDER_MSS')
    PRE = field(ctx, 'Session::m_pre_ack_outstanding')
    SSTH = field(ctx, 'Session::m_ssthresh')
    seen = dict(asm=set(), flight=set(), cwnd=set(), rx=set())

    # ---- R1
    ctx.rule('R1: a flow is asked for data only after the sum of the outstanding fragments was found below the congestion window, again after each packet part that was filled')

    class R1(Watch):
        tracked = frozenset([CWND])

        def cmp_of(self, st, v):
            """is v a comparison outstanding < window?"""
            if v[0] == 'op' and v[1] == '<':
                w = v[3]
                return any(m[3] == v[2] for m in self.marks(st, 'sum')) and any(q[0] == 'F' and q[2] == CWND and x == w for q, x in st.mem.items())
            return False

        def on_branch(self, I, st, v, truth, b, fr):
            if v[0] == 'not':
                v, truth = v[1], not truth
            if self.cmp_of(st, v) and truth:
                self.mark(st, ('below', C0, (), C1))

        def on_store(self, I, st, p, v, op, fr):
            # the outcome of the comparison kept in a variable
            return None

        def on_call(self, I, st, op, info, args, obj, fr):
            q = base_q(info['q'])
            pl = info.get('obj')
            if pl and pl[0] == 'fld' and pl[2] == FRAGS and q.endswith('::sum'):
                rv = I.fresh(st, 'ret', op, fr)
                self.mark(st, ('sum', C0, (), rv))
                return [(st, rv)]
            if q == 'rtmfp::SendFlow::assembleData':
                seen['asm'].add((fr.fn.key, op.l))
                self.nevents += 1
                ok = self.marks(st, 'below') or any(self.cmp_known(st, m[3]) for m in self.marks(st, 'sum'))
                if not ok:
                    I.fail(fr, op.l, 'a flow may put data into a packet although the bytes outstanding were not found below the congestion window')
                I.unknown_call(st, ir.targets(info), args, obj, info, op, fr)
                # what was found out about the bytes outstanding holds no more once data has been sent
                sent = st.copy()
                self.drop(sent, lambda m: m[0] in ('below', 'sum'))
                return [(sent, C1), (st, C0)]
            return Watch.on_call(self, I, st, op, info, args, obj, fr)

        def cmp_known(self, st, s):
            return any(q[0] == 'F' and q[2] == CWND and st.decide(psa.mkop('<', s, x)) is True for q, x in st.mem.items())

        def inline(self, I, key, info):
            return base_q(info['q']) != 'rtmfp::SendFlow::assembleData' and Watch.inline(self, I, key, info)
    ctx.discharge('R1', R1, calls_to(ctx, 'rtmfp::SendFlow::assembleData'))
    ctx.need('data_assembly_calls', len(seen['asm']), 1)

    # ---- R2
    ctx.rule('R2: a fragment is marked in flight only after the outstanding bytes of its flow were found below the advertised buffer, with nothing added to them since')

    class R2(Watch):
        tracked = frozenset([OUT, RX])

        def on_branch(self, I, st, v, truth, b, fr):
            if v[0] == 'not':
                v, truth = v[1], not truth
            if v[0] == 'op' and v[1] == '<' and truth:
                o = any(q[0] == 'F' and q[2] == OUT and x == v[2] for q, x in st.mem.items())
                r = any(q[0] == 'F' and q[2] == RX and x == v[3] for q, x in st.mem.items())
                if o and r:
                    self.mark(st, ('below', C0, (), C1))

        def on_store(self, I, st, p, v, op, fr):
            if p[0] != 'F' or (op.info or {}).get('init'):
                return
            if p[2] == OUT:
                self.drop(st, lambda m: m[0] == 'below')
            elif p[2] == FLIGHT and v != C0:
                self.nevents += 1
                seen['flight'].add((fr.fn.key, op.l))
                if not self.marks(st, 'below'):
                    I.fail(fr, op.l, 'a fragment is sent although the outstanding bytes of its flow were not found below the buffer the peer advertised')
    ctx.discharge('R2', R2, psa.functions_with(ir, lambda fn, o: o.k == 'store' and o.a[0] == 'fld' and o.a[2] == FLIGHT and o.b != C0 and not (o.info or {}).get('init')))
    ctx.need('fragments_sent', len(seen['flight']), 1)

    # ---- R3 the advertised buffer is taken from the acknowledgement
    ctx.rule('R3: the advertised buffer changes only to the value an acknowledgement carries')

    class R3(Watch):
        def on_store(self, I, st, p, v, op, fr):
            if p[0] == 'F' and p[2] == RX and not (op.info or {}).get('init'):
                self.nevents += 1
                seen['rx'].add((fr.fn.key, op.l))
                f = fr
                if v[0] != 's' or v[1] not in ('arg',):
                    I.fail(fr, op.l, 'the advertised buffer is set to something other than the value handed over from the acknowledgement')
    rx = stores_to(ctx, {RX})
    for k in sorted(rx):
        run_root(ctx, 'R3', R3, k)
    ctx.need('advertised_buffer_stores', len(seen['rx']), 1)

    # ---- R4 floor
    ctx.rule('R4: every value stored to the congestion window is at least two segments on its path, given that the old value was')

    class R4(Watch):
        tracked = frozenset([CWND, PRE, SSTH])
        ranges = {CWND: (FLOOR, psa.INF), PRE: (0, psa.INF), SSTH: (0, psa.INF)}

        def enum_range(self, f):
            return self.ranges.get(f)

        def on_store(self, I, st, p, v, op, fr):
            if p[0] == 'F' and p[2] == CWND:
                self.nevents += 1
                seen['cwnd'].add((fr.fn.key, op.l))
                lo = st.rng(v)[0]
                if lo < FLOOR:
                    I.fail(fr, op.l, 'the congestion window may be set below two segments')
    for k in sorted(stores_to(ctx, {CWND}, init=True)):
        run_root(ctx, 'R4', R4, k)
    ctx.need('window_stores', len(seen['cwnd']), 5)
