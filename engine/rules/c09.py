"""Chunks act only in the states and packet modes that allow them."""
import psa
from lib import *

EXPLANATION = ('Path-sensitive effect analysis: from each place that receives a chunk, every path to an effect on protocol state (a store to a library object, a call that can change one, a callback) is '
               'followed with what is known about the chunk type, the packet mode and the session state; for every chunk type possible there, the mode and state must be known to allow it. '
               'Packets are rejected on every path on which the reserved or the own mode was not excluded, and chunks are dispatched only after the header was accepted, with the header\'s mode.')


def run(ctx):
    ir = ctx.ir
    STATE, ROLE = field(ctx, 'Session::m_state'), field(ctx, 'Session::m_role')
    C = lambda n: const(ctx, n)
    STARTUP, MASK = C('HEADER_MODE_STARTUP'), C('HEADER_FLAG_MOD_MASK')
    IHELLO, KEYING, OPEN, NEAR, FAR, CLOSED = (C(n) for n in ('S_IHELLO_SENT', 'S_KEYING_SENT', 'S_OPEN', 'S_NEARCLOSE', 'S_FARCLOSE_LINGER', 'S_CLOSED'))
    names = ['CHUNK_FIHELLO', 'CHUNK_PING', 'CHUNK_PING_REPLY', 'CHUNK_USERDATA', 'CHUNK_NEXT_USERDATA', 'CHUNK_ACK_BITMAP', 'CHUNK_ACK_RANGES', 'CHUNK_BUFFERPROBE', 'CHUNK_EXCEPTION', 'CHUNK_ECN_REPORT']
    allow = {C(n): ('non-startup packets of an open session', False, {OPEN}, n) for n in names}
    for n in ('CHUNK_RIKEYING', 'CHUNK_RHELLO_COOKIE_CHANGE'):
        allow[C(n)] = ('startup packets while the session awaits keying', True, {KEYING}, n)
    for n in ('CHUNK_CLOSE', 'CHUNK_CLOSE_ACK'):
        allow[C(n)] = ('non-startup packets of a session that is open or closing', False, {OPEN, NEAR, FAR}, n)
    other = {C(n): n for n in ('CHUNK_IHELLO', 'CHUNK_RHELLO', 'CHUNK_REDIRECT', 'CHUNK_IIKEYING', 'CHUNK_FRAGMENT')}
    PROT = frozenset(f for f in ir.fields if any('::rtmfp::%s::' % c in f for c in ('Session', 'ISession', 'StartupSession', 'RTMFP', 'SendFlow', 'RecvFlow', 'Flow', 'Interface', 'WriteReceipt')))
    seen = dict(met=set(), types=set())

    def effectful(I, info):
        for t in ir.targets(info):
            c = I.closure(t)
            if c[2] & PROT or c[4]:
                return True
        q = base_q(info['q'])
        return q.startswith('rtmfp::IPlatformAdapter::') and not info.get('const') and not q.endswith(('getCurrentTime', 'getNearTime'))

    class Eff(Watch):
        """reports the first effect on a path on which the requirement is not known to hold"""
        tracked = frozenset([STATE, ROLE])
        depth = 4

        def enum_range(self, f):
            return (0, CLOSED) if f == STATE else None

        def inline(self, I, key, info):
            return bool(I.closure(key)[2] & PROT) or I.helper(key) or I.relevant(key)

        def check(self, I, st, op, fr, what):
            if self.marks(st, 'ok'):
                return
            why = self.unmet(I, st, fr)
            if why is None:
                self.mark(st, ('ok', C0, (), C1))
            else:
                I.fail(fr, op.l, '%s %s' % (what, why))
                self.mark(st, ('ok', C0, (), C1))

        def local(self, p):
            while p[0] in ('F', 'E') and p[1][0] == 'addr':
                p = p[1][1]
            return p[0] == 'L' or p[0] in ('F', 'E') and p[1][0] == 's' and p[1][1] in ('new', 'obj')

        def on_store(self, I, st, p, v, op, fr):
            if not self.local(p) and not (op.info or {}).get('init') and (p[0] != 'F' or p[2] in PROT):
                self.check(I, st, op, fr, 'state is changed')

        def on_callv(self, I, st, op, fv, args, fr):
            if fv[0] != 'lam':
                self.check(I, st, op, fr, 'a callback is made')

        def on_call(self, I, st, op, info, args, obj, fr):
            if self.marks(st, 'ok'):
                I.unknown_call(st, ir.targets(info), args, obj, info, op, fr)
                return [(st, I.retsym(st, op, fr, info))]
            if obj is not None and obj[0] == 'addr' and self.local(obj[1]):
                return None
            if info.get('obj') is not None and info['obj'][0] == 'fld' and info['obj'][2] in PROT and not ir.targets(info) and not info.get('const') and not info['q'].rsplit('::', 1)[-1] in READERS:
                self.check(I, st, op, fr, 'state is changed')
                return None
            if effectful(I, info):
                if self.unmet(I, st, fr) is None:
                    self.mark(st, ('ok', C0, (), C1))
                    I.unknown_call(st, ir.targets(info), args, obj, info, op, fr)
                    return [(st, I.retsym(st, op, fr, info))]
                if fr.depth >= self.depth or not ir.targets(info) or base_q(info['q']).startswith('rtmfp::IPlatformAdapter::'):
                    self.check(I, st, op, fr, 'an effect is caused')
                    return [(st, I.retsym(st, op, fr, info))]
            return None

        def defer(self, *a):
            return None

        def on_defer(self, I, st, op, info, i, lam, fr):
            return None

        def on_sync(self, I, st, op, info, i, lam, fr):
            return None

    # ---- R1
    class R1(Eff):
        def unmet(self, I, st, fr):
            t, m = ('s', 'arg', 1), ('s', 'arg', 0)
            f = fr
            while f.up:
                f = f.up
            lo, hi, neq = st.rng(t)
            can = [c for c in list(allow) + list(other) + [0] if lo <= c <= hi and c not in neq]
            s = st.mem.get(('F', f.this, STATE))
            r = st.rng(s) if s is not None else (0, CLOSED, frozenset())
            states = {x for x in range(int(max(r[0], 0)), int(min(r[1], CLOSED)) + 1) if x not in r[2]}
            mr = st.rng(m)
            starts = True if (mr[0], mr[1]) == (STARTUP, STARTUP) else False if STARTUP in mr[2] or mr[1] < STARTUP or mr[0] > STARTUP else None
            for c in can:
                if c not in allow:
                    return 'for a chunk of a type that has no meaning in an established session'
                text, su, sts, n = allow[c]
                if starts is not su or not states <= sts:
                    return 'for a %s chunk, allowed only in %s, although mode %s, state in %s' % (n, text, {True: 'startup', False: 'not startup', None: 'any'}[starts], sorted(states))
            seen['met'].add((fr.fn.key, repr(can)))
            seen['types'].update(can)
            return None
    roots = [k for k in named(ctx, 'rtmfp::Session::onChunk')]
    if len(roots) != 1:
        raise AnalysisError('anchor vanished: Session::onChunk')
    ctx.rule('R1: from Session::onChunk, every path to an effect knows a chunk type, packet mode and session state that the table allows together')
    run_root(ctx, 'R1', R1, roots[0])
    ctx.need('chunk_types_with_allowed_effects', len(seen['types']), len(allow))

    # ---- R2 headers
    class R2(Watch):
        tracked = frozenset([ROLE])
        on_enter = keep

        def on_exit(self, I, st, rv, fr):
            if fr.up is not None or rv is None or false(st, rv):
                return
            flags = ('s', 'arg', 0)
            mode = psa.mkop('&', flags, ('c', MASK))
            if self.startup:
                if not (st.rng(mode)[:2] == (STARTUP, STARTUP) or rv == psa.mkop('==', mode, ('c', STARTUP))):
                    I.fail(fr, fr.fn.line, 'a packet sent to the startup session is accepted in a mode other than startup')
                return
            r = st.rng(mode)
            # an expression returned directly counts as known on the accepting path
            s2 = st.copy()
            if rv[0] != 'c':
                s2.refine(psa.mknz(rv), True)
                r = s2.rng(mode)
            if not (r[0] > 0 or 0 in r[2]):
                I.fail(fr, fr.fn.line, 'a packet in the reserved mode is accepted')
            role = st.mem.get(('F', fr.this, ROLE))
            if role is None or s2.decide(psa.mkop('==', role, mode)) is not False:
                I.fail(fr, fr.fn.line, 'a packet in the receiving side\'s own mode is accepted')
    ctx.rule('R2: a packet header is accepted only on paths where its mode was found different from the reserved mode and the own role; the startup session accepts startup mode only')
    n = 0
    for q, su in (('rtmfp::Session::onPacketHeader', False), ('rtmfp::StartupSession::onPacketHeader', True)):
        for k in named(ctx, q):
            n += 1
            run_root(ctx, 'R2', type('R2x', (R2,), {'startup': su}), k)
    ctx.need('packet_header_handlers', n, 2)

    # ---- R2b: no effect before the mode is known acceptable
    class R2b(Eff):
        on_enter = keep

        def unmet(self, I, st, fr):
            f = fr
            while f.up:
                f = f.up
            mode = psa.mkop('&', ('s', 'arg', 0), ('c', MASK))
            r = st.rng(mode)
            role = st.mem.get(('F', f.this, ROLE))
            if not (r[0] > 0 or 0 in r[2]):
                return 'by a packet not known to be in a mode other than the reserved one'
            if role is None or st.decide(psa.mkop('==', role, mode)) is not False:
                return 'by a packet not known to be from the other side'
            return None

        def on_store(self, I, st, p, v, op, fr):
            if p[0] == 'F' and p[2] in perpacket:
                return
            return Eff.on_store(self, I, st, p, v, op, fr)
    # members that only describe the packet being read: clearing them early is not an effect
    perpacket = frozenset(f for f in ir.fields if f.endswith('ThisPacket') or f.endswith(('::m_any_acks', '::m_pre_ack_outstanding')))
    ctx.rule('R2b: the packet header has no effect on the session before its mode was found acceptable')
    for k in named(ctx, 'rtmfp::Session::onPacketHeader'):
        run_root(ctx, 'R2b', R2b, k)

    # ---- R3 dispatch after header, same mode
    ctx.rule('R3: chunks are dispatched only after the packet was decrypted and its header accepted, with the mode taken from the flags given to the header handler')

    class R3(Watch):
        observe = {'rtmfp::ISession::onPacketHeader': 'begin', 'rtmfp::SessionCryptoKey::decrypt': 'clear'}

        def on_chunk(self, I, st, op, info, args, obj, fr):
            b = [m for m in self.marks(st, 'begin') if true(st, m[3])]
            if not b:
                I.fail(fr, op.l, 'a chunk is dispatched although the packet header was not accepted')
            elif base_q(info['q']).endswith('onChunk') and args[0] != psa.mkop('&', b[-1][2][0], ('c', MASK)):
                I.fail(fr, op.l, 'a chunk is dispatched with a mode other than that of its packet')
            if not [m for m in self.marks(st, 'clear') if true(st, m[3])]:
                I.fail(fr, op.l, 'a chunk of a packet that failed to decrypt is dispatched')
            return [(st, I.retsym(st, op, fr, info))]
        event_calls = {'rtmfp::ISession::onChunk': on_chunk, 'rtmfp::ISession::onPacketAfterChunks': on_chunk}
    cs = calls_to(ctx, 'rtmfp::ISession::onChunk', 'rtmfp::ISession::onPacketAfterChunks')
    ctx.discharge('R3', R3, cs)
    ctx.need('chunk_dispatchers', len(cs), 1)

    # ---- R4 replies to our hello
    ctx.rule('R4: from the handlers of responder hellos and redirects, every path to an effect on a session knows that session to be awaiting a responder hello')

    class R4(Eff):
        depth = 5

        def unmet(self, I, st, fr):
            ss = [v for q, v in st.mem.items() if q[0] == 'F' and q[2] == STATE]
            if any(st.rng(v)[:2] == (IHELLO, IHELLO) for v in ss):
                return None
            return 'by a reply to a hello although no session is known to be in the hello state'

        def on_callv(self, I, st, op, fv, args, fr):
            return None         # an unmatched reply is handed to the application

        def on_store(self, I, st, p, v, op, fr):
            if p[0] == 'F' and '::Session::' not in p[2]:
                return
            return Eff.on_store(self, I, st, p, v, op, fr)
    n = 0
    for q in ('rtmfp::RTMFP::onRHello', 'rtmfp::RTMFP::onRedirect'):
        for k in named(ctx, q):
            n += 1
            run_root(ctx, 'R4', R4, k)
    ctx.need('hello_reply_handlers', n, 2)


def keep(self, I, st, fr):
    """what is known about the flags stays known for the whole function"""
    if fr.up is None:
        self.mark(st, ('keep', ('s', 'arg', 0), (), C1))


READERS = ('begin', 'end', 'find', 'at', 'size', 'empty', 'front', 'back', 'first', 'next', 'has', 'get', 'operator->', 'operator*', 'operator[]', 'operator bool', 'data', 'count', 'lower_bound', 'upper_bound', 'sum', 'firstValue', 'safeValue')
