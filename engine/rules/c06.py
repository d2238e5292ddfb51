"""An initiator opens a session only with the responder it asked for."""
import psa
from lib import *

EXPLANATION = ('Path-sensitive typestate analysis of the initiator side: every place where a session moves to the keying state, becomes open as initiator, replaces its cookie, or sends a '
               'handshake packet is reached, along every path and through every asynchronous continuation from the reply handlers, only after the required checks on the same certificate, '
               'keys and bytes succeeded, and with the handshake state tested after the last asynchronous step. Obligations not met locally are lifted to callers and lambda creators.')
OPENED = 'rtmfp::Session::setOpen'


def run(ctx):
    STATE = field(ctx, 'Session::m_state')
    CERT, EPD, SKIC, KEY = field(ctx, 'Session::m_cryptoCert'), field(ctx, 'Session::m_epd'), field(ctx, 'Session::m_skic'), field(ctx, 'ISession::m_cryptoKey')
    COOKIE, CHANGED = field(ctx, 'Session::m_resp_cookie'), field(ctx, 'Session::m_resp_cookieChanged')
    FEPD, FSESSION, FOPENING = field(ctx, 'SendFlow::m_epd'), field(ctx, 'Flow::m_session'), field(ctx, 'SendFlow::m_openingSession')
    IHELLO, KEYING = const(ctx, 'S_IHELLO_SENT'), const(ctx, 'S_KEYING_SENT')
    fmax = const(ctx, 'S_CLOSED')
    tracked = {STATE, CERT, EPD, SKIC, KEY, COOKIE, CHANGED, FEPD, FOPENING, FSESSION}
    for f in ctx.ir.fields:
        if '(anonymous namespace)::' in f and f.startswith('com::zenomt::rtmfp::') and ctx.ir.fclass(f) in ('src/Session.cpp', 'src/RTMFP.cpp'):
            tracked.add(f)
    TR = frozenset(tracked)
    seen = dict(keying=set(), open=set(), cookie=set(), send=set(), bind=set(), cert=set())

    class Base(Watch):
        tracked = TR
        opaque = frozenset(['rtmfp::Address'])
        private = frozenset(f for f in TR if '(anonymous namespace)::' in f) | {CERT, KEY}
        observe = {'rtmfp::ICryptoAdapter::decodeCertificate': 'cert', 'rtmfp::SessionCryptoKey::initiatorCombineResponderKeyingComponent': 'combined'}
        deferred = {'rtmfp::CryptoCert::isAuthentic': 'authentic', 'rtmfp::CryptoCert::checkSignature': 'signed'}

        def enum_range(self, f):
            return (0, fmax) if f == STATE else None

        def content_of(self, st, p, fields):
            """the object whose field's current content is p"""
            return [q[1] for q, v in st.mem.items() if q[0] == 'F' and q[2] in fields and v == p]

        def on_selected(self, I, st, op, info, args, obj, fr):
            owners = []
            if len(args) >= 2 and args[0][0] == 'op' and args[0][1] == 'call.data' and args[1] == ('op', 'call.size', args[0][2], C0):
                owners = self.content_of(st, args[0][2], (EPD, FEPD))
            s = I.retsym(st, op, fr, info)
            for o in owners:
                self.mark(st, ('selected', obj or C0, (o,), s))
            return [(st, s)]

        def on_insert(self, I, st, op, info, args, obj, fr):
            """bytes appended to something: remember if they are a session's keying component"""
            if obj and obj[0] == 'addr' and len(args) >= 3 and args[1][0] == 'op' and args[1][1] == 'call.begin' and args[2] == ('op', 'call.end', args[1][2], C0):
                for o in self.content_of(st, args[1][2], (SKIC,)):
                    old = st.mem.get(obj[1])
                    new = I.fresh(st, 'cat', op, fr)
                    st.mem[obj[1]] = new
                    self.mark(st, ('cat', o, (old or C0, args[0] == ('op', 'call.end', old, C0)), new))
                    return [(st, C0)]
            return None
        event_calls = {'rtmfp::CryptoCert::isSelectedByEPD': on_selected, 'std::vector::insert': on_insert}

    def state_is(st, obj, *vals):
        v = st.mem.get(('F', obj, STATE))
        if v is None:
            return False
        r = st.rng(v)
        return r[0] >= min(vals) and r[1] <= max(vals)

    # ---- R1 moving on to keying
    class R1(Base):
        def on_store(self, I, st, p, v, op, fr):
            if p[0] == 'F' and p[2] == STATE and v == ('c', KEYING):
                seen['keying'].add((fr.fn.key, op.l))
                o = p[1]
                bad = lambda m: I.fail(fr, op.l, 'a session goes on to keying ' + m)
                if not state_is(st, o, IHELLO):
                    bad('in a state not known to be the one awaiting a responder hello')
                good = [m[3] for m in self.marks(st, 'cert') if true(st, m[3])]
                good = [c for c in good if [m for m in self.marks(st, 'selected') if m[1] == c and m[2] == (o,) and true(st, m[3])]]
                if not good:
                    bad('on a path where the received certificate was not decoded and found to match the endpoint discriminator asked for')
                good = [c for c in good if [m for m in self.marks(st, 'authentic') if m[1] == c]]
                if not good:
                    bad('outside the continuation of a successful authenticity check of that certificate')
                self.mark(st, ('keying', o, tuple(sorted(good, key=repr)), C1))

        def on_exit(self, I, st, rv, fr):
            if fr.fn.is_lambda or fr.up is None:
                for m in self.marks(st, 'keying'):
                    if st.mem.get(('F', m[1], CERT)) not in m[2]:
                        I.fail(fr, fr.fn.line, 'a session in the keying state keeps a certificate other than the verified one')
                self.drop(st, lambda m: m[0] == 'keying')
    ctx.rule('R1: a session enters the keying state only from the hello state (tested after the last asynchronous step), with a certificate that decoded, selected our endpoint discriminator and '
             'was reported authentic, and stores that certificate')
    ctx.discharge('R1', R1, stores_to(ctx, {STATE}))
    ctx.need('keying_transitions', len(seen['keying']), 1)

    # ---- R2 opening as initiator
    class R2(Base):
        def events(self):
            return Base.events(self) | {OPENED, 'rtmfp::Session::Session'}

        def on_call(self, I, st, op, info, args, obj, fr):
            if base_q(info['q']) == OPENED:
                if obj and obj[0] == 's' and obj[1] == 'new':
                    return [(st, C0)]       # a responder's session: the other property
                seen['open'].add((fr.fn.key, op.l))
                bad = lambda m: I.fail(fr, op.l, 'an initiated session is opened ' + m)
                if not state_is(st, obj, KEYING):
                    bad('in a state not known, after the last asynchronous step, to be the one awaiting responder keying')
                cert, key = st.mem.get(('F', obj, CERT)), st.mem.get(('F', obj, KEY))
                sig = [m for m in self.marks(st, 'signed') if cert is not None and m[1] == cert]
                if not sig:
                    bad('outside the continuation of a successful signature check by the session\'s certificate')
                else:
                    cats = self.marks(st, 'cat')
                    ok = any(m[2][0] == ('op', 'call.data', c[3], C0) and m[2][1] == ('op', 'call.size', c[3], C0) and c[1] == obj and c[2][1] for m in sig for c in cats)
                    if not ok:
                        bad('after a signature check that does not cover the received parameters followed by our own keying component')
                    if not any(psa.syms(m[2][2], set()) for m in sig):
                        bad('after a signature check of something other than the received signature')
                if not [m for m in self.marks(st, 'combined') if key is not None and m[1] == key and true(st, m[3])]:
                    bad('although the keys were not combined successfully with the responder component')
                return [(st, C0)]
            return Base.on_call(self, I, st, op, info, args, obj, fr)
    ctx.rule('R2: an initiated session is opened only in the keying state tested after the last asynchronous step, in the continuation of a signature check by the session certificate over '
             'received parameters + own keying component, and after the keys combined successfully')
    ctx.discharge('R2', R2, calls_to(ctx, OPENED))
    ctx.need('initiator_open_sites', len(seen['open']), 1)

    # ---- R3 certificate and cookie replacement, handshake packets
    class R3(Base):

        def on_eq(self, I, st, op, info, args, obj, fr):
            vs = [I.load(st, a[1], op, fr) if a[0] == 'addr' and I.tracked_place(a[1]) else a for a in args]
            if any(self.content_of(st, v, (COOKIE,)) for v in vs):
                s = I.retsym(st, op, fr, info)
                self.mark(st, ('eq' if info['q'].endswith('==') else 'ne', C0, tuple(vs), s))
                return [(st, s)]
        event_calls = dict(Base.event_calls, **{'std::operator!=': on_eq, 'std::operator==': on_eq})

        def events(self):
            return Base.events(self) | {'rtmfp::Session::Session'}

        def deep(self, I, st, a):
            a = Base.deep(self, I, st, a)
            return a[1] if a[0] == 'at' else a

        def on_store(self, I, st, p, v, op, fr):
            if p[0] != 'F' or p[2] not in (CERT, COOKIE) or (op.info or {}).get('init'):
                return
            o = p[1]
            if o[0] == 's' and o[1] == 'new':
                return
            if p[2] == CERT:
                seen['cert'].add((fr.fn.key, op.l))
                if not state_is(st, o, IHELLO, KEYING):
                    I.fail(fr, op.l, 'the certificate of a session that may be past its handshake is replaced')
                if not [m for m in self.marks(st, 'authentic') if m[1] == v]:
                    I.fail(fr, op.l, 'a certificate not reported authentic becomes the session\'s certificate')
            else:
                seen['cookie'].add((fr.fn.key, op.l))
                if not state_is(st, o, IHELLO, KEYING):
                    I.fail(fr, op.l, 'the cookie is replaced in a state not known to be a handshake state')
                if [m for m in self.marks(st, 'authentic')]:
                    return
                if not state_is(st, o, KEYING):
                    I.fail(fr, op.l, 'the cookie is replaced while no keying was sent')
                cur = {st.mem[p]} if p in st.mem else set()
                hit = [m for m in self.marks(st, 'ne') if set(m[2]) & cur and false(st, m[3])] + [m for m in self.marks(st, 'eq') if set(m[2]) & cur and true(st, m[3])]
                if not hit:
                    I.fail(fr, op.l, 'the cookie is replaced without a match of the old cookie in the reply')
                if not any(q[0] == 'F' and q[1] == o and q[2] == CHANGED for q in st.mem) or not self.marks(st, 'once'):
                    I.fail(fr, op.l, 'the cookie may be replaced more than once')

        def on_branch(self, I, st, v, truth, b, fr):
            for q, x in st.mem.items():
                if q[0] == 'F' and q[2] == CHANGED and psa.mknz(x) in (v, psa.mknot(v)) and false(st, x):
                    self.mark(st, ('once', q[1], (), C1))
    ctx.rule('R3: the session certificate is replaced only during the handshake and only by a certificate reported authentic; the cookie is replaced in the keying state at most once and only when the reply repeats the current cookie')
    ctx.discharge('R3', R3, stores_to(ctx, {CERT, COOKIE}))
    ctx.need('certificate_stores', len(seen['cert']), 1)
    ctx.need('cookie_stores', len(seen['cookie']), 2)

    class R4(Base):
        def on_send(self, I, st, op, info, args, obj, fr):
            if len(args) >= 2 and args[1] == C0 or base_q(info['q']).endswith('sendIHello'):
                ss = [q for q, v in st.mem.items() if q[0] == 'F' and q[2] == STATE]
                seen['send'].add((fr.fn.key, op.l))
                if not any(state_is(st, q[1], IHELLO) or state_is(st, q[1], KEYING) for q in ss):
                    I.fail(fr, op.l, 'a handshake packet is sent for a session not known to be in the handshake state that sends it')
            return [(st, C0)]
        event_calls = {'rtmfp::StartupSession::sendPacket': on_send, 'rtmfp::RTMFP::sendIHello': on_send}
    ctx.rule('R4: handshake packets of a session (far session id 0) are sent only after testing that it is in the hello or keying state at that time')
    starts = {k for k in calls_to(ctx, 'rtmfp::StartupSession::sendPacket', 'rtmfp::RTMFP::sendIHello') if ctx.ir.fn(k).file.endswith('/Session.cpp')}
    ctx.discharge('R4', R4, starts)
    ctx.need('handshake_sends', len(seen['send']), 2)

    class R5(Base):
        def remember(self, v):
            return v[0] == 'op' and v[1] == '==' and (v[2][0] == 's' or v[3][0] == 's')

        def on_bind(self, I, st, op, info, args, obj, fr):
            seen['bind'].add((fr.fn.key, op.l))
            f = args[0]
            o = [v for q, v in st.mem.items() if q[0] == 'F' and q[2] == FOPENING]
            bound = [obj] + [v for q, v in st.mem.items() if q[0] == 'F' and q[2] == FSESSION]
            if any(false(st, v) or v == obj for v in o):
                return [(st, C0)]
            if any(x[1] == '==' and t and x[2] in o + bound and x[3] in o + bound and x[2] != x[3] for x, t in self.compared(st)):
                return [(st, C0)]
            if [m for m in self.marks(st, 'selected') if m[2] and m[2][0] != C0 and true(st, m[3])]:
                return [(st, C0)]
            I.fail(fr, op.l, 'a flow is bound to a session that is not the one opened for it and whose certificate was not found to match the flow\'s endpoint discriminator')
            return [(st, C0)]
        event_calls = dict(Base.event_calls, **{'rtmfp::Session::bindFlow': on_bind})
    ctx.rule('R5: a flow still waiting is bound only to the session opened for it or to one whose certificate is selected by the flow\'s endpoint discriminator')
    ctx.discharge('R5', R5, calls_to(ctx, 'rtmfp::Session::bindFlow'))
    ctx.need('flow_bindings', len(seen['bind']), 1)
