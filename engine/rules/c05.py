"""A responder opens a session only for a proven, authenticated initiator."""
import psa
from lib import *

EXPLANATION = ('Path-sensitive typestate analysis of every call that opens a session created with the responder role. From the handler of an initiator keying message through '
               'every asynchronous continuation, the values checked (cookie, address, certificate, signed bytes, signature, keying component) are followed as terms; at the opening call '
               'the marks left by the checks must be present, must have succeeded and must be about the same values. Marks about shutdown and competing sessions are forgotten at each '
               'asynchronous boundary. checkCookie itself is analysed for what each result implies.')
OPENED = 'rtmfp::Session::setOpen'


def run(ctx):
    ROLE = field(ctx, 'Session::m_role')
    RESP = const(ctx, 'HEADER_MODE_RESPONDER')
    SHUT = field(ctx, 'RTMFP::m_shutdown')
    COOKIE_OK, COOKIE_BAD = const(ctx, 'COOKIE_OK'), const(ctx, 'COOKIE_BAD')
    STATE = field(ctx, 'Session::m_state')
    handler = ctx.ir.one('rtmfp::RTMFP::onIIKeying')
    ctx.ir.one('rtmfp::RTMFP::checkCookie')
    ctx.ir.one('rtmfp::Session::setOpen')
    np = len(handler.params)
    A = lambda i: ('s', 'arg', i)
    # the handler's parameters by position: isid, (cookie,len), (cert,len), (skic,len), (signed,len), (sig,len), interface, addr
    if np != 13:
        raise AnalysisError('the initiator keying handler no longer has the 13 parameters known to this rule')
    seen = set()
    evs = set()
    tracked = set([ROLE, SHUT, STATE])
    for f in ctx.ir.fields:
        if '(anonymous namespace)::' in f and f.startswith('com::zenomt::rtmfp::') and ctx.ir.fclass(f) == 'src/RTMFP.cpp':
            tracked.add(f)
    for s in ('Session::m_cryptoCert', 'Session::m_skic', 'Session::m_destAddr', 'Session::m_destInterfaceID', 'ISession::m_cryptoKey'):
        tracked.add(field(ctx, s))
    CERT, SKIC, DADDR = field(ctx, 'Session::m_cryptoCert'), field(ctx, 'Session::m_skic'), field(ctx, 'Session::m_destAddr')
    KEY = field(ctx, 'ISession::m_cryptoKey')

    def contents(v, p, n):
        """is v a byte string made from parameters p and p+n?"""
        return v[0] == 'mk' and len(v) >= 3 and v[1] == A(p) and v[2] == psa.mkop('+', A(p), A(p + 1))

    def data(v, p):
        return v == A(p) or (v[0] == 'op' and v[1] in ('call.data', 'call.begin') and contents(v[2], p, 1))

    def size(v, p):
        return v == A(p + 1) or (v[0] == 'op' and v[1] == 'call.size' and contents(v[2], p, 1))

    TR = frozenset(tracked)

    class Cl(Watch):
        tracked = TR
        opaque = frozenset(['rtmfp::Address'])
        private = frozenset(f for f in TR if '(anonymous namespace)::' in f)
        observe = {'rtmfp::RTMFP::checkCookie': 'cookie', 'rtmfp::ICryptoAdapter::decodeCertificate': 'cert',
                   'rtmfp::RTMFP::tryRIKeyingRetransmit': 'rtx', 'rtmfp::RTMFP::findOpenSessionByAddress': 'open', 'rtmfp::RTMFP::findOpeningSessionByAddress': 'opening',
                   'rtmfp::ICryptoAdapter::checkNearWinsGlare': 'glare', 'rtmfp::CryptoCert::doesCertOverrideSession': 'override', 'rtmfp::Session::abort': 'abort',
                   'rtmfp::SessionCryptoKey::generateResponderKeyingComponent': 'keyed'}
        results = {'cookie': (COOKIE_BAD, COOKIE_OK)}
        epoch = ('shut', 'rtx', 'open', 'opening', 'glare', 'override', 'abort')
        deferred = {'rtmfp::CryptoCert::isAuthentic': 'authentic', 'rtmfp::CryptoCert::checkSignature': 'signed'}

        def events(self):
            return Watch.events(self) | {'rtmfp::Session::Session'}

        def on_load(self, I, st, p, op, fr):
            if p[0] == 'F' and p[2] == SHUT:
                v = st.mem.get(p) or I.fresh(st, 'bool', op, fr)
                st.mem[p] = v
                self.mark(st, ('shut', p[1], (), v))
                return v

        def on_open(self, I, st, op, info, args, obj, fr):
            role = st.mem.get(('F', obj, ROLE)) if obj else None
            st_ = st.mem.get(('F', obj, STATE)) if obj else None
            # only a session made in this analysis is a responder's; all others are the initiator's (other property)
            if not (obj and obj[0] == 's' and obj[1] == 'new'):
                return [(st, C0)]
            seen.add((fr.fn.key, op.l))
            bad = lambda m: I.fail(fr, op.l, 'a responder session is opened ' + m)
            if role != ('c', RESP):
                bad('without the responder role')
            ck = [m for m in self.marks(st, 'cookie') if st.rng(m[3])[:2] == (COOKIE_OK, COOKIE_OK) and m[2][:3] == (A(1), A(2), A(12))]
            if not ck:
                bad('on a path where the received cookie was not found valid for the source address')
            certs = [m for m in self.marks(st, 'cert') if m[2][:2] == (A(3), A(4)) and true(st, m[3])]
            if not certs:
                bad('on a path where the received certificate was not decoded successfully')
                return [(st, C0)]
            cs = {m[3] for m in certs}
            if not [m for m in self.marks(st, 'authentic') if m[1] in cs]:
                bad('outside the continuation of a successful authenticity check of the received certificate')
            if not [m for m in self.marks(st, 'signed') if m[1] in cs and data(m[2][0], 7) and size(m[2][1], 7) and data(m[2][2], 9) and size(m[2][3], 9)]:
                bad('outside the continuation of a successful signature check, by the received certificate, of the received signed parameters')
            ks = [m for m in self.marks(st, 'keyed') if m[2][0] in cs and data(m[2][1], 5) and size(m[2][2], 5) and true(st, m[3])]
            if not ks:
                bad('without session keys successfully derived from the received keying component for the received certificate')
            elif st.mem.get(('F', obj, KEY)) not in [m[1] for m in ks]:
                bad('with a session key other than the one that was keyed')
            if st.mem.get(('F', obj, CERT)) not in cs:
                bad('with a certificate other than the verified one')
            sk = st.mem.get(('F', obj, SKIC))
            if sk is None or not contents(sk, 5, 6):
                bad('without remembering the keying component it answers')
            da = st.mem.get(('F', obj, DADDR))
            if da is None or da[0] != 'mk' or da[1] != A(12):
                bad('to an address other than the source of the keying message')
            if not any(false(st, m[3]) for m in self.marks(st, 'shut')):
                bad('without testing for shutdown after the last asynchronous step')
            if not [m for m in self.marks(st, 'rtx') if false(st, m[3])]:
                bad('without testing, after the last asynchronous step, whether this handshake already has a session')
            op_ = self.marks(st, 'open')
            if not op_ or not all(false(st, m[3]) or ([o for o in self.marks(st, 'override') if true(st, o[3])] and [a for a in self.marks(st, 'abort') if a[1] == m[3]]) for m in op_):
                bad('while another session to the same address may be open that the certificate does not override or that was not ended')
            og = self.marks(st, 'opening')
            if not og or not all(false(st, m[3]) or [g for g in self.marks(st, 'glare') if false(st, g[3]) and g[2][0] in cs] for m in og):
                bad('although a simultaneous open of ours may have won')
            return [(st, C0)]
        event_calls = {OPENED: on_open}

    starts = calls_to(ctx, OPENED)
    ctx.rule('R1: at every call opening a responder session: cookie valid for the source address; certificate decoded; inside the continuations of isAuthentic and of checkSignature on that '
             'certificate over the received parameters and signature; keys derived from the received component with that certificate; session holds that key, certificate, component and address; '
             'after the last asynchronous step shutdown, retransmission, open-session and glare tests were made')
    ctx.discharge('R1', Cl, starts)
    ctx.need('responder_open_sites', len(seen), 1)
    cookie_rule(ctx)


def cookie_rule(ctx):
    """what each result of checkCookie implies"""
    fn = ctx.ir.one('rtmfp::RTMFP::checkCookie')
    BAD, MIS, OK = const(ctx, 'COOKIE_BAD'), const(ctx, 'COOKIE_MISMATCH'), const(ctx, 'COOKIE_OK')
    ctx.rule('R2: checkCookie returns OK only if the length was exact, the age was within the lifetime in both directions, and both keyed hashes compared equal, the second including the address')
    LIFE = const(ctx, 'MAX_COOKIE_LIFETIME')
    SECRET = field(ctx, 'RTMFP::m_secret')
    A = lambda i: ('s', 'arg', i)
    rets = [0]

    class Cl(Watch):
        observe = {'VLU::parse': 'vlu', 'rtmfp::VLU::parse': 'vlu', 'rtmfp::ICryptoAdapter::cryptoHash256': 'hash', 'memcmp': 'cmp', 'rtmfp::RTMFP::getInstanceAge': 'age', 'rtmfp::Address::encode': 'addr'}

        def remember(self, v):
            return v[0] == 'op' and v[1] in ('==', '<')

        def on_call(self, I, st, op, info, args, obj, fr):
            q = base_q(info['q'])
            if q.startswith('std::vector') and q.endswith('::insert') and len(args) >= 3:
                self.mark(st, ('ins', obj or C0, (args[1], args[2]), C1))
                return None
            return Watch.on_call(self, I, st, op, info, args, obj, fr)

        def on_exit(self, I, st, rv, fr):
            if fr.fn.key != fn.key:
                return
            rets[0] += 1
            if rv is None or st.rng(rv)[0] != st.rng(rv)[1]:
                I.fail(fr, fr.fn.line, 'the cookie check returns a value that is not one of its constants')
                return
            r = st.rng(rv)[0]
            bad = lambda m: I.fail(fr, fr.fn.line, 'the cookie check can answer %s %s' % ('valid' if r == OK else 'address changed', m))
            if r == BAD:
                return
            v = self.marks(st, 'vlu')
            if not v or not true(st, v[0][3]):
                bad('although its time field did not decode')
            # equality of the length with a sum that involves the decoded length
            cs = self.compared(st)
            used = v[0][3] if v else None
            if not any(x[1] == '==' and t and A(1) in psa.syms(x, set()) and used in psa.syms(x, set()) for x, t in cs):
                bad('without an exact test of the length')
            ages = {m[3] for m in self.marks(st, 'age')}
            lt = [(x, t) for x, t in cs if x[1] == '<' and psa.syms(x, set()) & ages]
            if not any(x[2][0] != 'c' and x[3][0] != 'c' for x, t in lt):
                bad('without a test that its time is not in the future')
            if not any(x[2][0] == 'c' and x[2][1] <= LIFE and not t or x[3][0] == 'c' and x[3][1] <= LIFE + 1 and t for x, t in lt):
                bad('without a test of its age against the lifetime')
            eq = [m for m in self.marks(st, 'cmp') if st.rng(m[3])[:2] == (0, 0)]
            if len({m[2] for m in eq}) < (2 if r == OK else 1):
                bad('although a keyed hash did not compare equal')
            for m in eq:
                if not any(A(0) in psa.syms(a, set()) for a in m[2][:2]):
                    bad('from a comparison that does not involve the received cookie')
                if m[2][2][0] != 'c' or m[2][2][1] < 32:
                    bad('from a comparison of less than the whole hash')
            hs = self.marks(st, 'hash')
            if len(hs) < (2 if r == OK else 1):
                bad('without hashing')
            ins = self.marks(st, 'ins')
            if not any(('F', ('s', 'this', 0), SECRET) in flat(m) for m in ins):
                bad('from a hash that does not include the secret')
            if r == OK and not self.marks(st, 'addr'):
                bad('from a hash that does not include the address')
    cl = Cl()
    I = psa.Interp(ctx.ir, cl)
    I.callers = ctx.callers
    I.entry(fn)
    for k, l, m, s in I.failures:
        ctx.viol('R2', k, l, m, s)
    ctx.need('cookie_check_outcomes', rets[0], 3)


def flat(v, out=None):
    out = set() if out is None else out
    if isinstance(v, tuple):
        out.add(v)
        for x in v:
            flat(x, out)
    return out
