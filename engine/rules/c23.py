"""Keying fails closed."""
import psa
from psa import C0, C1
from lib import *

EXPLANATION = ('Path-sensitive analysis of the keying functions of the Flash session key and their helpers: every path on which the key is marked complete carries the successful result of every negotiation step, '
               'and every path reports success exactly when it completed the key. The same for the public key checks of the Diffie-Hellman context and for the keying component the initiator sends.')

P = 'rtmfp::'


def run(ctx):
    ir = ctx.ir
    K = lambda f: field(ctx, 'FlashCryptoKey::' + f)
    COMPLETE, SREQ, HREQ, SSND, HSND = K('m_complete'), K('m_sseqRecvRequired'), K('m_hmacRecvRequired'), K('m_sseqSendAlways'), K('m_hmacSendAlways')
    RXLEN, GROUP, NEEDED, SECRET = K('m_rxHMACLength'), K('m_groupID'), K('m_publicKeyNeeded'), K('m_dh_secret')
    TXK, RXK, TXM, RXM = K('m_txKey'), K('m_rxKey'), K('m_txHMAC'), K('m_rxHMAC')
    SND, SOR, REQ = (const(ctx, 'KEYING_NEGOTIATE_FLAG_' + x) for x in ('SND', 'SOR', 'REQ'))
    OPT = {const(ctx, 'KEYING_OPTION_SSEQ_NEGOTIATION'): 'sseq', const(ctx, 'KEYING_OPTION_HMAC_NEGOTIATION'): 'hmac'}
    MIN, MAX = const(ctx, 'MIN_HMAC_LENGTH'), const(ctx, 'MAX_HMAC_LENGTH')
    combine = named(ctx, P + 'FlashCryptoKey::initiatorCombineResponderKeyingComponent')
    respond = named(ctx, P + 'FlashCryptoKey::generateResponderKeyingComponent')
    initiate = named(ctx, P + 'FlashCryptoKey::generateInitiatorKeyingComponent')
    ctx.need('keying_functions', len(combine + respond + initiate), 3)
    file = ir.fn(combine[0]).file
    cnt = dict(done=0, refused=0, key=set(), init=0)

    ctx.rule('R1: where a key becomes complete: flags for HMAC and for sequence numbers were found in the far component and satisfy what is required locally, nothing required was dropped, what the peer requires is switched on, the HMAC length is within limits')
    ctx.rule('R2: ... the group is supported, a shared secret was computed from a far public key, both ciphers and the HMACs in use were set up with the derived keys, and the shared secret was overwritten and cleared')
    ctx.rule('R3: a keying step reports success exactly when it completed the key; a complete key is never set up again by a second Responder Keying')

    NEG = frozenset([SREQ, HREQ, SSND, HSND])

    class R(Watch):
        tracked = frozenset([COMPLETE, SREQ, HREQ, SSND, HSND, RXLEN, GROUP, NEEDED, TXK, RXK, TXM, RXM])
        private = tracked | {SECRET}
        observe = {P + 'AES_Context::init': 'aes', P + 'HMACSHA256_Context::init': 'mac', P + 'DH_Context::init': 'dh',
                   P + 'DH_Context::computeSharedSecret': 'secret', P + 'FlashCryptoAdapter::computeSharedSecret': 'static',
                   P + 'FlashCryptoAdapter::supportsDHGroup': 'supported', P + 'FlashCryptoAdapter::getBestDHGroup': 'best',
                   P + 'FlashCryptoCert::isStatic': 'isstatic', P + 'FlashCryptoCert::getPublicKey': 'pk'}

        def __init__(self, root, part):
            self.root, self.part = root, part
            self.mine = {'sseq': {SREQ, SSND}, 'hmac': {HREQ, HSND}}.get(part, set())

        def fld(self, st, f):
            r = [x for q, x in st.mem.items() if q[0] == 'F' and q[2] == f]
            return r[0] if r else None

        def remember(self, v):
            return v[0] == 'op' and v[1] == '==' and any(x[0] == 'op' and x[1] == '&' for x in v[2:])

        def inline(self, I, key, info):
            if base_q(info['q']) in self.observe:
                return False
            fn = ir.fn(key)
            if fn is not None and fn.file == file and any('&' in p['t'] and not p['t'].startswith('const ') and noref(p['t']) in ('bool', 'unsigned long') for p in fn.params):
                return True
            return Watch.inline(self, I, key, info)

        def events(self):
            return Watch.events(self) if self.part == 'setup' else frozenset()

        def on_enter(self, I, st, fr):
            if fr.up is None:
                for f in (COMPLETE, SREQ, HREQ, SSND, HSND, NEEDED):
                    p = ('F', fr.this, f)
                    v = st.mem.get(p)
                    if v is None:
                        v = ('s', 'bool', 'first ' + f.rsplit('::', 1)[1])
                        st.mem[p] = v
                    self.mark(st, ('first', C0, (f,), v))

        def first(self, st, f):
            return [m[3] for m in self.marks(st, 'first') if m[2][0] == f][0]

        def on_call(self, I, st, op, info, args, obj, fr):
            q = base_q(info['q'])
            pl = info.get('obj')
            if any(a[0] == 'addr' and a[1][0] == 'F' and a[1][2] in NEG - self.mine for a in args):
                # how the other part is negotiated
                I.unknown_call(st, ir.targets(info), args, obj, info, op, fr)
                return [(st, I.retsym(st, op, fr, info))]
            if self.part != 'setup' and q in self.observe:
                return None
            if info.get('t') == 'unsigned char' and any(a[0] == 'c' and a[1] in OPT for a in args) and any(ir.fn(t) is not None and ir.fn(t).file == file for t in ir.targets(info)):
                which = [OPT[a[1]] for a in args if a[0] == 'c' and a[1] in OPT][0]
                I.unknown_call(st, ir.targets(info), args, obj, info, op, fr)
                rv = I.fresh(st, 'flags', op, fr)
                self.mark(st, ('flags ' + which, C0, (), rv))
                return [(st, rv)]
            if pl and pl[0] == 'fld' and pl[2] == SECRET:
                n = q.rsplit('::', 1)[-1]
                if n in ('clear', 'operator=', 'assign', 'resize', 'swap'):
                    if n == 'clear':
                        self.mark(st, ('cleared', C0, (), C1))
                    else:
                        self.drop(st, lambda m: m[0] in ('cleared', 'wiped'))
                if n == 'data':
                    rv = I.fresh(st, 'data', op, fr)
                    self.mark(st, ('data', C0, (), rv))
                    return [(st, rv)]
            if q.rsplit('::', 1)[-1] in ('memset', 'memset_s', 'explicit_bzero', 'OPENSSL_cleanse', 'bzero') and args and any(m[3] == args[0] for m in self.marks(st, 'data')) and not self.marks(st, 'cleared'):
                self.mark(st, ('wiped', C0, (), C1))
            if q in (P + 'DH_Context::computeSharedSecret', P + 'FlashCryptoAdapter::computeSharedSecret'):
                self.drop(st, lambda m: m[0] in ('cleared', 'wiped'))
                if not any(a[0] == 'addr' and a[1][0] == 'F' and a[1][2] == SECRET for a in args):
                    return None
            if q == P + 'FlashCryptoAdapter::hmacSHA256' and args and args[0][0] == 'addr' and args[0][1][0] == 'F':
                self.again(I, st, op, fr)
            if q == P + 'HMACSHA256_Context::init' and not (self.holds(st, obj, TXM) or self.holds(st, obj, RXM)):
                return None
            return Watch.on_call(self, I, st, op, info, args, obj, fr)

        def again(self, I, st, op, fr):
            if self.root in combine:
                c = self.first(st, COMPLETE)
                if not false(st, c):
                    I.fail(fr, op.l, 'keys or nonces may be replaced although the key is already complete')

        def on_store(self, I, st, p, v, op, fr):
            if p[0] != 'F':
                return
            if p[2] in (TXK, RXK, TXM, RXM):
                self.again(I, st, op, fr)
            if p[2] == COMPLETE and not false(st, v):
                self.nevents += 1
                cnt['key'].add((fr.fn.key, op.l))
                self.mark(st, ('complete', C0, (), C1))
                cnt['done'] += 1
                for m in self.judge(st):
                    I.fail(fr, op.l, 'the key becomes complete although ' + m)

        def holds(self, st, o, f):
            return o is not None and any(q[0] == 'F' and q[2] == f and x == o for q, x in st.mem.items())

        def known(self, st, v, mask, exact=False):
            """is some bit of mask in v known to be set?"""
            for t, truth in self.compared(st):
                for a, z in ((t[2], t[3]), (t[3], t[2])):
                    if z == C0 and a[0] == 'op' and a[1] == '&' and a[2] == v and a[3][0] == 'c':
                        if not truth and a[3][1] & ~mask == 0:
                            return True
            return False

        def clear(self, st, v, bit):
            for t, truth in self.compared(st):
                for a, z in ((t[2], t[3]), (t[3], t[2])):
                    if z == C0 and a[0] == 'op' and a[1] == '&' and a[2] == v and a[3][0] == 'c':
                        if truth and a[3][1] & bit == bit:
                            return True
            return False

        def judge(self, st):
            for which, rq, sn in (('sseq', SREQ, SSND), ('hmac', HREQ, HSND)):
                if which != self.part:
                    continue
                what = 'sequence numbers' if which == 'sseq' else 'an HMAC'
                fl = self.marks(st, 'flags ' + which)
                if not fl:
                    yield 'what the peer says about sending %s was not read' % what
                    continue
                v = fl[-1][3]
                a, b = self.first(st, rq), self.fld(st, rq)
                c, d = self.first(st, sn), self.fld(st, sn)
                if not false(st, a) and not self.known(st, v, SND | SOR):
                    yield '%s may be required and the peer did not agree to send it' % what
                if b is None or not (b == a or true(st, b) or false(st, a)):
                    yield 'the local requirement of %s may have been dropped' % what
                if d is None or not (d == c or true(st, d) or false(st, c)):
                    yield 'the local choice to send %s may have been dropped' % what
                if not self.clear(st, v, REQ) and not (d is not None and true(st, d)):
                    yield 'the peer may require %s and sending it was not switched on' % what
                if not self.clear(st, v, SND) and not (b is not None and true(st, b)):
                    yield 'the peer may always send %s and receiving it was not switched on' % what
            h = self.fld(st, HREQ)
            if self.part == 'hmac' and (h is None or not false(st, h)):
                l = self.fld(st, RXLEN)
                lo, hi = st.rng(l)[:2] if l is not None else (0, psa.INF)
                if lo < MIN or hi > MAX:
                    yield 'the length of received HMACs was not found within limits'
            if self.part != 'setup':
                return
            g = self.fld(st, GROUP)
            sec = [m for m in self.marks(st, 'secret') + self.marks(st, 'static') if true(st, m[3])]
            if self.root in respond:
                if not any(true(st, m[3]) and m[2][0] == g for m in self.marks(st, 'supported')):
                    yield 'the group was not found to be supported'
                if not sec:
                    yield 'no shared secret was computed from the far public key'
            elif not sec and not false(st, self.first(st, NEEDED)):
                yield 'no shared secret was computed from the far public key'
            for m in sec:
                if m[0] == 'static' and m[2][0] != g:
                    yield 'the shared secret was computed in another group'
            enc = [m for m in self.marks(st, 'aes') if true(st, m[3]) and self.holds(st, m[1], TXK) and true(st, m[2][2])]
            dec = [m for m in self.marks(st, 'aes') if true(st, m[3]) and self.holds(st, m[1], RXK) and false(st, m[2][2])]
            if not enc or not dec:
                yield 'the cipher for %s was not set up' % ('sending' if not enc else 'receiving')
            elif any(e[2][0] == d[2][0] for e in enc for d in dec):
                yield 'both directions use the same key'
            for f, o, what in ((HREQ, RXM, 'received'), (HSND, TXM, 'sent')):
                b = self.fld(st, f)
                if (b is None or not false(st, b)) and not any(true(st, m[3]) and self.holds(st, m[1], o) for m in self.marks(st, 'mac')):
                    yield 'HMACs of %s packets are in use and were not set up' % what
            if not self.marks(st, 'cleared') or not self.marks(st, 'wiped'):
                yield 'the shared secret was not overwritten and cleared'

        def on_exit(self, I, st, rv, fr):
            if fr.up is not None:
                return
            done = bool(self.marks(st, 'complete'))
            if rv is not None and not done and not false(st, rv):
                I.fail(fr, fr.fn.line, 'success is reported although the key was not completed')
            if done and (rv is None or not true(st, rv)):
                I.fail(fr, fr.fn.line, 'failure is reported although the key was completed')
            if not done:
                cnt['refused'] += 1
                c = self.fld(st, COMPLETE)
                if c is None or c != self.first(st, COMPLETE):
                    I.fail(fr, fr.fn.line, 'a failed keying step changes whether the key is complete')
    for k in combine + respond:
        for part in ('sseq', 'hmac', 'setup'):
            run_root(ctx, 'R2' if part == 'setup' else 'R1', lambda: R(k, part), k)
    ctx.need('completing_paths', cnt['done'], 2)
    ctx.need('refusing_paths', cnt['refused'], 8)
    ctx.need('completions', len(cnt['key']), 2)

    # who else completes a key
    for fn, o in sites(ctx, lambda fn, o: o.k == 'store' and o.a[0] == 'fld' and o.a[2] == COMPLETE and o.b != C0):
        if (fn.key, o.l) not in cnt['key']:
            ctx.viol('R3', fn, o.l, 'a key becomes complete outside of keying')

    # ---- R4 initiator's component
    ctx.rule('R4: the initiator sends a keying component only in a group both sides support, with its key exchange set up, and with the shared secret computed or noted as still to be computed')
    best = dict(n=0)

    class R4(R):
        def again(self, *a):
            pass

        def on_exit(self, I, st, rv, fr):
            if fr.up is not None or rv is not None and false(st, rv):
                return
            best['n'] += 1
            g = self.fld(st, GROUP)
            if not any(m[3] == g for m in self.marks(st, 'best')) or st.rng(g)[0] < 0:
                I.fail(fr, fr.fn.line, 'a keying component is sent although no common group was found')
            sec = any(true(st, m[3]) for m in self.marks(st, 'secret') + self.marks(st, 'static'))
            n = self.fld(st, NEEDED)
            if not sec and not (n is not None and true(st, n)):
                I.fail(fr, fr.fn.line, 'a keying component is sent without a shared secret and without noting that one is needed')
            for m in self.marks(st, 'dh'):
                if not true(st, m[3]):
                    I.fail(fr, fr.fn.line, 'a keying component is sent although setting up the key exchange failed')
    for k in initiate:
        run_root(ctx, 'R4', lambda: R4(k, 'setup'), k)
    ctx.need('initiator_component_paths', best['n'], 2)

    # ---- R5
    ctx.rule('R5: a shared secret is computed only from a public key not below 2^24, not above the modulus less 2^24, with at least 16 zeros and 16 ones, and the computation succeeded; a context is ready only with a random exponent')
    MODULUS, EXP = field(ctx, 'DH_Context_OpenSSL::m_modulus'), field(ctx, 'DH_Context_OpenSSL::m_exponent')
    dh = [k for k in ctx.prog.funcs if base_q(ctx.prog.funcs[k]['q']).endswith('DH_Context_OpenSSL::computeSharedSecret')]
    dhi = [k for k in ctx.prog.funcs if base_q(ctx.prog.funcs[k]['q']).endswith('DH_Context_OpenSSL::init')]
    good = dict(n=0, i=0)

    class R5(Watch):
        tracked = frozenset([MODULUS, EXP])
        private = tracked
        observe = {'BN_cmp': 'cmp', 'BN_sub': 'sub', 'BN_mod_exp': 'exp', 'BN_bin2bn': 'bn', 'BN_rand': 'rand'}
        results = {'cmp': (-1, 1)}

        def on_store(self, I, st, p, v, op, fr):
            if p[0] == 'L' and 'delta' in (op.info or {}):
                return I.fresh(st, 'count', op, fr)     # how far it has counted is not followed

        def remember(self, v):
            return v[0] == 'op' and v[1] in ('<', '<=') and any(x[0] == 'c' and x[1] >= 15 for x in v[2:])

        def holds(self, st, o, f):
            return any(q[0] == 'F' and q[2] == f and x == o for q, x in st.mem.items()) or o[0] == 'fld' and o[2] == f

        def on_exit(self, I, st, rv, fr):
            if fr.up is not None or rv is not None and false(st, rv):
                return
            f = lambda m: I.fail(fr, fr.fn.line, m)
            if fr.fn.key in dhi:
                good['i'] += 1
                if not any(true(st, m[3]) for m in self.marks(st, 'rand')):
                    f('a key exchange is ready although no random exponent was made')
                if not any(true(st, m[3]) for m in self.marks(st, 'exp')):
                    f('a key exchange is ready although its public key was not computed')
                return
            good['n'] += 1
            other = [m[3] for m in self.marks(st, 'bn') if m[2][0] == ('s', 'arg', 0)]
            lows = [m for m in self.marks(st, 'cmp') if m[2][0] in other and st.rng(m[3])[0] >= 0 and any(m[2][1] == b[3] for b in self.marks(st, 'bn'))]
            if not lows:
                f('a shared secret is computed from a public key that may be below 2^24')
            subs = [m for m in self.marks(st, 'sub') if true(st, m[3]) and self.holds(st, m[2][1], MODULUS) and any(m[2][2] == b[3] for b in self.marks(st, 'bn'))]
            if not any(m[2][0] in other and st.rng(m[3])[1] <= 0 and any(m[2][1] == s[2][0] for s in subs) for m in self.marks(st, 'cmp')):
                f('a shared secret is computed from a public key that may be too close to the modulus')
            counts = set()
            for v, t in self.compared(st):
                a, b = v[2], v[3]
                if b[0] == 'c' and not t and (v[1] == '<' and b[1] >= 16 or v[1] == '<=' and b[1] >= 15):
                    counts.add(a)
                if a[0] == 'c' and t and (v[1] == '<=' and a[1] >= 16 or v[1] == '<' and a[1] >= 15):
                    counts.add(b)
            if len(counts) < 2:
                f('a shared secret is computed from a public key with too few zeros or ones')
            if not any(true(st, m[3]) and m[2][1] in other and self.holds(st, m[2][2], EXP) and self.holds(st, m[2][3], MODULUS) for m in self.marks(st, 'exp')):
                f('success is reported although the shared secret was not computed')
    for k in dh + dhi:
        run_root(ctx, 'R5', R5, k)
    ctx.need('shared_secret_paths', good['n'], 1)
    ctx.need('key_exchange_ready_paths', good['i'], 1)

    # ---- R6
    ctx.rule('R6: the adapter computes a shared secret with the static key of the group asked for and reports what the key exchange reports')
    lk = dict(n=0)

    class R6(Watch):
        observe = {P + 'DH_Context::computeSharedSecret': 'secret'}

        def on_exit(self, I, st, rv, fr):
            if fr.up is not None or rv is not None and false(st, rv):
                return
            lk['n'] += 1
            if not any(m[3] == rv or true(st, m[3]) for m in self.marks(st, 'secret')):
                I.fail(fr, fr.fn.line, 'success is reported although the shared secret was not computed')
    for k in named(ctx, P + 'FlashCryptoAdapter::computeSharedSecret'):
        run_root(ctx, 'R6', R6, k)
    ctx.need('static_secret_paths', lk['n'], 1)
