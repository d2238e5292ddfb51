"""Only intact, fresh, correctly keyed packets are accepted by the Flash crypto."""
import psa
from psa import C0, C1
from lib import *

EXPLANATION = ('Path-sensitive analysis of the packet decryption of the Flash session key (every path through it and its helpers, with facts about the negotiated requirements, results of the cryptographic calls and '
               'comparisons kept per path): each path that reports success carries the successful verification steps its negotiated requirements call for, over the right bytes, and records the sequence number; '
               'each path that reports failure leaves the replay state alone. Effect scan of every other use of the replay state, and of what the session does with a packet whose decryption failed.')

P = 'rtmfp::'


def lin(v):
    """linear form {atom: coefficient}; the constant under None"""
    if v[0] == 'c':
        return {None: v[1]}
    if v[0] == 'op' and v[1] in '+-':
        a, b = lin(v[2]), lin(v[3])
        r = dict(a)
        for k, c in b.items():
            r[k] = r.get(k, 0) + (c if v[1] == '+' else -c)
        return {k: c for k, c in r.items() if c}
    if v[0] == 'addr' and v[1][0] == 'E':
        pass
    return {v: 1}


def same(a, b):
    x, y = ({k: c for k, c in lin(v).items() if c} for v in (a, b))
    return x == y


def plus(a, b):
    return ('op', '+', a, b)


def run(ctx):
    ir = ctx.ir
    COMPLETE, SREQ, HREQ = (field(ctx, 'FlashCryptoKey::' + f) for f in ('m_complete', 'm_sseqRecvRequired', 'm_hmacRecvRequired'))
    LEN, SEQS, RXKEY, RXMAC = (field(ctx, 'FlashCryptoKey::' + f) for f in ('m_rxHMACLength', 'm_rxSequenceNumbers', 'm_rxKey', 'm_rxHMAC'))
    GAP = const(ctx, 'MAX_SSEQ_GAP')
    roots = named(ctx, P + 'FlashCryptoKey::decrypt')
    ctx.need('decryption_functions', len(roots), 1)
    seen = dict(ok=0, fail=0, adds=set(), calls=set())

    ctx.rule('R1: decryption reports success only on paths where the packet was decrypted with the session key (the default key before the key is complete) and its HMAC, when required, or else its checksum was compared equal over the whole payload')
    ctx.rule('R2: with sequence numbers required, success also needs the number parsed, absent from the numbers seen, then recorded together with everything more than the allowed gap below it')
    ctx.rule('R3: no path that reports failure changes the numbers seen, and nothing else in the program changes them')

    class R(Watch):
        tracked = frozenset([COMPLETE, SREQ, HREQ, LEN, RXKEY, RXMAC])
        private = frozenset([COMPLETE, SREQ, HREQ, LEN, RXKEY, RXMAC, SEQS])
        observe = {P + 'HMACSHA256_Context::compute': 'mac', P + 'AES_Context::crypt_cbc': 'aes',
                   P + 'FlashCryptoAdapter::defaultDecrypt_cbc': 'default', P + 'in_cksum': 'cksum', 'in_cksum': 'cksum',
                   'memcmp': 'cmp', 'std::memcmp': 'cmp', 'CRYPTO_memcmp': 'cmp'}

        def on_enter(self, I, st, fr):
            if fr.fn.key in roots:
                for f in (COMPLETE, SREQ, HREQ, LEN):
                    pass

        def fld(self, st, f):
            r = [x for q, x in st.mem.items() if q[0] == 'F' and q[2] == f]
            return r[0] if r else None

        def remember(self, v):
            return v[0] == 'op' and v[1] in ('==', '<', '<=')

        def on_call(self, I, st, op, info, args, obj, fr):
            q = base_q(info['q'])
            if q.endswith('VLU::parse') or q.endswith('VLU::parseField'):
                seen['calls'].add((fr.fn.key, op.l))
                I.unknown_call(st, ir.targets(info), args, obj, info, op, fr)
                rv = I.retsym(st, op, fr, info)
                out = st.mem.get(args[2][1]) if len(args) > 2 and args[2][0] == 'addr' else None
                if out is None and len(args) > 2 and args[2][0] == 'addr':
                    out = I.fresh(st, 'parsed', op, fr)
                    st.mem[args[2][1]] = out
                self.mark(st, ('parse', C0, (args[0], out if out is not None else C0), rv))
                return [(st, rv)]
            pl = info.get('obj')
            if pl and pl[0] == 'fld' and pl[2] == SEQS:
                n = q.rsplit('::', 1)[-1]
                seen['calls'].add((fr.fn.key, op.l))
                vals = tuple(self.deep(I, st, a) for a in args)
                vals = tuple(a[1] if a[0] == 'at' else a for a in vals)
                rv = I.fresh(st, 'enum', op, fr, (0, 1)) if n == 'contains' else C0
                if not info.get('const') and n != 'contains':
                    seen['adds'].add((fr.fn.key, op.l))
                    self.drop(st, lambda m: False)
                    self.mark(st, ('change', C0, (n,) + vals, C1))
                else:
                    self.mark(st, (n, C0, vals, rv))
                return [(st, rv)]
            return Watch.on_call(self, I, st, op, info, args, obj, fr)


        def inline(self, I, key, info):
            q = base_q(info['q'])
            return q not in self.observe and Watch.inline(self, I, key, info)

        def on_exit(self, I, st, rv, fr):
            if fr.fn.key not in roots or fr.up is not None:
                return
            f = lambda m: I.fail(fr, fr.fn.line, m)
            changes = self.marks(st, 'change')
            if rv is not None and false(st, rv):
                seen['fail'] += 1
                if changes:
                    f('a packet is refused although its sequence number was already recorded')
                return
            self.nevents += 1
            seen['ok'] += 1
            c, h, s = self.fld(st, COMPLETE), self.fld(st, HREQ), self.fld(st, SREQ)
            known = lambda x, w: x is not None and (true(st, x) if w else false(st, x))
            arg = lambda i: ('s', 'arg', i)
            done = [m for m in self.marks(st, 'aes') if self.is_field(st, m[1], RXKEY) and true(st, m[3]) and known(c, True)]
            done += [m for m in self.marks(st, 'default') if true(st, m[3]) and known(c, False)]
            if not done:
                return f('a packet is accepted without having been decrypted with the key for the state of the session')
            d = done[-1]
            if d[2][1] != arg(3) or d[2][0] != arg(0):
                return f('a packet is accepted although what was decrypted is not the packet received')
            n = d[2][2]
            if not known(c, False) and not known(h, False):
                if not self.mac_ok(st, n):
                    f('a packet is accepted although an HMAC is required and was not verified over the whole packet')
            elif not self.mac_ok(st, n) and not self.cksum_ok(st, n):
                f('a packet is accepted without its checksum having been verified over the whole payload')
            if not known(c, False) and not known(s, False):
                ps = [m for m in self.marks(st, 'parse') if true(st, m[3]) and m[2][0] == arg(0)]
                num = ps[0][2][1] if ps else None
                if num is None:
                    return f('a packet is accepted although its sequence number was not read')
                if not any(false(st, m[3]) and m[2] == (num,) for m in self.marks(st, 'contains')):
                    return f('a packet is accepted although its sequence number was not found to be new')
                if not any(m[2] == ('add', num) or m[2] == ('add', num, num) for m in changes):
                    return f('a packet is accepted and its sequence number is not recorded')
                old = [m for m in changes if len(m[2]) == 3 and m[2][1] == C0 and same(m[2][2], ('op', '-', num, ('c', GAP)))]
                small = st.rng(num)[1] <= GAP or any((v == ('op', '<', ('c', GAP), num) and not t) or (v == ('op', '<=', num, ('c', GAP)) and t) for v, t in self.compared(st))
                if not old and not small:
                    f('a packet is accepted and the numbers too far below its own are not closed')

        def is_field(self, st, o, f):
            return any(q[0] == 'F' and q[2] == f and x == o for q, x in st.mem.items()) or o[0] == 'fld' and o[2] == f

        def mac_ok(self, st, n):
            arg = lambda i: ('s', 'arg', i)
            L = self.fld(st, LEN)
            for m in self.marks(st, 'mac'):
                if true(st, m[3]) and self.is_field(st, m[1], RXMAC) and m[2][1] == arg(3) and same(m[2][2], n):
                    for c in self.marks(st, 'cmp'):
                        if false(st, c[3]) and L is not None and c[2][2] == L and same(plus(n, L), arg(4)):
                            a, b = c[2][0], c[2][1]
                            md = m[2][0]
                            if (a == md and same(b, plus(arg(3), n))) or (b == md and same(a, plus(arg(3), n))):
                                return True
            return False

        def cksum_ok(self, st, n):
            arg = lambda i: ('s', 'arg', i)
            starts = [C0] + [m[3] for m in self.marks(st, 'parse') if true(st, m[3]) and m[2][0] == arg(0)]
            for m in self.marks(st, 'cksum'):
                p, l = m[2]
                if not same(plus(p, l), plus(arg(0), n)):
                    continue
                if not any(same(p, plus(plus(arg(0), s), ('c', 2))) for s in starts[-1:]):
                    continue
                for v, t in self.compared(st):
                    if t and v[1] == '==' and m[3] in v[2:] and v[2] != v[3]:
                        return True
            return False
    for k in roots:
        run_root(ctx, 'R1', R, k)
    ctx.need('accepting_paths', seen['ok'], 3)
    ctx.need('refusing_paths', seen['fail'], 5)

    # ---- R3 rest
    for fn, o in sites(ctx, lambda fn, o: o.k == 'call' and o.info.get('obj') and o.info['obj'][0] == 'fld' and o.info['obj'][2] == SEQS):
        n = base_q(o.info['q']).rsplit('::', 1)[-1]
        if (fn.key, o.l) not in seen['calls'] and n not in ('contains', 'size', 'empty', 'isEmpty', 'describe') and not o.info.get('const'):
            ctx.viol('R3', fn, o.l, 'the sequence numbers seen are changed outside of accepting a packet')
    ctx.need('replay_state_changes', len(seen['adds']), 1)

    # ---- R4
    ctx.rule('R4: the session looks into a packet only on paths where its decryption reported success')
    used = set()

    class R4(Watch):
        observe = {P + 'SessionCryptoKey::decrypt': 'dec'}

        def on_call(self, I, st, op, info, args, obj, fr):
            q = base_q(info['q'])
            if q.rsplit('::', 1)[-1] in ('onChunk', 'onPacketHeader', 'onPacketAfterChunks') and q.startswith(P):
                self.nevents += 1
                used.add((fr.fn.key, op.l))
                if not any(true(st, m[3]) for m in self.marks(st, 'dec')):
                    I.fail(fr, op.l, 'the content of a packet is used although its decryption did not report success')
            return Watch.on_call(self, I, st, op, info, args, obj, fr)
    ctx.discharge('R4', R4, calls_to(ctx, P + 'SessionCryptoKey::decrypt'))
    ctx.need('packet_content_uses', len(used), 2)
