"""The peer address changes only after the new address is verified."""
import psa
from lib import *

EXPLANATION = ('Path-sensitive typestate analysis of every store to the address or interface a session sends to: outside the handshake each store must be preceded on every path by a successful comparison '
               'of the received bytes with the check made for exactly the stored address and interface, by a test that its time is newer than the last accepted one and by a freshness test, and the '
               'accepted time is recorded. A must-dataflow shows that the check covers time, interface, address and the secret; every packet of an established session goes to the stored address.')


def run(ctx):
    ir = ctx.ir
    ADDR, IFACE, LAST, STATE = (field(ctx, 'Session::' + f) for f in ('m_destAddr', 'm_destInterfaceID', 'm_mob_rx_ts', 'm_state'))
    SECRET = field(ctx, 'RTMFP::m_secret')
    OPEN, CLOSED = const(ctx, 'S_OPEN'), const(ctx, 'S_CLOSED')
    CHECK = 'rtmfp::Session::makeMobilityCheck'
    seen = dict(addr=set(), iface=set(), handshake=set(), send=set())
    BASE = frozenset([ADDR, IFACE])

    class Mob(Watch):
        tracked = frozenset([ADDR, IFACE, LAST, STATE])
        opaque = frozenset(['rtmfp::Address'])
        private = frozenset([LAST])
        observe = {'rtmfp::RTMFP::getInstanceAge': 'age'}

        def enum_range(self, f):
            return (0, CLOSED) if f == STATE else None

        def on_check(self, I, st, op, info, args, obj, fr):
            s = I.fresh(st, 'chk', op, fr)
            self.mark(st, ('made', obj or C0, tuple(args), s))
            return [(st, s)]

        def events(self):
            return Watch.events(self) | {'rtmfp::Session::Session'}

        def content(self, I, st, a):
            return st.mem.get(a[1], a) if a[0] == 'addr' else st.mem.get(('D', a), a)

        def on_eq(self, I, st, op, info, args, obj, fr):
            vs = [self.content(I, st, a) for a in args]
            made = [m for m in self.marks(st, 'made')]
            hit = [m for m in made if m[3] in vs]
            if hit and len(vs) == 2:
                other = vs[0] if vs[1] == hit[0][3] else vs[1]
                if other != hit[0][3]:
                    s = I.fresh(st, 'bool', op, fr)
                    self.mark(st, ('eq' if info['q'].endswith('==') else 'ne', hit[0][1], hit[0][2], s))
                    return [(st, s)]
            return None
        event_calls = {CHECK: on_check, 'std::operator!=': on_eq, 'std::operator==': on_eq}

        def on_memcmp(self, I, st, op, info, args, obj, fr):
            if len(args) == 3:
                for m in self.marks(st, 'made'):
                    d, n = ('op', 'call.data', m[3], C0), ('op', 'call.size', m[3], C0)
                    if d in args[:2] and args[2] == n:
                        s = I.fresh(st, 'ret', op, fr)
                        self.mark(st, ('ne', m[1], m[2], s))
                        return [(st, s)]
            return None
        event_calls['memcmp'] = on_memcmp

        def on_branch(self, I, st, v, truth, b, fr):
            if v[0] == 'not':
                v, truth = v[1], not truth
            if v[0] != 'op' or v[1] not in ('<', '=='):
                return
            a, c = v[2], v[3]
            ages = {m[3] for m in self.marks(st, 'age')}
            for q, x in list(st.mem.items()):
                if q[0] == 'F' and q[2] == LAST and v[1] == '<' and truth and a == x:
                    self.mark(st, ('newer', q[1], (c,), C1))
            if v[1] == '<' and not truth:
                # not (ts + k < age)      not (k < age - ts)
                if a[0] == 'op' and a[1] == '+' and a[3][0] == 'c' and 0 < a[3][1] <= 600 and c in ages:
                    self.mark(st, ('fresh', C0, (a[2],), C1))
                if a[0] == 'c' and 0 < a[1] <= 600 and c[0] == 'op' and c[1] == '-' and c[2] in ages:
                    self.mark(st, ('fresh', C0, (c[3],), C1))
            if v[1] == '<' and truth:
                # age < ts + k      age - ts < k
                if c[0] == 'op' and c[1] == '+' and c[3][0] == 'c' and 0 < c[3][1] <= 600 and a in ages:
                    self.mark(st, ('fresh', C0, (c[2],), C1))
                if c[0] == 'c' and 0 < c[1] <= 600 and a[0] == 'op' and a[1] == '-' and a[2] in ages:
                    self.mark(st, ('fresh', C0, (a[3],), C1))

        def verified(self, st, o):
            """(time, interface, address) of a check known to match"""
            out = [m[2] for m in self.marks(st, 'ne') if false(st, m[3]) and m[1] == o]
            return out + [m[2] for m in self.marks(st, 'eq') if true(st, m[3]) and m[1] == o]

        def handshake(self, st, o):
            if o[0] == 's' and o[1] == 'new':
                return True
            v = st.mem.get(('F', o, STATE))
            return v is not None and st.rng(v)[1] < OPEN

        def moved(self, I, st, o, what, val, op, fr):
            seen[what].add((fr.fn.key, op.l))
            if self.handshake(st, o):
                seen['handshake'].add((fr.fn.key, op.l))
                return
            name = {'addr': 'address', 'iface': 'interface'}[what]
            ok = [a for a in self.verified(st, o) if val is not None and (val == a[1] if what == 'iface' else val == a[2] or [m for m in self.marks(st, 'addrof') if m[1] == val and m[2] == (a[2],)])]
            if not ok:
                I.fail(fr, op.l, 'the %s an established session sends to is changed without a mobility check for the new %s having matched' % (name, name))
                return
            t = ok[-1][0]
            if not [m for m in self.marks(st, 'newer') if m[1] == o and m[2] == (t,)]:
                I.fail(fr, op.l, 'the %s an established session sends to is changed by a check not known to be newer than the last accepted one' % name)
            if not [m for m in self.marks(st, 'fresh') if m[2] == (t,)]:
                I.fail(fr, op.l, 'the %s an established session sends to is changed by a check not known to be fresh' % name)
            self.mark(st, ('moved', o, (t,), C1))

        def on_store(self, I, st, p, v, op, fr):
            if p[0] != 'F' or p[2] not in BASE or (op.info or {}).get('init'):
                return
            self.moved(I, st, p[1], 'iface' if p[2] == IFACE else 'addr', v, op, fr)

        def on_call(self, I, st, op, info, args, obj, fr):
            if base_q(info['q']) == 'rtmfp::Address::Address' and args:
                src = [m[2] for m in self.marks(st, 'addrof') if m[1] == args[0]]
                if obj[0] == 'addr':
                    v = I.fresh(st, 'adr', op, fr)
                    st.mem[obj[1]] = v
                    self.mark(st, ('addrof', v, src[0] if src else (args[0],), C1))
                    return [(st, obj)]
                self.mark(st, ('addrof', obj, src[0] if src else (args[0],), C1))
                return [(st, obj)]
            if obj is not None and obj[0] == 'addr' and obj[1][0] == 'F' and obj[1][2] in BASE and not info.get('const') and not info['q'].endswith('::operator='):
                self.moved(I, st, obj[1][1], 'addr', args[0] if args else None, op, fr)
                st.mem.pop(obj[1], None)
                return [(st, I.retsym(st, op, fr, info))]
            return Watch.on_call(self, I, st, op, info, args, obj, fr)

        def on_exit(self, I, st, rv, fr):
            if fr.up is None:
                for m in self.marks(st, 'moved'):
                    if st.mem.get(('F', m[1], LAST)) != m[2][0]:
                        I.fail(fr, fr.fn.line, 'the time of an accepted mobility check is not recorded, so it can be replayed')

    def pred(fn, o):
        if o.k == 'store' and o.a[0] == 'fld' and o.a[2] in BASE:
            return not (o.info or {}).get('init')
        return o.k == 'call' and o.info.get('obj') and o.info['obj'][0] == 'fld' and o.info['obj'][2] in BASE and not o.info.get('const')
    ctx.rule('R1: outside the handshake, every store to the address or interface a session sends to follows a matching check for that value, newer than the last accepted and fresh, whose time is recorded')
    ctx.discharge('R1', Mob, psa.functions_with(ir, pred))
    ctx.need('address_stores', len(seen['addr']), 2)
    ctx.need('interface_stores', len(seen['iface']), 2)
    ctx.need('stores_during_handshake', len(seen['handshake']), 2)

    # ---- R2
    ctx.rule('R2: the mobility check is a hash over its time, interface, encoded address and the endpoint secret, and is what the check message carries')
    hashed = []
    mk = named(ctx, CHECK)
    if len(mk) != 1:
        raise AnalysisError('anchor vanished: %s' % CHECK)

    def hook(fn, o, asrc, osrc):
        if o.k == 'call' and base_q(o.info['q']) == 'rtmfp::ICryptoAdapter::cryptoHash256':
            hashed.append((fn, o, asrc[1]))
            r = frozenset([('q', 'hash')])
            fl.put(hook.m, o.info['args'][0][1], r)
            return r
        return None
    fl = Flow(ctx, hook)
    orig = fl.op

    def opw(fn, m, o, stack):
        hook.m = m
        orig(fn, m, o, stack)
    fl.op = opw
    ret, _, _ = fl.run(mk[0], [frozenset([('p', i)]) for i in range(3)])
    ctx.need('hashes_in_check', len(hashed), 1)
    what = {('p', 0): 'the time', ('p', 1): 'the interface', ('p', 2): 'the address', ('f', SECRET): 'the endpoint secret'}
    for fn, o, s in hashed:
        for k, n in what.items():
            if k not in s:
                ctx.viol('R2', fn, o.l, 'the mobility check does not cover %s on every path' % n, detail=n)
    if ('q', 'hash') not in ret or ('p', 0) not in ret:
        ctx.viol('R2', mk[0], ir.fn(mk[0]).line, 'the mobility check does not carry its time and hash')

    # ---- R3
    ctx.rule('R3: every packet of an established session is sent to the stored address and interface, except the mobility check itself, which goes to the address it checks')

    class Send(Watch):
        tracked = frozenset([ADDR, IFACE])
        opaque = frozenset(['rtmfp::Address'])

        def on_check(self, I, st, op, info, args, obj, fr):
            s = I.fresh(st, 'chk', op, fr)
            self.mark(st, ('made', obj or C0, tuple(args), s))
            return [(st, s)]

        def on_send(self, I, st, op, info, args, obj, fr):
            a = args[3]
            if base_q(info['q']).endswith('sendPacket') and (len(args) < 5 or false(st, args[4])):
                return [(st, I.retsym(st, op, fr, info))]
            if '::Session::' not in fr.fn.bq and not ir.cls_of(fr.fn.key) == 'rtmfp::Session':
                return [(st, I.retsym(st, op, fr, info))]
            seen['send'].add((fr.fn.key, op.l))
            f = a[1] if a[0] == 'addr' else None
            raw = [m for m in self.marks(st, 'raw') if m[3] == a]
            if f is not None and f[0] == 'F' and f[2] == ADDR or raw:
                pass
            elif not [m for m in self.marks(st, 'made') if m[2][1] == args[2] and m[2][2] == a]:
                I.fail(fr, op.l, 'a packet of a session is sent to an address other than the stored one')
            return [(st, I.retsym(st, op, fr, info))]

        def on_raw(self, I, st, op, info, args, obj, fr):
            s = I.fresh(st, 'raw', op, fr)
            st.facts[s] = (1, psa.INF, frozenset())
            if obj is not None and obj[0] == 'addr' and obj[1][0] == 'F' and obj[1][2] == ADDR:
                self.mark(st, ('raw', obj, (), s))
            return [(st, s)]
        event_calls = {CHECK: on_check, 'rtmfp::StartupSession::sendPacket': on_send, 'rtmfp::ISession::encryptAndSendPacket': on_send, 'rtmfp::Address::getSockaddr': on_raw}
    ks = {k for k in calls_to(ctx, 'rtmfp::StartupSession::sendPacket', 'rtmfp::ISession::encryptAndSendPacket') if ir.fn(k).bq.startswith('rtmfp::Session::')}
    ctx.discharge('R3', Send, ks)
    ctx.need('packets_sent_by_sessions', len(seen['send']), 3)
