"""Flows held at a synchronisation point are released."""
import psa
from lib import *

EXPLANATION = ('Path-sensitive analysis of the flow synchronisation table and of the receive-order switch: a flow is put on hold only while recorded in a synchronisation point; a participant is counted exactly once and the '
               'answer, the release and the removal of the point agree with the comparison of the expected number; destruction of a point visits every recorded flow and resumes those on hold; recorded flows are dropped in '
               'no other way; resuming hands a delivery over to run; no message is delivered in order while the flow is on hold; and a received synchronisation message reaches the table with the values parsed and the flow it came on.')
MGR, RF = 'rtmfp::FlowSyncManager', 'rtmfp::RecvFlow'
NS = 'com::zenomt::'
ADD = ('push_back', 'emplace_back', 'insert', 'emplace')
TAKE = ('back', 'front', 'at', 'operator[]')
DROP = ('pop_back', 'pop_front', 'erase', 'clear', 'resize', 'assign', 'swap', 'operator=', 'remove')
A = [('s', 'arg', i) for i in range(4)]


def run(ctx):
    ir = ctx.ir
    FLOWS, TABLE = field(ctx, 'Barrier::m_flows'), field(ctx, 'FlowSyncManager::m_barriers')
    ORDER = field(ctx, 'RecvFlow::m_rxOrder')
    HOLD, SEQ = const(ctx, 'RO_HOLD'), const(ctx, 'RO_SEQUENCE')
    hi = max(HOLD, SEQ, const(ctx, 'RO_NETWORK'))
    seen = {k: set() for k in ('hold', 'resume', 'add', 'answer', 'drop', 'deliver', 'parse', 'task')}

    def on_field(obj, f):
        return obj is not None and obj[0] == 'addr' and obj[1][0] == 'F' and obj[1][2] == f

    writes, delivers = stores_to(ctx, frozenset([ORDER])), calls_to(ctx, RF + '::deliverMessage')

    def small(key):
        # helpers of a flow that only look at it
        fn = ir.fn(key)
        return ir.cls_of(key) == RF and fn is not None and key not in delivers and key not in writes and sum(len(b.ops) for b in fn.blocks) < 12

    class Base(Watch):
        def cur(self, I, st, a):
            # the flow meant by a reference, an element or a pointer
            if a[0] == 'addr':
                return st.mem.get(a[1], a)
            return a

        def count_size(self, I, st, op, fr, obj):
            rv = ('s', 'enum', 0, psa.INF, 'size')
            self.mark(st, ('size', obj, (C1 if self.marks(st, 'rec') else C0,), rv))
            return [(st, rv)]

    under = {k for k in reach(ctx, named(ctx, MGR + '::sync')) if ir.cls_of(k) != RF}
    inner = {k for k in under if not (ir.cls_of(k) or '').startswith('rtmfp::') or k in calls_to(ctx, RF + '::setReceiveOrder')}

    ctx.rule('R1: within the synchronisation table a flow is put on hold only when it is known to deliver in sequence, and only when it is recorded in the point by the end of that function')
    ctx.rule('R2: sync answers true exactly when the participants recorded so far and this one reach the expected number, having removed the point; otherwise it has recorded this flow, once')

    class Sync(Base):
        tracked = frozenset([FLOWS])
        cap = 300

        def events(self):
            return {RF + '::setReceiveOrder', MGR + '::reset'}

        def inline(self, I, key, info):
            return ir.cls_of(key) == MGR or key in I.force or key in inner

        def remember(self, v):
            return v[0] == 'op' and v[1] in ('<', '==')

        def on_call(self, I, st, op, info, args, obj, fr):
            q = base_q(info['q'])
            n = info['q'].rsplit('::', 1)[-1]
            if q == RF + '::getReceiveOrder' and obj is not None:
                rv = I.fresh(st, 'enum', op, fr, (0, hi))
                self.drop(st, lambda m: m[0] == 'order' and m[1] == obj)
                self.mark(st, ('order', obj, (), rv))
                return [(st, rv)]
            if q == RF + '::setReceiveOrder' and obj is not None and args:
                if args[0] == ('c', HOLD) or st.rng(args[0])[1] >= HOLD and args[0][0] != 'c':
                    seen['hold'].add((fr.fn.key, op.l))
                    self.nevents += 1
                    if not any(m[1] == obj and st.decide(psa.mkop('==', m[3], ('c', SEQ))) is True for m in self.marks(st, 'order')):
                        I.fail(fr, op.l, 'a flow is put on hold that may not be delivering in sequence (it is not resumed as it was)')
                    self.mark(st, ('held', obj, (), C1))
                return [(st, C0)]
            if on_field(obj, FLOWS):
                if n == 'size':
                    return self.count_size(I, st, op, fr, obj)
                if n in ADD and args:
                    seen['add'].add((fr.fn.key, op.l))
                    if self.marks(st, 'rec'):
                        I.fail(fr, op.l, 'one participant is recorded twice')
                    self.mark(st, ('rec', self.cur(I, st, args[-1]), (), C1))
                    return [(st, C0)]
                if n in DROP:
                    I.fail(fr, op.l, 'flows recorded in a synchronisation point are dropped without being resumed')
            if on_field(obj, TABLE):
                if n in ('operator[]', 'find') and args:
                    k = self.cur(I, st, args[0])
                    here = any(m[1] == k for m in self.marks(st, 'there'))
                    self.mark(st, ('there', k, (), C1)) if n == 'operator[]' else 0
                    if n == 'find':
                        rv = I.fresh(st, 'it', op, fr)
                        self.mark(st, ('it', rv, (k,), C1 if here else C0))
                        return [(st, rv)]
                    return None
                if n in ('erase', 'clear') and args:
                    k = self.cur(I, st, args[0])
                    self.drop(st, lambda m: m[0] == 'there')
                    its = [m[2][0] for m in self.marks(st, 'it') if m[1] == k]
                    self.mark(st, ('gone', its[0] if its else k, (), C1))
                    return [(st, C0)]
            if n in ('operator!=', 'operator=='):
                vs = [self.cur(I, st, a) for a in list(args) + [obj or C0]]
                if any(m[1] in vs and m[3] == C1 for m in self.marks(st, 'it')):
                    return [(st, C1 if n == 'operator!=' else C0)]
            return None

        def on_exit(self, I, st, rv, fr):
            if fr.up is not None:
                return
            rec = self.marks(st, 'rec')
            for m in self.marks(st, 'held'):
                if not any(x[1] == m[1] for x in rec):
                    I.fail(fr, fr.fn.line, 'a flow is put on hold without being recorded in a synchronisation point')
            if fr.fn.bq != MGR + '::sync' or rv is None:
                return
            seen['answer'].add(fr.fn.key)
            gone = any(self.cur(I, st, m[1]) == A[0] for m in self.marks(st, 'gone'))
            full = None
            for m in self.marks(st, 'size'):
                s = m[3] if m[2][0] == C1 else psa.mkop('+', m[3], C1)
                d = st.decide(psa.mkop('<', s, A[1]))
                if d is not None:
                    full = not d
            for want, msg in ((True, 'sync answers that all are there'), (False, 'sync answers that some are missing')):
                if st.decide(psa.mknz(rv)) is not want:
                    continue
                if full is not want:
                    I.fail(fr, fr.fn.line, msg + ' without the comparison with the expected number saying so')
                if want and not gone:
                    I.fail(fr, fr.fn.line, msg + ' but keeps the synchronisation point')
                if want and self.marks(st, 'held'):
                    I.fail(fr, fr.fn.line, msg + ' but puts the last one on hold')
                if not want and (gone or not any(self.same(x[1]) for x in rec)):
                    I.fail(fr, fr.fn.line, msg + ' but does not keep this one recorded')

        def same(self, v):
            return v == A[2]

    def acts(fn, o):
        return o.k == 'call' and (base_q(o.info['q']) == RF + '::setReceiveOrder' and fn.key in under
                                  or (o.info.get('obj') or ('',))[0] == 'fld' and o.info['obj'][2] == FLOWS and o.info['q'].rsplit('::', 1)[-1] in ADD + DROP and not fn.bq.endswith('::~Barrier'))
    roots = psa.functions_with(ir, acts) | set(named(ctx, MGR + '::sync'))
    ctx.discharge('R1', Sync, sorted(roots), internal=frozenset(k for k in roots if ir.bq_of(k) != MGR + '::sync'))
    for k, least in (('hold', 1), ('add', 1), ('answer', 1)):
        ctx.need('sync_' + k, len(seen[k]), least)

    ctx.rule('R3: when a synchronisation point ends, every recorded flow is looked at and resumed in sequence if it is on hold, before the point forgets it')

    class End(Base):
        tracked = frozenset([FLOWS])
        cap = 300

        def inline(self, I, key, info):
            return ir.cls_of(key) in (MGR, MGR + '::Barrier') or key in I.force

        def element(self, I, st, op, fr, which=()):
            # the place of an element, and the flow in it
            for m in self.marks(st, 'elem'):
                if m[2][1:] == which:
                    return [(st, m[2][0])]
            self.handled(st, fr, op.l, I)
            at, v = I.fresh(st, 'elem', op, fr), I.fresh(st, 'ld', op, fr)
            st.mem[('D', at)] = v
            self.mark(st, ('elem', v, (at,) + which, C1))
            return [(st, at)]

        def handled(self, st, fr, line, I):
            for m in self.marks(st, 'elem'):
                v = m[1]
                if any(x[1] == v for x in self.marks(st, 'resumed')):
                    continue
                if st.decide(psa.mknz(v)) is False:
                    continue
                if any(x[1] == v and st.decide(psa.mkop('==', x[3], ('c', HOLD))) is False for x in self.marks(st, 'order')):
                    continue
                I.fail(fr, line, 'a synchronisation point forgets a flow that may be on hold')
            self.drop(st, lambda m: m[0] in ('elem', 'resumed', 'order', 'nul'))

        def on_range(self, I, st, op, v, fr):
            if op.k == 'more':
                self.handled(st, fr, op.l, I)
                self.mark(st, ('asked', C0, (), psa.mknot(psa.mknz(v))))
            elif op.k == 'next':
                self.drop(st, lambda m: m[0] == 'drained')
                e = I.fresh(st, 'ld', op, fr)
                st.mem[('D', v)] = e
                self.mark(st, ('elem', e, (v,), C1))

        def on_call(self, I, st, op, info, args, obj, fr):
            q = base_q(info['q'])
            n = info['q'].rsplit('::', 1)[-1]
            if on_field(obj, FLOWS):
                if n in TAKE or n in ('operator*',):
                    self.drop(st, lambda m: m[0] == 'drained')
                    return self.element(I, st, op, fr)
                if n in DROP:
                    seen['drop'].add((fr.fn.key, op.l))
                    if not self.marks(st, 'elem') and not (n == 'clear' and self.marks(st, 'drained')):
                        I.fail(fr, op.l, 'a synchronisation point forgets flows it has not looked at')
                    self.handled(st, fr, op.l, I)
                    return [(st, C0)]
                if n == 'empty':
                    rv = I.fresh(st, 'bool', op, fr)
                    self.mark(st, ('asked', C0, (), rv))
                    return [(st, rv)]
                if n == 'size':
                    rv = I.fresh(st, 'size', op, fr)
                    self.drop(st, lambda m: m[0] == 'size')
                    self.mark(st, ('size', rv, (), rv))
                    return [(st, rv)]
            if q == RF + '::getReceiveOrder' and obj is not None:
                rv = I.fresh(st, 'enum', op, fr, (0, hi))
                self.mark(st, ('order', obj, (), rv))
                return [(st, rv)]
            if q == RF + '::setReceiveOrder' and obj is not None and args:
                seen['resume'].add((fr.fn.key, op.l))
                if args[0] != ('c', SEQ):
                    I.fail(fr, op.l, 'a flow leaves the synchronisation point other than delivering in sequence')
                if not any(m[1] == obj and st.decide(psa.mkop('==', m[3], ('c', HOLD))) is True for m in self.marks(st, 'order')):
                    I.fail(fr, op.l, 'a flow that is not on hold has its order of delivery changed')
                self.mark(st, ('resumed', obj, (), C1))
                return [(st, C0)]
            return None

        def on_branch(self, I, st, v, truth, b, fr):
            if any(true(st, m[3]) for m in self.marks(st, 'asked')):
                self.mark(st, ('drained', C0, (), C1))
            if any(m[1] in psa.syms(v, set()) for m in self.marks(st, 'size')) and not (truth and self.indexed) and not st.decide(psa.mkop('<', C0, self.marks(st, 'size')[0][1])):
                self.mark(st, ('drained', C0, (), C1))
            elif self.indexed and not truth and any(m[1] in psa.syms(v, set()) for m in self.marks(st, 'size')):
                self.mark(st, ('drained', C0, (), C1))

        def on_exit(self, I, st, rv, fr):
            if fr.up is None:
                self.handled(st, fr, fr.fn.line, I)
                if not self.marks(st, 'drained'):
                    I.fail(fr, fr.fn.line, 'a synchronisation point ends with flows it has not looked at')
        indexed = False
    enders = named(ctx, MGR + '::Barrier::~Barrier')
    if not enders:
        ctx.viol('R3', sorted(named(ctx, MGR + '::sync'))[0], 0, 'a synchronisation point ends without resuming the flows it holds')
    for k in enders:
        fn = ir.fn(k)
        called = {o.info['q'].rsplit('::', 1)[-1] for b in fn.blocks for o in b.ops if o.k == 'call'}
        ranged = any(o.k in ('more', 'next') for b in fn.blocks for o in b.ops) or called & {'begin', 'rbegin'}
        C = RangeEnd(End, ctx) if ranged else type('IndexEnd', (End,), {'indexed': True}) if called & {'operator[]', 'at'} else End
        run_root(ctx, 'R3', C, k)
    ctx.need('resumptions', len(seen['resume']), 1)

    ctx.rule('R4: changing the receive order stores the order given, and when it ends a hold, hands over a delivery to run')

    class Order(Watch):
        tracked = frozenset([ORDER])

        def enum_range(self, f):
            return (0, hi) if f == ORDER else None

        def events(self):
            return {'rtmfp::IPlatformAdapter::perform'}

        def on_enter(self, I, st, fr):
            if fr.up is None:
                o = ('s', 'enum', 0, hi, 'before')
                st.mem[('F', fr.this, ORDER)] = o
                self.mark(st, ('keep', o, (), C1))
                self.mark(st, ('keep', A[0], (), C1))

        def havoc_value(self, I, st, p, old):
            return old

        def on_call(self, I, st, op, info, args, obj, fr):
            if base_q(info['q']) == 'rtmfp::IPlatformAdapter::perform' and any(a[0] == 'lam' and any(ir.bq_of(k) == RF + '::tryDelivery' for k in reach(ctx, [a[1]])) for a in args):
                seen['task'].add((fr.fn.key, op.l))
                self.mark(st, ('task', C0, (), C1))
                return [(st, C1)]

        def on_exit(self, I, st, rv, fr):
            if fr.up is not None:
                return
            o = ('s', 'enum', 0, hi, 'before')
            if st.mem.get(('F', fr.this, ORDER)) != A[0] and not (st.mem.get(('F', fr.this, ORDER)) == o and st.decide(psa.mkop('==', o, A[0])) is True):
                I.fail(fr, fr.fn.line, 'the receive order set is not the one given')
            if not self.marks(st, 'task') and st.decide(psa.mkop('==', o, ('c', HOLD))) is not False and st.decide(psa.mkop('==', A[0], ('c', HOLD))) is not True:
                I.fail(fr, fr.fn.line, 'a hold ends without what was received meanwhile being delivered')
    ks = named(ctx, RF + '::setReceiveOrder')
    ctx.need('order_setters', len(ks), 1)
    for k in ks:
        run_root(ctx, 'R4', Order, k)
    ctx.need('resumed_deliveries', len(seen['task']), 1)

    ctx.rule('R5: a received message is handed to delivery only on paths that know the flow not to be on hold')

    class Deliver(Watch):
        tracked = frozenset([ORDER])

        def inline(self, I, key, info):
            return key in I.force or small(key)

        def enum_range(self, f):
            return (0, hi) if f == ORDER else None

        def events(self):
            return {RF + '::deliverMessage'}

        def on_call(self, I, st, op, info, args, obj, fr):
            if base_q(info['q']) == RF + '::deliverMessage' and obj is not None:
                seen['deliver'].add((fr.fn.key, op.l))
                self.nevents += 1
                v = st.mem.get(('F', obj, ORDER))
                if v is None or st.decide(psa.mkop('==', v, ('c', HOLD))) is not False and st.rng(v)[1] >= HOLD:
                    I.fail(fr, op.l, 'a message may be delivered while the flow is on hold')
    ctx.discharge('R5', Deliver, sorted(calls_to(ctx, RF + '::deliverMessage')), internal=frozenset(named(ctx, RF + '::tryDelivery')))
    ctx.need('in_order_deliveries', len(seen['deliver']), 1)

    ctx.rule('R6: where a received message is recognised as a synchronisation message, the table is told with the values parsed from it and the flow it came on')

    class Told(Base):
        def inline(self, I, key, info):
            return key in I.force

        def on_call(self, I, st, op, info, args, obj, fr):
            q = base_q(info['q'])
            if q in (MGR + '::parse', MGR + '::parseUserCommandPayload') and len(args) >= 4:
                seen['parse'].add((fr.fn.key, op.l))
                rv = I.fresh(st, 'ret', op, fr)
                a, b = I.fresh(st, 'id', op, fr), I.fresh(st, 'count', op, fr)
                for p, v in ((args[2], a), (args[3], b)):
                    if p[0] == 'addr':
                        st.mem[p[1]] = v
                self.mark(st, ('parsed', a, (b,), rv))
                return [(st, rv)]
            if q == MGR + '::sync' and len(args) >= 3:
                self.nevents += 1
                if self.cur(I, st, args[2]) == C0 or false(st, self.cur(I, st, args[2])):
                    I.fail(fr, op.l, 'the synchronisation table is told without the flow the message came on')
                for m in self.marks(st, 'parsed'):
                    if args[0] == m[1] and args[1] == m[2][0] and st.decide(psa.mknz(m[3])) is True:
                        self.mark(st, ('told', m[1], (), C1))
                        break
                else:
                    I.fail(fr, op.l, 'the synchronisation table is told values that were not parsed from the message')
                return [(st, I.fresh(st, 'bool', op, fr))]

        def on_exit(self, I, st, rv, fr):
            if fr.up is None or fr.fn.is_lambda:
                for m in self.marks(st, 'parsed'):
                    if st.decide(psa.mknz(m[3])) is not False and not any(x[1] == m[1] for x in self.marks(st, 'told')):
                        I.fail(fr, fr.fn.line, 'a synchronisation message is recognised without the table being told')
    users = {k for k in calls_to(ctx, MGR + '::parse', MGR + '::parseUserCommandPayload') if ir.cls_of(k) != MGR}
    ctx.need('message_handlers', len(users), 1)
    for k in sorted(users):
        run_root(ctx, 'R6', Told, k)


def RangeEnd(End, ctx):
    """a loop over all elements: each element is judged at the next one and at the end; leaving the loop early leaves some out"""
    class R(End):
        def on_call(self, I, st, op, info, args, obj, fr):
            n = info['q'].rsplit('::', 1)[-1]
            if n in ('operator!=', 'operator=='):
                rv = I.fresh(st, 'bool', op, fr)
                self.mark(st, ('asked', C0, (), psa.mknot(rv) if n == 'operator!=' else rv))
                return [(st, rv)]
            if n == 'operator++':
                self.handled(st, fr, op.l, I)
                return [(st, I.fresh(st, 'it', op, fr))]
            if n in ('operator*', 'operator->') and '__normal_iterator' in (info.get('ot') or info['q']):
                return self.element(I, st, op, fr)
            return End.on_call(self, I, st, op, info, args, obj, fr)
    return R
