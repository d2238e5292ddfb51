"""Every write is reported finished exactly once."""
import psa
from lib import *
from rules.c04 import callgraph

EXPLANATION = ('Path-sensitive typestate analysis of the write receipt (which stores to its flags and use count can happen, when its completion is called, with what value, and that it was taken out of the receipt before) '
               'and of the send queue of a flow: on every path each insertion of a fragment counts its receipt up once, each removal of a fragment is matched with exactly one count down of the receipt of that very '
               'fragment, which is either known abandoned or whose fragment was compared with both ends of an acknowledged range, and a flow that is closed or whose queue is emptied at once has abandoned every queued message before.')
ADD = ('append', 'prepend', 'addBefore', 'addAfter')


def run(ctx):
    ir = ctx.ir
    ABN, STARTED, COUNT, FIN = (field(ctx, 'WriteReceipt::' + n) for n in ('m_abandoned', 'm_started', 'm_useCount', 'onFinished'))
    QUEUE, RCPT, SN = field(ctx, 'SendFlow::m_send_queue'), field(ctx, 'SendFrag::m_receipt'), field(ctx, 'SendFrag::m_sequence_number')
    SST, EXC = field(ctx, 'SendFlow::m_state'), field(ctx, 'SendFlow::m_exception')
    F_CLOSED, LINGER = const(ctx, 'SendFlow::F_CLOSED'), const(ctx, 'SendFlow::F_COMPLETE_LINGER')
    UP, DOWN = 'IssuerWriteReceipt::useCountUp', 'IssuerWriteReceipt::useCountDown'
    ABANDON = ('WriteReceipt::abandon',)
    seen = {k: set() for k in ('abn', 'started', 'count', 'call', 'up', 'down', 'add', 'rem', 'clear', 'sweep', 'closed', 'rc')}
    rfuncs = stores_to(ctx, {ABN, STARTED, COUNT})

    # ---- R1/R2: the receipt itself
    ctx.rule('R1: outside construction a receipt becomes abandoned only while in use and not yet abandoned, its flags are only raised, and its use count changes by one at a time')
    ctx.rule('R2: the completion of a receipt is called only after it was taken out of the receipt, as abandoned on a path that marked it so, as delivered on a path that found no fragment in use; and such a path calls it if it is set')

    rfiles = {ir.fn(k).file for k in rfuncs if ir.fn(k).file.endswith('.cpp')}

    class R1(Watch):
        tracked = frozenset([ABN, STARTED, COUNT, FIN])
        private = frozenset([ABN, COUNT])
        event_fields = frozenset([FIN, ABN, COUNT, STARTED])

        def enum_range(self, f):
            return (0, psa.INF) if f == COUNT else None

        def inline(self, I, key, info):
            return Watch.inline(self, I, key, info) or ir.fn(key).file in rfiles

        def on_load(self, I, st, p, op, fr):
            if p[0] == 'F' and p[2] == FIN and p not in st.mem:
                s = I.fresh(st, 'ld', op, fr)
                st.mem[p] = s
                self.mark(st, ('fin', s, (), p[1]))
                return s

        def ended(self, st, o):
            if any(m[1] == o for m in self.marks(st, 'abandoned')):
                return True
            return any(m[1] == o and false(st, m[3]) for m in self.marks(st, 'less'))

        def on_store(self, I, st, p, v, op, fr):
            if p[0] != 'F' or p[2] not in self.tracked or (op.info or {}).get('init') and fr.fn.d.get('ctor'):
                return
            o = p[1]
            self.nevents += 1
            if p[2] == ABN:
                seen['abn'].add((fr.fn.key, op.l))
                if not true(st, v):
                    I.fail(fr, op.l, 'a receipt may be un-abandoned')
                    return
                old, cnt = st.mem.get(p), st.mem.get(('F', o, COUNT))
                if old is None or not false(st, old):
                    I.fail(fr, op.l, 'a receipt is abandoned that may be abandoned already')
                if cnt is None or st.rng(cnt)[0] < 1:
                    I.fail(fr, op.l, 'a receipt is abandoned that may be finished already')
                self.mark(st, ('abandoned', o, (), C1))
            elif p[2] == STARTED:
                seen['started'].add((fr.fn.key, op.l))
                if not true(st, v):
                    I.fail(fr, op.l, 'a receipt may be un-started')
            elif p[2] == COUNT:
                seen['count'].add((fr.fn.key, op.l))
                d = (op.info or {}).get('casg')
                old = st.mem.get(p)
                by = None
                if old is not None and v[0] == 'op' and v[1] in '+-' and C1 in v[2:] and old in v[2:]:
                    by = v[1]
                elif old is not None and v == psa.mkop('+', old, C1):
                    by = '+'
                elif old is not None and v == psa.mkop('-', old, C1):
                    by = '-'
                elif d in ('+', '-') and op.info.get('delta') == C1:
                    by = d
                if by is None:
                    I.fail(fr, op.l, 'the use count of a receipt changes by something other than one')
                    return
                if by == '-':
                    self.drop(st, lambda m: m[0] == 'less' and m[1] == o)
                    self.mark(st, ('less', o, (), v))

        def on_callv(self, I, st, op, fv, args, fr):
            for m in self.marks(st, 'fin'):
                if m[1] != fv:
                    continue
                self.nevents += 1
                seen['call'].add((fr.fn.key, op.l))
                o = m[3]
                cur = st.mem.get(('F', o, FIN))
                if cur is None or not false(st, cur):
                    I.fail(fr, op.l, 'the completion of a receipt is called while it is still set in the receipt')
                if any(x[1] == fv for x in self.marks(st, 'called')):
                    I.fail(fr, op.l, 'the completion of a receipt is called more than once')
                self.mark(st, ('called', fv, (), o))
                a = args[0] if args else None
                if a is not None and true(st, a):
                    if not any(x[1] == o for x in self.marks(st, 'abandoned')):
                        I.fail(fr, op.l, 'a receipt is reported abandoned on a path that did not abandon it')
                elif a is not None and false(st, a):
                    if not any(x[1] == o and false(st, x[3]) for x in self.marks(st, 'less')):
                        I.fail(fr, op.l, 'a receipt is reported delivered while fragments of it may be in use')
                else:
                    I.fail(fr, op.l, 'a receipt is reported finished with an outcome that was not decided')
                I.havoc_fields(st)
                return [(st, C0)]

        def on_exit(self, I, st, rv, fr):
            if fr.up is not None:
                return
            for o in {m[1] for m in self.marks(st, 'abandoned') + self.marks(st, 'less')}:
                if not self.ended(st, o):
                    continue
                took = [m for m in self.marks(st, 'fin') if m[3] == o]
                if any(m[3] == o for m in self.marks(st, 'called')):
                    continue
                if not took or not all(false(st, m[1]) for m in took):
                    I.fail(fr, fr.fn.line, 'a receipt ends without its completion being called')
    ctx.discharge('R1', R1, rfuncs)
    for k, n in (('abn', 1), ('started', 1), ('count', 2), ('call', 2)):
        ctx.need('receipt_' + k, len(seen[k]), n)
    # the completion is not called from anywhere else
    for fn, o in sites(ctx, lambda fn, o: o.k == 'callv' and o.b is not None and o.b[0] == 'fld' and o.b[2] == FIN):
        if (fn.key, o.l) not in seen['call']:
            ctx.viol('R2', fn.key, o.l, 'the completion of a receipt is called in place', [])

    # ---- R3: what the receipt tells
    ctx.rule('R3: a receipt tells it is finished exactly when it was abandoned or no fragment is in use, and that it was delivered exactly when no fragment is in use and it was not abandoned')

    class R3(Watch):
        tracked = frozenset([ABN, COUNT])
        private = frozenset([ABN, COUNT])
        event_fields = frozenset([ABN, COUNT])
        want = {}

        def enum_range(self, f):
            return (0, psa.INF) if f == COUNT else None

        def on_enter(self, I, st, fr):
            if fr.up is None:
                for f, val in ((ABN, self.case[0]), (COUNT, self.case[1])):
                    st.mem[('F', fr.this, f)] = ('c', val)

        def on_exit(self, I, st, rv, fr):
            if fr.up is None:
                self.nevents += 1
                exp = self.expect(*self.case)
                if rv is None or st.decide(psa.mknz(rv)) is not exp:
                    I.fail(fr, fr.fn.line, 'a receipt that was %sabandoned with %s fragments in use does not tell that it is %s%s' % ('' if self.case[0] else 'not ', self.case[1], '' if exp else 'not ', self.what))
    n = 0
    for q, what, exp in (('isFinished', 'finished', lambda a, c: bool(a) or c == 0), ('isDelivered', 'delivered', lambda a, c: c == 0 and not a), ('isAbandoned', 'abandoned', lambda a, c: bool(a))):
        for k in named(ctx, 'WriteReceipt::' + q):
            for case in ((0, 0), (0, 1), (0, 2), (1, 0), (1, 1), (1, 2)):
                n += 1
                run_root(ctx, 'R3', type('R3', (R3,), dict(case=case, expect=staticmethod(exp), what=what)), k)
    ctx.need('receipt_answers', n, 18)

    # ---- R4: the queue and the receipts
    ctx.rule('R4: each fragment put into a send queue counts its receipt up once, each fragment removed from one counts its own receipt down once, and only for a receipt known abandoned or a fragment found within an acknowledged range')
    touch = psa.functions_with(ir, lambda fn, o: o.k == 'callv' or o.k == 'call' and (o.info.get('obj') and o.info['obj'][0] == 'fld' and o.info['obj'][2] == QUEUE and not o.info.get('const')))
    g = callgraph(ctx)
    rev = {}
    for a, bs in g.items():
        for b in bs:
            rev.setdefault(b, set()).add(a)

    def closure(ks):
        ks = set(ks)
        work = list(ks)
        while work:
            for u in rev.get(work.pop(), ()):
                if u not in ks:
                    ks.add(u)
                    work.append(u)
        return ks
    touch = closure(touch)

    roots = psa.functions_with(ir, lambda fn, o: o.k == 'call' and (base_q(o.info['q']) in (UP, DOWN) or o.info.get('obj') and o.info['obj'][0] == 'fld' and o.info['obj'][2] == QUEUE and
                                                                   base_q(o.info['q']).rsplit('::', 1)[-1] in ADD + ('remove', 'removeFirst', 'removeLast')))
    apart = closure(roots)

    class R4(Watch):
        max_steps = 6000
        tracked = frozenset([RCPT])
        event_fields = frozenset([RCPT])
        # the state of a receipt is not followed into the receipt here
        skip = Watch.skip + ('List::', 'SumList::', 'WriteReceipt::', 'IssuerWriteReceipt::')

        def events(self):
            return Watch.events(self) | {UP, DOWN, 'List::append', 'List::remove', 'SumList::remove', 'List::removeFirst', 'WriteReceipt::isAbandoned'}

        def on_load(self, I, st, p, op, fr):
            if p[0] == 'D':
                for m in self.marks(st, 'elem') + self.marks(st, 'refv'):
                    if m[1] == p[1]:
                        return m[3]
                if p[1][0] == 's' and p[1][1] == 'arg' and fr.up is None and op.info and op.info.get('t') in ('long &', 'long'):
                    s = I.fresh(st, 'ld', op, fr)
                    self.mark(st, ('refv', p[1], (), s))
                    return s
            if p[0] == 'F' and p[2] == RCPT:
                for m in self.marks(st, 'rcpt'):
                    if m[3] == p[1]:
                        return m[1]
                s = I.fresh(st, 'ld', op, fr)
                self.drop(st, lambda m: m[0] == 'rcpt' and m[1] == s)
                self.mark(st, ('rcpt', s, (), p[1]))
                return s

        def on_store(self, I, st, p, v, op, fr):
            if p[0] == 'D' and any(m[1] == p[1] for m in self.marks(st, 'refv')):
                self.drop(st, lambda m: m[0] == 'refv' and m[1] == p[1])
                self.mark(st, ('refv', p[1], (), v))
            if p[0] == 'F' and p[2] == RCPT:
                self.nevents += 1
                seen['rc'].add((fr.fn.key, op.l))
                if not fr.fn.d.get('ctor'):
                    I.fail(fr, op.l, 'the receipt of a fragment is exchanged after the fragment was made')
                self.drop(st, lambda m: m[0] == 'rcpt' and m[3] == p[1])
                self.mark(st, ('rcpt', v, (), p[1]))

        def frag_of(self, st, r):
            return [m[3] for m in self.marks(st, 'rcpt') if m[1] == r]

        def same(self, st, a, b):
            return a == b or st.decide(psa.mkop('==', a, b)) is True or any(m[0] == 'same' and {m[1], m[3]} == {a, b} for m in st.auto or ())

        def on_branch(self, I, st, v, truth, b, fr):
            if v[0] == 'not':
                v, truth = v[1], not truth
            if v[0] == 'op' and v[1] in ('==', '!=') and (v[1] == '==') == truth:
                hs = {m[3] for m in self.marks(st, 'head')}
                if v[2] in hs or v[3] in hs:
                    self.mark(st, ('same', v[2], (), v[3]))
            # comparisons of the number of a fragment
            if v[0] == 'op' and v[1] in ('<', '<=', '>', '>='):
                for i in (2, 3):
                    for m in self.marks(st, 'sn'):
                        if m[1] == v[i]:
                            # frag  OP  other   known
                            op = v[1] if i == 2 else {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[v[1]]
                            low = (op in ('<', '<=')) != truth
                            self.mark(st, ('lo' if low else 'hi', m[3], (), C1))

        def gone(self, I, st, fr, line, frag):
            """a fragment leaves the queue"""
            for m in self.marks(st, 'pre'):
                if self.same(st, m[1], frag):
                    self.drop(st, lambda x: x == m)
                    return
            for m in self.marks(st, 'owed'):
                I.fail(fr, m[3][1], 'a fragment is removed from the send queue and its receipt is not counted down')
            self.drop(st, lambda m: m[0] == 'owed')
            self.mark(st, ('owed', frag, (), ('c', line)))

        def balance(self, st, r, d):
            n = sum(m[3][1] for m in self.marks(st, 'bal') if m[1] == r) + d
            self.drop(st, lambda m: m[0] == 'bal' and m[1] == r)
            if n:
                self.mark(st, ('bal', r, (), ('c', max(-2, min(2, n)))))
            return n

        def on_call(self, I, st, op, info, args, obj, fr):
            q = base_q(info['q'])
            n = q.rsplit('::', 1)[-1]
            pl = info.get('obj')
            mine = pl and (pl[0] == 'fld' and pl[2] == QUEUE or obj is not None and obj[0] == 'addr' and obj[1][0] == 'F' and obj[1][2] == QUEUE)
            if mine:
                if n == 'at':
                    name = args[0]
                    for m in self.marks(st, 'atn'):
                        if m[1] == name:
                            f = m[3]
                            break
                    else:
                        f = I.fresh(st, 'elemv', op, fr)
                        self.forget_frag(st, f)
                        self.mark(st, ('atn', name, (), f))
                    e = I.fresh(st, 'elem', op, fr)
                    self.drop(st, lambda m: m[0] == 'elem' and m[1] == e)
                    self.mark(st, ('elem', e, (), f))
                    return [(st, e)]
                if n == 'firstValue':
                    h = [m[3] for m in self.marks(st, 'head')]
                    if h:
                        f = h[0]
                    else:
                        f = I.fresh(st, 'elemv', op, fr)
                        self.forget_frag(st, f)
                        self.mark(st, ('head', C0, (), f))
                    e = I.fresh(st, 'elem', op, fr)
                    self.drop(st, lambda m: m[0] == 'elem' and m[1] == e)
                    self.mark(st, ('elem', e, (), f))
                    return [(st, e)]
                if n in ADD:
                    self.nevents += 1
                    seen['add'].add((fr.fn.key, op.l))
                    fv = None
                    for a in args:
                        a = self.deep(I, st, a)
                        a = a[1] if a[0] == 'at' else a
                        for m in self.marks(st, 'rcpt'):
                            if m[3] == a:
                                fv = m[1]
                    if fv is None:
                        I.fail(fr, op.l, 'a fragment is queued whose receipt is not known')
                    elif self.balance(st, fv, 1) > 1:
                        I.fail(fr, op.l, 'a fragment is queued although the receipt was not counted up for the one queued before')
                    return [(st, I.fresh(st, 'ret', op, fr))]
                if n in ('remove', 'removeFirst', 'removeLast'):
                    self.nevents += 1
                    seen['rem'].add((fr.fn.key, op.l))
                    f = None
                    if n == 'remove':
                        f = [m[3] for m in self.marks(st, 'atn') if m[1] == args[0]]
                    elif n == 'removeFirst':
                        f = [m[3] for m in self.marks(st, 'head')]
                    if not f:
                        I.fail(fr, op.l, 'a fragment is removed from the send queue without its receipt being looked up')
                        f = [I.fresh(st, 'elemv', op, fr)]
                    self.drop(st, lambda m: m[0] in ('head', 'atn'))
                    self.gone(I, st, fr, op.l, f[0])
                    return [(st, I.fresh(st, 'bool', op, fr))]
                if n in ('empty', 'size', 'has', 'next', 'first', 'sum', 'last', 'lastValue'):
                    return None
            if q == UP and obj is not None:
                self.nevents += 1
                seen['up'].add((fr.fn.key, op.l))
                if self.balance(st, obj, -1) < -1:
                    I.fail(fr, op.l, 'a receipt is counted up more often than fragments are queued')
                return [(st, C0)]
            if q == DOWN and obj is not None:
                self.nevents += 1
                seen['down'].add((fr.fn.key, op.l))
                fs = self.frag_of(st, obj)
                if not fs:
                    I.fail(fr, op.l, 'a receipt is counted down of which no fragment was looked up')
                    return [(st, C0)]
                f = fs[0]
                known = any(m[1] == obj for m in self.marks(st, 'isabn')) or \
                    any(self.same(st, m[1], f) for m in self.marks(st, 'lo')) and any(self.same(st, m[1], f) for m in self.marks(st, 'hi'))
                if not known:
                    known = any(m[1] == obj and true(st, m[3]) for m in self.marks(st, 'abnq'))
                if not known:
                    I.fail(fr, op.l, 'a receipt is counted down although it is not known abandoned and the fragment was not found within an acknowledged range')
                for m in self.marks(st, 'owed'):
                    if self.same(st, m[1], f):
                        self.drop(st, lambda x: x == m)
                        break
                else:
                    if any(self.same(st, m[1], f) for m in self.marks(st, 'pre')):
                        I.fail(fr, op.l, 'a receipt is counted down twice for one fragment')
                    for m in self.marks(st, 'pre'):
                        I.fail(fr, m[3][1], 'a receipt is counted down for a fragment that stays in the send queue')
                    self.drop(st, lambda m: m[0] == 'pre')
                    self.mark(st, ('pre', f, (), ('c', op.l)))
                self.drop(st, lambda m: m[0] in ('head', 'atn'))
                return [(st, C0)]
            if q == 'WriteReceipt::isAbandoned' and obj is not None:
                s = I.fresh(st, 'bool', op, fr)
                self.drop(st, lambda m: m[0] == 'abnq' and (m[3] == s or m[1] == obj))
                self.mark(st, ('abnq', obj, (), s))
                return [(st, s)]
            ts = ir.targets(info)
            if any(t in touch for t in ts) and not q.startswith(('List::', 'SumList::')):
                if not any(self.inline(I, t, info) for t in ts):
                    self.drop(st, lambda m: m[0] in ('head', 'atn'))
            return Watch.on_call(self, I, st, op, info, args, obj, fr)

        def inline(self, I, key, info):
            return key in I.force or key not in apart and Watch.inline(self, I, key, info)

        def forget_frag(self, st, f):
            """the symbol of a place is used for another fragment now"""
            self.drop(st, lambda m: m[0] in ('lo', 'hi', 'same') and f in (m[1], m[3]) or m[0] in ('rcpt', 'sn', 'elem', 'head', 'atn') and m[3] == f)

        def on_callv(self, I, st, op, fv, args, fr):
            if fv[0] != 'lam':
                self.drop(st, lambda m: m[0] in ('head', 'atn'))

        def on_op(self, I, st, op, fr):
            # remember which value is the number of which fragment
            pass

        def on_exit(self, I, st, rv, fr):
            if fr.up is not None:
                return
            for m in self.marks(st, 'owed'):
                I.fail(fr, m[3][1], 'a fragment is removed from the send queue and its receipt is not counted down')
            for m in self.marks(st, 'pre'):
                I.fail(fr, m[3][1], 'a receipt is counted down for a fragment that stays in the send queue')
            for m in self.marks(st, 'bal'):
                I.fail(fr, fr.fn.line, 'the receipt of a queued fragment is counted up %s' % ('too seldom' if m[3][1] > 0 else 'too often'))

    class R4sn(R4):
        def on_load(self, I, st, p, op, fr):
            if p[0] == 'F' and p[2] == SN:
                for m in self.marks(st, 'sn'):
                    if m[3] == p[1]:
                        return m[1]
                s = I.fresh(st, 'ld', op, fr)
                self.drop(st, lambda m: m[0] == 'sn' and m[1] == s)
                self.mark(st, ('sn', s, (), p[1]))
                return s
            return R4.on_load(self, I, st, p, op, fr)
    # what keeps the balance on its own is looked at on its own; the others are helpers and are followed
    whole = set()
    for k in sorted(roots):
        I = psa.Interp(ir, R4sn())
        I.callers = ctx.callers
        try:
            I.entry(ir.fn(k))
        except psa.Limit:
            continue
        if not I.failures:
            whole.add(k)
    apart = closure(roots) - (set(roots) - whole)
    ctx.discharge('R4', R4sn, roots, max_up=3)
    ctx.rule('R4a: the receipt of a fragment is set where the fragment is made and never exchanged')
    for fn, o in sites(ctx, lambda fn, o: o.k == 'store' and o.a[0] == 'fld' and o.a[2] == RCPT and not (fn.d.get('ctor') and (o.info or {}).get('init'))):
        ctx.viol('R4a', fn.key, o.l, 'the receipt of a fragment is exchanged after the fragment was made', [])
    for k, n in (('up', 1), ('down', 2), ('add', 1), ('rem', 2)):
        ctx.need('queue_' + k, len(seen[k]), n)

    # ---- R5: nothing queued is forgotten
    ctx.rule('R5: a flow whose state becomes closed before everything queued was acknowledged, or whose queue is emptied at once, has abandoned every queued message by the time the operation ends, respectively before')
    sst_hi = max(v for n, v in ctx.prog.enumval.items() if n.startswith('com::zenomt::rtmfp::SendFlow::F_') and not n.endswith('PERIOD') and '.' not in str(v) and isinstance(v, int) and v < 16)

    files = {ir.fn(k).file for k in named(ctx, 'rtmfp::SendFlow::close') + named(ctx, 'rtmfp::Flow::close')}

    class R5(Watch):
        max_steps = 6000
        tracked = frozenset([SST, EXC])
        event_fields = frozenset([SST, EXC])
        private = frozenset([EXC])
        skip = Watch.skip + ('SumList::', 'WriteReceipt::', 'IssuerWriteReceipt::')

        def events(self):
            return Watch.events(self) | {'List::valuesDo', 'List::safeValuesDo', 'List::clear', 'SumList::clear', 'List::first', 'List::next', 'List::at'} | set(ABANDON)

        def enum_range(self, f):
            return (0, sst_hi) if f == SST else None

        def havoc_value(self, I, st, place, old):
            if place[2] == EXC:
                return old if old == C1 else None
            lo = st.rng(old)[0]
            s = ('s', 'enum', int(max(lo, 0)), sst_hi, 'mono')
            I.kill_sym(st, s)
            return s

        def on_load(self, I, st, p, op, fr):
            if p[0] == 'F' and p[2] == EXC and p not in st.mem:
                s = I.fresh(st, 'bool', op, fr)
                st.mem[p] = s
                self.mark(st, ('exc', s, (), p[1]))
                return s

        def on_branch(self, I, st, v, truth, b, fr):
            for m in self.marks(st, 'it'):
                if st.rng(m[1])[1] <= 0:
                    # the end of the queue, and every entry before it was abandoned
                    seen['sweep'].add((fr.fn.key, fr.fn.line))
                    self.drop(st, lambda x: x[0] in ('it', 'itat'))
                    self.swept(st, m[3])
            if v[0] == 'not':
                v, truth = v[1], not truth
            if truth:
                for m in self.marks(st, 'exc'):
                    if m[1] == v or v == psa.mknz(m[1]):
                        # a failed flow was gone over when it failed, and accepts nothing since
                        self.swept(st, m[3])
                for m in self.marks(st, 'empty'):
                    if m[1] == v or v == psa.mknz(m[1]):
                        self.swept(st, m[3])

        def swept(self, st, o):
            self.drop(st, lambda m: m[0] == 'owes' and m[1] == o)
            self.mark(st, ('swept', o, (), C1))

        def on_store(self, I, st, p, v, op, fr):
            if p[0] != 'F' or fr.fn.d.get('ctor'):
                return
            o = p[1]
            if p[2] == SST:
                old = st.mem.get(p)
                lo = st.rng(old)[0] if old is not None else 0
                if st.rng(v)[1] >= F_CLOSED and lo < LINGER:
                    self.nevents += 1
                    seen['closed'].add((fr.fn.key, op.l))
                    if not any(m[1] == o for m in self.marks(st, 'swept')):
                        self.mark(st, ('owes', o, (), ('c', op.l)))
            elif p[2] == EXC and not false(st, v):
                self.nevents += 1
                self.drop(st, lambda m: m[0] == 'swept' and m[1] == o)
                self.mark(st, ('owes', o, (), ('c', op.l)))

        def inline(self, I, key, info):
            return key in I.force or ir.fn(key).file in files and Watch.inline(self, I, key, info)

        insync = 0

        def queue_of(self, I, st, info, obj):
            if obj is not None and obj[0] == 'addr' and obj[1][0] == 'F' and obj[1][2] == QUEUE:
                return obj[1][1]

        def on_call(self, I, st, op, info, args, obj, fr):
            q = base_q(info['q'])
            n = q.rsplit('::', 1)[-1]
            if q.startswith('Retainer::') and n in ('operator->', 'get', 'operator*') and obj is not None and obj[0] == 'addr' and st.mem.get(obj[1]) is not None:
                return [(st, st.mem[obj[1]])]
            o = self.queue_of(I, st, info, obj)
            if o is not None and n in ('valuesDo', 'safeValuesDo'):
                lam = next((a for a in args if a[0] == 'lam'), None)
                if lam is None:
                    return None
                I.ran_lams.add(lam[1])
                self.insync += 1
                outs = I.call_fn(st.copy(), lam[1], None, [I.fresh(st, 'arg9', op, fr)], fr, op, caps=lam[2])
                self.insync -= 1
                good = bool(outs)
                res = []
                for s, v in outs or ():
                    if v is None or not true(s, v) or not self.marks(s, 'abd'):
                        good = False
                    self.drop(s, lambda m: m[0] == 'abd')
                    I.havoc_fields(s)
                    if good:
                        self.swept(s, o)
                    res.append((s, C0))
                if good:
                    self.nevents += 1
                    seen['sweep'].add((fr.fn.key, op.l))
                    return res[:1]
                return None
            if o is not None and n == 'clear':
                self.nevents += 1
                seen['clear'].add((fr.fn.key, op.l))
                if not any(m[1] == o for m in self.marks(st, 'swept')):
                    I.fail(fr, op.l, 'a send queue is emptied without its messages having been abandoned')
                return [(st, C0)]
            if o is not None and n == 'first' or o is not None and n == 'next' and any(m[1] == args[0] and m[3] == o for m in self.marks(st, 'itd')):
                self.drop(st, lambda m: m[0] in ('it', 'itat', 'itd'))
                s = I.fresh(st, 'enum', op, fr, (0, psa.INF))
                self.mark(st, ('it', s, (), o))
                return [(st, s)]
            if o is not None and n == 'at':
                if any(m[1] == args[0] for m in self.marks(st, 'it')):
                    self.mark(st, ('itat', args[0], (), o))
                return None
            if o is not None and n == 'empty':
                s = I.fresh(st, 'bool', op, fr)
                self.drop(st, lambda m: m[0] == 'empty' and m[1] == s)
                self.mark(st, ('empty', s, (), o))
                return [(st, s)]
            if o is not None and n in ADD:
                self.drop(st, lambda m: m[0] == 'swept' and m[1] == o)
                return None
            if q in ABANDON:
                self.mark(st, ('abd', C0, (), C1))
                for m in self.marks(st, 'itat'):
                    self.mark(st, ('itd', m[1], (), m[3]))
                return [(st, C0)]
            return Watch.on_call(self, I, st, op, info, args, obj, fr)

        def on_exit(self, I, st, rv, fr):
            if fr.up is None or fr.fn.is_lambda and not self.insync:
                for m in self.marks(st, 'owes'):
                    I.fail(fr, m[3][1], 'a flow ends without abandoning the messages that are still queued')
    r5 = set(stores_to(ctx, {SST, EXC})) | set(psa.functions_with(ir, lambda fn, o: o.k == 'call' and o.info.get('obj') and o.info['obj'][0] == 'fld' and o.info['obj'][2] == QUEUE and base_q(o.info['q']).endswith('::clear')))
    ctx.discharge('R5', R5, sorted(r5), max_up=2)
    ctx.need('queue_clears', len(seen['clear']), 1)
    ctx.need('queue_sweeps', len(seen['sweep']), 1)
    ctx.need('flow_ends', len(seen['closed']), 1)
