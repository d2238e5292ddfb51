"""Closing a session releases everything that belongs to it."""
import re
import psa
from lib import *

EXPLANATION = ('Path-sensitive analysis of every function that moves a session to a closing or closed state: on return every timer member is cancelled and dropped, every list of flows or fragments was emptied after each '
               'flow bound was told, and the endpoint was told (with release of the session number when closed). The endpoint is analysed with the session present in each lookup table and must remove it from each, and '
               'with another session in its place and must leave that one alone. Each flow is analysed as told and must end closed, unbound, with its timers cancelled and its failure callback called once. '
               'Obligation lifting shows that timers are armed and lists are filled only for sessions not yet closing.')
S, R, SEND, RECV = 'rtmfp::Session', 'rtmfp::RTMFP', 'rtmfp::SendFlow', 'rtmfp::RecvFlow'
NS = 'com::zenomt::'
TIMEROPS = ('rtmfp::RTMFP::scheduleRel', 'rtmfp::RTMFP::schedule', 'TimerList::scheduleRel', 'TimerList::schedule', 'Timer::cancel', 'Timer::setNextFireTime', 'Timer::setRecurInterval')
GROW = ('append', 'prepend', 'addBefore', 'addAfter', 'insert', 'emplace', 'operator[]', 'push_back', 'push', 'emplace_back')


def run(ctx):
    ir = ctx.ir
    STATE = field(ctx, 'Session::m_state')
    OPEN, NEAR, CLOSED = (const(ctx, 'Session::S_' + x) for x in ('OPEN', 'NEARCLOSE', 'CLOSED'))

    def members(cls, pred):
        return frozenset(NS + cls + '::' + f['n'] for f in ctx.prog.classes[NS + cls]['fields'] if pred(f['t']))
    def timer(t):
        return bool(re.search(r'shared_ptr<\s*(?:com::zenomt::)?Timer\s*>', t))
    TIMERS = members(S, timer)
    ctx.need('session_timers', len(TIMERS), 3)
    LISTS = members(S, lambda t: re.search(r'(List|map|set|vector|deque|queue)<', t) and re.search(r'SendFlow|RecvFlow|SendFrag', t))
    ctx.need('session_lists', len(LISTS), 3)
    size = {}
    for f in ctx.prog.classes[NS + S]['fields']:
        m = re.search(r'\[(\d+)\]$', f['t'])
        if m:
            size[NS + S + '::' + f['n']] = int(m.group(1))
    SENDF, RECVF = field(ctx, 'Session::m_sendFlows'), field(ctx, 'Session::m_recvFlows')
    hi = CLOSED
    seen = {k: set() for k in ('end', 'arm', 'grow', 'cancel', 'tell', 'rem', 'cb')}

    def member(obj):
        """(object, field, index or None) of a container member or element of an array of them"""
        if obj is None or obj[0] != 'addr':
            return None
        p = obj[1]
        if p[0] == 'E':
            b = p[1][1] if p[1][0] == 'addr' else p[1]
            return (b[1], b[2], p[2] if len(p) > 2 else None) if b[0] == 'F' else None
        return (p[1], p[2], None) if p[0] == 'F' else None

    # ---- R1 what ending a session leaves behind
    ctx.rule('R1: a function that moves a session to a closing or closed state returns only with every timer member of it cancelled and dropped')
    ctx.rule('R2: and with every list of flows or fragments of it empty, each flow taken from the lists of bound flows having been told first')
    ctx.rule('R3: and with the endpoint told, releasing the session number when the session is closed')

    class R1(Watch):
        tracked = TIMERS | {STATE}
        private = TIMERS
        skip = Watch.skip + ('List::', 'SumList::')
        cap = 400

        def enum_range(self, f):
            return (0, hi) if f == STATE else None

        def havoc_value(self, I, st, place, old):
            if place[2] == STATE:
                lo = max(int(st.rng(old)[0]), 0)
                s = ('s', 'enum', lo, hi, 'mono')
                I.kill_sym(st, s)
                return s
            return old

        def events(self):
            return {'Timer::cancel', R + '::onSessionDidClose', SEND + '::onSessionDidClose', RECV + '::abort', S + '::abortFlowsAndTimers'}

        def on_store(self, I, st, p, v, op, fr):
            if p[0] != 'F':
                return
            if p[2] == STATE and not (op.info or {}).get('init'):
                lo = st.rng(v)[1]
                if lo >= NEAR:
                    seen['end'].add((fr.fn.key, op.l))
                    # told before the state changed does not count
                    self.drop(st, lambda m: m[0] in ('ends', 'told', 'empty', 'tellf'))
                    self.mark(st, ('ends', p[1], (), C1 if lo >= CLOSED else C0))
            elif p[2] in TIMERS:
                self.drop(st, lambda m: m[0] == 'off' and m[1] == ('fld', p[2]))
                old = st.mem.get(p)
                if old is not None and old != v:
                    if ('cancelled', old, (), C1) in (st.auto or ()) or st.decide(psa.mknz(old)) is False:
                        self.mark(st, ('off', ('fld', p[2]), (), C1))
                    self.drop(st, lambda m: m[0] == 'cancelled' and m[1] == old)

        def flow_taken(self, st, m, fr, line, one=False):
            # a flow goes out of the list of bound flows; a single one may still be told just after
            f = m[1]
            if f in (SENDF, RECVF) and not any(x[1] == ('fld', f) for x in self.marks(st, 'tellf')) and not any(x[1] == ('fld', f) for x in self.marks(st, 'empty')):
                if one and not any(x[1] == ('fld', f) for x in self.marks(st, 'taken')):
                    self.mark(st, ('taken', ('fld', f), (), C1))
                else:
                    self.I.fail(fr, line, 'flows are dropped from the session without having been told')

        def on_call(self, I, st, op, info, args, obj, fr):
            self.I = I
            q = base_q(info['q'])
            n = q.rsplit('::', 1)[-1]
            if q == 'Timer::cancel' and obj is not None:
                self.mark(st, ('cancelled', obj, (), C1))
                return [(st, C0)]
            m = member(obj)
            if m and m[1] in LISTS:
                if n in ('empty', 'size'):
                    rv = I.fresh(st, 'bool', op, fr) if n == 'empty' else I.fresh(st, 'enum', op, fr, (0, psa.INF))
                    e = rv if n == 'empty' else psa.mknot(psa.mknz(rv))
                    self.drop(st, lambda x: x[0] == 'asked' and x[1] == ('fld', m[1]))
                    self.mark(st, ('asked', ('fld', m[1]), (), e))
                    return [(st, rv)]
                if n in ('clear', 'swap'):
                    self.flow_taken(st, m, fr, op.l)
                    self.mark(st, ('empty', ('fld', m[1]), (m[2],) if m[2] is not None else (), C1))
                elif n in ('erase', 'remove', 'removeFirst', 'removeLast', 'pop_front'):
                    self.flow_taken(st, m, fr, op.l, True)
                    self.drop(st, lambda x: x[0] == 'tellf' and x[1] == ('fld', m[1]) and x[3] != C1)
                elif n in ('valuesDo', 'safeValuesDo', 'namesAndValuesDo', 'safeNamesAndValuesDo'):
                    for a in args:
                        if a[0] == 'lam' and self.tells(a[1]):
                            self.mark(st, ('tellf', ('fld', m[1]), (), C1))
                            seen['tell'].add((fr.fn.key, op.l))
                    self.drop(st, lambda x: x[0] == 'asked')
                    I.unknown_call(st, [], args, obj, info, op, fr)
                    return [(st, I.retsym(st, op, fr, info))]
            if q in (SEND + '::onSessionDidClose', RECV + '::abort'):
                f = SENDF if q.startswith(SEND) else RECVF
                seen['tell'].add((fr.fn.key, op.l))
                taken = [x for x in self.marks(st, 'taken') if x[1] == ('fld', f)]
                self.drop(st, lambda x: x[0] in ('tellf', 'asked', 'taken') and x[1] == ('fld', f))
                if not taken:
                    self.mark(st, ('tellf', ('fld', f), (), C0))
                I.unknown_call(st, I.ir.targets(info), args, obj, info, op, fr)
                return [(st, C0)]
            if q == R + '::onSessionDidClose' and len(args) == 2:
                for x in self.marks(st, 'ends'):
                    if args[0] == x[1]:
                        self.mark(st, ('told', x[1], (), psa.mknz(args[1])))
                I.unknown_call(st, I.ir.targets(info), args, obj, info, op, fr)
                return [(st, C0)]

        def tells(self, key):
            return any(ir.bq_of(k) in (SEND + '::onSessionDidClose', RECV + '::abort') for k in reach(ctx, [key]))

        def on_branch(self, I, st, v, truth, b, fr):
            for m in self.marks(st, 'asked'):
                if true(st, m[3]):
                    self.mark(st, ('empty', m[1], (), C1))

        def on_exit(self, I, st, rv, fr):
            if fr.up is not None:
                return
            if self.marks(st, 'taken'):
                I.fail(fr, fr.fn.line, 'flows are dropped from the session without having been told')
            for m in self.marks(st, 'ends'):
                o = m[1]
                for f in sorted(TIMERS):
                    v = st.mem.get(('F', o, f))
                    if v is None or st.decide(psa.mknz(v)) is not False:
                        I.fail(fr, fr.fn.line, 'a session ends while its timer %s may stay set' % f.rsplit('::', 1)[1])
                    elif ('off', ('fld', f), (), C1) not in (st.auto or ()) :
                        I.fail(fr, fr.fn.line, 'a session ends and drops its timer %s without cancelling it' % f.rsplit('::', 1)[1])
                for f in sorted(LISTS):
                    e = [x for x in self.marks(st, 'empty') if x[1] == ('fld', f)]
                    n = size.get(f)
                    idx = {x[2][0] for x in e if x[2]}
                    if not e or n and any(x[0] == 'c' for x in idx) and len({x for x in idx if x[0] == 'c'}) < n:
                        I.fail(fr, fr.fn.line, 'a session ends while %s may not be empty' % f.rsplit('::', 1)[1])
                t = [x for x in self.marks(st, 'told') if x[1] == o]
                if not t:
                    I.fail(fr, fr.fn.line, 'a session ends without the endpoint being told')
                elif m[3] == C1 and not any(true(st, x[3]) for x in t):
                    I.fail(fr, fr.fn.line, 'a closed session keeps its session number')
                if m[3] == C0 and any(not false(st, x[3]) for x in t):
                    I.fail(fr, fr.fn.line, 'a session that still closes loses its session number')
    def ending(fn, o):
        return o.k == 'store' and o.a[0] == 'fld' and o.a[2] == STATE and not (o.info or {}).get('init') and not (o.b[0] == 'c' and o.b[1] < NEAR)
    for k in sorted(psa.functions_with(ir, ending)):
        run_root(ctx, 'R1', R1, k)
    ctx.need('endings', len(seen['end']), 2)
    ctx.need('flows_told', len(seen['tell']), 2)

    # ---- R4 ending is not left half way
    ctx.rule('R4: aborting a session leaves it closed from whatever state, closing it leaves it closing or closed (closed if not orderly), and a session left closing has a timer whose action can abort it')

    def aborts(k, depth=2):
        for b in ir.fn(k).blocks:
            for o in b.ops:
                for t in ir.targets(o.info) if o.k == 'call' else ():
                    if ir.bq_of(t) == S + '::abort' or depth and ir.fn(t) is not None and ir.cls_of(t) == S and aborts(t, depth - 1):
                        return True
        return False

    class R4(Watch):
        tracked = frozenset([STATE])
        cap = 300

        def enum_range(self, f):
            return (0, hi) if f == STATE else None

        def havoc_value(self, I, st, place, old):
            lo = max(int(st.rng(old)[0]), 0)
            s = ('s', 'enum', lo, hi, 'mono')
            I.kill_sym(st, s)
            return s

        def events(self):
            return {S + '::abort'}

        event_fields = frozenset([STATE])

        def remember(self, v):
            return v == ('s', 'bool', 0)

        def on_store(self, I, st, p, v, op, fr):
            if p[0] == 'F' and p[2] == STATE and not (op.info or {}).get('init') and NEAR <= st.rng(v)[0] < CLOSED:
                self.mark(st, ('closing', p[1], (), C1))

        def on_op(self, I, st, op, fr):
            # the action of a timer: the function object that can abort is stored into it
            if op.k == 'lambda' and aborts(op.x):
                self.mark(st, ('aborter', C0, (), C1))
            if op.k == 'call' and base_q(op.info['q']) in (R + '::scheduleRel', R + '::schedule', 'TimerList::scheduleRel', 'TimerList::schedule'):
                self.mark(st, ('timer', C0, (), C1))

        def on_exit(self, I, st, rv, fr):
            if fr.up is not None:
                return
            v = st.mem.get(('F', fr.this, STATE))
            lo = st.rng(v)[0] if v is not None else 0
            q = fr.fn.bq
            if q == S + '::abort' and lo < CLOSED:
                I.fail(fr, fr.fn.line, 'a session that is aborted may stay in an earlier state')
            if q == S + '::close':
                if lo < NEAR:
                    I.fail(fr, fr.fn.line, 'a session that is closed may stay open or opening')
                elif lo < CLOSED and (('s', 'bool', 0), True) not in self.compared(st):
                    I.fail(fr, fr.fn.line, 'a session that is closed at once may stay in an earlier state')
            if self.marks(st, 'closing') and lo < CLOSED and not (self.marks(st, 'aborter') and self.marks(st, 'timer')):
                I.fail(fr, fr.fn.line, 'a session is left closing without a timer that ends it')
    n = 0
    for q in (S + '::abort', S + '::close', S + '::setNearclose', S + '::setFarcloseLinger'):
        for k in named(ctx, q):
            n += 1
            run_root(ctx, 'R4', R4, k)
    ctx.need('closing_functions', n, 2)

    # ---- R5 nothing is armed or bound on a closing session
    ctx.rule('R5: a timer member of a session is set, and a flow or fragment put into one of its lists, only on paths that know the session not to be closing or closed')

    class R5(Watch):
        tracked = TIMERS | {STATE, field(ctx, 'Flow::m_session'), field(ctx, 'SendFlow::m_openingSession')}
        private = frozenset([field(ctx, 'Flow::m_session')])
        cap = 300

        def enum_range(self, f):
            return (0, hi) if f == STATE else None

        def on_call_(self, I, st, op, info, args, obj, fr):
            # timers are only put in order here; what runs them is woken, not run
            if base_q(info['q']) in TIMEROPS:
                return [(st, I.fresh(st, 'tm', op, fr) if op.dst is not None else C0)]

        def known(self, I, st, o, fr, line, what):
            self.nevents += 1
            v = st.mem.get(('F', o, STATE))
            if v is None or st.rng(v)[1] >= NEAR:
                I.fail(fr, line, what)

        def on_store(self, I, st, p, v, op, fr):
            if p[0] == 'F' and p[2] in TIMERS and st.decide(psa.mknz(v)) is not False and not (op.info or {}).get('init'):
                seen['arm'].add((fr.fn.key, op.l))
                self.known(I, st, p[1], fr, op.l, 'a timer of a session is set although the session may be closing')

        def on_call(self, I, st, op, info, args, obj, fr):
            if base_q(info['q']) in TIMEROPS:
                return self.on_call_(I, st, op, info, args, obj, fr)
            m = member(obj)
            if m and m[1] in LISTS and info['q'].rsplit('::', 1)[-1] in GROW:
                seen['grow'].add((fr.fn.key, op.l))
                self.known(I, st, m[0], fr, op.l, 'something is put into %s of a session that may be closing' % m[1].rsplit('::', 1)[1])

    def grows(fn, o):
        if o.k == 'store' and o.a[0] == 'fld' and o.a[2] in TIMERS and o.b != ('null',) and not (o.info or {}).get('init'):
            return True
        if o.k == 'call' and o.info.get('obj') and o.info['q'].rsplit('::', 1)[-1] in GROW:
            p = o.info['obj']
            while p[0] == 'elem':
                p = p[1][1] if p[1][0] == 'addr' else p[1]
            return p[0] == 'fld' and p[2] in LISTS
        return False
    ctx.discharge('R5', R5, psa.functions_with(ir, grows))
    ctx.need('timers_set', len(seen['arm']), 3)
    ctx.need('list_insertions', len(seen['grow']), 3)

    # ---- R6 the lookup tables
    ctx.rule('R6: analysed with the session found in every lookup table, the endpoint removes it from each (the table by number only when the number is released) and tells the flows still waiting for it')
    ctx.rule('R6b: analysed with other sessions in its places, the endpoint leaves those alone')
    TABLES = {}
    for n_, key in (('m_openingSessions', None), ('m_openSessionsByAddress', 'm_destAddr'), ('m_openSessionsByCanonicalEPD', 'm_epd'), ('m_sessions', 'm_rxSessionID')):
        TABLES[field(ctx, 'RTMFP::' + n_)] = field(ctx, 'Session::' + key) if key else None
    NUM, ADDR = field(ctx, 'RTMFP::m_sessions'), field(ctx, 'RTMFP::m_openSessionsByAddress')
    OPENING = field(ctx, 'RTMFP::m_openingFlows')
    A0, A1 = ('s', 'arg', 0), ('s', 'arg', 1)
    DEST = field(ctx, 'Session::m_destAddr')

    users = psa.functions_with(ir, lambda fn, o: o.k == 'call' and (o.info.get('obj') or ('',))[0] == 'fld' and o.info['obj'][2] in TABLES)

    class Table(Watch):
        tracked = frozenset([DEST])
        private = tracked
        here = True
        skip = Watch.skip + ('List::', 'SumList::')
        old = False             # the key to look up by is the second parameter

        def remember(self, v):
            return v == ('s', 'bool', 1)

        def on_enter(self, I, st, fr):
            if fr.up is None:
                self.mark(st, ('keep', ('s', 'bool', 1), (), C1))

        def events(self):
            return {SEND + '::onSessionDidClose'}

        def inline(self, I, key, info):
            return key in users or Watch.inline(self, I, key, info)

        def ours(self, st, m, v):
            """does the argument lead to the session's own entry?"""
            if v[0] == 'addr' and v[1][0] in ('L', 'T') and v[1] in st.mem:
                v = st.mem[v[1]]
            f = TABLES[m[1]]
            if v[0] == 'tab' or any(x[0] == 'it' and x[1] == ('fld', m[1]) and x[3] == v for x in st.auto or ()):
                return True
            if f is None:
                return v == A0
            if m[1] == ADDR and self.old:
                return v in (A1, ('addr', ('D', A1)), ('addr', A1)) or v[0] == 'addr' and A1 in v[1]
            return v == ('addr', ('F', A0, f)) or st.mem.get(('F', A0, f)) == v or any(x[0] == 'key' and x[3] == v and x[1] == ('fld', f) for x in st.auto or ())

        def on_load(self, I, st, p, op, fr):
            if p[0] == 'F' and p[1][:3] == ('s', 'new', 'entry'):
                return (A0 if self.here else ('s', 'new', 'other')) if p[2].endswith(('value', 'second')) else None
            if p[0] == 'F' and p[1] == A0 and p[2] in TABLES.values():
                for x in self.marks(st, 'key'):
                    if x[1] == ('fld', p[2]):
                        return x[3]
                v = I.fresh(st, 'ld', op, fr)
                self.mark(st, ('key', ('fld', p[2]), (), v))
                return v

        def content(self, I, st, m, op):
            o = ('s', 'new', 'entry', m[1])
            if 'pair<' in (op.info.get('t') or ''):
                return o
            return ('addr', ('F', o, 'value'))

        def on_call(self, I, st, op, info, args, obj, fr):
            q = base_q(info['q'])
            n = info['q'].rsplit('::', 1)[-1]
            m = member(obj)
            if m and m[1] in TABLES and m[0] == fr.this:
                seen['rem'].add((fr.fn.key, op.l))
                ours = bool(args) and self.ours(st, m, args[0])
                if n in ('find', 'lower_bound', 'equal_range') and ours:
                    absent = TABLES[m[1]] is None and not self.here
                    rv = C0 if absent else I.fresh(st, 'it', op, fr)
                    if not absent:
                        self.mark(st, ('it', ('fld', m[1]), (), rv))
                        if TABLES[m[1]] is None:
                            st.refine(psa.mknz(rv), True)
                    return [(st, rv)]
                if n in ('has', 'count', 'contains') and ours:
                    return [(st, C1)]
                if n in ('end', 'cend'):
                    rv = I.fresh(st, 'end', op, fr)
                    self.mark(st, ('end', ('fld', m[1]), (), rv))
                    return [(st, rv)]
                if n in ('at', 'operator[]') and ours:
                    return [(st, self.content(I, st, m, op))]
                if n in ('erase', 'remove', 'removeFirst', 'clear', 'extract'):
                    if not ours and args and args[0] == C0:
                        return [(st, C0)]
                    self.mark(st, ('removed', ('fld', m[1]), (), C1 if ours else C0))
                    return [(st, I.fresh(st, 'rm', op, fr) if op.dst is not None else C0)]
            if n in ('operator!=', 'operator==') and len(args) + (obj is not None) == 2:
                vs = [st.mem.get(a[1], a) if a[0] == 'addr' else a for a in list(args) + ([obj] if obj is not None else [])]
                its = [x for x in self.marks(st, 'it') if x[3] in vs]
                ends = [x for x in self.marks(st, 'end') if x[3] in vs]
                if its and ends:
                    return [(st, C1 if n == 'operator!=' else C0)]
            if n in ('operator->', 'operator*') and obj is not None:
                v = st.mem.get(obj[1], obj) if obj[0] == 'addr' else obj
                for x in self.marks(st, 'it'):
                    if x[3] == v:
                        c = self.content(I, st, (None, x[1][1]), op)
                        return [(st, c)]
            if m and m[1] == OPENING and n in ('valuesDo', 'safeValuesDo', 'namesAndValuesDo', 'safeNamesAndValuesDo') and any(a[0] == 'lam' and any(ir.bq_of(k) == SEND + '::onSessionDidClose' for k in reach(ctx, [a[1]])) for a in args):
                self.mark(st, ('told', C0, (), C1))
                return [(st, C0)]
            if q == SEND + '::onSessionDidClose' and args and args[0] == A0:
                self.mark(st, ('told', C0, (), C1))
            if m and m[1] == ADDR and n in ('operator[]', 'insert', 'emplace', 'insert_or_assign'):
                pass

        def on_exit(self, I, st, rv, fr):
            if fr.up is not None:
                return
            r = {x[1][1] for x in self.marks(st, 'removed') if x[3] == C1}
            keep = (('s', 'bool', 1), False) in self.compared(st)
            for f in sorted(TABLES):
                name = f.rsplit('::', 1)[1]
                if self.here and f not in r and not (f == NUM and keep):
                    I.fail(fr, fr.fn.line, 'a session that ended stays in %s' % name)
                if self.here and f in r and f == NUM and not (('s', 'bool', 1), True) in self.compared(st):
                    I.fail(fr, fr.fn.line, 'a session that is still closing loses its session number')
                if not self.here and f in {x[1][1] for x in self.marks(st, 'removed')}:
                    I.fail(fr, fr.fn.line, 'ending a session removes another one from %s' % name)
            if not self.marks(st, 'told'):
                I.fail(fr, fr.fn.line, 'flows waiting for a session are not told that it ended')

    class TableOther(Table):
        here = False
    closers = named(ctx, R + '::onSessionDidClose')
    ctx.need('endpoint_handlers', len(closers), 1)
    for k in closers:
        run_root(ctx, 'R6', Table, k)
        run_root(ctx, 'R6b', TableOther, k)
    ctx.need('table_operations', len(seen['rem']), 4)

    # ---- R7 the tables follow the address
    ctx.rule('R7: when the address of an open session changes, the table by address forgets the session under the old one and has it under the new one')

    class Moved(Table):
        old = True

        def on_call(self, I, st, op, info, args, obj, fr):
            m = member(obj)
            n = info['q'].rsplit('::', 1)[-1]
            if m and m[1] == ADDR and args and not self.ours(st, m, args[0]) and n in ('operator[]', 'insert_or_assign'):
                a = args[0]
                if a == ('addr', ('F', A0, DEST)):
                    rv = ('s', 'new', 'slot')
                    self.mark(st, ('slot', C0, (), rv))
                    return [(st, ('addr', ('F', rv, 'value')))]
            return Table.on_call(self, I, st, op, info, args, obj, fr)

        def on_store(self, I, st, p, v, op, fr):
            if p[0] == 'F' and p[1] == ('s', 'new', 'slot') and v == A0:
                self.mark(st, ('entered', C0, (), C1))

        def on_exit(self, I, st, rv, fr):
            if fr.up is not None:
                return
            if self.here and not any(x[1] == ('fld', ADDR) and x[3] == C1 for x in self.marks(st, 'removed')):
                I.fail(fr, fr.fn.line, 'a session that moved stays in the table under its old address')
            if not self.here and self.marks(st, 'removed'):
                I.fail(fr, fr.fn.line, 'a session that moved takes another one out of the table')
            if not self.marks(st, 'entered'):
                I.fail(fr, fr.fn.line, 'a session that moved is not found under its new address')

    class MovedOther(Moved):
        here = False
    mv = named(ctx, R + '::onSessionAddressDidChange')
    ctx.need('move_handlers', len(mv), 1)
    for k in mv:
        run_root(ctx, 'R7', Moved, k)
        run_root(ctx, 'R7', MovedOther, k)

    class Moves(Watch):
        tracked = frozenset([STATE])

        def enum_range(self, f):
            return (0, hi) if f == STATE else None

        def events(self):
            return {R + '::onSessionAddressDidChange', R + '::onSessionDidOpen'}

        def changed(self, I, st, o, fr, line):
            self.nevents += 1
            v = st.mem.get(('F', o, STATE))
            if v is None or st.rng(v)[1] >= OPEN:
                seen['cb'].add((fr.fn.key, line))
                self.mark(st, ('moved', o, (), C1))

        def on_store(self, I, st, p, v, op, fr):
            if p[0] == 'F' and p[2] == DEST and not (op.info or {}).get('init'):
                self.changed(I, st, p[1], fr, op.l)

        def on_call(self, I, st, op, info, args, obj, fr):
            if obj is not None and obj[0] == 'addr' and obj[1][0] == 'F' and obj[1][2] == DEST and not info.get('const'):
                self.changed(I, st, obj[1][1], fr, op.l)
            if base_q(info['q']) in self.events() and args:
                self.drop(st, lambda m: m[0] == 'moved' and m[1] == args[0])

        def on_exit(self, I, st, rv, fr):
            if fr.up is None and self.marks(st, 'moved'):
                I.fail(fr, fr.fn.line, 'the address of a session that may be open changes without the endpoint being told')
    def moves(fn, o):
        return o.k == 'store' and o.a[0] == 'fld' and o.a[2] == DEST and not (o.info or {}).get('init') or \
            o.k == 'call' and (o.info.get('obj') or ('',))[0] == 'fld' and o.info['obj'][2] == DEST and not o.info.get('const')
    for k in sorted(psa.functions_with(ir, moves)):
        run_root(ctx, 'R7', Moves, k)

    # ---- R8 what a flow does when told
    ctx.rule('R8: a sending flow told that its session ended (bound to it or waiting for it) ends closed, bound and waiting for nothing, its timer cancelled and dropped, its queue emptied and its failure callback called once')
    ctx.rule('R8b: a sending flow told about another session changes nothing')
    FST, FSESS, FOPEN, FPT = field(ctx, 'SendFlow::m_state'), field(ctx, 'Flow::m_session'), field(ctx, 'SendFlow::m_openingSession'), field(ctx, 'SendFlow::m_persistTimer')
    FEXC, FQ, FID = field(ctx, 'SendFlow::onException'), field(ctx, 'SendFlow::m_send_queue'), field(ctx, 'SendFlow::m_flow_id')
    FCLOSED = const(ctx, 'SendFlow::F_CLOSED')
    CB, PT = ('s', 'bool', 91), ('s', 'new', 'timer')

    class Told(Watch):
        timer, callback, state, closedv = FPT, FEXC, FST, FCLOSED
        mode = 'bound'
        skip = Watch.skip + ('List::', 'SumList::')
        cap = 400

        tracked = frozenset([FST, FSESS, FOPEN, FPT, FEXC, STATE])
        private = frozenset([FST, FSESS, FOPEN, FPT, FEXC, STATE])

        def events(self):
            return {'Timer::cancel', SEND + '::close', SEND + '::gotoStateClosed', RECV + '::close', S + '::unbindFlow'}

        def enum_range(self, f):
            return (0, hi) if f == STATE else (0, self.closedv) if f == self.state else None

        def on_enter(self, I, st, fr):
            if fr.up is not None:
                return
            th = fr.this
            for x in (CB, PT, A0):
                self.mark(st, ('keep', x, (), C1))
            st.refine(psa.mknz(A0), True)
            st.mem[('F', th, self.callback)] = CB
            st.mem[('F', th, self.timer)] = PT
            st.mem[('F', A0, STATE)] = ('s', 'enum', NEAR, hi, 'ended')
            self.setup(st, th)

        def setup(self, st, th):
            other = ('s', 'new', 'session')
            st.mem[('F', th, FSESS)] = {'bound': A0, 'opening': C0, 'other': other, 'none': C0}[self.mode]
            st.mem[('F', th, FOPEN)] = {'bound': C0, 'opening': A0, 'other': C0, 'none': other}[self.mode]
            st.mem[('F', th, FST)] = ('s', 'enum', 0, 1 if self.mode in ('bound', 'other') else 0, 'fst')

        def on_store(self, I, st, p, v, op, fr):
            if self.mode in ('other', 'none') and p[0] == 'F' and p[1] == fr.this and p[2] in self.tracked:
                I.fail(fr, op.l, 'a flow changes because a session ended that it has nothing to do with')

        def on_callv(self, I, st, op, fv, args, fr):
            if fv == CB:
                seen['cancel'].add((fr.fn.key, op.l))
                if self.marks(st, 'called'):
                    I.fail(fr, op.l, 'a flow reports its end more than once')
                if len(args) == 1 and false(st, args[0]) and self.state != FST:
                    I.fail(fr, op.l, 'a receiving flow reports completion although its session ended')
                self.mark(st, ('called', C0, (), C1))

        def on_call(self, I, st, op, info, args, obj, fr):
            q = base_q(info['q'])
            if q == 'Timer::cancel' and obj == PT:
                self.mark(st, ('cancelled', C0, (), C1))
                return [(st, C0)]
            if q == S + '::unbindFlow' and obj is not None:
                self.mark(st, ('unbound', C0, (), C1))
                return [(st, C0)]
            m = member(obj)
            if m and m[1] == self.queue and info['q'].rsplit('::', 1)[-1] in ('clear', 'swap'):
                self.mark(st, ('emptied', C0, (), C1))
                return [(st, C0)]
        queue = FQ

        def on_exit(self, I, st, rv, fr):
            if fr.up is not None or self.mode in ('other', 'none'):
                return
            th = fr.this
            def null(f):
                v = st.mem.get(('F', th, f))
                return v is not None and st.decide(psa.mknz(v)) is False
            s = st.mem.get(('F', th, self.state))
            if s is None or st.rng(s)[0] < self.closedv:
                I.fail(fr, fr.fn.line, 'a flow told that its session ended may not be closed')
            for f, what in ((FSESS, 'bound to the session'), (FOPEN, 'waiting for the session')):
                if self.state == FST and not null(f):
                    I.fail(fr, fr.fn.line, 'a flow told that its session ended stays %s' % what)
            if self.state == FST and self.mode == 'bound' and not self.marks(st, 'unbound'):
                I.fail(fr, fr.fn.line, 'a flow told that its session ended stays in the list of bound flows')
            if not null(self.timer):
                I.fail(fr, fr.fn.line, 'a flow told that its session ended keeps its timer')
            elif not self.marks(st, 'cancelled'):
                I.fail(fr, fr.fn.line, 'a flow told that its session ended drops its timer without cancelling it')
            if not self.marks(st, 'emptied'):
                I.fail(fr, fr.fn.line, 'a flow told that its session ended keeps what was queued')
            if not self.marks(st, 'called') and st.decide(psa.mknz(CB)) is not False and self.owed(st, fr):
                I.fail(fr, fr.fn.line, 'a flow told that its session ended does not report it')

        def owed(self, st, fr):
            return True
    tell = named(ctx, SEND + '::onSessionDidClose')
    ctx.need('flow_handlers', len(tell), 1)
    for k in tell:
        for md in ('bound', 'opening', 'other', 'none'):
            run_root(ctx, 'R8b' if md in ('other', 'none') else 'R8', type('Told_' + md, (Told,), {'mode': md}), k)

    ctx.rule('R9: a receiving flow told that its session ended ends closed, its timer cancelled and dropped, its buffer emptied and, if still open, its completion callback called once with an error')
    OPENFLAG, ACCEPTED = field(ctx, 'Flow::m_base_isOpen'), field(ctx, 'RecvFlow::m_accepted')

    class Aborted(Told):
        timer, callback, state, closedv = field(ctx, 'RecvFlow::m_complete_linger_alarm'), field(ctx, 'RecvFlow::onComplete'), field(ctx, 'RecvFlow::m_state'), const(ctx, 'RecvFlow::RF_CLOSED')
        queue = field(ctx, 'RecvFlow::m_recv_buffer')
        tracked = frozenset([timer, callback, state, OPENFLAG, ACCEPTED])
        private = tracked

        def events(self):
            return Told.events(self) | {RECV + '::isOpen', 'rtmfp::Flow::isOpen'}

        def setup(self, st, th):
            for i, f in ((92, OPENFLAG), (93, ACCEPTED)):
                st.mem[('F', th, f)] = ('s', 'bool', i)
                self.mark(st, ('keep', ('s', 'bool', i), (), C1))

        def owed(self, st, fr):
            return all(st.decide(('s', 'bool', i)) is not False for i in (92, 93))
    ab = named(ctx, RECV + '::abort')
    ctx.need('abort_handlers', len(ab), 1)
    for k in ab:
        run_root(ctx, 'R9', Aborted, k)
    ctx.need('end_reports', len(seen['cancel']), 2)
