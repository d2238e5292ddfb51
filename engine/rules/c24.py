"""A cancelled timer never fires and the timer list stays ordered."""
import psa
from psa import C0, C1
from lib import *

EXPLANATION = ('Path-sensitive typestate analysis of the timer and timer list code, starting from every function that changes a due time, inserts into or removes from the ordered set, invokes an action or '
               'cancels, and lifted to the callers where the fact is established there. On each path it is tracked whether the timer is out of the set, whether it is known not cancelled since the last '
               'application callback, whether it was found due, whether it was rescheduled by its action, and whether an iterator is still the one found before the last callback. The comparison function is '
               'evaluated on each of its paths against the order of (due time, identity).')


def run(ctx):
    ir = ctx.ir
    WHEN, LIST, CAN, RES, REC, FIR, ACT = (field(ctx, 'Timer::' + x) for x in ('m_when', 'm_timerList', 'm_canceled', 'm_rescheduled', 'm_recurInterval', 'm_firing', 'action'))
    SET = field(ctx, 'TimerList::m_timers')
    n = dict(when=set(), insert=set(), act=set(), cancel=set(), erase=set(), cmp=0, actst=set())

    def setcall(info):
        o = info.get('obj')
        return info['q'].rsplit('::', 1)[-1] if o and o[0] == 'fld' and o[2] == SET else None

    def is_set(*names):
        return psa.functions_with(ir, lambda fn, o: o.k == 'call' and setcall(o.info) in names)

    runs_action = psa.functions_with(ir, lambda fn, o: o.k == 'callv' and o.b is not None and o.b[0] == 'fld' and o.b[2] == ACT)
    INSERTS = ('insert', 'emplace', 'emplace_hint')

    class Base(Watch):
        tracked = frozenset([WHEN, LIST, CAN, RES, REC, FIR, ACT])
        event_depth = 8

        def inline(self, I, key, info):
            c = ir.cls_of(key)
            return c in ('Timer', 'TimerList') or Watch.inline(self, I, key, info)

        def on_store(self, I, st, p, v, op, fr):
            if p[0] == 'L' and 'delta' in (op.info or {}):
                return I.fresh(st, 'cnt', op, fr)       # counters of loops
            return self.on_put(I, st, p, v, op, fr)

        def on_put(self, I, st, p, v, op, fr):
            return None

        def get(self, st, t, f):
            return st.mem.get(('F', t, f))

        def known(self, st, t, f, want):
            v = self.get(st, t, f)
            return v is not None and st.decide(psa.mknz(v)) is want

        def action_place(self, op):
            return op.b is not None and op.b[0] == 'fld' and op.b[2] == ACT

        def on_callv(self, I, st, op, fv, args, fr):
            if self.action_place(op):
                p = I.place(st, op.b, fr)
                self.on_action(I, st, op, p[1], args, fr)
            else:
                self.on_other(I, st, op, fr)

        def on_action(self, I, st, op, timer, args, fr):
            pass

        def on_other(self, I, st, op, fr):
            pass

        def on_set(self, I, st, op, m, args, fr):
            pass

        def on_call(self, I, st, op, info, args, obj, fr):
            m = setcall(info)
            if m:
                r = self.on_set(I, st, op, m, args, fr)
                if r is not None:
                    return r
            return Watch.on_call(self, I, st, op, info, args, obj, fr)

    # ---- R1
    ctx.rule('R1: the due time of a timer is stored only while the timer is out of the ordered set: it is in no list, or it was removed on this path and not inserted since, or its action ran since and did not reschedule it')

    class R1(Base):
        tracked = frozenset([CAN, LIST, RES])

        def on_set(self, I, st, op, m, args, fr):
            if m in ('erase', 'extract'):
                self.drop(st, lambda x: x[0] == 'outr')
                self.mark(st, ('out', C0, (), C1))
            elif m in INSERTS or m == 'begin':
                self.drop(st, lambda x: x[0] in ('out', 'outr'))

        def on_action(self, I, st, op, timer, args, fr):
            if self.marks(st, 'out'):
                self.drop(st, lambda x: x[0] in ('out', 'outr'))
                if self.known(st, timer, RES, False):
                    self.mark(st, ('outr', timer, (), C1))
            else:
                self.drop(st, lambda x: x[0] == 'outr')

        on_other = lambda self, I, st, op, fr: self.drop(st, lambda x: x[0] in ('out', 'outr'))

        def on_put(self, I, st, p, v, op, fr):
            if p[0] != 'F' or p[2] != WHEN or (op.info or {}).get('init'):
                return
            self.nevents += 1
            n['when'].add((fr.fn.key, op.l))
            t = p[1]
            if self.marks(st, 'out') or self.known(st, t, LIST, False):
                return
            if any(m[1] == t for m in self.marks(st, 'outr')) and self.known(st, t, RES, False):
                return
            I.fail(fr, op.l, 'the due time of a timer is changed although the timer may be in the ordered list')
    ctx.discharge('R1', R1, stores_to(ctx, {WHEN}))
    ctx.need('due_time_stores', len(n['when']), 3)

    # ---- R2
    ctx.rule('R2: an existing timer is put into the ordered set only if it was found not cancelled since the last callback; while it fires only if it was found recurring and its due time was advanced; elsewhere it is marked rescheduled')

    class R2(Base):
        tracked = frozenset([CAN, RES, REC])

        def on_action(self, I, st, op, timer, args, fr):
            self.mark(st, ('fired', timer, (), C1))

        def remember_pos(self, v):
            return v[0] == 'op' and v[1] == '<'

        def on_branch(self, I, st, v, truth, b, fr):
            if v[0] == 'not':
                v, truth = v[1], not truth
            if v[0] == 'op' and v[1] == '<' and truth:
                for q, x in st.mem.items():
                    if q[0] == 'F' and q[2] == REC and x == v[3]:
                        self.mark(st, ('recurs', q[1], (), C1))

        def on_put(self, I, st, p, v, op, fr):
            if p[0] == 'F' and p[2] == WHEN:
                self.mark(st, ('moved', p[1], (), C1))
            if p[0] == 'F' and p[2] == RES and st.decide(psa.mknz(v)) is False:
                # firing begins: what was found out about the timer before it is over
                self.drop(st, lambda x: x[0] in ('fired', 'recurs', 'moved', 'resch'))
                self.mark(st, ('fired', p[1], (), C1))
            if p[0] == 'F' and p[2] == RES and st.decide(psa.mknz(v)) is True:
                self.drop(st, lambda m: m[0] == 'pending')
                self.mark(st, ('resch', p[1], (), C1))

        def on_set(self, I, st, op, m, args, fr):
            if m not in INSERTS:
                return
            self.nevents += 1
            n['insert'].add((fr.fn.key, op.l))
            t = args[-1]
            if t[0] == 'addr':
                t = st.mem.get(t[1], t)
            if t[0] == 's' and t[1] == 'new':
                return
            if not self.known(st, t, CAN, False):
                I.fail(fr, op.l, 'a timer is put into the ordered list although it may have been cancelled')
            elif any(x[1] == t for x in self.marks(st, 'fired')):
                if not any(x[1] == t for x in self.marks(st, 'recurs')):
                    I.fail(fr, op.l, 'a timer that fired is put back into the ordered list although it may not be a recurring one')
                elif not any(x[1] == t for x in self.marks(st, 'moved')):
                    I.fail(fr, op.l, 'a timer that fired is put back into the ordered list without advancing its due time')
                elif not self.known(st, t, RES, False):
                    I.fail(fr, op.l, 'a timer that fired is put back into the ordered list although its action may have rescheduled it')
            elif not self.marks(st, 'resch'):
                self.mark(st, ('pending', t, (), ('c', op.l)))

        def on_exit(self, I, st, rv, fr):
            if fr.up is None:
                for m in self.marks(st, 'pending'):
                    I.fail(fr, m[3][1], 'an existing timer is put into the ordered list without marking it rescheduled')

    # addTimer itself is the primitive: its callers are looked at
    adders = is_set(*INSERTS)
    prim = {k for k in adders if ir.bq_of(k) == 'TimerList::addTimer'}
    ctx.need('set_insertion_functions', len(adders), 1)
    ctx.discharge('R2', R2, adders | calls_to(ctx, 'TimerList::addTimer') - prim if adders - prim else calls_to(ctx, 'TimerList::addTimer'))
    ctx.need('insertions', len(n['insert']), 1)

    # ---- R3
    ctx.rule('R3: an action is invoked only for a timer found due at the time handed to it and taken out of the ordered set for that, known not cancelled since the last callback, with the rescheduled mark cleared; '
             'afterwards the timer is cancelled unless it recurs or was rescheduled')

    class R3(Base):
        tracked = frozenset([WHEN, CAN, RES, FIR])

        def on_branch(self, I, st, v, truth, b, fr):
            if v[0] == 'not':
                v, truth = v[1], not truth
            if v[0] != 'op' or v[1] not in ('<', '<='):
                return
            for q, x in list(st.mem.items()):
                if q[0] == 'F' and q[2] == WHEN and x in (v[2], v[3]):
                    self.drop(st, lambda m: m[0] == 'due')
                    # now < when is false, or when <= now is true, or when < now
                    if v[3] == x and v[1] == '<' and not truth:
                        self.mark(st, ('due', q[1], (v[2],), C1))
                    elif v[2] == x and truth:
                        self.mark(st, ('due', q[1], (v[3],), C1))

        def on_set(self, I, st, op, m, args, fr):
            if m == 'erase':
                self.mark(st, ('out', C0, (), C1))
            elif m in INSERTS:
                self.drop(st, lambda x: x[0] == 'out')

        def on_action(self, I, st, op, timer, args, fr):
            self.nevents += 1
            n['act'].add((fr.fn.key, op.l))
            if not self.known(st, timer, CAN, False):
                I.fail(fr, op.l, 'the action of a timer is invoked although the timer may have been cancelled')
            elif not self.known(st, timer, RES, False):
                I.fail(fr, op.l, 'the action of a timer is invoked without clearing the mark that it was rescheduled')
            elif not self.known(st, timer, FIR, True):
                I.fail(fr, op.l, 'the action of a timer is invoked without the mark that keeps it alive while it runs')
            elif not any(m[1] == timer and m[2][0] in args for m in self.marks(st, 'due')):
                I.fail(fr, op.l, 'the action of a timer is invoked although the timer was not found due')
            elif not self.marks(st, 'out'):
                I.fail(fr, op.l, 'the action of a timer is invoked while the timer is still in the ordered list')
            self.drop(st, lambda m: m[0] in ('due', 'out'))

        def havoc_value(self, I, st, place, old):
            # nothing but the firing code itself changes the mark
            return old if place[2] == FIR else None

    ctx.discharge('R3', R3, runs_action)
    ctx.need('action_invocations', len(n['act']), 1)

    class R3b(Base):
        tracked = frozenset([CAN, RES, FIR, REC])

        def on_action(self, I, st, op, timer, args, fr):
            self.mark(st, ('fired', timer, (), C1))

        def on_set(self, I, st, op, m, args, fr):
            if m in INSERTS:
                self.mark(st, ('in', C0, (), C1))

        def havoc_value(self, I, st, place, old):
            return old if place[2] == FIR else None

        def on_exit(self, I, st, rv, fr):
            if fr.up is not None:
                return
            for m in self.marks(st, 'fired'):
                t = m[1]
                if not (self.known(st, t, CAN, True) or self.known(st, t, RES, True) or self.marks(st, 'in') or self.recurring(st, t)):
                    I.fail(fr, fr.fn.line, 'a timer that fired and neither recurs nor was rescheduled is not cancelled')
                if self.get(st, t, FIR) is not None and not self.known(st, t, FIR, False):
                    I.fail(fr, fr.fn.line, 'the mark that an action is running stays set after the action returned')

        def on_branch(self, I, st, v, truth, b, fr):
            if v[0] == 'not':
                v, truth = v[1], not truth
            if v[0] == 'op' and v[1] == '<' and truth:
                for q, x in st.mem.items():
                    if q[0] == 'F' and q[2] == REC and x == v[3]:
                        self.mark(st, ('recurs', q[1], (), C1))

        def recurring(self, st, t):
            return any(m[1] == t for m in self.marks(st, 'recurs')) and self.known(st, t, CAN, False)
    for k in sorted(runs_action):
        run_root(ctx, 'R3', R3b, k)

    # ---- R4
    ctx.rule('R4: cancelling marks the timer cancelled, takes it out of the ordered set it is in and forgets the list; nothing ever takes the mark back')

    class R4(Base):
        tracked = frozenset([CAN, LIST])

        def on_set(self, I, st, op, m, args, fr):
            if m == 'erase':
                self.mark(st, ('out', C0, (), C1))

        def on_put(self, I, st, p, v, op, fr):
            if p[0] == 'F' and p[2] == CAN and not (op.info or {}).get('init'):
                self.nevents += 1
                n['cancel'].add((fr.fn.key, op.l))
                if st.decide(psa.mknz(v)) is not True:
                    I.fail(fr, op.l, 'the mark that a timer is cancelled may be taken back')
                self.mark(st, ('can', p[1], (), C1))
                lv = self.get(st, p[1], LIST)
                if lv is None:
                    lv = I.load(st, ('F', p[1], LIST), op, fr)
                self.mark(st, ('had', p[1], (lv,), C1))

        def on_exit(self, I, st, rv, fr):
            if fr.up is not None:
                return
            for m in self.marks(st, 'can'):
                t = m[1]
                if not self.known(st, t, CAN, True):
                    I.fail(fr, fr.fn.line, 'a timer may be left not cancelled')
                if not self.known(st, t, LIST, False):
                    I.fail(fr, fr.fn.line, 'a cancelled timer keeps pointing at the list it was in')
                for h in self.marks(st, 'had'):
                    if st.decide(psa.mknz(h[2][0])) is not False and not self.marks(st, 'out'):
                        I.fail(fr, fr.fn.line, 'a cancelled timer stays in the ordered list')
    for k in sorted(stores_to(ctx, {CAN})):
        run_root(ctx, 'R4', R4, k)
    ctx.need('cancel_marks', len(n['cancel']), 1)

    # ---- R5
    ctx.rule('R5: every timer removed from the ordered set forgets the list or is fired; the set is never emptied wholesale while it may hold timers, and is empty when its list is destroyed')

    class R5(Base):
        tracked = frozenset([LIST, CAN, ACT])

        def on_set(self, I, st, op, m, args, fr):
            if m == 'empty':
                s = I.fresh(st, 'bool', op, fr)
                self.mark(st, ('empty', C0, (), s))
                return [(st, s)]
            if m in INSERTS:
                self.drop(st, lambda x: x[0] == 'empty')
            if m in ('erase', 'extract'):
                self.nevents += 1
                n['erase'].add((fr.fn.key, op.l))
                if self.marks(st, 'forgot'):
                    self.drop(st, lambda x: x[0] == 'forgot')
                else:
                    self.mark(st, ('gone', C0, (), ('c', op.l)))
            if m in ('clear', 'swap', 'operator='):
                if not any(true(st, x[3]) for x in self.marks(st, 'empty')):
                    I.fail(fr, op.l, 'all timers are dropped at once: those that live on keep pointing at the list, and destroying their actions may use the set while it is being emptied')

        def on_put(self, I, st, p, v, op, fr):
            if p[0] == 'F' and p[2] == LIST and st.decide(psa.mknz(v)) is False:
                self.drop(st, lambda m: m[0] == 'gone')
                self.mark(st, ('forgot', C0, (), C1))

        def on_action(self, I, st, op, timer, args, fr):
            self.drop(st, lambda m: m[0] in ('gone', 'empty'))

        def on_callv(self, I, st, op, fv, args, fr):
            Base.on_callv(self, I, st, op, fv, args, fr)

        def on_branch(self, I, st, v, truth, b, fr):
            # found cancelled (it forgot the list then), without an action (the rest of the firing code applies), or in no list
            for q, x in st.mem.items():
                if q[0] == 'F' and (q[2] == CAN and st.decide(psa.mknz(x)) is True or q[2] in (ACT, LIST) and st.decide(psa.mknz(x)) is False):
                    self.drop(st, lambda m: m[0] == 'gone')

        def on_exit(self, I, st, rv, fr):
            if fr.up is not None:
                return
            for m in self.marks(st, 'gone'):
                I.fail(fr, m[3][1], 'a timer is removed from the ordered list but keeps pointing at the list')
            if fr.fn.d.get('dtor') and not any(true(st, x[3]) for x in self.marks(st, 'empty')):
                I.fail(fr, fr.fn.line, 'a timer list may be destroyed with timers in it, which keep pointing at it')
    dt = {m['key'] for m in ctx.prog.classes['com::zenomt::TimerList']['methods'] if m.get('dtor')}
    dt = {k for k in dt if k in ctx.prog.funcs and not ctx.prog.funcs[k].get('implicit') and not ctx.prog.funcs[k].get('defaulted')}
    ctx.need('timer_list_destructors', len(dt), 1)
    for k in sorted(is_set('erase', 'extract', 'clear', 'swap', 'operator=') | dt):
        run_root(ctx, 'R5', R5, k)
    ctx.need('removals', len(n['erase']), 3)

    # ---- R6
    ctx.rule('R6: an iterator into the ordered set is used only if no action was invoked and nothing was removed through it since it was obtained')

    class R6(Base):
        tracked = frozenset([])

        def on_set(self, I, st, op, m, args, fr):
            if m in ('begin', 'find', 'lower_bound', 'upper_bound'):
                s = I.fresh(st, 'it', op, fr)
                self.mark(st, ('it', C0, (), s))
                return [(st, s)]
            if m in ('erase', 'extract') and args:
                its = [x for x in self.marks(st, 'stale') if x[3] == args[0]]
                if its:
                    I.fail(fr, op.l, 'an iterator obtained before an action ran, or used for a removal already, is used')
                for x in self.marks(st, 'it'):
                    if x[3] == args[0]:
                        self.stale(st, x)

        def stale(self, st, x):
            self.drop(st, lambda m: m == x)
            self.mark(st, ('stale', C0, (), x[3]))

        def on_action(self, I, st, op, timer, args, fr):
            for x in self.marks(st, 'it'):
                self.stale(st, x)

        def on_call(self, I, st, op, info, args, obj, fr):
            if info['q'].startswith('std::_Rb_tree') and obj is not None and obj[0] == 'addr':
                v = st.mem.get(obj[1])
                if any(m[3] == v for m in self.marks(st, 'stale')):
                    I.fail(fr, op.l, 'an iterator obtained before an action ran, or used for a removal already, is used')
            return Base.on_call(self, I, st, op, info, args, obj, fr)
    for k in sorted(is_set('begin', 'find', 'lower_bound', 'upper_bound')):
        run_root(ctx, 'R6', R6, k)

    # ---- R7
    ctx.rule('R7: the action of an existing timer is never destroyed in place: it is moved out of the timer, and only while it is not running')

    class R7(Base):
        tracked = frozenset([ACT, FIR])

        def on_put(self, I, st, p, v, op, fr):
            if p[0] != 'F' or p[2] != ACT or (op.info or {}).get('init'):
                return
            self.nevents += 1
            n['actst'].add((fr.fn.key, op.l))
            t = p[1]
            if t[0] == 's' and t[1] in ('new',):
                return
            old = self.get(st, t, ACT)
            if not self.known(st, t, FIR, False):
                I.fail(fr, op.l, 'the action of a timer is replaced although it may be running')
            elif not (op.info or {}).get('swap') and not (old is not None and st.decide(psa.mknz(old)) is False):
                I.fail(fr, op.l, 'the action of a timer is destroyed in place, where its destruction can cancel the timer again')
    own = {k for k in stores_to(ctx, {ACT}) if ir.cls_of(k) in ('Timer', 'TimerList')}
    for k in sorted(own):
        run_root(ctx, 'R7', R7, k)
    ctx.need('action_stores', len(n['actst']), 1)

    # ---- R8
    ctx.rule('R8: the order of the set is by due time, then by identity, on every path of the comparison')

    class R8(Base):
        tracked = frozenset([WHEN])

        def on_exit(self, I, st, rv, fr):
            if fr.up is not None:
                return
            th = ('s', 'this', 0)
            other = ('s', 'arg', 0)
            a, b = self.get(st, th, WHEN), next((x for q, x in st.mem.items() if q[0] == 'F' and q[2] == WHEN and q[1] != th), None)
            o = next((q[1] for q in st.mem if q[0] == 'F' and q[2] == WHEN and q[1] != th), None)
            if a is None or b is None:
                I.fail(fr, fr.fn.line, 'the comparison does not look at both due times')
                return
            n['cmp'] += 1
            lt, gt, eq = psa.mkop('<', a, b), psa.mkop('<', b, a), psa.mkop('==', a, b)
            ident = psa.mkop('<', th, o)
            for name, facts_, want in (('equal', ((eq, True), (lt, False), (gt, False)), ident), ('earlier', ((lt, True), (eq, False), (gt, False)), C1), ('later', ((gt, True), (eq, False), (lt, False)), C0)):
                s = st.copy()
                if any(s.decide(f) is (not t) for f, t in facts_):
                    continue
                got = value_under(s, rv, dict(facts_))
                if got != want:
                    I.fail(fr, fr.fn.line, 'two timers, the first due %s, are compared as %s' % (
                        {'equal': 'at the same time', 'earlier': 'earlier', 'later': 'later'}[name], 'equal' if name == 'equal' else 'the other way round'))

    def value_under(s, v, facts_):
        if v in facts_:
            return C1 if facts_[v] else C0
        if v[0] == 'not' and v[1] in facts_:
            return C0 if facts_[v[1]] else C1
        d = s.decide(psa.mknz(v)) if v[0] != 'op' else s.decide(v)
        return v if d is None else (C1 if d else C0)
    for k in named(ctx, 'Timer::operator<'):
        run_root(ctx, 'R8', R8, k)
    ctx.need('comparison_paths', n['cmp'], 1)
