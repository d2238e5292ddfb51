"""Bytes in flight are counted exactly."""
import psa
from lib import *
from rules.c04 import callgraph

EXPLANATION = ('Path-sensitive pairing analysis: for every fragment that a function touches, the three accounts of being in flight (its flag, its entry in the list of the session, its share of the byte count of the flow that owns it) '
               'are followed along every path and have to change together, once, in the same direction, from the state the path knows, with the amount that the fragment itself records; '
               'the amount recorded changes only while the fragment is not in flight, and the list is emptied at once only after each entry was taken out of the other two accounts or when no sending flow is bound any more.')
ADD = ('append', 'prepend', 'addBefore', 'addAfter')
REM = ('remove', 'removeFirst', 'removeLast')
EACH = ('valuesDo', 'safeValuesDo')


def run(ctx):
    ir = ctx.ir
    FLIGHT, SIZE, NAME, OWNER = (field(ctx, 'SendFrag::' + n) for n in ('m_in_flight', 'm_transmit_size', 'm_session_outstanding_name', 'm_owner'))
    LIST, QUEUE, BYTES, FLOWS = field(ctx, 'Session::m_outstandingFrags'), field(ctx, 'SendFlow::m_send_queue'), field(ctx, 'SendFlow::m_outstanding_bytes'), field(ctx, 'Session::m_sendFlows')
    seen = {k: set() for k in ('flag', 'list', 'bytes', 'clear', 'size')}
    SCALARS = (FLIGHT, SIZE, NAME, BYTES)

    def of(o, f, names):
        return o.k == 'call' and o.info.get('obj') and o.info['obj'][0] == 'fld' and o.info['obj'][2] == f and base_q(o.info['q']).rsplit('::', 1)[-1] in names

    def direct(fn, o):
        if o.k == 'store' and o.a[0] == 'fld' and o.a[2] in SCALARS:
            return not (fn.d.get('ctor') and (o.info or {}).get('init'))
        return of(o, LIST, ADD + REM + ('clear',) + EACH) or of(o, QUEUE, REM)
    roots = psa.functions_with(ir, direct)
    g = callgraph(ctx)
    rev = {}
    for a, bs in g.items():
        for b in bs:
            rev.setdefault(b, set()).add(a)

    def closure(ks):
        ks = set(ks)
        work = list(ks)
        while work:
            for u in rev.get(work.pop(), ()):
                if u not in ks:
                    ks.add(u)
                    work.append(u)
        return ks
    apart = closure(roots)

    class R(Watch):
        tracked = frozenset([FLIGHT, SIZE, NAME, BYTES, OWNER])
        private = tracked
        event_fields = frozenset([FLIGHT, SIZE, NAME, BYTES])
        skip = Watch.skip + ('List::', 'SumList::')
        max_steps = 20000

        def inline(self, I, key, info):
            return key in I.force or key not in apart and Watch.inline(self, I, key, info)

        # ---- which fragment is meant
        def on_load(self, I, st, p, op, fr):
            if p[0] == 'D':
                for m in self.marks(st, 'elem') + self.marks(st, 'refv'):
                    if m[1] == p[1]:
                        return m[3]
                if p[1][0] == 's' and p[1][1] == 'arg' and fr.up is None and op.info and op.info.get('t') in ('long &', 'long'):
                    s = I.fresh(st, 'ld', op, fr)
                    self.mark(st, ('refv', p[1], (), s))
                    return s
            if p[0] == 'F' and p[2] in (FLIGHT, SIZE, NAME, OWNER):
                for m in self.marks(st, p[2]):
                    if m[1] == p[1]:
                        return m[3]
                fd = ir.fields[p[2]]
                s = I.fresh(st, 'bool' if fd['t'] == 'bool' else 'ld', op, fr)
                self.drop(st, lambda m: m[0] in SCALARS + (OWNER,) and m[3] == s)
                self.mark(st, (p[2], p[1], (), s))
                return s

        def known(self, st, f, frag):
            for m in self.marks(st, f):
                if m[1] == frag:
                    return m[3]

        def on_store(self, I, st, p, v, op, fr):
            if p[0] == 'D' and any(m[1] == p[1] for m in self.marks(st, 'refv')):
                self.drop(st, lambda m: m[0] == 'refv' and m[1] == p[1])
                self.mark(st, ('refv', p[1], (), v))
                return
            if p[0] != 'F' or p[2] not in SCALARS:
                return
            if (op.info or {}).get('init') and fr.fn.d.get('ctor'):
                self.put(st, p[2], p[1], v)
                return
            self.nevents += 1
            f, o = p[2], p[1]
            if f == FLIGHT:
                seen['flag'].add((fr.fn.key, op.l))
                if true(st, v):
                    self.ev(I, st, fr, op.l, o, 'flag', 1)
                elif false(st, v):
                    k = self.known(st, FLIGHT, o)
                    if k is not None and false(st, k) and not self.pend(st, o):
                        return          # nothing changes
                    self.ev(I, st, fr, op.l, o, 'flag', -1)
                else:
                    I.fail(fr, op.l, 'a fragment is marked in flight or not by a value that is not decided')
                self.put(st, f, o, v)
            elif f == SIZE:
                seen['size'].add((fr.fn.key, op.l))
                k = self.known(st, FLIGHT, o)
                if any(d for d in self.pend(st, o).values()) or k is None or not false(st, k):
                    I.fail(fr, op.l, 'the amount a fragment counts for changes while it may be in flight')
                self.put(st, f, o, v)
            elif f == NAME:
                # the place of the entry is recorded
                pd = self.pend(st, o)
                if any(m[1] == o and m[3] == v for m in self.marks(st, 'ret')):
                    self.drop(st, lambda m: m[0] == 'ret' and m[1] == o)
                elif pd.get('list') == 1:
                    I.fail(fr, op.l, 'the recorded place of an entry in the list of outstanding fragments is not that of the entry')
                elif not pd and not false(st, self.known(st, FLIGHT, o) or C1):
                    I.fail(fr, op.l, 'the recorded place of an entry in the list of outstanding fragments changes while the fragment is in flight')
                self.put(st, f, o, v)
            elif f == BYTES:
                seen['bytes'].add((fr.fn.key, op.l))
                sign, amt = self.amount(I, st, p, v, op, fr)
                fs = [m[1] for m in self.marks(st, SIZE) if amt is not None and m[3] == amt and self.relevant_frag(st, m[1])]
                if sign is None or not fs:
                    I.fail(fr, op.l, 'the outstanding bytes of a flow change by something other than the amount a fragment counts for')
                    return
                fs.sort(key=lambda x: 0 if self.pend(st, x) else 1)
                frag = fs[0]
                if not self.owns(st, o, frag):
                    I.fail(fr, op.l, 'the outstanding bytes of another flow than the one that owns the fragment are changed')
                self.ev(I, st, fr, op.l, frag, 'bytes', sign)

        def relevant_frag(self, st, f):
            return True

        def owns(self, st, flow, frag):
            if any(m[1] == frag and m[3] == flow for m in self.marks(st, OWNER)):
                return True
            return any(m[3] == frag and m[1] == flow for m in self.marks(st, 'from'))

        def amount(self, I, st, p, v, op, fr):
            old = st.mem.get(p)
            i = op.info or {}
            if i.get('casg') in ('+', '-') and i.get('delta') is not None:
                return (1 if i['casg'] == '+' else -1), I.val(st, i['delta'], fr)
            if v[0] == 'op' and v[1] in '+-' and old is not None:
                if v[2] == old:
                    return (1 if v[1] == '+' else -1), v[3]
                if v[3] == old and v[1] == '+':
                    return 1, v[2]
            return None, None

        def put(self, st, f, o, v):
            self.drop(st, lambda m: m[0] == f and m[1] == o)
            self.mark(st, (f, o, (), v))

        # ---- the three accounts
        def pend(self, st, frag):
            return {m[2][0]: m[3][1] for m in self.marks(st, 'acct') if m[1] == frag}

        def ev(self, I, st, fr, line, frag, what, d):
            pd = self.pend(st, frag)
            if not pd:
                k = self.known(st, FLIGHT, frag)
                if what == 'flag':
                    pass
                was = any(m[1] == frag for m in self.marks(st, 'listed')) or k is not None and true(st, k)
                isnot = k is not None and false(st, k) or frag[0] == 's' and frag[1] == 'new'
                if d > 0 and not isnot:
                    I.fail(fr, line, 'a fragment is counted as in flight that may be counted already')
                if d < 0 and not was:
                    I.fail(fr, line, 'a fragment is taken out of the count of what is in flight that may not be in it')
            if what in pd:
                I.fail(fr, line, 'a fragment is %s twice in %s' % ('counted' if d > 0 else 'taken out', dict(flag='its flag', list='the list of outstanding fragments', bytes='the outstanding bytes')[what]))
                return
            if any(x != d for x in pd.values()):
                I.fail(fr, line, 'a fragment is both counted and taken out')
            self.mark(st, ('acct', frag, (what,), ('c', d)))
            pd[what] = d
            if len(pd) == 3 and not any(m[1] == frag for m in self.marks(st, 'ret')):
                self.settle(st, frag, d)

        def settle(self, st, frag, d):
            self.drop(st, lambda m: m[0] == 'acct' and m[1] == frag or m[0] == 'listed' and m[1] == frag and d < 0)
            self.put(st, FLIGHT, frag, C1 if d > 0 else C0)

        def check(self, I, st, fr, frag, line):
            pd = self.pend(st, frag)
            if not pd:
                return
            if len(pd) == 3:
                if pd['list'] > 0 and any(m[1] == frag for m in self.marks(st, 'ret')):
                    I.fail(fr, line, 'the place of the entry in the list of outstanding fragments is not recorded')
                return
            names = dict(flag='its flag', list='the list of outstanding fragments', bytes='the outstanding bytes of its flow')
            I.fail(fr, line, 'a fragment is %s in %s but not in %s' % ('counted' if 1 in pd.values() else 'taken out', ' and '.join(names[x] for x in sorted(pd)), ' and '.join(names[x] for x in sorted(names) if x not in pd)))

        def retake(self, I, st, fr, line, f):
            """a symbol stands for another fragment from here on"""
            self.check(I, st, fr, f, line)
            self.drop(st, lambda m: f in (m[1], m[3]))

        def element(self, I, st, op, fr, f):
            e = I.fresh(st, 'elem', op, fr)
            self.drop(st, lambda m: m[0] == 'elem' and m[1] == e)
            self.mark(st, ('elem', e, (), f))
            return e

        def on_call(self, I, st, op, info, args, obj, fr):
            q = base_q(info['q'])
            n = q.rsplit('::', 1)[-1]
            pl = info.get('obj')
            c = None
            if obj is not None and obj[0] == 'addr' and obj[1][0] == 'F' and obj[1][2] in (LIST, QUEUE, FLOWS):
                c, owner = obj[1][2], obj[1][1]
            if c == FLOWS and n == 'empty':
                s = I.fresh(st, 'bool', op, fr)
                self.drop(st, lambda m: m[0] == 'noflows' and m[1] == s)
                self.mark(st, ('noflows', s, (), owner))
                return [(st, s)]
            if c == FLOWS and n in ADD:
                self.drop(st, lambda m: m[0] == 'noflows')
            if c in (LIST, QUEUE):
                if n in ('at', 'firstValue', 'lastValue'):
                    key = args[0] if args else ('c', n)
                    f = None
                    for m in self.marks(st, 'atn'):
                        if m[1] == key and m[2] == (c,):
                            f = m[3]
                    if f is None:
                        f = I.fresh(st, 'elemv', op, fr)
                        # what stood for another fragment so far
                        self.retake(I, st, fr, op.l, f)
                        self.mark(st, ('atn', key, (c,), f))
                        if c == LIST:
                            self.mark(st, ('listed', f, (), C1))
                            self.put(st, FLIGHT, f, C1)
                        else:
                            self.mark(st, ('from', owner, (), f))
                    return [(st, self.element(I, st, op, fr, f))]
                if n in EACH:
                    return self.each(I, st, op, info, args, c, owner, fr)
                if n in ADD and c == LIST:
                    self.nevents += 1
                    seen['list'].add((fr.fn.key, op.l))
                    fv = self.deep(I, st, args[-1])
                    fv = fv[1] if fv[0] == 'at' else fv
                    r = I.fresh(st, 'ret', op, fr)
                    self.drop(st, lambda m: m[0] in ('ret', 'atn') and r in (m[1], m[3]))
                    self.mark(st, ('ret', fv, (), r))
                    self.ev(I, st, fr, op.l, fv, 'list', 1)
                    if any(m[0] == 'drained' for m in st.auto or ()):
                        I.fail(fr, op.l, 'a fragment is added to the list of outstanding fragments before the list is emptied')
                    return [(st, r)]
                if n in REM:
                    self.nevents += 1
                    seen['list'].add((fr.fn.key, op.l))
                    key = args[0] if args else ('c', 'firstValue' if n == 'removeFirst' else 'lastValue')
                    fs = [m[3] for m in self.marks(st, 'atn') if m[1] == key and m[2] == (c,)]
                    if c == LIST and not fs:
                        fs = [m[1] for m in self.marks(st, NAME) if m[3] == key]
                    if not fs:
                        I.fail(fr, op.l, 'a fragment is removed from %s without having been looked up' % ('the list of outstanding fragments' if c == LIST else 'a send queue'))
                    else:
                        f = fs[0]
                        if c == LIST:
                            self.ev(I, st, fr, op.l, f, 'list', -1)
                        else:
                            k = self.known(st, FLIGHT, f)
                            pd = self.pend(st, f)
                            if 'flag' in pd:
                                if pd['flag'] > 0:
                                    I.fail(fr, op.l, 'a fragment is removed from the send queue while it is in flight')
                            elif pd or k is None or not false(st, k):
                                self.ev(I, st, fr, op.l, f, 'flag', -1)
                    self.drop(st, lambda m: m[0] == 'atn' and m[2] == (c,))
                    return [(st, I.fresh(st, 'bool', op, fr))]
                if n == 'clear' and c == LIST:
                    self.nevents += 1
                    seen['clear'].add((fr.fn.key, op.l))
                    if any(m[1] == owner for m in self.marks(st, 'drained')):
                        self.drop(st, lambda m: m[0] == 'drained' and m[1] == owner)
                    elif not any(m[3] == owner and true(st, m[1]) for m in self.marks(st, 'noflows')):
                        I.fail(fr, op.l, 'the list of outstanding fragments is emptied without its entries having been taken out of the counts of their flows')
                    self.drop(st, lambda m: m[0] == 'atn')
                    return [(st, C0)]
            return Watch.on_call(self, I, st, op, info, args, obj, fr)

        def each(self, I, st, op, info, args, c, owner, fr):
            lam = next((a for a in args if a[0] == 'lam'), None)
            if lam is None or c != LIST:
                return None
            s = st.copy()
            f = I.fresh(s, 'elemv', op, fr)
            self.retake(I, s, fr, op.l, f)
            e = self.element(I, s, op, fr, f)
            self.mark(s, ('listed', f, (), C1))
            self.put(s, FLIGHT, f, C1)
            self.insync += 1
            I.ran_lams.add(lam[1])
            outs = I.call_fn(s, lam[1], None, [e], fr, op, caps=lam[2])
            self.insync -= 1
            none = False
            for x, v in outs or ():
                pd = self.pend(x, f)
                if not pd:
                    none = True
                    continue
                if pd != {'flag': -1, 'bytes': -1} or v is None or not true(x, v):
                    self.check(I, x, fr, f, op.l) if set(pd) != {'flag', 'bytes'} else \
                        I.fail(fr, op.l, 'only some of the outstanding fragments are taken out of the counts' if v is None or not true(x, v) else 'a fragment of the list is counted again')
                elif none:
                    I.fail(fr, op.l, 'only some of the outstanding fragments are taken out of the counts')
                else:
                    self.nevents += 1
                    self.mark(st, ('drained', owner, (), C1))
            if none and self.marks(st, 'drained'):
                I.fail(fr, op.l, 'only some of the outstanding fragments are taken out of the counts')
            return [(st, C0)]

        insync = 0

        def on_exit(self, I, st, rv, fr):
            if fr.up is not None and (not fr.fn.is_lambda or self.insync):
                return
            for f in sorted({m[1] for m in self.marks(st, 'acct')}, key=repr):
                self.check(I, st, fr, f, fr.fn.line)
            if self.marks(st, 'drained'):
                I.fail(fr, fr.fn.line, 'the outstanding fragments are taken out of the counts of their flows but stay in the list')

    ctx.rule('R1: on every path through a function that touches them, the in-flight flag of a fragment (or its removal from the send queue), its entry in the list of outstanding fragments and the byte count of its flow change together, once, in one direction, from the opposite state')
    ctx.rule('R2: the byte count changes only by the amount the fragment records, which changes only while the fragment is not in flight; the place of its entry is the one recorded')
    ctx.rule('R3: the list of outstanding fragments is emptied at once only after each entry was taken out of the other two accounts, or when no sending flow is bound to the session')
    whole = set()
    for k in sorted(roots):
        if ir.fn(k).is_lambda:
            continue
        I = psa.Interp(ir, R())
        I.callers = ctx.callers
        try:
            I.entry(ir.fn(k))
        except psa.Limit:
            continue
        if not I.failures:
            whole.add(k)
    apart = closure(roots) - (set(roots) - whole)
    ctx.discharge('R1', R, roots, max_up=3)
    for k, n in (('flag', 1), ('list', 1), ('bytes', 1), ('clear', 1), ('size', 1)):
        ctx.need('sites_' + k, len(seen[k]), n)
