"""No callback stored for later outlives an object it uses."""
import re
import psa
from lib import *

EXPLANATION = ('Every function object that captures an object without sharing its ownership (this, a reference, a bare pointer) and is not run before the call it is given to returns is followed, through the functions that '
               'wrap it, to where it is stored. A task for the platform, a run loop, a worker or the crypto layer must hold a reference of its own. A timer action must belong to a timer kept in a member of the '
               'object it uses; that member must be cancelled or empty on every path of the destructor, and may only be overwritten when empty, cancelled, or from the action of that one-shot timer. A descriptor action must be '
               'withdrawn by the destructor. An interface notification relies on interfaces never being removed from the endpoint. Callback members that the application also sets are counted but not decided.')
NS = 'com::zenomt::'
TASKS = {'rtmfp::IPlatformAdapter::perform', 'RunLoop::doLater', 'Performer::perform', 'rtmfp::CryptoCert::isAuthentic', 'rtmfp::CryptoCert::checkSignature'}
DESC, UNDESC = 'RunLoop::registerDescriptor', 'RunLoop::unregisterDescriptor'
IFACE = 'rtmfp::IPlatformAdapter::notifyWhenInterfaceWritable'
ACTION = NS + 'Timer::action'
REMOVE = ('erase', 'clear', 'remove', 'extract', 'swap', 'operator=', 'removeFirst', 'removeLast', 'pop_front', 'pop_back')


def run(ctx):
    ir = ctx.ir
    field(ctx, 'Timer::action')
    TIMERS = set()
    for c, d in ctx.prog.classes.items():
        for f in d.get('fields') or ():
            if re.search(r'shared_ptr<\s*(?:com::zenomt::)?Timer\s*>$', f['t'].replace('const ', '')):
                TIMERS.add(c + '::' + f['n'])
    ctx.need('timer_members', len(TIMERS), 6)
    TIMERS = frozenset(TIMERS)

    def owning(t):
        return bool(re.search(r'(shared_ptr|Retainer|unique_ptr)<', t or ''))

    def bare(c):
        """does this capture refer to an object without owning it?"""
        if c['k'] in ('this', 'ref'):
            return True
        t = re.sub(r'\b(const|volatile)\b', '', c.get('t') or '').replace('&', '').strip()
        return c['k'] == 'copy' and t.endswith('*') and not owning(t)

    sites = {}          # lambda key -> (creator key, op)
    for fn in ir.all():
        for b in fn.blocks:
            for o in b.ops:
                if b.id in fn.reach and o.k == 'lambda':
                    sites[o.x] = (fn.key, o)
    raw = {k for k, (f, o) in sites.items() if any(bare(c) for c in o.info['rawcaps'])}
    ctx.need('function_objects', len(sites), 40)
    ctx.need('with_bare_captures', len(raw), 12)

    FT = set()
    for k, d in ctx.prog.funcs.items():
        fn = ir.fn(k)
        if fn is not None and not d.get('lambda') and any('std::function' in p['t'] for p in fn.params):
            FT.add(k)

    kept = {}           # (class of holder, timer member) -> {'lams': set, 'recur': bool}
    descs, ifaces = {}, {}
    seen = {k: set() for k in ('task', 'timer', 'desc', 'iface', 'slot', 'local', 'sync', 'other', 'owned')}

    def contents(lam, out, own):
        """objects a function object refers to without owning them, those it owns, and the function objects in it"""
        out['lams'].add(lam[1])
        rc = sites[lam[1]][1].info['rawcaps'] if lam[1] in sites else []
        for c, r in zip(lam[2], rc):
            v = c[1]
            if v[0] == 'lam':
                contents(v, out, own)
            elif bare(r):
                if v != C0:
                    out['raw'].append((v, r))
            else:
                own.add(v)

    def bares(lam):
        out, own = {'lams': set(), 'raw': []}, set()
        contents(lam, out, own)
        return [(v, r) for v, r in out['raw'] if v not in own], out['lams']

    def name(r):
        return 'this' if r['k'] == 'this' else r.get('n') or '?'

    ctx.rule('R1: a task handed to the platform, a run loop, another thread or the crypto layer owns every object it captures')
    ctx.rule('R2: an action given to a timer either owns what it captures, or the timer is kept in a member of the one object it does not own (or is cancelled again before the function returns)')

    LENT = {c + '::' + f['n'] for c, d in ctx.prog.classes.items() for f in d.get('fields') or () if c.startswith(NS) and f['t'].replace('const', '').strip().endswith('*')}

    class Side(Watch):
        def on_defer(self, I, st, op, info, i, lam, fr):
            # runs later and on its own: judged at its own end
            self.drop(st, lambda m: m[0] in ('armed', 'lost', 'once', 'side'))
            self.mark(st, ('side', ('key', lam[1]), (), C1))
            return st, None

        def ends(self, st, fr):
            return fr.up is None or fr.fn.is_lambda and any(m[1] == ('key', fr.fn.key) for m in self.marks(st, 'side'))

    class Sink(Side):
        tracked = TIMERS | {ACTION} | LENT
        private = TIMERS | LENT
        cap = 300

        want = frozenset()

        def inline(self, I, key, info):
            # followed: what is given such a function object, and what obligations were lifted out of
            return key in self.want or key in I.force

        def on_enter(self, I, st, fr):
            if fr.up is None:
                I.force |= makers

        def at_timer(self, I, st, t, lam, fr, line):
            rs, lams = bares(lam)
            if not rs:
                seen['owned'].add((fr.fn.key, line))
                return
            self.nevents += 1
            seen['timer'].add((fr.fn.key, line))
            for v, r in rs:
                if r['k'] == 'ref' or r['k'] == 'copy' and not self.borrowed(I, st, v):
                    I.fail(fr, line, 'a timer action refers to %s, which it does not own and which no object keeps' % name(r))
            self.mark(st, ('armed', t, tuple(sorted({v for v, r in rs if r['k'] == 'this'}, key=repr)) + tuple(('key', k) for k in sorted(lams)) , C1))

        def borrowed(self, I, st, v):
            # the pointer is also kept in a member of an object: whoever lent it keeps it valid for that object
            return any(p[0] == 'F' and x == v for p, x in st.mem.items()) or v[0] == 'fld'

        def on_store(self, I, st, p, v, op, fr):
            if p[0] == 'F' and p[2] == ACTION:
                self.drop(st, lambda m: m[0] == 'armed' and m[1] == p[1])
                if v[0] == 'lam':
                    self.at_timer(I, st, p[1], v, fr, op.l)
                return
            if v[0] == 'lam' and p[0] in ('F', 'D', 'E', 'G') and bares(v)[0]:
                seen['slot'].add((fr.fn.key, op.l))

        def on_call(self, I, st, op, info, args, obj, fr):
            q = base_q(info['q'])
            self.want = frozenset()
            if q == 'Timer::cancel' and obj is not None:
                self.drop(st, lambda m: m[0] == 'armed' and m[1] == obj)
                return [(st, C0)]
            for a in args:
                if a[0] != 'lam':
                    continue
                rs, lams = bares(a)
                if q in TASKS:
                    seen['task'].add((fr.fn.key, op.l))
                    self.nevents += 1
                    if q == 'Performer::perform' and len(args) > 1 and true(st, args[1]):
                        continue        # waits for it to be done
                    for v, r in rs:
                        I.fail(fr, op.l, 'a task handed over to run later refers to %s without owning it' % name(r))
                elif rs and I.calls_at_once(info):
                    seen['sync'].add((fr.fn.key, op.l))
                elif rs and q == DESC:
                    seen['desc'].add((fr.fn.key, op.l))
                    for v, r in rs:
                        if r['k'] == 'this':
                            descs.setdefault(ir.cls_of(outer(fr.fn.key)), set()).add(fr.fn.key)
                        else:
                            I.fail(fr, op.l, 'a descriptor action refers to %s without owning it' % name(r))
                elif rs and q == IFACE:
                    seen['iface'].add((fr.fn.key, op.l))
                    for v, r in rs:
                        if r['k'] == 'this':
                            ifaces.setdefault(ir.cls_of(outer(fr.fn.key)), set()).add(fr.fn.key)
                        else:
                            I.fail(fr, op.l, 'an interface notification refers to %s without owning it' % name(r))
                elif rs or a[1] in makers:
                    self.want = frozenset(set(ir.targets(info)) & FT)
                    if rs and not self.want:
                        seen['other'].add((fr.fn.key, op.l, q))

        def on_exit(self, I, st, rv, fr):
            if not self.ends(st, fr):
                return
            for m in self.marks(st, 'armed'):
                objs = [x for x in m[2] if x[0] != 'key']
                lams = {x[1] for x in m[2] if x[0] == 'key'}
                at = [p for p, v in st.mem.items() if p[0] == 'F' and p[2] in TIMERS and v == m[1]]
                if m[1][0] == 'fld' and m[1][2] in TIMERS:
                    at.append(('F', m[1][1], m[1][2]))
                for o in objs:
                    hit = [p for p in at if p[1] == o]
                    if not hit:
                        I.fail(fr, fr.fn.line, 'the action of a timer uses an object it does not own, and that object does not keep the timer to cancel it')
                    for p in hit:
                        kept.setdefault(p[2], set()).update(lams)
                if not objs:
                    for p in at:
                        kept.setdefault(p[2], set()).update(lams)

    def outer(k):
        while ctx.prog.funcs[k].get('lambda') and ctx.callers.parent.get(k):
            k = ctx.callers.parent[k]
        return k
    roots = {outer(f) for f, o in sites.values()}
    makers = set()
    for k in sites:
        k = sites[k][0]
        while ctx.prog.funcs[k].get('lambda'):
            makers.add(k)
            k = sites[k][0] if k in sites else ctx.callers.parent[k]
    ctx.discharge('R2', Sink, sorted(roots))
    for n, least in (('task', 3), ('timer', 6), ('desc', 2), ('iface', 1), ('sync', 4), ('slot', 5)):
        ctx.need('handed_' + n, len(seen[n]), least)
    ctx.count('handed_unknown', len(seen['other']))
    members = sorted(kept)
    ctx.need('timers_kept_by_user', len(members), 5)

    # ---- the one who keeps the timer
    DTORS = {}
    for k, d in ctx.prog.funcs.items():
        q = ir.bq_of(k)
        if '::~' in q and ir.fn(k) is not None:
            DTORS[NS + q.rsplit('::~', 1)[0]] = k
    OWN = frozenset(members)

    HOLDERS = {f.rsplit('::', 1)[0] for f in OWN}
    HOLDERS |= {c for c, d in ctx.prog.classes.items() if any(c2 in HOLDERS for c2 in d.get('bases') or ())}
    near = {}

    def handles(k, depth):
        # functions of the holders that cancel or change such a timer, directly or through their own members
        if (k, depth) not in near:
            near[k, depth] = False
            fn = ir.fn(k)
            near[k, depth] = fn is not None and (NS + (ir.cls_of(k) or '') in HOLDERS or fn.is_lambda or not ir.cls_of(k)) and any(
                o.k == 'store' and o.a[0] == 'fld' and o.a[2] in OWN
                or o.k == 'call' and (base_q(o.info['q']) == 'Timer::cancel' or depth and any(handles(t, depth - 1) for t in ir.targets(o.info)))
                for b in fn.blocks for o in b.ops)
        return near[k, depth]

    class Holder(Side):
        tracked = OWN
        depth = 1

        def inline(self, I, key, info):
            return key not in I.barrier and (key in I.force or handles(key, self.depth))
        private = OWN
        cap = 300
        def on_call(self, I, st, op, info, args, obj, fr):
            q = base_q(info['q'])
            if q == 'Timer::cancel' and obj is not None:
                self.mark(st, ('off', obj, (), C1))
                self.drop(st, lambda m: m[0] == 'lost' and m[1] == obj)
                return [(st, C0)]
            if q in ('Timer::setNextFireTime', 'Timer::setRecurInterval') and obj is not None:
                self.drop(st, lambda m: m[0] in ('off', 'idle') and m[1] == obj)
                return [(st, C0)]
            return Watch.on_call(self, I, st, op, info, args, obj, fr)

        def over(self, st, v):
            return v is not None and (st.decide(psa.mknz(v)) is False or any(m[1] == v for m in self.marks(st, 'off')))

    ctx.rule('R3: the destructor of an object whose members keep timers with such actions leaves each of them cancelled or empty on every path')

    for f in members:
        cls = f.rsplit('::', 1)[0]
        k = DTORS.get(cls)
        if k is None:
            ctx.viol('R3', sorted(kept[f])[0], 0, 'the object keeping %s, whose action uses it without owning it, has no destructor that cancels it' % f.rsplit('::', 1)[1])
            continue

        class Dtor(Holder):
            mem_ = f
            depth = 3

            def on_exit(self, I, st, rv, fr):
                if fr.up is not None:
                    return
                if not self.over(st, st.mem.get(('F', fr.this, self.mem_))):
                    I.fail(fr, fr.fn.line, 'an object is destroyed while its timer %s, whose action uses it, may still be pending' % self.mem_.rsplit('::', 1)[1])
        for n in (3, 1, 0):
            Dtor.depth = n      # as deep as it can be followed
            try:
                run_root(ctx, 'R3', Dtor, k)
                break
            except psa.Limit:
                if not n:
                    raise

    ctx.rule('R4: such a member is overwritten or emptied only when it is empty, its timer is cancelled (before or on the same path after), or from the action of that timer when it does not repeat and was not set again')
    stores = {'n': set()}

    wr = {}
    for fn in ir.all():
        for b in fn.blocks:
            for o in b.ops:
                if o.k == 'store' and o.a[0] == 'fld' and o.a[2] in LENT and not (o.info or {}).get('init'):
                    wr.setdefault(o.a[2], set()).add(fn.key)
    once = frozenset(f for f, ks in wr.items() if len(ks) == 1)

    class Keep(Holder):
        tracked = OWN | once
        private = OWN | once

        def on_store(self, I, st, p, v, op, fr):
            if p[0] == 'F' and p[2] in once and not (op.info or {}).get('init'):
                old = st.mem.get(p)
                if old is not None and st.decide(psa.mknz(old)) is False and st.decide(psa.mknz(v)) is True:
                    self.mark(st, ('once', p[1], (), C1))
            if p[0] != 'F' or p[2] not in OWN or (op.info or {}).get('init'):
                return
            stores['n'].add((fr.fn.key, op.l))
            self.nevents += 1
            old = st.mem.get(p)
            if self.fired(st, p, old, fr) or old is not None and (old == v or self.over(st, old)):
                return
            if st.decide(psa.mknz(v)) is not False and p[2].rsplit('::', 1)[0] == NS + 'rtmfp::RedirectorClient':
                return      # a new timer replaces one that its sequence of states ended before: not decided here
            if old is None:
                old = I.fresh(st, 'lost', op, fr)
            self.mark(st, ('lost', old, (('fld', p[2]), p[1]), C1))

        def fired(self, st, p, old, fr):
            if old is not None and any(m[1] == old for m in self.marks(st, 'again')):
                return False
            f = fr
            while f is not None:
                if f.fn.key in kept[p[2]]:
                    return not (p[2] in repeats)
                f = f.up
            return False

        def on_call(self, I, st, op, info, args, obj, fr):
            q = base_q(info['q'])
            if q in ('Timer::setNextFireTime', 'Timer::setRecurInterval') and obj is not None:
                self.mark(st, ('again', obj, (), C1))
            return Holder.on_call(self, I, st, op, info, args, obj, fr)

        def on_exit(self, I, st, rv, fr):
            if not self.ends(st, fr):
                return
            for m in self.marks(st, 'lost'):
                if any(x[1] == m[2][1] for x in self.marks(st, 'once')):
                    continue    # done once in the life of the object
                if self.over(st, m[1]):
                    continue
                I.fail(fr, fr.fn.line, 'the timer kept in %s is forgotten while it may be pending; its action still uses the object and can no longer be withdrawn' % m[2][0][1].rsplit('::', 1)[1])
    repeats = set()

    def touches(fn, o):
        if o.k == 'store':
            return o.a[0] == 'fld' and o.a[2] in OWN and not (o.info or {}).get('init')
        return o.k == 'call' and any(a[0] == 'addr' and a[1][0] == 'fld' and a[1][2] in OWN for a in list(o.info['args']) + ([('addr', o.info['obj'])] if o.info.get('obj') and o.info['q'].rsplit('::', 1)[-1] in ('swap', 'reset', 'operator=') else []))
    try:
        ctx.discharge('R4', Keep, sorted(psa.functions_with(ir, touches)))
    except psa.Limit:
        # too much to follow: that does not take back what was found
        if not ctx.viols:
            raise
    ctx.need('timer_member_stores', len(stores['n']), 8)

    # ---- descriptors
    ctx.rule('R5: the destructor of an object that a descriptor action uses without owning it withdraws the registration, on every path that has not found in its members that there is none')

    class Withdraw(Watch):
        depth = 3
        cap = 300

        def inline(self, I, key, info):
            c = NS + (ir.cls_of(key) or '')
            return key not in I.barrier and (c == self.cls_ or c in self.bases_)

        def on_call(self, I, st, op, info, args, obj, fr):
            if base_q(info['q']) == UNDESC:
                self.mark(st, ('withdrawn', C0, (), C1))
                return [(st, C0)]
            return Watch.on_call(self, I, st, op, info, args, obj, fr)

        def on_branch(self, I, st, v, truth, b, fr):
            # a decision on a member, or on what a container member holds
            self.mark(st, ('decided', C0, (), C1))

        def on_exit(self, I, st, rv, fr):
            if fr.up is None:
                w = bool(self.marks(st, 'withdrawn'))
                paths.append(w)
                if not w and not self.marks(st, 'decided'):
                    I.fail(fr, fr.fn.line, 'an object is destroyed without withdrawing a descriptor action that uses it')
    ctx.need('descriptor_users', len(descs), 2)
    for cls in sorted(descs):
        k = DTORS.get(NS + cls)
        paths = []
        if k is None:
            ctx.viol('R5', sorted(descs[cls])[0], 0, 'a descriptor action uses an object whose destructor does not withdraw it')
            continue
        run_root(ctx, 'R5', type('Withdraw_', (Withdraw,), {'cls_': NS + cls, 'bases_': set(ctx.prog.classes[NS + cls].get('bases') or ()) | {c for c, d in ctx.prog.classes.items() if NS + cls in (d.get('bases') or ())}}), k)
        if not any(paths):
            ctx.viol('R5', k, ir.fn(k).line, 'an object is destroyed without withdrawing a descriptor action that uses it')
    # ---- interfaces
    ctx.rule('R6: an object used by an interface notification without being owned is never taken out of the table that keeps it, other than by the end of the endpoint')
    homes = [c + '::' + f['n'] for c, d in ctx.prog.classes.items() for f in d.get('fields') or () for x in ifaces if re.search(r'(map|List|vector|set)<.*\b%s>' % re.escape(x.rsplit('::', 1)[-1]), f['t'])]
    ctx.need('interface_tables', len(homes), 1)
    for fn in ir.all():
        for b in fn.blocks:
            for o in b.ops:
                if o.k == 'call' and o.info.get('obj') and o.info['obj'][0] == 'fld' and o.info['obj'][2] in homes and o.info['q'].rsplit('::', 1)[-1] in REMOVE and '::~' not in fn.bq:
                    ctx.viol('R6', fn, o.l, 'an interface is taken out of its table while a notification that uses it may be pending')
