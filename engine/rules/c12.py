"""Protocol state is touched only on the protocol thread."""
import psa
from psa import C0, C1
from lib import *

EXPLANATION = ('Effect analysis over the call graph from every task handed to a worker thread (a task passed to the platform with a thread number that is not the constant 0), following calls, constructors and nested function '
               'objects except tasks handed back to thread 0 and the crypto interface: every member of a protocol object that is read, written, passed or used as call target must be fixed at construction, atomic, or one '
               'that is assigned only before any worker task of that object can exist. A completion of an asynchronous crypto call may run on any thread and is treated like worker code. '
               'After a task is handed over, the giving function touches nothing the task shares. The platform that has worker threads routes thread 0 to the main performer and everything else to the worker performer, and runs nothing in place.')

CRYPTO = ('rtmfp::CryptoCert', 'rtmfp::ICryptoAdapter', 'rtmfp::SessionCryptoKey')


def meth(info):
    return info['q'].rsplit('::', 1)[-1]


def strip(n):
    return n.replace('com::zenomt::', '')


def places(x, out):
    """every member named in an operand, with the operand"""
    if isinstance(x, tuple):
        if len(x) == 3 and x[0] == 'fld' and isinstance(x[2], str):
            out.add(x[2])
        for y in x:
            places(y, out)
    return out


class Sites:
    """hand-overs: calls of the platform's perform, with the function objects given"""
    def __init__(self, ctx):
        self.ir = ctx.ir
        self.defs = {}
        self.all = []
        for fn in ctx.ir.all():
            for b in fn.blocks:
                if b.id not in fn.reach:
                    continue
                for o in b.ops:
                    if o.k == 'call' and psa.platform(o.info) and meth(o.info) == 'perform':
                        self.all.append((fn, b, o, [l for a in o.info['args'][1:] for l in self.lams(fn, a)]))

    def thread(self, fn, o):
        """is the task certainly handed to the protocol thread"""
        f = self.fwd.get(o.info.get('key')) if not psa.platform(o.info) else None
        if f is not None:
            return o.info['args'][f[2]] == ('c', 0) if f[2] is not None else f[1]
        return o.info['args'][0] == ('c', 0)

    def forwarders(self):
        """functions that hand over a task they are given: calls of them are hand-overs too"""
        self.fwd = {}
        more = True
        while more:
            more = False
            for fn, b, o, ls in list(self.all):
                if fn.key in self.fwd or fn.file.find('PlatformAdapter') >= 0:
                    continue
                ps = {p['id']: i for i, p in enumerate(fn.params)}
                hit = [ps[v] for a in o.info['args'] for v in self.vars(fn, a) if v in ps and 'function<' in fn.params[ps[v]]['t']]
                if hit:
                    num = [ps[v] for v in self.vars(fn, o.info['args'][0]) if v in ps]
                    self.fwd[fn.key] = (hit[0], self.thread(fn, o), num[0] if num else None)
                    more = True
                    for g in self.ir.all():
                        for gb in g.blocks:
                            if gb.id in g.reach:
                                for go in gb.ops:
                                    if go.k == 'call' and fn.key in self.ir.targets(go.info):
                                        self.all.append((g, gb, go, [l for a in go.info['args'] for l in self.lams(g, a)]))

    def vars(self, fn, a, depth=0):
        d, stores = self.temps(fn)
        if a[0] == 'addr':
            a = a[1]
        if a[0] == 'var':
            return [a[1]]
        if a[0] == 't' and depth < 6 and a[1] in d:
            o = d[a[1]]
            return [v for x in [o.a] + list((o.info or {}).get('args') or ()) if isinstance(x, tuple) and x for v in self.vars(fn, x, depth + 1)]
        return []

    def temps(self, fn):
        d = self.defs.get(fn.key)
        if d is None:
            d = {}
            stores = {}
            for b in fn.blocks:
                for o in b.ops:
                    if o.dst is not None:
                        d[o.dst] = o
                    if o.k == 'store' and o.a[0] == 'var':
                        stores.setdefault(o.a[1], []).append(o.b)
            self.defs[fn.key] = d = (d, stores)
        return d

    def lams(self, fn, a, depth=0):
        """function objects an operand may hold, through copies and local variables"""
        if depth > 6 or not isinstance(a, tuple):
            return []
        d, stores = self.temps(fn)
        if a[0] == 'addr':
            a = a[1]
        if a[0] == 'var':
            return [l for v in stores.get(a[1], ()) for l in self.lams(fn, v, depth + 1)]
        if a[0] == 't':
            o = d.get(a[1])
            if o is None:
                return []
            if o.k == 'lambda':
                return [o.x]
            out = []
            if isinstance(o.a, tuple):
                out += self.lams(fn, o.a, depth + 1)
            for y in (o.info or {}).get('args') or ():
                out += self.lams(fn, y, depth + 1)
            return out
        return []


def run(ctx):
    ir = ctx.ir
    prog = ctx.prog
    S = Sites(ctx)
    home, worker = set(), set()
    S.forwarders()
    for fn, b, o, ls in S.all:
        if fn.file.find('PlatformAdapter') >= 0:
            continue
        (home if S.thread(fn, o) else worker).update(ls)
    ctx.need('hand_overs', len(S.all), 10)
    ctx.need('worker_tasks', len(worker), 5)
    ctx.need('protocol_tasks', len(home), 5)

    # ---- which classes hold protocol state
    def sub(c):
        return {c} | {d for d in ir.classes_below(c)} if hasattr(ir, 'classes_below') else {c}
    bases = {}
    for q, c in prog.classes.items():
        bases[q] = [x for x in c.get('bases', [])]

    def isa(q, root, seen=()):
        return strip(q) == root or any(isa(x, root, seen + (q,)) for x in bases.get(q, ()) if x not in seen)
    crypto = {q for q in prog.classes if any(isa(q, r) for r in CRYPTO)}
    proto = {q for q in prog.classes if (isa(q, 'Object') or isa(q, 'rtmfp::RTMFP') or isa(q, 'rtmfp::IPlatformAdapter')) and q not in crypto}
    if not any(strip(q) == 'rtmfp::Session' for q in proto) or not any(strip(q) == 'rtmfp::RTMFP' for q in proto):
        raise AnalysisError('the protocol classes are not found')
    names = {strip(q) for q in proto}

    def owner(f):
        return strip(f.rsplit('::', 1)[0])

    # ---- R1
    ctx.rule('R1: code that runs on a worker thread reads, writes or uses no member of a protocol object, except members fixed at construction, atomic ones, and those R2 covers; it calls the platform only to hand over tasks')
    R2F = {field(ctx, 'Session::m_cryptoCert'), field(ctx, 'Session::m_rxSessionID')}
    imm = ir.immutable_fields()
    used2 = set()
    seen, via = set(), {}
    work = [(k, None) for k in sorted(worker)]
    nacc = 0
    # completions of asynchronous crypto calls run on any thread
    comp = set()
    for fn in ir.all():
        for b in fn.blocks:
            for o in b.ops:
                if o.k == 'call' and strip(o.info.get('cls') or '') in CRYPTO:
                    for a in o.info['args']:
                        comp.update(S.lams(fn, a))
    work += [(k, None) for k in sorted(comp - worker)]
    ctx.need('crypto_completions', len(comp), 2)
    while work:
        k, frm = work.pop()
        if k in seen or k in home:
            continue
        fn = ir.fn(k)
        if fn is None:
            continue
        seen.add(k)
        via[k] = frm

        def path(k):
            out = []
            while via.get(k):
                k = via[k]
                out.append(ir.fn(k).bq)
            return out
        for b in fn.blocks:
            if b.id not in fn.reach:
                continue
            for o in b.ops:
                fs = places((o.a, o.b), set())
                info = o.info or {}
                places(tuple(x for x in (info.get('args') or ()) if isinstance(x, tuple)), fs)
                if info.get('obj') is not None:
                    places(info['obj'], fs)
                for f in sorted(fs):
                    if owner(f) not in names:
                        continue
                    nacc += 1
                    t = (ir.fields.get(f) or {}).get('t', '')
                    if f in R2F:
                        used2.add(f)
                        if not (o.k == 'store' and o.a[0] == 'fld' and o.a[2] == f):
                            continue
                    elif f in imm or 'atomic' in t or strip(f) == 'Object::m_refcount':
                        continue
                    ctx.viol('R1', fn, o.l, 'a worker thread touches %s, which belongs to the protocol thread' % strip(f), path(k), detail=strip(f))
                if o.k == 'call':
                    c = strip(o.info.get('cls') or '')
                    if c in CRYPTO:
                        continue        # the crypto objects are meant to be used here
                    if psa.platform(o.info):
                        if meth(o.info) != 'perform':
                            ctx.viol('R1', fn, o.l, 'a worker thread calls the platform', path(k), detail=meth(o.info))
                        continue
                    for t in ir.targets(o.info):
                        work.append((t, k))
                elif o.k in ('new', 'ctor', 'ctorval') and o.info.get('key'):
                    c = strip(o.info['q'].rsplit('::', 1)[0])
                    if o.k == 'new' and strip(o.info.get('t') or '').replace('std::shared_ptr<com::zenomt::', '').rstrip('> *') in names:
                        ctx.viol('R1', fn, o.l, 'a worker thread creates a protocol object', path(k), detail=c)
                    work.append((o.info['key'], k))
                elif o.k == 'lambda':
                    work.append((o.x, k))
                elif o.k == 'callv':
                    pass
    ctx.count('worker_functions', len(seen))
    ctx.need('worker_member_uses', nacc, 10)

    # ---- R2
    ctx.rule('R2: a member of a session that worker tasks read is assigned only on a session just made on this path, or after the session was found in a state before keying, in which no worker task of it exists')
    STATE = field(ctx, 'Session::m_state')
    early = {const(ctx, 'Session::S_UNKNOWN'), const(ctx, 'Session::S_IHELLO_SENT')}
    n2 = set()

    class R2(Watch):
        tracked = frozenset([STATE])
        epoch = ('early', 'made')
        event_depth = 4

        def enum_range(self, f):
            return (0, 6) if f == STATE else None

        def on_branch(self, I, st, v, truth, b, fr):
            for q, x in st.mem.items():
                if q[0] == 'F' and q[2] == STATE and x[0] != 'c':
                    lo, hi, ne = st.rng(x)
                    if not [i for i in range(max(lo, 0), min(hi, 6) + 1) if i not in ne and i not in early]:
                        self.mark(st, ('early', q[1], (), C1))

        def on_call(self, I, st, op, info, args, obj, fr):
            q = base_q(info['q'])
            if op.k == 'new' and info['q'].startswith('new ') and 'Session' in info['q'] or q == 'rtmfp::RTMFP::makeSession':
                s = I.retsym(st, op, fr, info) if op.k != 'new' else None
                if s is not None:
                    I.unknown_call(st, I.ir.targets(info), args, obj, info, op, fr)
                    self.mark(st, ('made', s, (), C1))
                    return [(st, s)]
            r = self.assigned(I, st, op, info, obj, fr)
            return Watch.on_call(self, I, st, op, info, args, obj, fr)

        def assigned(self, I, st, op, info, obj, fr):
            if meth(info) == 'operator=' and info.get('obj') and info['obj'][0] == 'fld' and info['obj'][2] in R2F:
                self.put(I, st, I.place(st, info['obj'], fr), op, fr)

        def on_store(self, I, st, p, v, op, fr):
            if p[0] == 'F' and p[2] in R2F and not ((op.info or {}).get('init') and fr.fn.d.get('ctor')):
                self.put(I, st, p, op, fr)

        def put(self, I, st, p, op, fr):
            self.nevents += 1
            n2.add((fr.fn.key, op.l))
            o = p[1]
            if o[0] == 's' and o[1] == 'new' or any(m[1] == o for m in self.marks(st, 'made') + self.marks(st, 'early')):
                return
            I.fail(fr, op.l, '%s is assigned although a worker task may be reading it' % strip(p[2]))
    ctx.discharge('R2', R2, stores_to(ctx, R2F))
    ctx.need('assignments_of_members_read_by_workers', len(n2), 3)
    ctx.count('members_read_by_workers', len(used2))

    # ---- R3
    ctx.rule('R3: after a function hands a task over, it no longer touches what that task shares with it')
    nh = 0
    shareable = names | {strip(q) for q in crypto}
    for fn, b, o, ls in S.all:
        for l in ls:
            caps = shared(S, fn, l, shareable)
            if not caps:
                continue
            nh += 1
            for o2 in after(fn, b, o):
                if o2.k in ('dtor', 'decl'):
                    continue
                x = uses(S, fn, o2) & caps
                if x:
                    ctx.viol('R3', fn, o2.l, 'what a task handed over at line %d shares is used afterwards' % o.l, detail=sorted(x)[0].split('@')[0])
    ctx.need('hand_overs_sharing_state', nh, 5)

    # ---- R4
    ctx.rule('R4: a platform with worker threads gives tasks for thread 0 to the main performer and others to the worker performer, running none in place; a task runs only if the platform was not closed')
    routes(ctx)


def shared(S, fn, lam, names):
    """local variables a function object captures whose content is shared keying state"""
    ir = S.ir
    out = set()
    d, _ = S.temps(fn)
    for o in d.values():
        if o.k == 'lambda' and o.x == lam:
            for c in (o.info or {}).get('caps') or ():
                t = (c[3].get('t') if len(c) > 3 else '') or ''
                if 'shared_ptr<' in t and strip(t.split('shared_ptr<', 1)[1].rstrip('>')) not in names:
                    out.add(c[0])
    return out


def uses(S, fn, o):
    out = set()

    def w(x):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 'var' and isinstance(x[1], str):
                out.add(x[1])
            for y in x:
                w(y)
    w((o.a, o.b))
    for y in (o.info or {}).get('args') or ():
        w(y)
    return out


def after(fn, b, o):
    """operations that may run after one"""
    i = b.ops.index(o)
    out = list(b.ops[i + 1:])
    seen = set()
    st = list(succs(b))
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        out += fn.blocks[x].ops
        st += succs(fn.blocks[x])
    return out


def routes(ctx):
    ir = ctx.ir
    MAIN, WORK = (field(ctx, 'PerformerPosixPlatformAdapter::' + x) for x in ('m_mainPerformer', 'm_workerPerformer'))
    cls = 'rtmfp::PerformerPosixPlatformAdapter'
    n = dict(route=0, run=0)

    class R4(Watch):
        tracked = frozenset([MAIN, WORK])

        def on_enter(self, I, st, fr):
            if fr.up is None:
                for i, p in enumerate(fr.fn.params):
                    self.mark(st, ('arg', C0, (('c', i),), ('s', 'bool' if p['t'] == 'bool' else 'arg', i)))

        def on_load(self, I, st, p, op, fr):
            if p[0] == 'F' and p[2] in (MAIN, WORK):
                v = st.mem.get(p)
                if v is None:
                    v = st.mem[p] = I.fresh(st, 'ptr', op, fr)
                self.mark(st, ('perf', C0, (p[2],), v))
                return v

        def ev_perform(self, I, st, op, info, args, obj, fr):
            n['route'] += 1
            t = [m[3] for m in self.marks(st, 'arg') if m[2][0] == C0]
            which = {m[2][0] for m in self.marks(st, 'perf') if m[3] == obj}
            z = st.decide(psa.mknz(t[0])) if t else None
            if z is None or z is False and MAIN not in which or z is True and WORK not in which:
                I.fail(fr, op.l, 'a task is not given to the performer its thread number asks for')
            if len(args) > 1 and not false(st, args[1]):
                I.fail(fr, op.l, 'the thread handing a task over waits for it')
            self.mark(st, ('given', C0, (), C1))
        event_calls = {'Performer::perform': ev_perform}

        def on_callv(self, I, st, op, fv, args, fr):
            I.fail(fr, op.l, 'a task is run in place')

        def on_exit(self, I, st, rv, fr):
            if fr.up is None and not self.marks(st, 'given') and (rv is None or not false(st, rv)):
                I.fail(fr, fr.fn.line, 'a task is accepted and given to nobody')

    ks = named(ctx, cls + '::perform')
    if len(ks) != 1:
        raise AnalysisError('the routing function is not found')
    run_root(ctx, 'R4', R4, ks[0])

    class Wrapped(Watch):
        tracked = frozenset()

        def on_load(self, I, st, p, op, fr):
            t = (op.info or {}).get('t') or ''
            if t in ('bool', 'std::atomic<bool>', 'std::atomic_bool') and p[0] in ('D', 'F'):
                v = I.fresh(st, 'flag', op, fr)
                self.mark(st, ('open', C0, (), v))
                return v

        def on_call(self, I, st, op, info, args, obj, fr):
            if 'atomic' in info['q'] and meth(info) in ('load', 'operator bool'):
                v = I.fresh(st, 'flag', op, fr)
                self.mark(st, ('open', C0, (), v))
                return [(st, v)]
            return Watch.on_call(self, I, st, op, info, args, obj, fr)

        def on_callv(self, I, st, op, fv, args, fr):
            n['run'] += 1
            if not any(true(st, m[3]) for m in self.marks(st, 'open')):
                I.fail(fr, op.l, 'a task runs although the platform may have been closed')
    for f in ir.all():
        if f.is_lambda and f.key.startswith(tuple(k + '::$' for k in named(ctx, cls + '::perform') + named(ctx, 'rtmfp::PosixPlatformAdapter::perform'))):
            run_root(ctx, 'R4', Wrapped, f.key)
    ctx.need('routings', n['route'], 1)
    ctx.need('wrapped_tasks', n['run'], 2)
