"""Shared pieces of the rules: anchors, observation marks for the typestate engine."""
import psa
from psa import C0, C1
from ir import base_q, is_ref, noref, succs
from facts import AnalysisError


def field(ctx, suffix):
    r = [f for f in ctx.ir.fields if f.endswith('::' + suffix)]
    if len(r) != 1:
        raise AnalysisError('anchor vanished or ambiguous: field %s (%d)' % (suffix, len(r)))
    return r[0]


def fields(ctx, *suf):
    return frozenset(field(ctx, s) for s in suf)


def const(ctx, name):
    """value of an enumerator or named constant, by qualified-name suffix"""
    ev = ctx.prog.enumval
    r = {v for n, v in ev.items() if n == name or n.endswith('::' + name)}
    if len(r) != 1:
        raise AnalysisError('anchor vanished or ambiguous: constant %s (%d)' % (name, len(r)))
    return r.pop()


def qn(info):
    return base_q(info['q'])


class Watch(psa.Client):
    """observed calls leave a mark (name, object, args, result) in the automaton state"""
    observe = {}        # qualified name -> short name
    epoch = ()          # marks forgotten when time passes (asynchronous boundary)
    private = frozenset()   # fields of objects only the analysed chain holds
    results = {}        # mark name -> (least, greatest) value of the call's enumerated result
    nevents = 0
    event_calls = {}    # qualified name -> method(self, I, st, op, info, args, obj, fr)

    def havoc_field(self, f):
        return f not in self.private

    def events(self):
        return {n for n in set(self.observe) | set(self.event_calls) | set(self.deferred) if not n.startswith('std::')}

    def remember(self, v):
        """comparisons whose outcome is kept as a mark ('br', expression, (), C0 or C1)"""
        return False

    def on_branch(self, I, st, v, truth, b, fr):
        if v[0] == 'not':
            v, truth = v[1], not truth
        if self.remember(v):
            self.mark(st, ('br', v, (), C1 if truth else C0))

    def compared(self, st):
        return [(m[1], m[3] == C1) for m in self.marks(st, 'br')]

    def mark(self, st, m):
        a = st.auto or ()
        if m not in a:
            st.auto = tuple(sorted(a + (m,), key=repr))

    def drop(self, st, pred):
        if st.auto:
            st.auto = tuple(m for m in st.auto if not pred(m))

    def marks(self, st, name):
        return [m for m in (st.auto or ()) if m[0] == name]

    def enum_of(self, t):
        return None

    def on_call(self, I, st, op, info, args, obj, fr):
        q = base_q(info['q'])
        ev = self.event_calls.get(q)
        if ev is not None:
            self.nevents += 1
            r = ev(self, I, st, op, info, args, obj, fr)
            if r is not None:
                return r
        n = self.observe.get(q)
        if n is not None:
            given = args
            args = [self.deep(I, st, a) for a in args]
            I.unknown_call(st, I.ir.targets(info), given, obj, info, op, fr)
            er = self.results.get(n)
            s = I.retsym(st, op, fr, info) if er is None else I.fresh(st, 'enum', op, fr, er)
            self.mark(st, (n, obj if obj is not None else C0, tuple(args), s))
            return [(st, s)]
        return None

    def deep(self, I, st, a):
        """content of what is passed by reference, when known"""
        if a[0] == 'addr':
            v = st.mem.get(a[1])
            if v is not None:
                return ('at', v)
            if a[1][0] == 'F' and a[1][2] in I.ir.immutable_fields():
                return ('at', ('fld', a[1][1], a[1][2]))
        return a

    def forget(self, st):
        self.drop(st, lambda m: m[0] in self.epoch)

    def on_defer(self, I, st, op, info, i, lam, fr):
        self.forget(st)
        q = base_q(info['q'])
        n = self.deferred.get(q) if self.deferred else None
        if n is not None:
            args = [self.val_of(I, st, a, fr) for a in op.info['args']]
            obj = None
            if info.get('obj') is not None:
                p = I.place(st, info['obj'], fr)
                obj = p[1] if p[0] == 'D' else ('addr', p)
            self.mark(st, (n, obj if obj is not None else C0, tuple(self.deep(I, st, a) for a in args if a[0] != 'lam'), C1))
        return st, None

    deferred = {}       # qualified name of an async call -> mark its continuation carries

    def val_of(self, I, st, a, fr):
        return I.val(st, a, fr)


def true(st, v):
    return st.decide(psa.mknz(v)) is True


def false(st, v):
    return st.decide(psa.mknz(v)) is False


def calls_to(ctx, *names):
    """keys of functions containing a call to one of the named functions"""
    names = set(names)
    return psa.functions_with(ctx.ir, lambda fn, o: o.k == 'call' and base_q(o.info['q']) in names)


def stores_to(ctx, fset, init=False):
    """functions that assign one of the fields (class-type fields are assigned through operator=)"""
    def pred(fn, o):
        if o.k == 'store' and o.a[0] == 'fld' and o.a[2] in fset:
            return init or not (fn.d.get('ctor') and (o.info or {}).get('init'))
        if o.k == 'call' and o.info['q'].endswith('::operator=') and o.info.get('obj') and o.info['obj'][0] == 'fld':
            return o.info['obj'][2] in fset
        return False
    return psa.functions_with(ctx.ir, pred)


def sites(ctx, pred):
    out = []
    for fn in ctx.ir.all():
        for b in fn.blocks:
            if b.id in fn.reach:
                for o in b.ops:
                    if pred(fn, o):
                        out.append((fn, o))
    return out


def reach(ctx, keys, lambdas=True):
    """functions reachable from the given ones through calls and, if asked, through the function objects they create"""
    ir = ctx.ir
    seen = set()
    st = list(keys)
    while st:
        k = st.pop()
        if k in seen:
            continue
        fn = ir.fn(k)
        if fn is None:
            continue
        seen.add(k)
        for b in fn.blocks:
            if b.id not in fn.reach:
                continue
            for o in b.ops:
                if o.k == 'call':
                    st += ir.targets(o.info)
                elif o.k in ('new', 'ctor', 'ctorval') and o.info.get('key'):
                    st.append(o.info['key'])
                elif o.k == 'lambda' and lambdas:
                    st.append(o.x)
                elif o.k == 'dtor':
                    c = ir.prog.classes.get(noref(o.x))
                    if c:
                        st += [m['key'] for m in c['methods'] if m.get('dtor')]
    return seen


def leading_to(ctx, root, goal):
    """functions on call paths (including created function objects) from root to a function satisfying goal(key)"""
    ks = reach(ctx, [root])
    rev = {}
    for k in ks:
        for b in ctx.ir.fn(k).blocks:
            for o in b.ops:
                if o.k == 'call':
                    ts = ctx.ir.targets(o.info)
                elif o.k in ('new', 'ctor', 'ctorval') and o.info.get('key'):
                    ts = [o.info['key']]
                elif o.k == 'lambda':
                    ts = [o.x]
                else:
                    continue
                for t in ts:
                    rev.setdefault(t, set()).add(k)
    out = {k for k in ks if goal(k)}
    st = list(out)
    while st:
        for u in rev.get(st.pop(), ()):
            if u not in out:
                out.add(u)
                st.append(u)
    return out


def named(ctx, q):
    return sorted(k for k, d in ctx.prog.funcs.items() if base_q(d['q']) == q)


def run_root(ctx, rule, make, key):
    """analyse one function from its entry, with its callees followed as the client asks"""
    I = psa.Interp(ctx.ir, make())
    I.callers = ctx.callers
    I.entry(ctx.ir.fn(key))
    for k, line, msg, stack in I.failures:
        ctx.viol(rule, k, line, msg, stack)
    ctx.count('roots', 1)
    ctx.count('steps', I.steps)
    ctx.count('functions_followed', len(I.visited_fns))
    return I


class Flow:
    """Which inputs certainly went into each value: forward must-analysis (intersection at joins), following calls to project functions.
    Sources: ('p', i) parameters of the root, ('f', field) members read, ('q', name) results of named calls."""
    def __init__(self, ctx, on_call=None, depth=4):
        self.ctx, self.ir, self.hook, self.depth = ctx, ctx.ir, on_call, depth

    def base(self, p):
        while p[0] in ('fld', 'elem'):
            if p[0] == 'fld':
                b = p[1]
                if b[0] == 'deref':
                    return ('f', p[2])
                p = b
            else:
                p = p[1][1] if p[1][0] == 'addr' else p[1]
        if p[0] == 'var':
            return p
        if p[0] in ('tmp', 'deref'):
            p = p[1]
        if p[0] == 'this':
            return p
        return self.alias.get(p, p) if p[0] == 't' else ('x',)

    def src(self, m, x):
        if x[0] == 'addr':
            return self.at(m, x[1])
        if x[0] == 't':
            return m.get(x, frozenset())
        if x[0] == 'this':
            return m.get(('this',), frozenset())
        return frozenset()

    def at(self, m, p):
        b = self.base(p)
        if b[0] == 'f':
            return m.get(b, frozenset([b]))
        return m.get(b, frozenset())

    def put(self, m, p, s, add=False):
        b = self.base(p)
        if b[0] != 'x':
            m[b] = (self.at(m, p) | s) if add or p[0] in ('fld', 'elem') and b[0] != 'f' else frozenset(s)

    def run(self, key, args, this=frozenset(), stack=()):
        fn = self.ir.fn(key)
        outer, self.alias = getattr(self, 'alias', {}), {}
        try:
            return self.run_(fn, args, this, stack)
        finally:
            self.alias = outer

    def run_(self, fn, args, this, stack):
        m0 = {('var', p['id']): (args[i] if i < len(args) else frozenset()) for i, p in enumerate(fn.params)}
        m0[('this',)] = this
        ins = {fn.entry: m0}
        work = [fn.entry]
        rets = []
        n = 0
        done = {}
        while work:
            b = work.pop(0)
            n += 1
            if n > 4000:
                raise AnalysisError('source analysis does not settle in %s' % fn.bq)
            m = dict(ins[b])
            for o in fn.blocks[b].ops:
                self.op(fn, m, o, stack)
            t = fn.blocks[b].term
            if t[0] == 'ret':
                done[b] = (self.src(m, t[1]) if t[1] is not None else frozenset(), {i: m.get(('var', p['id']), frozenset()) for i, p in enumerate(fn.params)}, m.get(('this',), frozenset()))
            for s in succs(fn.blocks[b]):
                if s not in ins:
                    ins[s] = dict(m)
                    work.append(s)
                else:
                    j = {k: v & m[k] for k, v in ins[s].items() if k in m}
                    if j != ins[s]:
                        ins[s] = j
                        work.append(s)
        rets = list(done.values())
        if not rets:
            return frozenset(), {}, frozenset()
        r, outs, th = rets[0]
        for r2, o2, t2 in rets[1:]:
            r, th = r & r2, th & t2
            outs = {i: outs[i] & o2[i] for i in outs}
        return r, outs, th

    def near(self, fn, key):
        """helpers of the same source file are followed; elsewhere the result is taken to come from every argument"""
        return self.ir.fn(key).file == fn.file

    def op(self, fn, m, o, stack):
        k = o.k
        if k == 'ld':
            m[('t', o.dst)] = self.at(m, o.a)
            if o.a[0] == 'var':
                self.alias[('t', o.dst)] = o.a
        elif k == 'store':
            self.put(m, o.a, self.src(m, o.b))
        elif k == 'bin':
            m[('t', o.dst)] = self.src(m, o.a) | self.src(m, o.b)
        elif k in ('un', 'cast', 'dyncast'):
            m[('t', o.dst)] = self.src(m, o.a)
        elif k == 'decl':
            m[o.a] = frozenset()
        elif k in ('call', 'ctor', 'ctorval', 'new'):
            info = o.info
            asrc = [self.src(m, a) for a in info['args']]
            osrc = frozenset()
            place = info.get('obj') if k == 'call' else (o.a if k == 'ctor' else None)
            if place is not None and k == 'call':
                osrc = self.at(m, place)
            if self.hook:
                r = self.hook(fn, o, asrc, osrc)
                if r is not None:
                    if o.dst is not None:
                        m[('t', o.dst)] = r
                    return
            allsrc = osrc.union(*asrc) if asrc else osrc
            ts = self.ir.targets(info) if k == 'call' else ([info['key']] if info.get('key') in self.ir.prog.funcs else [])
            if len(ts) == 1 and ts[0] not in stack and len(stack) < self.depth and self.ir.fn(ts[0]) is not None and self.near(fn, ts[0]):
                r, outs, th = self.run(ts[0], asrc, osrc, stack + (ts[0],))
                for i, a in enumerate(info['args']):
                    if a[0] == 'addr' and i in outs:
                        self.put(m, a[1], outs[i], add=True)
                if k == 'call':
                    if o.dst is not None:
                        m[('t', o.dst)] = r
                    if place is not None and not info.get('const') and th - osrc:
                        self.put(m, place, th, add=True)
                elif o.dst is not None:
                    m[('t', o.dst)] = allsrc
                elif place is not None:
                    self.put(m, place, allsrc)
                return
            if o.dst is not None:
                m[('t', o.dst)] = allsrc
            if k == 'ctor':
                self.put(m, place, allsrc)
            elif place is not None and not info.get('const') and info['q'].rsplit('::', 1)[-1] not in ACCESSORS:
                self.put(m, place, allsrc, add=not info['q'].endswith('::operator='))
            pts = info.get('pts') or []
            for i, a in enumerate(info['args']):
                t = pts[i] if i < len(pts) else ''
                if a[0] == 'addr' and not t.startswith('const ') and (is_ref(t) or t.endswith('*') or not t):
                    self.put(m, a[1], allsrc, add=True)


ACCESSORS = ('data', 'size', 'begin', 'end', 'cbegin', 'cend', 'empty', 'get', 'operator->', 'operator*', 'operator[]', 'at', 'front', 'back')
