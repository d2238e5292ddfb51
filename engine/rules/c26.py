"""Objects never start with indeterminate state."""
import re
from lib import *
from facts import AnalysisError

EXPLANATION = ('Definite-assignment analysis over the control-flow graph of every function: each scalar or pointer member without an initialiser at its declaration is assigned on every path of every '
               'constructor (also through delegated constructors and methods of the object called there); objects of classes without a constructor are value-initialised or pass through a method '
               'that assigns every such member before any other use; no scalar local is read on a path that has not assigned it.')


def lib_class(c):
    return c['file'].startswith(('src/', 'include/')) and not c.get('union')


def run(ctx):
    ir, prog = ctx.ir, ctx.prog
    raw = {}        # class -> fields that need a value
    for q, c in prog.classes.items():
        if not lib_class(c):
            continue
        fs = [f['f'] for f in c['fields'] if f['scalar'] and 'i' not in f]
        raw[q] = fs
    memo = {}

    def this_fields(key, stack=()):
        """own fields certainly assigned when the method returns"""
        if key in memo:
            return memo[key]
        fn = ir.fn(key)
        if fn is None or key in stack:
            return frozenset()
        ins, outs = flow(fn, lambda o: gen_this(o, fn, stack + (key,)))
        r = None
        for b in fn.blocks:
            if b.id in fn.reach and b.term[0] == 'ret':
                r = outs[b.id] if r is None else r & outs[b.id]
        memo[key] = r = frozenset(r or ())
        return r

    THIS = ('deref', ('this',))

    def top(p):
        """field of this object a place lies in"""
        while p[0] in ('fld', 'elem'):
            if p[0] == 'fld' and p[1] == THIS:
                return p[2]
            p = p[1] if p[0] == 'fld' else (p[1][1] if p[1][0] == 'addr' else ('x',))
        return None

    def gen_this(o, fn, stack):
        g = set()
        if o.k in ('store', 'ctor'):
            f = top(o.a)
            if f:
                g.add(f)
        if o.info:
            for a in o.info.get('args', ()):
                if a[0] == 'addr':
                    f = top(a[1])
                    if f:
                        g.add(f)
            obj = o.info.get('obj')
            if o.k == 'call' and obj == THIS:
                ts = ir.targets(o.info)
                if len(ts) == 1:
                    g |= this_fields(ts[0], stack)
            if o.k == 'ctor' and o.a == THIS and o.info.get('key') and noref(o.info.get('t') or '') == fn.d.get('cls'):
                g |= this_fields(o.info['key'], stack)
        return g

    def flow(fn, gen):
        """forward must-assigned sets; returns (at entry, at exit) per block"""
        gens = {b.id: set().union(*[gen(o) for o in b.ops]) if b.ops else set() for b in fn.blocks if b.id in fn.reach}
        preds = {}
        for i in fn.reach:
            for s in set(succs(fn.blocks[i])):
                preds.setdefault(s, set()).add(i)
        ins = {i: None for i in fn.reach}
        outs = {i: None for i in fn.reach}
        ins[fn.entry] = set()
        work = [fn.entry]
        while work:
            i = work.pop()
            o = ins[i] | gens[i]
            if outs[i] is None or o != outs[i]:
                outs[i] = o
                for s in succs(fn.blocks[i]):
                    n = None
                    for p in preds[s]:
                        if outs[p] is not None:
                            n = set(outs[p]) if n is None else n & outs[p]
                    if s == fn.entry:
                        n = set()
                    if ins[s] is None or n != ins[s]:
                        ins[s] = n
                        work.append(s)
        return ins, outs
    SEEN = field(ctx, 'Session::m_seenUserDataThisPacket')
    PARSE = fields(ctx, 'Session::m_parsingFlowID', 'Session::m_parsingSequenceNumber', 'Session::m_parsingFSN')
    # values that only exist while one packet is read; R4 shows that each read follows a store made for the same packet
    late = PARSE | {SEEN}
    # ---- R1
    ctx.rule('R1: every scalar member without an initialiser at its declaration is assigned on every path through every constructor that has a body')
    nctor = nfield = 0
    for q, c in sorted(prog.classes.items()):
        if q not in raw or not raw[q]:
            continue
        arrays = {f['f'] for f in c['fields'] if 'alen' in f}
        for m in c['methods']:
            if not m['ctor'] or m['key'] not in prog.funcs:
                continue
            d = prog.funcs[m['key']]
            if d.get('implicit') or d.get('defaulted'):
                continue
            fn = ir.fn(m['key'])
            nctor += 1
            have = this_fields(m['key'])
            for f in raw[q]:
                nfield += 1
                if f not in have and f not in late:
                    ctx.viol('R1', m['key'], fn.line, 'member %s can be left without a value by this constructor' % f.rsplit('::', 1)[-1], detail=f.rsplit('::', 1)[-1])
    # ---- R2 classes without a constructor of their own
    bare = {}
    for q, c in prog.classes.items():
        if raw.get(q) and not any(m['ctor'] and not m['implicit'] and not (prog.funcs.get(m['key']) or {}).get('defaulted') for m in c['methods']):
            fs = frozenset(raw[q])
            setup = {m['key'] for m in c['methods'] if not m['ctor'] and not m['dtor'] and m['key'] in prog.funcs and fs <= this_fields(m['key'])}
            bare[q] = (fs, setup)
    ctx.rule('R2: an object of a class without a constructor is value-initialised, or a method that assigns all its members is called before any other use of it')
    ctx.rule('R3: no scalar local is read on a path that has not assigned it')
    nlocal = nobj = 0
    for fn in ir.all():
        scal, objs = {}, {}
        for b in fn.blocks:
            if b.id not in fn.reach:
                continue
            for n, o in enumerate(b.ops):
                if o.k == 'decl' and not (o.info or {}).get('init') and not o.a[1].startswith(('g:', 's:')):
                    t = (o.x or '')
                    if is_scalar_t(t):
                        scal[o.a[1]] = o.l
                    elif t in bare:
                        nxt = [x for x in b.ops[n + 1:n + 4] if x.k == 'ctor' and x.a == o.a]
                        if not (nxt and nxt[0].info.get('zi')):
                            objs[o.a[1]] = (t, o.l)
                elif o.k == 'decl' and (o.x or '') in bare and not o.a[1].startswith(('g:', 's:')):
                    nxt = [x for x in b.ops[n + 1:n + 4] if x.k == 'ctor' and x.a == o.a]
                    if nxt and not nxt[0].info.get('zi') and not nxt[0].info['args']:
                        objs[o.a[1]] = (o.x, o.l)
                elif o.k == 'new' and o.info['t'] in bare and not o.info.get('zi') and not o.info['args']:
                    nobj += 1
                    ctx.viol('R2', fn.key, o.l, 'creates a %s whose members have no value' % o.info['t'].rsplit('::', 1)[-1], detail=o.info['t'])
                elif o.k == 'new' and o.info['t'] in bare:
                    nobj += 1
                elif o.k == 'ctor' and (o.info.get('t') or '') in bare and o.a[0] == 'fld' and not o.info.get('zi') and not o.info['args'] and bare[o.info['t']][0]:
                    ctx.viol('R2', fn.key, o.l, 'member %s is an object whose own members have no value' % o.a[2].rsplit('::', 1)[-1], detail=o.a[2])
        if not scal and not objs:
            continue
        nlocal += len(scal)
        nobj += len(objs)

        def base(p):
            """(variable, path of fields) a place lies in"""
            fs = []
            while p[0] in ('fld', 'elem'):
                if p[0] == 'fld':
                    fs.append(p[2])
                    p = p[1]
                else:
                    if p[1][0] != 'addr':
                        return None, ()
                    p = p[1][1]
            return (p[1] if p[0] == 'var' else None), tuple(fs)

        def gen(o):
            g = set()
            if o.k == 'decl':
                return g
            if o.k == 'store':
                v, fs = base(o.a)
                if v in scal:
                    g.add(v)
                elif v in objs and fs:
                    g.add((v, fs[-1]))
            for a in addrs(o):
                v, fs = base(a)
                if v in scal:
                    g.add(v)
                elif v in objs and fs:
                    g.add((v, fs[-1]))
            if o.k == 'call' and o.info.get('obj'):
                v, fs = base(o.info['obj'])
                if v in objs and not fs:
                    for t in ir.targets(o.info):
                        g |= {(v, f) for f in this_fields(t)}
            if o.k == 'call' and o.info['q'].endswith('::operator=') and o.info.get('obj'):
                v, fs = base(o.info['obj'])
                if v in objs and not fs:
                    g |= {(v, f) for f in bare[objs[v][0]][0]}
            return g
        ins, outs = flow(fn, gen)
        told = set()
        for b in fn.blocks:
            if b.id not in fn.reach or ins[b.id] is None:
                continue
            cur = set(ins[b.id])
            for o in b.ops:
                if o.k == 'ld':
                    v, fs = base(o.a)
                    if v in scal and v not in cur and v not in told:
                        told.add(v)
                        ctx.viol('R3', fn.key, o.l, 'local %s can be read before it was assigned' % v.split('@')[0], detail=v.split('@')[0])
                    elif v in objs and fs and fs[-1] in bare[objs[v][0]][0] and (v, fs[-1]) not in cur and v not in told:
                        told.add(v)
                        ctx.viol('R2', fn.key, o.l, 'member %s of local %s can be read before it was assigned' % (fs[-1].rsplit('::', 1)[-1], v.split('@')[0]), detail=v.split('@')[0])
                used = []
                if o.k == 'call' and o.info.get('obj'):
                    v, fs = base(o.info['obj'])
                    if v in objs and not fs and not any(t in bare[objs[v][0]][1] for t in ir.targets(o.info)) and not o.info['q'].endswith('::operator='):
                        used.append(v)
                for a in addrs(o):
                    v, fs = base(a)
                    if v in objs and not fs:
                        used.append(v)
                for v in used:
                    if not {(v, f) for f in bare[objs[v][0]][0]} <= cur and v not in told:
                        told.add(v)
                        ctx.viol('R2', fn.key, o.l, 'local object %s can be used before its members were given values' % v.split('@')[0], detail=v.split('@')[0])
                cur |= gen(o)
    # ---- R4
    ctx.rule('R4: the members of a session that hold the position in the packet being read are read only after they were stored for that packet')
    got = dict(reads=0, sets=0)

    class Cl(Watch):
        tracked = late

        def on_load(self, I, st, p, op, fr):
            if p[0] == 'F' and p[2] in PARSE:
                got['reads'] += 1
                v = st.mem.get(('F', p[1], SEEN))
                if v is None or not true(st, v):
                    I.fail(fr, op.l, 'reads %s although no user data chunk of this packet is known to have been parsed' % p[2].rsplit('::', 1)[-1])

        def on_store(self, I, st, p, v, op, fr):
            if p[0] == 'F' and p[2] in PARSE:
                self.mark(st, ('set', p[1], (('k', p[2]),), C1))
            if p[0] == 'F' and p[2] == SEEN and v != C0:
                got['sets'] += 1
                have = {m[2][0][1] for m in self.marks(st, 'set') if m[1] == p[1]}
                for f in sorted(PARSE - have):
                    I.fail(fr, op.l, 'user data is declared parsed before %s was stored' % f.rsplit('::', 1)[-1])
    touch = {f.key for f, o in sites(ctx, lambda fn, o: o.k == 'ld' and o.a[0] == 'fld' and o.a[2] in PARSE)} | stores_to(ctx, {SEEN})
    ctx.discharge('R4', Cl, {k for k in touch if not prog.funcs[k].get('ctor')})
    ctx.need('reads_of_packet_position', got['reads'], 3)
    ctx.need('packet_position_set', got['sets'], 1)
    begin = [k for k in prog.funcs if base_q(prog.funcs[k]['q']) == 'rtmfp::Session::onPacketHeader']
    if len(begin) != 1:
        raise AnalysisError('anchor vanished: Session::onPacketHeader')

    class Bg(Watch):
        tracked = frozenset([SEEN])

        def on_exit(self, I, st, rv, fr):
            if fr.up is None and not (rv is not None and false(st, rv)):
                v = st.mem.get(('F', fr.this, SEEN))
                if v is None or not false(st, v):
                    I.fail(fr, fr.fn.line, 'a packet can be started without forgetting the user data position of the one before')
    ctx.discharge('R4', Bg, begin)

    class Hd(Watch):
        observe = {'rtmfp::ISession::onPacketHeader': 'begin'}

        def on_chunk(self, I, st, op, info, args, obj, fr):
            if not self.marks(st, 'begin'):
                I.fail(fr, op.l, 'chunks of a packet are read before the packet was begun')
            return [(st, I.retsym(st, op, fr, info))]
        event_calls = {'rtmfp::ISession::onChunk': on_chunk, 'rtmfp::ISession::onPacketAfterChunks': on_chunk}
    cs = calls_to(ctx, 'rtmfp::ISession::onChunk', 'rtmfp::ISession::onPacketAfterChunks')
    ctx.discharge('R4', Hd, cs)
    ctx.need('chunk_dispatchers', len(cs), 1)
    ctx.need('constructors', nctor, 60)
    ctx.need('members_checked', nfield, 150)
    ctx.need('locals_without_initialiser', nlocal, 20)
    ctx.need('objects_without_constructor', nobj, 10)
    ctx.count('classes', len(raw))


def addrs(o):
    """places whose address is handed out"""
    out = []
    for a in (o.info or {}).get('args', ()) if o.info else ():
        if a[0] == 'addr':
            out.append(a[1])
    if o.k == 'store' and o.b[0] == 'addr':
        out.append(o.b[1])
    if o.k in ('cast', 'bin', 'un') and isinstance(o.a, tuple) and o.a[0] == 'addr':
        out.append(o.a[1])
    if o.k == 'bin' and isinstance(o.b, tuple) and o.b[0] == 'addr':
        out.append(o.b[1])
    if o.k == 'lambda':
        for c in o.info['caps']:
            if len(c) > 2 and c[1][0] == 'addr':
                out.append(c[1][1])
    return out


def is_scalar_t(t):
    from ir import is_scalar
    t = t.strip()
    return (is_scalar(t) or t.endswith('*')) and not t.endswith('&')
