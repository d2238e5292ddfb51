"""C02: the packet builder stays inside its buffer; chunks are complete or withdrawn."""
import os
import time
import re
import ir as irm
import psa
import zone as Z
from zone import St, K, S, sym, add, sub, is_lin, PMAX, Infeasible, TooHard
from facts import AnalysisError
from lib import *
from rules import c01

EXPLANATION = ('two analyses: (1) every method of the packet builder, from any state that satisfies its class invariant (buffer start <= position <= limit, chunk start inside), keeps the '
               'invariant, writes only inside the buffer and leaves the position unchanged when it reports failure, by relational abstract interpretation; (2) every user of a builder, '
               'path-sensitively: initialised with the size of a real buffer, chunks committed only if every part went in, and the bytes used only at a chunk boundary')
PA = 'rtmfp::PacketAssembler'


class Pack(c01.Bounds):
    """methods of the builder, from a state that satisfies the invariant"""
    writes = True

    def __init__(self, ctx, F, variant):
        c01.Bounds.__init__(self, ctx)
        self.F = F
        self.variant = variant

    def exempt(self, fn):
        return False

    def own(self, p):
        if is_lin(p) and any(Z.NAMES[s][0] == 'pa' for s, c in p[2]):
            return False
        return c01.Bounds.own(self, p)

    def here(self, fr):
        return ('D', S(sym(('this', fr.id), 1, PMAX)))

    def enter(self, fn, nn=False):
        st, fr = c01.Bounds.enter(self, fn, nn)
        if self.ir.cls_of(fn.key) != PA:
            return st, fr
        F = self.F
        t = self.here(fr)
        x = {n: S(sym(('pa', n), 1, PMAX)) for n in ('buf', 'cur', 'lim', 'start', 'flags')}
        self.x = x
        if self.isinit(fn):
            # (buffer, margin, length, ...): what the callers are shown to give
            ps = [st.mem[('v', fr.id, p['id'])] for p in fn.params]
            self.region(st, ps[0], add(ps[0], ps[2]))
            st.assume(add(K(PMAX), add(ps[0], ps[2]), -1))
            st.assume(add(ps[0], K(-1)))
            st.assume(add(sub(ps[2], ps[1]), K(-(5 if len(fn.params) > 3 else 0))))
            self.init = ps
            return st, fr
        for n, f in (('buf', F['buf']), ('cur', F['cursor']), ('lim', F['limit'])):
            st.mem[('F', t, f)] = x[n]
        st.mem[('F', t, F['start'])] = x['start'] if self.variant else K(0)
        st.mem[('F', t, F['flags'])] = x['flags']
        st.assume(sub(x['cur'], x['buf']))
        st.assume(sub(x['lim'], x['cur']))
        st.assume(add(sub(x['cur'], x['flags']), K(-1)))
        st.assume(sub(x['flags'], x['buf']))
        if self.variant:
            st.assume(add(sub(x['start'], x['buf']), K(-3)))
            st.assume(sub(x['cur'], x['start']))
        self.region(st, x['buf'], x['lim'])
        return st, fr

    def isinit(self, fn):
        return irm.base_q(fn.bq) == PA + '::init'

    def project_call(self, st, op, fr, at, key, tg):
        if self.ir.cls_of(key) == PA:
            if self.isappend(key) and self.root.key != key:
                return self.appended(st, op, fr, at)
            r = self.inline(st, op, fr, at, key)
            if r is not None:
                return r
        return c01.Bounds.project_call(self, st, op, fr, at, key, tg)

    def isappend(self, key):
        fn = self.ir.fn(key)
        return fn is not None and irm.base_q(fn.bq) == PA + '::push' and len(fn.params) == 2 and Z.plain(fn.params[1]['t']) == 'unsigned long'

    def appended(self, st, op, fr, at):
        """push(bytes, n) as it is shown to behave on its own"""
        n = self.num(st, op.info['args'][1], fr, at)
        ob = self.loc(st, op.info['obj'], fr)
        lc, ll = ('F', ob, self.F['cursor']), ('F', ob, self.F['limit'])
        cur = self.load(st, lc, 'unsigned char *', fr, (at, 'c'))
        lim = self.load(st, ll, 'unsigned char *', fr, (at, 'l'))
        out = []
        s2 = st.copy()
        try:
            s2.assume(sub(lim, add(cur, n)))
            self.store(s2, lc, add(cur, n), fr, at)
            self.set(s2, op, fr, K(1))
            out.append(s2)
        except Infeasible:
            pass
        self.set(st, op, fr, K(0))
        return out + [st]

    def check_read(self, st, p, n, fr, l, what):
        # what is read from elsewhere is not this property's concern
        if is_lin(p) and any(Z.NAMES[s][0] == 'pa' for s, c in p[2]):
            return c01.Bounds.check_read(self, st, p, n, fr, l, what)
        return True

    def inside(self, st, p, n, fr, l, what):
        if p is not None and p[0] == 'addr':
            return
        if is_lin(p) and any(Z.NAMES[s][0] in ('arr', 'this') for s, c in p[2] if c > 0) and not any(Z.NAMES[s][0] == 'pa' for s, c in p[2]):
            return
        self.oblkeys.add((self.base_fn(fr).key, l, what))
        self.nobl += 1
        if not (is_lin(p) and is_lin(n) and self.readable(st, p, n)):
            self.fail(st, fr, l, what, 'at %s, %s bytes' % (c01.show_v(p), c01.show_v(n)))

    def on_write(self, st, p, fr, op, at):
        v = self.val(st, p[1], fr)
        if p[0] == 'elem':
            i = self.val(st, p[2], fr)
            v = add(v, i) if is_lin(v) and is_lin(i) else v
        if self.root is not None and self.ir.cls_of(self.root.key) == PA and self.ir.cls_of(fr.fn.key) == PA:
            self.inside(st, v, K(1), fr, op.l, 'write of a byte')

    def on_copy(self, st, d, n, fr, op):
        if self.root is not None and self.ir.cls_of(self.root.key) == PA and self.ir.cls_of(fr.fn.key) == PA:
            self.inside(st, d, n, fr, op.l, 'copy into the packet')

    def check(self, fn):
        """the method from this variant of the invariant"""
        q = irm.base_q(fn.bq).rsplit('::', 1)[-1]
        self.recording = 1
        rets, fr = self.analyse(fn)
        self.root = fn
        F, t = self.F, self.here(fr)
        lenp = [i for i in range(1, len(fn.params)) if Z.plain(fn.params[i]['t']) == 'unsigned long' and '*' in fn.params[i - 1]['t']]
        for v, s in rets:
            g = {n: s.mem.get(('F', t, F[n])) for n in ('buf', 'cursor', 'limit', 'start')}

            def show(ok, what):
                self.nobl += 1
                self.oblkeys.add((fn.key, fn.line, what))
                if not ok:
                    self.fail(s, fr, fn.line, what, 'on return of %s' % c01.show_v(v))

            def le(a, b, k=0):
                return is_lin(a) and is_lin(b) and s.prove(add(sub(b, a), K(k)))
            same = lambda a, b: le(a, b) and le(b, a)
            x = self.x
            if self.isinit(fn):
                ps = self.init
                show(same(g['buf'], ps[0]) and same(g['limit'], add(ps[0], ps[2])) and le(g['buf'], g['cursor']) and le(g['cursor'], g['limit']) and same(g['start'], K(0)),
                     'after initialisation the position is not inside the buffer given, or a chunk is taken to be open')
                continue
            show(same(g['buf'], x['buf']) and same(g['limit'], x['lim']), 'the buffer limits change')
            show(le(g['buf'], g['cursor']) and le(g['cursor'], g['limit']), 'the position may leave the buffer')
            st0 = x['start'] if self.variant else K(0)
            alts = [(v, s)]
            if v is not None and v[0] == 'cmp':
                alts = [(K(int(b)), s2) for b in (True, False) for s2 in self.assume(s.copy(), v, b)]
            for v2, s2 in alts:
                s = s2
                if fn.d.get('ret') == 'bool' and not fn.d.get('const') and q not in ('getTimeCriticalFlag',):
                    if not (is_lin(v2) and not v2[2]):
                        show(False, 'the outcome reported is not decided')
                        continue
                    if v2[1] == 0:
                        show(same(g['cursor'], x['cur']) and same(g['start'], st0), 'an append that failed left part of it in the packet')
                        continue
                    n = K(1)
                    if lenp:
                        n = S(sym(('p', fn.key, lenp[0]), *Z.orange(fn.params[lenp[0]]['t'])))
                    elif fn.params and 'std::vector' in fn.params[0]['t']:
                        n = self.csize(s, ('D', S(sym(('p', fn.key, 0), 1, PMAX))))
                    elif q == 'pushVLU':
                        n = K(0)
                    if q == 'startChunk':
                        show(same(g['cursor'], add(x['cur'], K(3))) and same(g['start'], g['cursor']), 'a chunk begun does not have its three header bytes')
                    else:
                        show(le(add(x['cur'], n), g['cursor']) and (q != 'push' or not lenp and len(fn.params) == 1 or same(add(x['cur'], n), g['cursor'])) and same(g['start'], st0),
                             'an append reported as done did not go in completely')
                elif q == 'commitChunk':
                    show(same(g['cursor'], x['cur']) and same(g['start'], K(0)), 'committing a chunk moves the position or leaves the chunk open')
                elif q == 'rollbackChunk':
                    show(same(g['start'], K(0)) and (same(g['cursor'], sub(x['start'], K(3))) if self.variant else same(g['cursor'], x['cur'])), 'withdrawing a chunk does not return to where it began')
                else:
                    show(same(g['cursor'], x['cur']) and same(g['start'], st0), 'an operation that appends nothing moves the position')


def run(ctx):
    ir = ctx.ir
    F = {n: field(ctx, 'PacketAssembler::' + f) for n, f in (('buf', 'm_buf'), ('cursor', 'm_cursor'), ('limit', 'm_limit'), ('start', 'm_currentChunkStart'), ('flags', 'm_flags'))}
    part1(ctx, F)
    part2(ctx, F)


def part1(ctx, F):
    ir = ctx.ir
    ctx.rule('R1: from every state of the class invariant, every method writes only inside the buffer, restores the invariant, and reports failure only with the position unchanged and success only with everything appended')
    fns = [fn for fn in sorted(ir.all(), key=lambda f: (f.file, f.line)) if ir.cls_of(fn.key) == PA and not fn.d.get('ctor') and not fn.d.get('implicit') and not fn.is_lambda]
    obl = 0
    keys = set()
    done = 0
    for fn in fns:
        q = irm.base_q(fn.bq).rsplit('::', 1)[-1]
        if q in ('operator=', '~PacketAssembler', 'PacketAssembler'):
            continue
        for variant in (False, True):
            if q == 'commitChunk' and not variant:
                continue        # shown of every caller by R3
            best = None
            t0 = time.time()
            for maxst, exits, effort in c01.ATTEMPTS:
                z = Pack(ctx, F, variant)
                z.immut()
                z.MAXST, z.EXITS = maxst, exits
                Z.EFFORT[:] = list(effort)
                z.check(fn)
                v = {k: x for k, x in z.viols.items() if k[0] == fn.key}
                if best is None or len(v) < len(best[0]):
                    best = (v, z.nobl, set(z.oblkeys))
                if not v or time.time() - t0 > 60:
                    break
            for k, (detail, chain, st) in sorted(best[0].items(), key=lambda kv: kv[0][1:]):
                ctx.viol('R1', ir.fn(k[1]), k[2], '%s: %s (%s)' % (irm.base_q(fn.bq), k[3], detail[:160]), chain[::-1], detail=k[3])
            obl += best[1]
            keys |= best[2]
            done += 1
    ctx.count('obligations_shown', obl)
    ctx.need('builder_methods', done, 20)
    ctx.need('builder_obligations', len(keys), 20)


NONE, OPEN, FAILED, CUT, DANG = range(5)
WORD = ('no chunk open', 'a chunk open', 'a chunk of which a part did not fit', 'a chunk cut short', 'an abandoned chunk')


def part2(ctx, F):
    ir = ctx.ir
    PLAIN = field(ctx, 'RTMFP::m_plaintextBuf')
    RANGES = const(ctx, 'CHUNK_ACK_RANGES')
    VLU = 10
    PT = re.compile(r'PacketAssembler [*&]$')
    seen = {k: set() for k in ('init', 'commit', 'use', 'push', 'roll', 'restore')}

    # the size of the shared plaintext buffer, where it is allocated
    plain = None
    for fn in ir.all():
        for b in fn.blocks:
            made = {}
            for o in b.ops:
                if o.k == 'call' and irm.base_q(o.info['q']) in ('malloc', 'std::malloc') and o.info['args'][0][0] == 'c':
                    made[o.dst] = o.info['args'][0][1]
                elif o.k == 'store' and o.a[0] == 'fld' and o.a[2] == PLAIN and o.b[0] == 't' and o.b[1] in made:
                    plain = min(plain or made[o.b[1]], made[o.b[1]])
    if plain is None:
        raise AnalysisError('C02: allocation of the shared plaintext buffer not found')

    # the margins crypto keys ask for
    margins = set()

    class Margin(Watch):
        def merge_key(self, I, st):
            return frozenset(st.mem.items())

        def on_call(self, I, st, op, info, args, obj, fr):
            if base_q(info['q']) == 'rtmfp::VLU::encode':
                return [(st, I.fresh(st, 'enum', op, fr, (1, VLU)))]
            return Watch.on_call(self, I, st, op, info, args, obj, fr)

        def on_exit(self, I, st, rv, fr):
            if fr.up is None:
                margins.add(int(st.rng(rv)[1]) if st.rng(rv)[1] < psa.INF else None)
    ms = [k for k in ctx.prog.funcs if irm.base_q(ctx.prog.funcs[k]['q']).endswith('::getEncryptSrcFrontMargin') and ir.fn(k) is not None]
    for k in sorted(ms):
        run_root(ctx, 'R2', Margin, k)
    ctx.need('front_margins', len(ms), 1)
    margin = None if None in margins or not margins else max(margins)

    bound = Bound(ctx)
    S0 = PA + '::'

    class User(Watch):
        tracked = frozenset()
        skip = tuple(x for x in Watch.skip if 'PacketAssembler' not in x) + ('List::', 'SumList::')
        barrier = frozenset()
        root = None
        leaves = None

        def events(self):
            return Watch.events(self) | {S0 + n for n in ('init', 'startChunk', 'push', 'pushField', 'pushVLU', 'commitChunk', 'rollbackChunk', 'toVector')}

        # -- state of a packet
        def get(self, st, o):
            r = [m for m in self.marks(st, 'pk') if m[1] == o]
            return r[0] if r else None

        def put(self, st, o, s, kind=None, n=None, room=None):
            m = self.get(st, o)
            old = m[2] if m else (C0, ('c', -1), ('c', 0), ('c', 0))
            self.drop(st, lambda m: m[0] == 'pk' and m[1] == o)
            self.mark(st, ('pk', o, (('c', s), ('c', kind if kind is not None else old[1][1]), ('c', min(n if n is not None else old[2][1], 3)),
                                     ('c', max(0, room if room is not None else old[3][1]))), C0))

        def s(self, st, o):
            m = self.get(st, o)
            return m[2][0][1] if m else NONE

        def obj(self, obj):
            return obj

        def inline(self, I, key, info):
            q = I.ir.bq_of(key)
            if q.startswith(S0):
                return False
            fn = I.ir.fn(key)
            if fn is not None and any(PT.search(p['t']) for p in fn.params) and key not in self.barrier and key not in self.readers:
                return True
            return Watch.inline(self, I, key, info)
        readers = frozenset()

        def on_enter(self, I, st, fr):
            if fr.up is None:
                for i, p in enumerate(fr.fn.params):
                    if p['t'] == 'bool' and any(PT.search(x['t']) for x in fr.fn.params):
                        self.mark(st, ('keep', ('s', 'bool', i), (), C1))
                    if PT.search(p['t']):
                        self.put(st, ('s', 'arg', i), NONE)

        def on_op(self, I, st, op, fr):
            if op.k == 'dtor' or op.k == 'decl':
                return None

        def on_load(self, I, st, p, op, fr):
            if p[0] == 'F' and p[2] == PLAIN:
                v = I.fresh(st, 'ld', op, fr)
                self.mark(st, ('plain', C0, (), v))
                return v
            if p[0] == 'F' and p[2] == F['cursor'] and irm.base_q(I.ir.cls_of(fr.fn.key) or '') != PA:
                v = I.fresh(st, 'ld', op, fr)
                o = self.ofplace(p[1])
                if self.s(st, o) in (NONE, DANG):
                    self.mark(st, ('pos', o, (), v))
                return v

        def ofplace(self, p):
            return p

        def on_store(self, I, st, p, v, op, fr):
            if p[0] == 'F' and p[2] == F['cursor'] and I.ir.cls_of(fr.fn.key) != PA:
                self.nevents += 1
                seen['restore'].add((fr.fn.key, op.l))
                o = self.ofplace(p[1])
                if not any(m[0] == 'pos' and m[1] == o and m[3] == v for m in st.auto or ()):
                    I.fail(fr, op.l, 'the position of a packet is set to something else than a position it had while no chunk was open')
                if self.s(st, o) != NONE:
                    self.put(st, o, DANG)

        def on_call(self, I, st, op, info, args, obj, fr):
            q = base_q(info['q'])
            if q.endswith('::getEncryptSrcFrontMargin'):
                I.unknown_call(st, I.ir.targets(info), args, obj, info, op, fr)
                return [(st, I.fresh(st, 'enum', op, fr, (0, margin if margin is not None else psa.INF)))]
            if q.startswith(S0):
                self.nevents += 1
                return self.builder(I, st, op, info, args, obj, fr, q[len(S0):])
            lams = [a for a in args if a[0] == 'lam']
            if len(lams) == 1 and I.lam_relevant(lams[0]) and I.calls_at_once(info):
                # run no time, or once more after any number of times
                fn = I.ir.fn(lams[0][1])
                I.ran_lams.add(lams[0][1])
                outs = I.call_fn(st.copy(), lams[0][1], None, [('s', 'larg', I.site(op, fr), j) for j in range(len(fn.params))], fr, op, caps=lams[0][2])
                return [(st, I.retsym(st, op, fr, info))] + [(x, I.retsym(x, op, fr, info)) for x, v in outs or ()]
            ts = I.ir.targets(info)
            for k in ts:
                fn = I.ir.fn(k)
                if fn is None:
                    continue
                for i, p in enumerate(fn.params):
                    if PT.search(p['t']) and (k in self.barrier or k in self.readers):
                        self.nevents += 1
                        o = args[i]
                        s = self.s(st, o)
                        seen['use'].add((fr.fn.key, op.l))
                        if k in self.readers and s not in (NONE,):
                            I.fail(fr, op.l, 'the bytes of a packet are used with %s in it' % WORD[s])
                        if k in self.barrier:
                            if s not in (NONE, DANG):
                                I.fail(fr, op.l, 'another chunk is begun with %s in the packet' % WORD[s])
                            self.put(st, o, NONE, room=0)
                        I.unknown_call(st, ts, args, obj, info, op, fr)
                        rs = I.retsym(st, op, fr, info)
                        if info.get('t') == 'bool':
                            return [(st.copy(), C1), (st, C0)]
                        return [(st, rs)]
            return Watch.on_call(self, I, st, op, info, args, obj, fr)

        def builder(self, I, st, op, info, args, obj, fr, name):
            o = obj if obj is not None else C0
            m = self.get(st, o)
            s = self.s(st, o)
            kind, n, room = (m[2][1][1], m[2][2][1], m[2][3][1]) if m else (-1, 0, 0)
            at = (fr.fn.key, op.l)
            if name == 'init':
                seen['init'].add(at)
                size = None
                a = args[0]
                if any(x[0] == 'plain' and x[3] == a for x in st.auto or ()):
                    size = plain
                elif a[0] == 'addr':
                    size = arrsize(I, op.info['args'][0], fr)
                ln = st.rng(args[2])
                mg = st.rng(args[1])
                extra = 5 if len(args) > 3 else 0
                if size is None:
                    I.fail(fr, op.l, 'a packet is built in a buffer whose size is not known')
                elif ln[1] > size:
                    I.fail(fr, op.l, 'a packet is built in a buffer of %d bytes but told that there are %s' % (size, ln[1]))
                elif mg[1] + extra > ln[0]:
                    I.fail(fr, op.l, 'a packet is begun behind the end of its buffer (margin up to %s of %s bytes)' % (mg[1], ln[0]))
                self.drop(st, lambda m: m[0] == 'pos' and m[1] == o)
                self.put(st, o, NONE, room=int(ln[0] - mg[1] - extra) if mg[1] < psa.INF and size is not None else 0)
                return [(st, C0)]
            if name == 'startChunk':
                seen['push'].add(at)
                if s in (OPEN, FAILED, CUT):
                    I.fail(fr, op.l, 'a chunk is begun with %s in the packet' % WORD[s])
                t = st.copy()
                k = args[0][1] if args[0][0] == 'c' else -1
                self.put(t, o, OPEN, kind=k, n=0, room=room - 3)
                if room >= 3:
                    return [(t, C1)]
                self.put(st, o, NONE)
                return [(t, C1), (st, C0)]
            if name in ('push', 'pushField', 'pushVLU'):
                seen['push'].add(at)
                need = self.need_of(I, st, op, info, args, fr, name)
                t = st.copy()
                self.put(t, o, s, n=n + 1, room=room - need if need is not None else 0)
                if need is not None and room >= need:
                    return [(t, C1)]
                # for the protocol allows what comes behind the fixed part of these to be cut short
                if s == OPEN:
                    self.put(st, o, CUT if kind == RANGES and n >= 3 else FAILED)
                return [(t, C1), (st, C0)]
            if name == 'commitChunk':
                seen['commit'].add(at)
                if s == CUT:
                    if not any(st.decide(psa.mknz(m[1])) is True for m in self.marks(st, 'keep')):
                        I.fail(fr, op.l, 'a list of acknowledged ranges cut short is committed although the caller did not allow it')
                elif s != OPEN:
                    I.fail(fr, op.l, 'a chunk is committed with %s in the packet' % WORD[s])
                self.put(st, o, NONE)
                return [(st, C0)]
            if name == 'rollbackChunk':
                seen['roll'].add(at)
                if s == DANG:
                    I.fail(fr, op.l, 'a chunk is withdrawn after the position was already reset')
                self.put(st, o, NONE)
                return [(st, C0)]
            if name == 'toVector':
                seen['use'].add(at)
                if s != NONE:
                    I.fail(fr, op.l, 'the bytes of a packet are used with %s in it' % WORD[s])
                return None
            return None

        def need_of(self, I, st, op, info, args, fr, name):
            """the most bytes this append can take, if known"""
            if name == 'pushVLU':
                return VLU
            if name == 'push' and len(args) == 1 and 'vector' not in ((info.get('pts') or [''])[0] or '') and args[0][0] != 'addr':
                t = ctx.prog.funcs.get(info.get('key'), {}).get('params') or [{'t': ''}]
                if irm.is_scalar(noref(t[0]['t'])):
                    return 1
            if len(args) == 2:
                r = st.rng(args[1])
                if r[1] < (1 << 31):
                    return int(r[1]) + (VLU if name == 'pushField' else 0)
                return None
            b = bound.operand(fr.fn, op.info['args'][0])
            if b is not None:
                return b + (VLU if name == 'pushField' else 0)
            return None

        def on_exit(self, I, st, rv, fr):
            if fr.up is None:
                for i, p in enumerate(fr.fn.params):
                    if PT.search(p['t']):
                        s = self.s(st, ('s', 'arg', i))
                        if s not in (NONE, DANG):
                            self.bad.append((fr, WORD[s]))
    ctx.rule('R2: a builder is initialised with no more bytes than its buffer has and a margin inside it')
    ctx.rule('R3: a chunk is committed only if it was begun and every append since then succeeded (the range list of an acknowledgement may be cut short where the caller allows it), and is otherwise withdrawn')
    ctx.rule('R4: the bytes of a packet are taken, encrypted or extended by another part of the library only while no chunk is open; from outside the builder its position is only ever set back to one it had then')

    isb = lambda o: o.k == 'call' and base_q(o.info['q']).startswith(S0) and not o.info['q'].endswith('::PacketAssembler')
    users = {k for k in psa.functions_with(ir, lambda fn, o: isb(o)) if ir.cls_of(k) != PA and not ir.fn(k).is_lambda}
    lams = {k for k in psa.functions_with(ir, lambda fn, o: isb(o)) if ir.fn(k).is_lambda}
    withp = {fn.key for fn in ir.all() if any(PT.search(p['t']) for p in fn.params) and ir.cls_of(fn.key) != PA}
    # what holds a whole number of chunks of its own: begins chunks and leaves none open
    starts = set()
    for k in withp:
        if any(isb(o) and o.info['q'].endswith('::startChunk') for r in reach(ctx, [k]) if r in withp or r in lams for b in ir.fn(r).blocks for o in b.ops):
            starts.add(k)
    building = {k for k in withp if any(isb(o) for r in reach(ctx, [k]) if r in withp or r in lams for b in ir.fn(r).blocks for o in b.ops)}
    readers = frozenset(withp - building)
    barrier = frozenset(starts)
    left = []
    while True:
        def make():
            u = User()
            u.barrier = barrier
            u.readers = readers
            u.bad = []
            return u
        drop = set()
        for k in sorted(barrier):
            u = make()
            I = psa.Interp(ir, u)
            I.callers = ctx.callers
            I.entry(ir.fn(k))
            if u.bad:
                if os.environ.get('PSA_DEBUG'):
                    print('NOT WHOLE', ir.fn(k).bq, [(w, f.fn.bq) for f, w in u.bad], [x[:3] for x in I.failures])
                if any(k in ir.targets(o.info) for fn in ir.all() if fn.key != k for b in fn.blocks for o in b.ops if o.k == 'call'):
                    drop.add(k)
                    left += [(f.fn, w) for f, w in u.bad]
        if not drop:
            break
        barrier = frozenset(barrier - drop)
    # a function dropped for another reason than what it leaves open is reported by its callers as well
    roots = sorted((users | {fn.key for fn in ir.all() if any(o.k == 'call' and set(ir.targets(o.info)) & withp for b in fn.blocks for o in b.ops)}) - (withp - barrier) - lams)
    roots = [k for k in roots if ir.cls_of(k) != PA and not ir.fn(k).is_lambda]
    for k in roots:
        u = make()
        try:
            I = run_root(ctx, 'R3', lambda: u, k)
        except psa.Limit:
            if not left:
                raise
            for f, w in left:
                ctx.viol('R3', f, f.line, 'a packet is handed back with %s in it' % w, [])
            continue
        for fr, w in u.bad:
            ctx.viol('R3', fr.fn, fr.fn.line, 'a packet is handed back with %s in it' % w, [])
    ctx.notes.append('whole chunks: ' + ', '.join(sorted(ir.fn(k).bq for k in barrier)) + '; followed into their callers: ' + ', '.join(sorted(ir.fn(k).bq for k in building - barrier)))
    ctx.rule('R5: no other part of the library changes what the builder keeps')
    for fn, o in sites(ctx, lambda fn, o: o.k == 'store' and o.a[0] == 'fld' and o.a[2] in set(F.values()) - {F['cursor']} and ir.cls_of(fn.key) != PA):
        ctx.viol('R5', fn, o.l, 'the limits of a packet are changed from outside the builder')
    ctx.need('initialisations', len(seen['init']), 6)
    ctx.need('commits', len(seen['commit']), 6)
    ctx.need('appends', len(seen['push']), 20)
    ctx.need('uses', len(seen['use']), 6)


def arrsize(I, o, fr):
    if o[0] != 'addr':
        return None
    p = o[1]
    t = fr.fn.vartypes.get(p[1]) if p[0] == 'var' else (I.ir.fields.get(p[2]) or {}).get('t') if p[0] == 'fld' else None
    m = re.match(r'^unsigned char ?\[(\d+)\]$', t or '')
    return int(m.group(1)) if m else None


class Bound:
    """the most bytes a byte vector made by a function of the library can have, where straight-line code makes it"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.ir = ctx.ir
        self.memo = {}

    def operand(self, fn, o):
        if o[0] != 't':
            return None
        for b in fn.blocks:
            for p in b.ops:
                if p.k == 'call' and p.dst == o[1]:
                    ts = self.ir.targets(p.info)
                    if len(ts) == 1:
                        return self.result(ts[0])
        return None

    def result(self, key):
        if key not in self.memo:
            self.memo[key] = None
            self.memo[key] = self._result(key)
        return self.memo[key]

    def _result(self, key):
        fn = self.ir.fn(key)
        if fn is None or fn.d.get('ret') != 'std::vector<unsigned char>':
            return None
        # no loops
        from rules.c04 import sccs
        g = {b.id: set(succs(b)) for b in fn.blocks if b.id in fn.reach}
        if any(len(c) > 1 or c[0] in g.get(c[0], ()) for c in map(list, sccs(g))):
            return None
        ops = [o for b in fn.blocks if b.id in fn.reach for o in b.ops]
        rets = {b.term[1] for b in fn.blocks if b.id in fn.reach and b.term and b.term[0] == 'ret'}
        if len(rets) != 1:
            return None
        r = rets.pop()
        by = {o.dst: o for o in ops if o.dst is not None}
        if not r or r[0] != 't' or r[1] not in by or by[r[1]].k != 'ld':
            return None
        v = by[r[1]].a
        n = 0
        for o in ops:
            if o.k == 'store' and o.a == v:
                return None
            if o.k == 'ctor' and o.a == v and o.info['args']:
                return None
            if o.k not in ('call', 'callv', 'ctor', 'ctorval', 'new'):
                continue
            name = o.info['q'].rsplit('::', 1)[-1] if o.k == 'call' else ''
            if o.k == 'call' and o.info.get('obj') == v:
                a = o.info['args']
                if o.info.get('const') or name in ('begin', 'end', 'data', 'size', 'empty', 'reserve', 'clear'):
                    continue
                if name == 'push_back' or name == 'insert' and len(a) == 2 and irm.is_scalar(noref((o.info.get('pts') or ['', 'unsigned char'])[-1])):
                    n += 1
                elif name == 'insert' and len(a) == 3 and a[2][0] == 't' and by[a[2][1]].k == 'bin' and by[a[2][1]].x == '+' and by[a[2][1]].a == a[1] and by[a[2][1]].b[0] == 'c':
                    n += by[a[2][1]].b[1]
                else:
                    return None
            elif ('addr', v) in o.info['args']:
                if o.k == 'call' and base_q(o.info['q']) == 'rtmfp::VLU::append':
                    n += 10
                else:
                    d = self.ctx.prog.funcs.get(o.info.get('key'))
                    i = o.info['args'].index(('addr', v))
                    if d is None or not d['params'][i]['t'].startswith('const '):
                        return None
        return n


def succs(b):
    t = b.term
    return [x for x in t[1:] if isinstance(x, int)] if t else []
