"""Nothing is taken from a decode step that failed."""
import re
import psa
from lib import *

EXPLANATION = ('Decode steps are found by their type: functions that answer a number of bytes, a truth value or an object, take encoded bytes, and write through an output parameter (or fill the object they belong to). '
               'For every call of one, on every path: what it wrote is read only where its answer is known to be success, its answer is used '
               'as an advance only where known not to be zero, an object it answers is used only where known to be there, and a step that decodes by further steps does not answer success after one of them failed. '
               'Exempt: lists of AMF arguments, which keep what was decoded before a failure, and an output parameter handed on by a function that is not itself a decode step (the negotiated HMAC length, which keeps its illegal default).')
NS = 'com::zenomt::'
SCALAR = r'(unsigned (long|int|char|short)|const unsigned char \*|bool|int|long|long double|double|[\w:]*ReceiveOrder|[\w:]*Address|std::basic_string<char>|std::string|std::vector<unsigned char>)'


def run(ctx):
    ir = ctx.ir

    def is_src(t):
        return re.fullmatch(r'const (unsigned char|char|void|uint8_t) \*( ?[*&])?( const)?', t) is not None or t.startswith('const std::vector<unsigned char>')

    def is_out(t):
        return re.fullmatch(SCALAR + r' ?[*&]', t) is not None and not t.startswith('const unsigned char **')or re.fullmatch(r'const unsigned char \* ?[*&]', t) is not None or t == 'const unsigned char **'

    OUT, SELF, OBJ = {}, set(), set()
    for k, d in ctx.prog.funcs.items():
        if d.get('lambda') or not d['q'].startswith(NS):
            continue
        ts = [p['t'] for p in d.get('params') or ()]
        r = d.get('ret') or ''
        srcs = [i for i, t in enumerate(ts) if is_src(t)]
        if not srcs:
            continue
        n = base_q(d['q'])
        if not any('unsigned char' in ts[i] for i in srcs) and not re.search(r'decode|parse', n):
            continue    # text is encoded, not decoded
        if 'shared_ptr<' in r and re.search(r'::decode\w*$', n):
            OBJ.add(k)
        if r not in ('unsigned long', 'bool') or n.endswith('::onReceivePacket') or n.endswith('crypt'):
            if n.endswith('::decrypt'):
                OUT[k] = (1, 2)
            continue
        outs = tuple(i for i, t in enumerate(ts) if is_out(t) and not (i == srcs[0]))
        if outs:
            OUT[k] = outs
        if not d.get('const') and not d.get('static') and d.get('cls') and re.search(r'(::setFromEncoding|Cert::init|::parse|::initiatorCombine\w*|::generateResponder\w*|::computeKeys\w*)$', n):
            SELF.add(k)
    STEPS = set(OUT) | SELF | OBJ
    Q = {}
    for k in STEPS:
        Q.setdefault(base_q(ctx.prog.funcs[k]['q']), set()).add(k)
    ctx.need('decode_steps', len(STEPS), 20)
    ctx.count('with_outputs', len(OUT))

    def step_of(info):
        ts = [t for t in ir.targets(info) if t in STEPS]
        if not ts and info.get('key') in STEPS:
            ts = [info['key']]
        return ts[0] if ts else None

    def has_step(fn, o):
        return o.k == 'call' and step_of(o.info) is not None

    KEPT = set()        # members that keep the answer of a step
    for fn, o in sites(ctx, has_step):
        vals = {('t', o.dst)}
        for p in (p for b in fn.blocks for p in b.ops):
            if p.k in ('un', 'cast', 'bin') and (p.a in vals or p.b in vals):
                vals.add(('t', p.dst))
            if p.k == 'store' and p.a[0] == 'fld' and p.b in vals:
                KEPT.add(p.a[2])

    seen = {k: set() for k in ('step', 'read', 'advance', 'object', 'inner')}

    class Decode(Watch):
        cap = 400
        tracked = frozenset(KEPT)
        followed = set()

        def inline(self, I, key, info):
            return key in I.force or key in self.followed

        def on_call(self, I, st, op, info, args, obj, fr):
            k = step_of(info)
            if k is None and info.get('t') == 'bool' and info.get('key') not in I.force and not info.get('virt') and fr.up is None and ir.fn(info.get('key') or '') is not None:
                # a test of an object that may not be there is followed
                vs = [st.mem.get(a[1]) if a[0] == 'addr' else a for a in args]
                if any(m[1] in vs for m in self.marks(st, 'obj')):
                    self.followed.add(info['key'])
                    return None
            if k is None or k in I.force:
                self.object_used(I, st, info, args, None if k in SELF else obj, fr, op)
                return None
            self.advanced(I, st, fr, op.l)
            seen['step'].add((fr.fn.key, op.l))
            self.nevents += 1
            self.object_used(I, st, info, [a for a in args], None if k in SELF else obj, fr, op)
            self.drop(st, lambda m: m[0] in ('dec', 'step', 'obj') and st.decide(psa.mknz(m[3])) is True or m[0] == 'self' and (m[1] == obj or true(st, m[3])))
            given = [i for i in OUT.get(k, ()) if i < len(args) and args[i][0] == 'addr']
            I.unknown_call(st, ir.targets(info), args, obj, info, op, fr)
            rv = I.retsym(st, op, fr, info)
            if info.get('t') == 'unsigned long':
                st.restrict(rv, 0, psa.INF, frozenset())
            if k in OBJ:
                self.mark(st, ('obj', rv, (), rv))
            for i in given:
                if re.search(r'Address|std::', ctx.prog.funcs[k]['params'][i]['t']):
                    self.mark(st, ('self', args[i], (), rv))    # filled through its own members
                    continue
                v = I.fresh(st, 'out%d' % i, op, fr)
                st.mem[args[i][1]] = v
                self.mark(st, ('dec', v, (), rv))
            mine = any(i < len(args) and args[i][0] != 'addr' and args[i] != C0 for i in OUT.get(k, ()))
            if k in SELF and obj is not None and obj[0] == 'addr' and obj[1][0] in ('L', 'F'):
                self.mark(st, ('self', obj, (), rv))
            self.mark(st, ('step', rv, (C1 if mine or k in SELF else C0, ('c', fr.fid)), rv))
            return [(st, rv)]

        def object_used(self, I, st, info, args, obj, fr, op):
            for m in self.marks(st, 'self'):
                if (obj == m[1] or m[1] in args) and not true(st, m[3]) and '::~' not in info['q'] and not info['q'].endswith('::operator='):
                    I.fail(fr, op.l, 'an object is used that a decode step may have failed to fill')
            for m in self.marks(st, 'obj'):
                if m[1] in args and not true(st, m[3]) and ('::' not in info['q'] or ir.cls_of(info.get('key') or '') is None or info['q'].startswith('std::')) and not info['q'].endswith(('shared_ptr', 'operator=', 'operator==', 'operator!=', 'operator bool')):
                    I.fail(fr, op.l, 'an object that a decode step may have failed to make is handed on')
                if obj is not None and obj == m[1]:
                    seen['object'].add((fr.fn.key, op.l))
                    if not true(st, m[3]):
                        I.fail(fr, op.l, 'an object that a decode step may have failed to make is used')

        def on_load(self, I, st, place, op, fr):
            v = st.mem.get(place)
            if v is None:
                return None
            for m in self.marks(st, 'dec'):
                if m[1] == v:
                    seen['read'].add((fr.fn.key, op.l))
                    if not true(st, m[3]):
                        I.fail(fr, op.l, 'a value is taken from a decode step that may have failed')
            return None

        def on_callv(self, I, st, op, fv, args, fr):
            self.object_used(I, st, {'q': ''}, args, None, fr, op)
            return None

        def on_op(self, I, st, op, fr):
            if op.k in ('new', 'ctor', 'ctorval', 'lambda') and self.marks(st, 'obj') and not (op.info or {}).get('copy'):
                vs = [c[1] for c in op.info['caps'] if len(c) > 2] if op.k == 'lambda' else (op.info or {}).get('args') or ()
                vs = [I.val(st, a, fr) for a in vs]
                for m in self.marks(st, 'obj'):
                    if m[1] in vs and not true(st, m[3]) and not re.search(r'(shared_ptr|Retainer)$', (op.info or {}).get('q') or ''):
                        I.fail(fr, op.l, 'an object that a decode step may have failed to make is handed on')
            if op.k != 'bin' or op.x not in ('+', '-'):
                return
            for x in (op.a, op.b):
                v = I.val(st, x, fr)
                for m in self.marks(st, 'step'):
                    if m[1] == v:
                        seen['advance'].add((fr.fn.key, op.l))
                        if not true(st, m[3]):
                            self.mark(st, ('adv', v, (), v))

        def advanced(self, I, st, fr, line, rv=None):
            # advancing by nothing does no harm when it is noticed before anything else is done
            for m in self.marks(st, 'adv'):
                if st.decide(psa.mknz(m[1])) is None and (rv is None or m[1] not in psa.syms(rv, set())):
                    I.fail(fr, line, 'the advance of a decode step that may have failed is used')
            self.drop(st, lambda m: m[0] == 'adv' and true(st, m[1]))

        def on_exit(self, I, st, rv, fr):
            if fr.up is None:
                self.advanced(I, st, fr, fr.fn.line, rv)
            if fr.fn.key not in STEPS or rv is None or fr.up is not None:
                return
            seen['inner'].add(fr.fn.key)
            for m in self.marks(st, 'step'):
                if m[2][1] != ('c', fr.fid) or true(st, m[3]) or rv == m[1] or rv == psa.mknz(m[1]):
                    continue
                if st.decide(psa.mknz(rv)) is not False:
                    ctx.viol('R1', fr.fn, fr.fn.line, 'a decode step answers success although a step within it may have failed')

    ctx.rule('R1: outputs are read, answers used as an advance and answered objects used only where the step is known to have succeeded; a step does not answer success after a step within it failed')
    roots = psa.functions_with(ir, has_step)
    ctx.discharge('R1', Decode, sorted(roots), max_up=2)

    ctx.rule('R2: no decode step has its answer left unexamined, unless it writes only through a parameter handed on by a function that is not a decode step')

    def uses(x, out):
        if isinstance(x, tuple):
            if len(x) == 2 and x[0] == 't':
                out.add(x[1])
            for y in x:
                uses(y, out)
        elif isinstance(x, list):
            for y in x:
                uses(y, out)
    for fn, o in sites(ctx, has_step):
        out = set()
        for b in fn.blocks:
            uses(b.term, out)
            for p in b.ops:
                uses([p.a, p.b], out)
                i = p.info or {}
                uses([i.get('args'), i.get('obj'), i.get('caps') and [c[1] for c in i['caps'] if len(c) > 1]], out)
        k = step_of(o.info)
        if o.dst not in out:
            given = [o.info['args'][i] for i in OUT.get(k, ()) if i < len(o.info['args'])]
            if k not in SELF and fn.key not in STEPS and not any(a[0] == 'addr' for a in given):
                continue
            ctx.viol('R2', fn, o.l, 'whether a decode step failed is not looked at')
    for k, least in (('step', 40), ('read', 40), ('advance', 15), ('object', 2), ('inner', 8)):
        ctx.need('seen_' + k, len(seen[k]), least)
