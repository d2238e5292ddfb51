"""Tin-Can requests are answered exactly once."""
import re
import psa
from lib import *

EXPLANATION = ('Typestate of the handlers kept for requests under way, on every path: a handler is kept only when the command that carries its number was written, the number is the next one and has been used up, and the '
               'connection is open; it is called only after it was taken out of the table, or while the connection, marked closed before, visits the whole table once before emptying it; nothing is dropped from the table uncalled. '
               'Also: connecting is the first request; an accepted stream number is a whole number not in use; a refused connection or stream closes the connection; and every transport closes through the common step.')
TC = 'rtmp::TCConnection'
A = [('s', 'arg', i) for i in range(6)]
WALK = r'std::(?:map|unordered_map|vector)<.*std::function<void \(bool, std::shared_ptr<[\w:]*AMF0>\)>'
ITER = '_Rb_tree_iterator<std::pair<const double, std::function'
SECOND = re.compile(r'pair<const double, std::function<void \(bool.*>::second$')


def run(ctx):
    ir = ctx.ir
    TRANS, STREAMS = field(ctx, 'TCConnection::m_transactions'), field(ctx, 'TCConnection::m_netStreams')
    NEXT, OPEN, TCOPEN = field(ctx, 'TCConnection::m_nextTID'), field(ctx, 'TCConnection::m_userOpen'), field(ctx, 'TCConnection::m_tcOpen')
    seen = {k: set() for k in ('keep', 'take', 'call', 'close', 'connect', 'stream', 'refuse', 'override')}

    def on_field(obj, f):
        return obj is not None and obj[0] == 'addr' and obj[1][0] == 'F' and obj[1][2] == f

    def uses(f):
        def pred(fn, o):
            if o.k == 'call' and (o.info.get('obj') or ('',))[0] == 'fld' and o.info['obj'][2] == f:
                return True
            if o.k == 'call' and any(isinstance(a, tuple) and a[0] == 'addr' and a[1][0] == 'fld' and a[1][2] == f for a in o.info['args']):
                return True
            return o.k in ('ld', 'range', 'store') and isinstance(o.a, tuple) and o.a[0] == 'fld' and o.a[2] == f
        return psa.functions_with(ir, pred)

    users = {k for k in uses(TRANS) if not ir.fn(k).d.get('ctor') and '::~' not in ir.fn(k).bq}
    closers = {k for k in calls_to(ctx, TC + '::basicClose')}
    ctx.need('users_of_the_table', len(users), 2)

    def number(v):
        if v[0] == 'c':
            return v[1]
        if v[:2] == ('k', 'flt'):
            try:
                return float(v[2])
            except (TypeError, ValueError):
                return None
        return None

    def given(st, fr, v):
        # what the function analysed was given as its own argument
        ps = set()
        while fr is not None:
            if fr.up is None or fr.fn.d.get('lambda'):
                ps |= {p['id'] for p in fr.fn.params}
            fr = fr.up
        return v[:2] in (('s', 'arg'), ('s', 'larg')) or any(x == v for p, x in st.mem.items() if p[0] == 'L' and p[2] in ps)

    class Req(Watch):
        tracked = frozenset([TRANS, NEXT, OPEN, STREAMS, TCOPEN])
        cap = 400

        def inline(self, I, key, info):
            return key in I.force or ir.bq_of(key).endswith('::validateCommandName') or ir.cls_of(key) == TC and key in small

        def cur(self, I, st, a):
            if a[0] == 'addr':
                return st.mem.get(a[1], a)
            return a

        def on_call(self, I, st, op, info, args, obj, fr):
            q, n = base_q(info['q']), info['q'].rsplit('::', 1)[-1]
            if any(t in I.force for t in ir.targets(info)):
                return None
            if q == 'std::make_pair' and args:
                return [(st, ('s', 'pair', self.cur(I, st, args[0])))]
            if n == 'swap' and obj is not None and args and (on_field(obj, TRANS) or on_field(args[0], TRANS)):
                self.mark(st, ('copied', C0, (), C1))
                self.mark(st, ('empty', C0, (), C1))
                return [(st, C0)]
            if q == TC + '::basicCommand' and len(args) > 2:
                self.nevents += 1
                I.unknown_call(st, ir.targets(info), args, obj, info, op, fr)
                rv = I.fresh(st, 'bool', op, fr, (0, 1))
                self.drop(st, lambda m: m[0] == 'sent')
                self.mark(st, ('sent', self.cur(I, st, args[1]), (), rv))
                return [(st, rv)]
            if q.endswith('::basicClose'):
                if info.get('virt') or q == TC + '::basicClose':
                    self.nevents += 1
                    self.mark(st, ('close', C0, (), C1))
                    I.unknown_call(st, ir.targets(info), args, obj, info, op, fr)
                    return [(st, C0)]
            if n == 'setStreamID':
                self.mark(st, ('told', C0, (), C1))
            if on_field(obj, TRANS):
                if n in ('operator[]', 'emplace', 'insert', 'at', 'insert_or_assign') and args:
                    if n != 'operator[]' and n != 'at':
                        self.kept(I, st, self.cur(I, st, args[0]), fr, op)
                        return [(st, C0)]
                    rv = I.fresh(st, 'slot', op, fr)
                    self.mark(st, ('slot', rv, (self.cur(I, st, args[0]),), rv))
                    return [(st, rv)]
                if n == 'find':
                    rv = I.fresh(st, 'it', op, fr)
                    self.mark(st, ('it', rv, (self.cur(I, st, args[0]),), rv))
                    return [(st, rv)]
                if n == 'erase' and args:
                    a = self.cur(I, st, args[0])
                    ts = [m for m in self.marks(st, 'taken') if m[1] == a or any(x[1] == m[1] and x[2][0] == a for x in self.marks(st, 'it'))]
                    if not ts and not self.marks(st, 'closing'):
                        I.fail(fr, op.l, 'the handler of a request is dropped without having been taken')
                    for m in ts:
                        self.drop(st, lambda x: x == m)
                        self.mark(st, ('owed', m[1], (), m[3]))
                    return [(st, C0)]
                if n in ('clear', 'operator='):
                    if n == 'operator=' or not (self.marks(st, 'walked') or self.marks(st, 'copied')):
                        I.fail(fr, op.l, 'requests under way are dropped without their handlers being called')
                    self.mark(st, ('empty', C0, (), C1))
                    return [(st, C0)]
            if n in ('begin', 'cbegin') and re.match(WALK, info['q'].rsplit('::', 1)[0]):
                rv = I.fresh(st, 'it', op, fr)
                self.begin(I, st, fr, op, on_field(obj, TRANS))
                return [(st, rv)]
            if n in ('operator->', 'operator*') and obj is not None and ITER in info['q']:
                it = self.cur(I, st, obj)
                self.mark(st, ('visit', it, (), C1))
                return [(st, ('s', 'entry', it))]
            if n in ('operator++', 'operator--', 'next') and ITER in info['q']:
                if not self.marks(st, 'visit'):
                    I.fail(fr, op.l, 'the handler of a request under way is passed over')
                self.visited(I, st, fr, op.l)
                return None
            if n in ('operator!=', 'operator==') and 'Rb_tree_iteratorISt4pairIKdSt8function' in (info.get('key') or ''):
                rv = I.fresh(st, 'bool', op, fr, (0, 1))
                self.drop(st, lambda m: m[0] == 'cmp')
                self.mark(st, ('cmp', C0, (), rv if n == 'operator!=' else psa.mknot(rv)))
                return [(st, rv)]
            return None

        # ---- keeping
        def kept(self, I, st, key, fr, op):
            seen['keep'].add((fr.fn.key, op.l))
            key = key[2] if key[:2] == ('s', 'pair') else key
            self.mark(st, ('kept', key, (), C1))
            if not any(m[1] == key and true(st, m[3]) for m in self.marks(st, 'sent')):
                I.fail(fr, op.l, 'a handler is kept for a request whose command with that number may not have been written')
            if not any(m[1] == key for m in self.marks(st, 'used')):
                I.fail(fr, op.l, 'a handler is kept under a number that is not the next one, used up')

        def on_store(self, I, st, place, v, op, fr):
            for m in self.marks(st, 'slot'):
                if place == ('D', m[1]):
                    self.kept(I, st, m[2][0], fr, op)
            if place[0] == 'F' and place[2] == NEXT:
                old = st.mem.get(place)
                if old is not None and v[0] == 'op' and v[1] == '+' and old in v[2:] and 1 in (number(v[2]), number(v[3])):
                    self.mark(st, ('used', old, (), C1))
                else:
                    I.fail(fr, op.l, 'the number of the next request is set to something else than the following one')
            if place[0] == 'F' and place[2] == OPEN:
                if v == C0:
                    was = st.mem.get(place)
                    self.mark(st, ('closing', C0, (), I.fresh(st, 'bool', op, fr, (0, 1)) if was is None else was))
                else:
                    I.fail(fr, op.l, 'a closed connection is made open')
            if place[0] == 'F' and place[2] == TRANS:
                self.mark(st, ('empty', C0, (), C1))
            if op.k == 'store' and ((op.info or {}).get('init') or (op.info or {}).get('swap')) and place[0] == 'L' and isinstance(op.b, tuple) and v is not None:
                if any(m[1] == v for m in self.marks(st, 'whole')):
                    self.mark(st, ('copied', C0, (), C1))
            return None

        # ---- taking and calling
        def on_load(self, I, st, place, op, fr):
            if place[0] == 'F' and SECOND.search(place[2]):
                v = st.mem.get(place)
                if v is None:
                    v = I.fresh(st, 'handler', op, fr)
                    st.mem[place] = v
                e = place[1][1] if place[1][0] == 'D' else place[1]
                self.mark(st, ('taken', e[2] if e[:2] == ('s', 'entry') else e, (), v))
            if place[0] == 'F' and place[2] == TRANS:
                v = st.mem.get(place)
                if v is None:
                    v = st.mem[place] = I.fresh(st, 'table', op, fr)
                self.mark(st, ('whole', v, (), v))
            return None

        def begin(self, I, st, fr, op, table):
            if table or self.marks(st, 'copied'):
                self.mark(st, ('walked', C0, (), C1))
                if fr.up is None and not self.marks(st, 'closing'):
                    I.fail(fr, op.l, 'the handlers of the requests under way are visited although the connection is not yet marked closed')

        def visited(self, I, st, fr, line):
            for m in self.marks(st, 'visit'):
                ts = [x for x in self.marks(st, 'taken') if x[1] == m[1]]
                if not any(x[1] == m[1] for x in self.marks(st, 'called')) and (not ts or not all(false(st, x[3]) for x in ts)):
                    if self.marks(st, 'closing'):
                        ctx.viol('R1', fr.fn, line, 'the handler of a request under way is passed over')
                    else:
                        I.fail(fr, line, 'the handler of a request under way is passed over')
            self.drop(st, lambda m: m[0] in ('taken', 'called', 'visit'))

        def on_range(self, I, st, op, v, fr):
            rng = op.a[1] if isinstance(op.a, tuple) and op.a[0] == 'addr' else None
            if rng is None:
                return
            table = rng[0] == 'fld' and rng[2] == TRANS
            if not table and not any(m[1] == st.mem.get(I.place(st, rng, fr)) for m in self.marks(st, 'whole')):
                return
            if op.k == 'more':
                self.visited(I, st, fr, op.l)
                if not self.marks(st, 'walked'):
                    self.begin(I, st, fr, op, table)
                self.drop(st, lambda m: m[0] == 'cmp')
                self.mark(st, ('cmp', C0, (), v))
            elif op.k == 'next':
                self.mark(st, ('visit', v, (), C1))

        def on_callv(self, I, st, op, fv, args, fr):
            ms = [m for m in self.marks(st, 'taken') + self.marks(st, 'owed') if m[3] == fv]
            if not ms:
                return None
            seen['call'].add((fr.fn.key, op.l))
            self.nevents += 1
            for m in ms:
                if m[0] == 'taken' and not self.marks(st, 'closing'):
                    I.fail(fr, op.l, 'a handler is called while it is still in the table')
                if self.marks(st, 'closing') and args and args[0] != C0:
                    ctx.viol('R1', fr.fn, op.l, 'a request that was not answered is reported as a success')
                if not self.marks(st, 'closing') and args and not given(st, fr, args[0]):
                    I.fail(fr, op.l, 'a handler is told something else than what was answered')
                self.drop(st, lambda x: x == m)
                self.mark(st, ('called', m[1], (), m[3]))
            return None

        def on_exit(self, I, st, rv, fr):
            if fr.up is not None:
                return
            for m in self.marks(st, 'owed'):
                if not false(st, m[3]):
                    I.fail(fr, fr.fn.line, 'a handler is taken out of the table and not called')
            if any(not false(st, m[3]) for m in self.marks(st, 'closing')):
                if not all(true(st, m[3]) for m in self.marks(st, 'closing')):
                    ctx.viol('R1', fr.fn, fr.fn.line, 'the connection is marked closed without knowing that it was open (closing may run twice)')
                seen['close'].add(fr.fn.key)
                self.visited(I, st, fr, fr.fn.line)
                if not self.marks(st, 'walked') or not all(false(st, m[3]) for m in self.marks(st, 'cmp')):
                    ctx.viol('R1', fr.fn, fr.fn.line, 'a connection is closed without calling the handlers of the requests under way')
                if not self.marks(st, 'empty'):
                    ctx.viol('R1', fr.fn, fr.fn.line, 'a connection is closed and requests under way stay in the table')
            s = self.marks(st, 'sent')
            if fr.fn.bq == TC + '::basicTransact':
                k = bool(self.marks(st, 'kept'))
                if rv is not None and st.decide(psa.mknz(rv)) is not k:
                    ctx.viol('R1', fr.fn, fr.fn.line, 'a request is reported as made without its handler being kept, or the other way round')

    small = frozenset(k for k in stores_to(ctx, frozenset([NEXT])) if k not in users)
    ctx.rule('R1: handlers are kept only for written commands under the next number; called once, after having been taken out or while closing; never dropped')
    ctx.discharge('R1', Req, sorted(users), internal=frozenset())

    # ---- R2
    def literal(fn, x):
        for _ in range(6):
            if isinstance(x, tuple) and x[0] == 'str':
                return x[1]
            if isinstance(x, tuple) and x[0] in ('addr', 'tmp', 'deref'):
                x = x[1]
                continue
            if isinstance(x, tuple) and x[0] == 't':
                d = [o for b in fn.blocks for o in b.ops if o.dst == x[1]]
                if d and d[0].k in ('ctorval', 'ctor') and d[0].info.get('args'):
                    x = d[0].info['args'][0]
                    continue
            return None
        return None

    ctx.rule('R2: a request is made only while the connection is open; connecting only as the first request; a request by the application not as the first')

    class Make(Watch):
        tracked = frozenset([OPEN, NEXT])
        cap = 300

        def events(self):
            return {TC + '::basicTransact'}

        def inline(self, I, key, info):
            return key in I.force or ir.bq_of(key).endswith('::validateCommandName')

        def remember(self, v):
            return v[0] == 'op' and v[1] in ('==', '<')

        def on_call(self, I, st, op, info, args, obj, fr):
            if base_q(info['q']) != TC + '::basicTransact' or info.get('key') in I.force:
                return None
            self.nevents += 1
            seen['connect'].add((fr.fn.key, op.l))
            opens = [v for p, v in st.mem.items() if p[0] == 'F' and p[2] == OPEN]
            if not any(true(st, v) for v in opens):
                I.fail(fr, op.l, 'a request is made on a connection that may be closed (its handler would never be called)')
            nexts = [v for p, v in st.mem.items() if p[0] == 'F' and p[2] == NEXT]
            first = [t if e[1] == '==' else not t if number(e[2]) == 1 else None for e, t in self.compared(st) if (e[2] in nexts or e[3] in nexts) and 1 in (number(e[2]), number(e[3]))]
            lit = literal(fr.fn, op.info['args'][1])
            if lit == 'connect' and True not in first:
                I.fail(fr, op.l, 'connecting is not known to be the first request')
            if lit is None and False not in first:
                I.fail(fr, op.l, 'a request of the application may be made before connecting')
            I.unknown_call(st, ir.targets(info), args, obj, info, op, fr)
            return [(st, I.retsym(st, op, fr, info))]

    ctx.discharge('R2', Make, sorted(calls_to(ctx, TC + '::basicTransact')), max_up=2)

    # ---- R3
    ctx.rule('R3: a stream is entered only under a whole number from 1 that fits and is not in use, having been tested; any other answer closes the connection')

    def enters(fn, o):
        return o.k == 'call' and (o.info.get('obj') or ('',))[0] == 'fld' and o.info['obj'][2] == STREAMS and o.info['q'].rsplit('::', 1)[-1] in ('operator[]', 'insert', 'emplace', 'insert_or_assign')

    class Stream(Watch):
        tracked = frozenset([STREAMS])
        cap = 300

        def inline(self, I, key, info):
            return key in I.force or (ir.cls_of(key) == TC or not ir.cls_of(key) and ir.bq_of(key).startswith('rtmp::')) and key not in shut and key not in home and (ir.fn(key) is not None and sum(len(b.ops) for b in ir.fn(key).blocks) < 25)

        def remember(self, v):
            return v[0] == 'op' and v[1] in ('<', '==')

        def on_call(self, I, st, op, info, args, obj, fr):
            n = info['q'].rsplit('::', 1)[-1]
            if n == 'doubleValue' and obj is not None:
                return [(st, ('s', 'number', obj))]
            if info['q'].endswith('::basicClose'):
                self.mark(st, ('close', C0, (), C1))
                I.unknown_call(st, ir.targets(info), args, obj, info, op, fr)
                return [(st, C0)]
            if n == 'setStreamID':
                I.unknown_call(st, ir.targets(info), args, obj, info, op, fr)
                rv = I.fresh(st, 'bool', op, fr, (0, 1))
                self.mark(st, ('told', args[0], (), rv))
                return [(st, rv)]
            if n == 'deleteStream' and (ir.cls_of(info.get('key') or '') or '').endswith('TCConnection'):
                self.mark(st, ('dropped', args[0], (), C1))
            if n in ('operator==', 'operator!=') and 'Rb_tree_iteratorISt4pairIKjSt10shared_ptrI' in (info.get('key') or ''):
                vs = [st.mem.get(a[1], a) if a[0] == 'addr' else a for a in list(args) + ([obj] if obj else [])]
                for m in self.marks(st, 'find'):
                    if m[3] in vs:
                        rv = I.fresh(st, 'bool', op, fr, (0, 1))
                        self.mark(st, ('count', m[1], (), psa.mknot(rv) if n == 'operator==' else rv))
                        return [(st, rv)]
            if on_field(obj, STREAMS):
                k = args and (st.mem.get(args[0][1], args[0]) if args[0][0] == 'addr' else args[0])
                if n == 'find':
                    rv = I.fresh(st, 'it', op, fr)
                    self.mark(st, ('find', k, (), rv))
                    return [(st, rv)]
                if n in ('count', 'contains'):
                    rv = I.fresh(st, 'size', op, fr, (0, 1))
                    self.mark(st, ('count', k, (), rv))
                    return [(st, rv)]
                if n in ('operator[]', 'insert', 'emplace', 'insert_or_assign'):
                    seen['stream'].add((fr.fn.key, op.l))
                    self.nevents += 1
                    if DEBUG:
                        print('KEY', k, self.marks(st, 'br'), st.rng(k))
                    self.mark(st, ('entered', k, (), C1))
                    if not any(m[1] == k and false(st, m[3]) for m in self.marks(st, 'count')):
                        I.fail(fr, op.l, 'a stream is entered under a number that may be in use')
                    if not self.whole(st, k):
                        I.fail(fr, op.l, 'a stream is entered under a number that may not be at least one, or not fit')
            return None

        truncates = True

        def whole(self, st, k):
            if k[:2] != ('op', 'trunc'):
                return st.rng(k)[0] >= 1
            n, low, up = k[2], False, False
            some = true(st, k)
            for e, truth in self.compared(st):
                if e[1] != '<':
                    continue
                if e[2] == n and number(e[3]) is not None:
                    c = number(e[3])
                    low |= not truth and c >= 1
                    up |= truth and c <= 4294967296
                    if not truth and c >= 0 and some:
                        low = True
                if e[3] == n and number(e[2]) is not None:
                    c = number(e[2])
                    low |= truth and c >= 1
                    up |= not truth and c <= 4294967295
                    if truth and c >= 0 and some:
                        low = True
            return low and up

        def on_exit(self, I, st, rv, fr):
            if fr.fn.key not in home:
                return
            seen['refuse'].add(fr.fn.key)
            if self.marks(st, 'entered'):
                for m in self.marks(st, 'entered'):
                    t = [x for x in self.marks(st, 'told') if x[1] == m[1]]
                    if not t:
                        I.fail(fr, fr.fn.line, 'a stream is entered and not told its number')
                    elif not true(st, t[0][3]) and not any(x[1] == m[1] for x in self.marks(st, 'dropped')):
                        I.fail(fr, fr.fn.line, 'a stream closed in the meantime is kept')
            elif not self.marks(st, 'close'):
                I.fail(fr, fr.fn.line, 'a stream is refused, or its number unusable, and the connection stays open')

    import os
    DEBUG = os.environ.get('PSA_DEBUG')
    shut = {k for k in ctx.prog.funcs if ir.bq_of(k).endswith('::basicClose')}
    roots = sorted(psa.functions_with(ir, enters))
    home = frozenset(fn.key for fn, o in sites(ctx, enters))
    ctx.need('stream_entries', len(roots), 1)
    ctx.discharge('R3', Stream, roots, max_up=2)

    # ---- R4
    ctx.rule('R4: the connection counts as connected exactly as the answer to connecting says; if refused it is closed, and the requester is told the answer')

    class Conn(Watch):
        tracked = frozenset([TCOPEN])
        cap = 200

        def inline(self, I, key, info):
            return key in I.force

        def on_store(self, I, st, place, v, op, fr):
            if place[0] == 'F' and place[2] == TCOPEN and v != C0:
                seen['take'].add((fr.fn.key, op.l))
                self.nevents += 1
                if not given(st, fr, v):
                    I.fail(fr, op.l, 'the connection counts as connected without the answer saying so')
                else:
                    self.mark(st, ('said', v, (), v))
            return None

        def on_call(self, I, st, op, info, args, obj, fr):
            if info['q'].endswith('::basicClose'):
                self.mark(st, ('close', C0, (), C1))
                I.unknown_call(st, ir.targets(info), args, obj, info, op, fr)
                return [(st, C0)]
            return None

        def on_load(self, I, st, place, op, fr):
            if fr.up is None and place[0] == 'L' and any(place[2] == p['id'] and 'std::function<void (bool' in p['t'] for p in fr.fn.params) and place in st.mem:
                self.mark(st, ('asked', C0, (), st.mem[place]))
            return None

        def on_callv(self, I, st, op, fv, args, fr):
            if args:
                self.mark(st, ('told', args[0], (), C1))
            return None

        def on_exit(self, I, st, rv, fr):
            if fr.up is not None:
                return
            for m in self.marks(st, 'said'):
                if not true(st, m[3]) and not self.marks(st, 'close'):
                    I.fail(fr, fr.fn.line, 'the connection is refused and not closed')
                hs = [i for i, p in enumerate(fr.fn.params) if 'std::function<void (bool' in p['t']]
                if hs and not any(x[1] == m[1] for x in self.marks(st, 'told')) and (not self.marks(st, 'asked') or any(st.decide(psa.mknz(v)) is not False for v in [x[3] for x in self.marks(st, 'asked')])):
                    I.fail(fr, fr.fn.line, 'the requester is not told how connecting was answered')

    ctx.discharge('R4', Conn, sorted(stores_to(ctx, frozenset([TCOPEN]))), max_up=0)

    # ---- R5
    ctx.rule('R5: every transport that closes in its own way also takes the common step, on every path')

    class Over(Watch):
        cap = 100

        def inline(self, I, key, info):
            return key in I.force

        def on_call(self, I, st, op, info, args, obj, fr):
            if base_q(info['q']) == TC + '::basicClose' and not info.get('virt'):
                self.nevents += 1
                self.mark(st, ('base', C0, (), C1))
                I.unknown_call(st, ir.targets(info), args, obj, info, op, fr)
                return [(st, C0)]
            return None

        def on_exit(self, I, st, rv, fr):
            if fr.up is None:
                seen['override'].add(fr.fn.key)
                if not self.marks(st, 'base'):
                    I.fail(fr, fr.fn.line, 'a transport closes without the common step')

    ctx.discharge('R5', Over, sorted(k for k in shut if ir.cls_of(k) != TC), max_up=0)

    # ---- R6
    ctx.rule('R6: an answer is handed on as a success exactly when it is named a result, with the number it came with')

    class Disp(Watch):
        cap = 200

        def events(self):
            return {TC + '::onTransactionResponse'}

        def inline(self, I, key, info):
            return key in I.force

        def on_call(self, I, st, op, info, args, obj, fr):
            if base_q(info['q']) in ('std::operator==', 'std::operator!=') or info['q'].endswith('::compare'):
                lit = [a[1] for a in args if a[0] == 'str'] + [literal(fr.fn, a) for a in op.info['args'] if literal(fr.fn, a)]
                if lit:
                    rv = ('s', 'bool', 'streq', lit[0])
                    self.mark(st, ('eq', C0, (('c', lit[0]),), rv))
                    return [(st, rv if base_q(info['q']).endswith('==') else psa.mknot(rv))]
            if base_q(info['q']) == TC + '::onTransactionResponse':
                self.mark(st, ('handed', C0, (), C1))
                self.nevents += 1
                seen['close'].add((fr.fn.key, op.l))
                r, e = ('s', 'bool', 'streq', '_result'), ('s', 'bool', 'streq', '_error')
                if st.decide(r) is not True and st.decide(e) is not True:
                    I.fail(fr, op.l, 'a command that is no answer is taken for one')
                elif args[0] != r and st.decide(psa.mknz(args[0])) is not (st.decide(r) is True):
                    I.fail(fr, op.l, 'an answer is handed on as a success although it is an error, or the other way round')
                if not given(st, fr, args[1]):
                    I.fail(fr, op.l, 'an answer is handed on with another number than it came with')
            return None

        def on_exit(self, I, st, rv, fr):
            if fr.up is None and not self.marks(st, 'handed') and any(st.decide(('s', 'bool', 'streq', x)) is True for x in ('_result', '_error')):
                ctx.viol('R6', fr.fn, fr.fn.line, 'an answer is not handed on to the request it answers')

    ctx.discharge('R6', Disp, sorted(calls_to(ctx, TC + '::onTransactionResponse')), max_up=0)
    for k, v in seen.items():
        ctx.count('seen_' + k, len(v))
