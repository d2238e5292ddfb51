"""Lowers the resolved syntax trees to a control-flow graph over simple operations.

Values (operands):  ('t',n) result of an operation | ('c',int) | ('null',) | ('flt',x) | ('str',s) | ('fn',key) | ('addr',place)
Places:             ('var',id) | ('fld',place,name) | ('deref',operand) | ('elem',operand,operand)
Smart pointers and std::function objects are treated as the scalars they wrap.
"""
import re
from facts import AnalysisError

PFX = 'com::zenomt::'


def strip_tmpl(q):
    out = []
    d = 0
    i = 0
    while i < len(q):
        ch = q[i]
        if ch == '<' and not q.startswith('operator<', max(0, i - 8)):
            d += 1
        elif ch == '>' and d > 0 and q[i - 1] != '-':
            d -= 1
        elif d == 0:
            out.append(ch)
        i += 1
    return ''.join(out)


_bq = {}


def base_q(q):
    r = _bq.get(q)
    if r is None:
        r = strip_tmpl(q)
        r = r.replace('rtmfp::', '').replace('rtmp::', '') if False else r
        if r.startswith(PFX):
            r = r[len(PFX):]
        _bq[q] = r
    return r


def short(q):
    """last two components of a qualified name, without templates"""
    b = base_q(q)
    b = re.sub(r'\(anonymous class\)', 'lambda', b)
    parts = b.split('::')
    return '::'.join(parts[-2:])


SP_RE = re.compile(r'^(const )?std::(__)?(shared_ptr|unique_ptr|weak_ptr)(_access)?<')
FN_RE = re.compile(r'^(const )?std::function<')


def is_sp(t):
    return bool(SP_RE.match(t or ''))


def is_fn(t):
    return bool(FN_RE.match(t or ''))


def is_ref(t):
    return (t or '').rstrip().endswith('&')


def noref(t):
    t = (t or '').rstrip()
    while t.endswith('&'):
        t = t[:-1].rstrip()
    return t


def scalarlike(t):
    t = noref(t)
    return is_sp(t) or is_fn(t) or is_scalar(t)


SC_RE = re.compile(r'^(const |volatile )*(bool|char|signed char|unsigned char|short|unsigned short|int|unsigned int|unsigned|long|unsigned long|long long|unsigned long long|float|double|long double)( const| volatile)*$')


def is_scalar(t):
    t = noref(t)
    return bool(SC_RE.match(t)) or t.endswith('*') or t.endswith('*const') or t.endswith('* const') or t.startswith('enum ')


def by_value_ref(t):
    """a const reference parameter that can be treated as passed by value"""
    return is_ref(t) and t.startswith('const ') and scalarlike(t) and not t.rstrip('& ').endswith('*')


class Op:
    __slots__ = ('k', 'dst', 'a', 'b', 'x', 'l', 'info')

    def __init__(self, k, dst=None, a=None, b=None, x=None, l=0, info=None):
        self.k, self.dst, self.a, self.b, self.x, self.l, self.info = k, dst, a, b, x, l, info

    def __repr__(self):
        s = '%s' % self.k
        if self.dst is not None:
            s = 't%d = ' % self.dst + s
        for v in (self.a, self.b, self.x):
            if v is not None:
                s += ' ' + fmt(v)
        if self.info:
            q = self.info.get('q')
            if q:
                s += ' {' + base_q(q) + '}'
            if 'args' in self.info:
                s += '(' + ', '.join(fmt(v) for v in self.info['args']) + ')'
        return s + '  #%d' % self.l


def fmt(v):
    if isinstance(v, tuple) and v:
        if v[0] == 't':
            return 't%d' % v[1]
        if v[0] == 'c':
            return str(v[1])
        if v[0] == 'var':
            return v[1].split('@')[0]
        if v[0] == 'fld':
            return fmt(v[1]) + '.' + v[2].split('::')[-1]
        if v[0] == 'deref':
            return '*(' + fmt(v[1]) + ')'
        if v[0] == 'elem':
            return fmt(v[1]) + '[' + fmt(v[2]) + ']'
        if v[0] == 'addr':
            return '&' + fmt(v[1])
        if v[0] == 'this':
            return 'this'
        return str(v)
    return str(v)


class Block:
    __slots__ = ('id', 'ops', 'term', 'l')

    def __init__(self, i):
        self.id = i
        self.ops = []
        self.term = None
        self.l = 0


class Fn:
    def __init__(self, d):
        self.d = d
        self.key = d['key']
        self.q = d['q']
        self.bq = base_q(d['q'])
        self.cls = d.get('cls')
        self.params = d['params']
        self.file = d['file']
        self.line = d['l']
        self.blocks = []
        self.defs = {}
        self.lambdas = []
        self.is_lambda = bool(d.get('lambda'))
        self.vartypes = {}

    def name(self):
        return self.bq

    def dump(self):
        out = ['%s  %s:%d' % (self.bq, self.file, self.line)]
        for b in self.blocks:
            out.append('B%d:' % b.id)
            for o in b.ops:
                out.append('   %r' % o)
            out.append('   -> %r' % (b.term,))
        return '\n'.join(out)


LOCK_RE = re.compile(r'^std::(lock_guard|unique_lock|scoped_lock)<')


class Lower:
    def __init__(self, d, prog):
        self.prog = prog
        self.f = Fn(d)
        self.nt = 0
        self.cur = self.new()
        self.entry = self.cur
        self.brk = []
        self.cont = []
        self.labels = {}
        self.scopes = [[]]
        self.switches = []

    # -- blocks
    def new(self):
        b = Block(len(self.f.blocks))
        self.f.blocks.append(b)
        return b

    def emit(self, k, a=None, b=None, x=None, l=0, info=None, val=True):
        dst = None
        if val:
            dst = self.nt
            self.nt += 1
        op = Op(k, dst, a, b, x, l, info)
        self.cur.ops.append(op)
        if val:
            self.f.defs[dst] = op
            return ('t', dst)
        return None

    def jump(self, b):
        if self.cur.term is None:
            self.cur.term = ('goto', b.id)

    def seal(self, term):
        if self.cur.term is None:
            self.cur.term = term
        self.cur = self.new()

    # -- functions
    def run(self):
        d = self.f.d
        for p in d['params']:
            self.f.vartypes[p['id']] = p['t']
        if d.get('ctor'):
            for i in d.get('inits', []):
                l = i.get('l', d['l'])
                if 'f' in i:
                    place = ('fld', ('deref', ('this',)), i['f'])
                    self.init_place(place, i['i'], i['i'].get('t', '') if i['i'] else '', l, init=True)
                elif i.get('i'):
                    e = i['i']
                    if e['k'] == 'ctor':
                        args = self.args(e['a'], self.pts(e.get('key')))
                        self.emit('ctor', ('deref', ('this',)), l=l, val=False, info={'q': e.get('q', ''), 'key': e.get('key'), 'args': args, 't': e.get('t'), 'init': True, 'base': True})
                    else:
                        self.rv(e)
        self.stmt(d['body'])
        if self.cur.term is None:
            self.unwind(0)
            self.cur.term = ('ret', None)
        for b in self.f.blocks:
            if b.term is None:
                b.term = ('ret', None) if not b.ops else ('unreach',)
        # prune unreachable
        seen = set()
        st = [self.entry.id]
        while st:
            i = st.pop()
            if i in seen:
                continue
            seen.add(i)
            for s in succs(self.f.blocks[i]):
                st.append(s)
        self.f.reach = seen
        self.f.entry = self.entry.id
        self.f.nt = self.nt
        return self.f

    # -- statements
    def unwind(self, depth):
        for sc in reversed(self.scopes[depth:]):
            for v in reversed(sc):
                self.emit('dtor', ('var', v['id']), x=v['t'], l=self.lastl, val=False)

    lastl = 0

    def stmt(self, s):
        if s is None:
            return
        k = s['k']
        self.lastl = s.get('l', self.lastl)
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise AnalysisError('unsupported statement %s (%s) at %s:%s' % (k, s.get('c'), self.f.file, s.get('l')))
        m(s)

    def s_nop(self, s):
        pass

    def s_sother(self, s):
        raise AnalysisError('unsupported statement %s at %s:%s' % (s.get('c'), self.f.file, s.get('l')))

    def s_seq(self, s):
        self.scopes.append([])
        for c in s['b']:
            self.stmt(c)
        if self.cur.term is None:
            self.lastl = s.get('le', self.lastl)
            self.unwind(len(self.scopes) - 1)
        self.scopes.pop()

    def s_expr(self, s):
        self.discard(s['e'])

    def s_decl(self, s):
        for v in s['v']:
            self.decl(v)

    def decl(self, v):
        t = v['t']
        self.f.vartypes[v['id']] = t
        place = ('var', v['id'])
        if v.get('static'):
            # static local: initialised once; treat as unknown
            return
        self.emit('decl', place, x=t, l=v['l'], val=False, info={'init': v.get('i') is not None and not (v['i'] and v['i'].get('k') == 'ctor' and not v['i'].get('a') and not is_sp(t) and not is_fn(t))})
        if v.get('i') is not None:
            self.init_place(place, v['i'], t, v['l'])
        bt = noref(t)
        if not is_ref(t) and (LOCK_RE.match(bt) or (bt.startswith('com::zenomt') and not bt.endswith('*'))):
            self.scopes[-1].append(v)

    def init_place(self, place, e, t, l, init=False):
        if e is None:
            return
        if is_ref(t) and not by_value_ref(t):
            if e.get('lv'):
                p = self.place(e)
                self.emit('store', place, ('addr', p), l=l, val=False, info={'init': True, 'ref': True})
            else:
                v = self.rv(e)
                self.emit('store', place, v, l=l, val=False, info={'init': True, 'ref': True, 'tmp': True})
            return
        if e['k'] == 'ctor' and not (is_sp(t) or is_fn(t)):
            if (e.get('copy') or e.get('move')) and len(e['a']) == 1:
                v = self.rv(e['a'][0])
                self.emit('store', place, v, l=l, val=False, info={'init': True})
                return
            args = self.args(e['a'], self.pts(e.get('key')))
            self.emit('ctor', place, l=l, val=False, info={'q': e.get('q', ''), 'key': e.get('key'), 'args': args, 't': e.get('t'), 'init': True, 'zi': e.get('zi')})
            return
        if e['k'] == 'list' and not scalarlike(t):
            args = [self.rv(x) for x in e['a'] if x]
            self.emit('ctor', place, l=l, val=False, info={'q': 'list', 'key': None, 'args': args, 't': e.get('t'), 'init': True, 'list': True})
            return
        v = self.rv(e)
        self.emit('store', place, v, l=l, val=False, info={'init': True})

    def s_if(self, s):
        self.scopes.append([])
        if s.get('init'):
            self.stmt(s['init'])
        if s.get('cv'):
            self.stmt(s['cv'])
        t, e = self.new(), self.new()
        j = self.new()
        self.cond(s['c'], t, e)
        self.cur = t
        self.stmt(s['x'])
        self.jump(j)
        self.cur = e
        if s.get('y'):
            self.stmt(s['y'])
        self.jump(j)
        self.cur = j
        self.scopes.pop()

    def s_while(self, s):
        h, b, x = self.new(), self.new(), self.new()
        self.jump(h)
        self.cur = h
        if s.get('cv'):
            self.stmt(s['cv'])
        self.cond(s['c'], b, x)
        self.cur = b
        self.loop_body(s['b'], x, h)
        self.jump(h)
        self.cur = x

    def s_do(self, s):
        b, c, x = self.new(), self.new(), self.new()
        self.jump(b)
        self.cur = b
        self.loop_body(s['b'], x, c)
        self.jump(c)
        self.cur = c
        self.cond(s['c'], b, x)
        self.cur = x

    def loop_body(self, body, brk, cont):
        self.brk.append((brk, len(self.scopes)))
        self.cont.append((cont, len(self.scopes)))
        self.stmt(body)
        self.brk.pop()
        self.cont.pop()

    def s_for(self, s):
        self.scopes.append([])
        if s.get('i'):
            self.stmt(s['i'])
        h, b, i, x = self.new(), self.new(), self.new(), self.new()
        self.jump(h)
        self.cur = h
        if s.get('c'):
            self.cond(s['c'], b, x)
        else:
            self.jump(b)
        self.cur = b
        self.loop_body(s['b'], x, i)
        self.jump(i)
        self.cur = i
        if s.get('s'):
            self.discard(s['s'])
        self.jump(h)
        self.cur = x
        self.unwind(len(self.scopes) - 1)
        self.scopes.pop()

    def s_frange(self, s):
        rng = self.place(s['r']) if s['r'].get('lv') else None
        if rng is None:
            v = self.rv(s['r'])
            rng = ('deref', v)
        h, b, x = self.new(), self.new(), self.new()
        self.jump(h)
        self.cur = h
        more = self.emit('more', ('addr', rng), l=s['l'])
        self.cur.term = ('br', more, b.id, x.id)
        self.cur = b
        v = s['v']
        self.f.vartypes[v['id']] = v['t']
        self.emit('decl', ('var', v['id']), x=v['t'], l=v['l'], val=False, info={'init': True})
        el = self.emit('next', ('addr', rng), l=v['l'])
        if is_ref(v['t']) and not by_value_ref(v['t']):
            self.emit('store', ('var', v['id']), el, l=v['l'], val=False, info={'init': True, 'ref': True})
        else:
            val = self.emit('ld', ('deref', el), l=v['l'], info={'t': v['t']})
            self.emit('store', ('var', v['id']), val, l=v['l'], val=False, info={'init': True})
        self.loop_body(s['b'], x, h)
        self.jump(h)
        self.cur = x

    def s_switch(self, s):
        v = self.rv(s['c'])
        x = self.new()
        sw = {'cases': [], 'default': None}
        top = self.cur
        self.cur = self.new()
        self.switches.append(sw)
        self.brk.append((x, len(self.scopes)))
        self.stmt(s['b'])
        self.brk.pop()
        self.switches.pop()
        self.jump(x)
        top.term = ('sw', v, tuple(sw['cases']), (sw['default'] or x).id)
        top.l = s['l']
        self.cur = x

    def case_block(self):
        nb = self.new()
        self.jump(nb)
        self.cur = nb
        return nb

    def s_case(self, s):
        nb = self.case_block()
        lo = s['lo']['v']
        hi = s['hi']['v'] if s.get('hi') else lo
        self.switches[-1]['cases'].append((lo, hi, nb.id, s['lo'].get('n')))
        self.stmt(s['b'])

    def s_default(self, s):
        self.switches[-1]['default'] = self.case_block()
        self.stmt(s['b'])

    def s_break(self, s):
        b, d = self.brk[-1]
        self.unwind(d)
        self.seal(('goto', b.id))

    def s_continue(self, s):
        b, d = self.cont[-1]
        self.unwind(d)
        self.seal(('goto', b.id))

    def s_return(self, s):
        v = None
        if s.get('e') is not None:
            e = s['e']
            if is_ref(self.f.d['ret']) and not by_value_ref(self.f.d['ret']) and e.get('lv'):
                v = ('addr', self.place(e))
            else:
                v = self.rv(e)
        self.lastl = s['l']
        self.unwind(0)
        self.cur.l = s['l']
        self.seal(('ret', v))

    def s_goto(self, s):
        b, _ = self.labels.setdefault(s['n'], (self.new(), 0))
        self.seal(('goto', b.id))

    def s_label(self, s):
        b, _ = self.labels.setdefault(s['n'], (self.new(), 0))
        self.jump(b)
        self.cur = b
        self.stmt(s['b'])

    def s_try(self, s):
        j = self.new()
        start = self.cur
        hs = []
        for h in s['h']:
            hb = self.new()
            hs.append((hb, h))
        # conservatively: handlers reachable from the try entry
        body = self.new()
        self.cur = start
        m = self.emit('nondet', l=s['l'])
        chain = body
        for hb, _ in hs:
            m = self.emit('nondet', l=s['l'])
            nxt = self.new()
            self.cur.term = ('br', m, hb.id, nxt.id)
            self.cur = nxt
        self.jump(body)
        self.cur = body
        self.stmt(s['b'])
        self.jump(j)
        for hb, h in hs:
            self.cur = hb
            self.stmt(h)
            self.jump(j)
        self.cur = j

    # -- conditions
    def cond(self, e, t, f):
        k = e['k']
        if k == 'bin' and e['op'] == '&&':
            m = self.new()
            self.cond(e['x'], m, f)
            self.cur = m
            self.cond(e['y'], t, f)
            return
        if k == 'bin' and e['op'] == '||':
            m = self.new()
            self.cond(e['x'], t, m)
            self.cur = m
            self.cond(e['y'], t, f)
            return
        if k == 'un' and e['op'] == '!':
            self.cond(e['e'], f, t)
            return
        if k == 'cond':
            a, b = self.new(), self.new()
            self.cond(e['c'], a, b)
            self.cur = a
            self.cond(e['x'], t, f)
            self.cur = b
            self.cond(e['y'], t, f)
            return
        if k == 'cast' and e['ck'] in ('IntegralToBoolean', 'PointerToBoolean') and e['e']['k'] in ('bin', 'un', 'cond', 'call') and e['ck'] == 'IntegralToBoolean':
            pass
        v = self.rv(e)
        self.cur.l = e.get('l', 0)
        if v[0] == 'c':
            self.cur.term = ('goto', (t if v[1] else f).id)
        else:
            self.cur.term = ('br', v, t.id, f.id)

    # -- expressions
    def pts(self, key):
        d = self.prog.funcs.get(key)
        return [p['t'] for p in d['params']] if d else None

    def discard(self, e):
        if e['k'] == 'void':
            return self.discard(e['e'])
        if e['k'] in ('asg', 'casg', 'incdec') or (e['k'] == 'un' and e['op'] == '*'):
            self.rv_nold(e)
            return
        if e['k'] == 'cond':
            t, f, j = self.new(), self.new(), self.new()
            self.cond(e['c'], t, f)
            self.cur = t
            self.discard(e['x'])
            self.jump(j)
            self.cur = f
            self.discard(e['y'])
            self.jump(j)
            self.cur = j
            return
        if e['k'] == 'bin' and e['op'] in ('&&', '||'):
            t, j = self.new(), self.new()
            if e['op'] == '&&':
                self.cond(e['x'], t, j)
            else:
                self.cond(e['x'], j, t)
            self.cur = t
            self.discard(e['y'])
            self.jump(j)
            self.cur = j
            return
        if e.get('lv') and e['k'] in ('var', 'fld', 'idx'):
            self.place(e)
            return
        self.rv(e)

    def args(self, es, pts):
        out = []
        for i, e in enumerate(es):
            if e is None:
                out.append(('unk',))
                continue
            t = pts[i] if pts and i < len(pts) else None
            if e.get('lv'):
                if t is not None and is_ref(t) and not by_value_ref(t):
                    out.append(('addr', self.place(e)))
                elif t is not None and by_value_ref(t):
                    out.append(self.load(self.place(e), noref(t), e['l']))
                elif t is None and not scalarlike(e.get('t', '')):
                    out.append(('addr', self.place(e)))
                else:
                    out.append(self.rv(e))
            else:
                out.append(self.rv(e))
        return out

    def load(self, place, t, l):
        if place[0] == 'deref' and place[1][0] == 'addr':
            place = place[1][1]
        if t.endswith(']') and place[0] != 'tmp':
            return ('addr', place)
        if place[0] == 'var' and place[1].startswith('g:'):
            g = self.prog.globals.get(place[1])
            if g and 'v' in g and g.get('t', '').startswith('const '):
                return ('c', int(g['v']))
        return self.emit('ld', place, l=l, info={'t': t})

    def rv(self, e):
        """value of an expression (loads if it is an lvalue)"""
        if e is None:
            return ('unk',)
        k = e['k']
        if k in ('var', 'fld', 'idx') or (k == 'un' and e['op'] == '*' and e.get('lv')):
            return self.load(self.place(e), e.get('t', ''), e['l'])
        if e.get('lv') and k in ('asg', 'casg', 'incdec'):
            p = self.rv_nold(e)
            return p
        if e.get('lv') and k in ('call', 'cond', 'other'):
            v = self.value(e)
            if k == 'cond' or (v and v[0] != 't' and v[0] != 'unk' and v[0] != 'addr'):
                return v
            if isinstance(v, tuple) and v[0] == 'addr':
                return self.load(v[1], e.get('t', ''), e['l'])
            if k == 'call' and self.identity_call(e):
                return v
            return self.load(('deref', v), e.get('t', ''), e['l'])
        return self.value(e)

    def rv_nold(self, e):
        k = e['k']
        l = e['l']
        if k == 'asg':
            # right before left, as the value is what matters
            v = self.rv(e['y'])
            p = self.place(e['x'])
            self.emit('store', p, v, l=l, val=False)
            return v
        if k == 'casg':
            y = self.rv(e['y'])
            p = self.place(e['x'])
            x = self.load(p, e.get('t', ''), l)
            v = self.emit('bin', x, y, e['op'], l=l, info={'t': e.get('t')})
            self.emit('store', p, v, l=l, val=False, info={'casg': e['op'], 'delta': y})
            return v
        if k == 'incdec':
            p = self.place(e['e'])
            x = self.load(p, e.get('t', ''), l)
            v = self.emit('bin', x, ('c', 1), e['op'], l=l, info={'t': e.get('t')})
            self.emit('store', p, v, l=l, val=False, info={'casg': e['op'], 'delta': ('c', 1)})
            return x if e['post'] else v
        return self.rv(e)

    def identity_call(self, e):
        q = base_q(e.get('q', ''))
        return q in ('std::move', 'std::forward', 'std::min', 'std::max')

    def place(self, e):
        k = e['k']
        if k == 'ld':
            # a pointer value used as a place should not happen
            v = self.rv(e)
            return ('deref', v)
        if k == 'var':
            t = e.get('t', '')
            if e['id'].startswith(('g:', 's:')):
                return ('var', e['id'])
            if is_ref(t) and not by_value_ref(t):
                return ('deref', self.emit('ld', ('var', e['id']), l=e['l'], info={'t': 'ref', 'ref': True}))
            return ('var', e['id'])
        if k == 'fld':
            b = e['b']
            if e.get('arrow'):
                base = ('deref', self.rv(b))
            elif b.get('lv'):
                base = self.place(b)
            else:
                base = ('deref', self.rv(b))
            if base[0] == 'deref' and base[1][0] == 'addr':
                base = base[1][1]
            p = ('fld', base, e['f'])
            if is_ref(e.get('t', '')):
                return ('deref', self.emit('ld', p, l=e['l'], info={'t': 'ref', 'ref': True}))
            return p
        if k == 'un' and e['op'] == '*':
            return self.deref(self.rv(e['e']))
        if k == 'idx':
            i = self.rv(e['i'])
            b = self.rv(e['b']) if not self.is_array(e['b']) else ('addr', self.place(e['b']))
            return ('elem', b, i)
        if k in ('asg', 'casg'):
            self.rv_nold(e)
            return self.place(e['x'])
        if k == 'incdec':
            self.rv_nold(e)
            return self.place(e['e'])
        if k == 'this':
            return ('deref', ('this',))
        if k == 'call':
            if self.identity_call(e):
                a = e['a'][0]
                if a.get('lv') and base_q(e['q']) in ('std::move', 'std::forward'):
                    return self.place(a)
                return ('deref', ('unk',)) if False else ('tmp', self.value(e))
            v = self.value(e)
            return self.deref(v)
        if k == 'cast':
            if e.get('lv'):
                return self.place(e['e'])
            return self.deref(self.rv(e))
        if k == 'cond':
            v = self.value(e)
            return ('tmp', v)
        if k == 'str':
            return ('tmp', ('str', e['v']))
        v = self.value(e)
        return ('tmp', v)

    def deref(self, v):
        if v[0] == 'addr':
            return v[1]
        return ('deref', v)

    def is_array(self, e):
        return e.get('lv') and (e.get('t', '').endswith(']') or (e['k'] == 'call' and False))

    def value(self, e):
        k = e['k']
        l = e.get('l', 0)
        if k == 'ld':
            return self.rv(e['e'])
        if k == 'int':
            v = e['v']
            return ('c', int(v))
        if k == 'null':
            return ('null',)
        if k == 'flt':
            return ('flt', e['v'])
        if k == 'str':
            return ('str', e['v'])
        if k == 'this':
            return ('this',)
        if k == 'fn':
            return ('fn', e['key'])
        if k in ('var', 'fld', 'idx'):
            p = self.place(e)
            t = e.get('t', '')
            if t.endswith(']'):
                return ('addr', p)
            return self.load(p, t, l)
        if k == 'zero':
            return ('c', 0) if not is_sp(e.get('t')) else ('null',)
        if k == 'void':
            self.discard(e['e'])
            return ('unk',)
        if k == 'cast':
            ck = e['ck']
            x = e['e']
            if ck == 'BitCast' or ck == 'BaseToDerived' or ck == 'Dynamic':
                v = self.rv(x)
                if ck == 'Dynamic':
                    return self.emit('dyncast', v, l=l, info={'t': e['t']})
                return v
            v = self.rv(x)
            if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean'):
                return self.emit('un', v, x='nz', l=l, info={'t': 'bool'})
            return self.emit('cast', v, x=e['t'], l=l, info={'ck': ck, 't': e['t'], 'from': x.get('t', '')})
        if k == 'un':
            op = e['op']
            if op == '*':
                return self.load(self.place(e), e.get('t', ''), l)
            if op == '&':
                p = self.place(e['e'])
                if p[0] == 'deref':
                    return p[1]
                return ('addr', p)
            v = self.rv(e['e'])
            if op == '+':
                return v
            return self.emit('un', v, x=op, l=l, info={'t': e.get('t')})
        if k == 'incdec' or k == 'asg' or k == 'casg':
            return self.rv_nold(e)
        if k == 'bin':
            op = e['op']
            if op in ('&&', '||'):
                return self.boolval(e)
            if op == ',':
                self.discard(e['x'])
                return self.rv(e['y'])
            x = self.rv(e['x'])
            y = self.rv(e['y'])
            return self.emit('bin', x, y, op, l=l, info={'t': e.get('t'), 'xt': e['x'].get('t', ''), 'yt': e['y'].get('t', '')})
        if k == 'cond':
            if e['c']['k'] == 'int':
                return self.rv(e['x'] if e['c']['v'] else e['y'])
            t, f, j = self.new(), self.new(), self.new()
            tmp = ('var', '$c%d' % self.f.blocks[-1].id)
            self.cond(e['c'], t, f)
            self.cur = t
            v = self.rv(e['x'])
            self.emit('store', tmp, v, l=l, val=False, info={'init': True, 'synth': True})
            self.jump(j)
            self.cur = f
            v = self.rv(e['y'])
            self.emit('store', tmp, v, l=l, val=False, info={'init': True, 'synth': True})
            self.jump(j)
            self.cur = j
            return self.load(tmp, e.get('t', ''), l)
        if k == 'lambda':
            caps = []
            for c in e['caps']:
                if c['k'] == 'this':
                    caps.append(('this', ('this',)))
                elif c['k'] == 'ref':
                    t = c['t']
                    if is_ref(t) and not by_value_ref(t):
                        # capturing a reference by reference: same referent
                        caps.append((c['id'], self.emit('ld', ('var', c['id']), l=l, info={'t': 'ref', 'ref': True}), 'refval', c))
                    else:
                        caps.append((c['id'], ('addr', ('var', c['id'])), 'ref', c))
                else:
                    t = c['t']
                    if c.get('i') is not None:
                        if is_ref(t) and not by_value_ref(t):
                            ii = c['i']
                            v = self.rv(ii) if scalarlike(t) else ('unk',)
                            if not scalarlike(t):
                                v = self.emit('ld', ('deref', self.emit('ld', ('var', c['id']), l=l, info={'t': 'ref', 'ref': True})), l=l, info={'t': noref(t)})
                            caps.append((c['id'], v, 'copyref', c))
                        else:
                            caps.append((c['id'], self.rv(c['i']) if c['i']['k'] != 'ctor' or scalarlike(t) or c['i'].get('copy') else self.rv(c['i']), 'copy', c))
                    else:
                        caps.append((c['id'], self.load(('var', c['id']), t, l), 'copy', c))
            self.f.lambdas.append(e['key'])
            return self.emit('lambda', x=e['key'], l=l, info={'caps': caps, 'key': e['key'], 'rawcaps': e['caps']})
        if k == 'new':
            ini = e.get('i')
            args = []
            key = None
            q = ''
            arr = None
            if e.get('arr') is not None:
                arr = self.rv(e['arr'])
            if ini is not None:
                if ini['k'] == 'ctor':
                    key, q = ini.get('key'), ini.get('q', '')
                    args = self.args(ini['a'], self.pts(key))
                else:
                    args = [self.rv(ini)]
            if e.get('pl') is not None:
                args = [self.rv(e['pl'])] + args
            return self.emit('new', l=l, info={'t': e['t'], 'key': key, 'q': q, 'args': args, 'arr': arr, 'zi': ini is not None and (ini['k'] != 'ctor' or ini.get('zi')), 'noinit': ini is None})
        if k == 'delete':
            v = self.rv(e['e'])
            return self.emit('delete', v, l=l, info={'t': e['t']})
        if k == 'throw':
            if e.get('e') is not None:
                self.rv(e['e'])
            self.emit('throw', l=l, val=False)
            self.cur.l = l
            self.seal(('throw',))
            return ('unk',)
        if k == 'ctor':
            t = e.get('t', '')
            if is_sp(t) or is_fn(t):
                if not e['a']:
                    return ('null',)
                return self.rv(e['a'][0])
            if (e.get('copy') or e.get('move')) and len(e['a']) == 1:
                return self.rv(e['a'][0])
            args = self.args(e['a'], self.pts(e.get('key')))
            return self.emit('ctorval', l=l, info={'t': t, 'key': e.get('key'), 'q': e.get('q', ''), 'args': args, 'zi': e.get('zi')})
        if k == 'list':
            t = e.get('t', '')
            if is_sp(t) or is_fn(t) or is_scalar(t):
                return self.rv(e['a'][0]) if e['a'] else ('null',)
            args = [self.rv(x) for x in e['a'] if x]
            return self.emit('ctorval', l=l, info={'t': t, 'key': None, 'q': 'list', 'args': args})
        if k == 'call':
            return self.call(e)
        if k == 'mfn':
            return ('unk',)
        if k == 'other':
            for x in e['a']:
                self.rv(x)
            return self.emit('unknown', l=l, info={'c': e.get('c')})
        raise AnalysisError('unsupported expression %s at %s:%s' % (k, self.f.file, l))

    def boolval(self, e):
        t, f, j = self.new(), self.new(), self.new()
        tmp = ('var', '$b%d' % j.id)
        self.cond(e, t, f)
        t_, f_ = t, f
        self.cur = t_
        self.emit('store', tmp, ('c', 1), l=e['l'], val=False, info={'init': True, 'synth': True})
        self.jump(j)
        self.cur = f_
        self.emit('store', tmp, ('c', 0), l=e['l'], val=False, info={'init': True, 'synth': True})
        self.jump(j)
        self.cur = j
        return self.load(tmp, 'bool', e['l'])

    # -- calls
    def objplace(self, e):
        o = e.get('o')
        if o is None:
            return None
        if e.get('arrow') or (e.get('ot', '').endswith('*') and not o.get('lv')):
            return self.deref(self.rv(o))
        if o.get('lv'):
            return self.place(o)
        return ('tmp', self.rv(o))

    def call(self, e):
        l = e['l']
        q = e.get('q')
        if q is None:
            fe = self.rv(e['fnexpr']) if e.get('fnexpr') else ('unk',)
            args = self.args(e['a'], None)
            return self.emit('callv', fe, l=l, info={'args': args, 't': e.get('t')})
        b = base_q(q)
        cls = e.get('cls', '')
        oper = e.get('oper')
        a = e['a']
        if cls and (is_sp(cls) or cls.startswith('std::__shared_ptr')):
            m = b.rsplit('::', 1)[1]
            if m in ('operator->', 'get'):
                return self.rv(e['o'])
            if m == 'operator*':
                return self.rv(e['o'])
            if m == 'operator bool':
                v = self.rv(e['o'])
                return self.emit('un', v, x='nz', l=l, info={'t': 'bool'})
            if m == 'reset':
                v = self.rv(a[0]) if a else ('null',)
                p = self.objplace(e)
                self.emit('store', p, v, l=l, val=False, info={'sp': True})
                return ('unk',)
            if m == 'operator=':
                v = self.rv(a[0])
                p = self.place(e['o']) if e['o'].get('lv') else ('tmp', self.rv(e['o']))
                self.emit('store', p, v, l=l, val=False, info={'sp': True})
                return ('addr', p)
            if m == 'swap':
                p1 = self.objplace(e)
                p2 = self.place(a[0])
                return self.swap(p1, p2, e)
        if cls and is_fn(cls):
            m = b.rsplit('::', 1)[1]
            if m == 'operator bool':
                v = self.rv(e['o'])
                return self.emit('un', v, x='nz', l=l, info={'t': 'bool'})
            if m == 'operator=':
                v = self.rv(a[0])
                p = self.place(e['o'])
                self.emit('store', p, v, l=l, val=False, info={'fn': True})
                return ('addr', p)
            if m == 'operator()':
                p = self.objplace(e)
                fv = p[1] if p[0] == 'tmp' else self.load(p, cls, l)
                args = self.args(a, e.get('pts'))
                return self.emit('callv', fv, b=p, l=l, info={'args': args, 't': e.get('t'), 'fnobj': True})
            if m == 'swap':
                return self.swap(self.objplace(e), self.place(a[0]), e)
        if cls and cls.startswith('std::atomic') or b.startswith('std::__atomic_base'):
            m = b.rsplit('::', 1)[1]
            p = self.objplace(e)
            if m.startswith('operator ') or m == 'load':
                return self.load(p, e.get('t', ''), l)
            if m in ('operator=', 'store'):
                v = self.rv(a[0])
                self.emit('store', p, v, l=l, val=False)
                return v
            if m in ('operator++', 'operator--'):
                x = self.load(p, e.get('t', ''), l)
                v = self.emit('bin', x, ('c', 1), m[-1], l=l, info={'t': e.get('t')})
                self.emit('store', p, v, l=l, val=False, info={'casg': m[-1], 'delta': ('c', 1)})
                return v if not a else x
        if b in ('std::move', 'std::forward'):
            return self.rv(a[0])
        if b in ('std::min', 'std::max') and len(a) == 2:
            x, y = self.rv(a[0]), self.rv(a[1])
            return self.emit('bin', x, y, b[5:], l=l, info={'t': e.get('t')})
        if b in ('std::swap',) or (b == 'swap' and len(a) == 2):
            return self.swap(self.place(a[0]), self.place(a[1]), e)
        if b in ('std::operator==', 'std::operator!=') and len(a) == 2:
            pts = e.get('pts') or ['', '']
            if any(is_sp(noref(t)) or is_fn(noref(t)) or 'nullptr_t' in t for t in pts):
                x, y = self.rv(a[0]), self.rv(a[1])
                return self.emit('bin', x, y, oper or b[-2:], l=l, info={'t': 'bool'})
        if b in ('share_ref', 'retain_ref', 'claim_ref') and len(a) >= 1:
            # identity on the pointer; ownership is looked at separately
            v = self.rv(a[0])
            fl = self.rv(a[1]) if len(a) > 1 else None
            self.emit('share', v, fl, b, l=l, val=False, info={'key': e.get('key')})
            return v
        if b in ('std::make_shared',):
            t = e.get('t') or ''
            m = re.match(r'^std::shared_ptr<(.*)>$', t)
            key, pts = None, e.get('pts')
            if m:
                ks = self.prog.ctors_of(m.group(1).strip(), len(a))
                if len(ks) == 1:
                    key = ks[0]
                    pts = self.pts(key)
            args = self.args(a, pts)
            return self.emit('new', l=l, info={'t': t, 'key': key, 'q': q, 'args': args, 'arr': None})
        # general call
        info = {'q': q, 'key': e.get('key'), 't': e.get('t'), 'virt': e.get('virt') and not e.get('qual'), 'cls': cls, 'oper': oper, 'const': e.get('const'), 'lv': e.get('lv')}
        if e.get('o') is not None:
            info['obj'] = self.objplace(e)
            info['ot'] = e.get('ot')
        pts = e.get('pts')
        info['pts'] = pts
        info['args'] = self.args(a, pts)
        r = self.emit('call', l=l, info=info)
        if e.get('noret'):
            self.cur.l = l
            self.seal(('throw',))
        return r

    def swap(self, p1, p2, e):
        l = e['l']
        v1 = self.load(p1, '', l)
        v2 = self.load(p2, '', l)
        self.emit('store', p1, v2, l=l, val=False, info={'swap': True})
        self.emit('store', p2, v1, l=l, val=False, info={'swap': True})
        return ('unk',)


def succs(b):
    t = b.term
    if t is None:
        return []
    if t[0] == 'goto':
        return [t[1]]
    if t[0] == 'br':
        return [t[2], t[3]]
    if t[0] == 'sw':
        return [c[2] for c in t[2]] + [t[3]]
    return []


NONMOD = ('begin', 'end', 'data', 'find', 'front', 'back', 'at', 'lower_bound', 'upper_bound', 'count', 'size', 'empty')


class IR:
    def __init__(self, prog):
        self.prog = prog
        self._fn = {}
        self._imm = None
        self._modp = {}
        self.byq = {}
        for k, d in prog.funcs.items():
            self.byq.setdefault(base_q(d['q']), []).append(k)
        # overriders
        self.over = {}
        for c in prog.classes.values():
            for m in c['methods']:
                for o in m.get('over', []):
                    self.over.setdefault(o, []).append(m['key'])
        self.pure = {m['key'] for c in prog.classes.values() for m in c['methods'] if m['pure']}
        self.method = {m['key']: m for c in prog.classes.values() for m in c['methods']}
        self.fields = {}
        for c in prog.classes.values():
            for f in c['fields']:
                self.fields[f['f']] = f

    def fn(self, key):
        f = self._fn.get(key)
        if f is None:
            d = self.prog.funcs.get(key)
            if d is None or d.get('body') is None:
                return None
            f = Lower(d, self.prog).run()
            self._fn[key] = f
        return f

    def all(self):
        for k in self.prog.funcs:
            f = self.fn(k)
            if f is not None:
                yield f

    def find(self, bq, need=True):
        """functions by qualified name without the com::zenomt:: prefix"""
        ks = self.byq.get(bq, [])
        if need and not ks:
            raise AnalysisError('anchor vanished: function %s' % bq)
        return [self.fn(k) for k in ks]

    def one(self, bq):
        fs = self.find(bq)
        if len(fs) != 1:
            raise AnalysisError('anchor ambiguous: function %s has %d definitions' % (bq, len(fs)))
        return fs[0]

    def immutable_fields(self):
        """fields that no function changes after construction: never stored to, never the object of a non-const
        call, address never passed on except to const parameters"""
        if self._imm is None:
            mut = set()

            def touch(p):
                while p[0] in ('fld', 'elem'):
                    if p[0] == 'fld':
                        mut.add(p[2])
                        p = p[1]
                    else:
                        p = p[1][1] if p[1][0] == 'addr' else ('x',)

            def addr(x):
                if isinstance(x, tuple) and x and x[0] == 'addr' and isinstance(x[1], tuple):
                    touch(x[1])
            for fn in self.all():
                for b in fn.blocks:
                    for o in b.ops:
                        if o.k in ('store', 'ctor') and not ((o.info or {}).get('init') and not fn.is_lambda and fn.d.get('ctor')):
                            touch(o.a)
                        if o.k == 'store':
                            addr(o.b)
                        if o.k in ('call', 'callv', 'new', 'ctor', 'ctorval'):
                            for i, a in enumerate(o.info['args']):
                                if self.arg_modified(o, i):
                                    addr(a)
                            ob = o.info.get('obj')
                            if ob is not None and not o.info.get('const') and o.info['q'].rsplit('::', 1)[-1] not in NONMOD:
                                touch(ob)
                        if o.k == 'lambda':
                            for c in o.info['caps']:
                                if len(c) > 2 and c[2] == 'ref':
                                    addr(c[1])
            self._imm = frozenset(f for f, d in self.fields.items() if f not in mut and not (d.get('access') == 'public' and self.fclass(f).startswith('include/') and not d.get('const')))
        return self._imm

    def fclass(self, f):
        c = self.prog.classes.get(f.rsplit('::', 1)[0])
        return c['file'] if c else ''

    def bq_of(self, key):
        f = self.prog.funcs.get(key)
        if f is None:
            return ''
        r = f.get('_bq')
        if r is None:
            r = f['_bq'] = base_q(f['q'])
        return r

    def cls_of(self, key):
        f = self.prog.funcs.get(key)
        return base_q(f.get('cls') or '') if f else ''

    def arg_modified(self, o, i):
        """may the callee change what argument i refers to?"""
        pts = o.info.get('pts') or []
        key = o.info.get('key')
        if not pts and key in self.prog.funcs:
            pts = [p['t'] for p in self.prog.funcs[key]['params']]
        t = pts[i] if i < len(pts) else ''
        if t.startswith('const ') and (is_ref(t) or t.endswith('*')):
            return False
        if t and not is_ref(t) and not t.endswith('*'):
            return False
        ts = self.targets(o.info) if o.k == 'call' else ([key] if key in self.prog.funcs else [])
        if not ts:
            return True
        return any(i in self.mod_params(k) for k in ts)

    def mod_params(self, key):
        r = self._modp.get(key)
        if r is not None:
            return r
        self._modp[key] = set()
        fn = self.fn(key)
        out = set()
        if fn is None:
            return set()
        ids = {p['id']: i for i, p in enumerate(fn.params)}
        refs = {}
        for b in fn.blocks:
            for o in b.ops:
                if o.k == 'ld' and o.a[0] == 'var' and o.a[1] in ids:
                    refs[o.dst] = ids[o.a[1]]

        def base(p):
            while True:
                if p[0] in ('fld', 'elem'):
                    p = p[1]
                elif p[0] in ('deref', 'addr', 'tmp'):
                    p = p[1]
                elif p[0] == 't':
                    return refs.get(p[1])
                elif p[0] == 'var':
                    return ids.get(p[1]) if is_ref(fn.vartypes.get(p[1], '')) else None
                else:
                    return None
        for b in fn.blocks:
            for o in b.ops:
                if o.k in ('store', 'ctor') and o.a[0] != 'var':
                    i = base(o.a)
                    if i is not None:
                        out.add(i)
                if o.k == 'store' and o.b[0] == 't' and o.b[1] in refs and (is_ref(fn.params[refs[o.b[1]]]['t']) or o.a[0] != 'var') and is_ref(fn.params[refs[o.b[1]]]['t']):
                    if not by_value_ref(fn.params[refs[o.b[1]]]['t']):
                        out.add(refs[o.b[1]])
                if o.k in ('call', 'callv', 'new', 'ctor', 'ctorval'):
                    for j, a in enumerate(o.info['args']):
                        i = base(a) if a[0] in ('t', 'addr') else None
                        if i is not None and self.arg_modified(o, j):
                            out.add(i)
                    ob = o.info.get('obj')
                    if ob is not None and not o.info.get('const') and o.info['q'].rsplit('::', 1)[-1] not in NONMOD:
                        i = base(ob)
                        if i is not None:
                            out.add(i)
                if o.k == 'lambda':
                    for c in o.info['caps']:
                        if len(c) > 1:
                            i = base(c[1]) if c[1][0] in ('t', 'addr') else None
                            if i is not None and len(c) > 2 and c[2] in ('ref', 'refval'):
                                out.add(i)
        # parameters taken by value or const are not modifiable
        out = {i for i in out if not fn.params[i]['t'].startswith('const ') and (is_ref(fn.params[i]['t']) or fn.params[i]['t'].endswith('*'))}
        self._modp[key] = out
        return out

    def targets(self, info):
        """possible project targets of a call"""
        k = info.get('key')
        out = []
        if info.get('virt'):
            st = [k]
            seen = set()
            while st:
                x = st.pop()
                if x in seen:
                    continue
                seen.add(x)
                if x in self.prog.funcs and x not in self.pure:
                    out.append(x)
                st += self.over.get(x, [])
        elif k in self.prog.funcs:
            out.append(k)
        return out
