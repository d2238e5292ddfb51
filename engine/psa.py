"""Path-sensitive property simulation over the lowered program (in the manner of ESP/typestate
checkers).  The abstract state is a small finite store (locals and tracked fields), interval/
disequality facts about its symbols and the client's automaton state.  Project calls are followed
interprocedurally, lambdas are followed when they are called or when the client asks for it.
No solver, no path conditions beyond the finite facts."""
import re
import heapq
import os
import sys
from facts import AnalysisError
from ir import base_q, short, fmt, succs, is_ref, by_value_ref, noref, scalarlike, Op

DEBUG = os.environ.get('PSA_DEBUG')
C0 = ('c', 0)
C1 = ('c', 1)
INF = float('inf')


class Limit(AnalysisError):
    pass


def platform(info):
    """a call to the platform interface: it never calls back into the protocol before it returns (what it is given to run, it runs later)"""
    return base_q(info['q']).startswith('rtmfp::IPlatformAdapter::')


def vdepth(v):
    if isinstance(v, tuple) and v and v[0] in ('op', 'not', 'mk'):
        return 1 + max([vdepth(x) for x in v[1:] if isinstance(x, tuple)] or [0])
    return 0


def syms(v, out):
    """symbols mentioned in a value"""
    if isinstance(v, tuple) and v:
        if v[0] == 's':
            out.add(v)
        else:
            for x in v:
                if isinstance(x, tuple):
                    syms(x, out)
    return out


def subst(v, old, new):
    if v == old:
        return new
    if isinstance(v, tuple):
        return tuple(subst(x, old, new) if isinstance(x, tuple) else x for x in v)
    return v


ACCESS = {'data': 'data', 'size': 'size', 'length': 'size', 'empty': 'empty', 'begin': 'begin', 'cbegin': 'begin', 'end': 'end', 'cend': 'end', 'c_str': 'data'}
ARITH = {'+', '-', 'max', 'min', '*', '/'}
CMP = {'<', '>', '<=', '>=', '==', '!='}


def mkop(op, a, b):
    """canonical expression value"""
    ca, cb = a[0] == 'c', b[0] == 'c'
    if ca and cb:
        x, y = a[1], b[1]
        try:
            r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y,
                 '<<': lambda: x << y if 0 <= y < 64 else None, '>>': lambda: x >> y if 0 <= y < 64 else None,
                 '/': lambda: int(x / y) if y else None, '%': lambda: x % y if y else None, '<': lambda: int(x < y), '>': lambda: int(x > y),
                 '<=': lambda: int(x <= y), '>=': lambda: int(x >= y), '==': lambda: int(x == y), '!=': lambda: int(x != y),
                 'min': lambda: min(x, y), 'max': lambda: max(x, y)}[op]()
        except KeyError:
            r = None
        if r is not None:
            return ('c', r)
    if op == '>':
        return mkop('<', b, a)
    if op == '>=':
        return mknot(mkop('<', a, b))
    if op == '<=':
        return mknot(mkop('<', b, a))
    if op == '!=':
        return mknot(mkop('==', a, b))
    if op == '==':
        if a == b and a[0] != 's?':
            return C1
        if ca or (not cb and repr(b) < repr(a)):
            a, b = b, a
        if b == C0 and isbool(a):
            return mknot(a)
        if b == C1 and isbool(a):
            return a
        if a[0] == 'addr' and b == C0 or a[0] == 'lam' and b == C0:
            return C0
        return ('op', '==', a, b)
    if op in ('+', '*', '&', '|', '^', 'min', 'max') and (ca or (not cb and repr(b) < repr(a))):
        a, b = b, a
        ca, cb = cb, ca
    if b == C0:
        if op in ('+', '-', '|', '<<', '>>', '^'):
            return a
        if op in ('&', '*'):
            return C0
    if op == '<' and a == b:
        return C0
    return ('op', op, a, b)


def isbool(v):
    return v[0] == 'not' or (v[0] == 'op' and (v[1] in ('==', '<') or v[1] in ('|', '&') and isbool(v[2]) and isbool(v[3]))) or v in (C0, C1) or (v[0] == 's' and v[1] == 'bool')


def mknot(v):
    if v[0] == 'c':
        return C0 if v[1] else C1
    if v[0] == 'not':
        return v[1]
    if v[0] in ('addr', 'lam'):
        return C0
    if not isbool(v):
        return mkop('==', v, C0)
    return ('not', v)


def mknz(v):
    if isbool(v):
        return v
    return mknot(mkop('==', v, C0))


class State:
    __slots__ = ('mem', 'facts', 'auto', 'tmp', '_k')

    def __init__(self, mem=None, facts=None, auto=None, tmp=None):
        self.mem = mem if mem is not None else {}
        self.facts = facts if facts is not None else {}
        self.auto = auto
        self.tmp = tmp if tmp is not None else {}
        self._k = None

    def copy(self):
        return State(dict(self.mem), dict(self.facts), self.auto, dict(self.tmp))

    def key(self):
        return (frozenset(self.mem.items()), frozenset(self.facts.items()), self.auto, frozenset(self.tmp.items()))

    # -- facts
    def rng(self, v):
        if v[0] == 'c':
            return (v[1], v[1], frozenset())
        if v[0] in ('addr', 'lam', 'str'):
            return (1, INF, frozenset())
        r = self.facts.get(v)
        if r is not None:
            return r
        if v[0] == 's' and v[1] in ('this', 'new'):
            return (1, INF, frozenset())
        if isbool(v):
            return (0, 1, frozenset())
        if v[0] == 's' and v[1] == 'enum':
            return (v[2], v[3], frozenset())
        if v[0] == 'op' and v[1] == '&' and v[3][0] == 'c' and v[3][1] >= 0:
            return (0, v[3][1], frozenset())
        if v[0] == 'op' and v[1] in ARITH:
            a, b = self.rng(v[2]), self.rng(v[3])
            if v[1] == '+':
                return (a[0] + b[0], a[1] + b[1], frozenset())
            if v[1] == '-':
                return (a[0] - b[1], a[1] - b[0], frozenset())
            if v[1] == 'max':
                return (max(a[0], b[0]), max(a[1], b[1]), frozenset())
            if v[1] == 'min':
                return (min(a[0], b[0]), min(a[1], b[1]), frozenset())
            if v[3][0] == 'c' and v[3][1] > 0 and a[0] >= 0:
                c = v[3][1]
                if v[1] == '*':
                    return (a[0] * c, a[1] * c, frozenset())
                if v[1] == '/':
                    return (a[0] // c, a[1] // c if a[1] != INF else INF, frozenset())
        return (-INF, INF, frozenset())

    def restrict(self, v, lo, hi, neq):
        """returns False if contradictory"""
        l, h, n = self.rng(v)
        l, h, n = max(l, lo), min(h, hi), n | neq
        while l in n:
            l += 1
        while h in n:
            h -= 1
        if l > h:
            return False
        n = frozenset(x for x in n if l < x < h)
        if v[0] not in ('c', 'addr', 'lam', 'str'):
            self.facts[v] = (l, h, n)
            if v[0] == 'op' and v[1] == '+' and v[3][0] == 'c' and v[2][0] != 'c':
                k = v[3][1]
                return self.restrict(v[2], l - k, h - k, frozenset())
        return True

    def decide(self, v):
        if v[0] == 'not':
            d = self.decide(v[1])
            return None if d is None else not d
        l, h, n = self.rng(v)
        if l > 0 or h < 0 or 0 in n:
            return True
        if l == h == 0:
            return False
        if v[0] == 'op' and v[1] in '|&':
            a, b = self.decide(mknz(v[2])), self.decide(mknz(v[3]))
            if v[1] == '|':
                return True if a or b else False if a is False and b is False else None
            if a is False or b is False:
                return False
            return True if a and b and isbool(v[2]) and isbool(v[3]) else None
        if v[0] == 'op' and v[1] == '==':
            a, b = v[2], v[3]
            la, ha, na = self.rng(a)
            lb, hb, nb = self.rng(b)
            if la == ha and lb == hb:
                return la == lb
            if la > hb or lb > ha:
                return False
            if la == ha and la in nb or lb == hb and lb in na:
                return False
            # what was created on the way is not what was given at the start
            if a[0] == b[0] == 's' and (a[1] == 'new' and b[1] in ('arg', 'this') or b[1] == 'new' and a[1] in ('arg', 'this')):
                return False
        elif v[0] == 'op' and v[1] == '<':
            la, ha, _ = self.rng(v[2])
            lb, hb, _ = self.rng(v[3])
            if ha < lb:
                return True
            if la >= hb:
                return False
        return None

    def refine(self, v, truth):
        d = self.decide(v)
        if d is not None:
            if d != truth:
                return False
            if v[0] != 'not':
                pass
        if v[0] == 'not':
            return self.refine(v[1], not truth)
        if v[0] == 'op' and v[1] == '==':
            a, b = v[2], v[3]
            for x, y in ((a, b), (b, a)):
                l, h, n = self.rng(y)
                if l == h:
                    if truth:
                        if not self.restrict(x, l, l, frozenset()):
                            return False
                    else:
                        if not self.restrict(x, -INF, INF, frozenset([l])):
                            return False
                elif truth:
                    if not self.restrict(x, l, h, frozenset()):
                        return False
        elif v[0] == 'op' and v[1] == '<':
            a, b = v[2], v[3]
            la, ha, _ = self.rng(a)
            lb, hb, _ = self.rng(b)
            if truth:
                ok = self.restrict(a, -INF, hb - 1, frozenset()) and self.restrict(b, la + 1, INF, frozenset())
            else:
                ok = self.restrict(a, lb, INF, frozenset()) and self.restrict(b, -INF, ha, frozenset())
            if not ok:
                return False
        elif v[0] == 'op' and v[1] == '|' and not truth:
            if not (self.refine(mknz(v[2]), False) and self.refine(mknz(v[3]), False)):
                return False
        elif v[0] == 'op' and v[1] == '&' and truth:
            if isbool(v[2]) and isbool(v[3]) and not (self.refine(v[2], True) and self.refine(v[3], True)):
                return False
        if v[0] == 'c':
            return bool(v[1]) == truth
        if isbool(v):
            return self.restrict(v, 1 if truth else 0, 1 if truth else 0, frozenset())
        if truth:
            return self.restrict(v, -INF, INF, frozenset([0]))
        return self.restrict(v, 0, 0, frozenset())


class Frame:
    __slots__ = ('fn', 'fid', 'this', 'alias', 'up', 'site', 'depth', 'async_')

    def __init__(self, fn, fid, this, alias, up, site):
        self.fn, self.fid, self.this, self.alias, self.up, self.site = fn, fid, this, alias, up, site
        self.depth = up.depth + 1 if up else 0

    def stack(self):
        out = []
        f = self
        while f:
            out.append('%s:%s' % (f.fn.bq, f.site if f.site is not None else f.fn.line))
            f = f.up
        return out


class Client:
    """override what is needed"""
    tracked = frozenset()      # field names (full) whose contents are remembered
    max_depth = 14
    cap = 150
    max_steps = 60000
    event_depth = 3
    track_all_locals = True

    def on_call(self, I, st, op, info, args, obj, fr):
        return None

    def on_callv(self, I, st, op, fv, args, fr):
        return None

    def on_store(self, I, st, place, val, op, fr):
        return None

    def on_load(self, I, st, place, op, fr):
        return None

    def on_range(self, I, st, op, v, fr):
        """a loop over all elements: op 'more' answers whether there is one left, op 'next' its place"""

    def on_op(self, I, st, op, fr):
        return None

    def on_enter(self, I, st, fr):
        return None

    def on_exit(self, I, st, rv, fr):
        return None

    truncates = False
    event_fields = frozenset()
    # calls that only hand a function object over to be run later
    async_calls = frozenset(['rtmfp::IPlatformAdapter::perform', 'rtmfp::CryptoCert::isAuthentic', 'rtmfp::CryptoCert::checkSignature'])

    # functions (by qualified-name prefix) never followed unless an obligation was lifted out of them
    skip = ('rtmfp::VLU::', 'rtmfp::Option::', 'rtmfp::PacketAssembler::', 'VLU::')
    # classes treated as plain values: their constructors and assignments are not followed
    opaque = frozenset()

    def inline(self, I, key, info):
        if self.opaque and I.ir.cls_of(key) in self.opaque and I.is_special(key):
            return False
        if key in I.force:
            return True
        if I.ir.bq_of(key).startswith(self.skip):
            return False
        return (key not in I.barrier and (I.relevant(key) or I.builds_tracked(key)))

    def on_defer(self, I, st, op, info, i, lam, fr):
        """a function object is handed to code that will run it; return (state, args) or None to leave it"""
        return st, None

    def on_sync(self, I, st, op, info, i, lam, fr):
        """a function object is handed to code that runs it before it returns"""
        return st, None

    def havoc_value(self, I, st, place, old):
        """value of a tracked field after unknown code ran; None = unknown"""
        return None

    def events(self):
        return set()

    def havoc_field(self, f):
        """may a user callback change this tracked field?"""
        return True

    def enum_range(self, field):
        return None

    def merge_key(self, I, st):
        return None

    noinline = frozenset()


class Interp:
    def __init__(self, ir, client):
        self.ir = ir
        self.cl = client
        self.fids = {}
        self.opids = {}
        self._rel = {}
        self._mod = {}
        self.visited_fns = set()
        self.paths = 0
        self.steps = 0
        self.calls_followed = 0
        self.trunc = []
        self._live = {}
        self._sum = {}
        self._rpo = {}
        self._cv = {}
        self._ck = {}
        self._help = {}
        self.force = set()
        self.barrier = set()
        self.ran_lams = set()
        self.failures = []
        self.seq = 0

    # ---- static summaries
    def direct(self, key):
        """(callee keys, fields read, fields written, event names, callsv) of one function including lambdas it contains"""
        r = self._sum.get(key)
        if r is not None:
            return r
        callees, rd, wr, ev = set(), set(), set(), set()
        cv = False
        lams = []
        fn = self.ir.fn(key)
        if fn is not None:
            for b in fn.blocks:
                if b.id not in fn.reach:
                    continue
                for o in b.ops:
                    for p in (o.a, o.b):
                        self.pf(p, rd)
                    if o.k == 'store' or o.k == 'ctor':
                        if o.a[0] == 'fld':
                            wr.add(o.a[2])
                    if o.info and 'args' in o.info:
                        for x in o.info['args']:
                            self.pf(x, rd)
                            if x[0] == 'addr' and x[1][0] == 'fld':
                                wr.add(x[1][2])
                    if o.k == 'call':
                        ev.add(base_q(o.info['q']))
                        ts = [] if platform(o.info) else self.ir.targets(o.info)
                        callees.update(ts)
                        for x in o.info['args']:
                            if x[0] == 't':
                                dd = fn.defs.get(x[1])
                                if dd is not None and dd.k == 'lambda':
                                    lams.append((dd.x, tuple(ts)))
                        if o.info.get('obj'):
                            self.pf(o.info['obj'], rd)
                            if o.info['obj'][0] == 'fld' and not o.info.get('const'):
                                wr.add(o.info['obj'][2])
                    elif o.k in ('new', 'ctor', 'ctorval'):
                        if o.info.get('key') in self.ir.prog.funcs:
                            callees.add(o.info['key'])
                    elif o.k == 'callv':
                        # the size function of a summing list is a pure function of the element
                        cv = cv or not (o.b and o.b[0] == 'fld' and '::SumList<' in o.b[2])
                    elif o.k == 'dtor':
                        for dk in self.dtor_keys(o.x):
                            callees.add(dk)
        r = (callees, rd, wr, ev, cv, lams)
        self._sum[key] = r
        return r

    def dtor_keys(self, t):
        c = self.ir.prog.classes.get(noref(t))
        if not c:
            return []
        return [m['key'] for m in c['methods'] if m.get('dtor') and m['key'] in self.ir.prog.funcs]

    def pf(self, p, out):
        if isinstance(p, tuple):
            if p and p[0] == 'fld':
                out.add(p[2])
            for x in p:
                if isinstance(x, tuple):
                    self.pf(x, out)

    def closure(self, key):
        r = self._mod.get(key)
        if r is not None:
            return r
        seen = set()
        st = [key]
        rd, wr, ev = set(), set(), set()
        cv = False
        while st:
            k = st.pop()
            if k in seen:
                continue
            seen.add(k)
            c, a, b, e, v, lams = self.direct(k)
            rd |= a
            wr |= b
            ev |= e
            cv = cv or v
            st += c
            for lk, ts in lams:
                # a function object handed to a callee that calls function objects may run at once
                if any(self.callsv(t) for t in ts):
                    st.append(lk)
        r = (frozenset(seen), frozenset(rd), frozenset(wr), frozenset(ev), cv)
        if r[4] and self.callkind(key) != 2:
            r = r[:4] + (self.callkind(key) == 1,)
        self._mod[key] = r
        return r

    def callkind(self, key):
        """0: no function object of unknown content is called; 1: only those given as parameters; 2: others, such as callbacks held in members"""
        r = self._ck.get(key)
        if r is not None:
            return r
        busy = {key}
        r = self._callkind(key, busy)
        self._ck[key] = r
        return r

    def _callkind(self, key, busy):
        fn = self.ir.fn(key)
        if fn is None:
            return 0
        out = 0
        par = {('var', p['id']) for p in fn.params}
        for b in fn.blocks:
            if b.id not in fn.reach:
                continue
            for o in b.ops:
                if o.k == 'callv':
                    if o.b and o.b[0] == 'fld' and '::SumList<' in o.b[2]:
                        continue
                    if o.b and o.b[0] == 'var' and (o.b in par or fn.is_lambda):
                        out = max(out, 1)
                    else:
                        return 2
                    continue
                ts = []
                if o.k == 'call' and not platform(o.info):
                    ts = self.ir.targets(o.info)
                elif o.k in ('new', 'ctor', 'ctorval') and o.info.get('key') in self.ir.prog.funcs:
                    ts = [o.info['key']]
                elif o.k == 'dtor':
                    ts = self.dtor_keys(o.x)
                for t in ts:
                    if t in busy:
                        continue
                    v = self._ck.get(t)
                    if v is None:
                        v = self._callkind(t, busy | {t})
                        if len(busy) == 1:
                            self._ck[t] = v
                    if v == 2:
                        return 2
                    if v == 1:
                        pts = o.info.get('pts') or []
                        for i, x in enumerate(o.info['args']):
                            w = 0
                            if x[0] == 't':
                                d = fn.defs.get(x[1])
                                if d is not None and d.k == 'lambda':
                                    w = self._ck.get(d.x)
                                    if w is None:
                                        w = self._callkind(d.x, busy | {d.x}) if d.x not in busy else 0
                                elif i >= len(pts) or 'std::function' in pts[i]:
                                    w = 1 if d is not None and d.k == 'ld' and (d.a in par or fn.is_lambda and d.a[0] == 'var') else 2
                            elif x[0] == 'addr' and (i >= len(pts) or 'std::function' in pts[i]):
                                w = 1 if x[1] in par else 2
                            if w == 2:
                                return 2
                            out = max(out, w)
        return out

    def callsv(self, key):
        """does the function, or anything it calls, invoke function objects?"""
        r = self._cv.get(key)
        if r is None:
            seen = set()
            st = [key]
            r = False
            while st and not r:
                k = st.pop()
                if k in seen:
                    continue
                seen.add(k)
                d = self.direct(k)
                r = d[4]
                st += d[0]
            self._cv[key] = r
        return r

    def size(self, key):
        fn = self.ir.fn(key)
        return sum(len(fn.blocks[i].ops) for i in fn.reach) if fn is not None else 0

    def helper(self, key):
        """small leaf functions (predicates, setters, forwarding) are always followed"""
        r = self._help.get(key)
        if r is None:
            fn = self.ir.fn(key)
            r = fn is not None and not fn.is_lambda and self.size(key) <= 40 and len(self.closure(key)[0]) <= 4 and not self.closure(key)[4]
            self._help[key] = r
        return r

    def near(self, key, evs, flds, depth):
        """is one of the observed functions called, or observed fields written, within `depth` calls?"""
        if not evs and not flds:
            return False
        seen = {key}
        cur = [key]
        for d in range(depth):
            nxt = []
            for k in cur:
                f = self.ir.prog.funcs.get(k)
                if f is not None and base_q(f['q']) in evs:
                    return True
                c, a, b, e, v, lams = self.direct(k)
                if e & evs or b & flds:
                    return True
                for x in list(c) + [lk for lk, ts in lams]:
                    if x not in seen:
                        seen.add(x)
                        nxt.append(x)
            cur = nxt
        return False

    def relevant(self, key):
        r = self._rel.get(key)
        if r is None:
            evs = self.cl.events()
            r = self.helper(key) or self.near(key, evs, self.cl.event_fields, self.cl.event_depth)
            self._rel[key] = r
        return r

    def is_special(self, key):
        fn = self.ir.fn(key)
        return fn is not None and (bool(fn.d.get('ctor')) or fn.bq.endswith('::operator='))

    def builds_tracked(self, key):
        """constructors that fill observed fields are always followed"""
        k = ('b', key)
        r = self._rel.get(k)
        if r is None:
            fn = self.ir.fn(key)
            r = fn is not None and bool(fn.d.get('ctor')) and bool(self.closure(key)[2] & set(self.cl.tracked))
            self._rel[k] = r
        return r

    # ---- names
    def fid(self, up, site, key):
        k = (up, site, key)
        v = self.fids.get(k)
        if v is None:
            v = len(self.fids)
            self.fids[k] = v
        return v

    def site(self, op, fr):
        k = (id(op), fr.fid)
        v = self.opids.get(k)
        if v is None:
            v = len(self.opids)
            self.opids[k] = v
        return v

    def fresh(self, st, kind, op, fr, extra=None):
        s = ('s', kind, self.site(op, fr)) if extra is None else ('s', kind) + tuple(extra) + (self.site(op, fr),)
        self.kill_sym(st, s)
        return s

    def kill_sym(self, st, s):
        hit = False
        for p, v in st.mem.items():
            if v == s or (isinstance(v, tuple) and s in syms(v, set())) or s in syms(p, set()):
                hit = True
                break
        if not hit and isinstance(st.auto, tuple) and s in syms(('x', st.auto), set()):
            hit = True
        old = ('s', 'old') + s[1:]
        if hit:
            st.mem = {subst(p, s, old): subst(v, s, old) for p, v in st.mem.items()}
            st.tmp = {t: subst(v, s, old) for t, v in st.tmp.items()}
            if isinstance(st.auto, tuple):
                st.auto = tuple(sorted(set(subst(st.auto, s, old)), key=repr))
            nf = {}
            for v, r in st.facts.items():
                if old in syms(v, set()):
                    continue
                nf[subst(v, s, old)] = r
            st.facts = nf
        else:
            dead = [v for v in st.facts if s in syms(v, set())]
            for v in dead:
                del st.facts[v]

    # ---- places and operands
    def val(self, st, x, fr):
        k = x[0]
        if k == 't':
            return st.tmp.get((fr.fid, x[1]), ('s', 'lost', fr.fid, x[1]))
        if k == 'c':
            return x
        if k == 'null':
            return C0
        if k == 'this':
            return fr.this
        if k == 'addr':
            p = self.place(st, x[1], fr)
            if p[0] == 'D':
                return p[1]
            return ('addr', p)
        if k in ('flt', 'str', 'fn'):
            return ('k',) + x
        if k == 'unk':
            return ('s', 'unk', 0)
        return ('s', 'unk', 0)

    def place(self, st, p, fr):
        k = p[0]
        if k == 'var':
            i = p[1]
            if i.startswith(('g:', 's:')):
                return ('G', i)
            a = fr.alias.get(i)
            if a is not None:
                return a
            return ('L', fr.fid, i)
        if k == 'fld':
            b = self.place(st, p[1], fr)
            if b[0] == 'D':
                return ('F', b[1], p[2])
            return ('F', ('addr', b), p[2])
        if k == 'deref':
            v = self.val(st, p[1], fr)
            if v[0] == 'addr':
                return v[1]
            return ('D', v)
        if k == 'elem':
            b = self.val(st, p[1], fr)
            i = self.val(st, p[2], fr)
            return ('E', b, i if i[0] == 'c' else ('s', 'idx', 0))
        if k == 'tmp':
            return ('D', self.val(st, p[1], fr))
        return ('D', ('s', 'unk', 0))

    def tracked_place(self, p):
        if p[0] == 'L':
            return True
        if p[0] == 'F':
            if p[2] in self.cl.tracked:
                return True
            # member of a tracked local aggregate
            b = p[1]
            return False
        if p[0] == 'G':
            return False
        return False

    def load(self, st, p, op, fr):
        r = self.cl.on_load(self, st, p, op, fr)
        if r is not None:
            return r
        v = st.mem.get(p)
        if v is not None:
            return v
        if p[0] == 'F':
            er = self.cl.enum_range(p[2])
            if er is not None:
                v = self.fresh(st, 'enum', op, fr, er)
            else:
                fd = self.ir.fields.get(p[2])
                v = self.fresh(st, 'bool' if fd and fd['t'] == 'bool' else 'ld', op, fr)
        else:
            v = self.fresh(st, 'bool' if op.info and op.info.get('t') == 'bool' else 'ld', op, fr)
        if self.tracked_place(p):
            st.mem[p] = v
        return v

    def store(self, st, p, v, op, fr):
        r = self.cl.on_store(self, st, p, v, op, fr)
        if isinstance(r, tuple):
            v = r       # the client's abstraction of the stored value
        if v[0] == 'lam' and p[0] in ('F', 'D', 'E', 'G'):
            self.defer(st, op, {'q': 'store', 'place': p}, 0, v, fr)
        if p[0] == 'F':
            for q in [q for q in st.mem if q[0] == 'F' and q[2] == p[2] and q != p and self.may_alias(q[1], p[1])]:
                del st.mem[q]
        if self.tracked_place(p):
            if v == ('s', 'unk', 0):
                v = self.fresh(st, 'st', op, fr)
            st.mem[p] = v
        if p[0] == 'D':
            # store through unknown pointer: may hit address-taken locals; ignore (addresses handed out are havocked at the call)
            pass

    def may_alias(self, a, b):
        if a == b:
            return True
        def root(x):
            while x[0] == 'fld':
                x = x[1]
            return x[1] if x[0] == 's' else None
        n = [x for x in (a, b) if x[0] == 's' and x[1] == 'new']
        if n and all(root(x) in ('new', 'this', 'arg') for x in (a, b)):
            return False    # an object made here is none that existed at entry
        if a[0] == 'addr' and b[0] == 'addr':
            return False
        return True

    def havoc_fields(self, st, fields=None):
        for p in list(st.mem):
            if p[0] == 'F' and fields is None and p[2] in self.ir.immutable_fields():
                continue
            if p[0] == 'F' and (fields is None or p[2] in fields) and (fields is not None or self.cl.havoc_field(p[2])):
                old = st.mem.pop(p)
                nv = self.cl.havoc_value(self, st, p, old)
                if nv is not None:
                    st.mem[p] = nv

    def havoc_arg(self, st, v):
        if v[0] == 'addr':
            for p in list(st.mem):
                if p == v[1] or (p[0] == 'F' and self.within(p, v[1])):
                    del st.mem[p]
        elif v[0] == 'lam':
            for c in v[2]:
                if c[1][0] == 'addr':
                    self.havoc_arg(st, c[1])

    def within(self, p, root):
        while p[0] == 'F' and p[1][0] == 'addr':
            p = p[1][1]
            if p == root:
                return True
        return False

    # ---- running
    def live(self, fn):
        r = self._live.get(fn.key)
        if r is not None:
            return r
        # variables captured by reference or address-taken stay live
        always = set()
        use = {}
        defs = {}
        for bid in fn.reach:
            b = fn.blocks[bid]
            u, d = set(), set()

            def note(p, u=u, d=d):
                if isinstance(p, tuple):
                    if p and p[0] == 'var':
                        if p[1] not in d:
                            u.add(p[1])
                    for x in p:
                        if isinstance(x, tuple):
                            note(x)

            def addr(p):
                if isinstance(p, tuple):
                    if p and p[0] == 'addr':
                        q = p[1]
                        while q[0] == 'fld':
                            q = q[1]
                        if q[0] == 'var':
                            always.add(q[1])
                    for x in p:
                        if isinstance(x, tuple):
                            addr(x)
            for o in b.ops:
                if o.k == 'store' and o.a[0] == 'var':
                    note(o.b)
                    addr(o.b)
                    d.add(o.a[1])
                    continue
                if o.k == 'decl':
                    continue
                if o.k == 'dtor':
                    note(o.a)
                    continue
                for x in (o.a, o.b, o.x):
                    if isinstance(x, tuple):
                        note(x)
                        addr(x)
                if o.info:
                    for x in o.info.get('args', ()):
                        note(x)
                        addr(x)
                    if o.info.get('obj'):
                        note(o.info['obj'])
                        if o.info['obj'][0] == 'var':
                            always.add(o.info['obj'][1])
                    for c in o.info.get('caps', ()):
                        note(c[1])
                        addr(c[1])
            if b.term[0] in ('ret',) and b.term[1]:
                note(b.term[1])
                addr(b.term[1])
            use[bid], defs[bid] = u, d
        livein = {b: set() for b in fn.reach}
        ch = True
        while ch:
            ch = False
            for bid in sorted(fn.reach, reverse=True):
                out = set()
                for s in succs(fn.blocks[bid]):
                    out |= livein[s]
                n = use[bid] | (out - defs[bid])
                if n != livein[bid]:
                    livein[bid] = n
                    ch = True
        # temporaries used outside their defining block
        where = {}
        cross = set()
        for bid in fn.reach:
            for o in fn.blocks[bid].ops:
                if o.dst is not None:
                    where[o.dst] = bid

        def tnote(x, bid):
            if isinstance(x, tuple):
                if len(x) == 2 and x[0] == 't' and isinstance(x[1], int):
                    if where.get(x[1]) != bid:
                        cross.add(x[1])
                    return
                for y in x:
                    if isinstance(y, tuple):
                        tnote(y, bid)
        for bid in fn.reach:
            b = fn.blocks[bid]
            for o in b.ops:
                for x in (o.a, o.b, o.x):
                    tnote(x, bid)
                if o.info:
                    for x in o.info.get('args', ()):
                        tnote(x, bid)
                    if o.info.get('obj'):
                        tnote(o.info['obj'], bid)
                    for c in o.info.get('caps', ()):
                        tnote(c[1], bid)
            tnote(b.term, bid) if b.term[0] in ('br', 'sw', 'ret') else None
        r = (livein, always, cross)
        self._live[fn.key] = r
        return r

    def prune(self, st, fr, bid):
        livein, always, cross = self.live(fr.fn)
        li = livein[bid]
        fid = fr.fid
        for p in [p for p in st.mem if p[0] == 'L' and p[1] == fid and p[2] not in li and p[2] not in always]:
            del st.mem[p]
        for t in [t for t in st.tmp if t[0] == fid and t[1] not in cross]:
            del st.tmp[t]
        self.gc(st, fr)

    def gc(self, st, fr=None):
        # contents of objects nothing refers to any more
        heap = [p for p in st.mem if p[0] == 'F' and p[1][0] == 's' and p[1][1] not in ('this', 'arg', 'larg')]
        if heap:
            live = set()
            for p, v in st.mem.items():
                if p[0] != 'F' or p[1][0] != 's' or p[1][1] in ('this', 'arg', 'larg'):
                    syms(v, live)
                    syms(p, live)
            for v in st.tmp.values():
                syms(v, live)
            if isinstance(st.auto, tuple):
                syms(('x', st.auto), live)
            f = fr
            while f:
                if f.this is not None:
                    syms(f.this, live)
                for x in f.alias.values():
                    syms(x, live)
                f = f.up
            ch = True
            while ch:
                ch = False
                rest = []
                for p in heap:
                    if p[1] in live:
                        n = len(live)
                        syms(st.mem[p], live)
                        ch = ch or len(live) != n
                    else:
                        rest.append(p)
                if len(rest) == len(heap):
                    break
                heap = rest
            for p in heap:
                del st.mem[p]
        if not st.facts:
            return
        alive = set()
        for p, v in st.mem.items():
            syms(v, alive)
            syms(p, alive)
        for v in st.tmp.values():
            syms(v, alive)
        if isinstance(st.auto, tuple):
            syms(('x', st.auto), alive)
        keep = {}
        for v, r in st.facts.items():
            s = syms(v, set())
            if s and s <= alive:
                keep[v] = r
        # facts about opaque (untracked) expressions are kept only while they can be consulted
        st.facts = keep

    def onstack(self, fr, key):
        n = 0
        while fr:
            if fr.fn.key == key:
                n += 1
            fr = fr.up
        return n

    def call_fn(self, st, key, this, args, fr, op, caps=None):
        """follow a call; returns list of (state, value)"""
        fn = self.ir.fn(key)
        if fn is None:
            return None
        if self.onstack(fr, key) >= 1 or (fr and fr.depth >= self.cl.max_depth):
            return None
        self.visited_fns.add(key)
        self.calls_followed += 1
        fid = self.fid(fr.fid if fr else -1, id(op) if op is not None else 0, key)
        alias = {}
        st = st.copy()
        if caps:
            for c in caps:
                if c[0] == 'this':
                    this = c[1]
                elif c[2] in ('ref', 'refval', 'copyref') and c[1][0] == 'addr' and c[2] != 'copyref':
                    if c[2] == 'ref':
                        alias[c[0]] = c[1][1]
                    else:
                        st.mem[('L', fid, c[0])] = c[1]
                else:
                    st.mem[('L', fid, c[0])] = c[1]
        for i, p in enumerate(fn.params):
            pl = ('L', fid, p['id'])
            if i < len(args):
                st.mem[pl] = args[i]
            else:
                st.mem.pop(pl, None)
        nf = Frame(fn, fid, this, alias, fr, op.l if op is not None else None)
        self.cl.on_enter(self, st, nf)
        outs = self.run(fn, nf, st)
        res = {}
        for s, v in outs:
            r = self.cl.on_exit(self, s, v, nf)
            if v is None:
                v = ('s', 'unk', 0)
            for p in [p for p in s.mem if p[0] == 'L' and p[1] == fid]:
                del s.mem[p]
            for t in [t for t in s.tmp if t[0] == fid]:
                del s.tmp[t]
            s.tmp[('rv', 0)] = v
            self.gc(s, nf)
            al = set()
            syms(v, al)
            kv = v if (v[0] in ('c', 'lam') or isbool(v)) else None
            k = (self.mkey(s), kv, tuple(sorted((repr(x), repr(r)) for x, r in s.facts.items() if al and syms(x, set()) <= al)))
            o = res.get(k)
            if o is not None:
                j = self.join(o[0], s)
                res[k] = (j, v if o[1] == v else ('s', 'unk', 0))
            else:
                res[k] = (s, v)
        out = []
        for s, v in res.values():
            s.tmp.pop(('rv', 0), None)
            out.append((s, v))
        return out

    def join(self, a, b):
        mem = {p: v for p, v in a.mem.items() if b.mem.get(p) == v}
        facts = {}
        for v, (l, h, n) in a.facts.items():
            if v in b.facts:
                l2, h2, n2 = b.facts[v]
                facts[v] = (min(l, l2), max(h, h2), n & n2)
        tmp = {p: v for p, v in a.tmp.items() if b.tmp.get(p) == v}
        return State(mem, facts, a.auto, tmp)

    def rpo(self, fn):
        r = self._rpo.get(fn.key)
        if r is None:
            order = []
            seen = {fn.entry}
            stack = [(fn.entry, iter(succs(fn.blocks[fn.entry])))]
            while stack:
                n, it = stack[-1]
                for x in it:
                    if x not in seen:
                        seen.add(x)
                        stack.append((x, iter(succs(fn.blocks[x]))))
                        break
                else:
                    order.append(n)
                    stack.pop()
            order.reverse()
            r = {n: i for i, n in enumerate(order)}
            self._rpo[fn.key] = r
        return r

    def mkey(self, st):
        """what keeps two states apart at a join: automaton state, tracked contents, boolean locals and what is known about them"""
        al = set()
        if isinstance(st.auto, tuple):
            syms(('x', st.auto), al)
        ms = []
        for p, v in st.mem.items():
            if p[0] == 'F' or v[0] == 'c' or v[0] == 'lam' or isbool(v):
                ms.append((p, v))
                syms(v, al)
        fs = [(v, r) for v, r in st.facts.items() if syms(v, set()) <= al]
        ex = self.cl.merge_key(self, st)
        return (st.auto, frozenset(ms), frozenset(fs), ex)

    def run(self, fn, fr, st0):
        order = self.rpo(fn)
        pend = {}
        heap = []
        seen = {}
        exits = []
        cnt = {}

        def push(bid, st):
            self.prune(st, fr, bid)
            if cnt.get(bid, 0) > self.cl.cap:
                k = ('w', st.auto)
                # widened: constants and facts are joined per automaton state
            else:
                k = self.mkey(st)
            d = seen.setdefault(bid, {})
            old = d.get(k)
            if old is not None:
                j = self.join(old, st)
                if j.key() == old.key():
                    return
                st = j
            else:
                cnt[bid] = cnt.get(bid, 0) + 1
                if cnt[bid] > 6 * self.cl.cap:
                    raise Limit('state limit exceeded in %s' % fn.bq)
            d[k] = st
            if (bid, k) not in pend:
                self.seq += 1
                heapq.heappush(heap, (order[bid], self.seq, bid, k))
            pend[(bid, k)] = st

        push(fn.entry, st0)
        while heap:
            _, _, bid, k = heapq.heappop(heap)
            st = pend.pop((bid, k))
            self.steps += 1
            if self.steps > self.cl.max_steps:
                raise Limit('step limit exceeded in %s' % fn.bq)
            b = fn.blocks[bid]
            states = [st.copy()]
            for op in b.ops:
                nxt = []
                for x in states:
                    r = self.step(x, op, fr)
                    if r is None:
                        nxt.append(x)
                    else:
                        nxt += r
                states = nxt
                if len(states) > 1:
                    states = self.dedup(states)
            t = b.term
            for x in states:
                if t[0] == 'goto':
                    push(t[1], x)
                elif t[0] == 'br':
                    v = self.val(x, t[1], fr)
                    for truth, tb in ((True, t[2]), (False, t[3])):
                        y = x.copy()
                        if y.refine(v, truth):
                            r = self.on_branch(y, v, truth, b, fr)
                            if r is not False:
                                push(tb, y)
                elif t[0] == 'sw':
                    v = self.val(x, t[1], fr)
                    rest = x.copy()
                    feas = True
                    for lo, hi, tb, _ in t[2]:
                        y = x.copy()
                        if lo == hi:
                            if y.refine(mkop('==', v, ('c', lo)), True):
                                push(tb, y)
                            if feas and not rest.refine(mkop('==', v, ('c', lo)), False):
                                feas = False
                        else:
                            if y.restrict(v, lo, hi, frozenset()):
                                push(tb, y)
                    if feas:
                        push(t[3], rest)
                elif t[0] == 'ret':
                    self.paths += 1
                    exits.append((x, self.val(x, t[1], fr) if t[1] is not None else None))
                elif t[0] in ('throw', 'unreach'):
                    pass
        return exits

    def on_branch(self, st, v, truth, b, fr):
        f = getattr(self.cl, 'on_branch', None)
        if f:
            return f(self, st, v, truth, b, fr)

    def dedup(self, states):
        ks = set()
        out = []
        for s in states:
            k = s.key()
            if k not in ks:
                ks.add(k)
                out.append(s)
        return out

    def step(self, st, op, fr):
        """returns None (st updated in place) or list of states"""
        k = op.k
        self.cl.on_op(self, st, op, fr)
        if k == 'ld':
            p = self.place(st, op.a, fr)
            st.tmp[(fr.fid, op.dst)] = self.load(st, p, op, fr)
            return None
        if k == 'store':
            v = self.val(st, op.b, fr)
            if v == ('s', 'unk', 0):
                v = self.fresh(st, 'st', op, fr)
            p = self.place(st, op.a, fr)
            self.store(st, p, v, op, fr)
            return None
        if k == 'bin':
            a, b = self.val(st, op.a, fr), self.val(st, op.b, fr)
            v = mkop(op.x, a, b)
            if vdepth(v) > 5:
                l, h, n = st.rng(v)
                v = self.fresh(st, 'bin', op, fr)
                if l != -INF or h != INF:
                    st.restrict(v, l, h, n)
            st.tmp[(fr.fid, op.dst)] = v
            return None
        if k == 'un':
            a = self.val(st, op.a, fr)
            if op.x == '!':
                v = mknot(a)
            elif op.x == 'nz':
                v = mknz(a)
            elif op.x == '-' and a[0] == 'c':
                v = ('c', -a[1])
            elif op.x == '~' and a[0] == 'c':
                v = ('c', ~a[1])
            else:
                v = ('op', 'u' + op.x, a, C0) if vdepth(a) < 5 else self.fresh(st, 'un', op, fr)
            st.tmp[(fr.fid, op.dst)] = v
            return None
        if k == 'cast' or k == 'dyncast':
            v = self.val(st, op.a, fr)
            if self.cl.truncates and k == 'cast' and (op.info or {}).get('from', '').replace('const ', '') in ('double', 'float') and not re.search('double|float', str(op.x)) and v[0] != 'c':
                v = ('op', 'trunc', v, C0)      # kept apart from the number it is cut from
            st.tmp[(fr.fid, op.dst)] = v
            return None
        if k == 'decl':
            p = ('L', fr.fid, op.a[1])
            st.mem.pop(p, None)
            for q in [q for q in st.mem if q[0] == 'F' and self.within(q, p)]:
                del st.mem[q]
            return None
        if k == 'lambda':
            caps = []
            for c in op.info['caps']:
                if c[0] == 'this':
                    caps.append(('this', fr.this))
                else:
                    caps.append((c[0], self.val(st, c[1], fr), c[2]))
            st.tmp[(fr.fid, op.dst)] = ('lam', op.x, tuple(caps))
            return None
        if k == 'call':
            return self.do_call(st, op, fr)
        if k == 'callv':
            return self.do_callv(st, op, fr)
        if k == 'new':
            v = self.fresh(st, 'new', op, fr)
            st.facts[v] = (1, INF, frozenset())
            args = [self.val(st, a, fr) for a in op.info['args']]
            r = self.cl.on_call(self, st, op, dict(op.info, q='new ' + op.info['t']), args, v, fr)
            key = op.info.get('key')
            if key in self.ir.prog.funcs and self.cl.inline(self, key, op.info):
                outs = self.call_fn(st, key, v, args, fr, op)
                if outs is not None:
                    res = []
                    for s, _ in outs:
                        s.tmp[(fr.fid, op.dst)] = v
                        s.facts[v] = (1, INF, frozenset())
                        res.append(s)
                    return res
            st.tmp[(fr.fid, op.dst)] = v
            return None
        if k in ('ctor', 'ctorval'):
            args = [self.val(st, a, fr) for a in op.info['args']]
            if k == 'ctorval' and len(args) == 1 and '__normal_iterator' in (op.info.get('t') or ''):
                st.tmp[(fr.fid, op.dst)] = args[0] if args[0][0] != 'addr' else self.load(st, args[0][1], op, fr)
                return None
            if k == 'ctor':
                p = self.place(st, op.a, fr)
                this = p[1] if p[0] == 'D' else ('addr', p)
                self.havoc_arg(st, ('addr', p))
            else:
                this = self.fresh(st, 'obj', op, fr)
                st.facts[this] = (1, INF, frozenset())
            r = self.cl.on_call(self, st, op, dict(op.info, q=op.info.get('q') or 'ctor'), args, this, fr)
            if r is not None:
                return self.finish(r, op, fr)
            key = op.info.get('key')
            for a in args:
                if a[0] != 'addr' or key in self.ir.prog.funcs:
                    self.havoc_nonconst(st, a, None)
            if k == 'ctor' and args and self.tracked_place(p):
                vs = tuple(self.load(st, a[1], op, fr) if a[0] == 'addr' and a[1][0] != 'G' else a for a in args)
                if all(vdepth(x) < 4 for x in vs):
                    st.mem[p] = ('mk',) + vs
            outs = None
            if key in self.ir.prog.funcs and self.cl.inline(self, key, op.info):
                outs = self.call_fn(st, key, this, args, fr, op)
            if outs is not None:
                res = []
                for s, _ in outs:
                    if op.dst is not None:
                        s.tmp[(fr.fid, op.dst)] = this
                    res.append(s)
                return res
            if op.dst is not None:
                st.tmp[(fr.fid, op.dst)] = this
            return None
        if k == 'dtor':
            for dk in self.dtor_keys(op.x):
                if self.cl.inline(self, dk, {}):
                    p = self.place(st, op.a, fr)
                    outs = self.call_fn(st, dk, ('addr', p), [], fr, op)
                    if outs is not None:
                        return [s for s, _ in outs]
            return None
        if k == 'delete':
            v = self.val(st, op.a, fr)
            r = self.cl.on_call(self, st, op, {'q': 'delete'}, [v], None, fr)
            st.tmp[(fr.fid, op.dst)] = ('s', 'unk', 0)
            return None
        if k in ('more', 'nondet'):
            st.tmp[(fr.fid, op.dst)] = v = self.fresh(st, 'nd', op, fr)
            self.cl.on_range(self, st, op, v, fr)
            return None
        if k in ('next', 'unknown'):
            st.tmp[(fr.fid, op.dst)] = v = self.fresh(st, 'next', op, fr)
            self.cl.on_range(self, st, op, v, fr)
            return None
        if k in ('share', 'throw'):
            return None
        raise AnalysisError('unhandled op %s' % k)

    def finish(self, outs, op, fr):
        res = []
        for s, v in outs:
            if op.dst is not None:
                s.tmp[(fr.fid, op.dst)] = v
            res.append(s)
        return res

    def havoc_nonconst(self, st, v, t):
        if t is not None and is_ref(t) and t.startswith('const '):
            return
        if t is not None and t.startswith('const ') and t.endswith('*'):
            return
        self.havoc_arg(st, v)

    def do_call(self, st, op, fr):
        info = op.info
        args = [self.val(st, a, fr) for a in info['args']]
        obj = None
        if info.get('obj') is not None:
            p = self.place(st, info['obj'], fr)
            obj = p[1] if p[0] == 'D' else ('addr', p)
        r = self.cl.on_call(self, st, op, info, args, obj, fr)
        if r is not None:
            return self.finish(r, op, fr)
        m = info['q'].rsplit('::', 1)[-1]
        ts = self.ir.targets(info)
        if obj is not None and len(ts) == 1 and self.ir.prog.funcs.get(ts[0], {}).get('lambda'):
            # a local function object called by name
            lv = st.mem.get(obj[1]) if obj[0] == 'addr' else (obj if obj[0] == 'lam' else None)
            if lv is not None and lv[0] == 'lam':
                if not self.lam_relevant(lv) and self.size(lv[1]) > 60:
                    self.unknown_call(st, ts, args, None, info, op, fr)
                    st.tmp[(fr.fid, op.dst)] = self.retsym(st, op, fr, info)
                    return None
                self.ran_lams.add(lv[1])
                outs = self.call_fn(st, lv[1], None, args, fr, op, caps=lv[2])
                if outs is not None:
                    return self.finish(outs, op, fr)
        if not ts and not args and obj is not None and m in ACCESS:
            base = obj[1] if obj[0] == 'addr' else ('D', obj)
            v = st.mem.get(base)
            if v is None and self.tracked_place(base):
                v = self.fresh(st, 'cont', op, fr)
                st.mem[base] = v
            if v is not None and vdepth(v) < 5:
                st.tmp[(fr.fid, op.dst)] = ('op', 'call.' + ACCESS[m], v, C0)
                return None
        if (not ts or self.cl.opaque and self.ir.cls_of(ts[0]) in self.cl.opaque) and m == 'operator=' and len(args) == 1 and obj is not None and obj[0] == 'addr' and self.tracked_place(obj[1]):
            v = args[0]
            if v[0] == 'addr':
                v = self.load(st, v[1], op, fr)
            for q in [q for q in st.mem if q[0] == 'F' and self.within(q, obj[1])]:
                del st.mem[q]
            self.store(st, obj[1], v, op, fr)
            st.tmp[(fr.fid, op.dst)] = obj
            return None
        if platform(info) or base_q(info['q']) in self.cl.async_calls:
            self.unknown_call(st, [], args, None, info, op, fr)
            st.tmp[(fr.fid, op.dst)] = self.retsym(st, op, fr, info)
            return None
        res = []
        if ts and len(ts) <= 4 and any(self.cl.inline(self, t, info) for t in ts):
            for t in ts:
                if self.cl.inline(self, t, info):
                    outs = self.call_fn(st, t, obj, args, fr, op)
                    if outs is None:
                        self.trunc.append((base_q(info['q']), fr.fn.bq))
                        s = st.copy()
                        self.unknown_call(s, [t], args, obj, info, op, fr)
                        outs = [(s, self.retsym(s, op, fr, info))]
                    res += outs
                else:
                    s = st.copy()
                    self.unknown_call(s, [t], args, obj, info, op, fr)
                    res.append((s, self.retsym(s, op, fr, info)))
            return self.finish(res, op, fr)
        self.unknown_call(st, ts, args, obj, info, op, fr)
        st.tmp[(fr.fid, op.dst)] = self.retsym(st, op, fr, info)
        return None

    def unknown_call(self, st, ts, args, obj, info, op, fr):
        self.havoc_call(st, ts, args, info, fr)
        if not ts and obj is not None and not info.get('const'):
            self.havoc_arg(st, obj)
        for i, a in enumerate(args):
            if a[0] == 'lam':
                self.defer(st, op, info, i, a, fr)

    def lam_relevant(self, lam):
        return lam[1] in self.force or self.relevant(lam[1]) or any(c[1][0] == 'lam' and self.lam_relevant(c[1]) for c in lam[2])

    def defer(self, st, op, info, i, lam, fr):
        """run a handed-over function object in a side state: time has passed, only captured values remain"""
        if not self.lam_relevant(lam):
            return
        if self.onstack(fr, lam[1]):
            return
        s = st.copy()
        if self.calls_at_once(info):
            # the callee runs it before it returns: no time passes; earlier runs of it are covered by what was forgotten at the call
            r = self.cl.on_sync(self, s, op, info, i, lam, fr)
        else:
            self.havoc_fields(s)
            r = self.cl.on_defer(self, s, op, info, i, lam, fr)
        if r is None:
            return
        s, args = r
        fn = self.ir.fn(lam[1])
        if args is None:
            args = []
        for j in range(len(args), len(fn.params)):
            args.append(('s', 'bool' if fn.params[j]['t'] == 'bool' else 'larg', self.site(op, fr), j))
        self.ran_lams.add(lam[1])
        self.call_fn(s, lam[1], None, args, fr, op, caps=lam[2])

    def calls_at_once(self, info):
        if not info.get('q') or 'place' in info or platform(info) or base_q(info['q']) in self.cl.async_calls:
            return False
        ts = self.ir.targets(info)
        return bool(ts) and all(self.callkind(t) == 1 for t in ts)

    def extensible(self, info):
        return False

    def retsym(self, st, op, fr, info):
        return self.fresh(st, 'bool' if info.get('t') == 'bool' else 'ret', op, fr)

    def havoc_call(self, st, ts, args, info, fr):
        wr = set()
        anyv = False
        for t in ts:
            c = self.closure(t)
            wr |= c[2]
            if c[4] and self.callkind(t) == 1 and any(a[0] == 'lam' for a in args):
                # only what was given is called
                for a in args:
                    if a[0] == 'lam':
                        l = self.closure(a[1])
                        wr |= l[2]
                        anyv = anyv or l[4]
            else:
                anyv = anyv or c[4]
        if wr:
            self.havoc_fields(st, wr)
        if anyv:
            self.havoc_fields(st)
        pts = info.get('pts') or []
        for i, a in enumerate(args):
            self.havoc_nonconst(st, a, pts[i] if i < len(pts) else None)

    def do_callv(self, st, op, fr):
        fv = self.val(st, op.a, fr)
        args = [self.val(st, a, fr) for a in op.info['args']]
        r = self.cl.on_callv(self, st, op, fv, args, fr)
        if r is not None:
            return self.finish(r, op, fr)
        if fv[0] == 'lam':
            self.ran_lams.add(fv[1])
            outs = self.call_fn(st, fv[1], None, args, fr, op, caps=fv[2])
            if outs is not None:
                return self.finish(outs, op, fr)
        # unknown callback: may re-enter the library
        self.havoc_fields(st)
        for i, a in enumerate(args):
            self.havoc_arg(st, a)
            if a[0] == 'lam':
                self.defer(st, op, op.info, i, a, fr)
        st.tmp[(fr.fid, op.dst)] = self.fresh(st, 'bool' if op.info.get('t') == 'bool' else 'ret', op, fr)
        return None

    # ---- entry
    def entry(self, fn, st=None, this=None, args=None):
        st = st or State()
        if this is None:
            this = ('s', 'this', 0)
        st.facts[this] = (1, INF, frozenset())
        if args is None:
            args = []
            for i, p in enumerate(fn.params):
                args.append(('s', 'bool' if p['t'] == 'bool' else 'arg', i))
        r = self.call_fn(st, fn.key, this, args, None, None)
        if r is None:
            raise AnalysisError('cannot analyse %s' % fn.bq)
        return r

    def fail(self, fr, line, msg):
        if DEBUG:
            f = sys._getframe(1)
            while f and 'st' not in f.f_locals:
                f = f.f_back
            print('--- FAIL', fr.fn.bq[-80:], line, msg)
            for x in (f.f_locals['st'].auto or ()) if f else ():
                print('   M', x, f.f_locals['st'].facts.get(x[-1]))
            for q, v in f.f_locals['st'].mem.items():
                print('   F', q, v, f.f_locals['st'].facts.get(v))
        self.failures.append((fr.fn.key, line, msg, tuple(fr.stack())))


class Callers:
    """who calls, creates or refers to each function"""
    def __init__(self, ir):
        self.ir = ir
        self.by = {}
        self.parent = {}
        for fn in ir.all():
            for b in fn.blocks:
                if b.id not in fn.reach:
                    continue
                for o in b.ops:
                    if o.k == 'call':
                        for t in ir.targets(o.info):
                            self.by.setdefault(t, set()).add(fn.key)
                    elif o.k in ('new', 'ctor', 'ctorval'):
                        if o.info.get('key') in ir.prog.funcs:
                            self.by.setdefault(o.info['key'], set()).add(fn.key)
                    elif o.k == 'lambda':
                        self.parent[o.x] = fn.key

    def of(self, key):
        if key in self.parent:
            return {self.parent[key]}
        return self.by.get(key, set())

    def is_api(self, key):
        """callable from outside the library: public member of a class declared under include/"""
        m = self.ir.method.get(key)
        if m is None or m['access'] != 'public':
            return False
        fn = self.ir.fn(key)
        c = self.ir.prog.classes.get(self.ir.prog.funcs[key].get('cls') or '')
        return bool(c) and c['file'].startswith('include/')


def discharge(ir, callers, make, starts, max_up=6, entry_state=None, internal=frozenset()):
    """Obligation lifting: every function that contains an event is analysed on its own; an obligation that is
    not discharged there is looked at again in each caller, with the callee followed, until it is discharged
    or an entry point of the library is reached.  Returns (failures, statistics)."""
    fails = []
    stat = dict(roots=0, runs=0, steps=0, events=0, functions=set(), lifted=0)
    done = {}

    def attempt(key, force):
        k = (key, force)
        if k in done:
            return done[k]
        cl = make()
        I = Interp(ir, cl)
        I.callers = callers
        I.force = set(force)
        fn = ir.fn(key)
        I.entry(fn, st=entry_state(cl, fn) if entry_state else None)
        stat['runs'] += 1
        stat['steps'] += I.steps
        stat['functions'] |= I.visited_fns
        stat['events'] += getattr(cl, 'nevents', 0)
        done[k] = I
        return I

    def lift(key, chain, below=()):
        fn = ir.fn(key)
        force = frozenset(chain)
        if fn.is_lambda:
            I = None
            up = callers.of(key)
            if not up:
                fails.append((key, fn.line, 'function object with no known creator', (fn.bq,)))
                return
        else:
            try:
                I = attempt(key, force)
            except Limit as e:
                if not chain:
                    raise
                # too large to look at from here: what was not discharged below stays undischarged
                stat['limits'] = stat.get('limits', 0) + 1
                fails.extend(below or [(chain[-1], ir.fn(chain[-1]).line, 'obligation could not be followed further up: %s' % e, (fn.bq,))])
                return
            fs = [f for f in I.failures]
            for c in chain:
                cf = ir.fn(c)
                if cf.is_lambda and c not in I.ran_lams and callers.of(c) == {key}:
                    fs.append((c, cf.line, 'this function object could not be followed from its creator', (cf.bq, fn.bq)))
            if not fs:
                return
            up = callers.of(key) - set(chain)
            if (callers.is_api(key) and key not in internal) or not up or len(chain) >= max_up:
                fails.extend(fs)
                return
        stat['lifted'] += 1
        for u in sorted(up):
            lift(u, chain + (key,), below if fn.is_lambda else tuple(fs))

    for s in sorted(starts):
        stat['roots'] += 1
        lift(s, ())
    uniq = {}
    for f in fails:
        uniq.setdefault((f[0], f[1], f[2]), f)
    stat['functions'] = len(stat['functions'])
    return list(uniq.values()), stat


def functions_with(ir, pred):
    """functions that contain an operation satisfying pred(fn, op)"""
    out = set()
    for fn in ir.all():
        for b in fn.blocks:
            if b.id in fn.reach and any(pred(fn, o) for o in b.ops):
                out.add(fn.key)
                break
    return out
