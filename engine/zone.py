"""Relational abstract interpretation of byte ranges.

A state is a conjunction of linear inequalities over immutable symbols plus a memory that maps
locations to linear forms of those symbols.  Loops are solved by guessing candidate inequalities
over the locations the loop changes and keeping those every iteration preserves; calls are
answered from summaries (the projected exit states of the callee) or, for helpers whose
parameters do not state a byte range by themselves, by analysing the body in the caller's state.
Nothing is executed and no solver is asked: an inequality counts as shown only if it is a
non-negative combination of known ones.
"""
import re
from facts import AnalysisError
import ir as irm

INF = 1 << 200
PMAX = 1 << 61          # objects lie below this address and are smaller than this
PTOP = (1 << 63) - 1    # what an address computed from such can be

# ---- symbols and linear forms -------------------------------------------------------------
_ids = {}
NAMES = []
RLO = []
RHI = []


def sym(name, lo=-INF, hi=INF):
    i = _ids.get(name)
    if i is None:
        i = len(NAMES)
        _ids[name] = i
        NAMES.append(name)
        RLO.append(lo)
        RHI.append(hi)
    return i


# Lin: ('L', k, ((sym, coef), ...))
def K(k):
    return ('L', k, ())


def S(i):
    return ('L', 0, ((i, 1),))


def add(a, b, m=1):
    if not b[2]:
        return ('L', a[1] + m * b[1], a[2])
    if not a[2] and m == 1:
        return ('L', a[1] + b[1], b[2])
    d = dict(a[2])
    for s, c in b[2]:
        v = d.get(s, 0) + m * c
        if v:
            d[s] = v
        else:
            d.pop(s, None)
    return ('L', a[1] + m * b[1], tuple(sorted(d.items())))


def sub(a, b):
    return add(a, b, -1)


def scale(a, m):
    if m == 0:
        return K(0)
    return ('L', a[1] * m, tuple((s, c * m) for s, c in a[2]))


def is_lin(v):
    return v is not None and v[0] == 'L'


def rng(e):
    lo = hi = e[1]
    for s, c in e[2]:
        if c > 0:
            lo += c * RLO[s]
            hi += c * RHI[s]
        else:
            lo += c * RHI[s]
            hi += c * RLO[s]
    return max(lo, -INF), min(hi, INF)


def norm(e):
    """the inequality e >= 0 with coprime coefficients"""
    from math import gcd
    g = 0
    for s, c in e[2]:
        g = gcd(g, c)
    if g > 1:
        return ('L', e[1] // g, tuple((s, c // g) for s, c in e[2]))
    return e


def show(e):
    if e is None:
        return '?'
    if e[0] != 'L':
        return str(e)[:80]
    out = []
    for s, c in e[2]:
        out.append('%s%s' % ('' if c == 1 else '-' if c == -1 else '%d*' % c, nick(NAMES[s])))
    if e[1] or not out:
        out.append(str(e[1]))
    return ' + '.join(out)


def nick(n):
    if not isinstance(n, tuple):
        return str(n)
    if n[0] == 'p':
        return 'p%d' % n[2]
    if n[0] in ('rv', 'o'):
        return n[0] + ''.join(str(x) for x in n[2:])
    if n[0] == 'i':
        return 'init(%s)' % nickloc(n[2])
    if len(n) > 1 and n[1] == 'loop':
        return 'loop(%s)' % nickloc(n[3])
    if len(n) > 1 and n[1] == 'phi':
        return 'phi(%s)' % nickloc(n[3])
    return '/'.join(str(x) for x in n[1:])[-50:]


def nickloc(l):
    if l[0] == 'v':
        return str(l[2]).split('@')[0]
    if l[0] == 'F':
        return nickloc(l[1]) + '.' + str(l[2]).split('::')[-1]
    if l[0] == 'D':
        return '*' + show(l[1])
    return str(l)[:40]


DBG = None
EFFORT = [6, 400, 2]


class Infeasible(Exception):
    pass


class TooHard(AnalysisError):
    pass


class St:
    __slots__ = ('mem', 'facts', 'regions', 'epoch', 'idx', 'imps')

    def __init__(self):
        self.mem = {}
        self.facts = frozenset()
        self.regions = ()
        self.epoch = 0
        self.idx = None
        self.imps = frozenset()     # (s, e): s is 0, or e >= 0

    def copy(self):
        n = St.__new__(St)
        n.mem = dict(self.mem)
        n.facts = self.facts
        n.regions = self.regions
        n.epoch = self.epoch
        n.idx = self.idx
        n.imps = self.imps
        return n

    def sat(self):
        for i in sorted(self.imps):
            if self.prove(add(S(i[0]), K(-1))):
                self.imps = self.imps - {i}
                self.assume(i[1])

    def implied(self, g, e):
        """g is 0, or e >= 0 (g is never negative)"""
        if not is_lin(g) or not is_lin(e):
            return False
        if self.prove(scale(g, -1)) or self.prove(e):
            return True
        return g[1] == 0 and len(g[2]) == 1 and g[2][0][1] == 1 and (g[2][0][0], norm(e)) in self.imps

    def key(self):
        return (frozenset(self.mem.items()), self.facts, frozenset(self.regions), self.epoch, self.imps)

    def index(self):
        if self.idx is None:
            d = {}
            for f in sorted(self.facts, key=lambda f: (len(f[2]), f)):
                for s, c in f[2]:
                    d.setdefault((s, c > 0), []).append(f)
            self.idx = d
        return self.idx

    def prove(self, e, depth=None):
        """e >= 0 follows from the facts"""
        ix = self.index()
        seen = {}
        limit, most = EFFORT[1], EFFORT[2]
        if depth is None:
            depth = EFFORT[0]

        def go(e, depth):
            tot = e[1]
            worst = []
            for s, c in e[2]:
                v = c * (RLO[s] if c > 0 else RHI[s])
                tot += v
                worst.append((v, s, c))
            if tot >= 0:
                return True
            if depth == 0:
                return False
            if seen.get(e, -1) >= depth:
                return False
            seen[e] = depth
            if len(seen) > limit:
                return False
            worst.sort()
            tries = 0
            for v, s, c in worst:
                fs = ix.get((s, c > 0))
                if not fs:
                    if v <= -INF:
                        return False
                    continue
                tries += 1
                for f in fs:
                    fc = dict(f[2])[s]
                    # e' = |fc| * e - |c| * f
                    if fc == c:
                        e2 = add(e, f, -1)
                    elif abs(fc) == 1:
                        e2 = add(e, f, -abs(c))
                    else:
                        e2 = norm(add(scale(e, abs(fc)), f, -abs(c)))
                    if len(e2[2]) > 6:
                        continue
                    if go(e2, depth - 1):
                        return True
                if v <= -(1 << 63) or tries >= most:
                    return False
            return False
        # near answers first
        for d in (2, 4, depth) if depth > 4 else (2, depth):
            seen.clear()
            if go(e, d):
                return True
        return False

    def assume(self, e):
        """adds e >= 0; raises Infeasible"""
        e = norm(e)
        lo, hi = rng(e)
        if lo >= 0:
            return
        if hi < 0:
            raise Infeasible()
        if e in self.facts:
            return
        if self.prove(('L', -e[1] - 1, tuple((s, -c) for s, c in e[2]))):
            raise Infeasible()
        if self.prove(e, 4):
            return
        # drop a weaker fact over the same form
        weaker = [f for f in self.facts if f[2] == e[2] and f[1] >= e[1]]
        self.facts = (self.facts - frozenset(weaker)) | {e}
        self.idx = None

    def eq(self, a, b):
        d = sub(a, b)
        self.assume(d)
        self.assume(scale(d, -1))

    def possible(self, e):
        """can e >= 0 hold?"""
        return not self.prove(('L', -e[1] - 1, tuple((s, -c) for s, c in e[2])))


INT = {'bool': (0, 1), 'char': (-128, 127), 'signed char': (-128, 127), 'unsigned char': (0, 255), 'short': (-32768, 32767),
       'unsigned short': (0, 65535), 'int': (-(1 << 31), (1 << 31) - 1), 'unsigned int': (0, (1 << 32) - 1), 'unsigned': (0, (1 << 32) - 1),
       'long': (-(1 << 63), (1 << 63) - 1), 'unsigned long': (0, (1 << 64) - 1), 'long long': (-(1 << 63), (1 << 63) - 1),
       'unsigned long long': (0, (1 << 64) - 1)}
CV = re.compile(r'\b(const|volatile)\b ?')


def plain(t):
    t = irm.noref(t or '')
    if t.endswith('*') or t.endswith('*const') or t.endswith('* const'):
        return t
    return CV.sub('', t).strip()


def trange(t):
    t = plain(t)
    r = INT.get(t)
    if r:
        return r
    if t.endswith('*') or t.endswith('*const') or t.endswith('* const') or irm.is_sp(t) or irm.is_fn(t):
        return (0, PTOP)
    return (-INF, INF)


def orange(t):
    """the values something unknown of this type can have: an address is that of an object"""
    r = trange(t)
    return (0, PMAX) if r == (0, PTOP) and not INT.get(plain(t)) else r


BP = re.compile(r'^(const )?(unsigned char|void) ?\*( ?const)?$')
CBP = re.compile(r'^const (unsigned char|void) ?\*( ?const)?$')
UCH = re.compile(r'^(const )?unsigned char$')
ARR = re.compile(r'^(const )?(unsigned char|char)\[(\d+)\]$')
BPP = re.compile(r'^(const )?unsigned char \*( ?\*|&| ?\*const)$')
VEC = re.compile(r'^(const )?(std::vector<unsigned char|std::basic_string<char|std::string)')
SZ = ('unsigned long', 'unsigned int', 'int', 'long', 'unsigned short')


def is_bytes(t):
    return bool(VEC.match(irm.noref(t or '')))


class Frame:
    __slots__ = ('fn', 'id', 'caps', 'up', 'live', 'cross', 'types', 'depth')

    def __init__(self, fn, fid, up=None):
        self.fn = fn
        self.id = fid
        self.caps = {}
        self.up = up
        self.depth = 0 if up is None else up.depth + 1


class Zone:
    """the interpreter; subclass hooks: contract(), obligation()"""
    MAXST = 16
    MAXDEPTH = 6

    def __init__(self, ctx):
        self.ctx = ctx
        self.ir = ctx.ir
        self.recording = 1
        self.viols = {}
        self.nobl = 0
        self.oblkeys = set()
        self.sums = {}
        self.inprog = []
        self._shape = {}
        self.root = None
        self.steps = 0
        self.frames = {}
        self.reads = True
        self.writes = False

    # -- naming
    def fresh(self, fr, tag, t=None, lo=None, hi=None):
        r = orange(t) if t is not None else (-INF, INF)
        return S(sym((fr.id, tag, r), r[0] if lo is None else lo, r[1] if hi is None else hi))

    def fresh_r(self, fr, tag, lo, hi):
        return S(sym((fr.id, tag, lo, hi), lo, hi))

    # -- shapes of functions: order of blocks, loops, liveness
    def shape(self, fn):
        s = self._shape.get(fn.key)
        if s is None:
            s = self._shape[fn.key] = Shape(fn)
        return s

    # -- places
    def loc(self, st, p, fr):
        k = p[0]
        if k == 'var':
            v = p[1]
            if v.startswith(('g:', 's:')):
                return ('g', v)
            f = fr
            while f is not None:
                if v in f.caps:
                    return f.caps[v]
                if v in f.fn.vartypes or v.startswith('$'):
                    return ('v', f.id, v)
                f = f.up if f.fn.is_lambda and f.up is not None else None
            return ('v', fr.id, v)
        if k == 'fld':
            return ('F', self.loc(st, p[1], fr), p[2])
        if k == 'deref':
            v = self.val(st, p[1], fr)
            return self.ptr_loc(v)
        if k == 'elem':
            v = self.val(st, p[1], fr)
            i = self.val(st, p[2], fr)
            if v is not None and v[0] == 'addr':
                return ('E', v[1], i if is_lin(i) else None)
            if is_lin(v) and is_lin(i):
                return ('X', v, i)
            return ('X', v if is_lin(v) else None, None)
        if k == 'tmp':
            v = self.val(st, p[1], fr)
            if v is not None and v[0] in ('addr', 'cp'):
                return v[1]
            return ('T', fr.id, p[1])
        return ('T', fr.id, p)

    def ptr_loc(self, v):
        if v is None:
            return ('D', None)
        if v[0] in ('addr', 'cp'):
            return v[1]
        return ('D', v)

    def local(self, l):
        while l[0] in ('F', 'E') and isinstance(l[1], tuple):
            l = l[1]
        return l[0] in ('v', 'T', 'O')

    def arrtype(self, p, fr):
        if p[0] == 'var':
            f = fr
            while f is not None:
                t = f.fn.vartypes.get(p[1])
                if t:
                    return t
                f = f.up
            return None
        if p[0] == 'fld':
            d = self.ir.fields.get(p[2])
            return d['t'] if d else None
        return None

    def array(self, st, l, n):
        """the address of a local or member byte array: a region of its own"""
        a = S(sym(('arr', l), 1, PMAX))
        self.region(st, a, add(a, K(n)))
        return a

    def region(self, st, lo, hi):
        r = (lo, hi)
        if r not in st.regions:
            st.regions = st.regions + (r,)

    # -- values
    def val(self, st, o, fr):
        k = o[0]
        if k == 't':
            return st.mem.get(('t', fr.id, o[1]))
        if k == 'c':
            return K(o[1])
        if k == 'null':
            return K(0)
        if k == 'addr':
            p = o[1]
            t = self.arrtype(p, fr)
            m = ARR.match(t or '')
            if m:
                return self.array(st, self.loc(st, p, fr), int(m.group(3)))
            if p[0] == 'elem':
                b = self.val(st, p[1], fr)
                i = self.val(st, p[2], fr)
                if is_lin(b) and is_lin(i):
                    return add(b, i)
            return ('addr', self.loc(st, p, fr))
        if k == 'this':
            f = fr
            while f is not None and 'this' not in f.caps and f.fn.is_lambda and f.up is not None:
                f = f.up
            if 'this' in f.caps:
                return f.caps['this']
            return S(sym(('this', f.id), 1, PMAX))
        if k == 'str':
            n = len(o[1]) + 1
            a = S(sym(('str', o[1]), 1, PMAX))
            self.region(st, a, add(a, K(n)))
            return a
        return None

    def num(self, st, o, fr, tag, t=None):
        """the operand as a linear form (fresh if it is nothing known)"""
        v = self.val(st, o, fr)
        return self.tonum(st, v, fr, tag, t)

    def tonum(self, st, v, fr, tag, t=None):
        if is_lin(v):
            return v
        if v is not None and v[0] == 'cmp':
            return self.fresh_r(fr, ('b', tag), 0, 1)
        if v is not None and v[0] == 'addr':
            return S(sym(('addr', v[1]), 1, PMAX))
        return self.fresh(fr, ('n', tag), t)

    def load(self, st, l, t, fr, tag):
        if l[0] == 'E':
            # elements of local arrays are not tracked
            return self.fresh(fr, ('e', tag), t)
        if l[0] in ('X',):
            return self.fresh(fr, ('x', tag), t)
        v = st.mem.get(l)
        if v is not None:
            return v
        if l[0] == 'D' and l[1] is None:
            return self.fresh(fr, ('d', tag), t)
        tt = irm.noref(t or '')
        if tt and tt != 'ref' and not irm.is_scalar(tt) and not irm.is_sp(tt) and not irm.is_fn(tt) and not tt.startswith('enum'):
            if tt.startswith(('std::', 'com::', 'const std::', 'const com::')) and not re.search(r'::\w*(Type|Order|State|Code|Mode)\b', tt):
                return ('cp', l)
        r = orange(t) if t != 'ref' else (1, PMAX)
        if l[0] == 'F' and plain(t or '') == 'unsigned long':
            r = (0, PMAX)      # a size kept in a member
        ep = 0 if self.local(l) else st.epoch
        if UCH.match(tt) and l[0] == 'D':
            # a byte of the input
            return self.fresh(fr, ('byte', tag), t)
        v = S(sym(('i', ep, l, r), r[0], r[1]))
        st.mem[l] = v
        return v

    def store(self, st, l, v, fr, tag):
        if l[0] in ('E', 'X') or (l[0] == 'D' and l[1] is None):
            return
        if v is None:
            v = self.fresh(fr, ('s', tag))
        for k in [k for k in st.mem if k[0] == 'F' and self.within(k, l)]:
            del st.mem[k]
        if v[0] == 'cp':
            src = v[1]
            for n in ('#d', '#n'):
                x = st.mem.get(('F', src, n))
                if n == '#n' and x is None:
                    x = self.csize(st, src)
                if n == '#n':
                    st.mem[('F', l, n)] = x
            st.mem.pop(l, None)
            self.newdata(st, l, fr, tag)
            return
        st.mem[l] = v

    def within(self, k, l):
        while isinstance(k, tuple) and k[0] in ('F', 'E'):
            k = k[1]
            if k == l:
                return True
        return False

    # -- containers of bytes
    def csize(self, st, l):
        k = ('F', l, '#n')
        v = st.mem.get(k)
        if v is None:
            v = S(sym(('i', st.epoch if not self.local(l) else 0, k), 0, PMAX))
            st.mem[k] = v
        return v

    def cdata(self, st, l):
        k = ('F', l, '#d')
        v = st.mem.get(k)
        if v is None:
            v = S(sym(('i', st.epoch if not self.local(l) else 0, k), 0, PMAX))
            st.mem[k] = v
        n = self.csize(st, l)
        self.region(st, v, add(v, n))
        return v

    def newdata(self, st, l, fr, tag):
        st.mem[('F', l, '#d')] = self.fresh_r(fr, ('data', tag), 0, PMAX)

    def setsize(self, st, l, n, fr, tag):
        self.newdata(st, l, fr, tag)
        st.mem[('F', l, '#n')] = n if n is not None else self.fresh_r(fr, ('size', tag), 0, PMAX)

    # -- forgetting
    def havoc_loc(self, st, l, fr, tag):
        """everything at and below a location becomes unknown"""
        if l is None:
            return
        known = l in st.mem
        old = st.mem.get(l)
        for k in [k for k in st.mem if k[0] == 'F' and self.within(k, l)]:
            st.mem[k] = self.fresh_r(fr, ('hv', tag, k[2]), RLOof(st.mem[k]), RHIof(st.mem[k])) if k[2] in ('#n', '#d') else self.fresh(fr, ('hv', tag, k[2]))
        t = None
        if is_lin(old) and len(old[2]) == 1 and old[1] == 0:
            s = old[2][0][0]
            st.mem[l] = self.fresh_r(fr, ('hv', tag, l), RLO[s], RHI[s])
        else:
            t = self.loctype(l, fr)
            r = trange(t) if t else (-INF, INF)
            st.mem[l] = self.fresh_r(fr, ('hv', tag, l), r[0], r[1])

    def loctype(self, l, fr):
        if l[0] == 'v':
            f = fr
            while f is not None:
                if f.id == l[1]:
                    return f.fn.vartypes.get(l[2])
                f = f.up
        if l[0] == 'F':
            d = self.ir.fields.get(l[2])
            return d['t'] if d else None
        return None

    def havoc_heap(self, st, fr, tag):
        keep = {}
        for k, v in st.mem.items():
            if k[0] == 't' or self.local(k):
                keep[k] = v
                continue
            b = k
            while b[0] in ('F', 'E') and isinstance(b[1], tuple):
                if b[0] == 'F' and b[2] in self.immut():
                    keep[k] = v
                    break
                b = b[1]
            else:
                # what a parameter of the function under analysis points to changes only through that parameter
                if b[0] == 'D' and is_lin(b[1]) and b[1][1] == 0 and len(b[1][2]) == 1 and NAMES[b[1][2][0][0]][0] == 'p' and k[0] == 'D':
                    keep[k] = v
        st.mem = keep
        st.epoch = (fr.id, tag)

    def immut(self):
        return self.ir.immutable_fields()

    # -- conditions
    def assume(self, st, v, truth):
        """list of states in which the value is (un)true"""
        if v is None:
            return [st.copy(), ] if truth is None else [st]
        if v[0] == 'L':
            v = ('cmp', '!=', v, K(0))
        if v[0] in ('addr', 'cp'):
            return [st] if truth else []
        if v[0] == 'cmp':
            op, a, b = v[1], v[2], v[3]
            if not truth:
                op = {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}[op]
            d = sub(a, b)
            try:
                if op == '<':
                    st.assume(add(scale(d, -1), K(-1)))
                elif op == '<=':
                    st.assume(scale(d, -1))
                elif op == '>':
                    st.assume(add(d, K(-1)))
                elif op == '>=':
                    st.assume(d)
                elif op == '==':
                    st.assume(d)
                    st.assume(scale(d, -1))
                else:
                    if st.prove(d):
                        st.assume(add(d, K(-1)))
                    elif st.prove(scale(d, -1)):
                        st.assume(add(scale(d, -1), K(-1)))
                    else:
                        if not self.matters(st, d):
                            return [st]
                        out = []
                        for e in (add(d, K(-1)), add(scale(d, -1), K(-1))):
                            s2 = st.copy()
                            try:
                                s2.assume(e)
                                out.append(s2)
                            except Infeasible:
                                pass
                        return out
            except Infeasible:
                return []
            return [st]
        return [st]

    def matters(self, st, d):
        return len(d[2]) <= 2

    # -- obligations
    def readable(self, st, p, n, strict=True):
        """the n bytes at p lie inside one known region (or n is 0)"""
        if st.prove(scale(n, -1)):
            return True
        if st.imps:
            st.sat()
            for g in sorted({i[0] for i in st.imps}):
                if any(x == g for x, c in n[2]):
                    # the length is 0, or what goes with it is known
                    for e in (scale(S(g), -1), add(S(g), K(-1))):
                        s2 = st.copy()
                        s2.imps = frozenset(i for i in st.imps if i[0] != g)
                        try:
                            s2.assume(e)
                            for i in sorted(st.imps):
                                if i[0] == g and e[1] == -1:
                                    s2.assume(i[1])
                        except Infeasible:
                            continue
                        if not self.readable(s2, p, n):
                            return False
                    return True
        end = add(p, n)
        for lo, hi in st.regions:
            if st.prove(sub(p, lo)) and st.prove(sub(hi, end)):
                return True
        return False

    def own(self, p):
        """the function's own scratch array, or an object of the library: not bytes it was given"""
        if p is None or p[0] == 'addr':
            return True
        return is_lin(p) and any(self.ownsym(NAMES[s]) for s, c in p[2] if c > 0)

    def ownsym(self, n):
        if n[0] == 'p' and isinstance(n[1], str):
            fn = self.ir.fn(n[1])
            t = fn.params[n[2]]['t'] if fn is not None else ''
            return plain(t).endswith('*') and not BP.match(plain(t)) and not BPP.match(t.strip()) and 'char' not in t
        if n[0] == 'i' and n[2][0] == 'F' and n[2][2] != '#d' and not self.local(n[2]):
            return True        # a buffer the object keeps a pointer to
        if n[0] in ('arr', 'addr', 'this', 'str', 'own'):
            return True
        return isinstance(n, tuple) and len(n) > 1 and isinstance(n[1], tuple) and n[1][0] == 'own'

    def check_read(self, st, p, n, fr, l, what):
        if self.own(p) or p == K(0) and what in ('source of a copy', 'comparison of byte ranges'):
            return True
        if self.exempt(fr.fn):
            return True
        self.oblkeys.add((self.base_fn(fr).key, l, what))
        if is_lin(p) and is_lin(n):
            ok = self.readable(st, p, n)
        else:
            ok = False
        if not self.recording:
            return ok
        self.nobl += 1
        if not ok:
            self.fail(st, fr, l, what, 'at %s, %s bytes; known ranges: %s' % (show(p), show(n), '; '.join('[%s, %s)' % (show(a), show(b)) for a, b in st.regions[:6])))
        return ok

    def exempt(self, fn):
        return False

    def base_fn(self, fr):
        return fr.fn

    def fail(self, st, fr, l, what, detail):
        chain = []
        f = fr
        while f is not None:
            chain.append(f.fn.bq)
            f = f.up
        self.viols.setdefault((self.root.key, fr.fn.key, l, what), (detail, chain, st))

    # -- contracts by parameter types
    def pairs(self, ts, names=None):
        """(kind, i, j) of the byte ranges a parameter list states"""
        out = []
        i = 0
        n = len(ts)
        used = set()
        while i < n:
            t = plain(ts[i]) if not irm.is_ref(ts[i]) else ts[i].strip()
            nx = plain(ts[i + 1]) if i + 1 < n and not irm.is_ref(ts[i + 1]) else ''
            if CBP.match(t) and CBP.match(nx):
                out.append(('rng', i, i + 1))
                i += 2
                continue
            if CBP.match(t) and nx in SZ:
                out.append(('len', i, i + 1))
                i += 2
                continue
            if BPP.match(t) and CBP.match(nx) and not self.outlike(ts, i):
                out.append(('cur', i, i + 1))
                i += 2
                continue
            i += 1
        return out

    def outlike(self, ts, i):
        return False


def RLOof(v):
    return rng(v)[0] if is_lin(v) else 0


def RHIof(v):
    return rng(v)[1] if is_lin(v) else PMAX


class Shape:
    """block order, loops and liveness of one function"""

    def __init__(self, fn):
        self.fn = fn
        reach = fn.reach
        self.succ = {i: [x for x in irm.succs(fn.blocks[i])] for i in reach}
        # liveness of variables and temps
        use, kill = {}, {}
        self.escaped = set()
        for i in reach:
            u, d = set(), set()
            b = fn.blocks[i]

            def oper(o):
                if not isinstance(o, tuple) or not o:
                    return
                if o[0] == 't':
                    if ('t', o[1]) not in d:
                        u.add(('t', o[1]))
                elif o[0] == 'addr':
                    q = o[1]
                    while q[0] == 'fld':
                        q = q[1]
                    if q[0] == 'var':
                        self.escaped.add(q[1])
                    place(o[1])

            def place(p):
                if p[0] == 'var':
                    if ('v', p[1]) not in d:
                        u.add(('v', p[1]))
                elif p[0] == 'fld':
                    place(p[1])
                elif p[0] in ('deref', 'tmp'):
                    oper(p[1])
                elif p[0] == 'elem':
                    oper(p[1])
                    oper(p[2])
            for o in b.ops:
                if o.k == 'ld':
                    place(o.a)
                elif o.k == 'store':
                    oper(o.b)
                    if o.a[0] == 'var':
                        d.add(('v', o.a[1]))
                    else:
                        place(o.a)
                elif o.k == 'decl':
                    pass
                else:
                    for x in (o.a, o.b, o.x):
                        if isinstance(x, tuple) and x:
                            if x[0] in ('var', 'fld', 'deref', 'elem', 'tmp'):
                                place(x)
                            else:
                                oper(x)
                inf = o.info or {}
                for x in inf.get('args', ()) or ():
                    oper(x)
                if inf.get('obj') is not None:
                    q = inf['obj']
                    while q[0] == 'fld':
                        q = q[1]
                    if q[0] == 'var':
                        self.escaped.add(q[1])
                    place(inf['obj'])
                if inf.get('arr') is not None:
                    oper(inf['arr'])
                for c in inf.get('caps', ()) or ():
                    oper(c[1])
                if o.dst is not None:
                    d.add(('t', o.dst))
            t = b.term
            if t and t[0] in ('br', 'sw'):
                oper(t[1])
            if t and t[0] == 'ret' and t[1] is not None:
                oper(t[1])
            use[i], kill[i] = u, d
        self.live = {i: set() for i in reach}
        ch = True
        while ch:
            ch = False
            for i in sorted(reach, reverse=True):
                out = set()
                for s in self.succ[i]:
                    out |= self.live[s]
                n = use[i] | (out - kill[i])
                if n != self.live[i]:
                    self.live[i] = n
                    ch = True
        self.tree = self.build(set(reach), fn.entry)

    def build(self, nodes, entry):
        """topological list of ('b', block) and ('loop', header, subtree, nodes)"""
        import itertools
        idx, low, on, st, comps = {}, {}, set(), [], []
        cnt = itertools.count()
        succ = {n: [s for s in self.succ[n] if s in nodes and s != entry] for n in nodes}

        def dfs(root):
            work = [(root, iter(succ[root]))]
            idx[root] = low[root] = next(cnt)
            st.append(root)
            on.add(root)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in idx:
                        idx[w] = low[w] = next(cnt)
                        st.append(w)
                        on.add(w)
                        work.append((w, iter(succ[w])))
                        adv = True
                        break
                    if w in on:
                        low[v] = min(low[v], idx[w])
                if adv:
                    continue
                work.pop()
                if work:
                    u = work[-1][0]
                    low[u] = min(low[u], low[v])
                if low[v] == idx[v]:
                    c = set()
                    while True:
                        w = st.pop()
                        on.discard(w)
                        c.add(w)
                        if w == v:
                            break
                    comps.append(c)
        dfs(entry)
        for n in nodes:
            if n not in idx:
                dfs(n)
        comps.reverse()
        out = []
        for c in comps:
            n = next(iter(c))
            if len(c) == 1 and n not in [s for s in self.succ[n] if s in nodes and (s != entry)]:
                out.append(('b', n))
                continue
            # header: the block of the component entered from outside
            heads = [h for h in c if any(h in self.succ[p] for p in self.succ if p not in c)]
            if entry in c:
                heads = [entry]
            if len(heads) != 1:
                heads = [min(c)] if not heads else heads
            if len(heads) != 1:
                raise TooHard('loop with several entries in %s' % self.fn.bq)
            out.append(('loop', heads[0], self.build(c, heads[0]), c))
        return out


class Exec(Zone):
    """running the abstract semantics"""

    # -- regions of the control flow
    def run_tree(self, tree, inn, fr, nodes, head, rets):
        """inn: block -> states; returns states leaving `nodes` (block -> states); states reaching `head` again are in out[head]"""
        out = {}

        def push(dst, sts):
            if not sts:
                return
            if dst in nodes and not (dst == head):
                inn.setdefault(dst, []).extend(sts)
            else:
                out.setdefault(dst, []).extend(sts)
        for item in tree:
            if item[0] == 'b':
                b = item[1]
                sts = self.prune(inn.pop(b, []), fr, b)
                for st in sts:
                    for dst, s2 in self.block(st, fr, b, rets):
                        push(dst, [s2])
            else:
                h = item[1]
                sts = self.prune(inn.pop(h, []), fr, h)
                for st in sts:
                    for dst, ss in self.loop(st, fr, item, rets).items():
                        push(dst, ss)
        return out

    def prune(self, sts, fr, b):
        if not sts:
            return sts
        live = self.shape(fr.fn).live[b]
        esc = self.shape(fr.fn).escaped
        out = {}
        for st in sts:
            mem = {}
            for k, v in st.mem.items():
                if k[0] == 't' and k[1] == fr.id:
                    if ('t', k[2]) not in live:
                        continue
                else:
                    base = k
                    while base[0] in ('F', 'E') and isinstance(base[1], tuple):
                        base = base[1]
                    if base[0] == 'v' and base[1] == fr.id and base[2] not in esc and ('v', base[2]) not in live and not base[2].startswith('$keep'):
                        continue
                mem[k] = v
            st.mem = mem
            self.gc(st)
            out.setdefault(st.key(), st)
        sts = list(out.values())
        if len(sts) > self.MAXST:
            sts = self.reduce(sts, fr, b)
        return sts

    def gc(self, st):
        live = set()
        for v in st.mem.values():
            self.syms(v, live)
        for k in st.mem:
            if k[0] == 'D' or k[0] == 'F':
                b = k
                while b[0] in ('F', 'E') and isinstance(b[1], tuple):
                    b = b[1]
                if b[0] == 'D':
                    self.syms(b[1], live)
        # regions whose symbols nothing refers to any more
        facts = set(st.facts)
        for lo, hi in st.regions:
            self.syms(lo, live)
            self.syms(hi, live)
        while True:
            cnt = {}
            for f in facts:
                for s, c in f[2]:
                    cnt[s] = cnt.get(s, 0) + 1
            dead = {f for f in facts if any(s not in live and cnt[s] == 1 for s, c in f[2]) and not self.isparamfact(f)}
            if not dead:
                break
            facts -= dead
        if len(facts) != len(st.facts):
            st.facts = frozenset(facts)
            st.idx = None

    def isparamfact(self, f):
        return all(NAMES[s][0] == 'p' for s, c in f[2])

    def syms(self, v, out):
        if v is None:
            return
        if v[0] == 'L':
            for s, c in v[2]:
                out.add(s)
        elif v[0] == 'cmp':
            self.syms(v[2], out)
            self.syms(v[3], out)
        elif v[0] == 'lam':
            for c in v[2]:
                self.syms(c[1], out)

    def reduce(self, sts, fr, b):
        """too many: first forget what is only known about symbols unrelated to any range, then join"""
        out = {}
        allkeep = set()
        keeps = []
        for st in sts:
            keep = set()
            for lo, hi in st.regions:
                self.syms(lo, keep)
                self.syms(hi, keep)
            for v in st.mem.values():
                if is_lin(v) and len(v[2]) == 1 and RHI[v[2][0][0]] == PMAX and RLO[v[2][0][0]] == 0:
                    pass
            ch = True
            while ch:
                ch = False
                for f in st.facts:
                    ss = {s for s, c in f[2]}
                    if len(ss) > 1 and ss & keep and not ss <= keep:
                        keep |= ss
                        ch = True
            keeps.append(keep)
            allkeep |= keep
        for st, keep in zip(sts, keeps):
            keep = keep | allkeep
            fs = frozenset(f for f in st.facts if any(s in keep for s, c in f[2]) or self.isparamfact(f))
            if fs != st.facts:
                st.facts = fs
                st.idx = None
            out.setdefault(st.key(), st)
        sts = list(out.values())
        if len(sts) <= self.MAXST:
            return sts
        # join the two that agree on most, again and again
        cur = {i: (st, frozenset(st.mem.items())) for i, st in enumerate(sts)}

        def dist(x, y):
            return len(x[1] ^ y[1]) * 4 + len(x[0].facts ^ y[0].facts)
        near = {}      # each one's nearest later one
        ids = sorted(cur)

        def nearest(i):
            return min((dist(cur[i], cur[j]), j) for j in cur if j > i)
        for i in ids[:-1]:
            near[i] = nearest(i)
        n = 0
        while len(cur) > self.MAXST:
            d, i = min((near[i][0], i) for i in near)
            j = near[i][1]
            n += 1
            m = self.join(cur[i][0], cur[j][0], fr, (b, n))
            del cur[i], cur[j]
            near.pop(i, None)
            near.pop(j, None)
            new = max(ids) + 1
            ids.append(new)
            cur[new] = (m, frozenset(m.mem.items()))
            for k in list(cur):
                if k == new:
                    continue
                if k not in near or near[k][1] in (i, j):
                    near[k] = nearest(k)
                else:
                    d = dist(cur[k], cur[new])
                    if d < near[k][0]:
                        near[k] = (d, new)
        return [cur[i][0] for i in sorted(cur)]

    def anchors(self, st):
        a = []
        for lo, hi in st.regions:
            a += [lo, hi]
        return list(dict.fromkeys(a))

    def lows(self, st):
        return list(dict.fromkeys(lo for lo, hi in st.regions))

    def join(self, A, B, fr, tag):
        n = St()
        n.epoch = A.epoch if A.epoch == B.epoch else (fr.id, ('je', tag))
        n.regions = tuple(r for r in A.regions if r in B.regions)
        phi = {}
        for k in A.mem:
            if k not in B.mem:
                if self.local(k) or k[0] == 't':
                    continue
                continue
            a, b = A.mem[k], B.mem[k]
            if a == b:
                n.mem[k] = a
            elif is_lin(a) and is_lin(b):
                la, ha = rng(a)
                lb, hb = rng(b)
                s = sym((fr.id, 'phi', tag, k, min(la, lb), max(ha, hb)), min(la, lb), max(ha, hb))
                n.mem[k] = S(s)
                phi[s] = (a, b)
            else:
                n.mem[k] = self.fresh(fr, ('phi', tag, k))
        imps = frozenset(i for i in A.imps | B.imps if i[0] not in phi and not any(x in phi for x, c in i[1][2]) and A.implied(S(i[0]), i[1]) and B.implied(S(i[0]), i[1]))
        ps = [x for x in phi if RLO[x] == 0 and RHI[x] > 1 << 60]
        ps += [v[2][0][0] for v in n.mem.values() if is_lin(v) and v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1 and any(i[0] == v[2][0][0] for i in imps)]
        for g in ps:
            for x in ps:
                if g in phi or x in phi:
                    if RHI[x] == PTOP:
                        for lo in self.lows(n):
                            e = sub(S(x), lo)
                            ga, gb = phi.get(g, (S(g), S(g)))
                            xa, xb = phi.get(x, (S(x), S(x)))
                            if A.implied(ga, sub(xa, lo)) and B.implied(gb, sub(xb, lo)):
                                imps = imps | {(g, norm(e))}
        n.imps = imps
        fs = set()
        for f in A.facts:
            if f in B.facts or B.prove(f):
                fs.add(f)
        for f in B.facts:
            if f not in fs and A.prove(f):
                fs.add(f)
        cand = self.candidates({s: v[0] for s, v in phi.items()}, A) | self.candidates({s: v[1] for s, v in phi.items()}, B)
        for c in cand:
            ca = self.bind(c, {s: v[0] for s, v in phi.items()})
            cb = self.bind(c, {s: v[1] for s, v in phi.items()})
            if A.prove(ca) and B.prove(cb):
                fs.add(norm(c))
        for f in sorted(fs):
            try:
                n.assume(f)
            except Infeasible:
                pass
        # what both know without having it written down: where a pointer lies
        same = []
        for k, v in n.mem.items():
            if is_lin(v) and len(v[2]) == 1 and v[2][0][1] == 1 and RLO[v[2][0][0]] >= 0 and RHI[v[2][0][0]] >= 1 << 61 and v[2][0][0] not in phi:
                if v not in same:
                    same.append(v)
        for v in same[:12]:
            for lo, hi in n.regions:
                for e in (sub(v, lo), sub(hi, v)):
                    if e[2] and not n.prove(e) and A.prove(e) and B.prove(e):
                        n.assume(e)
        return n

    def bind(self, e, m):
        r = ('L', e[1], tuple((s, c) for s, c in e[2] if s not in m))
        for s, c in e[2]:
            if s in m:
                r = add(r, m[s], c)
        return r

    def candidates(self, binding, st):
        """inequalities over the new symbols that hold when they have the given values"""
        out = set()
        anch = self.anchors(st)
        items = list(binding.items())
        vals = []
        for k, v in st.mem.items():
            if is_lin(v) and v[2] and k[0] in ('v', 'F', 'D') and v not in vals and len(v[2]) <= 2:
                s = v[2][0][0]
                if RLO[s] >= 0 and RHI[s] > 65535:
                    vals.append(v)
        vals = vals[:14]
        for s, v in items:
            if not is_lin(v):
                continue
            me = S(s)
            for w in anch + vals + ([v] if v[2] or True else []):
                d = sub(me, w)
                if not d[2]:
                    continue
                dv = sub(v, w)
                for sg in (1, -1):
                    if st.prove(scale(dv, sg)):
                        out.add(scale(d, sg))
            # known inequalities about the value, said about the new symbol
            if len(v[2]) == 1 and v[2][0][1] == 1:
                x = v[2][0][0]
                for f in st.facts:
                    d = dict(f[2])
                    if x in d:
                        c = d.pop(x)
                        e = ('L', f[1] - c * v[1], tuple(sorted(d.items())))
                        out.add(add(e, me, c))
        for i in range(len(items)):
            for j in range(len(items)):
                if i == j:
                    continue
                (s, v), (t, w) = items[i], items[j]
                if not (is_lin(v) and is_lin(w)):
                    continue
                # differences and sums kept
                d = sub(sub(S(s), v), sub(S(t), w))
                out.add(d)
                if i < j:
                    e = add(sub(S(s), v), sub(S(t), w))
                    out.add(e)
                    if v == w == K(0) and RLO[s] == RLO[t] == 0 and sorted((RHI[s], RHI[t])) == [PTOP, (1 << 64) - 1]:
                        for lo, hi in st.regions:
                            g = sub(sub(hi, S(s)), S(t))
                            if st.prove(hi):
                                out.add(g)
                    out.add(scale(e, -1))
                dv = sub(v, w)
                if st.prove(dv):
                    out.add(sub(S(s), S(t)))
        return out

    def loop(self, st0, fr, item, rets):
        h, tree, nodes = item[1], item[2], item[3]
        M = {}          # location the loop changes -> range of its type
        heap = False
        self.recording_push(False)
        try:
            for it in range(40):
                st, binding = self.loop_state(st0, fr, h, M, heap)
                cands = self.candidates(binding, st0)
                zs = [x for x, v in binding.items() if v == K(0) and RLO[x] == 0 and RHI[x] > 1 << 60]
                imps = {(g, norm(sub(S(x), lo))) for g in zs for x in zs if RHI[x] == PTOP for lo in self.lows(st0)}
                restart = False
                while not restart:
                    s = st.copy()
                    try:
                        for c in sorted(cands):
                            s.assume(c)
                    except Infeasible:
                        raise TooHard('contradiction at a loop in %s' % fr.fn.bq)
                    s.imps = s.imps | frozenset(imps)
                    out = self.run_tree(tree, {h: [s.copy()]}, fr, nodes, h, [])
                    back = self.prune(out.get(h, []), fr, h)
                    new = set()
                    for b in back:
                        if b.epoch != st.epoch and not heap:
                            heap = restart = True
                        for k in set(b.mem) | set(s.mem):
                            if k in M or k[0] == 't':
                                continue
                            x, y = s.mem.get(k), b.mem.get(k)
                            if x == y:
                                continue
                            if not self.local(k) and heap and not (k[0] == 'D' and self.is_param_ptr(k)):
                                continue
                            if x is None and self.unborn(k, y, s, fr, h):
                                continue
                            if x is None and self.local(k) and not self.live_at(k, fr, h):
                                continue
                            if y is None and self.unborn(k, x, s, fr, h):
                                continue
                            new.add(k)
                    if new:
                        for k in new:
                            M[k] = self.locrange(k, fr, st0)
                        restart = True
                    if restart:
                        break
                    bad = set()
                    locs = binding_locs(M, fr, h)
                    for b in back:
                        bm = {sm: b.mem.get(k) for k, sm in locs.items()}
                        for c in cands:
                            if c in bad:
                                continue
                            if any(x in bm and not is_lin(bm[x]) for x, _ in c[2]):
                                bad.add(c)
                            elif not b.prove(self.bind(c, bm)):
                                bad.add(c)
                                if DBG and DBG(c):
                                    print('LOST', show(c), c, 'as', show(self.bind(c, bm)), self.bind(c, bm))
                                    for f in sorted(b.facts):
                                        print('    ', f, show(f))
                    badi = set()
                    for i in imps:
                        for b in back:
                            bm = {sm: b.mem.get(k) for k, sm in locs.items()}
                            if any(x in bm and not is_lin(bm[x]) for x in [i[0]] + [x for x, c in i[1][2]]) or not b.implied(bm.get(i[0], S(i[0])), self.bind(i[1], bm)):
                                badi.add(i)
                                break
                    if not bad and not badi:
                        break
                    cands = {c for c in cands if c not in bad}
                    imps -= badi
                if not restart:
                    break
            else:
                raise TooHard('loop in %s does not settle' % fr.fn.bq)
        finally:
            self.recording_pop()
        st, binding = self.loop_state(st0, fr, h, M, heap)
        try:
            for c in sorted(cands):
                st.assume(c)
        except Infeasible:
            return {}
        st.imps = st.imps | frozenset(imps)
        out = self.run_tree(tree, {h: [st]}, fr, nodes, h, rets)
        out.pop(h, None)
        return out

    def locrange(self, k, fr, st0):
        t = self.loctype(k, fr)
        if t and not irm.is_ref(t) and trange(t)[0] > -INF:
            return trange(t)
        if k[0] == 'F' and k[2] in ('#n', '#d'):
            return (0, PMAX)
        v = st0.mem.get(k)
        if is_lin(v) and v[1] == 0 and len(v[2]) == 1 and v[2][0][1] == 1 and NAMES[v[2][0][0]][0] == 'i':
            return (RLO[v[2][0][0]], RHI[v[2][0][0]])
        return (-INF, INF)

    def live_at(self, k, fr, h):
        b = k
        while b[0] in ('F', 'E') and isinstance(b[1], tuple):
            b = b[1]
        if b[0] == 'v' and b[1] == fr.id:
            return ('v', b[2]) in self.shape(fr.fn).live[h] or b[2] in self.shape(fr.fn).escaped
        return b[0] == 'v' and b[1] != fr.id and self.is_outer(b[1], fr)

    def is_outer(self, fid, fr):
        f = fr.up
        while f is not None:
            if f.id == fid:
                return True
            f = f.up
        return False

    def unborn(self, k, v, st, fr, h):
        """the value of a location first read inside the loop: what it was before"""
        if is_lin(v) and v[1] == 0 and len(v[2]) == 1:
            n = NAMES[v[2][0][0]]
            if n[0] == 'i' and n[2] == k and n[1] == (0 if self.local(k) else st.epoch):
                return True
        return False

    def is_param_ptr(self, k):
        return is_lin(k[1]) and len(k[1][2]) == 1 and NAMES[k[1][2][0][0]][0] == 'p'

    def loop_state(self, st0, fr, h, M, heap):
        st = st0.copy()
        if heap:
            self.havoc_heap(st, fr, ('loop', h))
        binding = {}
        locs = binding_locs(M, fr, h)
        for k, s in locs.items():
            v = st0.mem.get(k)
            if is_lin(v) and len(v[2]) <= 6:
                binding[s] = v
            st.mem[k] = S(s)
            if k[0] != 'F' or k[2] not in ('#n', '#d'):
                for kk in [kk for kk in st.mem if kk[0] == 'F' and self.within(kk, k) and kk not in M]:
                    del st.mem[kk]
        return st, binding

    def recording_push(self, v):
        self._rec = getattr(self, '_rec', [])
        self._rec.append(self.recording)
        self.recording = self.recording and v

    def recording_pop(self):
        self.recording = self._rec.pop()

    # -- blocks
    def block(self, st, fr, b, rets):
        self.steps += 1
        if self.steps > 400000:
            raise TooHard('analysis of %s grows too large' % self.root.bq)
        blk = fr.fn.blocks[b]
        sts = [st.copy()]
        for i, op in enumerate(blk.ops):
            nxt = []
            for s in sts:
                try:
                    r = self.op(s, op, fr, (b, i))
                except Infeasible:
                    continue
                if r is None:
                    nxt.append(s)
                else:
                    nxt += r
            sts = nxt
            if len(sts) > 3 * self.MAXST:
                sts = self.reduce(sts, fr, ('o', b, i))
            if not sts:
                return []
        t = blk.term
        out = []
        for s in sts:
            if t[0] == 'goto':
                out.append((t[1], s))
            elif t[0] == 'br':
                v = self.val(s, t[1], fr)
                if v is None:
                    out.append((t[2], s.copy()))
                    out.append((t[3], s))
                else:
                    for s2 in self.assume(s.copy(), v, True):
                        out.append((t[2], s2))
                    for s2 in self.assume(s.copy(), v, False):
                        out.append((t[3], s2))
            elif t[0] == 'sw':
                v = self.num(s, t[1], fr, ('sw', b))
                for lo, hi, dst, n in t[2]:
                    s2 = s.copy()
                    try:
                        s2.assume(add(v, K(-lo)))
                        s2.assume(add(K(hi), v, -1))
                        out.append((dst, s2))
                    except Infeasible:
                        pass
                out.append((t[3], s))
            elif t[0] == 'ret':
                v = self.val(s, t[1], fr) if t[1] is not None else None
                rets.append((v, s))
        return out

    # -- operations
    def op(self, st, op, fr, at):
        k = op.k
        m = getattr(self, 'o_' + k, None)
        if m is None:
            if op.dst is not None:
                st.mem[('t', fr.id, op.dst)] = self.fresh(fr, ('u', at), (op.info or {}).get('t'))
            return None
        return m(st, op, fr, at)

    def set(self, st, op, fr, v):
        if op.dst is not None:
            if v is None:
                st.mem.pop(('t', fr.id, op.dst), None)
            else:
                st.mem[('t', fr.id, op.dst)] = v

    def o_decl(self, st, op, fr, at):
        l = self.loc(st, op.a, fr)
        for k in [k for k in st.mem if k == l or (k[0] == 'F' and self.within(k, l))]:
            del st.mem[k]
        t = op.x
        if is_bytes(t) and not irm.is_ref(t):
            self.setsize(st, l, K(0), fr, at)
        elif not op.info.get('init') and irm.is_scalar(t) and not irm.is_ref(t):
            st.mem[l] = self.fresh(fr, ('und', at), t)

    def o_ld(self, st, op, fr, at):
        t = op.info.get('t', '')
        p = op.a
        if self.reads and p[0] in ('deref', 'elem') and UCH.match(irm.noref(t)):
            self.deref_check(st, p, fr, op.l, at)
        l = self.loc(st, p, fr)
        m = ARR.match(self.arrtype(p, fr) or '') if p[0] in ('var', 'fld') else None
        if m:
            v = self.array(st, l, int(m.group(3)))
        else:
            v = self.load(st, l, t, fr, at)
        self.set(st, op, fr, v)

    def deref_check(self, st, p, fr, l, at, what='read of a byte'):
        v = self.val(st, p[1], fr)
        if v is not None and v[0] == 'addr':
            return
        if p[0] == 'elem':
            i = self.val(st, p[2], fr)
            if is_lin(v) and is_lin(i):
                v = add(v, i)
            else:
                v = None
        self.check_read(st, v, K(1), fr, l, what)

    def o_store(self, st, op, fr, at):
        p = op.a
        l = self.loc(st, p, fr)
        v = self.val(st, op.b, fr)
        if v is None and op.b[0] in ('fn', 'flt', 'unk'):
            v = self.fresh(fr, ('s', at))
        if v is not None and v[0] == 'cp' and (op.info or {}).get('ref'):
            v = ('addr', v[1])
        if self.writes and p[0] in ('deref', 'elem'):
            self.on_write(st, p, fr, op, at)
        t = None
        if p[0] == 'var':
            t = fr.fn.vartypes.get(p[1])
            if t and irm.is_ref(t) and not irm.by_value_ref(t) and not (op.info or {}).get('ref') and (op.info or {}).get('init') is None:
                t = None
        if is_lin(v) and t and trange(t)[0] > -INF and not irm.is_ref(t):
            v = self.conv(st, v, t, fr, at)
        if v is None:
            r = trange(t) if t else (-INF, INF)
            v = self.fresh_r(fr, ('s', at), r[0], r[1])
        self.store(st, l, v, fr, at)

    def on_write(self, st, p, fr, op, at):
        pass

    def conv(self, st, v, t, fr, at):
        lo, hi = trange(t)
        a, b = rng(v)
        if (a >= lo or st.prove(add(v, K(-lo)))) and (b <= hi or st.prove(add(K(hi), v, -1))):
            return v
        n = self.fresh(fr, ('cv', at), t)
        if lo > -INF and (a >= 0 or st.prove(v)):
            st.assume(sub(v, n))     # what is cut off a number that is not negative makes it smaller
        return n

    def o_cast(self, st, op, fr, at):
        v = self.val(st, op.a, fr)
        t = op.info['t']
        if v is None:
            v = self.fresh(fr, ('c', at), t)
        elif v[0] == 'L':
            if op.info['ck'] in ('IntegralCast', 'IntegralToPointer', 'PointerToIntegral'):
                v = self.conv(st, v, t, fr, at)
            elif op.info['ck'] in ('IntegralToFloating', 'FloatingToIntegral', 'FloatingCast'):
                v = self.fresh(fr, ('c', at), t)
        elif v[0] == 'cmp':
            pass
        self.set(st, op, fr, v)

    def o_dyncast(self, st, op, fr, at):
        self.set(st, op, fr, self.fresh(fr, ('dc', at), op.info['t']))

    def o_un(self, st, op, fr, at):
        v = self.val(st, op.a, fr)
        t = op.info.get('t')
        if op.x == 'nz':
            if is_lin(v):
                v = K(1) if not v[2] and v[1] else K(0) if not v[2] else ('cmp', '!=', v, K(0))
            elif v is not None and v[0] in ('addr', 'cp'):
                v = K(1)
            elif v is not None and v[0] == 'cmp':
                pass
            else:
                v = self.fresh_r(fr, ('un', at), 0, 1)
        elif op.x == '!':
            if is_lin(v):
                v = ('cmp', '==', v, K(0))
            elif v is not None and v[0] == 'cmp':
                v = ('cmp', {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}[v[1]], v[2], v[3])
            elif v is not None and v[0] in ('addr', 'cp'):
                v = K(0)
            else:
                v = self.fresh_r(fr, ('un', at), 0, 1)
        elif op.x == '-' and is_lin(v):
            v = self.conv(st, scale(v, -1), t, fr, at)
        else:
            v = self.fresh(fr, ('un', at), t)
        self.set(st, op, fr, v)

    ELT = re.compile(r'^(const )?(unsigned char|char|signed char|void) ?\*( ?const)?$')

    def o_bin(self, st, op, fr, at):
        o = op.x
        t = op.info.get('t') or ''
        xt = op.info.get('xt', t)
        a, b = self.val(st, op.a, fr), self.val(st, op.b, fr)
        if o in ('<', '<=', '>', '>=', '==', '!='):
            fa = plain(xt) in ('double', 'float', 'long double') or plain(op.info.get('yt', '')) in ('double', 'float', 'long double')
            if a is not None and a[0] in ('addr', 'cp') and is_lin(b) and not b[2] and b[1] == 0:
                v = K(1 if o == '!=' else 0) if o in ('==', '!=') else self.fresh_r(fr, ('cm', at), 0, 1)
            elif fa or a is None or b is None or not is_lin(a) or not is_lin(b):
                v = self.fresh_r(fr, ('cm', at), 0, 1)
                if (a is not None and a[0] == 'cmp') and is_lin(b) and not b[2] and o in ('==', '!='):
                    neg = (b[1] == 0) == (o == '==')
                    v = ('cmp', {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}[a[1]], a[2], a[3]) if neg else a
            else:
                v = ('cmp', o, a, b)
                d = sub(a, b)
                if not d[2]:
                    x = d[1]
                    v = K(int({'<': x < 0, '<=': x <= 0, '>': x > 0, '>=': x >= 0, '==': x == 0, '!=': x != 0}[o]))
            self.set(st, op, fr, v)
            return
        if plain(t) in ('double', 'float', 'long double'):
            self.set(st, op, fr, None)
            return
        a = self.tonum(st, a, fr, ('a', at), xt)
        b = self.tonum(st, b, fr, ('b', at), op.info.get('yt', t))
        v = None
        pt = plain(t)
        isptr = pt.endswith('*') or pt.endswith('const')
        r = trange(t)
        if o in ('+', '-', '++', '--'):
            o1 = o[0]
            if isptr and not self.ELT.match(pt):
                self.set(st, op, fr, self.fresh(fr, ('pa', at), t))
                return
            if plain(xt).endswith('*') and not self.ELT.match(plain(xt)) and not isptr:
                self.set(st, op, fr, self.fresh(fr, ('pd', at), t))
                return
            e = add(a, b, 1 if o1 == '+' else -1)
            lo, hi = rng(e)
            if (lo >= r[0] or st.prove(add(e, K(-r[0])))) and (hi <= r[1] or st.prove(add(K(r[1]), e, -1))):
                v = e
            elif isptr:
                # a pointer computed from an unrelated number
                v = self.fresh_r(fr, ('own' if self.own(a) else 'pw', at), 0, PTOP)
            elif o1 == '-' and r[0] == 0 and not st.possible(e):
                v = self.fresh(fr, ('wr', at), t)
            else:
                v = self.fresh(fr, ('bn', at), t)
        elif o == '*' and (not a[2] or not b[2]):
            e = scale(a, b[1]) if not b[2] else scale(b, a[1])
            v = self.conv(st, e, t, fr, at)
        elif o == '&':
            m = None
            for x in (a, b):
                if not x[2] and x[1] >= 0:
                    m = x[1] if m is None else min(m, x[1])
                else:
                    lo, hi = rng(x)
                    if lo >= 0:
                        m = hi if m is None else min(m, hi)
            if not a[2] and not b[2]:
                v = K(a[1] & b[1])
            elif m is not None:
                v = self.fresh_r(fr, ('and', at), 0, m)
                for x in (a, b):
                    if rng(x)[0] >= 0:
                        st.assume(sub(x, v))
        elif o == '>>' and not b[2] and rng(a)[0] >= 0:
            hi = min(rng(a)[1], r[1])
            v = K(a[1] >> b[1]) if not a[2] else self.fresh_r(fr, ('shr', at), 0, hi >> b[1])
            if a[2]:
                st.assume(sub(a, scale(v, 1 << b[1])))
        elif o == '<<' and not b[2] and b[1] >= 0:
            v = self.conv(st, scale(a, 1 << b[1]), t, fr, at)
        elif o == '|':
            la, ha = rng(a)
            lb, hb = rng(b)
            if not a[2] and not b[2]:
                v = K(a[1] | b[1])
            elif la >= 0 and lb >= 0 and max(ha, hb) < (1 << 64):
                n = max(ha, hb).bit_length()
                v = self.fresh_r(fr, ('or', at), max(la, lb), (1 << n) - 1)
        elif o == '%' and not b[2] and b[1] > 0 and rng(a)[0] >= 0:
            v = self.fresh_r(fr, ('mod', at), 0, b[1] - 1)
            st.assume(sub(a, v))
        elif o == '/' and not b[2] and b[1] > 0 and rng(a)[0] >= 0:
            v = self.fresh_r(fr, ('div', at), 0, max(0, min(rng(a)[1], INF)) // b[1])
            st.assume(sub(a, scale(v, b[1])))
        elif o in ('min', 'max'):
            v = self.fresh(fr, (o, at), t)
            sg = 1 if o == 'min' else -1
            # both cases
            s2 = st.copy()
            out = []
            for s, x, y in ((st, a, b), (s2, b, a)):
                try:
                    s.assume(scale(sub(y, x), sg))
                    self.set(s, op, fr, x)
                    out.append(s)
                except Infeasible:
                    pass
            return out
        if v is None:
            v = self.fresh(fr, ('bn', at), t)
        self.set(st, op, fr, v)

    def o_share(self, st, op, fr, at):
        pass

    def o_dtor(self, st, op, fr, at):
        pass

    def o_lambda(self, st, op, fr, at):
        caps = []
        for c in op.info['caps']:
            caps.append((c[0], self.val(st, c[1], fr), c[2] if len(c) > 2 else 'this'))
        self.set(st, op, fr, ('lam', op.info['key'], tuple(caps)))

    def o_more(self, st, op, fr, at):
        self.set(st, op, fr, None)

    def o_next(self, st, op, fr, at):
        self.set(st, op, fr, self.fresh(fr, ('nx', at), 'void *'))

    def o_new(self, st, op, fr, at):
        self.call_args(st, op, fr, at)
        self.set(st, op, fr, self.fresh_r(fr, ('new', at), 1, PMAX))
        self.after_unknown(st, op, fr, at)

    def o_ctor(self, st, op, fr, at):
        l = self.loc(st, op.a, fr)
        self.construct(st, op, fr, at, l)

    def o_ctorval(self, st, op, fr, at):
        l = ('O', fr.id, at)
        self.construct(st, op, fr, at, l)
        self.set(st, op, fr, ('cp', l))

    def construct(self, st, op, fr, at, l):
        t = op.info.get('t') or ''
        q = irm.base_q(op.info.get('q', ''))
        args = op.info['args']
        for k in [k for k in st.mem if k == l or (k[0] == 'F' and self.within(k, l))]:
            del st.mem[k]
        if is_bytes(t):
            vs = [self.val(st, a, fr) for a in args if a[0] != 'unk']
            n = None
            if not vs:
                n = K(0)
            elif op.info.get('list') or q == 'list':
                n = K(len(vs))
            elif len(vs) >= 2 and is_lin(vs[0]) and is_lin(vs[1]):
                pts = op.info.get('pts') or []
                if 'basic_string' in t and self.strctor(op) and [a for a in args if a[0] != 'unk'][0][0] != 'int' and (vs[0][2] or vs[0][1] == 0):
                    n = vs[1]
                    self.check_read(st, vs[0], n, fr, op.l, 'string built from a byte range')
                elif self.two_iters(op, fr, st):
                    n = sub(vs[1], vs[0])
                    ra = [a for a in args if a[0] != 'unk']
                    if self.iterpair(op, fr, ra[0], ra[1]):
                        n = None
                    else:
                        self.check_read(st, vs[0], n, fr, op.l, 'byte string built from a range')
                        self.check_nonneg(st, n, fr, op.l)
                else:
                    n = vs[0]
            elif len(vs) == 1 and vs[0] is not None and vs[0][0] in ('cp', 'addr'):
                n = self.csize(st, vs[0][1])
            elif len(vs) >= 1 and is_lin(vs[0]) and 'vector' in t:
                n = vs[0]
            self.setsize(st, l, n, fr, at)
            return
        self.call_args(st, op, fr, at)
        self.after_unknown(st, op, fr, at)

    def iterpair(self, op, fr, a, b):
        """begin() and end() of a container"""
        r = []
        for o in (a, b):
            d = fr.fn.defs.get(o[1]) if o[0] == 't' else None
            while d is not None and d.k in ('ctorval', 'cast', 'share') and len([x for x in (d.info or {}).get('args', [d.a]) if x and x[0] == 't']) == 1:
                o = [x for x in (d.info or {}).get('args', [d.a]) if x and x[0] == 't'][0]
                d = fr.fn.defs.get(o[1])
            if d is None or d.k != 'call' or not (d.info or {}).get('cls'):
                return False
            r.append(d.info['q'].rsplit('::', 1)[-1])
        return r[0] in ('begin', 'cbegin') and r[1] in ('end', 'cend')

    def check_nonneg(self, st, n, fr, l):
        if n[0] == 'L' and any(self.ownsym(NAMES[s]) for s, c in n[2]):
            return
        if self.recording and not st.prove(n):
            self.nobl += 1
            self.fail(st, fr, l, 'range whose end may lie before its start', show(n))

    def strctor(self, op):
        ts = op.info.get('ats') or []
        pts = op.info.get('pts') or []
        d = pts or ts
        if d:
            return len(d) >= 2 and '*' in d[0] and plain(d[1]) in SZ
        return True

    def two_iters(self, op, fr, st):
        """is this constructor/insert given two pointers or iterators (and not count and value)?"""
        a = [x for x in op.info['args'] if x[0] != 'unk']
        return self.ptrish(a[0], fr, st) or self.ptrish(a[1], fr, st)

    def ptrish(self, o, fr, st):
        if o[0] == 'addr' or o[0] == 'str':
            return True
        if o[0] == 't':
            d = fr.fn.defs.get(o[1])
            if d is not None:
                t = (d.info or {}).get('t') or ''
                tt = plain(t)
                return tt.endswith('*') or tt.endswith('const') or '__normal_iterator' in tt or 'iterator' in tt
        return False

    # -- calls
    def call_args(self, st, op, fr, at):
        """what an unknown callee requires of the byte ranges it is given"""
        pts = op.info.get('pts') or []
        key = op.info.get('key')
        d = self.ir.prog.funcs.get(key)
        if d is not None:
            pts = [p['t'] for p in d['params']]
        args = op.info['args']
        self.require(st, op, fr, pts, args, at)

    def require(self, st, op, fr, pts, args, at, who=None):
        ext = op.k == 'call' and op.info.get('key') not in self.ir.prog.funcs and not op.info.get('virt')
        for kind, i, j in self.pairs(pts):
            if j >= len(args) or ext and kind != 'len':
                continue
            x = self.val(st, args[i], fr)
            y = self.val(st, args[j], fr)
            if kind == 'cur':
                x = self.load(st, self.ptr_loc(x), 'const unsigned char *', fr, ('cur', at))
            what = 'byte range given to %s' % irm.short(who or op.info.get('q') or 'a callback')
            if x is None or y is None or not is_lin(x) or not is_lin(y):
                if x is not None and x[0] == 'addr':
                    continue
                self.check_read(st, None, None, fr, op.l, what)
                continue
            n = y if kind == 'len' else sub(y, x)
            if kind != 'len' and self.recording and not st.prove(n):
                self.nobl += 1
                self.fail(st, fr, op.l, what + ' whose end may lie before its start', show(n))
            self.check_read(st, x, n, fr, op.l, what)

    def after_unknown(self, st, op, fr, at):
        """effects of a call whose body is not looked at"""
        key = op.info.get('key')
        inrepo = key in self.ir.prog.funcs or op.k == 'callv' or op.info.get('virt')
        for i, a in enumerate(op.info['args']):
            v = self.val(st, a, fr)
            if v is not None and v[0] == 'addr' and self.modified(op, i):
                self.havoc_loc(st, v[1], fr, (at, i))
            if v is not None and v[0] == 'lam':
                self.lam_effects(st, v, fr, (at, i))
            if is_lin(v) and v[1] == 0 and len(v[2]) == 1 and NAMES[v[2][0][0]][0] == 'p' and self.modified(op, i):
                l = ('D', v)
                if l in st.mem:
                    self.havoc_loc(st, l, fr, (at, i))
        if inrepo:
            self.havoc_heap(st, fr, at)

    def modified(self, op, i):
        pts = op.info.get('pts') or []
        d = self.ir.prog.funcs.get(op.info.get('key'))
        if d is not None:
            pts = [p['t'] for p in d['params']]
        if i < len(pts):
            t = pts[i]
            if irm.is_ref(t):
                return not t.startswith('const ')
            if t.endswith('*'):
                return not re.match(r'^const [^*]*\*$', t)
            return False if t else True
        return True

    def lam_effects(self, st, v, fr, tag):
        fn = self.ir.fn(v[1])
        stored = set()
        if fn is not None:
            for b in fn.blocks:
                for o in b.ops:
                    if o.k in ('store', 'ctor') and o.a[0] == 'var':
                        stored.add(o.a[1])
                    for a in (o.info or {}).get('args', ()) or ():
                        if a[0] == 'addr' and a[1][0] == 'var':
                            stored.add(a[1][1])
                    ob = (o.info or {}).get('obj')
                    if ob is not None and ob[0] == 'var' and not o.info.get('const'):
                        stored.add(ob[1])
        for c in v[2]:
            if c[2] == 'ref' and c[1] is not None and c[1][0] == 'addr' and (fn is None or c[0] in stored):
                self.havoc_loc(st, c[1][1], fr, (tag, c[0]))

    def o_callv(self, st, op, fr, at):
        v = self.val(st, op.a, fr)
        if v is not None and v[0] == 'lam':
            r = self.inline(st, op, fr, at, v[1], lam=v)
            if r is not None:
                return r
        # the argument types of a function object: by what is given
        ts = [self.optype(a, fr) for a in op.info['args']]
        self.require(st, op, fr, ts, op.info['args'], at, who='a callback')
        self.set(st, op, fr, self.fresh(fr, ('r', at), op.info.get('t')))
        self.after_unknown(st, op, fr, at)

    def optype(self, o, fr):
        if o[0] == 't':
            d = fr.fn.defs.get(o[1])
            t = (d.info or {}).get('t') or '' if d is not None else ''
            t = t if t != 'ref' else ''
            if BP.match(plain(t)) and not t.startswith('const'):
                return 'const ' + t
            return t
        if o[0] == 'c':
            return 'unsigned long'
        return ''

    def o_call(self, st, op, fr, at):
        q = irm.base_q(op.info['q'])
        key = op.info.get('key')
        args = op.info['args']
        name = q.rsplit('::', 1)[-1]
        ot = op.info.get('ot') or op.info.get('cls') or ''
        cls = op.info.get('cls') or ''
        # memory primitives
        if q in ('memcpy', 'memmove', 'std::memcpy', 'std::memmove'):
            p, n = self.val(st, args[1], fr), self.val(st, args[2], fr)
            if not (p is not None and p[0] == 'addr'):
                self.check_read(st, p, n, fr, op.l, 'source of a copy')
            d = self.val(st, args[0], fr)
            if self.writes:
                self.on_copy(st, d, n, fr, op)
            if d is not None and d[0] == 'addr':
                self.havoc_loc(st, d[1], fr, at)
            self.set(st, op, fr, d)
            return
        if q in ('memcmp', 'std::memcmp'):
            n = self.val(st, args[2], fr)
            for a in args[:2]:
                p = self.val(st, a, fr)
                if not (p is not None and p[0] == 'addr'):
                    self.check_read(st, p, n, fr, op.l, 'comparison of byte ranges')
            self.set(st, op, fr, self.fresh(fr, ('r', at), 'int'))
            return
        if q in ('memset', 'std::memset'):
            d = self.val(st, args[0], fr)
            if self.writes:
                self.on_copy(st, d, self.val(st, args[2], fr), fr, op)
            if d is not None and d[0] == 'addr':
                self.havoc_loc(st, d[1], fr, at)
            return
        if is_bytes(cls) or '__normal_iterator' in cls or (cls == '' and '__normal_iterator' in q):
            r = self.container(st, op, fr, at, name, args, cls)
            if r:
                return
        if q in ('__gnu_cxx::operator-', '__gnu_cxx::operator==', '__gnu_cxx::operator!=', '__gnu_cxx::operator<') and len(args) == 2:
            a, b = self.val(st, args[0], fr), self.val(st, args[1], fr)
            if is_lin(a) and is_lin(b):
                o = name[8:]
                self.set(st, op, fr, sub(a, b) if o == '-' else ('cmp', o, a, b))
                return
        if q in ('strlen', 'std::strlen'):
            p = self.val(st, args[0], fr)
            n = self.fresh_r(fr, ('len', at), 0, PMAX)
            if is_lin(p):
                self.region(st, p, add(add(p, n), K(1)))
            self.set(st, op, fr, n)
            return
        if q in ('std::find', 'std::search', 'std::equal', 'std::copy', 'std::lexicographical_compare') and len(args) >= 2:
            a, b = self.val(st, args[0], fr), self.val(st, args[1], fr)
            if is_lin(a) and is_lin(b) and self.two_iters(op, fr, st):
                self.check_read(st, a, sub(b, a), fr, op.l, 'byte range given to %s' % q)
            if q in ('std::equal', 'std::copy') and len(args) >= 3 and is_lin(a) and is_lin(b) and self.ptrish(args[2], fr, st):
                c = self.val(st, args[2], fr)
                if q == 'std::equal':
                    self.check_read(st, c, sub(b, a), fr, op.l, 'byte range given to %s' % q)
            self.set(st, op, fr, self.fresh(fr, ('r', at), op.info.get('t')))
            return
        fd = self.ir.prog.funcs.get(key)
        tg = self.ir.targets(op.info)
        if tg or fd is not None and fd.get('body') is not None:
            r = self.project_call(st, op, fr, at, key, tg)
            if r is not None:
                return r
        self.call_args(st, op, fr, at)
        # member functions of other library types may change the object
        ob = op.info.get('obj')
        if ob is not None and not op.info.get('const') and name not in irm.NONMOD:
            l = self.loc(st, ob, fr)
            if l in st.mem or any(self.within(k, l) for k in st.mem if k[0] == 'F'):
                if ob[0] != 'deref' or ob[1] != ('this',):
                    if key not in self.ir.prog.funcs:
                        self.havoc_loc(st, l, fr, at)
        rt = op.info.get('t') or ''
        if is_bytes(rt) and not op.info.get('lv'):
            l = ('O', fr.id, at)
            self.setsize(st, l, None, fr, at)
            self.set(st, op, fr, ('cp', l))
        elif name in ('operator*', 'operator->') and 'iterator' in cls.lower() and ob is not None and self.local(self.loc(st, ob, fr)):
            l = ('F', self.loc(st, ob, fr), '#it')
            if l not in st.mem:
                st.mem[l] = S(sym(('itv', fr.id, st.epoch, l), 1, PMAX))
            self.set(st, op, fr, st.mem[l])
        elif op.info.get('lv'):
            self.set(st, op, fr, self.fresh_r(fr, ('rl', at), 1, PMAX))
        else:
            self.set(st, op, fr, self.fresh(fr, ('r', at), rt) if trange(rt)[0] > -INF else None)
        self.after_unknown(st, op, fr, at)

    def on_copy(self, st, d, n, fr, op):
        pass

    def container(self, st, op, fr, at, name, args, cls):
        if '__normal_iterator' in cls:
            ob = op.info.get('obj')
            l = self.loc(st, ob, fr)
            v = st.mem.get(l)
            if ob[0] == 'tmp':
                v = self.val(st, ob[1], fr)
            if name in ('operator+', 'operator-') and is_lin(v):
                n = self.val(st, args[0], fr)
                if is_lin(n):
                    self.set(st, op, fr, add(v, n, 1 if name[-1] == '+' else -1))
                    return True
                if n is not None and n[0] == 'addr':
                    n = st.mem.get(n[1])
                    if is_lin(n):
                        self.set(st, op, fr, add(v, n, 1 if name[-1] == '+' else -1))
                        return True
            if name in ('operator++', 'operator--') and is_lin(v):
                st.mem[l] = add(v, K(1 if name[-1] == '+' else -1))
                self.set(st, op, fr, v if args else ('addr', l))
                return True
            if name in ('operator+=', 'operator-=') and is_lin(v):
                n = self.val(st, args[0], fr)
                if is_lin(n):
                    st.mem[l] = add(v, n, 1 if name[-2] == '+' else -1)
                    self.set(st, op, fr, ('addr', l))
                    return True
            if name == 'operator*' and is_lin(v):
                rt = op.info.get('t') or ''
                if 'char' in rt:
                    self.check_read(st, v, K(1), fr, op.l, 'element read through an iterator')
                self.set(st, op, fr, self.fresh_r(fr, ('el', at), 1, PMAX))
                return True
            return False
        ob = op.info.get('obj')
        if ob is None:
            return False
        l = self.loc(st, ob, fr)
        if l[0] == 'T':
            return False
        if name in ('data', 'c_str', 'begin', 'cbegin'):
            self.set(st, op, fr, self.cdata(st, l))
            return True
        if name in ('end', 'cend'):
            self.set(st, op, fr, add(self.cdata(st, l), self.csize(st, l)))
            return True
        if name in ('size', 'length'):
            self.set(st, op, fr, self.csize(st, l))
            return True
        if name == 'empty':
            self.set(st, op, fr, ('cmp', '==', self.csize(st, l), K(0)))
            return True
        if name in ('operator[]', 'at', 'front', 'back') and (op.info.get('t') or '').endswith('char') or name in ('operator[]', 'front', 'back'):
            if name != 'at':
                i = K(0) if name == 'front' else add(self.csize(st, l), K(-1)) if name == 'back' else self.val(st, args[0], fr)
                d = self.cdata(st, l)
                if 'vector' in cls or name == 'back':
                    if is_lin(i):
                        self.check_read(st, add(d, i), K(1), fr, op.l, 'element of a byte string')
                    else:
                        self.check_read(st, None, None, fr, op.l, 'element of a byte string')
            self.set(st, op, fr, ('addr', ('E', l, None)))
            return True
        if name == 'clear':
            self.setsize(st, l, K(0), fr, at)
            return True
        if name == 'resize':
            n = self.val(st, args[0], fr)
            self.setsize(st, l, n if is_lin(n) else None, fr, at)
            return True
        if name == 'reserve':
            self.newdata(st, l, fr, at)
            return True
        if name in ('push_back', 'emplace_back'):
            n = self.csize(st, l)
            self.setsize(st, l, add(n, K(1)) if len(n[2]) < 5 else None, fr, at)
            return True
        if name == 'pop_back':
            self.setsize(st, l, add(self.csize(st, l), K(-1)), fr, at)
            return True
        if name in ('insert', 'assign', 'append'):
            vs = [self.val(st, a, fr) for a in args if a[0] != 'unk']
            sh = 1 if name == 'insert' else 0
            n = None
            rest = [a for a in args if a[0] != 'unk'][sh:]
            if len(rest) == 2 and is_lin(vs[sh]) and is_lin(vs[sh + 1]):
                pts = op.info.get('pts') or []
                if self.ptrish(rest[0], fr, st) and self.ptrish(rest[1], fr, st):
                    n = sub(vs[sh + 1], vs[sh])
                    if self.iterpair(op, fr, rest[0], rest[1]):
                        n = None
                    else:
                        self.check_read(st, vs[sh], n, fr, op.l, 'byte range appended')
                        self.check_nonneg(st, n, fr, op.l)
                elif self.ptrish(rest[0], fr, st) and 'basic_string' in cls:
                    n = vs[sh + 1]
                    self.check_read(st, vs[sh], n, fr, op.l, 'byte range appended')
                else:
                    n = vs[sh]
            elif len(rest) == 1 and vs[sh] is not None and vs[sh][0] in ('cp', 'addr'):
                n = self.csize(st, vs[sh][1])
            elif len(rest) == 1 and name == 'insert':
                n = K(1)
            old = self.csize(st, l)
            if name == 'assign':
                self.setsize(st, l, n, fr, at)
            else:
                self.setsize(st, l, add(old, n) if n is not None and len(old[2]) + len(n[2]) < 6 else None, fr, at)
            self.set(st, op, fr, self.cdata(st, l) if name == 'insert' else ('addr', l))
            return True
        if name == 'operator=':
            v = self.val(st, args[0], fr)
            if v is not None and v[0] in ('cp', 'addr'):
                self.setsize(st, l, self.csize(st, v[1]), fr, at)
            else:
                self.setsize(st, l, None, fr, at)
            self.set(st, op, fr, ('addr', l))
            return True
        if name == 'swap':
            v = self.val(st, args[0], fr)
            if v is not None and v[0] in ('cp', 'addr'):
                a, b = self.csize(st, l), self.csize(st, v[1])
                self.setsize(st, l, b, fr, (at, 0))
                self.setsize(st, v[1], a, fr, (at, 1))
                return True
        if name in ('erase', 'operator+=', 'replace', 'shrink_to_fit'):
            self.setsize(st, l, None, fr, at)
            self.set(st, op, fr, ('addr', l))
            return True
        return False

    # -- calls into the project
    def project_call(self, st, op, fr, at, key, tg):
        raise NotImplementedError

    def inline(self, st, op, fr, at, key, lam=None):
        fn = self.ir.fn(key)
        if fn is None:
            return None
        f = fr
        while f is not None:
            if f.fn.key == key:
                return None
            f = f.up
        if fr.depth >= self.MAXDEPTH:
            return None
        nf = Frame(fn, (fr.id, at), fr)
        ob = op.info.get('obj')
        if lam is not None:
            for c in lam[2]:
                if c[2] == 'this':
                    nf.caps['this'] = c[1]
                elif c[2] in ('ref',) and c[1] is not None and c[1][0] == 'addr':
                    nf.caps[c[0]] = c[1][1]
                elif c[2] == 'refval':
                    l = ('v', nf.id, c[0])
                    nf.caps[c[0]] = l
                    if c[1] is not None:
                        st.mem[l] = c[1]
                else:
                    l = ('v', nf.id, c[0])
                    nf.caps[c[0]] = l
                    if c[1] is not None:
                        self.store(st, l, c[1], nf, ('cap', c[0]))
        elif ob is not None:
            l = self.loc(st, ob, fr)
            if l[0] == 'D' and is_lin(l[1]):
                nf.caps['this'] = l[1]
            else:
                nf.caps['this'] = ('addr', l)
        for i, p in enumerate(fn.params):
            a = op.info['args'][i] if i < len(op.info['args']) else ('unk',)
            v = self.val(st, a, fr)
            if a[0] == 'unk' and p.get('def'):
                v = self.default(p)
            l = ('v', nf.id, p['id'])
            if v is None:
                v = self.fresh(nf, ('arg', i), p['t'])
            if v[0] == 'cp' and irm.is_ref(p['t']):
                v = ('addr', v[1])
            if is_lin(v) and not irm.is_ref(p['t']):
                v = self.conv(st, v, p['t'], nf, ('arg', i))
            if v[0] == 'cp':
                self.store(st, l, v, nf, ('arg', i))
            else:
                st.mem[l] = v
        rets = []
        sh = self.shape(fn)
        self.run_tree(sh.tree, {fn.entry: [st]}, nf, fn.reach, None, rets)
        out = []
        for v, s in rets:
            self.unframe(s, nf, v)
            if v is not None and v[0] in ('addr', 'cp') and self.inframe(v[1], nf):
                # a local returned by value
                nl = ('O', fr.id, at)
                if is_bytes(op.info.get('t') or ''):
                    pass
                v = None
            self.set(s, op, fr, v if v is not None else (self.fresh(fr, ('r', at), op.info.get('t')) if trange(op.info.get('t'))[0] > -INF else None))
            self.gc(s)
            out.append(s)
        d = {}
        for s in out:
            d.setdefault(s.key(), s)
        out = list(d.values())
        if len(out) > self.MAXST:
            out = self.reduce(out, fr, ('in', at))
        return out

    def default(self, p):
        d = p.get('def')
        if isinstance(d, dict):
            if d.get('k') == 'int':
                return K(int(d['v']))
            if d.get('k') == 'null':
                return K(0)
            if d.get('k') == 'cast':
                return self.default({'def': d.get('e')})
        return None

    def inframe(self, l, nf):
        while l[0] in ('F', 'E') and isinstance(l[1], tuple):
            l = l[1]
        return l[0] in ('v', 'O', 'T') and len(l) > 1 and l[1] == nf.id

    def unframe(self, s, nf, v):
        s.mem = {k: x for k, x in s.mem.items() if not (k[0] == 't' and k[1] == nf.id) and not self.inframe(k, nf)}


def binding_locs(M, fr, h):
    out = {}
    for k in sorted(M, key=repr):
        if k[0] == 'F' and k[2] in ('#n', '#d'):
            r = (0, PMAX)
        else:
            r = M[k] or (-INF, INF)
        out[k] = sym((fr.id, 'loop', h, k, r), r[0], r[1])
    return out
