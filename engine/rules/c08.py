"""Session state only moves forward."""
import psa
from facts import AnalysisError

EXPLANATION = ('Path-sensitive typestate analysis of every store to the session state field, with obligation lifting: a store must be of a constant not lower than '
               'anything the field can hold there; where the storing function does not establish that by itself every caller is analysed with the callee followed '
               '(asynchronous continuations included, with the state forgotten in between), up to the entry points of the library. Unknown calls may raise the state, never lower it '
               '(this is the invariant being proved, used inductively).')


def field(ctx, suffix):
    r = [f for f in ctx.ir.fields if f.endswith('::' + suffix)]
    if len(r) != 1:
        raise AnalysisError('anchor vanished or ambiguous: field %s (%d)' % (suffix, len(r)))
    return r[0]


def run(ctx):
    F = field(ctx, 'Session::m_state')
    ev = ctx.prog.enumval
    g = lambda n: ev['com::zenomt::rtmfp::Session::' + n]
    OPEN, CLOSED = g('S_OPEN'), g('S_CLOSED')
    lo0, hi0 = 0, max(v for n, v in ev.items() if n.startswith('com::zenomt::rtmfp::Session::S_'))
    order = ['S_UNKNOWN', 'S_IHELLO_SENT', 'S_KEYING_SENT', 'S_OPEN', 'S_NEARCLOSE', 'S_FARCLOSE_LINGER', 'S_CLOSED']
    vals = [g(n) for n in order]
    ctx.rule('R1: the state constants are ordered handshake < open < near close < far close < closed')
    if vals != sorted(set(vals)):
        ctx.viol('R1', 'com::zenomt::rtmfp::Session::State', 0, 'the order of the session states is not handshake < open < closing < closed: %s' % vals)
    ctx.rule('R2: every store to the session state stores a constant >= every value the field may hold there; S_OPEN and S_CLOSED only over strictly lower states')
    entered = set()

    class Cl(psa.Client):
        tracked = frozenset([F])
        nevents = 0

        def events(self):
            return {'rtmfp::Session::Session'}

        def havoc_value(self, I, st, place, old):
            lo, hi, n = st.rng(old)
            s = ('s', 'enum', int(max(lo, lo0)), hi0, 'mono', repr(place)[:0])
            I.kill_sym(st, s)
            return s

        def enum_range(self, f):
            return (lo0, hi0) if f == F else None

        def on_store(self, I, st, pl, v, op, fr):
            if pl[0] != 'F' or pl[2] != F or (op.info or {}).get('init'):
                return
            self.nevents += 1
            entered.add((fr.fn.key, op.l))
            hi = hi0
            old = st.mem.get(pl)
            if old is not None:
                hi = st.rng(old)[1]
            if v[0] != 'c':
                I.fail(fr, op.l, 'the session state is assigned a value that is not a constant')
            elif hi > v[1] or (v[1] in (OPEN, CLOSED) and hi >= v[1]):
                I.fail(fr, op.l, 'the session state is set to %s while it may already be %s' % (name(v[1]), name(hi)))

    def name(x):
        for n in order:
            if g(n) == x:
                return n
        return str(x)
    starts = psa.functions_with(ctx.ir, lambda fn, o: o.k == 'store' and o.a[0] == 'fld' and o.a[2] == F and not (o.info or {}).get('init'))
    ctx.discharge('R2', Cl, starts)
    ctx.need('state_stores', len(entered), 5)
    inits = 0
    for k, d in ctx.prog.funcs.items():
        for i in d.get('inits', []) or []:
            if i.get('f') == F:
                inits += 1
    ctx.cov['constructor_initialisers'] = inits
