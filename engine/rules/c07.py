"""Unproven peers cannot make the endpoint keep state or do public-key work."""
import psa
from lib import *

EXPLANATION = ('Path-sensitive analysis from the handler of startup chunks: every call that creates a session, enters a session table, starts asynchronous work or does certificate, signature or '
               'keying operations is reached only after the cookie check succeeded for the address the packet came from, or for a session of ours that the reply names. The counter of keying work '
               'in progress is followed as a typestate: tested against a constant before it is raised, raised once per started unit, lowered exactly once on every path of that unit.')
EVENTS = {
    'rtmfp::IPlatformAdapter::perform': 'asynchronous work is started', 'rtmfp::ICryptoAdapter::decodeCertificate': 'a certificate is decoded', 'rtmfp::CryptoCert::isAuthentic': 'an authenticity check is started',
    'rtmfp::CryptoCert::checkSignature': 'a signature check is started', 'rtmfp::ICryptoAdapter::sign': 'a signature is made', 'rtmfp::ICryptoAdapter::getKeyForNewSession': 'session keys are created',
    'rtmfp::SessionCryptoKey::generateResponderKeyingComponent': 'keying is done', 'rtmfp::SessionCryptoKey::generateInitiatorKeyingComponent': 'keying is done',
    'rtmfp::SessionCryptoKey::initiatorCombineResponderKeyingComponent': 'keying is done', 'rtmfp::Session::Session': 'a session is created', 'rtmfp::RTMFP::makeSession': 'a session is created',
    'rtmfp::RTMFP::openSession': 'a session is created', 'rtmfp::RTMFP::scheduleRel': 'a timer is created', 'rtmfp::RTMFP::schedule': 'a timer is created'}


def run(ctx):
    OK, BAD = const(ctx, 'COOKIE_OK'), const(ctx, 'COOKIE_BAD')
    COUNT = field(ctx, 'RTMFP::m_waitingPerformCount')
    TABLES = fields(ctx, 'RTMFP::m_sessions', 'RTMFP::m_openingSessions', 'RTMFP::m_openSessionsByAddress', 'RTMFP::m_openSessionsByCanonicalEPD')
    OPENING = field(ctx, 'Session::m_openingAddresses')
    for n in ('rtmfp::RTMFP::checkCookie', 'rtmfp::RTMFP::findOpeningSessionByTag', 'rtmfp::RTMFP::makeSession'):
        ctx.ir.one(n)
    root = ctx.ir.one('rtmfp::StartupSession::onChunk')
    if [p['t'] for p in root.params][-1].find('sockaddr') < 0:
        raise AnalysisError('the startup chunk handler no longer takes the source address last')
    ADDR = ('s', 'arg', len(root.params) - 1)
    hits, tests, releases = set(), set(), set()

    def lowers(key):
        return any(o.k == 'store' and o.a[0] == 'fld' and o.a[2] == COUNT and o.info.get('casg') == '-' for k in reach(ctx, [key]) for b in ctx.ir.fn(k).blocks for o in b.ops)

    class Cl(Watch):
        tracked = frozenset([COUNT])
        observe = {'rtmfp::RTMFP::checkCookie': 'cookie', 'rtmfp::RTMFP::findOpeningSessionByTag': 'tag'}
        results = {'cookie': (BAD, OK)}

        def proven(self, st):
            if [m for m in self.marks(st, 'cookie') if st.rng(m[3])[:2] == (OK, OK) and m[2][2] == ADDR]:
                return 'cookie'
            if [m for m in self.marks(st, 'tag') if true(st, m[3])]:
                return 'tag'

        def events(self):
            return Watch.events(self) | set(EVENTS)

        def on_call(self, I, st, op, info, args, obj, fr):
            q = base_q(info['q'])
            if q.startswith('new '):
                return None
            what = EVENTS.get(q)
            place = info.get('obj')
            if what is None and place and place[0] == 'fld' and place[2] in TABLES and not info.get('const'):
                m = q.rsplit('::', 1)[-1]
                if m in ('append', 'prepend', 'add', 'insert', 'operator[]', 'emplace'):
                    what = 'an entry is made in a session table'
            if what:
                hits.add((fr.fn.key, op.l, what))
                if not self.proven(st):
                    I.fail(fr, op.l, '%s for a packet whose sender has neither returned a valid cookie for its address nor answered a hello of ours' % what)
            if q == 'rtmfp::IPlatformAdapter::perform':
                if self.proven(st) == 'cookie':
                    owed = self.marks(st, 'inc') or self.marks(st, 'owed')
                    if not owed and not self.marks(st, 'started'):
                        I.fail(fr, op.l, 'keying work of an initiator is started without being counted')
                    if owed and any(a[0] == 'lam' and lowers(a[1]) for a in args):
                        self.drop(st, lambda m: m in owed)
                        self.mark(st, ('handed', C0, (), C1))
                    self.mark(st, ('started', C0, (), C1))
            return Watch.on_call(self, I, st, op, info, args, obj, fr)

        def on_defer(self, I, st, op, info, i, lam, fr):
            if self.marks(st, 'handed'):
                self.drop(st, lambda m: m[0] == 'handed')
                self.mark(st, ('owed', C0, (('k', lam[1]),), C1))
            return Watch.on_defer(self, I, st, op, info, i, lam, fr)

        def on_store(self, I, st, p, v, op, fr):
            if p[0] == 'F' and p[2] == COUNT and op.info and op.info.get('casg'):
                if op.info['casg'] == '+':
                    old = st.mem.get(p)
                    r = st.rng(old) if old is not None else (0, psa.INF, None)
                    tests.add((fr.fn.key, op.l))
                    if r[1] > 4096:
                        I.fail(fr, op.l, 'the number of keying operations in progress is raised without a test against a limit')
                    if self.marks(st, 'inc'):
                        I.fail(fr, op.l, 'one unit of keying work is counted twice')
                    self.mark(st, ('inc', C0, (), C1))
                else:
                    releases.add((fr.fn.key, op.l))
                    if not self.marks(st, 'owed') and not self.marks(st, 'inc'):
                        I.fail(fr, op.l, 'the number of keying operations in progress is lowered on a path that did not start one')
                    self.drop(st, lambda m: m[0] in ('owed', 'inc'))

        def on_exit(self, I, st, rv, fr):
            if any(m[2] == (('k', fr.fn.key),) for m in self.marks(st, 'owed')):
                I.fail(fr, fr.fn.line, 'a unit of keying work can end without being released')
            if fr.up is None and self.marks(st, 'inc'):
                I.fail(fr, fr.fn.line, 'keying work is counted on a path that does not start it')

    ctx.rule('R1: reached from a startup chunk, calls that create a session, fill a session table, start asynchronous work or a timer, or do public-key work come only after checkCookie succeeded for the '
             'source address of the packet, or after the chunk named a session this side is opening')
    ctx.rule('R2: the count of keying work is raised only below a constant limit, once per unit started, and lowered exactly once on every path through the unit\'s task')
    goal = lambda k: base_q(ctx.prog.funcs[k]['q']) in EVENTS or any(o.k == 'call' and base_q(o.info['q']) in EVENTS for b in ctx.ir.fn(k).blocks for o in b.ops)
    path = leading_to(ctx, root.key, goal)
    cl = Cl()
    I = psa.Interp(ctx.ir, cl)
    I.callers = ctx.callers
    I.force = {k for k in path if ctx.ir.bq_of(k).startswith(('rtmfp::RTMFP::', 'rtmfp::StartupSession::')) or ctx.ir.fn(k).file.endswith('/RTMFP.cpp')} - {root.key}
    I.entry(root)
    for k, l, m, s in I.failures:
        ctx.viol('R1' if 'sender' in m else 'R2', k, l, m, s)
    ctx.count('functions_on_event_paths', len(path))
    ctx.count('functions_followed', len(I.visited_fns))
    ctx.count('steps', I.steps)
    ctx.need('protected_operations', len(hits), 6)
    ctx.need('limit_tests', len(tests), 1)
    ctx.need('releases', len(releases), 1)
    for h in sorted({h[2] for h in hits}):
        ctx.notes.append(h)
