"""Decoding recursion is bounded by a constant."""
import re
import psa
from lib import *

EXPLANATION = ('The call graph of the whole library (virtual calls resolved to every override) is searched for cycles through functions that read input bytes. In each cycle an unsigned depth '
               'argument is followed symbolically: every call inside the cycle passes it on unchanged or changed by a constant in one direction, every cycle changes it at least once and passes a '
               'place where the calls are reached only after it was compared with a constant limit.')
MAX = 1024
BYTES = re.compile(r'^(const )?(unsigned char|signed char|char|void) *(const )?\*')
INT = re.compile(r'^(const )?(unsigned |signed )?(char|short|int|long|long long)( const)?$')


def callgraph(ctx, lambdas=False):
    ir = ctx.ir
    g = {}
    for fn in ir.all():
        s = g.setdefault(fn.key, set())
        for b in fn.blocks:
            if b.id not in fn.reach:
                continue
            for o in b.ops:
                if o.k == 'call':
                    s.update(t for t in ir.targets(o.info))
                elif o.k in ('new', 'ctor', 'ctorval') and o.info.get('key'):
                    s.add(o.info['key'])
    return {k: {x for x in v if x in ir.prog.funcs} for k, v in g.items()}


def sccs(g):
    idx, low, st, on, out, n = {}, {}, [], set(), [], [0]
    for root in g:
        if root in idx:
            continue
        work = [(root, iter(sorted(g[root])))]
        idx[root] = low[root] = n[0]
        n[0] += 1
        st.append(root)
        on.add(root)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in g:
                    continue
                if w not in idx:
                    idx[w] = low[w] = n[0]
                    n[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(sorted(g[w]))))
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == idx[v]:
                    k = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        k.append(w)
                        if w == v:
                            break
                    if len(k) > 1 or v in g.get(v, ()):
                        out.append(frozenset(k))
    return out


def reads_input(fn):
    """takes a position in bytes to be read (pointer to constant bytes)"""
    if not any(BYTES.match(p['t']) and 'const' in p['t'].split('*')[0] for p in fn.params):
        return False
    return any(o.k == 'ld' and o.a[0] in ('deref', 'elem') and (o.info.get('t') or '').replace('const ', '') in ('unsigned char', 'char') for b in fn.blocks for o in b.ops)


def run(ctx):
    ir = ctx.ir
    comps = [c for c in sccs(callgraph(ctx)) if any(reads_input(ir.fn(k)) for k in c)]
    ctx.rule('every call cycle through a function that reads input bytes carries a depth argument that only moves one way, moves on every cycle, and is compared with a constant limit (at most %d) before the cycle is continued' % MAX)
    edges = 0
    for comp in comps:
        calls = []      # (caller, line, callee, args, ranges)

        class Cl(psa.Client):
            def inline(self, I, key, info):
                return key not in comp and I.helper(key)

            def on_call(self, I, st, op, info, args, obj, fr):
                for t in ir.targets(info):
                    if t in comp:
                        rs = [st.rng(('s', 'arg', i)) for i in range(len(fr_root(fr).params))]
                        calls.append((fr_root(fr).key, op.l, t, args, rs))
                return None
        for k in sorted(comp):
            I = psa.Interp(ir, Cl())
            I.entry(ir.fn(k))
        edges += len(calls)
        # possible depth parameters
        par = {}
        for k in comp:
            par[k] = [i for i, p in enumerate(ir.fn(k).params) if INT.match(p['t'])]
        best = None
        for assign in assignments(sorted(comp), par, calls):
            bad = judge(ir, comp, assign, calls)
            if best is None or len(bad) < len(best):
                best = bad
            if not bad:
                break
        if best is None:
            k = sorted(comp)[0]
            best = []
            for k in sorted(comp):
                if not par[k]:
                    best.append((k, ir.fn(k).line, 'is part of a call cycle that reads input but carries no depth'))
        for k, l, m in best:
            ctx.viol('recursion', k, l, m)
    ctx.need('decoding_cycles', len(comps), 1)
    ctx.need('calls_inside_cycles', edges, 2)
    ctx.count('functions_in_cycles', sum(map(len, comps)))


def fr_root(fr):
    while fr.up:
        fr = fr.up
    return fr.fn


def delta(v, src):
    """v = caller's depth (argument src) + constant"""
    a = ('s', 'arg', src)
    if v == a:
        return 0
    if v[0] == 'op' and v[1] in ('+', '-') and v[2] == a and v[3][0] == 'c':
        return v[3][1] if v[1] == '+' else -v[3][1]
    return None


def assignments(keys, par, calls):
    """choose a depth parameter per function, functions without one get None; consistent along calls where possible"""
    seeds = [(k, i) for k in keys for i in par[k]]
    for k0, i0 in seeds:
        a = {k0: i0}
        ch = True
        while ch:
            ch = False
            for u, l, t, args, rs in calls:
                if t in a and a[t] is not None and u not in a and a[t] < len(args):
                    for i in par[u]:
                        if delta(args[a[t]], i) is not None:
                            a[u] = i
                            ch = True
                            break
                elif u in a and a[u] is not None and t not in a:
                    for i in par[t]:
                        if i < len(args) and delta(args[i], a[u]) is not None:
                            a[t] = i
                            ch = True
                            break
        yield {k: a.get(k) for k in keys}


def judge(ir, comp, a, calls):
    bad = []
    ds = []
    for u, l, t, args, rs in calls:
        if a[u] is None or a[t] is None or a[t] >= len(args):
            bad.append((u, l, 'continues a call cycle that reads input without passing a depth on'))
            continue
        d = delta(args[a[t]], a[u])
        if d is None:
            bad.append((u, l, 'continues a call cycle with a depth not derived from its own'))
            continue
        ds.append((u, l, t, d, rs[a[u]]))
    if bad:
        return bad
    if any(d > 0 for _, _, _, d, _ in ds) and any(d < 0 for _, _, _, d, _ in ds):
        return [(u, l, 'moves the depth against the direction of the rest of the cycle') for u, l, t, d, r in ds if d < 0]
    down = any(d < 0 for _, _, _, d, _ in ds)
    # cycles made only of calls that keep the depth
    g = {k: set() for k in comp}
    for u, l, t, d, r in ds:
        if d == 0:
            g[u].add(t)
    for c in sccs(g):
        for u, l, t, d, r in ds:
            if d == 0 and u in c and t in c:
                bad.append((u, l, 'repeats a call cycle that reads input without raising the depth'))
    # cycles that never pass a limit
    g = {k: set() for k in comp}
    lim = {}
    for u, l, t, d, r in ds:
        bounded = (r[0] > 0 or 0 in r[2]) if down else r[1] <= MAX
        if not bounded:
            g[u].add(t)
            lim[(u, t)] = l
    for c in sccs(g):
        for (u, t), l in sorted(lim.items()):
            if u in c and t in c:
                bad.append((u, l, 'continues a call cycle that reads input before the depth was compared with a limit'))
    return bad
