"""C01: every byte the decoders read lies inside the range they were given."""
import re
import ir as irm
import zone as Z
from facts import AnalysisError
from zone import Exec, Frame, St, K, S, sym, add, sub, scale, is_lin, PMAX, INF, plain, trange, orange, BP, CBP, BPP, NAMES, Infeasible, TooHard

EXPLANATION = ('relational abstract interpretation (linear inequalities over pointers, lengths and sizes; loop invariants guessed and checked; '
               'callee summaries): every read through a byte pointer, copy, comparison and range construction is shown to lie inside a range the '
               'function was given, and every call states a range the caller has; no obligation may remain unshown')

FIXED = (1, 2, 3, 4, 8, 16, 20, 32, 48, 64, 128, 1024, 4096, 8192, 16384, 65536)


class Bounds(Exec):
    EXITS = 6

    def exempt(self, fn):
        return exempt(self.ctx, fn)

    def __init__(self, ctx):
        Exec.__init__(self, ctx)
        self.fixed = {}
        self.neednn = set()
        self._inl = {}
        self.callers = {}
        for fn in self.ir.all():
            for b in fn.blocks:
                for o in b.ops:
                    if o.k in ('call', 'new', 'ctor', 'ctorval'):
                        for k in (self.ir.targets(o.info) if o.k == 'call' else [o.info.get('key')]):
                            if k:
                                self.callers.setdefault(k, set()).add(fn.key)

    # -- which functions state their ranges
    def ptypes(self, fn):
        return [p['t'] for p in fn.params]

    def cover(self, fn):
        ts = self.ptypes(fn)
        ps = self.pairs(ts)
        cov = set()
        for k, i, j in ps:
            cov |= {i, j}
        unc = []
        for i, t in enumerate(ts):
            if i in cov:
                continue
            if BP.match(plain(t)) and not irm.is_ref(t):
                unc.append(i)
        return ps, unc

    def outlike(self, ts, i):
        # (const uint8_t **out, const uint8_t *limit) never states an output
        return False

    def small(self, fn):
        if plain(fn.d.get('ret') or '') in Z.SZ and len(fn.reach) <= 8 and not fn.params:
            return all(t[0] == 'b' for t in self.shape(fn).tree)
        return len(fn.reach) <= 3 and sum(len(fn.blocks[b].ops) for b in fn.reach) <= 30 and all(t[0] == 'b' for t in self.shape(fn).tree)

    def inlineable(self, key):
        r = self._inl.get(key)
        if r is None:
            r = self._inl[key] = self.inl(key)
        return r

    def inl(self, key):
        fn = self.ir.fn(key)
        if fn is None or self.ir.over.get(key) or key in self.ir.pure:
            return False
        ps, unc = self.cover(fn)
        if fn.is_lambda:
            return True
        m = self.ir.method.get(key)
        if m is not None and m.get('over'):
            return False
        refs = [p for p in fn.params if BPP.match(p['t'].strip())]
        curs = [i for k, i, j in ps if k == 'cur']
        if refs and len(refs) > len(curs) and not ps:
            return True
        if unc and any(CBP.match(plain(fn.params[i]['t'])) or True for i in unc) and not ps:
            return True
        if BP.match(plain(fn.d.get('ret') or '')) and not ps:
            return True
        if not ps and self.small(fn):
            return True
        if not ps and any(is_byteclass(p['t']) for p in fn.params):
            return True
        return False

    # -- analysis of one function on its own
    def enter(self, fn, nn=False):
        st = St()
        fr = Frame(fn, ('r', fn.key))
        ts = self.ptypes(fn)
        for i, p in enumerate(fn.params):
            t = p['t']
            l = ('v', fr.id, p['id'])
            if irm.is_ref(t) and not irm.by_value_ref(t):
                s = S(sym(('p', fn.key, i), 1, PMAX))
                st.mem[l] = s
                self.preload(st, s, irm.noref(t), fr)
            elif irm.is_scalar(irm.noref(t)) or irm.is_sp(t) or irm.is_fn(t):
                r = orange(t)
                s = S(sym(('p', fn.key, i), r[0], r[1]))
                st.mem[l] = s
                if plain(t).endswith('*') and not re.match(r'^const ', plain(t)) or BPP.match(t.strip()):
                    self.preload(st, s, re.sub(r'\s*\*$', '', plain(t)), fr)
        for kind, i, j in self.pairs(ts):
            x = st.mem[('v', fr.id, fn.params[i]['id'])]
            y = st.mem[('v', fr.id, fn.params[j]['id'])]
            if kind == 'cur':
                x = self.load(st, ('D', x), 'const unsigned char *', fr, 'cur')
            if kind == 'len':
                st.assume(add(K(PMAX), y, -1))
                y = add(x, y)
                st.assume(add(K(PMAX), y, -1))
            else:
                st.assume(sub(y, x))
            self.region(st, x, y)
            if nn:
                st.assume(add(y, K(-1)))
        for i, t in enumerate(ts):
            if BP.match(plain(t)) and not irm.is_ref(t) and (fn.key, i) in self.fixed:
                x = st.mem[('v', fr.id, fn.params[i]['id'])]
                self.region(st, x, add(x, K(self.fixed[(fn.key, i)])))
            if i + 1 < len(ts) and re.match(r'^(unsigned char|void) ?\*$', plain(t)) and ts[i + 1] == 'unsigned long &':
                x = st.mem[('v', fr.id, fn.params[i]['id'])]
                n = self.load(st, ('D', st.mem[('v', fr.id, fn.params[i + 1]['id'])]), 'unsigned long', fr, 'io')
                st.assume(add(K(PMAX), n, -1))
                self.region(st, x, add(x, n))
                st.assume(add(K(PMAX), add(x, n), -1))
        return st, fr

    def preload(self, st, s, t, fr):
        if irm.is_scalar(t) and not t.startswith('const unsigned char') or t.rstrip().endswith('*'):
            self.load(st, ('D', s), t, fr, 'pre')

    def analyse(self, fn, nn=False):
        st, fr = self.enter(fn, nn)
        sroot = self.root
        self.root = fn
        rets = []
        try:
            self.run_tree(self.shape(fn).tree, {fn.entry: [st]}, fr, fn.reach, None, rets)
            for kind, i, j in self.pairs(self.ptypes(fn)):
                if kind != 'cur':
                    continue
                p = S(sym(('p', fn.key, i)))
                x0 = S(sym(('i', 0, ('D', p), (0, PMAX)), 0, PMAX))
                lim = S(sym(('p', fn.key, j)))
                for v, s in rets:
                    x = s.mem.get(('D', p), x0)
                    ok = is_lin(x) and s.prove(sub(x, x0)) and s.prove(sub(lim, x))
                    if self.recording:
                        self.nobl += 1
                        self.oblkeys.add((fn.key, fn.line, 'cursor'))
                        if not ok:
                            self.fail(s, fr, fn.line, 'cursor left outside the range', show_v(x))
        finally:
            self.root = sroot
        return rets, fr

    def summary(self, key):
        if key in self.sums:
            return self.sums[key]
        if key in self.inprog:
            return None
        fn = self.ir.fn(key)
        if fn is None:
            return None
        self.inprog.append(key)
        srec = self.recording
        ssteps = self.steps
        self.recording = 1
        self.steps = 0
        try:
            mine = lambda: {k for k in self.viols if k[0] == key}
            ps, unc = self.cover(fn)
            self.fixlens(fn, ps, unc)
            rets, fr = self.analyse(fn)
            bad = mine()
            if bad and ps and key not in self.neednn:
                first = {k: self.viols.pop(k) for k in bad}
                rets2, fr2 = self.analyse(fn, nn=True)
                bad2 = mine()
                if not bad2:
                    self.neednn.add(key)
                    rets, fr = rets2, fr2
                else:
                    self.viols.update(first)
            r = self.project(fn, fr, rets)
        finally:
            self.inprog.pop()
            self.recording = srec
            self.steps = ssteps
        self.sums[key] = r
        return r

    def fixlens(self, fn, ps, unc):
        """pointers that come without a length: the smallest fixed length that suffices"""
        ts = self.ptypes(fn)
        todo = [i for i in unc if not (i + 1 < len(ts) and ts[i + 1] == 'unsigned long &')]
        if not todo:
            return

        def run(n):
            for i in todo:
                self.fixed[(fn.key, i)] = n
            sv = dict(self.viols)
            self.analyse(fn)
            bad = {k for k in self.viols if k[0] == fn.key}
            self.viols = sv
            return bad
        for i in todo:
            self.fixed.pop((fn.key, i), None)
        sv = dict(self.viols)
        self.analyse(fn)
        none = {k for k in self.viols if k[0] == fn.key}
        self.viols = sv
        if not none:
            return
        best = run(1 << 32)
        if best == none:
            for i in todo:
                self.fixed.pop((fn.key, i), None)
            return
        for n in FIXED:
            if run(n) == best:
                return
        for i in todo:
            self.fixed.pop((fn.key, i), None)

    def project(self, fn, fr, rets):
        out = {}
        pure = not fn.cls or fn.d.get('static') or (self.ir.method.get(fn.key) or {}).get('static')
        ptrs = {}
        for i, p in enumerate(fn.params):
            t = p['t']
            if ((irm.is_ref(t) and not irm.by_value_ref(t)) or plain(t).endswith('*')) and outp(pointee(t).strip()):
                ptrs[i] = ('D', S(sym(('p', fn.key, i))))
        epochs = set()
        for v, s in rets:
            epochs.add(s.epoch)
            outs = {}
            live = set()
            for i, l in ptrs.items():
                x = s.mem.get(l)
                if x is None and s.epoch == 0 and irm.is_scalar(pointee(fn.params[i]['t'])) | plain(pointee(fn.params[i]['t'])).endswith('*'):
                    x = self.load(s, l, pointee(fn.params[i]['t']), fr, 'unchanged')
                if x is not None and (is_lin(x) or x[0] == 'cmp'):
                    if x[0] == 'cmp':
                        continue
                    outs[i] = x
                    self.syms(x, live)
            if v is not None and v[0] not in ('L', 'cmp'):
                v = None
            alts = [(v, s)]
            if v is not None and v[0] == 'cmp':
                alts = []
                for tr in (True, False):
                    for s2 in self.assume(s.copy(), v, tr):
                        alts.append((K(int(tr)), s2))
            for v2, s2 in alts:
                defs = {}
                keep = set()
                nv = v2
                if v2 is not None and v2[2]:
                    r = orange(fn.d.get('ret') or '')
                    rs = sym(('rv', fn.key), r[0], r[1])
                    defs[rs] = v2
                    keep.add(rs)
                    nv = S(rs)
                no = []
                for i, x in sorted(outs.items()):
                    init = s2.mem.get(ptrs[i])
                    if x[1] == 0 and len(x[2]) == 1 and self.ext(x[2][0][0]):
                        no.append((i, x))
                        self.syms(x, keep)
                        continue
                    r = orange(pointee(fn.params[i]['t']))
                    os_ = sym(('o', fn.key, i), r[0], r[1])
                    defs[os_] = x
                    keep.add(os_)
                    no.append((i, S(os_)))
                fs = self.eliminate(s2.facts, defs, keep)
                k = (nv, tuple(no), fs)
                out[k] = k
        res = self.dominant(list(out.values()))
        if len(res) > self.EXITS:
            res = self.mergesum(fn, fr, res)
        return {'exits': res, 'pure': pure and epochs <= {0}}

    def ext(self, x):
        n = NAMES[x]
        return n[0] == 'p' or (n[0] == 'i' and n[1] == 0 and n[2][0] == 'D')

    def eliminate(self, facts, defs, keep):
        """the facts about parameters and results only"""
        fs = set(facts)
        eqs = []
        for s, x in defs.items():
            e = sub(S(s), x)
            fs.add(e)
            fs.add(scale(e, -1))
        vis = lambda x: x in keep or self.ext(x)
        while True:
            occ = {}
            for f in fs:
                for x, c in f[2]:
                    if not vis(x):
                        o = occ.setdefault(x, ([], []))
                        o[0 if c > 0 else 1].append(f)
            if not occ:
                break
            # an equality gives a substitution
            done = False
            for x, (ps, ns) in sorted(occ.items()):
                for f in ps:
                    if dict(f[2])[x] == 1 and scale(f, -1) in fs:
                        val = sub(S(x), f)      # x = val
                        nf = set()
                        for g in fs:
                            d = dict(g[2])
                            if x in d:
                                c = d[x]
                                g = add(sub(g, scale(S(x), c)), val, c)
                            nf.add(Z.norm(g))
                        # the range of the symbol itself
                        if Z.RLO[x] > -INF:
                            nf.add(add(val, K(-Z.RLO[x])))
                        if Z.RHI[x] < INF:
                            nf.add(add(K(Z.RHI[x]), val, -1))
                        fs = {g for g in nf if Z.rng(g)[0] < 0}
                        done = True
                        break
                if done:
                    break
            if done:
                continue
            x, (ps, ns) = min(occ.items(), key=lambda kv: (len(kv[1][0]) * len(kv[1][1]), kv[0]))
            if Z.RLO[x] > -INF:
                ps = ps + [add(S(x), K(-Z.RLO[x]))]
            if Z.RHI[x] < INF:
                ns = ns + [add(K(Z.RHI[x]), S(x), -1)]
            nf = {f for f in fs if x not in dict(f[2])}
            if len(ps) * len(ns) <= 36:
                for p in ps:
                    for n in ns:
                        cp, cn = dict(p[2])[x], -dict(n[2])[x]
                        e = Z.norm(add(scale(p, cn), scale(n, cp)))
                        if Z.rng(e)[0] < 0 and len(e[2]) <= 5:
                            nf.add(e)
            fs = nf
        # redundant ones
        out = set(fs)
        for f in sorted(fs, key=lambda f: (-len(f[2]), -abs(f[1]), f)):
            t = St()
            t.facts = frozenset(out - {f})
            if t.prove(f, 5):
                out.discard(f)
        return frozenset(out)

    def dominant(self, res):
        res = sorted(res, key=lambda e: (len(e[2]), repr(e)))
        out = []
        for e in res:
            t = St()
            t.facts = e[2]
            if any(o[0] == e[0] and o[1] == e[1] and all(t.prove(f, 5) for f in o[2]) for o in out):
                continue
            out.append(e)
        return out

    def mergesum(self, fn, fr, res):
        """join exits that give the same kind of answer"""
        sts = []
        for v, outs, fs in res:
            s = St()
            s.facts = fs
            s.mem[('v', fr.id, '$rv')] = v if v is not None else K(0)
            for i, x in outs:
                s.mem[('v', fr.id, '$o%d' % i)] = x
            ts = self.ptypes(fn)
            st0, _ = self.enter(fn)
            s.regions = st0.regions
            sts.append((v, s))
        groups = {}
        for v, s in sts:
            z = v is None or (not v[2] and v[1] == 0)
            sig = tuple(sorted(f for f in s.facts if len(f[2]) == 1 and NAMES[f[2][0][0]][0] == 'p'))
            init = tuple(k for k, x in sorted(s.mem.items()) if k[0] == 'v' and is_lin(x) and len(x[2]) == 1 and NAMES[x[2][0][0]][0] == 'i')
            groups.setdefault((z, v is None, sig, init), []).append(s)
        out = []
        n = 0
        for (z, none, sig, init), ss in groups.items():
            while len(ss) > 3:
                n += 1
                ss = [self.join(ss[0], ss[1], fr, ('sum', n))] + ss[2:]
            for s in ss:
                rv = None if none else s.mem.get(('v', fr.id, '$rv'))
                outs = tuple(sorted((int(k[2][2:]), x) for k, x in s.mem.items() if k[0] == 'v' and k[2].startswith('$o') and is_lin(x)))
                out.append((rv, outs, s.facts))
        return out

    # -- calls
    def project_call(self, st, op, fr, at, key, tg):
        info = op.info
        fn = self.ir.fn(key)
        virt = key not in self.ir.prog.funcs or info.get('virt') and (len(tg) > 1 or (tg and tg[0] != key))
        if not virt and (self.inlineable(key) or self.localobj(st, op, fr, fn)):
            r = self.inline(st, op, fr, at, key)
            if r is not None:
                return r
        d = self.ir.prog.funcs.get(key) or self.ir.prog.funcs[tg[0]]
        pts = [p['t'] for p in d['params']]
        ps = self.pairs(pts)
        io = [i for i in range(len(pts) - 1) if re.match(r'^(unsigned char|void) ?\*$', plain(pts[i])) and pts[i + 1] == 'unsigned long &']
        anyfixed = any(BP.match(plain(t)) for t in pts)
        if not ps and not io and not anyfixed:
            return None
        keys = tg if virt else [key]
        self.call_args(st, op, fr, at)
        args = info['args']
        vals = []
        for i, p in enumerate(pts):
            a = args[i] if i < len(args) else ('unk',)
            v = self.val(st, a, fr)
            if v is None and a[0] == 'unk':
                v = self.default(d['params'][i])
            vals.append(v)
        # buffers with an in/out length
        for i in io:
            l = self.ptr_loc(vals[i + 1]) if vals[i + 1] is not None else None
            n = self.load(st, l, 'unsigned long', fr, ('io', at)) if l else None
            if vals[i] is not None and vals[i][0] == 'L':
                self.check_read(st, vals[i], n, fr, op.l, 'buffer given to %s' % irm.short(info['q']))
        sums = []
        bad = False
        for k in keys:
            if k in self.ir.pure and self.ir.fn(k) is None:
                continue
            s = self.summary(k)
            if s is None:
                bad = True
                continue
            sums.append((k, s))
            for i in range(len(pts)):
                n = self.fixed.get((k, i))
                if n and vals[i] is not None and is_lin(vals[i]):
                    self.check_read(st, vals[i], K(n), fr, op.l, 'pointer to %d bytes given to %s' % (n, irm.short(info['q'])))
            if k in self.neednn:
                for kind, i, j in ps:
                    x, y = vals[i], vals[j]
                    if kind == 'cur':
                        x = self.load(st, self.ptr_loc(x), 'const unsigned char *', fr, ('cur', at)) if x else None
                    lim = add(x, y) if kind == 'len' and is_lin(x) and is_lin(y) else y
                    if self.recording:
                        self.nobl += 1
                        if not is_lin(lim) or not st.prove(add(lim, K(-1))):
                            self.fail(st, fr, op.l, 'a null limit may be given to %s, which takes it as no limit' % irm.short(info['q']), show_v(lim))
        if bad or not sums:
            # recursion: only the cursor convention is known
            curs = []
            for kind, i, j in ps:
                if kind == 'cur' and vals[i] is not None and is_lin(vals[j]):
                    l = self.ptr_loc(vals[i])
                    x = self.load(st, l, 'const unsigned char *', fr, ('cur', at))
                    if is_lin(x):
                        curs.append((l, x, vals[j]))
            self.set(st, op, fr, self.fresh(fr, ('r', at), info.get('t')))
            self.after_unknown(st, op, fr, at)
            for l, x, lim in curs:
                n = self.fresh_r(fr, ('cn', at, l), 0, PMAX)
                st.mem[l] = n
                st.assume(sub(n, x))
                st.assume(sub(lim, n))
            return [st]
        out = []
        for k, s in sums:
            for n, ex in enumerate(s['exits']):
                s2 = self.instantiate(st.copy(), op, fr, at, k, ex, vals, s['pure'], (k if virt else None, n))
                if s2 is not None:
                    out.append(s2)
        return out

    def localobj(self, st, op, fr, fn):
        """a method that leaves byte ranges in members of an object the caller has as a local"""
        if fn is None or op.k != 'call' or op.info.get('obj') is None or fn.d.get('static'):
            return False
        if not self.local(self.loc(st, op.info['obj'], fr)):
            return False
        return any(o.k == 'store' and o.a[0] == 'fld' and o.a[1] in (('deref', ('this',)), ('this',)) and CBP.match(plain(self.loctype(('F', None, o.a[2]), fr) or '')) for b in fn.reach for o in fn.blocks[b].ops)

    def instantiate(self, st, op, fr, at, key, ex, vals, pure, tag):
        rv, outs, facts = ex
        fn = self.ir.fn(key)
        m = {}
        for i, v in enumerate(vals):
            r = orange(fn.params[i]['t'])
            if irm.is_ref(fn.params[i]['t']) and not irm.by_value_ref(fn.params[i]['t']):
                r = (1, PMAX)
            ps = sym(('p', key, i), r[0], r[1])
            if v is not None and v[0] in ('addr', 'cp'):
                m[ps] = S(sym(('addr', v[1]), 1, PMAX))
            elif is_lin(v):
                m[ps] = v
            else:
                m[ps] = self.fresh_r(fr, ('arg', at, i), r[0], r[1])
        argloc = {}
        for i, v in enumerate(vals):
            if v is not None and v[0] in ('addr', 'cp'):
                argloc[i] = v[1]
            elif is_lin(v) and v[2]:
                argloc[i] = ('D', v)

        def conv(e):
            r = K(e[1])
            for s, c in e[2]:
                x = m.get(s)
                if x is None:
                    n = NAMES[s]
                    if n[0] == 'i' and n[2][0] == 'D' and is_lin(n[2][1]) and len(n[2][1][2]) == 1:
                        pn = NAMES[n[2][1][2][0][0]]
                        if pn[0] == 'p' and pn[1] == key and pn[2] in argloc:
                            x = self.load(st, argloc[pn[2]], pointee(fn.params[pn[2]]['t']), fr, ('pi', at))
                            if not is_lin(x):
                                x = None
                    if x is None:
                        x = S(sym(('c', fr.id, at, tag[0], n), Z.RLO[s], Z.RHI[s]))
                    m[s] = x
                r = add(r, x, c)
            return r
        try:
            fl = [conv(f) for f in facts]
            nrv = conv(rv) if rv is not None else None
            nouts = {i: conv(x) for i, x in outs}
            for f in sorted(fl, key=lambda f: len(f[2])):
                st.assume(f)
        except Infeasible:
            return None
        # effects
        for i, v in enumerate(vals):
            l = argloc.get(i)
            if l is None:
                if v is not None and v[0] == 'lam':
                    self.lam_effects(st, v, fr, (at, i))
                continue
            if i in nouts:
                init = sym(('p', key, i))
                self.store(st, l, nouts[i], fr, (at, i))
            elif self.modified(op, i):
                self.havoc_loc(st, l, fr, (at, i))
        if not pure:
            self.havoc_heap(st, fr, at)
        t = op.info.get('t') or ''
        if nrv is not None:
            self.set(st, op, fr, nrv)
        elif Z.is_bytes(t):
            l = ('O', fr.id, at)
            self.setsize(st, l, None, fr, at)
            self.set(st, op, fr, ('cp', l))
        else:
            self.set(st, op, fr, self.fresh(fr, ('r', at), t) if trange(t)[0] > -INF else None)
        return st


def pointee(t):
    return irm.noref(t) if irm.is_ref(t) else re.sub(r'\s*\*$', '', plain(t))


def outp(t):
    """something a function may hand a result back through"""
    if t.endswith('*'):
        return True
    return not re.match(r'^(const )?(unsigned )?char$|^const |^void$', t)


def is_byteclass(t):
    return False


def show_v(v):
    return Z.show(v) if v is not None else '?'


BYTEISH = re.compile(r'unsigned char')


def relevant(fn):
    for b in fn.reach:
        for o in fn.blocks[b].ops:
            i = o.info or {}
            if o.k == 'ld' and o.a[0] in ('deref', 'elem') and Z.UCH.match(irm.noref(i.get('t', ''))):
                return True
            if o.k in ('call', 'callv', 'ctor', 'ctorval', 'new'):
                q = i.get('q', '')
                if q in ('memcpy', 'memmove', 'memcmp'):
                    return True
                if o.k in ('ctor', 'ctorval') and Z.is_bytes(i.get('t')) and len([a for a in i['args'] if a[0] != 'unk']) >= 2:
                    return True
                if o.k == 'call' and Z.is_bytes(i.get('cls')) and q.rsplit('::', 1)[-1] in ('insert', 'assign', 'append', 'operator[]', 'front', 'back'):
                    return True
                if o.k == 'call' and any(CBP.match(plain(t)) for t in (i.get('pts') or [])):
                    return True
    return any(BP.match(plain(p['t'])) for p in fn.params)


# what is tried in turn until every obligation of a function is shown: states kept apart, exits kept apart in a
# summary, effort of the inequality search.  Any of them showing an obligation is a proof of it.
ATTEMPTS = ((16, 6, (6, 400, 2)), (16, 12, (6, 400, 2)), (32, 6, (9, 2000, 4)), (32, 16, (8, 1200, 3)))
LIMIT = 170


class Late(Exception):
    pass


def exempt(ctx, fn):
    """what is read here was written by this endpoint, not taken from anyone"""
    if fn.cls and fn.cls.endswith('PacketAssembler'):
        return 'the packet being assembled'
    m = ctx.ir.method.get(fn.key) or {}
    for o in m.get('over', []):
        q = ctx.ir.method.get(o, {})
        d = ctx.ir.prog.funcs.get(o)
        if '17SessionCryptoKey7encrypt' in o or '16SessionCryptoKey7encrypt' in o:
            return 'input of encryption: the packet this endpoint assembled'
    return None


TASK = {}


def one(job):
    """all attempts at one function, in a process of its own: what is shown does not depend on what was analysed before"""
    key, tries = job
    import signal, time

    def late(*a):
        raise Late()
    signal.signal(signal.SIGALRM, late)
    res = None
    t0 = time.time()
    for n, (maxst, exits, effort) in enumerate(tries):
        z = Bounds(TASK['ctx'])
        z.immut()
        z.MAXST = maxst
        z.EXITS = exits
        Z.EFFORT[:] = list(effort)
        signal.alarm(LIMIT)
        try:
            z.summary(key)
            v = {k: (d, c) for k, (d, c, st) in z.viols.items() if k[0] == key}
            r = (v, z.nobl, {o for o in z.oblkeys}, key in z.neednn, {k: x for k, x in z.fixed.items() if k[0] == key}, None)
        except TooHard as e:
            r = (None, 0, set(), False, {}, str(e))
        except Late:
            r = (None, 0, set(), False, {}, 'over %d s' % LIMIT)
        finally:
            signal.alarm(0)
        if res is None or res[0] is None or (r[0] is not None and len(r[0]) < len(res[0])):
            res = r
        if res[0] is not None and not res[0]:
            break
        if time.time() - t0 > 400:
            break
    return key, res, n + 1, time.time() - t0


def run(ctx, only=None, debug=False):
    import multiprocessing, sys
    z = Bounds(ctx)
    z.immut()
    fns, skipped = [], []
    for fn in sorted(ctx.ir.all(), key=lambda f: (f.file, f.line, f.key)):
        if not relevant(fn) or only and only not in fn.bq:
            continue
        if z.inlineable(fn.key) and not fn.is_lambda and z.callers.get(fn.key):
            continue
        why = exempt(ctx, fn)
        if why:
            skipped.append('%s (%s)' % (fn.bq, why))
            continue
        fns.append(fn)
    for fn in fns:
        z.shape(fn)
        z.small(fn)
    TASK['ctx'] = ctx
    jobs = [(fn.key, ATTEMPTS) for fn in fns]
    # the long ones first
    jobs.sort(key=lambda j: -sum(len(ctx.ir.fn(j[0]).blocks[b].ops) for b in ctx.ir.fn(j[0]).reach))
    mp = multiprocessing.get_context('fork')
    obl = 0
    keys = set()
    hard = []
    done = 0
    nn = []
    fixed = {}
    again = 0
    with mp.Pool(8, maxtasksperchild=1) as pool:
        results = {k: (r, n, t) for k, r, n, t in pool.imap_unordered(one, jobs, 1)}
    for fn in fns:
        (v, nobl, ok, isnn, fx, err), n, t = results[fn.key]
        if debug:
            sys.stderr.write('%5.1fs %s:%d %s  %s %s %s\n' % (t, fn.file, fn.line, fn.bq, 'x%d' % n if n > 1 else '', 'NN' if isnn else '', err or ''))
        if v is None:
            hard.append('%s: %s' % (fn.bq, err))
            continue
        done += 1
        again += n > 1
        obl += nobl
        keys |= ok
        fixed.update(fx)
        if isnn:
            nn.append(fn.bq)
        for k, (detail, chain) in sorted(v.items(), key=lambda kv: kv[0][1:]):
            at = ctx.ir.fn(k[1])
            if debug:
                sys.stderr.write('      %s:%d %s | %s\n' % (at.file, k[2], k[3], detail[:300]))
            ctx.viol('R1', at, k[2], '%s: not shown to lie inside the bytes %s was given (%s)' % (k[3], fn.bq, detail[:240]), chain[::-1], detail=k[3])
    ctx.count('functions_analysed', done)
    ctx.count('obligations_shown', obl)
    ctx.count('functions_needing_a_second_attempt', again)
    if only:
        return done
    ctx.need('functions', done, 200)
    ctx.need('places_where_bytes_are_read_or_ranges_given', len(keys), 350)
    ctx.notes.append('ranges stated by functions that are not given a length, inferred and checked at every call: ' + ', '.join(sorted('%s parameter %d: %d bytes' % (ctx.ir.fn(k).bq, i, n) for (k, i), n in fixed.items())))
    ctx.notes.append('a null limit means no limit, so every caller is shown to give one: ' + ', '.join(sorted(nn)))
    ctx.notes.append('not decoders, left to C02: ' + ', '.join(skipped))
    if hard:
        raise AnalysisError('%d functions too hard: %s' % (len(hard), '; '.join(hard)))
    return done
