"""Context handed to every rule: the analysed program, reporting, coverage counts and known findings."""
import json, os, time
import facts, ir as irmod, psa
from facts import AnalysisError, VERIF


class Ctx:
    def __init__(self, pid, tier='quick', prog=None):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.prog = prog or facts.load()
        self.ir = irmod.IR(self.prog)
        self._callers = None
        self.viols = []
        self.cov = {}
        self.notes = []
        self.rules = []
        self.short = []

    @property
    def callers(self):
        if self._callers is None:
            self._callers = psa.Callers(self.ir)
        return self._callers

    # ---- reporting
    def viol(self, rule, fn, line, msg, stack=(), detail=''):
        """fn: Fn, key or text.  The finding's identity is (rule, function, detail), not the line."""
        name, file = fn, ''
        f = fn
        if isinstance(fn, str) and fn in self.prog.funcs:
            f = self.ir.fn(fn)
        if hasattr(f, 'bq'):
            name, file = pretty(f.bq), f.file
        v = dict(rule=rule, function=name, file=file, line=line, message=msg, path=[pretty(x) for x in stack], detail=detail)
        for o in self.viols:
            if o['rule'] == rule and o['function'] == name and o['line'] == line and o['message'] == msg:
                return
        self.viols.append(v)

    def rule(self, text):
        self.rules.append(text)

    def count(self, name, n):
        self.cov[name] = self.cov.get(name, 0) + n

    def need(self, name, n, least):
        """count instances and refuse to give an answer when a rule matched less than was confirmed by hand"""
        self.cov[name] = n
        if n < least:
            self.short.append('%s: found %d instances, expected at least %d (the rule no longer sees the code)' % (name, n, least))
        return n >= least

    # ---- obligation lifting
    def discharge(self, rule, make, starts, **kw):
        fails, st = psa.discharge(self.ir, self.callers, make, starts, **kw)
        for key, line, msg, stack in fails:
            self.viol(rule, key, line, msg, stack)
        for k, v in st.items():
            self.count(k, v)
        return st


def pretty(q):
    """shorten lambda parameter lists in names"""
    out = []
    d = 0
    for ch in q:
        if ch == '(':
            d += 1
            continue
        if ch == ')':
            d -= 1
            continue
        if d == 0:
            out.append(ch)
    s = ''.join(out)
    while '::::operator' in s:
        s = s.replace('::::operator', '::{lambda}')
    return s


def finish(ctx, explanation, level='other'):
    kf = []
    p = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(p):
        kf = [k for k in json.load(open(p)).get('findings', []) if k['property'] == ctx.pid]
    new, known = [], []
    for v in ctx.viols:
        hit = [k for k in kf if k['rule'] == v['rule'] and k['function'] == v['function'] and k.get('detail', '') == v['detail']]
        (known if hit else new).append(v)
    edir = os.path.join(VERIF, 'evidence')
    os.makedirs(edir, exist_ok=True)
    cov = dict(explanation=explanation, rules=ctx.rules, translation_units=ctx.prog.tus, functions_in_program=len(ctx.prog.funcs))
    cov.update(ctx.cov)
    cov['violations_found'] = len(new)
    cov['known_findings_seen'] = len(known)
    ev = dict(property=ctx.pid, tier=ctx.tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=level, coverage=cov, wall_s=round(time.time() - ctx.t0, 3))
    json.dump(ev, open(os.path.join(edir, ctx.pid + '.json'), 'w'), indent=1)
    print('%s: analysed %d translation units, %d functions; %s' % (ctx.pid, ctx.prog.tus, len(ctx.prog.funcs),
          ', '.join('%s=%s' % (k, v) for k, v in ctx.cov.items() if isinstance(v, (int, float)))))
    for v in known:
        print('KNOWN-FINDING: property=%s %s: %s:%s %s: %s' % (ctx.pid, v['rule'], v['file'], v['line'], v['function'], v['message']))
    if new:
        rp = os.path.join(VERIF, 'build', 'reports')
        os.makedirs(rp, exist_ok=True)
        path = os.path.join(rp, ctx.pid + '.txt')
        with open(path, 'w') as f:
            for v in new:
                f.write('%s:%s: [%s] in %s: %s\n' % (v['file'], v['line'], v['rule'], v['function'], v['message']))
                for s in v['path']:
                    f.write('      reached through %s\n' % s)
        print(open(path).read(), end='')
        print('VIOLATION property=%s replay=%s' % (ctx.pid, path))
        return 1
    return 0
