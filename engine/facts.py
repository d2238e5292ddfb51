"""Loads the resolved program: runs the clang extractor over every translation unit of the
library in /repo and merges the result.  The cache is keyed by the content of every source
file and of the extractor, so a change in the tree is always seen."""
import glob, hashlib, json, os, pickle, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
EXTRACT = os.path.join(BUILD, 'extract')


class AnalysisError(Exception):
    """the check cannot give an answer (vanished anchor, parse failure)"""


def sh_tool():
    src = os.path.join(VERIF, 'tool', 'extract.cpp')
    stamp = EXTRACT + '.sha'
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()
    if not (os.path.exists(EXTRACT) and os.path.exists(stamp) and open(stamp).read() == h):
        os.makedirs(BUILD, exist_ok=True)
        r = subprocess.run(['bash', os.path.join(VERIF, 'tool', 'build.sh'), EXTRACT], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError('extractor does not build: ' + r.stderr[-2000:])
        open(stamp, 'w').write(h)
    return h


def sources(repo=None):
    repo = repo or REPO
    return sorted(glob.glob(os.path.join(repo, 'src', '*.cpp')))


def content_hash(repo, extra):
    h = hashlib.sha256(extra.encode())
    pats = ['src/*', 'include/**/*']
    fs = []
    for p in pats:
        fs += [f for f in glob.glob(os.path.join(repo, p), recursive=True) if os.path.isfile(f) and f.endswith(('.cpp', '.hpp', '.h', '.c', '.cc', '.inc', '.ipp'))]
    for f in sorted(set(fs)):
        h.update(os.path.relpath(f, repo).encode() + b'\0')
        h.update(open(f, 'rb').read())
        h.update(b'\0')
    return h.hexdigest()


def run_one(args):
    f, repo = args
    r = subprocess.run([EXTRACT, repo, f, '-std=c++11', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-w'],
                       capture_output=True, text=True, cwd=os.path.dirname(f))
    if r.returncode or not r.stdout:
        raise AnalysisError('cannot parse %s: %s' % (f, r.stderr[-1500:]))
    return json.loads(r.stdout)


class Program:
    def __init__(self, tus):
        self.funcs = {}
        self.classes = {}
        self.enums = {}
        self.globals = {}
        for tu in tus:
            for f in tu['funcs']:
                self.funcs.setdefault(f['key'], f)
            for c in tu['classes']:
                self.classes.setdefault(c['q'], c)
            for e in tu['enums']:
                self.enums.setdefault(e['q'] + '@' + e['file'] + ':' + str(e['l']), e)
            for g in tu['globals']:
                o = self.globals.get(g['id'])
                if o is None or ('i' in g and 'i' not in o):
                    self.globals[g['id']] = g
        self.enumval = {}
        for e in self.enums.values():
            for v in e['v']:
                self.enumval[v['n']] = v['v']
        for g in self.globals.values():
            if 'v' in g:
                self.enumval.setdefault(g['q'], int(g['v']))


def _ctors_of(self, cls, n):
    """constructors (not copy/move) of a class that take n arguments"""
    if not hasattr(self, '_ct'):
        self._ct = {}
        for k, d in self.funcs.items():
            if d.get('ctor'):
                self._ct.setdefault(d.get('cls'), []).append(k)
    out = []
    for k in self._ct.get(cls, []):
        ps = self.funcs[k]['params']
        if n == 1 and len(ps) == 1 and ps[0]['t'].rstrip('& ').replace('const ', '') == cls:
            continue
        if n <= len(ps) and all(p.get('def') for p in ps[n:]):
            out.append(k)
    return out


Program.ctors_of = _ctors_of


def load(repo=None):
    repo = os.path.realpath(repo or REPO)
    th = sh_tool()
    srcs = sources(repo)
    if len(srcs) < 10:
        raise AnalysisError('found only %d library sources under %s/src' % (len(srcs), repo))
    key = content_hash(repo, th + open(os.path.abspath(__file__)).read())
    cdir = os.path.join(BUILD, 'cache')
    cf = os.path.join(cdir, key + '.pickle')
    if os.path.exists(cf):
        try:
            return pickle.load(open(cf, 'rb'))
        except Exception:
            pass
    with ThreadPoolExecutor(8) as ex:
        tus = list(ex.map(run_one, [(f, repo) for f in srcs]))
    p = Program(tus)
    p.tus = len(tus)
    p.nsrc = len(srcs)
    try:
        os.makedirs(cdir, exist_ok=True)
        old = sorted((os.path.getmtime(os.path.join(cdir, f)), f) for f in os.listdir(cdir))
        for _, f in old[:-12]:
            os.unlink(os.path.join(cdir, f))
        tmp = cf + '.tmp%d' % os.getpid()
        pickle.dump(p, open(tmp, 'wb'))
        os.replace(tmp, cf)
    except OSError:
        pass
    return p


if __name__ == '__main__':
    p = load()
    print(p.tus, len(p.funcs), len(p.classes), len(p.enums), len(p.globals))
