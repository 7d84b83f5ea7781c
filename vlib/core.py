"""Machinery shared by all checks: run TLC, drive the real code, judge traces.

Nothing in here decides a property.  A property is decided by TLC, either on a
design specification (spec/MC_*.tla) or on a trace recorded from the code under
test (spec/Trace_*.tla)."""
import atexit
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
DRIVERS = os.path.join(VERIF, 'drivers')
TLA_JARS = ('/opt/veriftools/tla/tla2tools.jar:'
            '/opt/veriftools/tla/CommunityModules-deps.jar')
PY = '/opt/venv/bin/python'
JOBS = max(2, min(8, os.cpu_count() or 2))


class Machinery(Exception):
    """The check itself could not be carried out (never a verdict)."""


class Ctx:
    def __init__(self, tier, seed):
        self.tier = tier
        self.seed = seed
        self.work = tempfile.mkdtemp(prefix='verif_')
        atexit.register(shutil.rmtree, self.work, True)
        self.states = 0
        self.transitions = 0
        self.n = 0

    def path(self, *p):
        return os.path.join(self.work, *p)

    def fresh(self, stem):
        self.n += 1
        return self.path('%s_%d' % (stem, self.n))

    def build(self):
        """Compile the arithmetic override used by the specifications."""
        out = self.path('classes')
        os.makedirs(out, exist_ok=True)
        r = subprocess.run(['javac', '-nowarn', '-cp', TLA_JARS, '-d', out,
                            os.path.join(VERIF, 'java', 'Big.java')],
                           capture_output=True, text=True)
        if r.returncode:
            raise Machinery('javac failed: ' + r.stderr[-2000:])

    # -- TLC -----------------------------------------------------------------
    def tlc(self, module, cfg=None, env=None, workers=1, extra=(), heap='3g',
            timeout=800):
        """Run TLC; returns (returncode, stdout)."""
        meta = self.fresh('meta')
        cfgp = os.path.join(SPEC, cfg or module + '.cfg')
        cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2',
               '-Xss64m', '-Xmx' + heap, '-cp',
               self.path('classes') + ':' + TLA_JARS,
               'tlc2.TLC', '-workers', str(workers), '-metadir', meta,
               '-noGenerateSpecTE', '-config', cfgp]
        cmd += list(extra) + [os.path.join(SPEC, module + '.tla')]
        e = dict(os.environ)
        e.update(env or {})
        e['JAVA_TOOL_OPTIONS'] = ''
        try:
            r = subprocess.run(cmd, capture_output=True, text=True, env=e,
                               cwd=self.work, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Machinery('TLC timed out on ' + module)
        shutil.rmtree(meta, ignore_errors=True)
        return r.returncode, r.stdout + r.stderr

    def model_check(self, module, cfg=None, workers=2, extra=(), timeout=800,
                    simulate=False):
        """Check a design spec.  Returns dict(states, transitions, emitted)."""
        rc, out = self.tlc(module, cfg, workers=workers, extra=extra,
                           timeout=timeout)
        ok = 'No error has been found' in out or (simulate and rc == 0)
        if not ok:
            raise Machinery('design spec %s (%s) is broken:\n%s' % (
                module, cfg, tail(out)))
        m = None
        for m in re.finditer(r'([\d,]+) states generated, ([\d,]+) distinct',
                             out):
            pass
        gen, dist = 0, 0
        if m:
            gen, dist = [int(x.replace(',', '')) for x in m.groups()]
        else:
            for m in re.finditer(r'The number of states generated: ([\d,]+)',
                                 out):
                gen = dist = int(m.group(1).replace(',', ''))
        self.states += dist
        self.transitions += gen
        return {'module': cfg or module, 'states': dist, 'transitions': gen,
                'emitted': emitted(out)}


def tail(s, n=3000):
    s = '\n'.join(x for x in s.splitlines() if not x.startswith(
        ('Parsing', 'Semantic', 'Linting', 'Loading', 'Picked up')))
    return s[-n:]


_EMIT = re.compile(r'<<\s*"@@",\s*"((?:[^"\\]|\\.)*)"\s*>>')


def emitted(out):
    """Scenarios printed by a spec with PrintT(<<"@@", ToJson(hist)>>)."""
    res = []
    for m in _EMIT.finditer(out):
        res.append(json.loads(json.loads('"' + m.group(1) + '"')))
    return res


def drop_prefixes(scs):
    """Scenarios that are a proper prefix of another one add nothing."""
    keys = set()
    enc = [tuple(json.dumps(o, sort_keys=True) for o in s) for s in scs]
    pref = set()
    for e in enc:
        for i in range(1, len(e)):
            pref.add(e[:i])
    out, seen = [], set()
    for s, e in zip(scs, enc):
        if e in pref or e in seen:
            continue
        seen.add(e)
        out.append(s)
    return sorted(out, key=lambda x: json.dumps(x, sort_keys=True))


def drive(ctx, driver, scenarios, mode='', timeout=600, repo=None):
    """Run a driver against the real code; returns the list of trace events."""
    sc = ctx.fresh('scen') + '.json'
    tr = ctx.fresh('trace') + '.ndjson'
    with open(sc, 'w') as f:
        json.dump(scenarios, f)
    home = ctx.fresh('home')
    os.makedirs(home)
    env = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'),
           'HOME': home, 'TMPDIR': home,
           'PYTHONPATH': (repo or REPO) + ':' + DRIVERS,
           'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
           'MPLBACKEND': 'Agg', 'OMP_NUM_THREADS': '1',
           'OPENBLAS_NUM_THREADS': '1', 'LC_ALL': 'C.UTF-8',
           'VERIF_SEED': str(ctx.seed), 'VERIF_TIER': ctx.tier,
           'VERIF_MODE': mode}
    err = ctx.fresh('drv') + '.log'
    with open(err, 'w') as ef:
        try:
            r = subprocess.run([PY, '-B', os.path.join(DRIVERS, driver + '.py'),
                                sc, tr], stdout=ef, stderr=ef, env=env,
                               cwd=home, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Machinery('driver %s timed out' % driver)
    if r.returncode:
        with open(err) as f:
            raise Machinery('driver %s failed:\n%s' % (driver,
                                                       f.read()[-3000:]))
    with open(tr) as f:
        lines = f.read().splitlines()
    return lines


def split_cases(lines, parts):
    """Split a trace at case boundaries into about `parts` equal chunks."""
    cases, cur = [], []
    for ln in lines:
        if ln.startswith('{"op": "case"') and cur:
            cases.append(cur)
            cur = []
        cur.append(ln)
    if cur:
        cases.append(cur)
    total = sum(map(len, cases))
    per = max(1, -(-total // max(1, parts)))
    chunks, cur = [], []
    for c in cases:
        cur += c
        if len(cur) >= per:
            chunks.append(cur)
            cur = []
    if cur:
        chunks.append(cur)
    return chunks, len(cases)


REJECT = re.compile(r'Attempted to|was not in the domain|not a function|'
                    r'evaluating|The exception was a')


def validate(ctx, module, lines, env=None, parts=None, timeout=800):
    """TLC judges a recorded trace.  Returns (bad, counts, ncases)."""
    if not lines:
        raise Machinery('empty trace for ' + module)
    size = sum(map(len, lines))
    parts = parts or max(1, min(JOBS - 1, size // 60000 + 1))
    chunks, ncases = split_cases(lines, parts)

    def one(chunk):
        t = ctx.fresh('chunk') + '.ndjson'
        v = t + '.verdict.json'
        with open(t, 'w') as f:
            f.write('\n'.join(chunk) + '\n')
        e = {'TRACE': t, 'VERDICT': v}
        e.update(env or {})
        rc, out = ctx.tlc(module, 'Trace.cfg', env=e, timeout=timeout)
        m = REJECT.search(out)
        if not os.path.exists(v) and m:
            # an observation outside the domain of the specification
            ls = re.findall(r'^(?:/\\ )?l = (\d+)', out, re.M)
            i = int(ls[-1]) - 1 if ls else 0
            i = min(max(i, 0), len(chunk) - 1)
            j = i
            while j > 0 and not chunk[j].startswith('{"op": "case"'):
                j -= 1
            return [{'l': i + 1, 'c': 'ANY.unreadable',
                     'info': 'event is outside the specification: ' +
                             out[m.start():m.start() + 600],
                     'case': chunk[j:i + 1]}], {}
        if not os.path.exists(v):
            raise Machinery('no verdict from %s (trace of %d events):\n%s' % (
                module, len(chunk), tail(out)))
        with open(v) as f:
            d = json.load(f)
        if isinstance(d, list):
            d = d[0]
        if d['n'] != len(chunk):
            raise Machinery('%s consumed %s of %d events' % (
                module, d['n'], len(chunk)))
        m = re.search(r'([\d,]+) states generated, ([\d,]+) distinct', out)
        if m:
            ctx.transitions += int(m.group(1).replace(',', ''))
            ctx.states += int(m.group(2).replace(',', ''))
        bad = d['bad'] or []
        for b in bad:
            # the case the event belongs to, for the replay file
            i = b['l'] - 1
            j = i
            while j > 0 and not chunk[j].startswith('{"op": "case"'):
                j -= 1
            b['case'] = chunk[j:i + 1]
        cnt = d['cnt'] or {}
        return bad, (cnt if isinstance(cnt, dict) else {})
    bad, cnt = [], {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for b, c in ex.map(one, chunks):
            bad += b
            for k, v in c.items():
                cnt[k] = cnt.get(k, 0) + v
    return bad, cnt, ncases
