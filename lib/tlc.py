"""Run TLC and read back its verdict."""
import json, os, re, shutil, subprocess, tempfile, threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TLCError(Exception):
    pass


def brief(t, n=1500):
    t = '\n'.join(l for l in t.splitlines() if not re.match(r'Parsing file|Semantic processing|Warning: Please|\(Use the|TLC2 Ver|Running breadth|\s*$', l))
    return t if len(t) < 2 * n else t[:n] + '\n ... \n' + t[-n:]


class Unevaluable(TLCError):
    """an event outside what the specification can even evaluate (a matrix of
    another shape, a result where there should be none ...): not a behaviour of
    the specification.  at: 1-based position in the trace"""
    at = None


class Result:
    def __init__(s):
        s.ok = False
        s.generated = s.distinct = s.depth = 0
        s.text = ''
        s.violated = None


def run(module, cfg=None, env=None, workers=1, timeout=600, deadlock=False, mem='3g', extra=()):
    """Returns Result; ok iff TLC finished without error.  Raises TLCError when
    TLC itself failed (parse error, evaluation error...)."""
    meta = tempfile.mkdtemp(prefix='tlc')
    e = dict(os.environ)
    e.update(env or {})
    e.pop('JAVA_TOOL_OPTIONS', None)
    cmd = ['java', '-Xmx' + mem, '-Xss64m', '-XX:+UseParallelGC' if workers != 1 else '-XX:+UseSerialGC',
           '-cp', CP, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
           '-config', cfg or module + '.cfg']
    if not deadlock:
        cmd.append('-deadlock')
    cmd += list(extra) + [module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, text=True)
    except subprocess.TimeoutExpired:
        raise TLCError('TLC timeout: %s' % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    r = Result()
    r.text = p.stdout
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', p.stdout)
    if m:
        r.generated, r.distinct = map(int, m[-1])
    m = re.search(r'depth of the complete state graph search is (\d+)', p.stdout)
    if m:
        r.depth = int(m.group(1))
    if p.returncode == 0 and 'No error has been found' in p.stdout:
        r.ok = True
        return r
    m = re.search(r'Invariant (\S+) is violated|Temporal properties were violated|Action property .* is violated|property (\S+) is violated', p.stdout)
    if m and p.returncode in (10, 11, 12, 13):
        r.violated = m.group(0)
        return r
    at = re.findall(r'(?:^|/\\ )l = (\d+)\s*$', p.stdout, re.M)
    if 'The error occurred when TLC was evaluating' in p.stdout and at and not re.search('StackOverflow|OutOfMemory|heap space|No space', p.stdout):
        x = Unevaluable('TLC on %s:\n%s' % (module, brief(p.stdout)))
        x.at = int(at[-1])
        raise x
    raise TLCError('TLC failed on %s (rc %s):\n%s' % (module, p.returncode, brief(p.stdout)))


def design(ctx, *specs):
    """Model-check design modules (name or (module,cfg)); all must pass."""
    def go(s):
        mod, cfg = s if isinstance(s, tuple) else (s, None)
        return mod if cfg is None else cfg, run(mod, cfg, workers=2)
    for name, r in pmap(go, specs):
        if not r.ok:
            raise TLCError('design check %s failed: %s\n%s' % (name, r.violated, brief(r.text)))
        ctx.model(name, r)


def refuted(ctx, *specs):
    """(module,cfg) of designs known to be wrong: TLC has to find out."""
    def go(s):
        return s[1], run(s[0], s[1], workers=2)
    for name, r in pmap(go, specs):
        if r.ok or not r.violated:
            raise TLCError('the wrong design %s passed: the specification lost its teeth' % name)
        ctx.count('wrong design refuted')


def pmap(fn, items, n=6):
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))


def trace(ctx, module, events, chunks=1, env=None, timeout=800):
    """Validate events (list of dicts) against Trace module; returns list of
    (event index, [failing clauses])."""
    if not events:
        raise TLCError('empty trace for ' + module)
    work = tempfile.mkdtemp(prefix='trc')
    try:
        parts = []
        k = max(1, min(chunks, len(events)))
        bounds = [len(events) * i // k for i in range(k + 1)]
        for c in range(k):
            fn = os.path.join(work, 't%d.ndjson' % c)
            with open(fn, 'w') as f:
                for ev in events[bounds[c]:bounds[c + 1]]:
                    f.write(json.dumps(ev) + '\n')
            parts.append((bounds[c], fn, os.path.join(work, 'o%d.json' % c)))

        def go(p):
            e = dict(env or {})
            e.update(TRACE=p[1], OUT=p[2])
            try:
                r = run(module, env=e, timeout=timeout)
            except Unevaluable as x:
                # judge what precedes that event; what follows remains unchecked
                with open(p[1]) as f:
                    lines = f.readlines()
                o = dict(n=len(lines), bad=[])
                r = None
                if x.at > 1:
                    with open(p[1], 'w') as f:
                        f.writelines(lines[:x.at - 1])
                    r = run(module, env=e, timeout=timeout)
                    if r.ok:
                        with open(p[2]) as f:
                            o['bad'] = json.load(f)['bad']
                o['bad'].append(dict(at=x.at, clauses=['unevaluable']))
                ctx.count('not evaluable')
                return p[0], r, o
            if not r.ok:
                raise TLCError('trace module %s: %s\n%s' % (module, r.violated, brief(r.text)))
            with open(p[2]) as f:
                o = json.load(f)
            return p[0], r, o
        bad = []
        total = 0
        for base, r, o in pmap(go, parts):
            if r:
                ctx.model(module, r)
            total += o['n']
            for b in o['bad']:
                bad.append((base + b['at'] - 1, list(b['clauses'])))
        if total != len(events):
            raise TLCError('%s consumed %d of %d events' % (module, total, len(events)))
        ctx.traces += total
        return bad
    finally:
        shutil.rmtree(work, ignore_errors=True)


def generate(ctx, module, configs, timeout=600):
    """Run a generator module: input ndjson of configs, output JSON list."""
    work = tempfile.mkdtemp(prefix='gen')
    try:
        k = max(1, min(6, len(configs) // 4 + 1))
        bounds = [len(configs) * i // k for i in range(k + 1)]

        def go(c):
            ci, co = os.path.join(work, 'c%d.ndjson' % c), os.path.join(work, 'o%d.json' % c)
            with open(ci, 'w') as f:
                for x in configs[bounds[c]:bounds[c + 1]]:
                    f.write(json.dumps(x) + '\n')
            r = run(module, env=dict(CONFIGS=ci, OUT=co), timeout=timeout)
            if not r.ok:
                raise TLCError('generator %s failed\n%s' % (module, brief(r.text)))
            with open(co) as f:
                return r, json.load(f)
        out = []
        for r, o in pmap(go, range(k)):
            ctx.model(module, r)
            out += o
        if len(out) != len(configs):
            raise TLCError('%s produced %d of %d' % (module, len(out), len(configs)))
        return out
    finally:
        shutil.rmtree(work, ignore_errors=True)
