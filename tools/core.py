"""Shared machinery: runs the specification (TLC) and the implementation (drivers)."""
import gzip, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as _build

VERIF = _build.VERIF
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CFG0 = dict(only=False, single=False, ord=0, line=1, col=1, off=0, render=[], marks=False, ctx='whole')

class Trouble(Exception):
    """The machinery itself failed; no verdict."""

def tlc(module, cfg=None, env=None, workers=8, timeout=800, args=(), heap='6g', cwd=None):
    """Runs TLC; returns (exit code, output)."""
    meta = tempfile.mkdtemp(prefix='tlc-')
    try:
        cmd = ['java', '-Xss256m', '-Xmx' + heap, '-XX:+UseParallelGC', '-cp', JARS, 'tlc2.TLC',
               '-metadir', meta, '-workers', str(workers), '-noGenerateSpecTE',
               '-config', (cfg or module) + '.cfg', *args, module + '.tla']
        e = dict(os.environ); e.update(env or {})
        p = subprocess.run(cmd, cwd=cwd or SPEC, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode, p.stdout.decode('utf8', 'replace')
    finally:
        shutil.rmtree(meta, ignore_errors=True)

def tlc_stats(out):
    import re
    m = None
    for m in re.finditer(r'(\d[\d,]*) states generated, (\d[\d,]*) distinct states found', out):
        pass
    return (int(m.group(1).replace(',', '')), int(m.group(2).replace(',', ''))) if m else (0, 0)

def expect(items, module='Expect', timeout=800, workers=8, stats=None):
    """items: list of dicts with id, t (list of bytes) and whatever the module reads.
    Returns {id: expectation} computed by the specification."""
    d = tempfile.mkdtemp(prefix='expect-')
    try:
        with open(d + '/in.ndjson', 'w') as f:
            for it in items:
                f.write(json.dumps(it) + '\n')
        os.mkdir(d + '/out')
        rc, out = tlc(module, env=dict(IN=d + '/in.ndjson', OUT=d + '/out'),
                      timeout=timeout, workers=workers)
        if rc != 0:
            errs = [l for l in out.split('\n') if l.startswith('Error:')] + re.findall(r'/\\ text = [^/]*', out)
            raise Trouble('TLC failed on %s: %s\n%s' % (module, ' '.join(errs)[:1200], out[-1500:]))
        if stats is not None:
            g, s = tlc_stats(out)
            stats['generated'] = stats.get('generated', 0) + g
            stats['distinct'] = stats.get('distinct', 0) + s
        res = {}
        for n in os.listdir(d + '/out'):
            with open(d + '/out/' + n) as f:
                o = json.load(f)
            res[o['id']] = o
        missing = [i['id'] for i in items if i['id'] not in res]
        if missing:
            raise Trouble('no expectation for %s\n%s' % (missing[:5], out[-2000:]))
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)

ASAN = dict(ASAN_OPTIONS='abort_on_error=0:exitcode=99:detect_leaks=1:allocator_may_return_null=1',
            UBSAN_OPTIONS='halt_on_error=1:exitcode=98:print_stacktrace=1',
            LSAN_OPTIONS='exitcode=97')

def job(id, text, **kw):
    w = ['id=' + id, 'hex=' + bytes(text).hex()]
    for k, v in kw.items():
        if isinstance(v, (list, tuple)):
            v = ','.join(str(x) for x in v)
        w.append('%s=%s' % (k, v))
    return ' '.join(w)

class Crash(Exception):
    def __init__(self, rc, err, jobline):
        self.rc, self.err, self.job = rc, err, jobline
        super().__init__('exit %s on: %s\n%s' % (rc, (jobline or '')[:300], err[-3000:]))

def _run_chunk(exe, lines, timeout, env):
    e = dict(os.environ); e.update(ASAN); e.update(env or {})
    p = subprocess.run([exe], input=('\n'.join(lines) + '\n').encode(), env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    outs = p.stdout.decode('utf8', 'replace').split('\n')
    good = []
    for o in outs[:-1]:
        good.append(o)
    return p.returncode, good, p.stderr.decode('utf8', 'replace')

def run_jobs(lines, driver='parse', flavour='asan', procs=8, timeout=60, env=None, maxcrash=12, per=20):
    """Runs job lines through a driver; returns (list of parsed outputs, list of crashes).
    A crash is (job line, exit code or 'timeout', stderr); its output is None, as is that
    of jobs left out because too many crashed."""
    exe = os.path.join(_build.build(flavour), driver)
    from concurrent.futures import ThreadPoolExecutor
    n = max(1, min(procs * 4 if per > 1 else len(lines), (len(lines) + per - 1) // per))
    idx = [list(range(i, len(lines), n)) for i in range(n)]
    res = [None] * len(lines)
    crashes = []
    def work(ix):
        todo = list(ix)
        while todo and len(crashes) < maxcrash:
            try:
                rc, good, err = _run_chunk(exe, [lines[i] for i in todo], timeout, env)
            except subprocess.TimeoutExpired as x:
                o = (x.stdout or b'').decode('utf8', 'replace').split('\n')
                good, rc, err = o[:-1], 'timeout', ''
            for i, o in zip(todo, good):
                try:
                    res[i] = json.loads(o)
                except ValueError:
                    crashes.append((lines[i], 'bad output', o[:400]))
            k = len(good)
            if k >= len(todo):
                if rc != 0:            # reported at exit (a leak): find a job responsible
                    at = len(crashes)
                    crashes.append((lines[todo[0]], rc, err))
                    bad = blame(exe, [lines[i] for i in todo], timeout, env)
                    if bad: crashes[at] = bad
                return
            crashes.append((lines[todo[k]], rc, err))
            todo = todo[k + 1:]
    def blame(exe, part, timeout, env):
        while len(part) > 1:
            half = part[:len(part) // 2]
            r, g, e = _run_chunk(exe, half, timeout, env)
            part = half if r != 0 else part[len(part) // 2:]
        r, g, e = _run_chunk(exe, part, timeout, env)
        return (part[0], r, e) if r != 0 else None
    with ThreadPoolExecutor(procs) as ex:
        list(ex.map(work, idx))
    return res, crashes

def show(codes):
    return bytes(codes).decode('latin-1')
