"""C20: the linter as a program, against Lint."""
import os, pty, re, shutil, subprocess, tempfile, threading, tty
from concurrent.futures import ThreadPoolExecutor
import build, core, gen, bank
from checks_text import ALL, rows_of, check_digest

COLOUR = ['--colorize', '--colorise', '--colourise', '--no-colorize', '--no-colorise', '--no-colourise']
ENV = dict(core.ASAN, LC_ALL='C')

def cases(ctx, k):
    """Options and files, drawn at random (seeded) with every option met several times."""
    R = ctx.rng
    rows = rows_of(ALL, lambda r: len(r['t']) <= 220 and gen.depth(bytes.fromhex(r['t'])) <= 3)
    good = [bytes.fromhex(r['t']) for r in rows if not any(s['errors'] for s in r['e']['segs'])]
    bad = [bytes.fromhex(r['t']) for r in rows if any(s['errors'] for s in r['e']['segs'])]
    fixed = [b'', b'\n', b' // only a comment', b'RETURN 1', b'RETURN 1;', b';', b';;', b'RETURN 1; RETURN 2 +; :x y\n',
             b':a\n:b c;MATCH (n)\nRETURN n.;\n', b'/* open', b'\xff\xfe', b'RETURN "\xc3\xa9" +;', b'x' * 200 + b' y', b'\tRETURN\t+\t;']
    def text(): return R.choice(R.choice([good, good, bad, fixed]))
    out = []
    def one(opts, files, tty=(False, False)):
        out.append(dict(id=str(len(out)), opts=opts, files=files, tty=list(tty)))
    def files(n):
        fs = []
        for i in range(n):
            u = R.random()
            t = text() if u < .75 else b''.join(text() + R.choice([b';', b';\n', b'\n', b' ']) for _ in range(R.choice([2, 3])))
            fs.append(dict(kind='file', name='%s%d%s' % (R.choice(['f', 'a b', 'deep/x', '-x']), i, R.choice(['', '.cyp'])), t=t))
            if fs[-1]['name'][0] == '-': fs[-1]['name'] = './' + fs[-1]['name']
        if R.random() < .2 and n: fs.insert(R.randrange(len(fs) + 1), dict(kind='missing', name='no such%d' % n, t=b''))
        if R.random() < .25 and n: fs.insert(R.randrange(len(fs) + 1), dict(kind='stdin', name='-', t=text()))
        return fs or [dict(kind='bare', name='', t=text())]
    for t in fixed:
        for o in ([], [['-a', 0]], [['--ast', 0], ['--stream', 0]], [['-1', 0], ['-a', 0]]): one(o, [dict(kind='bare', name='', t=t)])
    # what was met before is not forgotten at the next file
    one([], [dict(kind='file', name='bad', t=b'RETURN +;'), dict(kind='file', name='good', t=b'RETURN 1;')])
    one([['-a', 0]], [dict(kind='file', name='bad', t=b'RETURN +;'), dict(kind='file', name='good', t=b'RETURN 1;')])
    one([], [dict(kind='file', name='good', t=b'RETURN 1;'), dict(kind='missing', name='none', t=b''), dict(kind='file', name='bad', t=b'RETURN +;')])
    one([['-a', 0]], [dict(kind='stdin', name='-', t=b'RETURN 1;RETURN 2;'), dict(kind='stdin', name='-', t=b'')])
    # long inputs: several reads, and segments far apart
    for o in ([], [['-a', 0]], [['-a', 0], ['--stream', 0]]):
        one(o, [dict(kind='file', name='long', t=b'RETURN 1;\n' * 60 + b'RETURN +;\n' + b'/*' + b'c' * 700 + b'*/' + b'x;' + b'RETURN 2;\n' * 30)])
    out_ = [['-h'], ['--help'], ['--version'], ['-?'], ['-x'], ['--nonsense'], ['--output-width'], ['-a', '--help'], ['--version', '-h'], ['-1', '--bad'], ['-v']]
    for o in out_: one([[x, -(x == '--output-width')] for x in o], [])
    for _ in range(k):
        o = []
        if R.random() < .6: o.append([R.choice(['-a', '--ast']), 0])
        if R.random() < .3: o.append(['--stream', 0])
        if R.random() < .3: o.append(['-1', 0])
        if R.random() < .3: o.append(['--only-statements', 0])
        for _ in range(R.choice([0, 0, 1, 1, 2])): o.append([R.choice(COLOUR), 0])
        for _ in range(R.choice([0, 0, 1, 1, 2])): o.append(['--output-width', R.choice([0, 1, 20, 40, 50, 60, 80, 200])])
        R.shuffle(o)
        one(o, files(R.choice([0, 0, 1, 1, 2, 3])), (R.random() < .2, R.random() < .2))
    return out

def run(exe, c, d, R):
    """Runs the linter on a case in directory d; returns (status, stdout, stderr, command)."""
    args, names, stdin = [], [], b''
    for f in c['files']:
        if f['kind'] in ('stdin', 'bare'): stdin = stdin or f['t']
        if f['kind'] == 'file':
            p = os.path.join(d, f['name']); os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, 'wb').write(f['t'])
        if f['kind'] != 'bare': names.append(f['name'])
    k = 0
    for o, a in c['opts']:
        args.append(o)
        if o == '--output-width' and a >= 0:
            if k % 2: args[-1] += '=%d' % a
            else: args.append('%d' % a)
            k += 1
    if int(c['id']) % 5 == 1 and names and args: args = names[:1] + args + names[1:]    # options may come anywhere
    elif int(c['id']) % 5 == 2 and names: args = args + ['--'] + names
    else: args = args + names
    got, ends, threads = [b'', b''], [], []
    for i in range(2):
        r, w = pty.openpty() if c['tty'][i] else os.pipe()
        if c['tty'][i]: tty.setraw(w)
        ends.append(w)
        threads.append(threading.Thread(target=drain, args=(r, got, i), daemon=True)); threads[-1].start()
    try:
        p = subprocess.run([exe] + args, input=stdin, stdout=ends[0], stderr=ends[1], cwd=d, env=dict(os.environ, **ENV), timeout=120)
    finally:
        for w in ends: os.close(w)
        for t in threads: t.join(10)
    return p.returncode, got[0], got[1], args

def drain(fd, got, i):
    while True:
        try: x = os.read(fd, 65536)
        except OSError: break        # a terminal nobody holds any more
        if not x: break
        got[i] += x
    os.close(fd)

ESC = rb'(?:\x1b\[[0-9;]*m)*+'
def pattern(codes):
    return b''.join(ESC if x >= 300 else re.escape(bytes([x])) for x in codes)
def matches(alts, data):
    """Does data consist of one alternative of each group, in order?"""
    at = {0}
    for group in alts:
        at = {m.end() for i in at for g in group for m in [re.compile(g).match(data, i)] if m}
        if not at: return False
    return len(data) in at
def error_alts(e):
    if 'missing' in e: return [re.escape(b'cypher-lint: %s: No such file or directory\n' % e['missing'].encode())]
    off, line, col = e['at']
    return [re.escape(b'%s:%d:%d: ' % (e['file'].encode(), line, col)) + pattern(e['msg']) + b'\n' + re.escape(bytes(c[0]) + b'\n' + b' ' * c[1] + b'^\n') for c in e['ctx']]

def judge(c, e, rc, out, err):
    if rc != e['status']: yield 'exit status %d, expected %d' % (rc, e['status'])
    if e['ends'] in ('help', 'usage'):
        t, other = (out, err) if e['ends'] == 'help' else (err, out)
        if e['ends'] == 'help' and err or e['ends'] == 'usage' and other: yield 'usage goes elsewhere: %r' % other[:100]
        if b'usage: cypher-lint' not in t: yield 'no usage information'
        for o in (b'-1', b'--ast', b'-a', b'--colorize', b'--no-colorize', b'--help', b'-h', b'--only-statements', b'--output-width', b'--stream', b'--version'):
            if o not in t: yield 'usage does not mention %s' % o.decode()
        return
    if e['ends'] == 'version':
        m = re.fullmatch(rb'cypher-lint: (\S+)\nlibcypher-parser: (\S+)\n', out)
        if not m or m.group(1) != m.group(2) or err: yield 'version: %r %r' % (out[:100], err[:100])
        return
    if not re.fullmatch(pattern(e['out']), out, re.S): yield 'standard output is %r, expected %r' % (out[:700], bytes(x for x in e['out'] if x < 300)[:700])
    if not matches([error_alts(x) for x in e['errs']], err):
        yield 'standard error is %r, expected %r' % (err[:700], [(x.get('missing') or (x['file'], x['at'], bytes(y for y in x['msg'] if y < 300)[:60], bytes(x['ctx'][0][0]), x['ctx'][0][1])) for x in e['errs']][:6])
    for name, t, colour in (('output', out, e['colour'][0]), ('error', err, e['colour'][1])):
        if not t or (name == 'error' and all('missing' in x for x in e['errs'])): continue
        if any(b'\x1b' in f['t'] for f in c['files']): continue
        es = re.findall(rb'\x1b\[([0-9;]*)m', t)
        if not colour and b'\x1b' in t: yield 'standard %s is coloured' % name
        elif colour and not es and (name == 'error' or re.search(rb'@\d', t)): yield 'standard %s is not coloured' % name
        elif es and es[-1] not in (b'', b'0'): yield 'the colour is left on after standard %s' % name

def c20(ctx):
    check_digest()
    cs = cases(ctx, 300 if not ctx.thorough else 3000)
    items = [dict(c, files=[dict(f, t=list(f['t'])) for f in c['files']]) for c in cs]
    exp = {}
    for i in range(0, len(items), 600):
        exp.update(core.expect(items[i:i + 600], module='Lint', stats=ctx.stats, timeout=max(60, min(800, ctx.left()))))
    ctx.log(len(cs), 'runs expected')
    for flavour in ('asan', 'ndebug'):
        exe = os.path.join(build.build(flavour), 'cypher-lint')
        top = tempfile.mkdtemp(prefix='lint-')
        try:
            def go(c):
                d = os.path.join(top, c['id']); os.mkdir(d)
                try: return run(exe, c, d, ctx.rng)
                except subprocess.TimeoutExpired: return ('timeout', b'', b'', [])
                finally: shutil.rmtree(d, ignore_errors=True)
            with ThreadPoolExecutor(8) as ex: res = list(ex.map(go, cs))
        finally:
            shutil.rmtree(top, ignore_errors=True)
        shown = 0
        for c, (rc, out, err, args) in zip(cs, res):
            ds = list(judge(c, exp[c['id']], rc, out, err)) if rc != 'timeout' else ['did not end within 120 s']
            if ds:
                shown += 1
                if shown > 4: continue
                ctx.violation('cypher-lint %s (%s build) on %s: %s' % (args, flavour, [(f['name'] or 'stdin', f['t'][:120]) for f in c['files']], '; '.join(ds)[:1500]),
                              dict(args=args, flavour=flavour, files=[(f['kind'], f['name'], f['t'].hex()) for f in c['files']], status=rc, stdout=out.hex()[:4000], stderr=err.hex()[:4000]))
        if shown > 4: ctx.log('%d runs differ' % shown)
        ctx.add(traces_validated_against_impl=len(cs))
    ctx.put(runs=len(cs), files=sum(len(c['files']) for c in cs), with_errors=sum(bool(exp[c['id']]['errs']) for c in cs), with_trees=sum(bool(exp[c['id']]['out']) for c in cs))
    for c in ctx.rng.sample(cs, 3): ctx.sample(dict(options=c['opts'], files=[[f['kind'], f['name'], f['t'].decode('latin-1')[:80]] for f in c['files']], status=exp[c['id']]['status'], errors=len(exp[c['id']]['errs'])))

CHECKS = {'C20': (c20, 'model_checking')}
