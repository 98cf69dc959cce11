"""C16: every allocation of every operation refused, against Faults."""
import json, os, re, shutil, tempfile
import core, bank, gen
from checks_own import spec_runs
from checks_build import job_of, differ
from checks_text import ALL, rows_of, check_digest, seed_of, FLAG

ENV = dict(ASAN_OPTIONS='detect_leaks=0:exitcode=99:allocator_may_return_null=1')

# texts that make every growing buffer grow past its first sizes
GROW = [b'RETURN 1 /*a*//*b*//*c*//*d*//*e*//*f*//*g*//*h*//*i*//*j*/ AS x',
        b'/* ' + b'x' * 3000 + b' */ RETURN 1;', b'\n' * 40 + b'RETURN 1;' * 3, b';'.join(b'RETURN %d' % i for i in range(30)),
        b'// c\n' * 20 + b'RETURN 1', b'RETURN +;' * 12, b'RETURN ' + b'[' * 4 + b']' * 4, b'RETURN "' + b'a' * 2100 + b'"',
        b'RETURN "' + b'\\n' * 300 + b'"', b':cmd ' + b'a ' * 20 + b';', b':a\n:b\n:c d\n' * 4, b'RETURN ' + b'+'.join(b'x%d' % i for i in range(18)),
        b'RETURN 1 ' + b' UNION RETURN 1' * 10, b'RETURN ' + b'<'.join([b'1'] * 12), b'RETURN ' + b'^'.join([b'1'] * 20), b'MATCH ' + b'-->'.join([b'(a)'] * 10) + b' RETURN *',
        b'MATCH (a' + b''.join(b':L%d' % i for i in range(10)) + b') SET a.x = 1, a += {b: [1, 2, 3]} REMOVE a.y DELETE a',
        b'CALL a.b(1, 2, 3) YIELD x AS y, z /*c*/ /*d*/ WITH y ORDER BY y, z DESC SKIP 1 LIMIT 2 RETURN CASE y WHEN 1 THEN 2 ELSE 3 END',
        b'', b' ', b';;;', b'RETURN', b'@', b'RETURN "abc', b'/* open', b'CYPHER 2.3 planner=cost EXPLAIN RETURN 1']

def texts(ctx, k):
    """[(text, flags, expected number of segments)]"""
    out, seen = [], set()
    rows = rows_of(ALL)
    rows = [r for r in rows if len(r['t']) <= (240 if not ctx.thorough else 600) and gen.depth(bytes.fromhex(r['t'])) <= 3]
    # first the shortest that together have a node of every type with and without each of its parts
    def kinds(r):
        for s in r['e']['segs']:
            yield ('errors', min(len(s['errors']), 3))
            for n in s['nodes']: yield (n['t'], tuple(f[0] for f in n['r'] if isinstance(f[1], list) and f[1] or not isinstance(f[1], (list, str)) and f[1] not in (-1, False)))
    first = []
    for r in sorted(rows, key=lambda r: len(r['t'])):
        new = set(kinds(r)) - seen
        if new: seen |= new; first.append(r)
    first.reverse()          # and of those only what no later one has
    need = set(seen); pick = []
    for r in first:
        h = set(kinds(r)) & need
        if h: pick.append(r); need -= h
    ctx.put(covering_texts=len(pick))
    for r in pick + ctx.rng.sample(rows, min(max(k - len(pick), 20), len(rows))):
        out.append((bytes.fromhex(r['t']), FLAG(r['c']), len(r['e']['segs']), r.get('q')))
    return out

def accepted(ctx, traces):
    """Has TLC say of each trace where, if anywhere, it departs from Faults (0: nowhere)."""
    d = tempfile.mkdtemp(prefix='faults-')
    try:
        with open(d + '/in.ndjson', 'w') as f:
            for k, t in enumerate(traces):
                f.write(json.dumps(dict(id=str(k), kind=t['kind'], n=t['n'], nodes=t['nodes'], ev=t['ev'])) + '\n')
        rc, out = core.tlc('FaultsTrace', env=dict(IN=d + '/in.ndjson'), timeout=max(60, min(600, ctx.left())), workers=4)
        if rc: raise core.Trouble('TLC failed on FaultsTrace: %s' % out[-2000:])
        at = {}
        for l in out.split('\n'):
            if l.startswith('"{'):
                o = json.loads(json.loads(l)); at[o['id'] - 1] = o['at']
        if len(at) != len(traces): raise core.Trouble('FaultsTrace gave no verdict on %d traces' % (len(traces) - len(at)))
        g, s = core.tlc_stats(out)
        ctx.stats['generated'] = ctx.stats.get('generated', 0) + g
        ctx.stats['distinct'] = ctx.stats.get('distinct', 0) + s
        return [at[k] for k in range(len(traces))]
    finally:
        shutil.rmtree(d, ignore_errors=True)

KIND = dict(each='each', feach='each', keep='keep', quick='each', fquick='each', notes='notes')

def c16(ctx):
    rc, out = core.tlc('Faults', 'FaultsDesign', timeout=120)
    if rc: raise core.Trouble('TLC on Faults: %s' % out[-1500:])
    g, s = core.tlc_stats(out); ctx.stats['generated'] = g; ctx.stats['distinct'] = s
    check_digest()
    recorded = {}   # trace -> where first seen
    tried = 0
    def record(kind, n, nodes, ev, count, where):
        nonlocal tried
        tried += count
        recorded.setdefault(json.dumps([kind, n, nodes, ev]), where)
    def crashed(crashes, driver, flavour):
        for line, rc, err in crashes[:4]:
            plan = re.findall(r'PLAN (.*)', err or '')
            head = re.search(r'(ERROR: \w+Sanitizer[^\n]*|runtime error[^\n]*|Assertion[^\n]*)', err or '')
            m = re.search(r'hex=(\w*)', line)
            ctx.violation('memory refused (%s build): the library failed (%s %s): %s, on %s' % (flavour, rc, head.group(1)[:160] if head else '',
                          plan[-1] if plan else '', repr(bytes.fromhex(m.group(1))[:200]) if m else line[:400]),
                          dict(job=line, driver=driver, flavour=flavour, stderr=(err or '')[-2500:]))
    def run(jobs, flavour='asan'):
        lines = ['id=%d op=%s mode=%s flags=%d step=%d hex=%s' % (k, j['op'], j['mode'], j['flags'], j.get('step', 1), j['t'].hex()) for k, j in enumerate(jobs)]
        outs, crashes = core.run_jobs(lines, driver='fault', flavour=flavour, env=ENV, timeout=600)
        crashed(crashes, 'fault', flavour)
        nonevents = 0
        for j, l, o in zip(jobs, lines, outs):
            if o is None or 'skip' in o: continue
            if o['overflow']: ctx.log('too many different traces on', l[:200])
            n = j['n'] if j['n'] is not None else o['n']
            kind = KIND.get(j['op'], 'make')
            for ev, count, k in o['traces']:
                record(kind, n if kind != 'make' else 0, o['nodes'] if kind == 'notes' else 0, ev, count,
                       dict(job=l.replace('step=', 'from=%d to=%d step=' % (k, k)), driver='fault', flavour=flavour, text=repr(j['t'][:300]), op=j['op'], refused=k, mode=j['mode']))
            nonevents += o['asked'] == 0
        return outs
    sample = texts(ctx, 110 if not ctx.thorough else 2600)
    jobs = []
    for k, (t, fl, n, q) in enumerate(sample):
        for op in ('keep', 'whole', 'clone', 'notes') if k % 3 == 0 or ctx.thorough else ('keep', 'clone'):
            for mode in ('once', 'from') if op == 'keep' else ('from' if k % 2 else 'once',):
                jobs.append(dict(op=op, mode=mode, flags=fl, t=t, n=n if op == 'keep' else None))
        if k % 3 == 1 or ctx.thorough:
            jobs.append(dict(op='feach', mode='once', flags=fl, t=t or b' ', n=n if t else None))
            jobs.append(dict(op='quick', mode='once', flags=0, t=t, n=None))
    for t in GROW:
        for op in ('keep', 'whole', 'feach', 'quick', 'fquick', 'fwhole', 'clone', 'print', 'aprint', 'notes') if ctx.thorough or len(t) < 700 else ('keep', 'whole', 'quick', 'clone'):
            for mode in ('once', 'from') if op in ('keep', 'clone', 'quick') else ('once',):
                jobs.append(dict(op=op, mode=mode, flags=0, t=t, n=None))
    jobs.append(dict(op='config', mode='once', flags=0, t=b'', n=None))
    outs = run(jobs)
    if ctx.thorough or True:
        run(jobs[ctx.seed % 7::7], 'ndebug')
    # constructors and copies of constructed trees
    shapes = spec_runs('Build', 'BuildShapes', ctx) if not ctx.thorough else spec_runs('Build', 'BuildShapes', ctx) + spec_runs('Build', 'BuildPairs', ctx)
    for mode in ('once', 'from') if ctx.thorough else ('once',):
        lines = [job_of(k, r, fail=mode) for k, r in enumerate(shapes)]
        if not ctx.thorough: pick = [k for k in range(len(lines)) if k % 2 == ctx.seed % 2]
        else: pick = range(len(lines))
        bouts, crashes = core.run_jobs([lines[k] for k in pick], driver='build', env=ENV, timeout=600)
        crashed(crashes, 'build', 'asan')
        for k, o in zip(pick, bouts):
            if o is None: continue
            ds = list(differ(shapes[k], o))
            if ds: ctx.violation('made after memory was refused: %s' % '; '.join(ds)[:600], dict(job=lines[k], driver='build', flavour='asan'))
            for ev, count, at, what in o['tries']:
                record('make', 0, 0, ev, count, dict(job=lines[k], driver='build', flavour='asan', op=what, refused=at, mode=mode, text=''))
    keys = list(recorded)
    trs = [dict(zip(('kind', 'n', 'nodes', 'ev'), json.loads(k))) for k in keys]
    verdicts = accepted(ctx, trs)
    shown = 0
    for k, t, at in zip(keys, trs, verdicts):
        if not at: continue
        w = recorded[k]; shown += 1
        if shown > 4: continue
        e = t['ev'][at - 1] if at <= len(t['ev']) else 'the end'
        why = {'L': 'memory still held', 'E': 'what it returned', 'D': 'a segment handed over', 'K': 'a retained segment', 'S': 'a change of a value', 'V': 'the values attached'}.get(e[0], '')
        ctx.violation('%s with allocation %s refused (%s, %s build)%s: %s is not allowed (%s), after %s' %
                      (w['op'], w['refused'], w['mode'], w['flavour'], ' on ' + w['text'] if w['text'] else '', e, why, t['ev'][max(0, at - 5):at - 1]),
                      dict(job=w['job'], driver=w['driver'], flavour=w['flavour'], trace=t, at=at))
    if shown > 4: ctx.log('%d traces rejected' % shown)
    ctx.add(traces_validated_against_impl=tried)
    ctx.put(attempts=tried, distinct_traces=len(keys), jobs=len(jobs), constructed_trees=len(shapes), allocations=sum(o['asked'] for o in outs if o and 'asked' in o))
    if not shown and tried < 3000: raise core.Trouble('only %d attempts' % tried)
    for k in ctx.rng.sample(range(len(keys)), 3): ctx.sample(dict(trace=trs[k]['ev'][:24], seen=recorded[keys[k]]['op'], on=recorded[keys[k]]['text'][:120], allocation=recorded[keys[k]]['refused']))

CHECKS = {'C16': (c16, 'model_checking')}
