"""C22: several sessions at once, against Sessions."""
import json, os, re, shutil, tempfile
import compare, core, gen
from checks_text import ALL, FLAG, check_digest, each_differ, lastpos, mkjob, rows_of

CHUNKS = ([1], [2, 3], [7, 1], [64], [1000])

def schedules(ctx):
    """Every order in which a few sessions may move, on one thread and on several."""
    out = {}
    for cfg, mode in (('SessionsThreads', 'each'), ('SessionsNested', 'one')):
        rc, o = core.tlc('Sessions', cfg, timeout=200)
        if rc: raise core.Trouble('TLC on Sessions: %s' % o[-1500:])
        g, s = core.tlc_stats(o)
        ctx.stats['generated'] = ctx.stats.get('generated', 0) + g
        ctx.stats['distinct'] = ctx.stats.get('distinct', 0) + s
        got = {(m.group(1), m.group(2)) for m in re.finditer(r'"SCHED", "<<([\d, ]*)>>", "<<([\d, ]*)>>"', o)}
        for a, b in sorted(got):
            out.setdefault(mode, []).append(([int(x) for x in a.split(',')], [int(x) - 1 for x in b.split(',')]))
    return out

def decide(ctx, traces):
    """TLC: the position at which each trace stops being a behaviour of Sessions, 0 if it does not."""
    d = tempfile.mkdtemp(prefix='sessions-')
    try:
        with open(d + '/in.ndjson', 'w') as f:
            for k, t in enumerate(traces): f.write(json.dumps(dict(t, id=str(k))) + '\n')
        rc, out = core.tlc('SessionsTrace', env=dict(IN=d + '/in.ndjson'), timeout=max(60, min(600, ctx.left())), workers=8)
        if rc: raise core.Trouble('TLC failed on SessionsTrace: %s' % out[-2000:])
        at = {}
        for l in out.split('\n'):
            if l.startswith('"{'):
                o = json.loads(json.loads(l)); at[o['id'] - 1] = o['at']
        if len(at) != len(traces): raise core.Trouble('SessionsTrace gave no verdict on %d traces' % (len(traces) - len(at)))
        g, s = core.tlc_stats(out)
        ctx.stats['generated'] = ctx.stats.get('generated', 0) + g
        ctx.stats['distinct'] = ctx.stats.get('distinct', 0) + s
        return [at[k] for k in range(len(traces))]
    finally:
        shutil.rmtree(d, ignore_errors=True)

class Pool:
    """Jobs to draw sessions from, with what each gives alone."""
    def __init__(self, ctx):
        R = ctx.rng
        rows = rows_of([f for f in ALL if f != 'streamed'], lambda r: len(r['t']) <= 160 and gen.depth(bytes.fromhex(r['t'])) <= 3 and len(r['e']['segs']) <= 4)
        quick = rows_of(['q-texts', 'q-flags', 'q-tokens'], lambda r: len(r['t']) <= 160 and len(r['e']['segs']) <= 4)
        self.jobs, self.rows = [], []     # job text without its id; row
        self.by = {}                      # (number of segments, how) -> indexes
        def put(how, r, **kw):
            c = r['c']
            if how == 'quick': j = core.job('0', bytes.fromhex(r['t']), api='quick', flags=FLAG(c), **kw)
            else: j = mkjob('0', bytes.fromhex(r['t']), c, api=how, last=1, **kw)
            self.jobs.append(j); self.rows.append((how, r))
            n = 0 if how == 'result' else len(r['e']['segs'])
            self.by.setdefault((n, 'file' if 'src' in kw else 'str'), []).append(len(self.jobs) - 1)
        k = 500 if not ctx.thorough else 4000
        few = [r for r in rows if len(r['e']['segs']) != 1]
        bad = [r for r in rows if any(s['errors'] for s in r['e']['segs'])]
        for how, rs, m in (('each', rows, k), ('each', few, k), ('each', bad, k // 2), ('result', rows, k // 2), ('quick', quick, k)):
            for i, r in enumerate(R.sample(rs, min(m, len(rs)))):
                if i % 3 == 2: put(how, r, src='file', chunks=R.choice(CHUNKS))
                else: put(how, r, **(dict(clone=1) if how == 'each' and i % 4 == 1 else {}))
    def alone(self, ctx):
        order = list(range(len(self.jobs)))
        outs, crashes = core.run_jobs(self.jobs)
        ctx.rng.shuffle(order)
        again, cr2 = core.run_jobs([self.jobs[i] for i in order])
        back = dict(zip(order, again))
        n = 0
        for i, (o, (how, r)) in enumerate(zip(outs, self.rows)):
            # what comes before must make no difference, and it is what is expected
            if o == back[i] and not self.differs(i, o): continue
            one, cr = core.run_jobs([self.jobs[i]])
            if one[0] != o or one[0] != back[i]:
                n += 1
                if n <= 3: ctx.violation('after other sessions, %s of %r gives something else than by itself (%s)' % (how, bytes.fromhex(r['t'])[:160], '; '.join(str(x[1]) for x in self.differs(i, o)[:2] or self.differs(i, back[i])[:2])),
                                         dict(job=self.jobs[i], before=self.jobs[max(0, i - 40):i]))
            outs[i] = one[0]
        self.outs = outs
        ctx.add(sessions_alone=len(outs), traces_validated_against_impl=len(outs))
        ctx.log(len(outs), 'sessions alone, in two orders')
    def differs(self, i, o):
        how, r = self.rows[i]
        if o is None: return [('crash', 'no output')]
        if how == 'quick': return list(compare.diff_quick(r['e'], o))
        ds = each_differ(r, o) if how == 'each' else compare.diff_result(r['e'], o, r['c']['render'])
        return [d for d in ds if d[0] != 'err-ctx' or 'src=file' not in self.jobs[i]]

def like(alone, o):
    """For each segment o has, which of those alone it is like; and whether the rest is as alone."""
    if alone is None: return None
    segs = [i + 1 if i < len(alone.get('segs', [])) and s == alone['segs'][i] else 0 for i, s in enumerate(o.get('segs', []))]
    return segs, {k: v for k, v in o.items() if k != 'segs'} == {k: v for k, v in alone.items() if k != 'segs'}

def run_cases(ctx, P, cases, flavour, what):
    """cases: (mode, schedule, indexes into the pool, reps)."""
    lines = ['id=%d mode=%s reps=%d share=%d sched=%s|%s' % (n, m, reps, n % 2, ','.join(map(str, sc)), '|'.join(P.jobs[i] for i in ix)) for n, (m, sc, ix, reps) in enumerate(cases)]
    outs, crashes = core.run_jobs(lines, driver='sched', flavour=flavour, timeout=max(60, min(300, ctx.left())),
                                  env=dict(TSAN_OPTIONS='halt_on_error=1:exitcode=96'))
    for line, rc, err in crashes[:4]:
        head = re.search(r'(ERROR: \w+Sanitizer[^\n]*|WARNING: ThreadSanitizer[^\n]*|runtime error[^\n]*|Assertion[^\n]*)', err or '')
        where = re.findall(r'#\d+ (\S+ \S*lib/src\S*)', err or '')[:2]
        texts = [bytes.fromhex(x) for x in re.findall(r'hex=(\w*)', line)]
        ctx.violation('%s (%s build): the process failed (%s %s %s), sessions on %s' % (what, flavour, rc, head.group(1) if head else '', where, [t[:60] for t in texts]),
                      dict(job=line, driver='sched', flavour=flavour, stderr=(err or '')[-3000:]))
    seen, traces = {}, []
    for n, ((m, sc, ix, reps), o) in enumerate(zip(cases, outs)):
        if o is None: continue
        ls = [like(P.outs[i], x) for i, x in zip(ix, o['outs'])]
        if any(l is None for l in ls): continue
        want = [len(P.outs[i].get('segs', [])) for i in ix]
        if m == 'free':     # each on its own: the pauses are not seen, only the outcome
            ev = [[s + 1, 'seg', k] for s, l in enumerate(ls) for k in l[0]] + [[s + 1, 'end', int(l[1] and o['steady'][s])] for s, l in enumerate(ls)]
        else:
            ev = []
            for s, kind, k in o['ev']:
                l = ls[s - 1]
                if kind == 'seg': k = l[0][k - 1] if k <= len(l[0]) else 0
                elif kind == 'end': k = int(l[1])
                else: k = 0
                ev.append([s, kind, k])
        t = dict(one=m == 'one', want=want, ev=ev)
        key = json.dumps(t)
        if key not in seen: seen[key] = len(traces); traces.append((t, n))
    at = decide(ctx, [t for t, n in traces])
    ctx.add(traces_validated_against_impl=sum(o is not None for o in outs), distinct_traces=len(traces))
    shown = 0
    for (t, n), a in zip(traces, at):
        if not a: continue
        shown += 1
        if shown > 4: continue
        m, sc, ix, reps = cases[n]
        s = t['ev'][a - 1][0] - 1 if a <= len(t['ev']) else 0
        ctx.violation('%s (%s build): session %d does not go as it does alone (event %d of %d, %s), sessions on %s' %
                      (what, flavour, s + 1, a, len(t['ev']), t['ev'][a - 1] if a <= len(t['ev']) else 'not all end', [(P.rows[i][0], bytes.fromhex(P.rows[i][1]['t'])[:60]) for i in ix]),
                      dict(job=lines[n], driver='sched', flavour=flavour, trace=t, at=a, alone=P.outs[ix[s]], here=outs[n]['outs'][s]))
    if shown > 4: ctx.log('%d runs go otherwise' % shown)
    return outs

def c22(ctx):
    check_digest()
    sch = schedules(ctx)
    ctx.log({m: len(v) for m, v in sch.items()}, 'schedules')
    P = Pool(ctx); P.alone(ctx)
    if ctx.found: return
    R = ctx.rng
    def draw(n, how=None):
        ks = [k for k in P.by if k[0] == n and (how is None or k[1] == how)]
        return R.choice(P.by[R.choice(ks)])
    for rd in range(1 if not ctx.thorough else 12):
        if ctx.left() < 150 or ctx.found: break
        cases = []
        for m in ('each', 'one'):
            for g, sc in sch[m]:
                cases.append((m, sc, [draw(n, 'str') for n in g], 1))
                # pauses at reads too: the schedule is gone through again and again
                if len(cases) % 3 == rd % 3: cases.append((m, sc, [draw(n) for n in g], 1))
            # two sessions on the same input, and longer random schedules
            for _ in range(300):
                i = R.randrange(len(P.jobs)); k = R.choice([2, 3, 4])
                ix = [i if R.random() < .5 else R.randrange(len(P.jobs)) for _ in range(k)]
                cases.append((m, list(range(k)) + [R.randrange(k) for _ in range(R.choice([5, 10, 40]))], ix, 1))
        run_cases(ctx, P, cases, 'asan', 'interleaved')
        run_cases(ctx, P, R.sample(cases, len(cases) // 5), 'ndebug', 'interleaved')
        ctx.put(schedules=len(cases))
        ctx.log(len(cases), 'interleavings')
        # truly at once, watched by the thread sanitizer
        n = 500 if not ctx.thorough else 1500
        free = [('free', [0], [R.randrange(len(P.jobs)) for _ in range(8)], 6) for _ in range(n)]
        free += [('free', [0], [i] * 4 + [R.randrange(len(P.jobs))] * 4, 6) for i in R.sample(range(len(P.jobs)), n // 2)]
        run_cases(ctx, P, free, 'tsan', 'in several threads')
        ctx.add(parallel_runs=len(free))
        ctx.log(len(free), 'parallel runs')
    for m in ('each', 'one'):
        g, sc = R.choice(sch[m]); ctx.sample(dict(threads=m, pauses=g, order=[x + 1 for x in sc]))
    c = R.choice(cases); ctx.sample(dict(threads=c[0], order=[x + 1 for x in c[1]][:30], sessions=[(P.rows[i][0], bytes.fromhex(P.rows[i][1]['t']).decode('latin-1')[:60]) for i in c[2]]))

CHECKS = {'C22': (c22, 'model_checking')}
