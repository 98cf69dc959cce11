"""Checks of the interfaces around parsing: delivery, quick parser, callbacks, streams."""
import json, random, re
import core, corpus, compare, compose, bank, gen, pump
from checks_text import (ALL, FLAG, mkjob, judge, fresh, rows_of, check_digest, revalidate, report_crashes,
                         lastpos, seed_of, describe, each_differ, small)

def strip(c): return {k: v for k, v in c.items() if v != core.CFG0.get(k)}

# --- C01: delivery -----------------------------------------------------------
CHUNKS = [[1], [2, 3], [7], [1000], [1023, 1], [1024], [1025], [1, 4000], [511, 2, 1]]
def ways(i, rng):
    """How one input may be delivered."""
    k = i % 4
    if k == 0: return dict(src='file', chunks=CHUNKS[(i // 4) % len(CHUNKS)])
    if k == 1: return dict(api='result')
    if k == 2: return dict(api='result', src='file', chunks=CHUNKS[(i // 4) % len(CHUNKS)])
    return dict(src='file') if i % 8 == 3 else dict(retain=1, src='file', chunks=CHUNKS[(i // 8) % len(CHUNKS)])

def delivered(r, o):
    """Differences from what the row expects, however it was delivered."""
    w = r['w']
    e = dict(r['e'], lastpos=lastpos(r['e']))
    if w.get('api') == 'result':
        ds = compare.diff_result(e, o, r['c']['render'] if sum(bool(s['roots']) for s in e['segs']) == 1 else ())
    else: ds = compare.diff(e, o, r['c']['render'])
    for a, d in ds:
        if a == 'err-ctx' and (r.get('composed') or w.get('src') == 'file' and r['c'].get('ctx') != 'any'): continue
        yield a, '%s [%s]' % (d, ' '.join('%s=%s' % x for x in w.items()))
    if o is not None and 'last' in o and w.get('api') == 'result' and o['last'] != e['lastpos']:
        yield 'last', 'result: expected last %s, got %s' % (e['lastpos'], o['last'])

def run_ways(ctx, rows, what, per=1):
    jobs, rs = [], []
    for i, r in enumerate(rows):
        for d in range(per):
            w = ways(i * per + d + ctx.seed, ctx.rng)
            kw = dict(w)
            if r.get('composed'): kw['render'] = []
            rr = dict(r, w=w)
            if r.get('composed'): rr['c'] = dict(r['c'], render=[])
            rs.append(rr)
            j = mkjob('%d' % len(jobs), bytes.fromhex(r['t']), rr['c'], last=1, **{k: v for k, v in kw.items() if k != 'render'})
            jobs.append(j)
    return judge(ctx, rs, jobs, delivered, None, what, recheck=False)

def composed_rows(rng, pool, sizes, tails=()):
    out = []
    for size in sizes:
        parts, n = [], 0
        while n < size:
            r = rng.choice(pool); parts.append(r); n += len(r['t']) // 2
        if tails: parts.append(rng.choice(tails))
        t, e = compose.compose(parts)
        out.append(dict(t=t.hex(), c=dict(parts[0]['c'], render=[]), e=e, composed=True))
    return out

def check_composition(ctx, pool, n):
    """TLC: does what composing says follow from the specification?"""
    sh = [r for r in pool if len(r['t']) < 120 and gen.depth(bytes.fromhex(r['t'])) < 3]
    items = []
    for i in range(n):
        a, b = ctx.rng.choice(sh), ctx.rng.choice(sh)
        items.append(dict(id=str(i), t=list(bytes.fromhex(a['t'])), u=list(bytes.fromhex(b['t'])), c=dict(core.CFG0, render=[0], **ctx.rng.choice(
            (dict(), dict(off=9, line=3, col=4, ord=2), dict(off=1000, col=80))))))
    st = {}
    r = core.expect(items, module='Extend', stats=st, timeout=min(600, ctx.left()))
    for k in st: ctx.stats[k] = ctx.stats.get(k, 0) + st[k]
    ctx.add(compositions_checked_by_tlc=len(items), of_which_complete=sum(x['composed'] for x in r.values()))

def c01(ctx):
    check_digest()
    rows = rows_of(ALL)
    ctx.log(len(rows), 'stored expectations')
    run_ways(ctx, rows, 'delivered another way', 1 if not ctx.thorough else 8)
    ctx.put(stored_expectations=len(rows))
    if ctx.found: return
    pool = [r for r in rows if compose.closed(r) and not r['c']['marks']]
    tails = [r for r in rows if not r['c']['marks'] and r['c'].get('off') == 0 and r['c']['ctx'] == 'whole' and not r['c']['only']
             and not r['c']['single'] and r['c']['line'] == 1 and r['c']['col'] == 1 and not r['c']['ord']]
    sizes = [ctx.rng.randrange(900, 1200) for _ in range(60)] + [ctx.rng.randrange(1200, 5000) for _ in range(60)] + \
            [ctx.rng.randrange(2030, 2060) for _ in range(20)] + [ctx.rng.randrange(8000, 9000) for _ in range(6)] + [70000, 40000]
    if ctx.thorough: sizes = sizes * 12 + [300000, 1000000]
    big = composed_rows(ctx.rng, pool, sizes, tails)
    run_ways(ctx, big, 'long input', 4)
    js = [mkjob(str(i), bytes.fromhex(r['t']), r['c'], last=1) for i, r in enumerate(big)]
    judge(ctx, [dict(r, w={}) for r in big], js, delivered, None, 'long string', recheck=False)
    ctx.put(long_inputs=len(big), longest=max(len(r['t']) // 2 for r in big))
    ctx.log('long inputs delivered')
    many_segments(ctx, pool)
    # the quick parser
    q = rows_of(corpus.QUICK)
    quick_rows(ctx, q if ctx.thorough else ctx.rng.sample(q, 9000), every=ctx.thorough)
    qp = [r for r in q if compose.closed(r)]
    qs = []
    for size in [ctx.rng.randrange(1000, 4200) for _ in range(80)] + [30000]:
        parts, n = [], 0
        while n < size:
            r = ctx.rng.choice(qp); parts.append(r); n += len(r['t']) // 2
        t, e = compose.compose_quick(parts)
        qs.append(dict(t=t.hex(), c=parts[0]['c'], e=e))
    quick_rows(ctx, qs, every=True, what='long quick input')
    if ctx.found: return
    check_composition(ctx, pool + tails[::3], 100 if not ctx.thorough else 1500)
    revalidate(ctx, rows, 60 if not ctx.thorough else 600)
    for r in ctx.rng.sample(rows, 2): ctx.sample(describe(r))
    ctx.sample(dict(long_input=big[0]['t'][:200], bytes=len(big[0]['t']) // 2, segments=len(big[0]['e']['segs'])))

def many_segments(ctx, pool):
    """More segments, nodes, errors and directives in one session than 16 bits number."""
    tiny = [r for r in pool if len(r['t']) // 2 <= 24]
    kinds = dict(wrong=[r for r in tiny if all(s['errors'] for s in r['e']['segs'])],
                 lines=[r for r in tiny if b'\n' in bytes.fromhex(r['t'])],
                 trees=[r for r in tiny if any(s['directive'] >= 0 for s in r['e']['segs'])])
    rs = []
    for k, part in kinds.items():
        parts = []; n = 0
        few = ctx.rng.sample(part, min(len(part), 12))
        while n < 65600:
            r = ctx.rng.choice(few); parts.append(r)
            n += sum(s['directive'] >= 0 for s in r['e']['segs']) if k == 'trees' else len(r['e']['segs'])
        t, e = compose.compose(parts)
        rs.append(dict(t=t.hex(), c=dict(parts[0]['c'], render=[]), e=e, composed=True))
    todo = [dict(r, w=w) for r in rs for w in (dict(), dict(api='result'), dict(api='result', src='file', chunks=[4096]))]
    judge(ctx, todo, [mkjob(i, bytes.fromhex(r['t']), r['c'], last=1, **r['w']) for i, r in enumerate(todo)], delivered, None,
          'very many segments', recheck=False, flavour='plain', per=1, timeout=400)
    ctx.put(segments_in_one_session=max(len(r['e']['segs']) for r in rs))
    ctx.log('very many segments', [(k, len(r['e']['segs']), len(r['t']) // 2, r['e']['ord']) for k, r in zip(kinds, rs)])

# --- C03: the quick parser ---------------------------------------------------
def quick_rows(ctx, rows, every=True, what='quick parser'):
    jobs, rs = [], []
    for i, r in enumerate(rows):
        ws = [dict(), dict(src='file', chunks=CHUNKS[i % len(CHUNKS)])]
        for w in ws if every else [ws[(i + ctx.seed) % 2]]:
            jobs.append(core.job(str(len(jobs)), bytes.fromhex(r['t']), api='quick', flags=FLAG(r['c']), **w))
            rs.append(dict(t=r['t'], e=r['e'], cfg_=r['c']))
    judge(ctx, rs, jobs, lambda r, o: compare.diff_quick(r['e'], o), None, what, recheck=False)

def live_quick(ctx, rows):
    ex = corpus.compute_quick([(bytes.fromhex(r['t']), r['c']) for r in rows], stats=ctx.stats, timeout=min(600, ctx.left()))
    for r, e in zip(rows, ex):
        if json.loads(json.dumps(e['segs'])) != r['e']['segs']:
            raise core.Trouble('the stored expectation for %s is not what the specification gives' % r['t'][:200])
    ctx.add(expectations_recomputed=len(rows))

def c03(ctx):
    check_digest()
    rows = rows_of(corpus.QUICK)
    quick_rows(ctx, rows)
    ctx.put(stored_expectations=len(rows), every_sequence_of_at_most_4_of=[t.decode('latin-1') for t in corpus.QTOKENS])
    for r in ctx.rng.sample(rows, 3):
        ctx.sample(dict(input=bytes.fromhex(r['t']).decode('latin-1')[:120], segments=[dict(kind=s['kind'], text=compare.txt(s['text'])) for s in r['e']['segs']]))
    if ctx.found: return
    pump.check(ctx, ['QUICK'], quick=True)
    live_quick(ctx, ctx.rng.sample([r for r in rows if len(r['t']) < 200], 600 if not ctx.thorough else 6000))
    for rd in range(1 if not ctx.thorough else 15):
        if ctx.left() < 100 or ctx.found: break
        s = seed_of(ctx, rd)
        rng = random.Random(s)
        ts = set(corpus.byte_strings(s, 500)) | {b''.join(rng.choice(corpus.QTOKENS) for _ in range(rng.randrange(5, 14))) for _ in range(1500)}
        ts |= set(corpus.generated(s, 150, 'mut', 160))
        prs = [(t, dict(only=i % 5 == 1, single=i % 7 == 1)) for i, t in enumerate(sorted(ts))]
        ex = corpus.compute_quick(prs, stats=ctx.stats, timeout=min(900, ctx.left()))
        fr = [dict(t=t.hex(), c=c, e=json.loads(json.dumps(e))) for (t, c), e in zip(prs, ex)]
        quick_rows(ctx, fr, what='fresh quick input')
        ctx.add(fresh_inputs=len(fr))

# --- C09: soundness of every tree --------------------------------------------
def tree_items(rows, outs):
    for r, o in zip(rows, outs):
        if o is None or 'segs' not in o: continue
        c = r['c']
        segs = [{k: s[k] for k in ('start', 'end', 'eof', 'directive', 'roots', 'nodes', 'errors')} for s in o['segs']]
        for s in segs: s['errors'] = [dict(at=x['at']) for x in s['errors']]
        yield dict(id=None, segs=segs, first=[c['off'], c['line'], c['col']], ord=c['ord'], t=list(bytes.fromhex(r['t'])), off=c['off'],
                   all=not c['single'])

def tree_check(ctx, rows, what, lean=False):
    jobs = [mkjob(str(i), bytes.fromhex(r['t']), dict(r['c'], render=[]), **r.get('w', {})) for i, r in enumerate(rows)]
    outs, crashes = core.run_jobs(jobs)
    report_crashes(ctx, crashes, what)
    items = list(tree_items(rows, outs))
    for i, it in enumerate(items): it['id'] = str(i)
    jm = [j for j, o in zip(jobs, outs) if o is not None and 'segs' in o]
    res = core.expect(items, module='TreeCheck', stats=ctx.stats, timeout=min(900, ctx.left()))
    n = 0
    for it, j in zip(items, jm):
        bad = res[it['id']]['failing']
        if not bad: continue
        n += 1
        if n > 4: continue
        ctx.violation('%s: %s fails for the trees of %r' % (what, ', '.join(bad), bytes(it['t'])[:200]), dict(job=j, failing=bad))
    for r, o, j in zip(rows, outs, jobs):
        if o is None: continue
        for k, s in enumerate(o['segs']):
            x = [n for n in s['nodes'] if set(n) - {'o', 't', 's', 'e', 'ch', 'r'} or any(str(f[0]).endswith('past-end') for f in n['r'])]
            y = [f for n in s['nodes'] for f in n['r'] if f[1] == -2 or (isinstance(f[1], list) and -2 in f[1] and f[0] not in ('name', 'value'))]
            if x or y or s.get('past-end') or s.get('duplicate-node') or s['directive'] == -2:
                n += 1
                if n <= 4: ctx.violation('%s: segment %d of %r is not sound: %s' % (what, k, bytes.fromhex(r['t'])[:200], (x or y or 'duplicate or missing nodes')),
                                         dict(job=j))
    ctx.add(traces_validated_against_impl=len(items), nodes_checked=sum(len(s['nodes']) for it in items for s in it['segs']))

def c09(ctx):
    check_digest()
    rows = rows_of(ALL)
    # stored expectations satisfy the same predicates (checked when they were made)
    judge(ctx, rows, [mkjob(i, bytes.fromhex(r['t']), dict(r['c'], render=[])) for i, r in enumerate(rows)],
          lambda r, o: compare.diff(r['e'], o), {'nnodes', 'children', 'roles', 'roots', 'directive', 'span', 'type'}, 'stored expectation')
    ctx.put(stored_expectations=len(rows))
    if ctx.found: return
    for rd in range(1 if not ctx.thorough else 20):
        if ctx.left() < 120 or ctx.found: break
        s = seed_of(ctx, rd)
        ts = corpus.generated(s, 2500, 'mut', 300) + corpus.generated(s + 1, 700, 'plain', 400) + corpus.byte_strings(s, 800)
        rs = []
        for i, t in enumerate(ts):
            if gen.depth(t) > 5: continue
            c = dict(core.CFG0, ord=(i % 3) * 7, line=1 + i % 2, col=1 + i % 4, off=(i % 5) * 11, only=i % 11 == 0)
            rs.append(dict(t=t.hex(), c=c, w=dict(src='file', chunks=[1 + i % 9]) if i % 2 else {}))
        tree_check(ctx, rs, 'fresh input')
        ctx.add(fresh_inputs=len(rs))
        for r in ctx.rng.sample(rs, 2): ctx.sample(dict(input=bytes.fromhex(r['t']).decode('latin-1')[:200], cfg=strip(r['c'])))
        ctx.log('trees evaluated by TLC')
    if not ctx.found: pump.check(ctx, ['LISTS'])
    revalidate(ctx, rows, 60 if not ctx.thorough else 500)

# --- C13: callbacks ----------------------------------------------------------
VALS = [0, 1, 7, -1, -5]
def c13(ctx):
    check_digest()
    rng = ctx.rng
    n = 60 if not ctx.thorough else 900
    pool = [r for r in rows_of(['segments', 'statements', 'errors', 'config', 'mutated', 'tokens', 'literals'])
            if small(r) and len(r['t']) <= 160 and (1 <= len(r['e']['segs']) <= 6)]
    rich = [r for r in pool if len(r['e']['segs']) > 1]
    rows = rng.sample(rich, n) + rng.sample(pool, n // 2)
    items = [dict(id=str(i), t=list(bytes.fromhex(r['t'])), c=dict(r['c'], render=[]), vals=VALS) for i, r in enumerate(rows)]
    beh = core_many(ctx, items, 'Protocol')
    jobs, rs = [], []
    for b in beh:
        i = int(b['id'].split('/')[0]); r = rows[i]
        g = b['given']
        e = dict(r['e'], segs=r['e']['segs'][:b['calls']])
        for w in (dict(), dict(src='file', chunks=[1])):
            kw = dict(w)
            if g and g[-1] != 0: kw['cb'] = '%d:%d' % (len(g) - 1, g[-1])
            jobs.append(mkjob(len(jobs), bytes.fromhex(r['t']), dict(r['c'], render=[]), last=1, **kw))
            rs.append(dict(t=r['t'], e=e, b=b, w=w, cc=r['c']))
    def differ(r, o):
        if o is None: yield 'crash', 'crashed'; return
        b = r['b']
        if o['rc'] != b['rc']: yield 'rc', 'expected %d returned, got %d, after callbacks returned %s' % (b['rc'], o['rc'], b['given'])
        if o['calls'] != b['calls']: yield 'calls', 'expected %d callbacks, got %d, when they return %s' % (b['calls'], o['calls'], b['given'])
        if o['last'] != b['last']: yield 'last', 'expected last %s, got %s, when callbacks return %s' % (b['last'], o['last'], b['given'])
        for a, d in compare.diff(r['e'], dict(o, rc=0)):
            if a == 'err-ctx' and r['w']: continue
            yield a, d
    judge(ctx, rs, jobs, differ, None, 'callback behaviour', recheck=False)
    ctx.put(behaviours=len(beh))
    if beh: ctx.sample(dict(input=bytes.fromhex(rows[0]['t']).decode('latin-1'), behaviours=[dict(given=b['given'], rc=b['rc'], last=b['last']) for b in beh if b['id'].startswith('0/')][:6]))
    # the quick parser
    qp = [r for r in rows_of(corpus.QUICK) if len(r['e']['segs']) >= 1 and len(r['t']) < 120]
    qrows = rng.sample([r for r in qp if len(r['e']['segs']) > 1], n) + rng.sample(qp, n // 2)
    items = [dict(id=str(i), t=list(bytes.fromhex(r['t'])), c=r['c'], vals=VALS) for i, r in enumerate(qrows)]
    qb = core_many(ctx, items, 'QuickProtocol')
    jobs, rs = [], []
    for b in qb:
        r = qrows[int(b['id'].split('/')[0])]; g = b['given']
        for w in (dict(), dict(src='file', chunks=[1])):
            kw = dict(w)
            if g and g[-1] != 0: kw['cb'] = '%d:%d' % (len(g) - 1, g[-1])
            jobs.append(core.job(str(len(jobs)), bytes.fromhex(r['t']), api='quick', flags=FLAG(r['c']), **kw))
            rs.append(dict(t=r['t'], e=dict(segs=r['e']['segs'][:b['calls']]), b=b, w=w))
    def qdiffer(r, o):
        if o is None: yield 'crash', 'crashed'; return
        b = r['b']
        if o['rc'] != b['rc']: yield 'rc', 'quick: expected %d returned, got %d, after callbacks returned %s' % (b['rc'], o['rc'], b['given'])
        yield from compare.diff_quick(r['e'], dict(o, rc=0))
    judge(ctx, rs, jobs, qdiffer, None, 'quick callback behaviour', recheck=False)
    ctx.put(quick_behaviours=len(qb))
    # parsing without a last position, and into a result, with every flag
    pr = rng.sample(pool, min(len(pool), 400 if not ctx.thorough else 3000))
    jobs = [mkjob(i, bytes.fromhex(r['t']), dict(r['c'], render=[]), last=0, cfg=1) for i, r in enumerate(pr)]
    judge(ctx, [dict(r, c=dict(r['c'], render=[])) for r in pr], jobs, lambda r, o: compare.diff(r['e'], o, ()), None, 'without a last position', recheck=False)

def core_many(ctx, items, module):
    """Items with several behaviours each: all that TLC finds."""
    import os, shutil, tempfile
    d = tempfile.mkdtemp(prefix='expect-')
    try:
        with open(d + '/in.ndjson', 'w') as f:
            for it in items: f.write(json.dumps(it) + '\n')
        os.mkdir(d + '/out')
        rc, out = core.tlc(module, env=dict(IN=d + '/in.ndjson', OUT=d + '/out'), timeout=min(900, ctx.left()))
        if rc: raise core.Trouble('TLC failed on %s\n%s' % (module, out[-2500:]))
        g, s = core.tlc_stats(out)
        ctx.stats['generated'] = ctx.stats.get('generated', 0) + g
        ctx.stats['distinct'] = ctx.stats.get('distinct', 0) + s
        res = [json.load(open(d + '/out/' + n)) for n in sorted(os.listdir(d + '/out'))]
        seen = {b['id'].split('/')[0] for b in res}
        if len(seen) != len(items): raise core.Trouble('%s: no behaviour for some of the items\n%s' % (module, out[-1500:]))
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)

# --- C23: reading streams ----------------------------------------------------
def c23(ctx):
    check_digest()
    rows = rows_of(ALL)
    if not ctx.thorough: rows = ctx.rng.sample(rows, 9000)
    def run(rows, what, api='each'):
        jobs, rs = [], []
        for i, r in enumerate(rows):
            n = len(r['t']) // 2; ns = len(r['e']['segs'])
            ws = [dict(chunks=[1])]
            if ns > 1:
                k = (i + ctx.seed) % ns
                ws.append(dict(chunks=[1], cb='%d:%d' % (k, 3 if i % 2 else -3)))
                ws.append(dict(cb='%d:%d' % (k, 2), chunks=CHUNKS[i % len(CHUNKS)]))
            if ns and not r['c'].get('single'): ws.append(dict(chunks=CHUNKS[i % len(CHUNKS)], single=1))
            for w in ws if ctx.thorough else [ws[0], ws[1 + i % (len(ws) - 1)]] if len(ws) > 1 else ws:
                kw = {k: v for k, v in w.items() if k != 'single'}
                fl = FLAG(r['c']) | (1 if w.get('single') else 0)
                if api == 'each': jobs.append(mkjob(len(jobs), bytes.fromhex(r['t']), dict(r['c'], render=[]), src='file', lean=1, **dict(kw, flags=fl)))
                else: jobs.append(core.job(str(len(jobs)), bytes.fromhex(r['t']), api='quick', src='file', flags=fl, **kw))
                rs.append(dict(t=r['t'], e=r['e'], w=w, off=r['c'].get('off', 0)))
        def differ(r, o):
            if o is None: yield 'crash', 'crashed'; return
            es, os_ = r['e']['segs'], o['segs']; n = len(r['t']) // 2
            byte = r['w']['chunks'] == [1]
            for k, (a, b) in enumerate(zip(es, os_)):
                end = (a['end'] if api == 'each' else a['next'])[0] - r['off']
                most = min(a['reach'], n)
                if byte and b['h'] > most:
                    yield 'ahead', 'segment %d ends at byte %d and was decided by byte %d, but was delivered after %d bytes had been read' % (k, end, most, b['h'])
                if b['h'] < end: yield 'ahead', 'segment %d ends at byte %d but was delivered when %d bytes had been read' % (k, end, b['h'])
            stopped = r['w'].get('single') or 'cb' in r['w']
            want = 1 if r['w'].get('single') else int(r['w']['cb'].split(':')[0]) + 1 if 'cb' in r['w'] else len(es)
            want = min(want, len(es))
            if len(os_) != want: yield 'calls', 'expected %d segments, got %d' % (want, len(os_))
            if os_ and len(os_) <= len(es):
                most = min(es[len(os_) - 1]['reach'], n)
                left = n - most
                if (stopped or es[len(os_) - 1]['eof']) and o['left'] < left:
                    yield 'left', '%d bytes remain in the stream after %d segments, expected %d' % (o['left'], len(os_), left)
        judge(ctx, rs, jobs, differ, None, what, recheck=False)
    run(rows, 'stream')
    ctx.put(stored_expectations=len(rows))
    q = rows_of(corpus.QUICK)
    if not ctx.thorough: q = ctx.rng.sample(q, 8000)
    run(q, 'quick stream', 'quick')
    ctx.log('streams read')
    if ctx.found: return
    revalidate(ctx, [r for r in rows], 120 if not ctx.thorough else 900)
    live_quick(ctx, ctx.rng.sample([r for r in q if len(r['t']) < 200], 300 if not ctx.thorough else 3000))
    for r in ctx.rng.sample(rows, 3):
        ctx.sample(dict(input=bytes.fromhex(r['t']).decode('latin-1')[:120], decided_by=[s['reach'] for s in r['e']['segs']], ends=[s['end'][0] for s in r['e']['segs']]))

# --- C24: any bytes ----------------------------------------------------------
def any_bytes(rng, n):
    out = []
    while len(out) < n:
        k = rng.random()
        if k < .35: t = bytes(rng.randrange(256) for _ in range(rng.randrange(0, 60)))
        elif k < .6:
            t = b''.join(rng.choice((b'\0', b'\xff', b'\xc3', b'\x80\x80', b'\r', b'\n', b';', b' ', b"'", b'"', b'`', b'/*', b'*/', b'//', b'\\', b'$', b'{',
                                     b'RETURN ', b'MATCH (', b':', b'1', b'.', b'..', b'0x', b'1e', b'\x7f', b'\x01')) for _ in range(rng.randrange(1, 25)))
        elif k < .85:
            t = bytearray(rng.choice(POOL)); 
            for _ in range(rng.randrange(1, 4)):
                i = rng.randrange(len(t) + 1)
                if rng.random() < .5: t[i:i] = bytes([rng.randrange(256)])
                else: t[i:i + rng.randrange(1, 6)] = rng.choice((b'', b'\0', b'\xfe', b'\\'))
            t = bytes(t)
        else: t = rng.choice(POOL)[:rng.randrange(1, 80)]
        if gen.depth(t) <= 4 and not re.search(rb'(?i)(not\W*){8}|[-+\s]{14}|[(\[{][(\[{\s]{6}', t): out.append(t)
    return out
POOL = None
def long_tokens(rng):
    z = lambda b, n: b * n
    out = []
    for n in (300, 1023, 1024, 1025, 5000, 40000):
        out += [b'RETURN ' + z(b'a', n) + b';', b'RETURN "' + z(b'x', n) + b'";', b"RETURN '" + z(b'\\n', n) + b"' AS y;", b'RETURN `' + z(b'\n', min(n, 2000)) + b'`;',
                b'/*' + z(b'*', n) + b'*/ RETURN 1;', b'//' + z(b'\xff', n) + b'\nRETURN 1;', z(b' ', n) + b'RETURN 1', z(b'\n', n) + b':x\n',
                b':' + z(b'c', n) + b' ' + z(b'd', n) + b'\n', b':x "' + z(b'q', n), b'RETURN ' + z(b'9', n) + b';', z(b'\0', n), z(b';', n), z(b'\xc3\xa9', n),
                b'RETURN "' + z(b'\0', n) + b'"', b'RETURN "' + z(b'u', n), b'MATCH (' + z(b'n', n), z(b'?', n) + b';RETURN 1;', b'RETURN 1' + z(b'+1', n // 4) + b';',
                b'RETURN a' + z(b'.b', n // 4) + b';', b'RETURN [' + z(b'1,', n // 4) + b'2];', b'CREATE (a)' + z(b'-->(b)', n // 8) + b';',
                b'RETURN {' + z(b'k:1,', n // 8) + b'k:2};', z(b'RETURN 1;', n // 8), z(b':a\n', n // 4), b'RETURN 1 ' + z(b'/**/', n // 4) + b';']
    return out

def c24(ctx):
    global POOL
    POOL = [t for t in bank.statements() + bank.segments() + bank.literals() + bank.errors() + bank.patterns() if gen.depth(t) <= 3]
    rounds = 1 if not ctx.thorough else 30
    for rd in range(rounds):
        if ctx.left() < 150 or ctx.found: break
        rng = random.Random(seed_of(ctx, rd))
        ts = any_bytes(rng, 6000)
        for kw, what, m in ((dict(), 'any bytes', 1), (dict(src='file', chunks=[1, 5]), 'any bytes from a stream', 1), (dict(api='result'), 'any bytes into a result', 2),
                         (dict(api='quick'), 'any bytes, quick parser', 1)):
            part = ts[::m]
            jobs = [core.job(str(i), t, flags=rng.choice((0, 0, 2)), render=rng.choice(([0], [], [1], [33])), **kw) for i, t in enumerate(part)]
            outs, crashes = core.run_jobs(jobs, timeout=90)
            report_crashes(ctx, crashes, what)
            ctx.add(inputs_run=len(part))
            for t, j, o in zip(part, jobs, outs):
                if o is None: continue
                if 'segs' not in o:
                    if o.get('result') is None: ctx.violation('%s: no result for %r' % (what, t), dict(job=j))
                    continue
                end = (o['segs'][-1]['next' if kw.get('api') == 'quick' else 'end'][0] if o['segs'] else 0)
                if o['rc'] or (end != len(t)):
                    ctx.violation('%s: returned %s and reached byte %d of %d for %r' % (what, o['rc'], end, len(t), t), dict(job=j))
                if len(ctx.found) > 4: return
        ctx.log('random bytes parsed')
        # the trees of what came out, evaluated by TLC
        rs = [dict(t=t.hex(), c=dict(core.CFG0, only=i % 4 == 3), w={}) for i, t in enumerate(ts[:2500])]
        tree_check(ctx, rs, 'any bytes')
        ctx.log('trees evaluated by TLC')
    pump.check(ctx, ['WRONG'])
    lt = long_tokens(ctx.rng)
    for kw in (dict(), dict(src='file', chunks=[1000]), dict(api='result'), dict(api='quick'), dict(api='quick', src='file', chunks=[333])):
        jobs = [core.job(str(i), t, lean=1, **kw) for i, t in enumerate(lt)]
        outs, crashes = core.run_jobs(jobs, timeout=120)
        report_crashes(ctx, crashes, 'long tokens %s' % kw)
        for t, j, o in zip(lt, jobs, outs):
            if o is None or 'segs' not in o: continue
            end = (o['segs'][-1]['next' if kw.get('api') == 'quick' else 'end'][0] if o['segs'] else 0)
            if o['rc'] or end != len(t):
                ctx.violation('long tokens: returned %s and reached byte %d of %d for %r...' % (o['rc'], end, len(t), t[:60]), dict(job=j[:2000]))
        ctx.add(inputs_run=len(lt))
    ctx.put(longest=max(len(t) for t in lt))
    ctx.sample(dict(input=ts[0].hex())); ctx.sample(dict(input=ts[1].hex())); ctx.sample(dict(long=lt[3][:40].decode('latin-1'), bytes=len(lt[3])))

CHECKS = {'C01': (c01, 'model_checking'), 'C03': (c03, 'model_checking'), 'C09': (c09, 'model_checking'),
          'C13': (c13, 'model_checking'), 'C23': (c23, 'model_checking'), 'C24': (c24, 'model_checking')}
