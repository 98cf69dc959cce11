"""Checks of what parsing an input yields, against Session and Quick."""
import json, random, re, zlib
import core, corpus, compare, bank, gen, pump, compose

ALL = corpus.FAMILIES
FLAG = lambda c: int(c['single']) + 2 * int(c['only'])

def mkjob(i, t, c, **kw):
    d = dict(render=c['render'], color=2 if c['marks'] else 0, cfg=1, ord=c['ord'], line=c['line'],
             col=c['col'], off=c['off'], flags=FLAG(c))
    # nothing that needs a configuration: half of them do without
    if not c['marks'] and (c['ord'], c['line'], c['col'], c['off']) == (0, 1, 1, 0): d['cfg'] = zlib.crc32(bytes(t)) & 1
    d.update(kw)
    return core.job(str(i), t, **d)

def lastpos(e):
    return e['segs'][-1]['end'] if e['segs'] else [4242, 4242, 4242]

def report_crashes(ctx, crashes, what, driver='parse', flavour='asan'):
    for line, rc, err in crashes[:4]:
        out, again = core.run_jobs([line], driver=driver, flavour=flavour, timeout=400)
        told = re.search(r'ERROR: \w+Sanitizer|runtime error|Assertion', err or '') and not re.search(r'out-of-memory|failed to allocate|out of memory', err)
        if not again and rc != 'bad output' and not told:
            ctx.log('a crash did not repeat:', rc, line[:200], err[-500:])
            continue
        m = re.search(r'hex=(\w*)', line)
        t = bytes.fromhex(m.group(1)) if m else b''
        head = re.search(r'(ERROR: \w+Sanitizer[^\n]*|runtime error[^\n]*|Assertion[^\n]*)', err or '')
        ctx.violation('%s: the process failed (%s %s) on %r' % (what, rc, head.group(1) if head else '', t[:200]),
                      dict(job=line, driver=driver, flavour=flavour, stderr=(err or '')[-3000:]))

def judge(ctx, rows, jobs, differ, aspects, what, recheck=True, **how):
    """Runs jobs and compares; differ(row, output) yields (aspect, detail)."""
    outs, crashes = core.run_jobs(jobs, **how)
    report_crashes(ctx, crashes, what, **{k: v for k, v in how.items() if k == 'flavour'})
    n = nd = 0
    nodes = 0
    for r, j, o in zip(rows, jobs, outs):
        if o is None: continue
        n += 1
        d = [x for x in differ(r, o) if aspects is None or x[0] in aspects or x[0] in ('rc', 'extra', 'calls')]
        if not d: continue
        nd += 1
        if nd > 4: continue
        again, cr = core.run_jobs([j], **how)
        d2 = [x for x in differ(r, again[0])] if again[0] is not None else [('crash', 'crashes when run again')]
        if not [x for x in d2 if aspects is None or x[0] in aspects or x[0] in ('rc', 'extra', 'calls', 'crash')]:
            ctx.log('a difference did not repeat:', d[:1], j[:200])
            continue
        if recheck and 'c' in r and not live_agrees(ctx, r): continue
        ctx.violation('%s, on %r: %s' % (what, bytes.fromhex(r['t'])[:160], '; '.join(x[1] for x in d[:3])),
                      dict(dict(job=j, text=r['t'], cfg=r.get('c'), differences=d[:20]), **{k: v for k, v in how.items() if k == 'flavour'}))
    if nd > 4: ctx.log('%d differences in all (%s)' % (nd, what))
    ctx.add(traces_validated_against_impl=n)
    if len(jobs) >= 100 and 'flavour' not in how and nd == 0:   # some again in a library that asserts nothing
        ix = range(ctx.rng.randrange(5), len(jobs), 5)
        judge(ctx, [rows[i] for i in ix], [jobs[i] for i in ix], differ, aspects, what + ' (without assertions)', recheck, **dict(how, flavour='ndebug'))
    return outs

def live_agrees(ctx, r):
    """Does TLC still compute the stored expectation?"""
    try:
        e = corpus.compute([(bytes.fromhex(r['t']), r['c'])], timeout=120)[0]
    except Exception as x:
        ctx.log('could not recompute an expectation:', str(x)[:200])
        return True
    if json.loads(json.dumps(e['segs'])) != r['e']['segs']:
        raise core.Trouble('the stored expectation for %s is not what the specification gives' % r['t'][:200])
    return True

def rows_of(families, keep=None):
    out = []
    for f in families:
        rows = corpus.load(f)
        for r in rows: r['f'] = f
        out += rows
    return [r for r in out if keep is None or keep(r)]

def check_digest():
    d = open(corpus.DATA + '/DIGEST').read().strip()
    if d != corpus.digest(): raise core.Trouble('data/ was made from another specification')

def small(r): return len(r['t']) <= 240 and gen.depth(bytes.fromhex(r['t'])) <= 3

def revalidate(ctx, rows, k):
    """TLC recomputes a sample of the stored expectations, checking the invariants."""
    rows = [r for r in rows if small(r)]
    pick = ctx.rng.sample(rows, min(k, len(rows)))
    ex = corpus.compute([(bytes.fromhex(r['t']), r['c']) for r in pick], stats=ctx.stats, timeout=min(600, ctx.left()))
    for r, e in zip(pick, ex):
        if json.loads(json.dumps(e['segs'])) != r['e']['segs']:
            raise core.Trouble('the stored expectation for %s is not what the specification gives' % r['t'][:200])
    ctx.add(expectations_recomputed=len(pick))

def fresh(ctx, texts, renders=(0,), **kw):
    """Fresh inputs: rows with expectations computed by TLC now."""
    pairs = [(t, corpus.cfg(i, render=list(renders), **kw)) for i, t in enumerate(texts)]
    ex = corpus.compute(pairs, stats=ctx.stats, timeout=min(1500, ctx.left()))
    return [dict(t=t.hex(), c=c, e=json.loads(json.dumps(e)), f='fresh') for (t, c), e in zip(pairs, ex)]

def each_differ(r, o):
    e = dict(r['e'], lastpos=lastpos(r['e']))
    return compare.diff(e, o, r['c']['render'])

def from_streams(ctx):
    """Contexts of errors when only part of the input is at hand."""
    rows = rows_of(['streamed'])
    for n, chunks in enumerate(([1], [1000], [3, 1024])):
        judge(ctx, rows, [mkjob(i, bytes.fromhex(r['t']), r['c'], last=1, src='file', chunks=chunks) for i, r in enumerate(rows)],
              each_differ, {'err-ctx', 'err-at', 'err-msg', 'err-count', 'segments'}, 'read from a stream', recheck=False)

def pumped(groups, fields, **kw):
    return lambda ctx: pump.check(ctx, groups, fields, **kw)

FAR = ([1 << 40, 1 << 31, 1 << 31], [(1 << 32) - 5, 4294960000, 70000], [65530, 65530, 65530], [(1 << 63) - 12345, 1, 4294900000])
def far_away(ctx):
    """Initial positions and ordinals beyond 16, 31 and 32 bits: expectations from the start, moved."""
    rows = rows_of(ALL, lambda r: not (r['c']['off'] or r['c']['ord']) and r['c']['line'] == r['c']['col'] == 1 and r['e']['segs'])
    rows = ctx.rng.sample(rows, 2500 if not ctx.thorough else len(rows))
    for at, k in zip(FAR, ((1 << 31) + 7, 65530, 4294000000, (1 << 31) - 3)):
        moved = []
        for r in rows:
            shown = r['c']['render'][:1] == [0] and compose.movable(bytes.fromhex(r['t']))
            moved.append(dict(r, e=dict(segs=[compose.shift(s, at, k) for s in r['e']['segs']]), base=r['e']['segs'] if shown else None,
                              c=dict(r['c'], off=at[0], line=at[1], col=at[2], ord=k, render=[0] if shown else [])))
        def differ(r, o):
            yield from each_differ(dict(r, c=dict(r['c'], render=[])), o)
            if r['base']: yield from compose.render_differs(r['base'], o['segs'], r['c']['off'], r['c']['ord'])
        judge(ctx, moved, [mkjob(i, bytes.fromhex(r['t']), r['c'], last=1) for i, r in enumerate(moved)],
              differ, None, 'far from the start', recheck=False)
    ctx.log('sessions far from the start compared')

def far_renders(ctx):
    """Renderings where numbers and offsets grow by a digit within the tree, or are as long as TLC can count."""
    rows = [r for r in rows_of(['statements', 'derived', 'segments', 'errors'], lambda r: r['e']['segs']) if small(r)]
    items = []
    for i, r in enumerate(ctx.rng.sample(rows, 48 if not ctx.thorough else 400)):
        c = corpus.cfg(i, render=[0, 1, 45, 72], ord=ctx.rng.choice((6, 96, 997, 9999995, 99999998, 999999996, 2147483000)),
                       off=ctx.rng.choice((0, 3, 92, 995, 99999990, 999999985, 2147480000)), line=3, col=ctx.rng.choice((1, 9)))
        items.append((bytes.fromhex(r['t']), c))
    ex = corpus.compute(items, stats=ctx.stats, timeout=400)
    got = [dict(t=t.hex(), c=c, e=json.loads(json.dumps(e))) for (t, c), e in zip(items, ex)]
    judge(ctx, got, [mkjob(i, bytes.fromhex(r['t']), r['c'], last=1) for i, r in enumerate(got)], each_differ, {'render'}, 'far from the start', recheck=False)

def buffer_edges(ctx):
    """Details made of very many references, numbered so that their lengths fall about 1024."""
    items = [(p + u * 84 + s, corpus.cfg(1, render=[0])) for p, u, s in (x[:3] for x in pump.LISTS) if compose.movable(p + u + s)]
    items += [(t, corpus.cfg(1, render=[0])) for t in
              (b'RETURN CASE x ' + b'WHEN 1 THEN 2 ' * 42 + b'ELSE 3 END;', b'MATCH p = (a)' + b'-->()' * 42 + b' RETURN a;',
               b'CALL p(' + b'a,' * 84 + b'b) YIELD c AS d, e;', b'CALL p(a) YIELD ' + b'b, ' * 84 + b'c WHERE d RETURN 1;',
               b'CALL p(' + b'a,' * 84 + b'b) YIELD c WHERE d RETURN 1;',
               b'WITH DISTINCT a' + b', a' * 84 + b' ORDER BY b SKIP 1 LIMIT 2 WHERE c RETURN 1;',
               b'WITH a' + b', a' * 84 + b' WHERE c RETURN 1;', b'WITH a' + b', a' * 84 + b' SKIP 1 RETURN 1;', b'WITH a' + b', a' * 84 + b' LIMIT 1 RETURN 1;',
               b'RETURN a' + b', a' * 84 + b' ORDER BY b SKIP 1 LIMIT 2;', b'RETURN a' + b', a' * 84 + b' SKIP 1;', b'RETURN a' + b', a' * 84 + b' LIMIT 1;',
               b'MATCH (n)' + b' USING INDEX n:A(p)' * 84 + b' WHERE n.x RETURN 1;', b'MATCH (n' + b':A' * 84 + b' {a: 1}) RETURN 1;',
               b'MATCH ()-[r:A' + b'|A' * 84 + b'*1..2 {a: 1}]->() RETURN 1;', b'MATCH ()<-[:A' + b'|A' * 84 + b' {a: 1}]-() RETURN 1;',
               b'START n=node(1)' + b', n=node(1)' * 84 + b' WHERE a RETURN 1;', b'CYPHER' + b' a=b' * 84 + b' RETURN 1;',
               b'RETURN n {' + b'.a, ' * 84 + b'.b};', b'RETURN f(' + b'a, ' * 84 + b'b);', b'MERGE (n)' + b' ON CREATE SET n.a = 1' * 84 + b';',
               b'FOREACH (x IN y |' + b' CREATE (n)' * 84 + b');', b'USING PERIODIC COMMIT 1' + b' MATCH (n)' * 84 + b' RETURN 1;',
               b'MATCH (a), (b)' + b' USING JOIN ON ' + b'a, ' * 84 + b'b RETURN 1;', b':x' + b' y' * 84 + b'\n')]
    ex = corpus.compute(items, stats=ctx.stats, timeout=500)
    rows, jobs, kinds = [], [], set()
    for (t, c), e in zip(items, ex):
        e = json.loads(json.dumps(e)); want = {}
        shown = compose.details(l for s in e['segs'] for l in [s['render'][0]])
        nodes = sum(len(s['nodes']) for s in e['segs'])
        for k in range(3, 10):
            for d in range(nodes + 1):
                n = 10 ** k - d
                for kind, fixed, refs in shown:
                    size = fixed + sum(len(str(x + n)) for x in refs)
                    if len(refs) > 30 and 1014 <= size <= 1062 and (kind, size) not in want: want[kind, size] = n
        kinds |= {k for k, z in want}
        ns = sorted(set(want.values()))
        if not ctx.thorough and len(ns) > 40: ns = ctx.rng.sample(ns, 40)
        for n in ns:
            rows.append(dict(t=t.hex(), e=e, c=dict(c, ord=n)))
            jobs.append(mkjob(len(jobs), t, rows[-1]['c'], last=0))
    def differ(r, o): return compose.render_differs(r['e']['segs'], o['segs'], 0, r['c']['ord'])
    judge(ctx, rows, jobs, differ, {'render'}, 'details of about 1024 bytes', recheck=False)
    ctx.log(len(rows), 'trees with details of about 1024 bytes, of', len(kinds), 'kinds')

def small_rooms(ctx):
    """Sink.tla: renderings written to where there is not enough room."""
    rc, out = core.tlc('Sink', timeout=120, workers=2)
    if rc: raise core.Trouble('TLC on Sink: %s' % out[-1500:])
    rows = [r for r in rows_of(['renders', 'statements', 'segments', 'errors', 'config'], lambda r: r['e']['segs'] and r['c']['render'])
            if 0 < sum(len(s['render'][0]) for s in r['e']['segs']) < 1500]
    todo = []
    for r in ctx.rng.sample(rows, 160 if not ctx.thorough else len(rows)):
        n = max(len(x) for s in r['e']['segs'] for x in s['render'])
        rooms = range(n + 2) if n < 60 else sorted(ctx.rng.sample(range(n), 50) + [n - 1, n, n + 1, 0])
        todo.append(dict(r, rooms=list(dict.fromkeys(rooms))[:46] + [-k for k in list(range(1, 9)) + ctx.rng.sample(range(9, 20 + n // 6), 8)]))
    def differ(r, o):
        for k, (s, g) in enumerate(zip(r['e']['segs'], o.get('segs', []))):
            by = {(room, w): x for room, w, *x in g['rooms']}
            for w, whole in zip(r['c']['render'], s['render']):
                for room in r['rooms']:
                    rc, e, there = by[room, w]
                    if room < 0:   # a write was refused, if there were so many
                        if list(there) != list(whole[:len(there)]) or (rc == 0) != (len(there) == len(whole)):
                            yield 'render', 'segment %d at width %d, write %d refused: said %s, and %d of %d bytes arrived%s' % (
                                k, w, -room, rc, len(there), len(whole), '' if list(there) == list(whole[:len(there)]) else ', not the first')
                        continue
                    want = whole[:room]
                    if list(there) != list(want):
                        yield 'render', 'segment %d at width %d, written where %d bytes fit: %d bytes arrived, not the first of the rendering' % (k, w, room, len(there))
                    if (rc == 0) != (room >= len(whole)):
                        yield 'render', 'segment %d at width %d, %d bytes written where %d fit: said %s' % (k, w, len(whole), room, rc)
                    if rc and e != 28: yield 'render', 'a refused write was reported with errno %d' % e
    outs = judge(ctx, todo, [mkjob(i, bytes.fromhex(r['t']), r['c'], last=1, rooms=r['rooms']) for i, r in enumerate(todo)],
                 differ, {'render'}, 'written where there is little room', recheck=False)
    ctx.log('renderings written to where there is little room')

def renders_more(ctx):
    far_renders(ctx)
    buffer_edges(ctx)
    small_rooms(ctx)

def describe(r):
    return dict(input=bytes.fromhex(r['t']).decode('latin-1')[:200], cfg={k: v for k, v in r['c'].items() if v != core.CFG0.get(k)},
                segments=[dict(start=s['start'], end=s['end'], errors=[compare.txt(x['msg'])[:80] for x in s['errors']],
                               nodes=[n['t'] for n in s['nodes']][:12]) for s in r['e']['segs'][:3]])

def corpus_check(families, aspects, gen_fresh=None, keep=None, k=120, renders=(0,), more=None):
    def run(ctx):
        check_digest()
        rows = rows_of(families, keep)
        ctx.log(len(rows), 'stored expectations')
        judge(ctx, rows, [mkjob(i, bytes.fromhex(r['t']), r['c'], last=1) for i, r in enumerate(rows)],
              each_differ, aspects, 'stored expectation')
        ctx.put(stored_expectations=len(rows),
                distinct_inputs=len({r['t'] for r in rows}))
        for r in ctx.rng.sample(rows, 2): ctx.sample(describe(r))
        if more: more(ctx)
        if ctx.found: return
        revalidate(ctx, rows, k * (8 if ctx.thorough else 1))
        ctx.log('sample recomputed by TLC')
        rounds = 1 if not ctx.thorough else 12
        for rd in range(rounds):
            if ctx.left() < 120 or ctx.found: break
            texts = gen_fresh(ctx, rd) if gen_fresh else []
            if not texts: break
            rows2 = fresh(ctx, texts, renders)
            rows2 = [r for r in rows2 if keep is None or keep(r)]
            judge(ctx, rows2, [mkjob(i, bytes.fromhex(r['t']), r['c'], last=1) for i, r in enumerate(rows2)],
                  each_differ, aspects, 'fresh input', recheck=False)
            ctx.add(fresh_inputs=len(rows2))
            if rows2: ctx.sample(describe(ctx.rng.choice(rows2)))
            ctx.log('fresh inputs compared')
    return run

# --- fresh inputs ----------------------------------------------------------
def seed_of(ctx, rd): return ctx.seed * 1000 + rd * 37 + sum(map(ord, ctx.prop))

def g_mixed(mode, n=150, maxlen=110):
    def g(ctx, rd):
        ts = corpus.generated(seed_of(ctx, rd), n * (4 if ctx.thorough else 1), mode, maxlen)
        return [t for t in ts if gen.depth(t) <= 3]
    return g
def g_rule(rule, wrap, n=150, maxlen=90, budget=(10, 15, 25)):
    def g(ctx, rd):
        D = gen.Deriver(seed_of(ctx, rd)); out = set(); m = n * (4 if ctx.thorough else 1)
        while len(out) < m:
            t = D.text(rule, D.rng.choice(budget))
            if len(t) <= maxlen and gen.depth(t) <= 2: out.add(wrap[0] + t + wrap[1])
        return sorted(out)
    return g
def g_pick(fn, mutate=.5, n=150, maxlen=110):
    def g(ctx, rd):
        rng = random.Random(seed_of(ctx, rd)); pool = [t for t in fn() if len(t) <= maxlen and gen.depth(t) <= 2]
        out = set(); m = n * (4 if ctx.thorough else 1)
        while len(out) < m:
            t = rng.choice(pool)
            if rng.random() < .4: t = t + rng.choice((b';', b'\n', b' ', b';\n', b'')) + rng.choice(pool)
            if rng.random() < mutate: t = gen.mutate(rng, t, pool)
            if len(t) <= maxlen * 1.5 and gen.depth(t) <= 3: out.add(t)
        return sorted(out)
    return g

TREE = {'nnodes', 'type', 'children', 'roles', 'roots', 'directive', 'err-count', 'segments'}
CHECKS = {
    'C02': (corpus_check(ALL, {'segments', 'extent', 'eof', 'directive', 'roots', 'nnodes', 'last'},
                         g_pick(bank.segments)), 'model_checking'),
    'C04': (corpus_check(ALL, {'extent', 'span', 'err-at', 'last', 'segments'},
                         g_mixed('mut'), more=pumped(['TOKENS', 'BLANKS'], 'f')), 'model_checking'),
    'C05': (corpus_check(['statements', 'derived', 'mutated', 'truncations', 'sizes', 'config', 'segments'], TREE,
                         g_mixed('plain')), 'model_checking'),
    'C06': (corpus_check(['expressions', 'derived', 'statements', 'mutated'], TREE,
                         g_rule('u_expression', (b'RETURN ', b';'))), 'model_checking'),
    'C07': (corpus_check(['patterns', 'derived', 'statements', 'sizes', 'mutated'], TREE,
                         g_pick(bank.patterns, .3)), 'model_checking'),
    'C08': (corpus_check(['literals', 'statements', 'sizes', 'derived', 'renders', 'mutated'], TREE,
                         g_pick(bank.literals, .3), more=pumped(['TOKENS'], 'l')), 'model_checking'),
    'C10': (corpus_check(ALL, {'err-count', 'err-at', 'err-msg', 'segments'}, g_mixed('mut'), more=pumped(['WRONG'], 'f')), 'model_checking'),
    'C11': (corpus_check(['errors', 'segments', 'mutated', 'truncations', 'config'], TREE | {'extent', 'eof', 'span'},
                         g_pick(bank.errors, .5)), 'model_checking'),
    'C12': (corpus_check(['errors', 'segments', 'mutated', 'truncations', 'config', 'sizes', 'literals'], {'err-ctx', 'err-count', 'segments'},
                         g_pick(bank.errors, .4), more=from_streams), 'model_checking'),
    'C19': (corpus_check(['renders', 'sizes', 'statements', 'expressions', 'patterns', 'literals', 'derived', 'config', 'segments', 'errors', 'mutated'],
                         {'render'}, g_mixed('plain'), renders=(0, 1, 40), more=renders_more), 'model_checking'),
}
