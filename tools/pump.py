"""Inputs with a part repeated very many times, and what Growth.tla derives for them."""
import json, multiprocessing, resource
import core

def at(a, b, n): return a + (n - 2) * (b - a)
def even(a, b, c): return c - b == b - a
def mid(a, b, c, j, n): return a + j * (c - b) + (n - 3) * (b - a)

def grown(x2, x3, x4, same):
    k = len(x3) - len(x2); h = 0
    while h < len(x2) and same(x2[h], x3[h], x4[h]): h += 1
    return k, h

def seq_at(x2, x3, x4, n, same, elem, middle):
    k, h = grown(x2, x3, x4, same); t = len(x2) - h
    out = [elem(x2[i], x3[i], x4[i], n) for i in range(h)]
    if k:
        ms = [(x3[h + r], x4[h + r], x4[h + k + r]) for r in range(k)]
        for j in range(n - 2): out += [middle(*m, j, n) for m in ms]
    t2, t3, t4 = (x[len(x) - t:] if t else [] for x in (x2, x3, x4))
    return out + [elem(a, b, c, n) for a, b, c in zip(t2, t3, t4)]

def nums_at(x2, x3, x4, n):
    return seq_at(x2, x3, x4, n, even, lambda a, b, c, n: at(a, b, n), mid)

def nums_ok(x2, x3, x4):
    if not len(x2) <= len(x3) <= len(x4): return False
    k, h = grown(x2, x3, x4, even)
    return len(x4) - len(x3) == k and all(even(x2[-1 - j], x3[-1 - j], x4[-1 - j]) for j in range(len(x2) - h))

def same_val(a, b, c):
    return (a['k'] == b['k'] == c['k'] and all(map(even, a['f'], b['f'], c['f']))
            and all(nums_ok(x, y, z) for x, y, z in zip(a['l'], b['l'], c['l'])))

def val_at(a, b, c, n):
    return dict(k=a['k'], f=[at(x, y, n) for x, y in zip(a['f'], b['f'])],
                l=[nums_at(x, y, z, n) for x, y, z in zip(a['l'], b['l'], c['l'])])

def mid_val(a, b, c, j, n):
    return dict(k=a['k'], f=[mid(x, y, z, j, n) for x, y, z in zip(a['f'], b['f'], c['f'])],
                l=[[mid(*e, j, n) for e in zip(x, y, z)] for x, y, z in zip(a['l'], b['l'], c['l'])])

def predicted(e, n):
    """e: the expectations for 2, 3 and 4 repetitions."""
    return [dict(v=val_at(a['v'], b['v'], c['v'], n),
                 **{f: seq_at(a[f], b[f], c[f], n, same_val, val_at, mid_val) for f in ('nodes', 'errs')})
            for a, b, c in zip(*e)]

def role_list(v):
    return [int(v)] if isinstance(v, bool) else [v] if isinstance(v, int) else [] if isinstance(v, str) else [OPS.index(x) + 1 if isinstance(x, str) else x for x in v]
OPS = ['EQUAL', 'NEQUAL', 'LT', 'LTE', 'GT', 'GTE']

def flat(o):
    """What the implementation reported, as Growth has it."""
    return [dict(v=dict(k=[s['eof']], f=s['start'] + s['end'] + [s['directive'], s['nnodes']], l=[s['roots']]),
                 errs=[dict(k=[x['msg']], f=x['at'], l=[]) for x in s['errors']],
                 nodes=[dict(k=[n['t'], [[r[0], r[1]] if isinstance(r[1], str) else [r[0]] for r in n['r']]],
                             f=[n['o']] + n['s'] + n['e'], l=[n['ch']] + [role_list(r[1]) for r in n['r']]) for n in s['nodes']])
            for s in o['segs']]

def text(it, n): return it['p'] + it['u'] * n + it['s']

def expect(items, cfg, stats=None, module='Pump', timeout=800):
    """items: (p, u, s, must).  Rows dict(p, u, s, c, e) of those that grow regularly."""
    ins = [dict(id=str(i), p=list(p), u=list(u), s=list(s), must=m, c=cfg) for i, (p, u, s, m) in enumerate(items)]
    ex = core.expect(ins, module=module, stats=stats, timeout=timeout)
    return [dict(p=p, u=u, s=s, c=cfg, e=ex[str(i)]['e'], id=str(i)) for i, (p, u, s, m) in enumerate(items) if ex[str(i)]['holds']]

# (before, repeated, after): R is for RETURN, M for MATCH ... RETURN
def _t(s):
    out = []
    for l in s.strip('\n').split('\n'):
        p = [x.encode('latin-1').decode('unicode_escape').encode('latin-1') for x in l.split('¦')]
        out.append(tuple((p + [b''])[:3]))
    return out

TOKENS = _t(r'''
RETURN '¦ab¦c' AS x;
RETURN "¦a¦" AS x;
RETURN '¦\\n¦' AS x;
RETURN '¦a\\'¦' AS x;
RETURN "x¦\\"¦" AS x;
RETURN '¦\\\\¦z' AS x;
RETURN 'a¦\nb¦c' AS x;
RETURN '¦''¦' AS x;
RETURN '¦\xc3\xa9¦' AS x;
RETURN a¦b¦c;
RETURN `a¦b¦`;
RETURN `a¦ ``¦`;
RETURN `¦\n¦`;
RETURN n.p¦q1¦;
MATCH (n:L¦ab¦) RETURN n;
MATCH ()-[:T¦_9¦]->() RETURN 1;
MATCH ()-[r:A|:`¦u v¦`]->() RETURN 1;
RETURN 1¦0¦ AS x;
RETURN 0x¦fF¦ AS x;
RETURN 0¦7¦ AS x;
RETURN 1.¦5¦ AS x;
RETURN 1¦2¦.5 AS x;
RETURN .¦5¦e1 AS x;
RETURN 1e1¦2¦ AS x;
RETURN $¦ab¦ AS x;
RETURN $1¦2¦ AS x;
RETURN {¦ab¦} AS x;
RETURN f¦g¦(1) AS x;
RETURN a¦.b¦.f(1) AS x;
CALL a¦.b¦.p();
CALL p¦q¦(1) YIELD x;
RETURN f(`¦x ¦`) AS x;
CREATE INDEX ON :L¦l¦(p¦p¦);
CREATE INDEX ON :L(p¦p¦);
START n=node:i¦j¦(k='v¦w¦') RETURN n;
START n=node:i¦j¦(k='v') RETURN n;
START n=node:i(k='v¦w¦') RETURN n;
START n=node(1¦0¦) RETURN n;
RETURN {k¦e¦: 1} AS x;
RETURN n {.k¦e¦} AS x;
CYPHER a¦b¦=c RETURN 1;
CYPHER a=b¦c¦ RETURN 1;
CYPHER 2.¦3¦ RETURN 1;
USING PERIODIC COMMIT 1¦0¦ LOAD CSV FROM 'x' AS l RETURN l;
LOAD CSV WITH HEADERS FROM 'x¦y¦' AS l RETURN l;
LOAD CSV FROM 'x' AS l FIELDTERMINATOR '¦;¦' RETURN l;
RETURN 1 AS ab¦cd¦;
MATCH p¦q¦ = (a) RETURN 1;
:he¦lp¦ x
:a x¦yz¦ w
:a 'x¦ y¦'
:a "x¦\\"¦" z
:a x¦\\ ¦z
''')

BLANKS = _t(r'''
/*¦*¦*/RETURN 1;
/* ¦ab\n¦*/ RETURN /*c*/ 1;
RETURN /*¦c¦*/ 1;
RETURN 1 //¦ c¦\n;
RETURN 1 //¦ c¦
RETURN¦ ¦1 AS x;
RETURN¦\n¦1 AS x;
RETURN 1 AS¦\t\n¦x;
RETURN 'a¦\n¦b' AS x, y;
¦ ¦RETURN 1;
¦\n¦RETURN 1;
¦\r\n¦RETURN 1 AS `a\nb`;
RETURN 1;¦ ¦
RETURN 1;¦\n¦RETURN 2
RETURN 1¦ \n¦;
:a b¦ ¦c
:a b¦ ¦\n:x
''')

LISTS = _t(r'''
RETURN [¦1,¦2] AS x;
RETURN [¦'a', /*c*/ ¦b] AS x;
RETURN {¦a: 1, ¦b: 2} AS x;
RETURN f(¦a, ¦b) AS x;
RETURN f(DISTINCT ¦a, ¦b) AS x;
RETURN ¦a, ¦b;
RETURN ¦a AS b, ¦c;
RETURN *, ¦a, ¦b;
WITH ¦a, ¦b RETURN b;
WITH a ORDER BY ¦a DESC, ¦b RETURN b;
RETURN n {¦.k, ¦.*} AS x;
RETURN n {¦k: 1, ¦.*} AS x;
RETURN n {¦a, ¦b} AS x;
RETURN CASE x ¦WHEN 1 THEN 2 ¦ELSE 3 END AS x;
RETURN CASE ¦WHEN a THEN b ¦END AS x;
MATCH (n¦:A¦) RETURN n;
MATCH ¦(a), ¦(b) RETURN a;
MATCH (a)¦-->()¦ RETURN a;
MATCH (a)¦<-[r:T {k: 1}]-(b:B)¦ RETURN a;
MATCH ()-[:A¦|:B¦]->() RETURN 1;
MATCH ()-[:A¦|B¦*1..2]->() RETURN 1;
MATCH (n {¦a: 1, ¦b: 2}) RETURN 1;
MATCH (n) ¦USING INDEX n:A(p) ¦RETURN 1;
MATCH (n) WHERE n¦:A¦ RETURN n;
MATCH (n) SET ¦n.a = 1, ¦n.b = 2;
MATCH (n) SET n¦:A¦;
MATCH (n) REMOVE ¦n.a, ¦n:B;
MATCH (n) REMOVE n¦:A¦;
MATCH (n) DELETE ¦a, ¦b;
MATCH (n) DETACH DELETE ¦a, ¦b;
CREATE ¦(a), ¦(b);
CREATE UNIQUE ¦(a)-[:R]->(), ¦(b)-[:R]->();
MERGE (n) ¦ON CREATE SET n.a = 1 ¦ON MATCH SET n.b = 2;
MERGE (n) ON CREATE SET ¦n.a = 1, ¦n.c = 1;
¦MATCH (a) ¦RETURN 1;
¦WITH 1 AS x ¦RETURN 1;
¦UNWIND [1] AS x ¦RETURN 1;
¦CREATE (a) ¦CREATE (b);
CREATE (a)¦ SET a.x = 1¦;
¦OPTIONAL MATCH (a) WHERE a.x ¦RETURN 1;
RETURN 1 AS x¦ UNION RETURN 1 AS x¦;
RETURN 1 AS x¦ UNION ALL RETURN 2 AS x¦;
CALL p(¦a, ¦b);
CALL p() YIELD ¦a, ¦b;
CALL p() YIELD ¦a AS c, ¦b;
FOREACH (x IN y |¦ CREATE (n)¦);
START ¦n=node(1), ¦m=node(*) RETURN 1;
START n=node(¦1, ¦2) RETURN 1;
START r=rel(¦1,¦2) RETURN 1;
CREATE INDEX ON :L(¦p, ¦q);
DROP INDEX ON :L(¦p, ¦q);
MATCH (n)-->(m) USING JOIN ON ¦n, ¦m RETURN 1;
CYPHER¦ a=b¦ RETURN 1;
¦EXPLAIN ¦RETURN 1;
¦PROFILE CYPHER a=b ¦RETURN 1;
RETURN ¦/*a*/ ¦1;
RETURN 1 ¦/*a*/ ¦AS x;
¦/*a*/¦RETURN 1;
¦//a\n¦RETURN 1;
¦//\n ¦:x
RETURN a¦ < b¦ AS x;
RETURN a¦ <= b >= c¦ AS x;
RETURN a¦:B¦ AS x;
RETURN reduce(a = 0, x IN [¦1, ¦2] | a + x) AS x;
RETURN ANY(x IN [¦1, ¦2] WHERE x) AS x;
RETURN [x IN [¦1, ¦2] WHERE x | y] AS x;
RETURN shortestPath((a)¦-->()¦) AS x;
:a¦ b¦
:a¦ 'b c'¦ d
:a¦ "b"¦
''')

WRONG = _t(r'''
¦?¦
¦? ¦;
RETURN ¦?¦;
RETURN 1 ¦? ¦;
MATCH (n ¦) ¦RETURN n;
RETURN [¦1 ¦];
¦)¦ RETURN 1;
¦\x00¦
¦\xff¦;
RETURN '¦a
'¦ab¦
"¦ab\n¦
/*¦ab¦
/*¦\n¦
`¦ab¦
RETURN `¦ab¦
RETURN $¦?¦;
RETURN {¦a
RETURN {a: 1¦ ¦
MATCH (n¦:¦) RETURN 1;
RETURN 1¦.¦;
RETURN 0x¦g¦;
x¦y¦;
xy ¦z ¦;
:a '¦b¦
:a "¦b¦
CREATE ¦q ¦;
FOREACH (x IN y | ¦z ¦);
¦RETURN ? ¦;
¦RETURN ? ¦
CREATE (n) ¦MATCH ? ¦;
¦MATCH (n) ? ¦RETURN 1;
¦CREATE (n) ? ¦
¦CALL ? ¦;
¦UNWIND [1] q ¦RETURN 1;
''')

QUICK = _t(r'''
¦a¦;
¦a ¦;
'¦a¦';
'¦;¦';b
'¦\\'¦';b
"¦\n¦";b
/*¦*¦*/a;
/*¦;¦*/a;
a /*¦\n;¦*/ b;
//¦;¦\na;
a //¦;¦
a¦\n¦;
¦ ¦a;
¦\n¦a;b
¦\r\n¦a;b
a;¦ ¦b
a;¦\n¦b
:a¦b¦
:a¦ b¦\nc
:a '¦\n¦' x;
:a ¦ ¦b;
'¦a¦
/*¦a¦
`¦a¦`;
¦\x00¦;
''')

SMALL = (7, 63, 64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 1022, 1023, 1024, 1025, 2048, 4095, 4096, 4097)
LARGE = (32767, 32768, 32769, 65534, 65535, 65536, 65537)
WAYS = (dict(), dict(src='file', chunks=[1000]), dict(src='file', chunks=[1]), dict(src='file', chunks=[4096, 3]))

def differences(want, got, fields):
    if len(want) != len(got): yield 'expected %d segments, got %d' % (len(want), len(got)); return
    for i, (a, b) in enumerate(zip(want, got)):
        if len(a['nodes']) != len(b['nodes']): yield 'segment %d: expected %d nodes, got %d' % (i, len(a['nodes']), len(b['nodes']))
        if len(a['errs']) != len(b['errs']): yield 'segment %d: expected %d errors, got %d' % (i, len(a['errs']), len(b['errs']))
        for w, x, y in [('segment %d' % i, a['v'], b['v'])] + [('segment %d error %d' % (i, j), x, y) for j, (x, y) in enumerate(zip(a['errs'], b['errs']))] + [('segment %d node %d' % (i, j), x, y) for j, (x, y) in enumerate(zip(a['nodes'], b['nodes']))]:
            for f in ['k'] + fields:
                if x[f] == y[f]: continue
                if f == 'l' and len(x['l']) == len(y['l']):
                    k = [k for k in range(len(x['l'])) if x['l'][k] != y['l'][k]][0]
                    p, q = x['l'][k], y['l'][k]; w += ' (%s)' % x['k'][0] + (' children' if k == 0 else ' %s' % x['k'][1][k - 1] if isinstance(x['k'][0], str) and k <= len(x['k'][1]) else '')
                    at_ = next((m for m, (c, d) in enumerate(zip(p, q)) if c != d), min(len(p), len(q)))
                    yield '%s: expected %d elements, got %d; differing from the %dth on' % (w, len(p), len(q), at_ + 1)
                else: yield '%s: expected %s, got %s' % (w, str(x[f])[:200], str(y[f])[:200])
                return

def flat_quick(o):
    return [dict(v=dict(k=[s['kind'], s['eof']], f=s['start'] + s['end'] + s['next'], l=[s['text']]), nodes=[], errs=[]) for s in o['segs']]

def check(ctx, groups, fields=('f', 'l'), quick=False, few=3, large=4, extra={}, also=None, light=False):
    """Repeats parts of inputs very many times and compares what comes with what Growth derives."""
    cfg = dict(only=False, single=False) if quick else dict(core.CFG0, ctx='any')
    items = [x + (True,) for g in groups for x in globals()[g]]
    rows = expect(items, cfg, ctx.stats, 'PumpQuick' if quick else 'Pump', timeout=min(600, max(60, ctx.left())))
    ctx.log('%d kinds of repetition, regular by TLC' % len(rows))
    rng, plan = ctx.rng, []
    grows = lambda r: len(r['e'][2]) and any(len(a[f]) != len(b[f]) for f in ('nodes', 'errs') for a, b in zip(r['e'][1], r['e'][2]))
    for r in rows:
        if grows(r): ns = list(SMALL[:-4]) + rng.sample(SMALL[-4:-2], 1)
        else: ns = list(SMALL) + rng.sample(LARGE, 2 if not ctx.thorough else 6)
        if light: ns = rng.sample(ns[:8], 2) + rng.sample(ns[8:], 4)
        plan += [(r, n) for n in ns]
    g = [r for r in rows if grows(r)]
    big = [r for r in g if b'UNION' not in r['u']]   # each of those nested in the one before: the stack
    some = [r for r in big if len(r['u']) < 4] if not ctx.thorough else big
    plan += [(r, rng.choice(LARGE[3:])) for r in rng.sample(some, min(len(some), few) if not ctx.thorough else len(some))]
    plan += [(r, rng.choice((131071, 131072, 131073, 200000))) for r in rng.sample([r for r in rows if r not in g], min(large, len(rows) - len(g)))]
    plan = [(r, n) for r, n in plan if not slow(r, n, quick)]
    plan.sort(key=lambda x: -x[1])
    plan = [(r, n, 'asan') for r, n in plan]
    # enough to pass 16 bits, in a build fast enough to do it with everything that repeats
    was = resource.getrlimit(resource.RLIMIT_STACK)
    if deep(): plan += [(r, rng.choice(LARGE[-2:]), 'plain') for r in big]
    todo = [(r, n, flavour, core.job('0', text(r, n), cfg=1, **dict(dict(api='quick') if quick else extra, **rng.choice(WAYS))), quick, tuple(fields), also)
            for r, n, flavour in plan]
    for f in sorted({x[2] for x in todo}): core._build.build(f)
    longest, done, failed = 0, 0, 0
    with multiprocessing.get_context('fork').Pool(8) as pool:
        for k, what in pool.imap_unordered(attempt, list(enumerate(todo))):
            r, n, flavour, j = todo[k][:4]
            done += 1; longest = max(longest, len(j) // 2)
            if what and failed < 4:
                failed += 1
                ctx.violation('%r, then %r %d times, then %r: %s' % (r['p'], r['u'], n, r['s'], what), dict(job=j, driver='parse', flavour=flavour))
            if failed >= 4 or ctx.left() < 45: pool.terminate(); break
    resource.setrlimit(resource.RLIMIT_STACK, was)
    ctx.add(traces_validated_against_impl=done)
    ctx.put(repetitions=done, kinds_of_repetition=len(rows), longest_repetition=longest)
    ctx.log('repetitions compared')

STACK = 1 << 29
def deep():
    """Allows the parser a stack for clauses by the ten thousands; whether that is possible."""
    soft, hard = resource.getrlimit(resource.RLIMIT_STACK)
    if soft == resource.RLIM_INFINITY or soft >= STACK: return True
    if hard != resource.RLIM_INFINITY and hard < STACK: return False
    resource.setrlimit(resource.RLIMIT_STACK, (STACK, hard))
    return True

def attempt(x):
    """What is wrong with the outcome of one repetition, if anything is."""
    k, (r, n, flavour, j, quick, fields, also) = x
    outs, crashes = core.run_jobs([j], timeout=60 if n < 5000 else 200, per=1, flavour=flavour)
    for line, rc, err in crashes: return k, 'the process failed (%s): %s' % (rc, (err or '')[:600])
    if outs[0] is None: return k, 'no answer'
    if 'segs' not in outs[0]: return k, 'no segments'
    for d in also(None, outs[0]) if also else (): return k, 'copy: ' + d[1]
    for d in differences(predicted(r['e'], n), flat_quick(outs[0]) if quick else flat(outs[0]), list(fields)): return k, d
    return k, None

def slow(r, n, quick):
    """Where the parser takes time quadratic in the repetitions."""
    return n > 9000 and (b'\n' in r['u'] or (quick and r['u'].strip() == b''))
