"""C21: what a configuration changes, and the life of configurations."""
import json, os, tempfile
import core, corpus, compare, compose, checks_own
from checks_text import rows_of, small, lastpos, seed_of, corpus_check, far_away

ANSI = {b'e': (b'\x1b[1m\x1b[31m', b'\x1b[0m'), b't': (b'\x1b[1m', b'\x1b[0m'), b'm': (b'\x1b[1m', b'\x1b[0m')}
def ansi(segs):
    """What the specification says of visible marks, with those of a terminal instead."""
    def msg(m):
        m = bytes(m)
        for k, (a, b) in ANSI.items(): m = m.replace(b'<%s>' % k, a).replace(b'</%s>' % k, b)
        return list(m)
    return [dict(s, errors=[dict(x, msg=msg(x['msg'])) for x in s['errors']]) for s in segs]

CONF_DOCS = [b'RETURN 1 +;\n', b'/*c*/ MATCH (n:A {b: 1})\n-->(m)\nRETURN n; :go x\n']
def config_lives(ctx):
    """ConfigLife.tla: configurations set, used again and again, and released."""
    pool = rows_of(['errors', 'segments', 'mutated', 'statements', 'patterns'],
                   lambda r: len(r['t']) < 160 and r['c'] == dict(core.CFG0, render=r['c']['render'], marks=r['c']['marks'], ctx=r['c']['ctx'])
                   and r['e']['segs'] and compose.movable(bytes.fromhex(r['t'])))
    docs = CONF_DOCS + [bytes.fromhex(r['t']) for r in ctx.rng.sample([r for r in pool if small(r)], 8)]
    ex = corpus.compute([(t, dict(core.CFG0, marks=m, render=[0])) for m in (False, True) for t in docs], stats=ctx.stats, timeout=400)
    ex = [json.loads(json.dumps(e))['segs'] for e in ex]
    plain, marked = ex[:len(docs)], ex[len(docs):]
    table = [dict(end=lastpos(dict(segs=s)) if s else [0, 1, 1], n=sum(len(x['nodes']) for x in s)) for s in plain]
    by_color = {0: plain, 2: marked, 1: [ansi(s) for s in marked]}
    def differ(r, o):
        use = [s for s in r['h'] if s['a'] == 'U']
        if len(use) != len(o['steps']): yield 'the run ended early'; return
        for s, g in zip(use, o['steps']):
            c, (k, d, how) = s['c'], s['g']
            e = dict(segs=[compose.shift(x, [c['off'], c['line'], c['col']], c['ord']) for x in by_color[c['color']][d - 1]])
            e['lastpos'] = lastpos(e) if e['segs'] else [c['off'], c['line'], c['col']]
            ds = [x for x in (compare.diff_result if how == 1 else compare.diff)(e, g) if how != 2 or x[0] != 'err-ctx']
            if how == 1 and g['last'] != e['lastpos']: ds.append(('last', 'expected last %s, got %s' % (e['lastpos'], g['last'])))
            if g.get('segs') is not None or g.get('result'):
                ds += compose.render_differs(plain[d - 1], [g['result']] if how == 1 else g['segs'], c['off'], c['ord'])
            if ds: yield 'parse of %r with configuration %s set to %s: %s' % (docs[d - 1][:60], k, c, '; '.join(x[1] for x in ds[:2])); return
    def go(module_cfg, n, what, most=None, **kw):
        f = tempfile.NamedTemporaryFile('w', suffix='.ndjson', delete=False)
        f.write('\n'.join(json.dumps(x) for x in table[:n]) + '\n'); f.close()
        try: runs = checks_own.spec_runs('ConfigLife', module_cfg, ctx, env=dict(DOCS=f.name), **kw)
        finally: os.unlink(f.name)
        runs = [r for r in runs if any(s['a'] == 'U' for s in r['h']) and (what != 'short' or r['h'][-1]['a'] == 'U')]
        if most and not ctx.thorough and len(runs) > most: runs = ctx.rng.sample(runs, most)
        t = ','.join(d.hex() for d in docs[:n])
        checks_own.judge_runs(ctx, runs, 'conf', 'asan', differ, 'configurations',
                              lines=['id=%d t=%s s=%s' % (i, t, ','.join(checks_own.act(s) for s in r['h'])) for i, r in enumerate(runs)])
        ctx.add(configuration_lives=len(runs))
    go('ConfigLifeCover', 2, 'short', most=7000)
    ctx.log('short lives of configurations replayed')
    for rd in range(1 if not ctx.thorough else 10):
        if ctx.found or ctx.left() < 100: return
        go('ConfigLifeWalk', len(docs), 'long', args=('-simulate', 'num=%d' % (60 if not ctx.thorough else 1500), '-depth', '30', '-seed', str(seed_of(ctx, rd))))
    ctx.log('long lives of configurations replayed')

def far_and_lives(ctx):
    far_away(ctx)
    config_lives(ctx)

CHECKS = {'C21': (corpus_check(['config'], None, None, k=120, more=far_and_lives), 'model_checking')}
