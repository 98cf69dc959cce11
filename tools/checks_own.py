"""Checks of ownership and life: annotations (C15), segments and results (C14)."""
import json, random, re
import core
from checks_text import seed_of

def spec_runs(module, cfg, ctx, args=(), timeout=600, workers=4, heap='6g', env=None):
    """Behaviours printed by TLC while it explores a module (and checks its invariants)."""
    rc, out = core.tlc(module, cfg, env=env, args=args, timeout=min(timeout, max(60, ctx.left())), workers=workers, heap=heap)
    if rc != 0:
        errs = [l for l in out.split('\n') if l.startswith('Error:')]
        raise core.Trouble('TLC on %s/%s: exit %d %s\n%s' % (module, cfg, rc, ' '.join(errs)[:600], out[-1500:]))
    runs = []
    for l in out.split('\n'):
        if l.startswith('"{'):
            runs.append(json.loads(json.loads(l)))
    g, d = core.tlc_stats(out)
    ctx.stats['generated'] = ctx.stats.get('generated', 0) + g
    ctx.stats['distinct'] = ctx.stats.get('distinct', 0) + d
    if not runs: raise core.Trouble('TLC printed no behaviours: %s' % out[-1500:])
    return runs

def act(s): return '.'.join([s['a']] + [str(x) for x in s['g']])
def judge_runs(ctx, runs, driver, flavour, differ, what, env=None, lines=None):
    """Replays each behaviour in the driver and compares what it saw with what the specification says."""
    lines = lines or ['id=%d s=%s' % (i, ','.join(act(s) for s in r['h'])) for i, r in enumerate(runs)]
    outs, crashes = core.run_jobs(lines, driver=driver, flavour=flavour, timeout=300, env=env)
    for j, rc, err in crashes[:4]:
        ctx.violation('%s (%s build): the library failed (%s) on %s\n%s' % (what, flavour, rc, j[:600], (err or '')[-1800:]),
                      dict(driver=driver, flavour=flavour, job=j))
    shown = 0
    for r, l, o in zip(runs, lines, outs):
        if o is None: continue
        ds = list(differ(r, o))
        if ds and shown < 4:
            shown += 1
            ctx.violation('%s (%s build): %s\nin %s' % (what, flavour, '; '.join(ds)[:900], l[:900]), dict(driver=driver, flavour=flavour, job=l, expected=r))
    n = sum(o is not None for o in outs)
    ctx.add(traces_validated_against_impl=n, steps_replayed=sum(len(r['h']) for r in runs))
    return n

# --- C15: annotations --------------------------------------------------------
def told(l): return sorted([list(x) for x in l])
def c15_differ(r, o):
    if o['sizes'] != [3, 3, 6, 6]: yield 'trees have %s nodes' % o['sizes']
    if len(o['steps']) != len(r['h']): yield 'only %d steps' % len(o['steps']); return
    for k, (s, g) in enumerate(zip(r['h'], o['steps'])):
        if s['ret'] != g[0]: yield 'step %d %s: %s, expected %s' % (k, act(s), ('done', 'refused', 'failed')[g[0]], ('done', 'refused')[s['ret']])
        if s['val'] != g[1]: yield 'step %d %s: gave value %s, expected %s' % (k, act(s), g[1], s['val'])
        if told(s['rel']) != told(g[2]): yield 'step %d %s: told %s, expected %s (context, handler, node, value)' % (k, act(s), told(g[2]), told(s['rel']))
    if told(r['m']) != told(o['end']): yield 'at the end holds %s, expected %s' % (told(o['end']), told(r['m']))
    if o['bad']: yield 'a handler was called with something else than its own data, or with something that is not a node'

def c15(ctx):
    runs = spec_runs('Annotations', 'AnnotationsCover', ctx)
    ctx.put(transitions_covered=len(runs))
    ctx.log(len(runs), 'transitions of the specification')
    # refusals are assertions unless the library is built without them
    judge_runs(ctx, runs, 'own', 'ndebug', c15_differ, 'annotations')
    fine = [r for r in runs if not any(s['ret'] for s in r['h'])]
    judge_runs(ctx, fine if ctx.thorough else fine[::3], 'own', 'asan', c15_differ, 'annotations')
    for r in ctx.rng.sample(runs, 3): ctx.sample(dict(steps=[act(s) for s in r['h']], last=r['h'][-1], holds=r['m']))
    ctx.log('transitions replayed')
    if ctx.found: return
    for rd in range(1 if not ctx.thorough else 12):
        s = seed_of(ctx, rd)
        walks = spec_runs('Annotations', 'AnnotationsWalk', ctx, args=('-simulate', 'num=%d' % (60 if not ctx.thorough else 2000), '-depth', '64', '-seed', str(s)), workers=8)
        judge_runs(ctx, walks, 'own', 'asan', c15_differ, 'a long life of annotations')
        ctx.add(long_behaviours=len(walks))
        if ctx.found or ctx.left() < 100: return
    if ctx.thorough:
        runs = spec_runs('Annotations', 'AnnotationsMore', ctx, timeout=3000, workers=8, heap='12g')
        judge_runs(ctx, runs, 'own', 'ndebug', c15_differ, 'annotations')
        ctx.put(more_transitions_covered=len(runs))

# --- C14: who owns what a parse gives ----------------------------------------
def letters(there, was):
    out = ''
    for i, t in enumerate(there):
        if t: was.add(i)
        out += 'a' if t else 'd' if i in was else '-'
    return out
def c14_differ(r, o):
    if o['bad']: yield bytes(o['bad']).decode('latin1')
    if len(o['steps']) < len(r['h']): yield 'only %d steps' % len(o['steps']); return
    ws, wc, wr = set(), set(), set()
    for k, (s, g) in enumerate(zip(r['h'], o['steps'])):
        if s['a'] in 'DXQ' and g[0] != 1: yield 'step %d %s: not what it was when it was given' % (k, act(s))
        e = (letters(s['ex']['s'], ws), letters(s['ex']['c'], wc), letters([s['ex']['r']], wr))
        got = (g[1], g[2][1:1 + len(s['ex']['c'])], g[3])
        if got != e: yield 'step %d %s: segments %s copies %s result %s, expected %s %s %s (a there, d gone, m partly gone)' % ((k, act(s)) + got + e)
    last = o['steps'][-1]
    if set(last[1] + last[2] + last[3]) & set('am'): yield 'all let go of, but still there: segments %s copies %s result %s' % (last[1], last[2], last[3])

def drain(r, rng):
    """Steps by which the caller lets go of everything."""
    e, acts = r['e'], []
    n = len(e['refs'])
    for i, k in enumerate(e['refs']):
        while k > 0:
            lot = k if k > 8 and rng.random() < .5 else rng.choice((1, k - 1)) if k > 8 else 1
            acts.append('L.%d.%d' % (i + 1, lot)); k -= lot
    acts += ['Y.%d' % (s + 1) for s, k in enumerate(e['copy']) if k]
    acts += ['Z'] if e['result'] == 'yes' else []
    rng.shuffle(acts)
    if 1 <= e['phase'] <= n: acts.insert(rng.randrange(len(acts) + 1), 'N.%d' % rng.choice((1, -1)))
    return acts

def c14_replay(ctx, runs, what):
    lines = ['id=%d v=%d s=%s' % (i, (i + ctx.seed) % 4, ','.join([act(s) for s in r['h']] + drain(r, ctx.rng))) for i, r in enumerate(runs)]
    judge_runs(ctx, runs, 'life', 'asan', c14_differ, what, lines=lines)
    k = ctx.rng.randrange(3)
    judge_runs(ctx, runs[k::3], 'life', 'ndebug', c14_differ, what, lines=lines[k::3])

def c14(ctx):
    runs = spec_runs('SegmentLife', 'SegmentLifeCover', ctx)
    ctx.put(transitions_covered=len(runs))
    ctx.log(len(runs), 'transitions of the specification')
    c14_replay(ctx, runs, 'what a parse gives')
    for r in ctx.rng.sample(runs, 3): ctx.sample(dict(steps=[act(s) for s in r['h']], exists=r['h'][-1]['ex']))
    ctx.log('transitions replayed')
    for rd in range(1 if not ctx.thorough else 30):
        if ctx.found or ctx.left() < 100: return
        walks = spec_runs('SegmentLife', 'SegmentLifeWalk', ctx, args=('-simulate', 'num=%d' % (150 if not ctx.thorough else 2500), '-depth', '54', '-seed', str(seed_of(ctx, rd))), workers=8)
        c14_replay(ctx, walks, 'a long life of what a parse gives')
        ctx.add(long_behaviours=len(walks))

CHECKS = {'C14': (c14, 'model_checking'), 'C15': (c15, 'model_checking')}
