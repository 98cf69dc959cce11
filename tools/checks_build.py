"""Checks of nodes as such: constructors and copies (C17), types (C18), accessors (C25)."""
import core, compare, pump
from checks_own import spec_runs
from checks_text import ALL, rows_of, mkjob, judge, check_digest, revalidate, report_crashes, seed_of

def job_of(i, run, **kw):
    ns = run['nodes']
    steps = []
    for k in range(len(ns) - 1, -1, -1):
        n = ns[k]
        parts = ['%s=%s' % ('.'.join(map(str, w)), '.'.join(map(str, g))) for w, g in zip(n['w'], n['g'])]
        steps.append('/'.join([str(k), n['c']] + parts + ['.'.join(map(str, n['ch']))]))
    s = 'id=%d prog=%s' % (i, '|'.join(steps))
    if run['f']['f']: s += ' f=%s.%d' % (run['f']['f'], run['f']['p'])
    for k, v in kw.items(): s += ' %s=%s' % (k, v)
    return s

def node_differ(where, k, n, g):
    for key, mine in (('t', 'type'), ('s', 'start'), ('e', 'end'), ('ch', 'children')):
        if n[key] != g[key]: yield '%s %d (%s): %s is %s, expected %s' % (where, k, n['c'], mine, g[key], n[key])
    want = [[f['n'], f['v']] for f in n['r']]
    if sorted(map(str, want)) != sorted(map(str, g['r'])):
        bad = [f for f in g['r'] if f not in want]
        yield '%s %d (%s): says %s, expected %s' % (where, k, n['c'], bad or g['r'], [f for f in want if f not in g['r']])
    if 'past-end' in g: yield '%s %d (%s): a child past the last' % (where, k, n['c'])

def differ(run, o):
    ns = run['nodes']
    want = [k for k in range(len(ns) - 1, -1, -1) if not ns[k]['ok']]
    got = [x[0] for x in o['refused']]
    if want != got:
        for k in want:
            if k not in got: yield '%s was accepted with a part it cannot have: %s' % (ns[k]['c'], run['f'])
        for k in got:
            if k not in want: yield '%s (node %d) was refused' % (ns[k]['c'], k)
        return
    for k, e in o['refused']:
        if e != o['einval']: yield '%s refused with errno %d' % (ns[k]['c'], e)
    if want: return
    if 'uncopied' in o: yield 'could not be copied: errno %d' % o['uncopied']
    for key, where in (('nodes', 'node'), ('copy', 'copy of node')):
        gs = o.get(key)
        if gs is None:
            if key == 'nodes' or 'uncopied' not in o: yield 'no %s' % where
            continue
        if [g['o'] for g in gs] != list(range(len(ns))): yield '%ss found: %s' % (where, [g['o'] for g in gs])
        else:
            for k, (n, g) in enumerate(zip(ns, gs)): yield from node_differ(where, k, n, g)
    if 'misshapen' in o: yield 'the copy has other children'
    if 'rendersas' in o: yield 'the copy is rendered differently'
    if 'changed' in o: yield 'asking changed the node'

def replay(ctx, runs, lines, flavour, diff, what):
    outs, crashes = core.run_jobs(lines, driver='build', flavour=flavour, timeout=300)
    for j, rc, err in crashes[:4]:
        ctx.violation('%s (%s build): the library failed (%s) on %s\n%s' % (what, flavour, rc, j[:600], (err or '')[-1800:]),
                      dict(driver='build', flavour=flavour, job=j))
    shown = 0
    for r, l, o in zip(runs, lines, outs):
        if o is None: continue
        ds = list(diff(r, o))
        if ds and shown < 4:
            shown += 1
            ctx.violation('%s (%s build): %s\nin %s' % (what, flavour, '; '.join(ds)[:900], l[:900]),
                          dict(driver='build', flavour=flavour, job=l, expected=r))
    ctx.add(traces_validated_against_impl=sum(o is not None for o in outs), nodes_made=sum(len(r['nodes']) for r in runs))
    return outs

def trees(ctx, runs, flavour, what):
    return replay(ctx, runs, [job_of(i, r) for i, r in enumerate(runs)], flavour, differ, what)

def copy_differ(r, o):
    for s in o['segs']:
        if 'clone-failed' in s: yield ('copy', 'failed with errno %s' % s['clone-failed'])
        if not s.get('clone-renders-same'): yield ('copy', 'is rendered differently')
    if not o.get('clones-outlive'): yield ('copy', 'does not outlive the original')

def clone_differ(r, o):
    yield from compare.diff(dict(r['e']), o, ())
    yield from copy_differ(r, o)

def c17(ctx):
    shapes = spec_runs('Build', 'BuildShapes', ctx)
    pairs = spec_runs('Build', 'BuildPairs', ctx)
    faults = spec_runs('Build', 'BuildFaults', ctx)
    ctx.put(shapes=len(shapes), children_of_every_kind=len(pairs), refusals=len(faults))
    ctx.log(len(shapes), 'shapes,', len(pairs), 'kinds of children,', len(faults), 'faults')
    good = shapes + pairs
    trees(ctx, good, 'asan', 'constructors')
    trees(ctx, faults + good[::1 if ctx.thorough else 3], 'ndebug', 'constructors')
    for r in ctx.rng.sample(shapes, 2) + ctx.rng.sample(faults, 2): ctx.sample(dict(fault=r['f'], root=r['nodes'][0]))
    if ctx.found: return
    walks = spec_runs('Build', 'BuildWalk', ctx, args=('-simulate', 'num=%d' % (25 if not ctx.thorough else 1500), '-depth', '800', '-seed', str(seed_of(ctx, 0))), workers=8, timeout=900)
    ctx.log(len(walks), 'designs of larger trees')
    ctx.put(larger_trees=len(walks))
    trees(ctx, walks, 'asan', 'a larger tree')
    if ctx.found: return
    # copies of all that is parsed
    check_digest()
    rows = rows_of(ALL)
    if not ctx.thorough: rows = rows[ctx.seed % 2::2]
    jobs = [mkjob(i, bytes.fromhex(r['t']), dict(r['c'], render=[]), clone=1) for i, r in enumerate(rows)]
    outs, crashes = core.run_jobs(jobs)
    report_crashes(ctx, crashes, 'copying a parsed tree')
    shown = 0
    for r, j, o in zip(rows, jobs, outs):
        if o is None: continue
        ds = list(clone_differ(r, o))
        if ds and shown < 3:
            shown += 1
            ctx.violation('copies of the trees parsed from %r: %s' % (bytes.fromhex(r['t'])[:200], str(ds[0])[:600]), dict(job=j))
    ctx.add(traces_validated_against_impl=len(rows)); ctx.put(parsed_trees_copied=len(rows))
    if not ctx.found: pump.check(ctx, ['LISTS'], extra=dict(clone=1), also=copy_differ, light=True)

def split(runs):
    head = [r for r in runs if 'accessors' in r][0]
    return head, [r for r in runs if 'nodes' in r]

def c18(ctx):
    head, runs = split(spec_runs('Accessors', 'AccessorsAll' if ctx.thorough else 'Accessors', ctx))
    names = {t[0]: t[1] for t in head['types']}
    supers = {t: sorted(s) for t, s in head['supers'].items()}
    for fl in ('asan', 'ndebug'):
        o, cr = core.run_jobs(['id=0 types=1'], driver='build', flavour=fl)
        report_crashes(ctx, cr, 'types', driver='build', flavour=fl)
        if o[0]:
            for t, n in o[0]['names'].items():
                if names.get(t) != (n or ''): ctx.violation('type %s is called %r, expected %r' % (t, n, names.get(t)), dict(driver='build', flavour=fl, job='id=0 types=1'))
            if len(set(o[0]['values'])) != len(names): ctx.violation('types with the same value', dict(driver='build', flavour=fl, job='id=0 types=1'))
            if o[0].get('stray'): ctx.violation('values that are no type have names or instances: %s' % o[0]['stray'], dict(driver='build', flavour=fl, job='id=0 types=1'))
            if fl == 'ndebug' and 'stray' not in o[0]: raise core.Trouble('the driver says nothing about values that are no type')
            if o[0]['of']: ctx.violation('no node is an instance of %s' % o[0]['of'], dict(driver='build', flavour=fl, job='id=0 types=1'))
        byname = {n: t for t, n in names.items() if n}
        def diff(r, o):
            t = byname[r['nodes'][0]['t']]
            if o['refused']: yield 'refused'; return
            if o.get('is') != t: yield 'a node made as %s says it is %s' % (t, o.get('is'))
            if sorted(o['of']) != supers[t]:
                yield '%s is an instance of %s, expected %s' % (t, sorted(set(o['of']) - set(supers[t])), sorted(set(supers[t]) - set(o['of'])))
        replay(ctx, runs, [job_of(i, r) for i, r in enumerate(runs)], fl, diff, 'types')
    ctx.put(types=len(names), pairs_of_types=len(names) ** 2)
    for r in ctx.rng.sample(runs, 3): ctx.sample(dict(node=r['nodes'][0]['t'], instance_of=supers[byname[r['nodes'][0]['t']]]))
    # types of nodes that were parsed
    check_digest()
    rows = rows_of(['statements'])
    judge(ctx, rows, [mkjob(i, bytes.fromhex(r['t']), dict(r['c'], render=[])) for i, r in enumerate(rows)], each_type, None, 'types of parsed nodes')

def each_type(r, o):
    for s, g in zip(r['e']['segs'], o['segs']):
        a, b = [n['t'] for n in s['nodes']], [n['t'] for n in g['nodes']]
        if a != b: yield ('type', 'nodes are %s, expected %s' % (b, a))

FAIL = dict(node=-1, count=0, bool=0, str=None, op='none', dir='OUTBOUND', item=[-1] * 9, opitem=['none'] * 9)
def answers(head, r, o, owner=None):
    """Differences between the answers of a node (of no node: owner is False) and the specification's."""
    acc = o['acc']
    for k, (f, _, kind, _) in enumerate(head['accessors']):
        v, e = acc[f]
        a = ['refused'] if r is None else r['acc'][k]
        if a[0] == 'refused':
            if v != FAIL[kind] or e != acc['einval']: yield '%s of %s: %s with errno %s, expected %s with EINVAL' % (f, r['nodes'][0]['c'] if r else 'no node', v, e, FAIL[kind])
            continue
        w = a[1]
        if a[0] == 'items': w = (w + FAIL[kind])[:6] + FAIL[kind][:3]
        if kind == 'bool': w = int(w)
        if v != w: yield '%s of %s: %s, expected %s' % (f, r['nodes'][0]['c'], v, w)

def c25(ctx):
    head, runs = split(spec_runs('Accessors', 'AccessorsAll' if ctx.thorough else 'Accessors', ctx))
    def diff(r, o):
        if o['refused']: yield 'refused'; return
        yield from answers(head, r, o)
        yield from differ(r, o)
    replay(ctx, runs, [job_of(i, r, acc=1) for i, r in enumerate(runs)], 'ndebug', diff, 'accessors')
    o, cr = core.run_jobs(['id=0 acc=null'], driver='build', flavour='ndebug')
    report_crashes(ctx, cr, 'accessors of no node', driver='build', flavour='ndebug')
    if o[0]:
        ds = list(answers(head, None, o[0]))
        if ds: ctx.violation('accessors of no node: ' + '; '.join(ds)[:900], dict(driver='build', flavour='ndebug', job='id=0 acc=null'))
    # with assertions, of their own type and within range or past it
    trees(ctx, runs, 'asan', 'accessors')
    ctx.put(accessors=len(head['accessors']), nodes_asked=len(runs), questions=len(runs) * len(head['accessors']))
    for r in ctx.rng.sample(runs, 2):
        ctx.sample(dict(node=r['nodes'][0], answers={a[0]: x for a, x in zip(head['accessors'], r['acc']) if x[0] != 'refused'}))
    if ctx.found: return
    walks = spec_runs('Build', 'BuildWalk', ctx, args=('-simulate', 'num=%d' % (6 if not ctx.thorough else 600), '-depth', '800', '-seed', str(seed_of(ctx, 1))), workers=8, timeout=900)
    trees(ctx, walks, 'ndebug', 'accessors in a larger tree')

CHECKS = {'C17': (c17, 'model_checking'), 'C18': (c18, 'model_checking'), 'C25': (c25, 'model_checking')}
