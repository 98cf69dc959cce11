"""Compares what the implementation reported with what the specification expects.

diff(e, o, cfg, renders) yields (aspect, detail) pairs.  Aspects:
  segments  number of segments        extent   start/end of a segment
  eof       end of input flag         directive, roots, nnodes
  err-count err-at err-msg err-ctx    type     kinds of nodes
  children  tree shape                roles    what the accessors give
  span      ranges of nodes           render   textual rendering
  last, calls, rc, extra, crash"""
SEG = ('start', 'end', 'eof', 'directive', 'roots')

def txt(codes):
    return bytes(codes).decode('latin-1')

def diff_errors(es, os_, where):
    if len(es) != len(os_):
        yield 'err-count', '%s: expected %d errors (%s), got %d (%s)' % (
            where, len(es), [txt(x['msg']) for x in es][:3], len(os_), [txt(x['msg']) for x in os_][:3])
        return
    for i, (x, y) in enumerate(zip(es, os_)):
        if x['at'] != y['at']:
            yield 'err-at', '%s error %d: expected at %s, got %s' % (where, i, x['at'], y['at'])
        if x['msg'] != y['msg']:
            yield 'err-msg', '%s error %d: expected %r, got %r' % (where, i, txt(x['msg']), txt(y['msg']))
        if [y['ctx'], y['ctxoff']] not in x['ctx']:
            yield 'err-ctx', '%s error %d: expected %r at %d%s, got %r at %s' % (
                where, i, txt(x['ctx'][0][0]), x['ctx'][0][1], ' or %d more' % (len(x['ctx']) - 1) if len(x['ctx']) > 1 else '',
                txt(y['ctx'] or []), y['ctxoff'])

def diff_nodes(es, os_, where):
    if len(es) != len(os_):
        yield 'nnodes', '%s: expected %d nodes (%s), got %d (%s)' % (
            where, len(es), ' '.join(x['t'] for x in es[:25]), len(os_), ' '.join(x['t'] for x in os_[:25]))
    for x, y in zip(es, os_):
        if x == y: continue
        w = '%s node @%s' % (where, x['o'])
        if x['t'] != y['t']:
            yield 'type', '%s: expected %s, got %s' % (w, x['t'], y['t'])
            return
        if x['o'] != y['o']: yield 'children', '%s: got ordinal %s' % (w, y['o'])
        if x['ch'] != y['ch']: yield 'children', '%s (%s): expected children %s, got %s' % (w, x['t'], x['ch'], y['ch'])
        if x['r'] != y['r']: yield 'roles', '%s (%s): expected %s, got %s' % (w, x['t'], x['r'], y['r'])
        if x['s'] != y['s'] or x['e'] != y['e']:
            yield 'span', '%s (%s): expected %s..%s, got %s..%s' % (w, x['t'], x['s'], x['e'], y['s'], y['e'])
        for k in set(y) - set(x): yield 'extra', '%s (%s): %s=%s' % (w, x['t'], k, y[k])

def diff(e, o, renders=()):
    """e: expectation of the input; o: the each-driver's output."""
    if o is None:
        yield 'crash', 'the implementation crashed'
        return
    es, ob = e['segs'], o.get('segs')
    if ob is None:
        yield 'rc', 'no segments: %s' % o
        return
    if len(es) != len(ob):
        yield 'segments', 'expected %d segments ending at %s, got %d ending at %s' % (
            len(es), [x['end'][0] for x in es], len(ob), [x['end'][0] for x in ob])
    for k, (a, b) in enumerate(zip(es, ob)):
        w = 'segment %d' % k
        for f in SEG:
            if a[f] != b[f]:
                yield {'start': 'extent', 'end': 'extent'}.get(f, f), '%s: expected %s %s, got %s' % (w, f, a[f], b[f])
        if len(a['nodes']) != b['nnodes']: yield 'nnodes', '%s: expected %d nodes, got count %d' % (w, len(a['nodes']), b['nnodes'])
        yield from diff_errors(a['errors'], b['errors'], w)
        if 'nodes' in b: yield from diff_nodes(a['nodes'], b['nodes'], w)
        for i, wd in enumerate(renders):
            r = b.get('render%d' % wd)
            if r != a['render'][i]:
                yield 'render', '%s at width %d: expected\n%s\ngot\n%s' % (w, wd, txt(a['render'][i]), r if isinstance(r, str) else txt(r or []))
        for x in ('past-end', 'duplicate-node'):
            if b.get(x): yield 'extra', '%s: %s' % (w, x)
    if 'rc' in o and o['rc'] != 0: yield 'rc', 'expected 0, got %s (errno %s)' % (o['rc'], o.get('errno'))
    if 'calls' in o and o['calls'] != len(es): yield 'calls', 'expected %d callbacks, got %d' % (len(es), o['calls'])
    if 'last' in o and e.get('lastpos') is not None and o['last'] != e['lastpos']:
        yield 'last', 'expected last %s, got %s' % (e['lastpos'], o['last'])

def as_result(e):
    """What the result interface gives for the expected segments."""
    segs = e['segs']
    return dict(eof=bool(segs) and segs[-1]['eof'] and bool(segs[-1]['directive'] >= 0 or segs[-1]['errors']),
                nnodes=sum(len(s['nodes']) for s in segs), roots=[r for s in segs for r in s['roots']],
                directives=[s['directive'] for s in segs if s['directive'] >= 0],
                errors=[x for s in segs for x in s['errors']], nodes=[n for s in segs for n in s['nodes']],
                render=[[c for s in segs for c in s['render'][i]] for i in range(len(segs[0]['render']))] if segs else [])

def diff_result(e, o, renders=()):
    if o is None:
        yield 'crash', 'the implementation crashed'
        return
    r = o.get('result')
    if r is None:
        yield 'rc', 'no result, errno %s' % o.get('errno')
        return
    x = as_result(e)
    for f in ('roots', 'directives', 'nnodes', 'eof'):
        if x[f] != r[f]: yield f, 'result: expected %s %s, got %s' % (f, x[f], r[f])
    yield from diff_errors(x['errors'], r['errors'], 'result')
    if 'nodes' in r: yield from diff_nodes(x['nodes'], r['nodes'], 'result')
    for k in ('past-end', 'duplicate-node'):
        if r.get(k): yield 'extra', 'result: %s' % k

def diff_quick(e, o):
    if o is None:
        yield 'crash', 'the implementation crashed'
        return
    es, ob = e['segs'], o['segs']
    if len(es) != len(ob):
        yield 'segments', 'expected %d quick segments, got %d' % (len(es), len(ob))
    for k, (a, b) in enumerate(zip(es, ob)):
        for f in ('kind', 'start', 'end', 'next', 'eof', 'text'):
            if a[f] != b[f]:
                v = (a[f], b[f]) if f != 'text' else (txt(a[f]), txt(b[f]))
                yield f, 'quick segment %d: expected %s %r, got %r' % (k, f, *v)
    if o.get('rc'): yield 'rc', 'expected 0, got %s' % o['rc']
