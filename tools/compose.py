"""Expectations of long inputs, composed from those of short ones.

Extend.tla states (and TLC checks) why this is right: what was decided without
looking beyond a document is decided the same way when another follows it, and
what follows is parsed as if it were an input of its own."""
import re

def closed(r):
    """Whether the row's segments were all decided within its text."""
    n = len(r['t']) // 2; c = r['c']; ss = r['e']['segs']
    return (bool(ss) and not c.get('single') and not c.get('only') and not c.get('off') and c.get('line', 1) == 1
            and c.get('col', 1) == 1 and not c.get('ord') and all(not s['eof'] and s['reach'] <= n for s in ss)
            and ss[-1]['end' if 'end' in ss[-1] and 'next' not in ss[-1] else 'next'][0] == n)

def mv(p, at):
    return [p[0] + at[0], p[1] + at[1] - 1, p[2] + at[2] - 1 if p[1] == 1 else p[2]]

def mvrole(f, k):
    n, v = f
    if isinstance(v, bool) or isinstance(v, str): return f
    if isinstance(v, int): return [n, v + k if v >= 0 else v]
    if n in ('name', 'value'): return f
    return [n, [x + k if isinstance(x, int) and x >= 0 else x for x in v]]

def shift(s, at, k):
    """The segment s, had the input before it ended at `at` and held k nodes."""
    o = lambda x: x + k if x >= 0 else x
    return dict(start=mv(s['start'], at), end=mv(s['end'], at), eof=s['eof'], directive=o(s['directive']),
                reach=s['reach'] + at[0], roots=[o(x) for x in s['roots']], render=[],
                errors=[dict(at=mv(x['at'], at), msg=x['msg'], ctx=x['ctx']) for x in s['errors']],
                nodes=[dict(o=o(n['o']), t=n['t'], s=mv(n['s'], at), e=mv(n['e'], at), ch=[o(x) for x in n['ch']],
                            r=[mvrole(f, k) for f in n['r']]) for n in s['nodes']])

def compose(rows):
    """rows: closed ones, the last may be any.  Returns (text, expectation)."""
    at, k, segs, text = [0, 1, 1], 0, [], b''
    for r in rows:
        for s in r['e']['segs']:
            segs.append(shift(s, at, k))
        k += sum(len(s['nodes']) for s in r['e']['segs'])
        at = segs[-1]['end'] if r['e']['segs'] else at
        text += bytes.fromhex(r['t'])
    return text, dict(segs=segs, ord=k)

def compose_quick(rows):
    at, segs, text = [0, 1, 1], [], b''
    for r in rows:
        for s in r['e']['segs']:
            segs.append(dict(s, start=mv(s['start'], at), end=mv(s['end'], at), next=mv(s['next'], at), reach=s['reach'] + at[0]))
        at = segs[-1]['next'] if r['e']['segs'] else at
        text += bytes.fromhex(r['t'])
    return text, dict(segs=segs)

# What moves in the rendering of a tree: the numbers of nodes and the offsets.
MARKS = re.compile(rb'</?[noetmriyd]>|\x1b\[\d+m')
LINE = re.compile(rb' *@(\d+) +(\d+)\.\.(\d+) (.*)', re.S)
def movable(text): return not set(text) & set(b'@<\x1b')
def render_moved(codes, off=0, k=0):
    """The rendering (a list of codes) as lines without marks and alignment, moved."""
    out = []
    for l in MARKS.sub(b'', bytes(codes)).split(b'\n'):
        m = LINE.fullmatch(l)
        if m:
            rest = re.sub(rb'@(\d+)', lambda x: b'@%d' % (int(x.group(1)) + k), m.group(4))
            l = b'@%d %d..%d %s' % (int(m.group(1)) + k, int(m.group(2)) + off, int(m.group(3)) + off, rest)
        out.append(b' '.join(l.split()))
    return [l.decode('latin-1') for l in out if l]
def render_differs(base, o, off, k):
    """base: the expected segments before they are moved; o: those of an output, or its result."""
    want = [l for s in base for l in render_moved(s['render'][0], off, k)]
    got = [l for s in o for l in (render_moved(s['render0']) if isinstance(s['render0'], list) else [s['render0']])]
    if want != got:
        d = [(a, b) for a, b in zip(want, got) if a != b][:1]
        yield 'render', 'the rendering of the tree shows %s' % ('%r, expected %r' % (d[0][1], d[0][0]) if d else '%d lines, expected %d' % (len(got), len(want)))

def details(renders):
    """(type, length without the digits of references, references) of each line of renderings."""
    out = []
    for codes in renders:
        for l in MARKS.sub(b'', bytes(codes)).split(b'\n'):
            m = re.match(rb' *@\d+ +\d+\.\.\d+ +((?:> )*)(\S+(?: \S+)*?)  +(.*)', l, re.S)
            if m: out.append((m.group(2), len(re.sub(rb'@\d+', b'@', m.group(3))), [int(x) for x in re.findall(rb'@(\d+)', m.group(3))]))
    return out
