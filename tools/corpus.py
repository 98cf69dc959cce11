"""The expectation corpus: inputs and what the specification expects of them.

`python3 tools/corpus.py make [family...]` recomputes it with TLC into data/;
the checks read it (load) and re-validate a sample of it with TLC in each run."""
import glob, gzip, hashlib, json, os, random, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core, bank, gen
DATA = os.path.join(core.VERIF, 'data')
SPECS = ['Chars', 'Grammar', 'Peg', 'Kinds', 'Tree', 'Render', 'Session', 'Expect', 'Quick', 'QuickProps', 'ExpectQuick']

def digest():
    h = hashlib.sha256()
    for m in SPECS:
        with open(os.path.join(core.SPEC, m + '.tla'), 'rb') as f:
            h.update(f.read())
    return h.hexdigest()[:16]

def cfg(i, **kw):
    c = dict(core.CFG0, render=[0, 60], marks=i % 2 == 0); c.update(kw)
    return c

def generated(seed, n, mode, maxlen=240):
    """Random documents derived from the grammar; mode mut: with mistakes."""
    D = gen.Deriver(seed); rng = random.Random(seed)
    rules = ['directive'] * 6 + ['clause'] * 2 + ['cypher_statement', 'u_expression', 'client_command']
    texts, pool = [], []
    while len(texts) < n:
        r = rng.choice(rules)
        t = D.text(r, rng.choice((15, 25, 40, 60)))
        if r == 'clause': t += rng.choice((b';', b'', b' RETURN 1;'))
        if r == 'u_expression': t = b'RETURN ' + t + rng.choice((b';', b''))
        if len(t) > maxlen or gen.depth(t) > 4: continue
        pool.append(t)
        if mode == 'mut': t = gen.mutate(rng, t, pool)
        if rng.random() < .15: t = rng.choice(pool) + rng.choice((b'', b';', b'\n')) + t
        if len(t) > maxlen + 60 or gen.depth(t) > 5: continue
        texts.append(t)
    return sorted(set(texts))

TOKENS = [b';', b'\n', b' ', b':', b':x', b'a', b'RETURN 1', b'//', b'/*', b'*/', b'"', b"'", b'`', b'\\', b'(']
def tokens(n):
    """Every sequence of at most n of TOKENS."""
    import itertools
    return sorted({b''.join(x) for k in range(n + 1) for x in itertools.product(TOKENS, repeat=k)})

def byte_strings(seed, n):
    """Short strings of bytes that mean something somewhere, and of any bytes."""
    rng = random.Random(seed); out = set()
    some = b';:\n\r\t "\'`\\/*()[]{}<>-=.,|$@a1_N\x00\x80\xff'
    while len(out) < n:
        k = rng.randrange(1, 14)
        t = bytes(rng.choice(some) if rng.random() < .85 else rng.randrange(256) for _ in range(k))
        if rng.random() < .3: t = rng.choice((b'RETURN ', b':a ', b'MATCH (n) ', b'RETURN 1;', b'CREATE (')) + t
        if rng.random() < .2: t += rng.choice((b';', b'\nRETURN 1;', b' RETURN x', b'\n:b c'))
        out.add(t)
    return sorted(out)

def family(f):
    """[(text, cfg)] of one family."""
    rng = random.Random(17)
    if f == 'renders':
        return [(t, cfg(i, render=w)) for i, (t, w) in enumerate(bank.renders())]
    if f == 'truncations': ts = bank.truncations(rng, 1500)
    elif f == 'derived': ts = generated(101, 3000, 'plain')
    elif f == 'mutated': ts = generated(202, 3000, 'mut')
    elif f == 'tokens': ts = tokens(3)
    elif f == 'bytes': ts = byte_strings(303, 1500)
    elif f == 'sizes': ts = bank.sizes()
    elif f == 'streamed':      # contexts when only part of the input is at hand
        ts = bank.errors() + bank.segments()[:250] + generated(505, 200, 'mut')
        return [(t, cfg(i, render=[0], ctx='any')) for i, t in enumerate(ts)]
    elif f == 'config':
        out = []
        pool = bank.statements() + bank.segments()[:200] + bank.errors()[:120]
        rng.shuffle(pool)
        for i, t in enumerate(pool[:420]):
            out.append((t, cfg(i, only=i % 3 == 1, single=i % 4 == 1, ord=rng.choice((0, 0, 7, 995)), line=rng.choice((1, 1, 5, 300)),
                               col=rng.choice((1, 1, 9, 77)), off=rng.choice((0, 0, 13, 4096)))))
        return out
    else: ts = getattr(bank, f)()
    wid = [0] if f == 'sizes' else [0, 60]
    return [(t, cfg(i, render=wid, ctx='any' if len(t) > 1024 else 'whole')) for i, t in enumerate(ts)]

FAMILIES = ['statements', 'expressions', 'literals', 'patterns', 'segments', 'errors', 'truncations',
            'sizes', 'renders', 'derived', 'mutated', 'config', 'tokens', 'bytes', 'streamed']

QTOKENS = [b';', b'\n', b' ', b':', b'a', b'//', b'/*', b'*/', b'"', b"'", b'\\', b'\r\n']
def quick_family(f):
    import itertools
    rng = random.Random(23)
    if f == 'q-tokens':
        ts = sorted({b''.join(x) for k in range(5) for x in itertools.product(QTOKENS, repeat=k)})
        return [(t, dict(only=False, single=False)) for t in ts]
    if f == 'q-flags':
        ts = {b''.join(x) for k in range(4) for x in itertools.product(QTOKENS, repeat=k)}
        ts |= set(byte_strings(404, 600)) | set(bank.segments()[:300])
        return [(t, dict(only=i % 3 != 0, single=i % 3 != 1)) for i, t in enumerate(sorted(ts))]
    ts = set(byte_strings(405, 1500)) | set(bank.segments()) | set(bank.statements()) | set(bank.literals()) | set(bank.errors())
    ts |= set(generated(406, 500, 'plain')) | set(generated(407, 500, 'mut')) | {t for t in bank.sizes() if len(t) < 400}
    return [(t, dict(only=False, single=False)) for t in sorted(ts)]
QUICK = ['q-tokens', 'q-flags', 'q-texts']

def compute_quick(pairs, stats=None, batch=4000, timeout=3000):
    out = []
    for i in range(0, len(pairs), batch):
        part = pairs[i:i + batch]
        ex = core.expect([dict(id=str(k), t=list(t), c=c) for k, (t, c) in enumerate(part)], module='ExpectQuick', stats=stats, timeout=timeout)
        out += [ex[str(k)] for k in range(len(part))]
    return out

def compute(pairs, stats=None, batch=400, timeout=3000):
    """Expectations for (text, cfg) pairs, by TLC."""
    out = []
    for i in range(0, len(pairs), batch):
        part = pairs[i:i + batch]
        ex = core.expect([dict(id=str(k), t=list(t), c=c) for k, (t, c) in enumerate(part)], stats=stats, timeout=timeout)
        out += [ex[str(k)] for k in range(len(part))]
    return out

def save(f, pairs, ex):
    os.makedirs(DATA, exist_ok=True)
    with open(os.path.join(DATA, f + '.json.gz'), 'wb') as raw, gzip.GzipFile('', 'wb', 9, raw, 0) as z:
        z.write(json.dumps({'family': f}).encode() + b'\n')
        for (t, c), e in zip(pairs, ex):
            e = {k: e[k] for k in ('segs', 'last', 'ord') if k in e}
            z.write(json.dumps(dict(t=t.hex(), c=c, e=e), separators=(',', ':'), sort_keys=True).encode() + b'\n')

def load(f):
    with gzip.open(os.path.join(DATA, f + '.json.gz')) as z:
        next(z)
        return [json.loads(l) for l in z]

if __name__ == '__main__':
    what = sys.argv[2:] or FAMILIES + QUICK
    for f in what:
        t0 = time.time(); st = {}
        pairs = quick_family(f) if f in QUICK else family(f)
        save(f, pairs, (compute_quick if f in QUICK else compute)(pairs, st))
        print(f, len(pairs), 'inputs', sum(len(t) for t, _ in pairs), 'bytes', st, round(time.time() - t0), 's',
              os.path.getsize(os.path.join(DATA, f + '.json.gz')), flush=True)
    with open(os.path.join(DATA, 'DIGEST'), 'w') as h: h.write(digest() + '\n')
