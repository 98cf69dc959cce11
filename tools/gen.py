"""Inputs: sentences derived from the specification's grammar, mutations of them,
and hand-made boundary cases.  Everything is a function of the seed."""
import json, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core

_grammar = None
def grammar():
    """The grammar of spec/Grammar.tla as data (exported by TLC)."""
    global _grammar
    if _grammar is None:
        import tempfile
        with tempfile.TemporaryDirectory() as d:
            rc, out = core.tlc('ExportGrammar', env=dict(OUT=d + '/g.json'), timeout=120)
            if rc:
                raise core.Trouble('exporting the grammar failed\n' + out[-2000:])
            _grammar = json.load(open(d + '/g.json'))
    return _grammar

SYM = set(b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_$')

class Deriver:
    def __init__(self, seed):
        self.g = grammar()
        self.rng = random.Random(seed)
        self.used = {}
        self.cost = {}
        self._costs()

    # minimal derivation sizes
    def _c(self, n):
        k = n[0]
        if k == 'r': return self.cost.get(n[1], 10**6) + 1
        if k == 'q': return sum(self._c(x) for x in n[1])
        if k == 'o': return min(self._c(x) for x in n[1])
        if k in ('e', '+', 'top', 'prec'): return self._c(n[1])
        if k in ('bind', 'vars'): return self._c(n[2])
        if k in ('*', '?', '!', '&'): return 0
        return 1 if k in ('w', 'c', 's', 'k', 'any') else 0
    def _costs(self):
        for _ in range(60):
            ch = False
            for r, n in self.g.items():
                c = self._c(n)
                if c < self.cost.get(r, 10**6):
                    self.cost[r] = c; ch = True
            if not ch: break

    def pieces(self, n, budget, out, skip=0.02):
        """Appends pieces: bytes, None (white space may stand here) or 0 (word boundary)."""
        k, rng = n[0], self.rng
        if k == 'r':
            if n[1] == 't_EOF' : return
            self.pieces(self.g[n[1]], budget - 1, out, skip)
        elif k == 'q':
            xs = n[1]
            for i, x in enumerate(xs):
                self.pieces(x, budget - 1, out, skip)
        elif k == 'o':
            alts = n[1]
            if budget <= 0:
                m = min(self._c(a) for a in alts)
                cand = [a for a in alts if self._c(a) == m]
                a = rng.choice(cand)
            else:
                w = []
                for i, a in enumerate(alts):
                    u = self.used.get((id(n), i), 0)
                    x = 1.0 / (1 + u)
                    if self._c(a) >= 10**5: x = 0
                    if 'rec' in json.dumps(a)[:40]: x *= skip
                    w.append(x + 1e-9)
                i = rng.choices(range(len(alts)), w)[0]
                a = alts[i]
                self.used[(id(n), i)] = self.used.get((id(n), i), 0) + 1
            self.pieces(a, budget - 1, out, skip)
        elif k in ('e', 'top', 'prec'): self.pieces(n[1], budget - 1, out, skip)
        elif k in ('bind', 'vars'): self.pieces(n[2], budget - 1, out, skip)
        elif k == '?':
            if rng.random() < (0.5 if budget > 0 else 0.1): self.pieces(n[1], budget - 1, out, skip)
        elif k == '*' or k == '+':
            m = (1 if k == '+' else 0)
            if budget > 0:
                while rng.random() < 0.4 and m < 4: m += 1
            for _ in range(m): self.pieces(n[1], budget - 2, out, skip)
        elif k == 'w':
            w = bytes(n[1])
            r = rng.random()
            out.append(w if r < .4 else w.upper() if r < .8 else
                       bytes(c - 32 if rng.random() < .5 and 97 <= c <= 122 else c for c in w))
            out.append(0)
        elif k == 'c': out.append(bytes([n[1]]))
        elif k == 's': out.append(bytes(n[1]))
        elif k == 'k':
            cs = [i for i, b in enumerate(n[1]) if b]
            out.append(bytes([rng.choice(cs)]))
        elif k == 'any':
            out.append(bytes([rng.choice(b'abcXYZ019 _.:"\'`\n-/*\\;\x80\xc3\xa9\t' if rng.random() < .3 else b'abcdefgxyz')]))
        elif k == '-': out.append(None)
        elif k == '--': out.append(1)

    WS = [b' '] * 12 + [b'', b'', b'', b'  ', b'\n', b'\r\n', b'\t', b'/*c*/', b' /* a\nb */ ',
                        b'// x\n', b'//\r\n', b'\n\n', b' /**/', b'/***/']
    def text(self, rule, budget, skip=0.02, plain=0.4):
        out = []
        self.pieces(self.g[rule], budget, out, skip)
        rng = self.rng
        plain = rng.random() < plain
        b = bytearray()
        pend = None    # pending separator
        for p in out:
            if p is None or p == 1:
                if pend is None or pend == 0: pend = p if p is not None else 2
                elif p is None: pend = 2
            elif p == 0:
                if pend is None: pend = 0
            else:
                if not p: continue
                touch = bool(b) and b[-1] in SYM and p[0] in SYM
                if pend == 0: b += b' ' if touch else b''
                elif pend in (1, 2):
                    s = (b' ' if touch or rng.random() < .6 else b'') if plain else rng.choice(self.WS)
                    if pend == 1 and (b'\n' in s): s = b' '
                    if not s and touch: s = b' '
                    b += s
                pend = None
                b += p
        if pend == 2 and not plain: b += rng.choice(self.WS)
        return bytes(b)

def depth(t):
    d = m = 0
    for c in t:
        if c in b'([{': d += 1; m = max(m, d)
        elif c in b')]}': d -= 1
    return m

def mutate(rng, t, others):
    t = bytearray(t)
    for _ in range(rng.choice((1, 1, 1, 2, 3))):
        if not t: break
        k = rng.randrange(8)
        i = rng.randrange(len(t) + 1)
        if k == 0: t = t[:i]
        elif k == 1: del t[i:i + rng.choice((1, 1, 2, 5))]
        elif k == 2: t[i:i] = bytes([rng.choice(b'()[]{};:,.|-<>=*/+"\'`\\ \n\r\tabRM09$_\x00\x80\xff')])
        elif k == 3 and i < len(t): t[i] = rng.choice(b'()[]{};:,.|-<>=*/+"\'`\\ \n\r\tabRM09$_\x00\xe2')
        elif k == 4: t[i:i] = rng.choice((b' RETURN ', b' MATCH ', b';', b' ;\n', b' :cmd ', b'\n:x\n', b'//', b'/*', b' WITH ', b'..', b' foo ', b' CREATE ', b'\r\n', b' AS ', b' IN '))
        elif k == 5: t[i:i] = rng.choice(others)[:rng.randrange(1, 20)]
        elif k == 6:
            j = rng.randrange(len(t) + 1)
            a, z = min(i, j), max(i, j)
            if z - a < 15: t[z:z] = t[a:z]
        elif k == 7:
            w = bytes(t).split(b' ')
            if len(w) > 2:
                x, y = rng.randrange(len(w)), rng.randrange(len(w))
                w[x], w[y] = w[y], w[x]
                t = bytearray(b' '.join(w))
    return bytes(t)
