"""Hand-made inputs, by family.  Every function returns a list of byte strings."""
import itertools, random

STATEMENTS = r"""
RETURN 1;
return 1 as one, 2 as `two`, x.y.z as p;
RETURN DISTINCT n.name AS name, count(*) AS c ORDER BY c DESC, name ASC SKIP 5 LIMIT 10;
RETURN * ORDER BY n.a ASCENDING, n.b DESCENDING, n.c;
RETURN *, 1 AS x SKIP $s LIMIT {l};
RETURN DISTINCT *, a, b;
RETURN DISTINCT *;
RETURN n.name, 1 +  2 , "x" , count( * ), m { .* };
MATCH (n) RETURN n;
MATCH (n:Person:Actor {name: 'Hunter', age: 32})-[r:KNOWS|:LIKES|HATES*1..5 {since: 1999}]->(m) WHERE n.age > 3 RETURN n, r, m;
OPTIONAL MATCH (n)-->(m)<--(o)--(p)<-->(q) WHERE exists(n.foo) RETURN *;
MATCH p = (a)-[:X]-(b), q = shortestPath((a)-[*]-(b)), allShortestPaths((c)-[*..3]->(d)) RETURN p, q;
MATCH (n:Foo) USING INDEX n:Foo(bar) USING SCAN n:Foo USING JOIN ON n, m WHERE n.bar = 1 RETURN n;
MATCH (n), (m) USING JOIN ON n RETURN n;
MERGE (n:Foo {id: 1}) ON CREATE SET n.created = timestamp(), n:New ON MATCH SET n.seen = n.seen + 1, n += {a: 1};
MERGE (a)-[:R]->(b);
MERGE p = (a) ON MATCH SET a = {}, a:B:C;
CREATE (n:Foo {a: 1, b: [1,2,3]}), (m)-[:BAR]->(n);
CREATE UNIQUE (a)-[:KNOWS]->(b) RETURN a;
SET n.foo = 1, n = {a: 2}, n += $p, n:A:B, (n).x = 3, n.a.b.c = null;
DELETE n, r, n.foo;
DETACH DELETE n;
REMOVE n.foo, n:A:B, n.a.b;
WITH n, count(*) AS c ORDER BY c DESC SKIP 1 LIMIT 2 WHERE c > 1 RETURN n;
WITH DISTINCT n, m.x AS y WHERE y = 1 RETURN y;
WITH * WHERE n.foo > 10 RETURN *;
WITH DISTINCT *, 1 AS one LIMIT 3 RETURN one;
UNWIND [1, 2, 3] AS x RETURN x;
UNWIND range(0, 10) AS `weird name` RETURN `weird name`;
FOREACH (x IN nodes(p) | SET x.marked = true CREATE (y {v: x}) DELETE z);
FOREACH (x IN [1] | FOREACH (y IN [2] | MERGE (n {a: x, b: y})));
CALL db.labels;
CALL db.labels() YIELD label;
CALL db.index.query('foo', $q) YIELD node AS n, score WHERE score > 0.5 RETURN n;
CALL a.b.c(1, 'two', [3]) YIELD - RETURN 1;
CALL foo(1 + 2, bar(3)) YIELD x AS y, z;
LOAD CSV FROM 'http://x/y.csv' AS line RETURN line;
LOAD CSV WITH HEADERS FROM $url AS row FIELDTERMINATOR ';' CREATE (n {a: row.a});
USING PERIODIC COMMIT 500 LOAD CSV FROM "f" AS l CREATE (n);
USING PERIODIC COMMIT LOAD CSV FROM "f" AS l CREATE (n);
START n = node(1, 2, 3), m = node(*), r = rel(*), s = relationship(4,5) WHERE n.x = 1 RETURN n;
START n = node:idx(name = 'foo'), m = node:idx('name:foo'), r = rel:ridx(a = $p), s = relationship:ridx({q}) RETURN *;
MATCH (n) RETURN n UNION MATCH (m) RETURN m UNION ALL RETURN 1 AS n;
CREATE INDEX ON :Foo(bar);
CREATE INDEX ON :`Foo bar`(a, b, `c d`);
DROP INDEX ON :Foo(bar);
DROP INDEX ON :Foo(bar, baz);
CREATE CONSTRAINT ON (f:Foo) ASSERT f.bar IS UNIQUE;
CREATE CONSTRAINT ON (f:Foo) ASSERT exists(f.bar);
CREATE CONSTRAINT ON ()-[r:REL]-() ASSERT exists(r.bar);
CREATE CONSTRAINT ON ()<-[r:REL]-() ASSERT exists(r.bar);
CREATE CONSTRAINT ON ()-[r:REL]->() ASSERT r.bar > 1;
DROP CONSTRAINT ON (f:Foo) ASSERT f.bar IS UNIQUE;
DROP CONSTRAINT ON (f:Foo) ASSERT exists(f.bar);
DROP CONSTRAINT ON ()-[r:REL]-() ASSERT exists(r.bar);
CYPHER RETURN 1;
CYPHER 2.3 planner=cost runtime=interpreted MATCH (n) RETURN n;
CYPHER 3.0 EXPLAIN PROFILE RETURN 1;
EXPLAIN MATCH (n) RETURN n;
PROFILE MATCH (n) RETURN n;
cypher 2.2 cypher planner = rule profile return 1;
RETURN CASE x WHEN 1 THEN 'a' WHEN 2 THEN 'b' ELSE 'c' END AS r;
RETURN CASE WHEN x > 1 THEN true WHEN x IS NULL THEN false END;
RETURN case n.x when 1 then 2 end + 1;
RETURN [x IN range(0,10) WHERE x % 2 = 0 | x ^ 3] AS l;
RETURN [x IN l], [x IN l WHERE x], [x IN l | x], [];
RETURN [p = (a)-->(b) WHERE a.x = 1 | b.y], [(a)--(b) | a];
RETURN filter(x IN l WHERE x > 1), extract(x IN l | x.y), extract(x IN l), filter(x IN l);
RETURN all(x IN l WHERE x), any(x IN l WHERE x), none(x IN l WHERE x), single(x IN l WHERE x), all(x IN l);
RETURN reduce(a = 0, x IN l | a + x), reduce(a = 0, x IN l);
RETURN {a: 1, b: {c: [1, {d: 2}]}, `e f`: null}, {};
RETURN n {.name, .*, age: 3, m, x: n.y + 1}, n {}, n { . a , . * };
RETURN n:Foo, n:Foo:Bar AND NOT m:Baz, n.x:Y;
RETURN (n)-->(m), (n)<-[:X]-(), exists((n)--(m)), NOT (a)-->(b);
RETURN shortestPath((a)-[*]-(b)), allShortestPaths((a)-->(b));
RETURN l[0], l[1..2], l[..3], l[4..], l[..], l[a+1][b].c[..2].d;
RETURN a.b.c, a[b].c, foo(x).y, {a: 1}.a, $p.q, [1,2][0];
RETURN $p, {p}, $1, {23}, $`a b`, {`c d`}, $p1.x;
RETURN 'it''s', "dq \" esc", 'tab\tnl\n', '\\', "a'b", 'a"b', '';
RETURN 0, 12, 007, 0x1F, 1.5, .5, 1., 1e10, 1.5e-3, 1E+5, 3.14abc, 12abc;
RETURN true, FALSE, Null, trueish, nullx, falsey;
RETURN count(*), count(DISTINCT x), foo(DISTINCT a, b), foo(DISTINCT *), a.b.foo(1), `a b`.c();
RETURN 1 < 2 <= 3 > 4 >= 5, a = b <> c, a =~ 'x.*';
RETURN a OR b XOR c AND NOT d;
RETURN a + b - c * d / e % f ^ g;
RETURN - a + + b, -1, - -1, +x, NOT NOT y, -a.b, -a[0], -(a), -2 ^ 2;
RETURN a IN [1], a STARTS WITH 'x', a ENDS WITH 'y', a CONTAINS 'z', a starts  with b;
RETURN a IS NULL, a IS NOT NULL, a.b is null and c is  not  null;
RETURN (a + b) * (c - (d / e)), ((1));
RETURN a = b = c, a ^ b ^ c, a - b - c, a / b / c, a AND b AND c;
RETURN 1 /* one */ + // plus
 2 AS `three`;
MATCH (`n m`:`L 1`:L2) WHERE `n m`.`p q` = 'x' RETURN `n m`.`p q`;
MATCH (n $props), (m {p}), (:L), (), ( ), ({a: 1}), (:L $p)-[$q]-() RETURN 1;
MATCH ()-[*]-(), ()-[*2]-(), ()-[*2..]-(), ()-[*..3]-(), ()-[*2..3]-(), ()-[* ..]-(), ()-[r*]-(), ()-[:T*1]-() RETURN 1;
MATCH ()-[r]-(), ()<-[r]-(), ()-[r]->(), ()<-[r]->(), ()--(), ()<--(), ()-->(), ()<-->(), ()-[]-(), ()<-[ ]->() RETURN 1;
MATCH (a)-[:A|B|:C]->(b)-[r:`x y`|z {p: 1}]-(c) RETURN a;
MATCH (a) - [ r : X * 1 .. 2 { a : 1 } ] - > (b) < - - (c) RETURN a;
;
:help
:schema ls foo "bar baz" 'qu''ux';
:set a\;b "c\"d" e\\f 'g\nh' ;
:begin // a comment
:multi line \
 continued here
:cmd "unterminated string"x'y'z
:play /* block */ arg
: cmd
""".strip('\n')

def statements():
    out, cur = [], []
    for line in STATEMENTS.split('\n'):
        cur.append(line)
        s = '\n'.join(cur)
        if line.startswith(':') and not line.endswith('\\') or line.endswith(';') \
           or (len(cur) > 1 and cur[0].endswith('\\')):
            out.append(s.encode() + (b'\n' if s.startswith(':') else b'')); cur = []
    if cur: out.append('\n'.join(cur).encode())
    return out

BIN = ['OR', 'XOR', 'AND', '=', '<>', '<', '>', '<=', '>=', '+', '-', '*', '/', '%', '^', '=~',
       'IN', 'STARTS WITH', 'ENDS WITH', 'CONTAINS', 'NOT']
PRE = ['NOT ', '+', '-']
POST = [' IS NULL', ' IS NOT NULL', '.p', '[i]', '[i..j]', ':L', '{.x}', '[..]']

def expressions():
    out = []
    for a, b in itertools.product(BIN, BIN):
        out.append('RETURN p %s q %s r' % (a, b))
    rng = random.Random(7)
    for _ in range(260):
        n = rng.choice((3, 3, 4, 5, 6))
        s = 'x'
        for i in range(n):
            s += ' %s %s%s%s' % (rng.choice(BIN), rng.choice(PRE) if rng.random() < .25 else '',
                                 'abcdefgh'[i], rng.choice(POST) if rng.random() < .3 else '')
        out.append('RETURN ' + s)
    for p, q in itertools.product(PRE, PRE): out.append('RETURN %s%s a' % (p, q))
    for p in PRE:
        for b in BIN: out += ['RETURN %sa %s b' % (p, b), 'RETURN a %s %sb' % (b, p)]
        for o in POST: out.append('RETURN %sa%s' % (p, o))
    for b in BIN:
        for o in POST: out += ['RETURN a%s %s b' % (o, b), 'RETURN a %s b%s' % (b, o)]
    for o, q in itertools.product(POST, POST): out.append('RETURN a%s%s' % (o, q))
    for a, b in itertools.product(BIN, BIN):
        if rng.random() < .35: out.append('RETURN (p %s q) %s r, p %s (q %s r)' % (a, b, a, b))
    return [s.encode() for s in out]

def literals():
    out = []
    for e in 'abfnrtv\\\'"?': out += ["RETURN '\\%s'" % e, 'RETURN "x\\%sy"' % e, ":c '\\%s' \"\\%s\" \\%sz\n" % (e, e, e)]
    for e in 'cdexu01;': out += ["RETURN '\\%s'" % e, 'RETURN "x\\%sy"' % e, ':c \\%s "\\%s"\n' % (e, e)]
    for n in ['0', '1', '00', '10', '0x0', '0XFF', '1_000', '12$', '1a', '9' * 40, '.0', '.5e3', '1.', '1..2',
              '1.5', '1.e5', '1e5', '1E5', '1e+5', '1e-5', '1e', '1e+', '1.2.3', '.5.5', '1e5x', '1.5x_$', '01.10', '5.foo', '1e5.foo']:
        out += ['RETURN %s' % n, 'RETURN -%s' % n, 'RETURN [%s]' % n, 'RETURN {a: %s}' % n, 'RETURN %s + %s AS x' % (n, n)]
    names = ['a', 'A1', '_x', 'a_b$c', '`x`', '` `', '`a``b`', '`1`', '`;`', "`'`", '``', '`//`', '`/*`', '`a\\n`',
             'match', 'RETURN', 'as', 'null1', 'n' * 70, '`' + 'q' * 300 + '`', '`a\tb`', '`\u00e9\u4e2d`', 'x$']
    for n in names:
        out += ['RETURN %s' % n, 'MATCH (%s:%s {%s: 1})-[%s:%s]-() RETURN 1' % (n, n, n, n, n), 'RETURN $%s, {%s}' % (n, n),
                'RETURN %s(1), %s.%s(2)' % (n, n, n), 'CALL %s.%s(1) YIELD %s AS %s' % (n, n, n, n), 'RETURN a.%s AS %s' % (n, n),
                'CREATE INDEX ON :%s(%s, %s)' % (n, n, n), 'START %s = node:%s(%s = "v") RETURN 1' % (n, n, n),
                'RETURN {%s: 1, %s: 2}, m {%s: 1, .%s, %s}' % (n, n, n, n, n), 'UNWIND l AS %s RETURN [%s IN l | %s]' % (n, n, n)]
    for p in ['$0', '$1', '$12', '$01', '{0}', '{1}', '{12}', '{ a }', '$ a', '{`a`}', '$1a', '{1a}', '$_', '$$']:
        out.append('RETURN %s' % p)
    for s in ["''", '""', "'a''b'", "'a\nb'", '"a\r\nb"', "'\u00e9\u4e2d\U0001f600'", "'//'", "'/*'", "'*/'", "';'", '";"',
              "'" + 'z' * 500 + "'", '"\'"', "'\"'", "' '", "'\t'", "'`'", "'\\\\'", "'\\\\\\''", "'a\\'b\\\"c'"]:
        out += ['RETURN %s' % s, 'RETURN %s AS a, %s AS b' % (s, s), ':cmd %s x%sy\n' % (s, s), 'LOAD CSV FROM %s AS x FIELDTERMINATOR %s RETURN x' % (s, s),
                'MATCH (n {a: %s}) RETURN n' % s, 'START n=node:i(%s) RETURN n' % s]
    for c in [':a', ':a;', ':a b c', ':a b;c', ':a\tb\t', ':a b//c', ':a b /*c*/ d', ':a \\\n b', ':a \\ \n b', ':a \\ //x\n b', ':a \\', ':a\\;b',
              ':a \\;', ':"a b" c', ":'a'", ':a "b', ":a 'b", ':a "x\ny"', ':a "x\\\ny"', ':a b\r\n:c', ':a b\n:c d\n', ':a "b"\'c\'d', ': a', ':\ta', ':\na',
              ':', ':;', ':a;;:b', ':a /', ':a /b', ':a b/c', ':/*x*/a', ':a/*x', ':a//', ':a b\\', ':a\\n\\tb', ':a ' + 'b ' * 40, ':' + 'n' * 100 + ' ' + 'v' * 300]:
        out.append(c); out.append(c + '\nRETURN 1;')
    return [s.encode() for s in out]

def patterns():
    out = []
    ids = ['', 'r', '`r s`']
    types = ['', ':T', ':T|U', ':T|:U', ':T|:U|V|:W', ':`a b`']
    lens = ['', '*', '*1', '*1..', '*..2', '*1..2', '* 1 .. 2', '*..']
    props = ['', '{a: 1}', ' {a: 1, b: x}', ' $p', ' {p}', '{}']
    ends = [('-', '-'), ('<-', '-'), ('-', '->'), ('<-', '->'), (' - ', ' - '), (' < - ', ' - > ')]
    rng = random.Random(11)
    allc = list(itertools.product(ids, types, lens, props, ends))
    rng.shuffle(allc)
    for i, t, l, p, (a, b) in allc[:340]:
        out.append('MATCH (a)%s[%s%s%s%s]%s(b) RETURN 1' % (a, i, t, l, p, b))
    for i, l, p in itertools.product(['', 'n', '`n m`', ' n '], ['', ':L', ':L:M', ' :L : M', ':`l m`'], ['', '{a: 1}', ' $p', ' {p}', ' {} ']):
        out.append('CREATE (%s%s%s)' % (i, l, p))
    for d in ['--', '-->', '<--', '<-->', ' - - ', ' < - - > ', '-[]-', '<-[]->']:
        out += ['MATCH (a)%s(b)%s(c) RETURN 1' % (d, d), 'RETURN (a)%s(b)' % d, 'RETURN [(a)%s(b) | 1]' % d, 'MERGE p = (a)%s(b)' % d,
                'MATCH p = shortestPath((a)%s(b)) RETURN p' % d, 'MATCH allShortestPaths((a)%s(b)) RETURN 1' % d, 'RETURN shortestPath((a)%s(b))' % d]
    for s in ['p=(a)', 'p = (a)', '`p q` = (a)--(b)', '((a))', '((a)--(b))', 'p = ((a)--(b))', '(a), (b)', 'p=(a), q=(b), (c)', '(a)-[r]-(b)-[s]->(c)<-[t]-(d)']:
        out += ['MATCH %s RETURN 1' % s, 'CREATE %s' % s, 'MERGE %s' % s]
    return [s.encode() for s in out]

def segments():
    """Documents of several statements and commands."""
    rng = random.Random(5)
    st = ['RETURN 1;', 'MATCH (n)\n RETURN n;', ';', ' ; ', ':cmd a b\n', ':cmd a;', '\n', '  \n\t', '// comment\n', '/* block\n comment */', 'CREATE (n);', 'RETURN `a;b`;',
          "RETURN 'a;b';", 'foo;', 'MATCH (n RETURN n;', 'bar baz', 'RETURN 1', ':x "y', '\r\n', 'RETURN 1 // c\n;', '; // trailing\n', ':c // trailing\n', 'RETURN /* ; */ 2;',
          'MERGE (n)', 'UNWIND [1] AS x', 'RETURN', '/* open', "'", '"', '`', '*/', '\\', ')', 'EXPLAIN RETURN 1;', 'CREATE INDEX ON :A(b);', 'é;', '\x01;', 'RETURN 1 foo 2;', ':', ': ;']
    out = [''.join(rng.choice(st) for _ in range(k)) for k in range(1, 9) for _ in range(60)]
    out += ['', ' ', '\n', ';', ';;', '//', '/**/', '/* */ ;', '// x', ' // x\n ', '\n\n;\n\n', '\x00', '\x00;', 'RETURN 1;\x00RETURN 2;', 'RETURN \x00;', '\t\r\n', '\r', 'RETURN 1;\r', 'a' * 100]
    return [s.encode() for s in dict.fromkeys(out)]

def errors():
    """One mistake or several, in and around clauses."""
    out = []
    bad = ['foo', '1', ')', '->', '}', '"x', "'x", '`x', '?', '=', 'é', '\x07', '\x08', '\x0b', '\x0c', '\r', '\t?', "'", '\\', '#', '!', '@x', '~', '&', '\x7f', '\xff']
    for b in bad:
        out += ['%s' % b, '%s;' % b, 'RETURN %s;' % b, 'MATCH (n) %s RETURN n;' % b, 'RETURN 1 %s; RETURN 2;' % b, 'MATCH (n %s) RETURN n; :cmd\n' % b, ':cmd %s\nRETURN 1;' % b,
                'CREATE (n)\n%s\nMATCH (m) RETURN m' % b, '%s MATCH (n) RETURN n;' % b]
    for k in (2, 7, 8, 9, 16, 17, 20):
        out += ['RETURN )' + ' MATCH (' * k, 'foo; ' * k, ('MATCH (n x) RETURN n; ' * k), 'RETURN 1; bad! ' * k, 'MATCH (n) ? ' * k + ';']
    for w in (70, 76, 77, 78, 79, 80, 81, 82, 83, 90, 120, 160, 170):
        pad = 'x' * w
        out += ['RETURN %s ? 1;' % pad, 'RETURN ? %s;' % pad, 'RETURN %s ? %s;' % (pad, pad), 'RETURN 1;\nRETURN %s ?;' % pad, 'RETURN 1\n? %s\n;' % pad, '%s' % pad, 'RETURN %s ?' % pad[:w // 2] + '\n' * 3,
                'RETURN ?%s\n RETURN 1;' % (' ' * w), ' ' * w + '?', 'RETURN 1 ' + ' ' * w]
    for n in range(28, 46): out.append('RETURN %s ? %s;' % ('a' * n, 'b' * (80 - n)))
    for n in range(33, 44): out.append('RETURN %s ?' % ('a' * (n)) + 'b' * (n)); 
    return [s.encode('latin-1') for s in out]

def truncations(rng, k):
    out = []
    for s in statements():
        for i in range(len(s)):
            out.append(s[:i])
    rng.shuffle(out)
    return out[:k]

def sizes():
    """Many of everything, and inputs around the sizes of buffers."""
    out = []
    for n in (7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65):
        out += ['MATCH (n%s) RETURN n;' % ''.join(':L%d' % i for i in range(n)),
                'RETURN %s;' % ', '.join('a%d' % i for i in range(n)),
                'RETURN [%s];' % ','.join(str(i) for i in range(n)),
                'RETURN {%s};' % ','.join('k%d:%d' % (i, i) for i in range(n)),
                'RETURN f(%s);' % ','.join('x%d' % i for i in range(n)),
                'MATCH %s RETURN 1;' % '--'.join('(n%d)' % i for i in range(n)),
                'MATCH %s RETURN 1;' % ', '.join('(n%d)' % i for i in range(n)),
                'MATCH ()-[:%s]-() RETURN 1;' % '|'.join('T%d' % i for i in range(n)),
                'RETURN %s;' % ' < '.join('c%d' % i for i in range(n)),
                'RETURN %s;' % ' + '.join('c%d' % i for i in range(n)),
                'RETURN a%s;' % ''.join('.b%d' % i for i in range(n)),
                'RETURN a%s;' % ''.join('[%d]' % i for i in range(n)),
                'RETURN a%s;' % ''.join(':L%d' % i for i in range(n)),
                'RETURN CASE x %s END;' % ' '.join('WHEN %d THEN %d' % (i, i) for i in range(n)),
                'RETURN m {%s};' % ', '.join('.p%d' % i for i in range(n)),
                'SET %s;' % ', '.join('n.p%d = %d' % (i, i) for i in range(n)),
                'SET n%s;' % ''.join(':L%d' % i for i in range(n)),
                'REMOVE %s;' % ', '.join('n.p%d' % i for i in range(n)),
                'DELETE %s;' % ', '.join('n%d' % i for i in range(n)),
                'CREATE INDEX ON :L(%s);' % ', '.join('p%d' % i for i in range(n)),
                'START n=node(%s) RETURN n;' % ','.join(str(i) for i in range(n)),
                'START %s RETURN n;' % ', '.join('n%d = node(*)' % i for i in range(n)),
                'MATCH (n) USING JOIN ON %s RETURN n;' % ', '.join('n%d' % i for i in range(n)),
                'MATCH (n) %s RETURN n;' % ' '.join('USING SCAN n:L%d' % i for i in range(n)),
                'MERGE (n) %s;' % ' '.join('ON MATCH SET n.a%d = 1' % i for i in range(n)),
                'WITH %s RETURN 1;' % ', '.join('a%d AS b%d' % (i, i) for i in range(n)),
                'RETURN 1 ORDER BY %s;' % ', '.join('a%d' % i for i in range(n)),
                'CALL p(%s) YIELD %s;' % (','.join('1' for i in range(n)), ', '.join('y%d' % i for i in range(n))),
                'FOREACH (x IN l | %s);' % ' '.join('CREATE (n%d)' % i for i in range(n)),
                'CYPHER %s RETURN 1;' % ' '.join('o%d=v%d' % (i, i) for i in range(n)),
                '%s RETURN 1;' % ' '.join(('EXPLAIN', 'PROFILE')[i % 2] for i in range(n)),
                ' '.join('MATCH (n%d)' % i for i in range(n)) + ' RETURN 1;',
                ' UNION '.join('RETURN %d' % i for i in range(n)) + ';',
                ':cmd ' + ' '.join('a%d' % i for i in range(n)) + '\n',
                'RETURN 1; ' * n, ':c\n' * n, ';' * n, '/*c*/' * n + 'RETURN 1;', '//c\n' * n + 'RETURN 1;',
                'RETURN %s;' % ('NOT ' * min(n, 9) + 'x'),
                '\n' * n + 'RETURN 1;', '\r\n' * n + 'RETURN 1 ?;', 'RETURN\n' + '\n'.join('a%d,' % i for i in range(n)) + '\nz;']
    for n in (990, 1010, 1022, 1023, 1024, 1025, 1026, 1500, 2047, 2048, 2049):
        out += ["RETURN '%s';" % ('s' * (n - 10)), 'RETURN `%s`;' % ('i' * (n - 10)), '/*%s*/RETURN 1;' % ('c' * (n - 13)), '//%s\nRETURN 1;' % ('l' * (n - 12)),
                'RETURN 1;' + ' ' * (n - 9), ' ' * (n - 9) + 'RETURN 1;', 'RETURN ' + 'x' * (n - 8) + ';', ':cmd ' + 'a' * (n - 6) + '\n',
                'RETURN 1;' + ' ' * (n - 15) + 'RETURN 2;RETURN 3', ('RETURN 12345678;\n' * (n // 17 + 1))[:n]]
    return [s.encode() for s in out]

def renders():
    """(text, widths): details that end at, just before and just after the width."""
    out = []
    for n in (1, 5, 9, 10, 11, 12, 20, 30, 40):
        out.append(("RETURN '%s';" % ('s' * n), [1, 30, 40, 50, 51, 52, 53, 54, 60, 70, 80]))
        out.append(("RETURN '%s';" % ('\\n' * n), [1, 40, 41, 42, 43, 44, 45, 55, 60]))
    for n in (1009, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 1030, 2046, 2050):
        out.append(("RETURN '%s';" % ('s' * n), [0, 80]))
        out.append(('RETURN `%s`;' % ('s' * n), [0]))
        out.append(('RETURN $`%s`;' % ('s' * n), [0]))
        out.append(('MATCH (:`%s`)-[:`%s`]-() RETURN 1;' % ('s' * n, 't' * n), [0]))
        out.append(('RETURN %s;' % ('1' * n), [0]))
        out.append(('/*%s*/RETURN 1; //%s' % ('1' * n, '2' * n), [0, 100]))
        out.append(('%s;' % ('?' * n), [0]))
    for n in (90, 170, 171, 172, 173, 201, 202, 203, 204, 205, 206, 250):
        out.append(('RETURN [%s];' % ','.join('1' for _ in range(n)), [0, 80]))
        out.append(('RETURN %s;' % ','.join('1' for _ in range(n)), [0]))
        out.append(('RETURN f(%s);' % ','.join('1' for _ in range(n)), [0]))
        out.append(('RETURN {%s};' % ','.join('a:1' for _ in range(n)), [0]))
        out.append(('MATCH (%s) RETURN 1;' % ''.join(':L' for _ in range(n)), [0]))
        out.append(('MATCH ()-[:%s]-() RETURN 1;' % '|'.join('L' for _ in range(n)), [0]))
        out.append(('MATCH %s RETURN 1;' % '--'.join('()' for _ in range(n)), [0]))
        out.append(('RETURN %s;' % '<'.join('1' for _ in range(n)), [0]))
        out.append(('RETURN CASE %s END;' % ' '.join('WHEN 1 THEN 2' for _ in range(n)), [0]))
    return [(t.encode(), w) for t, w in out]
