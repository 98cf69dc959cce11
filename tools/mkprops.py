"""Writes properties.jsonl and MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
M = {
 'C01': [('source callbacks fill the parse buffer piecemeal', 'lib/src/parser.c'), ('result merging', 'lib/src/result.c')],
 'C02': [('directive and statement rules', 'lib/src/parser.leg'), ('parse_one / parse_each loop', 'lib/src/parser.c')],
 'C03': [('quick grammar', 'lib/src/quick_parser.leg')],
 'C04': [('line start offsets', 'lib/src/parser.c'), ('line_start actions', 'lib/src/parser.leg')],
 'C05': [('grammar rules and their actions', 'lib/src/parser.leg')],
 'C06': [('precedence climbing with a precedence stack', 'lib/src/parser.leg'), ('operator table', 'lib/src/operators.c')],
 'C07': [('pattern rules', 'lib/src/parser.leg')],
 'C08': [('string buffer and block text', 'lib/src/parser.c')],
 'C09': [('block stack collecting children', 'lib/src/parser.c'), ('ordinals set when a segment is made', 'lib/src/segment.c')],
 'C10': [('error tracking of the furthest failure', 'lib/src/errors.c')],
 'C11': [('skip rules', 'lib/src/parser.leg'), ('error tracking reset', 'lib/src/errors.c')],
 'C12': [('line context extraction', 'lib/src/parser.c')],
 'C13': [('parse_each loop', 'lib/src/parser.c'), ('quick_parse_each loop', 'lib/src/quick_parser.c')],
 'C14': [('reference count', 'lib/src/segment.c')],
 'C15': [('map per context', 'lib/src/annotation.c')],
 'C16': [('error returns and cleanup paths', 'lib/src/parser.c')],
 'C17': [('constructors and clone functions', 'lib/src/ast_*.c')],
 'C18': [('virtual tables with parents', 'lib/src/ast.c')],
 'C19': [('two pass layout', 'lib/src/astnode.c'), ('detailstr functions', 'lib/src/ast_*.c')],
 'C20': [('option handling and output', 'linter/src/cypher-lint.c')],
 'C21': [('position_offset and initial ordinal', 'lib/src/parser.c')],
 'C22': [('all state in the parsing context', 'lib/src/parser.c')],
 'C23': [('one byte at a time reads', 'lib/src/parser.c')],
 'C24': [('generated parser and its actions', 'lib/src/parser.leg')],
 'C25': [('REQUIRE checks', 'lib/src/ast_*.c')],
}
def p(id, title, statement, over, text, why, files, symbols=()):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in M[id]]))
    if symbols: d['anchors']['symbols'] = list(symbols)
    P.append(d)
L = 'lib/src/'
p('C01', 'How input is delivered does not change what is parsed',
  'The same bytes give the same segments, trees, positions and errors whether they are passed as a string or read from a stream, however many bytes each read returns, and whether segments are handed to a callback or collected into one result. The same holds for the quick parser.',
  ['inputs', 'schedules'], 'every input, every way its bytes are split over reads, every entry point (string or stream, callback or result, full or quick)',
  'The tests feed short literals, almost all through one entry point in one piece; inputs larger than the internal buffers and short reads are not tried.',
  [L + 'parser.c', L + 'quick_parser.c', L + 'result.c'], ['cypher_uparse', 'cypher_fparse', 'cypher_uparse_each', 'cypher_fparse_each', 'cypher_quick_uparse', 'cypher_quick_fparse'])
p('C02', 'Segments tile the input, one directive each',
  'Parsing divides the input into consecutive segments that cover it without gap or overlap, each ending with its terminator (a semicolon, the end of a client command\'s line, or the end of input) and holding at most one statement or client command. Terminators inside quotes, backticks and comments do not end a segment, and only the last segment is marked as reaching the end of input.',
  ['inputs', 'configurations'], 'every byte string, with and without the only-statements and single flags',
  'The tests check a few well formed multi-statement strings; which bytes end a segment depends on the lexical context of every byte before them.',
  [L + 'parser.leg', L + 'parser.c', L + 'segment.c'])
p('C03', 'The quick parser splits statements and commands exactly',
  'The quick parser reports each statement and client command in order, with its kind, its exact text without surrounding space, comments and terminator, its position range, the position after its terminator and whether input ended. Quotes, comments and escapes hide terminators exactly as documented.',
  ['inputs', 'configurations'], 'every byte string, with and without the only-statements and single flags',
  'The tests contain a handful of inputs; the splitting depends on every combination of quotes, comments, escapes, line ends and end of input.',
  [L + 'quick_parser.leg', L + 'quick_parser.c'])
p('C04', 'Reported positions are exact offsets, lines and columns',
  'Every position reported - of segments, nodes, errors and the last parsed byte - has the byte offset of the construct in the whole input, the 1-based line on which it stands and the 1-based column within that line. Lines start after every newline, also those inside comments, quoted strings and backtick names, in all segments.',
  ['inputs'], 'every input and every position in it',
  'The tests assert ranges of selected nodes in mostly single-line, single-segment inputs.',
  [L + 'parser.c', L + 'parser.leg', L + 'quick_parser.c'])
p('C05', 'Statements and clauses are parsed into the documented trees',
  'Every statement, clause, clause option, schema command, procedure call and client command of the language is accepted in every documented form, in any letter case and with any white space and comments between its tokens, and yields the tree of typed nodes whose accessors give back exactly the parts written.',
  ['inputs'], 'every document derivable from the grammar',
  'Each clause is tested in a few spellings; combinations of optional parts, repetition counts, comments and letter case are unbounded.',
  [L + 'parser.leg', L + 'ast.c'])
p('C06', 'Expressions respect operator precedence and associativity',
  'Every expression is parsed into the tree given by the operators\' precedences and associativities, with chained comparisons collected in one node, and prefix, postfix, property, label, subscript and slice forms binding as documented. Parentheses override this and leave no node of their own.',
  ['inputs'], 'every expression over all operators, at every nesting',
  'The tests cover single operators and a few pairs; precedence is about all pairs and longer mixtures.',
  [L + 'operators.c', L + 'parser.leg', L + 'parser.c'])
p('C07', 'Patterns are parsed into exact paths',
  'Every node, relationship and path pattern - identifiers, labels, alternative types, direction, variable length bounds, property maps and parameters, named and shortest paths - yields alternating node and relationship patterns in written order, with exactly the parts written and none others.',
  ['inputs'], 'every pattern derivable from the grammar, in every clause and expression that takes one',
  'The tests cover individual features; the combinations of optional parts, and long chains, are unbounded.',
  [L + 'parser.leg', L + 'ast_rel_pattern.c', L + 'ast_node_pattern.c', L + 'ast_pattern_path.c'])
p('C08', 'Literals and names keep their exact value',
  'String literals and client command arguments yield the text with escapes decoded and nothing else changed; numbers, parameters, backtick and plain names, labels, types, property and function names yield the exact bytes written, whatever their length.',
  ['inputs'], 'every literal and name, of every length and content',
  'The tests use a few short literals.',
  [L + 'parser.leg', L + 'parser.c', L + 'string_buffer.c'])
p('C09', 'Every tree is structurally sound',
  'In every tree returned, valid input or not: nodes are numbered consecutively in document order over the whole session, every node has exactly one place, children lie within their parent\'s range and in order, every node an accessor returns is a child of the node asked (or of its path), and the directive is a root. Text not understood appears as error nodes, never silently dropped.',
  ['inputs'], 'every input, including invalid and truncated ones',
  'No test walks the whole tree; trees of invalid inputs are hardly inspected.',
  [L + 'segment.c', L + 'astnode.c', L + 'parser.c'])
p('C10', 'Errors are reported at the furthest failure with what was expected',
  'For every input that does not match the grammar, each error is reported at the furthest position reached, with a message naming the offending character and exactly the alternatives that would have been accepted there. Input that matches the grammar gives no error.',
  ['inputs'], 'every input, with any number of mistakes in any segments',
  'The tests have about twenty erroneous inputs.',
  [L + 'errors.c', L + 'parser.leg'])
p('C11', 'After an error, parsing resumes at the next directive',
  'A mistake invalidates only the text up to the next terminator or clause boundary defined by the grammar: everything that follows is parsed as if the mistake were not there, and every later segment has the tree, positions and errors it would have after a valid one.',
  ['inputs', 'histories'], 'every sequence of valid and invalid directives',
  'The tests have single mistakes followed by at most one further statement.',
  [L + 'parser.leg', L + 'parser.c', L + 'errors.c'])
p('C12', 'The error context shows the offending line and points into it',
  'Each error\'s context is text of the line on which the error stands, at most 80 bytes, with an ellipsis where it was cut, and its context offset points at the error\'s byte in that text; errors at the end of input show the last line with text.',
  ['inputs'], 'every error position, line length and line content',
  'Few tests look at the context at all, and none at its limits.',
  [L + 'parser.c', L + 'errors.c'])
p('C13', 'The callback protocol is honoured',
  'Segments are delivered once each, in input order, before anything after them is parsed; a positive return stops parsing successfully, a negative one is returned to the caller, the single flag stops after one segment, and the last position is the end of the last segment parsed.',
  ['inputs', 'histories', 'configurations'], 'every input, every sequence of callback results, all flags',
  'The tests return only zero, or stop at one fixed point.',
  [L + 'parser.c', L + 'quick_parser.c'])
p('C14', 'Segments live exactly as long as they are retained',
  'A segment stays readable and unchanged until as many releases as retains (plus the parser\'s own) have happened, in any order and after the parse and its input are gone, and its memory is freed exactly then.',
  ['histories'], 'every interleaving of retains and releases over several segments, during and after parsing',
  'The tests never keep a segment beyond its callback.',
  [L + 'segment.c', L + 'parser.c'])
p('C15', 'Annotations follow map semantics and are released exactly once',
  'An annotation context maps nodes to values: attaching replaces and gives back the old value, removing gives the value back, lookups return the latest value, and contexts do not affect each other. Freeing a context, or the tree of an annotated node, passes each value still held to the release handler then in force, exactly once and with its node. Values given back are not passed to it. Missing arguments are refused with EINVAL when built without assertions.',
  ['histories'], 'every sequence of attach, remove, get, handler changes and free, over several contexts and nodes',
  'The tests run a few fixed short sequences.',
  [L + 'annotation.c'])
p('C16', 'Allocation failure is reported, harmless and leak free',
  'When any single memory allocation fails, or all from some point on, every operation reports failure (or completes with the full correct result), crashes nothing, corrupts nothing and leaks nothing, and the next operation works normally.',
  ['fault_sequences', 'inputs'], 'every allocation of every operation, failing once or from there on',
  'No test injects allocation failures.',
  [L + 'parser.c', L + 'vector.c', L + 'string_buffer.c', L + 'errors.c', L + 'ast.c', L + 'annotation.c', L + 'segment.c', L + 'result.c', L + 'astnode.c'])
p('C17', 'Constructors and clone build the tree they are given',
  'Every node constructor accepts valid parts and gives a node whose type, range, children and accessors are those given. Built without assertions, it rejects invalid parts (missing, of the wrong node type, not among the children, too few) with NULL and EINVAL. Cloning a tree gives an independent deep copy that is equal in every accessor and rendering and outlives the original.',
  ['programs', 'inputs'], 'every node type, every combination of optional parts and counts, every tree',
  'No test calls the constructors or clone.',
  ['lib/src/ast_*.c', L + 'astnode.c'])
p('C18', 'The node type hierarchy is consistent',
  'Every concrete node type has a distinct name, abstract types have none, and each has its documented supertypes. Instance tests are reflexive and transitive over the hierarchy, answer for every node as for its type, and are false for all other pairs and for a missing node. Abstract types have no nodes, and the nodes of a concrete type report that type. A value that is no type has no name and no instances.',
  ['inputs'], 'all pairs of node types',
  'The tests check a few pairs.',
  [L + 'ast.c', L + 'astnode.c'])
p('C19', 'Rendering a tree shows it completely at every width',
  'The textual rendering lists every node in order with its ordinal, range, depth, type and detail, aligned in columns and wrapped at the given width without losing or altering a byte, with or without colours. If it cannot all be written, failure is reported and what was written is the beginning of it.',
  ['inputs', 'configurations'], 'every tree, every width, with every colorization',
  'The tests render few trees, at one width.',
  [L + 'astnode.c', L + 'render.c', L + 'util.c', 'lib/src/ast_*.c'])
p('C20', 'cypher-lint reports exactly what the library finds',
  'The command line linter reads its files or standard input to the end, prints the tree and every error (with position, context line and marker) that the library reports for that input, and its exit status is zero exactly when there were none; options change only what they name.',
  ['inputs', 'configurations'], 'every input, from files or standard input, all options',
  'There are no tests of the linter.',
  ['linter/src/cypher-lint.c'])
p('C21', 'Configuration shifts positions and ordinals and nothing else',
  'An initial position and ordinal move every reported offset, line, first-line column and node number by exactly that much, and error colorization only wraps the parts of messages; the trees and segments are otherwise the same. A configuration says what was last set on it, however often it is used: a parse acts on what it says when the parse begins, does not change it, and what it gave does not depend on the configuration any more.',
  ['configurations', 'inputs', 'histories'], 'every configuration, every input, every history of setting and using configurations',
  'The tests set an initial position in one or two inputs.',
  [L + 'parser_config.c', L + 'parser.c', L + 'errors.c'])
p('C22', 'Parsing sessions are independent',
  'Parses running at the same time - in several threads, nested inside callbacks, or one after another in any order, with configurations of their own, the same one or none - each give the result they would give alone.',
  ['schedules', 'histories'], 'every interleaving of several sessions',
  'The tests run one session at a time.',
  [L + 'parser.c', L + 'quick_parser.c', L + 'ast.c', L + 'operators.c'])
p('C23', 'Streams are not read ahead of a delivered segment',
  'When parsing a stream, each segment is delivered as soon as the bytes up to its terminator have been read and before more is asked for, so that interactive input works; with the single flag, or when the callback stops, the bytes after the terminator are left in the stream.',
  ['schedules', 'inputs'], 'every stream, every way its bytes arrive',
  'The tests read from complete in-memory streams.',
  [L + 'parser.c', L + 'parser.leg', L + 'quick_parser.c'])
p('C24', 'Any byte sequence is parsed safely to its end',
  'Any sequence of bytes - control characters, NULs, invalid UTF-8, truncated constructs, very long tokens - is parsed without crash, memory error, leak or endless loop (exhaustion of the stack by unboundedly nested or chained constructs aside), and every byte ends up in a segment.',
  ['inputs'], 'all byte sequences',
  'The tests contain only text.',
  [L + 'parser.c', L + 'parser.leg', L + 'quick_parser.leg', L + 'errors.c'])
p('C25', 'Accessors are safe on any node',
  'Asked of a node of its own type (or a subtype), within range, every accessor gives the part. For an index out of range it gives NULL. Built without assertions, asked of a node of any other type or of none, it returns its failure value (NULL, 0, false, or an outbound direction) with errno EINVAL, and never crashes or changes the node.',
  ['inputs', 'programs'], 'every accessor, every node type, indexes in and out of range',
  'The tests call accessors on nodes of the right type within range.',
  ['lib/src/ast_*.c', L + 'astnode.c'])

def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for d in P: f.write(json.dumps(d) + '\n')
    sys.path.insert(0, os.path.join(V, 'tools'))
    import check
    reg = check.registry()
    notes = json.load(open(os.path.join(V, 'tools', 'levels.json')))
    checks, na = [], []
    for d in P:
        i = d['id']
        if i in reg:
            t, note = notes[i]
            checks.append(dict(property=i, quick_cmd='python3 tools/check.py %s quick' % i,
                               thorough_cmd='python3 tools/check.py %s thorough' % i,
                               evidence_file='evidence/%s.json' % i, technique=t, level=reg[i][1], level_note=note))
        else:
            na.append(dict(property=i, reason='not built yet'))
    m = dict(version=1, setup_cmd='python3 tools/build.py asan ndebug plain tsan', checks=checks, not_applicable=na,
             notes='Run from /verif. Checks rebuild the library and drivers from /repo into /verif/build.')
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
if __name__ == '__main__': main()
