import json
R='crates/'
A,B,C,D,E_,F,G=[R+x+'/src/' for x in ('jsonpath_rfc9535','jsonpath_rfc9535_pest','jsonpath_rfc9535_pest_recursive','jsonpath_rfc9535_serde','jsonpath_rfc9535_iter','jsonpath_rfc9535_locations','jsonpath_rfc9535_singular_selector')]
EV=[D,E_,F,G]
P=[]
def p(id,title,st,over,text,why,files,mech,state=(),obs=(),hook=None):
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state],"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":list(obs),"hook_needed":hook}})
gr=lambda: [x+'jsonpath.pest' for x in (B,C,D,E_,F,G)]
pa=lambda: [x+'parser.rs' for x in (A,B,C,D,E_,F,G)]
flt=[D+'ast.rs',E_+'filter.rs',F+'filter.rs',G+'filter.rs']
sel=[D+'ast.rs',E_+'iter.rs',E_+'selector.rs',F+'selector.rs',G+'selector.rs']
seg=[D+'ast.rs',E_+'segment.rs',E_+'iter.rs',F+'segment.rs',G+'segment.rs']
fn=[x+'standard_functions.rs' for x in EV]

p("C01","Exactly the well-formed RFC 9535 queries are accepted",
 "Each of the seven parsers returns a query for every text that the RFC 9535 grammar derives, and returns an error for every other text: nothing missing, left over, or out of place is tolerated, and nothing legal is refused, including blank space, nesting of filters, functions and bracketed selections. (The singular-selector crate accepts, in addition, exactly its two documented syntax extensions.)",
 ["inputs"],"every Unicode text handed to any of the seven parsers",
 "The tests are a fixed list of accepted and rejected texts; the language is infinite, and mistakes live in combinations (what may follow what, at which nesting depth) that the list does not contain.",
 [A+'lexer.rs']+pa()+gr(),[("hand written lexer state functions",A+'lexer.rs'),("Pratt parser",A+'parser.rs'),("pest grammars",B+'jsonpath.pest')],
 [("filter_depth / paren_stack / func_call_stack","lexer context of nested filters, parentheses and calls",A+'lexer.rs')],["Parser::parse","JSONPathParser::parse","Query::standard","find"])
p("C02","Function calls are accepted exactly when well-typed",
 "A well-formed query is accepted if and only if every function in it is registered, is called with the declared number of arguments, each of a kind its declared parameter type admits, and has its result used where its declared result type allows (comparison, existence test, negation, argument); this holds for the standard functions and for every set of registered custom signatures. Rejections are reported as a name error for an unregistered function and as a type error for a mistyped use; the grammar-based parsers report every text that is not well-formed as a syntax error.",
 ["inputs","configurations"],"every query with function calls, under every registered set of signatures",
 "Tests try a handful of calls of the five standard functions; the rule is a relation between signature, argument shape and context, and custom signatures are hardly tested.",
 pa(),[("assert_well_typed / type checks when building comparisons, logical and not expressions and arguments",B+'parser.rs'),("is_well_typed checks in the Pratt parser",A+'parser.rs')],
 [("functions","registered signatures",A+'parser.rs')],["Parser::parse","add_function","error kind"])
p("C03","The parsed query has the structure the text denotes",
 "For every accepted text, the syntax tree has exactly the segments, selectors, operators, operands and arguments that the text denotes, in order: child versus descendant, name versus index versus slice parts (absent parts stay absent), relative versus absolute query, and the grouping given by parentheses and by precedence (negation over comparison-free terms, comparison, and, or). Spelling variants of the same query (blank space, dot versus bracket notation, kind of quotes, redundant parentheses) give the same tree.",
 ["inputs"],"every accepted query text, in all parsers",
 "Tests compare printed forms for about fifty short queries; precedence, nesting and spelling combine without bound.",
 pa()+gr(),[("parse_segments / parse_selectors / parse_filter",A+'parser.rs'),("parse_logical_or_expression and friends",B+'parser.rs')],[],["Query.segments","Query.ast","Display of the query"])
p("C04","String literals and names decode to the exact characters",
 "Every quoted name selector or string literal denotes exactly the character sequence that RFC 9535 assigns to it: every escape in either kind of quotes, surrogate pairs, any other character unchanged; member name shorthands denote themselves. Texts with illegal escapes, lone surrogates or raw control characters are rejected, and the decoded string is what is matched against member names and compared with document strings.",
 ["inputs"],"every quoted string and shorthand, over all Unicode scalar values and escapes",
 "Tests include single examples of some escapes, mostly only whether they parse; decoding is not compared with evaluation, and combinations of adjacent escapes are not tried.",
 [A+'parser.rs',A+'lexer.rs',B+'parser.rs',C+'parser.rs']+[x+'unescape.rs' for x in EV]+gr(),[("unescape_string",D+'unescape.rs'),("unescape_string",A+'parser.rs')],[],["name in Selector::Name","value of string literals","find with quoted names"])
p("C05","Number literals denote their mathematical value",
 "A number in a filter denotes its decimal value (exactly when it is a 64-bit signed integer, else to double precision), including sign, fraction and exponent of either sign and case, and is never silently truncated, saturated or changed in sign. Index and slice integers denote their exact value and are accepted exactly within the configured range (by default plus or minus 2^53-1); leading zeros, negative zero as an index and malformed numbers are rejected.",
 ["inputs","configurations"],"every number literal and integer in every position, and every configured index range",
 "Tests cover a few literals and never evaluate against negative fractions, negative exponents or large magnitudes.",
 [A+'parser.rs',A+'lexer.rs']+pa()[1:]+gr(),[("parse_number / parse_i_json_int",B+'parser.rs'),("accept_number / accept_int",A+'lexer.rs')],[("index_range","accepted index integers",A+'parser.rs')],["Selector::Index/Slice","FilterExpression::Int/Float","find with comparisons"])
p("C06","Printing a query gives a canonical form that parses back to it",
 "For every accepted query, its printed form is accepted by the same parser, denotes the same query (same structure, same decoded strings, same numbers), and printing again gives the same text. Two texts denoting the same query print identically (a slice written with and without its default step 1 may count as two queries).",
 ["inputs"],"every accepted query of all seven parsers",
 "Tests compare about fifty printed forms with expected strings, without parsing them back.",
 [A+'query.rs',B+'ast.rs',C+'ast.rs',D+'ast.rs',E_+'selector.rs',E_+'filter.rs',F+'selector.rs',F+'filter.rs',G+'selector.rs',G+'filter.rs'],[("Display implementations",A+'query.rs')],[],["to_string() then parse"])
p("C07","Segments and selectors yield the RFC node list, in order, with duplicates",
 "Evaluating a query applies its segments left to right: a child segment replaces each node, in order, by the results of its selectors in order; a descendant segment does so for the node and all its descendants in document (pre-)order. Names select only object members, indexes and slices only array elements, wildcards all children in order, scalars yield nothing, and nodes selected twice appear twice; every resulting node is the very value inside the given document.",
 ["inputs"],"every query without filters and every document, in all evaluators",
 "The conformance suite file is not part of the tests that run, so almost nothing about evaluation is tested; ordering and duplication show only with several selectors, segments and nested documents.",
 seg+sel,[("Segment::resolve / visit / descend",F+'segment.rs'),("SegmentIter",E_+'iter.rs'),("resolve and resolve_loop",D+'ast.rs')],[],["find","find_loop","QueryIter","Query::find"])
p("C08","Index and slice selection follow RFC 9535 for all bounds",
 "For every array length and every start, end and step in range, positive, negative, omitted or far beyond the array, index and slice selectors select exactly the elements, in exactly the order, that RFC 9535 section 2.3.3-2.3.4 defines; step zero selects nothing. No combination overflows, panics or selects an element twice.",
 ["inputs"],"every array length and every (start, end, step) in the accepted integer range",
 "One or two slices are evaluated by tests; the rule is a case analysis over signs, magnitudes and omission.",
 [D+'ast.rs',E_+'selector.rs',F+'selector.rs',G+'selector.rs'],[("slice / norm_index",F+'selector.rs')],[],["find with index and slice selectors"])
p("C09","Comparisons implement the RFC comparison relation",
 "For every pair of operands (literals, singular queries that may yield nothing, function results), the six operators give what RFC 9535 section 2.3.5.2.2 defines: equality is by value and deep, numbers compare mathematically whatever their representation at any depth, ordering exists only between two numbers or two strings (by Unicode scalar value), absent equals only absent, and mismatched kinds are unequal and unordered. Hence != is the negation of ==, <= and >= are the union of the strict order and equality, and swapping the operands mirrors the operator.",
 ["inputs"],"every pair of JSON values or absent values and every comparison operator",
 "Hardly any comparison is evaluated by the tests that run; the table is large (kind x kind x operator x absence).",
 flt,[("compare / eq / lt",F+'filter.rs'),("from_json_value",F+'filter.rs')],[],["find with filter comparisons"])
p("C10","Filter logic, existence tests and query scopes are correct",
 "A filter selects exactly the children (array elements or member values, in order) for which its expression is true, where a query tests existence (null and false values exist), and, or, not and parentheses combine truth values classically. '@' always denotes the child under test of the innermost enclosing filter and '$' always denotes the root of the query argument, at any depth of nesting of filters inside queries inside filters.",
 ["inputs"],"every filter expression and document, at every nesting depth",
 "No nested filter is evaluated by tests; scoping mistakes need at least two nested filters and documents in which the scopes differ.",
 flt+sel,[("FilterExpression::evaluate, is_truthy, logical",F+'filter.rs')],[("root / current","scope of $ and @",F+'filter.rs')],["find with filters"])
p("C11","length, count, value and custom functions get and give the right values",
 "length counts Unicode scalar values, elements or members and is absent otherwise; count is the size of the node list; value is the value of a single node and absent otherwise. Every function, standard or registered, receives each argument converted according to its declared parameter type (value or absent, truth value, whole node list), in order, and its result is used according to its declared result type.",
 ["inputs","configurations"],"every argument shape and document, with standard functions and custom functions of every signature shape",
 "Tests check only that calls parse.",
 fn+flt,[("Length / Count / Value",F+'standard_functions.rs'),("unpack_result",F+'filter.rs')],[("function_register","registered functions",F+'env.rs')],["find with functions","FunctionExtension::call arguments"])
p("C12","match and search decide I-Regexp membership",
 "For every string and every valid I-Regexp pattern (RFC 9485), match is true exactly when the whole string, and search exactly when some substring, is in the language of the pattern, by Unicode scalar values, with '.' matching everything but newline and carriage return; patterns may come from literals or from the document. For an invalid pattern or a non-string argument the result is false.",
 ["inputs"],"every pair of pattern and subject",
 "Tests only parse such calls; none evaluates them.",
 fn,[("Match / Search / full_match / map_regex",F+'standard_functions.rs')],[],["find with match() and search()"])
p("C13","Answers never depend on history or on concurrent use",
 "The answer to a query depends only on the query and the document: it is the same whatever was parsed or evaluated before in the process (including more distinct patterns than any cache holds, failed queries, and the same text used as a pattern for both match and search), in whatever order, and when threads evaluate queries through the shared environment at the same time. No call deadlocks.",
 ["histories","schedules"],"every history and every interleaving of evaluations that share an environment",
 "Tests run each query once; shared state (compiled pattern caches behind a lock) matters only for sequences and concurrent calls.",
 fn+[x+'env.rs' for x in EV]+[D+'jsonpath.rs',E_+'jsonpath.rs',F+'jsonpath.rs',G+'jsonpath.rs'],[("Mutex<LruCache<String, Regex>>",F+'standard_functions.rs'),("static ENV",F+'jsonpath.rs')],
 [("cache","compiled patterns, at most 100, per function",F+'standard_functions.rs')],["sequences of find()","find() from several threads"])
p("C14","Node locations are normalized paths that identify the node",
 "The path of each resulting node is the normalized path (RFC 9535 section 2.7) of that value in the document: it depends only on where the value is, not on the query, different nodes have different paths, and it is a valid query that selects exactly that node. Names are escaped and indexes are non-negative as the normalized form requires.",
 ["inputs"],"every query, document and result node, for member names of arbitrary characters",
 "Four unit tests with plain names.",
 [F+'node.rs',G+'node.rs',D+'ast.rs',E_+'node.rs',F+'conslist.rs'],[("Node::path",F+'node.rs'),("new_child_member / new_child_element",E_+'node.rs'),("location appended while descending",F+'segment.rs')],[("location","path elements from the root",F+'node.rs')],["Node::path","Node.location"])
p("C15","All evaluators return the same nodes for the same query",
 "For every query and document, the eager, loop-based, iterator-based, location-tracking and singular-selector evaluators return the same nodes in the same order with equal locations, or all report an error; and that answer is the node list RFC 9535 defines, for queries freely combining all features.",
 ["inputs","configurations"],"every standard query and document, across the five evaluation entry points",
 "Each crate has its own few tests; nothing compares them, and the duplicated code can drift apart in any combination of features.",
 seg+sel+flt+fn,[("four copies of the evaluator",F+'segment.rs'),("find_loop",D+'ast.rs')],[],["find in four crates","find_loop"])
p("C16","The lazy iterator yields the node list one by one, on demand",
 "However next() calls on several query iterators are interleaved and wherever an iterator is dropped or left unfinished, each iterator yields exactly the nodes of its query's node list in order, each once, and then keeps answering None; iterators over the same document do not influence each other and nodes stay usable after their iterator is gone. Standard iterator adaptors see the same sequence as repeated next().",
 ["histories","inputs"],"every interleaving of next, clone of nodes and drop on any number of iterators",
 "Tests collect nothing from the iterator; partial consumption and exhaustion are never exercised.",
 [E_+'iter.rs',E_+'segment.rs',E_+'node.rs'],[("SegmentIter / SelectorIter / ArrayFilterIter / ObjectFilterIter",E_+'iter.rs'),("visit_iter / descendants",E_+'segment.rs')],[("it / selectors","position in the node list",E_+'iter.rs')],["QueryIter::next"])
p("C17","No query text or document makes the library panic, abort or hang",
 "Parsing any text returns a query or an error, and evaluating any accepted query on any document returns a node list, in bounded time and without panicking, overflowing the stack or arithmetic, whatever the size of the document, the length of the query, the characters involved, the numbers in the document or the configured range of index integers, for nesting (of constructs in a query or a pattern, of values in a document) within reason: up to 300 levels on an 8 MB stack. Printing queries and errors never panics.",
 ["inputs"],"every text (including truncated, mutated and non-ASCII ones) and every document (long arrays, unsigned 64-bit numbers, deep nesting within reason)",
 "Tests run a few hundred short texts; crashes hide in odd truncations, extremes and large inputs.",
 [A+'lexer.rs']+pa()+sel+flt+fn,[("lexer error states",A+'lexer.rs'),("checked conversions",F+'selector.rs'),("iterators over matches",E_+'iter.rs')],[],["Parser::parse","find"])
p("C18","Location lists are persistent sequences",
 "A location list behaves as an immutable sequence: every operation (append at the front, head, tail, dropping or keeping n elements, last, iteration from the front, length, equality, ordering, hashing, clone, and collecting, which appends each element at the front) returns what the same operation on a plain sequence returns, leaves every other list it shares structure with unchanged, and dropping any list in any order never affects the others, however long they are.",
 ["histories"],"every sequence of operations on any number of lists sharing structure",
 "The unit tests run each operation on a few short lists; sharing, drop order and length arithmetic need sequences of operations.",
 [F+'conslist.rs',G+'conslist.rs',F+'node.rs',G+'node.rs'],[("append / tailn / lastn / Drop / Extend",F+'conslist.rs')],[("front, length","shared chain and element count",F+'conslist.rs')],["Node.location"])
p("C19","Singular-query selectors and implicit roots follow their documentation",
 "In the singular-selector crate, a query used as a selector selects the member or element named by the string or integer that the query finds from the document root, and nothing when it finds no node, another kind of value, or no such member or element; a query without a leading '$' means the same as with it. Such queries combine with every other selector, segment and filter, and every standard query keeps its standard meaning.",
 ["inputs"],"every query of the extended syntax and every document",
 "A dozen examples are tested; nesting, use inside filters and after descendant segments, negative and non-integer keys are not.",
 [G+'jsonpath.pest',G+'parser.rs',G+'selector.rs',G+'query.rs'],[("Selector::SingularQuery",G+'selector.rs'),("implicit root",G+'jsonpath.pest')],[],["find","Query Display"])
p("C20","Tokens and spans tile the query text faithfully",
 "For every text, the hand-written lexer yields tokens in text order whose spans are in bounds, on character boundaries, non-overlapping, with only blank space and delimiting punctuation between them, and whose values are the text at their span, ending with one end-of-query or error token. Spans in syntax trees and errors are in bounds, on character boundaries, and tie each construct to the text it was parsed from: a segment to its first token, a selector, literal, query or call to where it is written, an infix expression to its left operand.",
 ["inputs"],"every query text, valid or not",
 "Tests compare token lists for some sixty texts; positions after non-ASCII characters, nesting and errors are not covered.",
 [A+'lexer.rs',A+'token.rs',A+'parser.rs',A+'errors.rs'],[("emit / ignore / start / pos bookkeeping",A+'lexer.rs')],[("pos, start","current position and token start",A+'lexer.rs')],["lexer::lex, lexer::tokenize","Token.span","JSONPathError.span","spans in the syntax tree"])
p("C21","Queries are classified as singular or empty correctly",
 "A parsed query reports itself singular exactly when every segment is a child segment with one name or index selector, and then it selects at most one node of any document; it reports itself empty exactly when it has no segments, and then it selects the root alone.",
 ["inputs"],"every accepted query, in all crates that offer the classification",
 "Not tested at all for parsed queries.",
 [A+'query.rs',B+'ast.rs',C+'ast.rs',D+'ast.rs',E_+'query.rs',F+'query.rs',G+'query.rs'],[("is_singular / is_empty",A+'query.rs')],[],["Query::is_singular","Query::is_empty"])
open('properties.jsonl','w').write('\n'.join(json.dumps(x) for x in P)+'\n')
for x in P: assert len(x['title'])<=80,x['id']
