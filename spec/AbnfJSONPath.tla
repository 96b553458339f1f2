---------------------------- MODULE AbnfJSONPath ----------------------------
(***************************************************************************)
(* The grammar of RFC 9535, Appendix A, rule by rule, with the two         *)
(* extensions of the singular selector crate (rules ext-...) beside it.    *)
(***************************************************************************)
EXTENDS Abnf

Q(n) == Ref(n)
\* case-insensitive letter, given in upper case
CI(c) == Alt(<<Ch(c), Ch(c + 32)>>)
DIGIT == Rg(48, 57)
DIGIT1 == Rg(49, 57)
ALPHA == Alt(<<Rg(65, 90), Rg(97, 122)>>)
HEXDIG == Alt(<<DIGIT, Rg(65, 70), Rg(97, 102)>>)
ESC == Ch(92)
UU == Ch(117)
Optional(xs) == Opt(Cat(xs))

JSONPath ==
  [ jsonpath_query |-> Cat(<<Q("root_identifier"), Q("segments")>>),
    segments |-> Star(Cat(<<Q("S"), Q("segment")>>)),
    B |-> Alt(<<Ch(32), Ch(9), Ch(10), Ch(13)>>),
    S |-> Star(Q("B")),
    root_identifier |-> Ch(36),
    selector |-> Alt(<<Q("name_selector"), Q("wildcard_selector"), Q("slice_selector"), Q("index_selector"), Q("filter_selector")>>),
    name_selector |-> Q("string_literal"),
    string_literal |-> Alt(<<Cat(<<Ch(34), Star(Q("double_quoted")), Ch(34)>>), Cat(<<Ch(39), Star(Q("single_quoted")), Ch(39)>>)>>),
    double_quoted |-> Alt(<<Q("unescaped"), Ch(39), Cat(<<ESC, Ch(34)>>), Cat(<<ESC, Q("escapable")>>)>>),
    single_quoted |-> Alt(<<Q("unescaped"), Ch(34), Cat(<<ESC, Ch(39)>>), Cat(<<ESC, Q("escapable")>>)>>),
    unescaped |-> Alt(<<Rg(32, 33), Rg(35, 38), Rg(40, 91), Rg(93, 55295), Rg(57344, 1114111)>>),
    escapable |-> Alt(<<Ch(98), Ch(102), Ch(110), Ch(114), Ch(116), Ch(47), Ch(92), Cat(<<UU, Q("hexchar")>>)>>),
    hexchar |-> Alt(<<Q("non_surrogate"), Cat(<<Q("high_surrogate"), ESC, UU, Q("low_surrogate")>>)>>),
    non_surrogate |-> Alt(<<Cat(<<Alt(<<DIGIT, CI(65), CI(66), CI(67), CI(69), CI(70)>>), Rep(3, 3, HEXDIG)>>),
                            Cat(<<CI(68), Rg(48, 55), Rep(2, 2, HEXDIG)>>)>>),
    high_surrogate |-> Cat(<<CI(68), Alt(<<Rg(56, 57), CI(65), CI(66)>>), Rep(2, 2, HEXDIG)>>),
    low_surrogate |-> Cat(<<CI(68), Alt(<<CI(67), CI(68), CI(69), CI(70)>>), Rep(2, 2, HEXDIG)>>),
    wildcard_selector |-> Ch(42),
    index_selector |-> Q("int"),
    int |-> Alt(<<Ch(48), Cat(<<Opt(Ch(45)), DIGIT1, Star(DIGIT)>>)>>),
    slice_selector |-> Cat(<<Optional(<<Q("int"), Q("S")>>), Ch(58), Q("S"), Optional(<<Q("int"), Q("S")>>), Optional(<<Ch(58), Optional(<<Q("S"), Q("int")>>)>>)>>),
    filter_selector |-> Cat(<<Ch(63), Q("S"), Q("logical_expr")>>),
    logical_expr |-> Q("logical_or_expr"),
    logical_or_expr |-> Cat(<<Q("logical_and_expr"), Star(Cat(<<Q("S"), Word(<<124, 124>>), Q("S"), Q("logical_and_expr")>>))>>),
    logical_and_expr |-> Cat(<<Q("basic_expr"), Star(Cat(<<Q("S"), Word(<<38, 38>>), Q("S"), Q("basic_expr")>>))>>),
    basic_expr |-> Alt(<<Q("paren_expr"), Q("comparison_expr"), Q("test_expr")>>),
    paren_expr |-> Cat(<<Optional(<<Q("logical_not_op"), Q("S")>>), Ch(40), Q("S"), Q("logical_expr"), Q("S"), Ch(41)>>),
    logical_not_op |-> Ch(33),
    test_expr |-> Cat(<<Optional(<<Q("logical_not_op"), Q("S")>>), Alt(<<Q("filter_query"), Q("function_expr")>>)>>),
    filter_query |-> Alt(<<Q("rel_query"), Q("jsonpath_query")>>),
    rel_query |-> Cat(<<Q("current_node_identifier"), Q("segments")>>),
    current_node_identifier |-> Ch(64),
    comparison_expr |-> Cat(<<Q("comparable"), Q("S"), Q("comparison_op"), Q("S"), Q("comparable")>>),
    literal |-> Alt(<<Q("number"), Q("string_literal"), Q("true"), Q("false"), Q("null")>>),
    comparable |-> Alt(<<Q("literal"), Q("singular_query"), Q("function_expr")>>),
    comparison_op |-> Alt(<<Word(<<61, 61>>), Word(<<33, 61>>), Word(<<60, 61>>), Word(<<62, 61>>), Ch(60), Ch(62)>>),
    singular_query |-> Alt(<<Q("rel_singular_query"), Q("abs_singular_query")>>),
    rel_singular_query |-> Cat(<<Q("current_node_identifier"), Q("singular_query_segments")>>),
    abs_singular_query |-> Cat(<<Q("root_identifier"), Q("singular_query_segments")>>),
    singular_query_segments |-> Star(Cat(<<Q("S"), Alt(<<Q("name_segment"), Q("index_segment")>>)>>)),
    name_segment |-> Alt(<<Cat(<<Ch(91), Q("name_selector"), Ch(93)>>), Cat(<<Ch(46), Q("member_name_shorthand")>>)>>),
    index_segment |-> Cat(<<Ch(91), Q("index_selector"), Ch(93)>>),
    number |-> Cat(<<Alt(<<Q("int"), Word(<<45, 48>>)>>), Opt(Q("frac")), Opt(Q("exp"))>>),
    frac |-> Cat(<<Ch(46), Plus(DIGIT)>>),
    exp |-> Cat(<<CI(69), Opt(Alt(<<Ch(45), Ch(43)>>)), Plus(DIGIT)>>),
    true |-> Word(<<116, 114, 117, 101>>),
    false |-> Word(<<102, 97, 108, 115, 101>>),
    null |-> Word(<<110, 117, 108, 108>>),
    function_name |-> Cat(<<Q("function_name_first"), Star(Q("function_name_char"))>>),
    function_name_first |-> Q("LCALPHA"),
    function_name_char |-> Alt(<<Q("function_name_first"), Ch(95), DIGIT>>),
    LCALPHA |-> Rg(97, 122),
    function_expr |-> Cat(<<Q("function_name"), Ch(40), Q("S"), Optional(<<Q("function_argument"), Star(Cat(<<Q("S"), Ch(44), Q("S"), Q("function_argument")>>))>>), Q("S"), Ch(41)>>),
    function_argument |-> Alt(<<Q("literal"), Q("filter_query"), Q("logical_expr"), Q("function_expr")>>),
    segment |-> Alt(<<Q("child_segment"), Q("descendant_segment")>>),
    child_segment |-> Alt(<<Q("bracketed_selection"), Cat(<<Ch(46), Alt(<<Q("wildcard_selector"), Q("member_name_shorthand")>>)>>)>>),
    bracketed_selection |-> Cat(<<Ch(91), Q("S"), Q("selector"), Star(Cat(<<Q("S"), Ch(44), Q("S"), Q("selector")>>)), Q("S"), Ch(93)>>),
    member_name_shorthand |-> Cat(<<Q("name_first"), Star(Q("name_char"))>>),
    name_first |-> Alt(<<ALPHA, Ch(95), Rg(128, 55295), Rg(57344, 1114111)>>),
    name_char |-> Alt(<<Q("name_first"), DIGIT>>),
    descendant_segment |-> Cat(<<Word(<<46, 46>>), Alt(<<Q("bracketed_selection"), Q("wildcard_selector"), Q("member_name_shorthand")>>)>>) ]

\* with a query as a selector, and without a leading "$"
Extended ==
  [ JSONPath EXCEPT
      !.jsonpath_query = @,
      !.selector = Alt(<<@, Q("abs_singular_query"),
                         Cat(<<Alt(<<Q("member_name_shorthand"), Cat(<<Ch(91), Q("name_selector"), Ch(93)>>), Q("index_segment")>>), Q("singular_query_segments")>>)>>) ]
ExtendedTexts == Alt(<<Q("jsonpath_query"), Cat(<<Alt(<<Q("bracketed_selection"), Q("member_name_shorthand")>>), Q("segments")>>)>>)

InJSONPath(s) == Derives(JSONPath, "jsonpath_query", s)
InExtended(s) == Len(s) + 1 \in Ends(Extended, ExtendedTexts, s, 1)
=============================================================================
