---------------------------- MODULE AbnfIRegexp ----------------------------
(***************************************************************************)
(* The grammar of I-Regexp, RFC 9485, Figure 1, rule by rule.              *)
(***************************************************************************)
EXTENDS Abnf

IRegexpGrammar ==
  LET Q(n) == Ref(n)
      \* a first letter alone or with one of the second ones
      Category(a, bs) == Cat(<<Ch(a), Opt(Alt([j \in DOMAIN bs |-> Ch(bs[j])]))>>) IN
  [ i_regexp |-> Cat(<<Q("branch"), Star(Cat(<<Ch(124), Q("branch")>>))>>),
    branch |-> Star(Q("piece")),
    piece |-> Cat(<<Q("atom"), Opt(Q("quantifier"))>>),
    quantifier |-> Alt(<<Ch(42), Ch(43), Ch(63), Q("range_quantifier")>>),
    range_quantifier |-> Cat(<<Ch(123), Q("QuantExact"), Opt(Cat(<<Ch(44), Opt(Q("QuantExact"))>>)), Ch(125)>>),
    QuantExact |-> Plus(Rg(48, 57)),
    atom |-> Alt(<<Q("NormalChar"), Q("charClass"), Cat(<<Ch(40), Q("i_regexp"), Ch(41)>>)>>),
    NormalChar |-> Alt(<<Rg(0, 39), Ch(44), Ch(45), Rg(47, 62), Rg(64, 90), Rg(94, 122), Rg(126, 55295), Rg(57344, 1114111)>>),
    charClass |-> Alt(<<Ch(46), Q("SingleCharEsc"), Q("charClassEsc"), Q("charClassExpr")>>),
    SingleCharEsc |-> Cat(<<Ch(92), Alt(<<Rg(40, 43), Ch(45), Ch(46), Ch(63), Rg(91, 94), Ch(110), Ch(114), Ch(116), Rg(123, 125)>>)>>),
    charClassEsc |-> Alt(<<Q("catEsc"), Q("complEsc")>>),
    charClassExpr |-> Cat(<<Ch(91), Opt(Ch(94)), Alt(<<Ch(45), Q("CCE1")>>), Star(Q("CCE1")), Opt(Ch(45)), Ch(93)>>),
    CCE1 |-> Alt(<<Cat(<<Q("CCchar"), Opt(Cat(<<Ch(45), Q("CCchar")>>))>>), Q("charClassEsc")>>),
    CCchar |-> Alt(<<Rg(0, 44), Rg(46, 90), Rg(94, 55295), Rg(57344, 1114111), Q("SingleCharEsc")>>),
    catEsc |-> Cat(<<Word(<<92, 112, 123>>), Q("charProp"), Ch(125)>>),
    complEsc |-> Cat(<<Word(<<92, 80, 123>>), Q("charProp"), Ch(125)>>),
    charProp |-> Q("IsCategory"),
    IsCategory |-> Alt(<<Q("Letters"), Q("Marks"), Q("Numbers"), Q("Punctuation"), Q("Separators"), Q("Symbols"), Q("Others")>>),
    Letters |-> Category(76, <<108, 109, 111, 116, 117>>),
    Marks |-> Category(77, <<99, 101, 110>>),
    Numbers |-> Category(78, <<100, 108, 111>>),
    Punctuation |-> Category(80, <<99, 100, 101, 102, 105, 111, 115>>),
    Separators |-> Category(90, <<108, 112, 115>>),
    Symbols |-> Category(83, <<99, 107, 109, 111>>),
    Others |-> Category(67, <<99, 102, 110, 111>>) ]

InIRegexp(s) == Derives(IRegexpGrammar, "i_regexp", s)
=============================================================================
