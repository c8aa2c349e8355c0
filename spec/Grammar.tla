------------------------------ MODULE Grammar ------------------------------
(* The pattern language as an LL(1) push-down automaton.                     *)
(*                                                                           *)
(* A configuration is a stack of grammar symbols, a stack of finished nodes  *)
(* and the last consumed character. Feed(cfg, tok) consumes one token, a     *)
(* byte or EOF; it either needs more input, rejects at this token, or        *)
(* accepts with a syntax tree. Symbols starting with "!" are semantic        *)
(* actions. Items of a set are kept most recent first.                       *)
EXTENDS Ast

EOF == -1

NonAtom == {cRPar, cStar, cPlus, cQuest, cLBrc, cBar}
IsAtomStart(t) == t # EOF /\ t \notin NonAtom

\* What to push after consuming the first character of an atom.
AtomRest(t) ==
  CASE t = cLBrk   -> << <<"!set">>, <<"setneg">>, <<"expect", cRBrk>>, <<"mod">> >>
    [] t = cLPar   -> << <<"group">>, <<"expect", cRPar>>, <<"mod">> >>
    [] t = cBSlash -> << <<"esc">>, <<"mod">> >>
    [] t = cDot    -> << <<"!node", AnyCh>>, <<"mod">> >>
    [] t = cCaret  -> << <<"!node", Bol>> >>
    [] t = cDollar -> << <<"!node", Eol>> >>
    [] OTHER       -> << <<"!lit">>, <<"mod">> >>

Adv(s)  == [a |-> "adv", s |-> s]
Push(s) == [a |-> "push", s |-> s]
Ignore  == [a |-> "push", s |-> <<>>]
Reject  == [a |-> "reject", s |-> <<>>]

Name0(t) == t \in WordChar /\ t \notin Digit
NameN(t) == t \in WordChar

\* Escaped characters with the same meaning everywhere.
PlainEscape(t) ==
  CASE t = 48  -> Adv(<< <<"!node", Lit(0)>> >>)            \* \0
    [] t = 110 -> Adv(<< <<"!node", Lit(10)>> >>)           \* \n
    [] t = 114 -> Adv(<< <<"!node", Lit(13)>> >>)           \* \r
    [] t = 116 -> Adv(<< <<"!node", Lit(9)>> >>)            \* \t
    [] t = 102 -> Adv(<< <<"!node", Lit(12)>> >>)           \* \f
    [] t = 118 -> Adv(<< <<"!node", Lit(11)>> >>)           \* \v
    [] t = 97  -> Adv(<< <<"!node", Lit(7)>> >>)            \* \a
    [] t = 101 -> Adv(<< <<"!node", Lit(27)>> >>)           \* \e
    [] t = 100 -> Adv(<< <<"!node", ClassDigit>> >>)        \* \d
    [] t = 68  -> Adv(<< <<"!node", Neg(ClassDigit)>> >>)   \* \D
    [] t = 119 -> Adv(<< <<"!node", ClassWord>> >>)         \* \w
    [] t = 87  -> Adv(<< <<"!node", Neg(ClassWord)>> >>)    \* \W
    [] t = 115 -> Adv(<< <<"!node", ClassSpace>> >>)        \* \s
    [] t = 83  -> Adv(<< <<"!node", Neg(ClassSpace)>> >>)   \* \S
    [] t = 82  -> Adv(<< <<"!node", ClassBreak>> >>)        \* \R
    [] t = 78  -> Adv(<< <<"!node", Neg(ClassBreak)>> >>)   \* \N
    [] OTHER   -> Adv(<< <<"!lit">> >>)

\* Outside sets: anchors, references and hexadecimal codes.
Escape(t) ==
  CASE t = EOF -> Reject
    [] t = 98  -> Adv(<< <<"!node", Wb(FALSE)>>, <<"unq">> >>)   \* \b
    [] t = 66  -> Adv(<< <<"!node", Wb(TRUE)>>, <<"unq">> >>)    \* \B
    [] t = 65  -> Adv(<< <<"!node", Boi>>, <<"unq">> >>)         \* \A
    [] t = 90  -> Adv(<< <<"!node", Eoi>>, <<"unq">> >>)         \* \Z
    [] t \in Digit /\ t # 48 -> Adv(<< <<"refid", t - 48>> >>)
    [] t = 107 -> Adv(<< <<"expect", cLess>>, <<"refname0">> >>) \* \k
    [] t = 120 -> Adv(<< <<"hex", <<>>>> >>)                     \* \x
    [] OTHER   -> PlainEscape(t)

\* Inside sets anchors and references have no meaning, \b is a backspace.
SetEscape(t) ==
  CASE t = EOF -> Reject
    [] t = 98  -> Adv(<< <<"!node", Lit(8)>> >>)
    [] t = 120 -> Adv(<< <<"hex", <<>>>> >>)
    [] OTHER   -> PlainEscape(t)

ClassEscapes == {100, 68, 119, 87, 115, 83, 82, 78}

Rule(sym, t) ==
  LET k == sym[1] IN
  CASE k = "begin" ->
         IF t = EOF THEN Ignore
         ELSE IF IsAtomStart(t) THEN Adv(AtomRest(t) \o << <<"seq">>, <<"alt">> >>) ELSE Reject
    [] k = "seq" ->
         IF t \in {EOF, cRPar, cBar} THEN Ignore
         ELSE IF IsAtomStart(t) THEN Adv(AtomRest(t) \o << <<"!seq">>, <<"seq">> >>) ELSE Reject
    [] k = "alt" ->
         IF t \in {EOF, cRPar} THEN Ignore
         ELSE IF t = cBar THEN Adv(<< <<"altseq">>, <<"!alt">>, <<"alt">> >>) ELSE Reject
    [] k = "altseq" ->
         IF IsAtomStart(t) THEN Adv(AtomRest(t) \o << <<"seq">> >>) ELSE Reject
    [] k = "mod" ->
         CASE t = cStar  -> Adv(<< <<"qmod", 0, Inf>> >>)
           [] t = cPlus  -> Adv(<< <<"qmod", 1, Inf>> >>)
           [] t = cQuest -> Adv(<< <<"qmod", 0, 1>> >>)
           [] t = cLBrc  -> Adv(<< <<"qbegin">> >>)
           [] OTHER      -> Ignore
    [] k = "unq" -> IF t \in {cStar, cPlus, cQuest, cLBrc} THEN Reject ELSE Ignore
    [] k = "qbegin" ->
         IF t \in Digit THEN Adv(<< <<"qval", t - 48>> >>)
         ELSE Push(<< <<"!node", Lit(cLBrc)>>, <<"mod">>, <<"!seq">> >>)
    [] k = "qval" ->
         CASE t \in Digit -> Adv(<< <<"qval", 10 * sym[2] + t - 48>> >>)
           [] t = cRBrc   -> Adv(<< <<"qmod", sym[2], sym[2]>> >>)
           [] t = cComma  -> Adv(<< <<"qrange", sym[2], Inf>> >>)
           [] OTHER       -> Reject
    [] k = "qrange" ->
         CASE t \in Digit -> Adv(<< <<"qrange", sym[2], IF sym[3] = Inf THEN t - 48 ELSE 10 * sym[3] + t - 48>> >>)
           [] t = cRBrc   -> Adv(<< <<"qmod", sym[2], sym[3]>> >>)
           [] OTHER       -> Reject
    [] k = "qmod" ->
         CASE t = cQuest -> Adv(<< <<"!rep", "l", sym[2], sym[3]>> >>)
           [] t = cPlus  -> Adv(<< <<"!rep", "p", sym[2], sym[3]>> >>)
           [] OTHER      -> Push(<< <<"!rep", "g", sym[2], sym[3]>> >>)
    [] k = "expect" -> IF t = sym[2] THEN Adv(<<>>) ELSE Reject
    [] k = "group" ->
         CASE t = cQuest     -> Adv(<< <<"gmod">> >>)
           [] t = cRPar      -> Push(<< <<"!node", Empty>>, <<"!cap", <<>>>> >>)
           [] IsAtomStart(t) -> Adv(AtomRest(t) \o << <<"seq">>, <<"alt">>, <<"!cap", <<>>>> >>)
           [] OTHER          -> Reject
    [] k = "gmod" ->
         CASE t = cColon   -> Adv(<< <<"gbegin">> >>)
           [] t = cGreater -> Adv(<< <<"gbegin">>, <<"!rep", "p", 1, 1>> >>)
           [] t = cEq      -> Adv(<< <<"gbegin">>, <<"!look", "a", FALSE>> >>)
           [] t = cExcl    -> Adv(<< <<"gbegin">>, <<"!look", "a", TRUE>> >>)
           [] t = cLess    -> Adv(<< <<"gless">> >>)
           [] OTHER        -> Reject
    [] k = "gless" ->
         CASE t = cEq   -> Adv(<< <<"gbegin">>, <<"!look", "b", FALSE>> >>)
           [] t = cExcl -> Adv(<< <<"gbegin">>, <<"!look", "b", TRUE>> >>)
           [] Name0(t)  -> Adv(<< <<"capname", <<t>>>> >>)
           [] OTHER     -> Reject
    [] k = "capname" ->
         CASE t = cGreater -> Adv(<< <<"gbegin">>, <<"!cap", sym[2]>> >>)
           [] NameN(t)     -> Adv(<< <<"capname", Append(sym[2], t)>> >>)
           [] OTHER        -> Reject
    [] k = "gbegin" ->
         CASE t = cRPar      -> Push(<< <<"!node", Empty>> >>)
           [] IsAtomStart(t) -> Adv(AtomRest(t) \o << <<"seq">>, <<"alt">> >>)
           [] OTHER          -> Reject
    [] k = "esc" -> Escape(t)
    [] k = "refid" ->
         IF t \in Digit THEN Adv(<< <<"refid", 10 * sym[2] + t - 48>> >>)
         ELSE Push(<< <<"!node", Ref(sym[2])>> >>)
    [] k = "refname0" -> IF Name0(t) THEN Adv(<< <<"refname", <<t>>>> >>) ELSE Reject
    [] k = "refname" ->
         CASE t = cGreater -> Adv(<< <<"!node", NRef(sym[2])>> >>)
           [] NameN(t)     -> Adv(<< <<"refname", Append(sym[2], t)>> >>)
           [] OTHER        -> Reject
    [] k = "hex" ->
         IF Len(sym[2]) = 2 THEN Push(<< <<"!node", Lit(16 * sym[2][1] + sym[2][2])>> >>)
         ELSE IF t \in HexDigit THEN Adv(<< <<"hex", Append(sym[2], HexValue(t))>> >>) ELSE Reject
    [] k = "setneg" ->
         CASE t = EOF     -> Reject
           [] t = cCaret  -> Adv(<< <<"set0">>, <<"!neg">> >>)
           [] t = cRBrk   -> Ignore
           [] t = cBSlash -> Adv(<< <<"setesc">>, <<"!item">>, <<"setseq">> >>)
           [] OTHER       -> Adv(<< <<"!itemchar">>, <<"setseq">> >>)
    [] k = "set0" ->
         CASE t = EOF     -> Reject
           [] t = cRBrk   -> Ignore
           [] t = cBSlash -> Adv(<< <<"setesc">>, <<"!item">>, <<"setseq">> >>)
           [] OTHER       -> Adv(<< <<"!itemchar">>, <<"setseq">> >>)
    [] k = "setseq" ->
         CASE t = EOF     -> Reject
           [] t = cRBrk   -> Ignore
           [] t = cDash   -> Adv(<< <<"range0">>, <<"setseq">> >>)
           [] t = cBSlash -> Adv(<< <<"setesc">>, <<"!item">>, <<"setseq">> >>)
           [] OTHER       -> Adv(<< <<"!itemchar">>, <<"setseq">> >>)
    [] k = "setesc" -> SetEscape(t)
    [] k = "range0" ->
         CASE t = EOF     -> Reject
           [] t = cRBrk   -> Push(<< <<"!node", Lit(cDash)>>, <<"!item">> >>)
           [] t = cBSlash -> Adv(<< <<"rangeesc">>, <<"!range">>, <<"rangeseq">> >>)
           [] OTHER       -> Adv(<< <<"!lit">>, <<"!range">>, <<"rangeseq">> >>)
    [] k = "rangeesc" -> IF t \in ClassEscapes THEN Reject ELSE SetEscape(t)
    \* Right after a range a dash cannot start another one.
    [] k = "rangeseq" ->
         CASE t = EOF     -> Reject
           [] t = cRBrk   -> Ignore
           [] t = cBSlash -> Adv(<< <<"setesc">>, <<"!item">>, <<"setseq">> >>)
           [] OTHER       -> Adv(<< <<"!itemchar">>, <<"setseq">> >>)

-----------------------------------------------------------------------------
(* Semantic actions on the node stack (top first).                           *)
SeqItems(x) == IF x.t = "seq" THEN x.xs ELSE <<x>>
AltItems(x) == IF x.t = "alt" THEN x.xs ELSE <<x>>

Act(sym, nodes, last) ==
  LET k   == sym[1]
      top == nodes[1]
      r1  == SubSeq(nodes, 2, Len(nodes))
      r2  == SubSeq(nodes, 3, Len(nodes))
  IN CASE k = "!node" -> <<sym[2]>> \o nodes
       [] k = "!lit"  -> <<Lit(last)>> \o nodes
       [] k = "!seq"  -> <<SeqN(SeqItems(nodes[2]) \o SeqItems(top))>> \o r2
       [] k = "!alt"  -> <<AltN(AltItems(nodes[2]) \o <<top>>)>> \o r2
       [] k = "!cap"  -> <<Cap(0, sym[2], top)>> \o r1
       [] k = "!rep"  -> <<Rep(sym[2], sym[3], sym[4], top)>> \o r1
       [] k = "!look" -> <<Look(sym[2], sym[3], top)>> \o r1
       [] k = "!neg"  -> <<Neg(top)>> \o r1
       [] k = "!set"  -> <<SetOf(<<>>)>> \o nodes
       [] k = "!itemchar" -> <<SetOf(<<Lit(last)>> \o top.xs)>> \o r1
       [] k = "!item" -> <<SetOf(<<top>> \o nodes[2].xs)>> \o r2
       \* A literal before the dash makes a range, anything else makes the dash a literal.
       [] k = "!range" ->
            LET items == nodes[2].xs
            IN IF items[1].t = "lit"
               THEN <<SetOf(<<Rng(items[1].c, top.c)>> \o SubSeq(items, 2, Len(items)))>> \o r2
               ELSE <<SetOf(<<top, Lit(cDash)>> \o items)>> \o r2

IsAction(sym) == sym[1] \in {"!node", "!lit", "!seq", "!alt", "!cap", "!rep", "!look", "!neg",
                             "!set", "!itemchar", "!item", "!range"}

-----------------------------------------------------------------------------
(* Configurations. v is "more", "reject" or "accept".                        *)
InitCfg == [v |-> "more", stk |-> << <<"begin">> >>, nodes |-> <<>>, last |-> EOF]

RECURSIVE Work(_, _, _, _)
Work(stk, nodes, last, t) ==
  IF stk = <<>> THEN
     IF t = EOF THEN [v |-> "accept", stk |-> <<>>, nodes |-> nodes, last |-> last]
                ELSE [v |-> "reject", stk |-> <<>>, nodes |-> nodes, last |-> last]
  ELSE IF IsAction(Head(stk)) THEN Work(Tail(stk), Act(Head(stk), nodes, last), last, t)
  ELSE LET r == Rule(Head(stk), t)
       IN CASE r.a = "reject" -> [v |-> "reject", stk |-> <<>>, nodes |-> nodes, last |-> last]
            [] r.a = "push"   -> Work(r.s \o Tail(stk), nodes, last, t)
            [] r.a = "adv"    -> [v |-> "more", stk |-> r.s \o Tail(stk), nodes |-> nodes, last |-> t]

Feed(cfg, t) == Work(cfg.stk, cfg.nodes, cfg.last, t)

TreeOf(cfg) == IF cfg.nodes = <<>> THEN Empty ELSE Index(cfg.nodes[1], 1)

(* The verdict on a whole pattern: accepted with its tree, or rejected with  *)
(* the index (from 0) of the offending token.                                *)
RECURSIVE ParseFrom(_, _, _)
ParseFrom(pat, i, cfg) ==
  LET t   == IF i > Len(pat) THEN EOF ELSE pat[i]
      nxt == Feed(cfg, t)
  IN CASE nxt.v = "reject" -> [ok |-> FALSE, err |-> i - 1, ast |-> Empty]
       [] nxt.v = "accept" -> [ok |-> TRUE, err |-> 0, ast |-> TreeOf(nxt)]
       [] OTHER            -> ParseFrom(pat, i + 1, nxt)

Parse(pat) == ParseFrom(pat, 1, InitCfg)
=============================================================================
