------------------------------- MODULE Syntax -------------------------------
(* The documented pattern syntax, written as a recursive description of      *)
(* patterns and independent of the push-down automaton in Grammar:           *)
(*                                                                           *)
(*   Pattern     ::= (nothing) | Choice                                      *)
(*   Choice      ::= Sequence ('|' Sequence)*                                *)
(*   Sequence    ::= Item+                                                   *)
(*   Item        ::= Anchor | Atom Quantifier? | Atom Brace                  *)
(*   Brace       ::= '{' not followed by a digit, an Atom of its own         *)
(*   Quantifier  ::= ('*' | '+' | '?' | '{' n '}' | '{' n ',' m? '}') ('?' | '+')? *)
(*   Atom        ::= '.' | Set | Group | Escape | any other character        *)
(*                                                                           *)
(* Every operator takes the pattern p and an index i (from 1) and returns    *)
(* [ok, i, x]: whether the construct was found at i, the index after it, and *)
(* the node (or sequence of nodes) it denotes.                               *)
EXTENDS Ast

At(p, i) == IF i <= Len(p) THEN p[i] ELSE -1
Yes(i, x) == [ok |-> TRUE, i |-> i, x |-> x]
No == [ok |-> FALSE, i |-> 0, x |-> Empty]
NoSeq == [ok |-> FALSE, i |-> 0, x |-> <<>>]

\* A run of characters of class s starting at i: the index after it.
RECURSIVE SpanEnd(_, _, _)
SpanEnd(p, i, s) == IF At(p, i) \in s THEN SpanEnd(p, i + 1, s) ELSE i

RECURSIVE Decimal(_, _, _)
Decimal(p, i, j) == IF i = j THEN 0 ELSE 10 * Decimal(p, i, j - 1) + p[j - 1] - 48

-----------------------------------------------------------------------------
(* Quantifiers.                                                              *)
Bounds(p, i) ==
  LET c == At(p, i) IN
  CASE c = cStar  -> [ok |-> TRUE, i |-> i + 1, lo |-> 0, hi |-> Inf]
    [] c = cPlus  -> [ok |-> TRUE, i |-> i + 1, lo |-> 1, hi |-> Inf]
    [] c = cQuest -> [ok |-> TRUE, i |-> i + 1, lo |-> 0, hi |-> 1]
    [] OTHER ->
         LET j  == SpanEnd(p, i + 1, Digit)
             n  == Decimal(p, i + 1, j)
             j2 == SpanEnd(p, j + 1, Digit)
         IN IF At(p, j) = cRBrc THEN [ok |-> TRUE, i |-> j + 1, lo |-> n, hi |-> n]
            ELSE IF At(p, j) = cComma /\ At(p, j2) = cRBrc
                 THEN [ok |-> TRUE, i |-> j2 + 1, lo |-> n,
                       hi |-> IF j2 = j + 1 THEN Inf ELSE Decimal(p, j + 1, j2)]
            ELSE [ok |-> FALSE, i |-> 0, lo |-> 0, hi |-> 0]

IsBrace(p, i) == At(p, i) = cLBrc /\ At(p, i + 1) \notin Digit
StartsQuantifier(p, i) == At(p, i) \in {cStar, cPlus, cQuest, cLBrc} /\ ~IsBrace(p, i)

Quantified(p, i, x) ==
  LET b == Bounds(p, i) IN
  IF ~b.ok THEN No
  ELSE CASE At(p, b.i) = cQuest -> Yes(b.i + 1, Rep("l", b.lo, b.hi, x))
         [] At(p, b.i) = cPlus  -> Yes(b.i + 1, Rep("p", b.lo, b.hi, x))
         [] OTHER               -> Yes(b.i, Rep("g", b.lo, b.hi, x))

-----------------------------------------------------------------------------
(* Escapes; i is the index after the backslash.                              *)
Hex(p, i) ==
  IF At(p, i) \in HexDigit /\ At(p, i + 1) \in HexDigit
  THEN Yes(i + 2, Lit(16 * HexValue(p[i]) + HexValue(p[i + 1]))) ELSE No

Classes == <<  <<100, ClassDigit>>, <<119, ClassWord>>, <<115, ClassSpace>>, <<82, ClassBreak>>,
               <<68, Neg(ClassDigit)>>, <<87, Neg(ClassWord)>>, <<83, Neg(ClassSpace)>>, <<78, Neg(ClassBreak)>> >>
Controls == << <<48, 0>>, <<110, 10>>, <<114, 13>>, <<116, 9>>, <<102, 12>>, <<118, 11>>, <<97, 7>>, <<101, 27>> >>
IsClass(c)   == \E k \in DOMAIN Classes : Classes[k][1] = c
ClassOf(c)   == Classes[CHOOSE k \in DOMAIN Classes : Classes[k][1] = c][2]
IsControl(c) == \E k \in DOMAIN Controls : Controls[k][1] = c
CharOf(c)    == IF IsControl(c) THEN Controls[CHOOSE k \in DOMAIN Controls : Controls[k][1] = c][2] ELSE c

Named(p, i, close) ==   \* a name and the character that ends it
  IF At(p, i) \in WordChar \ Digit
  THEN LET j == SpanEnd(p, i, WordChar)
       IN IF At(p, j) = close THEN Yes(j + 1, SubSeq(p, i, j - 1)) ELSE NoSeq
  ELSE NoSeq

\* [ok, i, x, q]: q tells whether a quantifier may follow.
WithQ(r, q) == [ok |-> r.ok, i |-> r.i, x |-> r.x, q |-> q]
EscapeAt(p, i) ==
  LET c == At(p, i) IN
  CASE c = -1  -> WithQ(No, FALSE)
    [] c = 98  -> WithQ(Yes(i + 1, Wb(FALSE)), FALSE)
    [] c = 66  -> WithQ(Yes(i + 1, Wb(TRUE)), FALSE)
    [] c = 65  -> WithQ(Yes(i + 1, Boi), FALSE)
    [] c = 90  -> WithQ(Yes(i + 1, Eoi), FALSE)
    [] c = 120 -> WithQ(Hex(p, i + 1), TRUE)
    [] c = 107 -> IF At(p, i + 1) # cLess THEN WithQ(No, TRUE)
                  ELSE LET r == Named(p, i + 2, cGreater)
                       IN IF r.ok THEN WithQ(Yes(r.i, NRef(r.x)), TRUE) ELSE WithQ(No, TRUE)
    [] c \in Digit \ {48} ->
         LET j == SpanEnd(p, i, Digit) IN WithQ(Yes(j, Ref(Decimal(p, i, j))), TRUE)
    [] IsClass(c) -> WithQ(Yes(i + 1, ClassOf(c)), TRUE)
    [] OTHER -> WithQ(Yes(i + 1, Lit(CharOf(c))), TRUE)

-----------------------------------------------------------------------------
(* Sets. An element is a character, an escaped character or a class; two     *)
(* characters joined by a dash are a range.                                  *)
Element(p, i) ==
  CASE At(p, i) = -1 -> No
    [] At(p, i) = cBSlash ->
         (CASE At(p, i + 1) = -1  -> No
            [] At(p, i + 1) = 98  -> Yes(i + 2, Lit(8))
            [] At(p, i + 1) = 120 -> Hex(p, i + 2)
            [] IsClass(At(p, i + 1)) -> Yes(i + 2, ClassOf(p[i + 1]))
            [] OTHER -> Yes(i + 2, Lit(CharOf(p[i + 1]))))
    [] OTHER -> Yes(i + 1, Lit(p[i]))

\* Elements from i up to the closing bracket. A dash between an element and another one makes a range if the
\* first is a character; after a class it stands for itself, but still needs a character to follow.
RECURSIVE Elements(_, _)
RECURSIVE AfterElement(_, _, _)
\* What follows element a, which ends before i: a range, or the next element.
AfterElement(p, i, a) ==
  IF At(p, i) = cDash /\ At(p, i + 1) # cRBrk
  THEN LET b == Element(p, i + 1) IN
       IF ~b.ok \/ b.x.t # "lit" THEN NoSeq
       ELSE LET rest == Elements(p, b.i)
                here == IF a.t = "lit" THEN <<Rng(a.c, b.x.c)>> ELSE <<a, Lit(cDash), b.x>>
            IN IF rest.ok THEN Yes(rest.i, here \o rest.x) ELSE NoSeq
  ELSE IF At(p, i) = cRBrk THEN Yes(i + 1, <<a>>)
  ELSE LET b == Element(p, i)
           rest == IF b.ok THEN AfterElement(p, b.i, b.x) ELSE NoSeq
       IN IF rest.ok THEN Yes(rest.i, <<a>> \o rest.x) ELSE NoSeq
\* A dash at the very beginning or right after a range is an element.
Elements(p, i) ==
  IF At(p, i) = cRBrk THEN Yes(i + 1, <<>>)
  ELSE LET a == Element(p, i) IN IF a.ok THEN AfterElement(p, a.i, a.x) ELSE NoSeq

SetAt(p, i) ==          \* i is the index after the opening bracket
  LET negated == At(p, i) = cCaret
      r == Elements(p, IF negated THEN i + 1 ELSE i)
  IN IF ~r.ok THEN No ELSE Yes(r.i, IF negated THEN Neg(SetOf(r.x)) ELSE SetOf(r.x))

-----------------------------------------------------------------------------
(* Groups, items, sequences, choices.                                        *)
RECURSIVE Choice(_, _)
RECURSIVE Sequence(_, _)

\* The content of a group from i and its closing parenthesis; nothing at all is allowed.
Body(p, i) ==
  IF At(p, i) = cRPar THEN Yes(i + 1, Empty)
  ELSE LET r == Choice(p, i)
       IN IF r.ok /\ At(p, r.i) = cRPar THEN Yes(r.i + 1, r.x) ELSE No

Over(r, f(_)) == IF r.ok THEN Yes(r.i, f(r.x)) ELSE No

GroupAt(p, i) ==        \* i is the index after the opening parenthesis
  IF At(p, i) # cQuest THEN LET f(x) == Cap(0, <<>>, x) IN Over(Body(p, i), f)
  ELSE LET c == At(p, i + 1)
           d == At(p, i + 2)
           ahead(x)  == Look("a", FALSE, x)
           nahead(x) == Look("a", TRUE, x)
           behind(x) == Look("b", FALSE, x)
           nbehind(x) == Look("b", TRUE, x)
       IN CASE c = cColon   -> Body(p, i + 2)
            [] c = cGreater -> Over(Body(p, i + 2), Atomic)
            [] c = cEq      -> Over(Body(p, i + 2), ahead)
            [] c = cExcl    -> Over(Body(p, i + 2), nahead)
            [] c = cLess /\ d = cEq   -> Over(Body(p, i + 3), behind)
            [] c = cLess /\ d = cExcl -> Over(Body(p, i + 3), nbehind)
            [] c = cLess -> LET nm == Named(p, i + 2, cGreater)
                                f(x) == Cap(0, nm.x, x)
                            IN IF nm.ok THEN Over(Body(p, nm.i), f) ELSE No
            [] OTHER -> No

\* An atom or anchor at i, and whether it can be quantified.
AtomAt(p, i) ==
  LET c == At(p, i) IN
  CASE c \in {-1, cRPar, cStar, cPlus, cQuest, cLBrc, cBar} -> WithQ(No, FALSE)
    [] c = cLBrk   -> WithQ(SetAt(p, i + 1), TRUE)
    [] c = cLPar   -> WithQ(GroupAt(p, i + 1), TRUE)
    [] c = cBSlash -> EscapeAt(p, i + 1)
    [] c = cDot    -> WithQ(Yes(i + 1, AnyCh), TRUE)
    [] c = cCaret  -> WithQ(Yes(i + 1, Bol), FALSE)
    [] c = cDollar -> WithQ(Yes(i + 1, Eol), FALSE)
    [] OTHER       -> WithQ(Yes(i + 1, Lit(c)), TRUE)

\* The nodes of one item: an anchor, an atom with its quantifier, or an atom followed by literal braces. The last
\* of the braces can be quantified like any atom.
RECURSIVE Finish(_, _, _)
Finish(p, i, x) ==
  IF StartsQuantifier(p, i) THEN LET r == Quantified(p, i, x) IN IF r.ok THEN Yes(r.i, <<r.x>>) ELSE NoSeq
  ELSE IF IsBrace(p, i)
  THEN LET r == Finish(p, i + 1, Lit(cLBrc)) IN IF r.ok THEN Yes(r.i, <<x>> \o r.x) ELSE NoSeq
  ELSE Yes(i, <<x>>)

ItemAt(p, i) ==
  LET a == AtomAt(p, i) IN
  IF ~a.ok THEN NoSeq
  ELSE IF a.q THEN Finish(p, a.i, a.x)
  ELSE IF At(p, a.i) \in {cStar, cPlus, cQuest, cLBrc} THEN NoSeq
  ELSE Yes(a.i, <<a.x>>)

EndOfSequence(p, i) == At(p, i) \in {-1, cRPar, cBar}

Sequence(p, i) ==       \* one or more items: their nodes
  LET a == ItemAt(p, i) IN
  IF ~a.ok THEN NoSeq
  ELSE IF EndOfSequence(p, a.i) THEN a
  ELSE LET rest == Sequence(p, a.i) IN IF rest.ok THEN Yes(rest.i, a.x \o rest.x) ELSE NoSeq

One(xs) == IF Len(xs) = 1 THEN xs[1] ELSE SeqN(xs)

RECURSIVE Alternatives(_, _)
Alternatives(p, i) ==
  LET a == Sequence(p, i) IN
  IF ~a.ok THEN NoSeq
  ELSE IF At(p, a.i) # cBar THEN Yes(a.i, <<One(a.x)>>)
  ELSE LET rest == Alternatives(p, a.i + 1)
       IN IF rest.ok THEN Yes(rest.i, <<One(a.x)>> \o rest.x) ELSE NoSeq

Choice(p, i) ==
  LET r == Alternatives(p, i)
  IN IF ~r.ok THEN No ELSE Yes(r.i, IF Len(r.x) = 1 THEN r.x[1] ELSE AltN(r.x))

\* A whole pattern.
Describe(p) ==
  IF p = <<>> THEN [ok |-> TRUE, ast |-> Empty]
  ELSE LET r == Choice(p, 1)
       IN IF r.ok /\ r.i = Len(p) + 1 THEN [ok |-> TRUE, ast |-> Index(r.x, 1)]
          ELSE [ok |-> FALSE, ast |-> Empty]
=============================================================================
