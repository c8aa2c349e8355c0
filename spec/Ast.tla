-------------------------------- MODULE Ast --------------------------------
(* Abstract syntax of regular expressions.                                   *)
(*                                                                           *)
(* A node is a record with a tag t:                                          *)
(*   empty                       matches the empty text                      *)
(*   lit c | rng a b | set xs | neg x | any     consume one character        *)
(*   cs s                        one character out of the set s (resolved)   *)
(*   seq xs | alt xs             concatenation, ordered choice               *)
(*   cap id name x               capturing group; name is <<>> if unnamed    *)
(*   rep m lo hi x               m in {"g","l","p"} greedy, lazy, possessive;*)
(*                               hi = Inf if unbounded; an atomic group is   *)
(*                               the possessive repetition {1,1}             *)
(*   ref id | nref name          backreferences                              *)
(*   look d n x                  d in {"a","b"} ahead, behind; n: negated    *)
(*   bol | eol | boi | eoi       anchors                                     *)
(*   wb n                        word boundary; n: negated                   *)
EXTENDS Integers, Sequences, FiniteSets, Chars

Inf == -1

Empty          == [t |-> "empty"]
Lit(c)         == [t |-> "lit", c |-> c]
Rng(a, b)      == [t |-> "rng", a |-> a, b |-> b]
SetOf(xs)      == [t |-> "set", xs |-> xs]
Neg(x)         == [t |-> "neg", x |-> x]
AnyCh          == [t |-> "any"]
Cs(s)          == [t |-> "cs", s |-> s]
SeqN(xs)       == [t |-> "seq", xs |-> xs]
AltN(xs)       == [t |-> "alt", xs |-> xs]
Cap(id, nm, x) == [t |-> "cap", id |-> id, name |-> nm, x |-> x]
Rep(m, lo, hi, x) == [t |-> "rep", m |-> m, lo |-> lo, hi |-> hi, x |-> x]
Atomic(x)      == Rep("p", 1, 1, x)
Ref(id)        == [t |-> "ref", id |-> id]
NRef(nm)       == [t |-> "nref", name |-> nm]
Look(d, n, x)  == [t |-> "look", d |-> d, n |-> n, x |-> x]
Bol            == [t |-> "bol"]
Eol            == [t |-> "eol"]
Boi            == [t |-> "boi"]
Eoi            == [t |-> "eoi"]
Wb(n)          == [t |-> "wb", n |-> n]

ClassDigit == Rng(48, 57)
ClassWord  == SetOf(<<Rng(97, 122), Rng(65, 90), Rng(48, 57), Lit(95)>>)
ClassBreak == SetOf(<<Lit(10), Lit(13)>>)
ClassSpace == SetOf(<<Lit(10), Lit(13), Lit(32), Lit(9), Lit(11), Lit(12)>>)

CharTags == {"lit", "rng", "set", "neg", "any", "cs"}
IsChar(x) == x.t \in CharTags

\* Flags are a record of booleans.
NoFlags == [icase |-> FALSE, dotall |-> FALSE, multiline |-> FALSE, ungreedy |-> FALSE, unroll |-> FALSE]

-----------------------------------------------------------------------------
(* The set of bytes a one-character node accepts under flags f.              *)
RECURSIVE CharSet(_, _)
CharSet(x, f) ==
  LET fold(s) == IF f.icase THEN s \cup {OtherCase(c) : c \in s} ELSE s
  IN CASE x.t = "lit" -> fold({x.c})
       [] x.t = "rng" -> fold(x.a .. x.b)
       [] x.t = "set" -> UNION {CharSet(x.xs[i], f) : i \in DOMAIN x.xs}
       [] x.t = "neg" -> Byte \ CharSet(x.x, f)
       [] x.t = "any" -> IF f.dotall THEN Byte ELSE Byte \ LineBreak
       [] x.t = "cs"  -> x.s

-----------------------------------------------------------------------------
(* Capturing groups.                                                         *)
RECURSIVE CapCount(_)
RECURSIVE SumCaps(_, _)
SumCaps(xs, n) == IF n = 0 THEN 0 ELSE SumCaps(xs, n - 1) + CapCount(xs[n])
CapCount(x) ==
  CASE x.t \in {"seq", "alt"}         -> SumCaps(x.xs, Len(x.xs))
    [] x.t = "cap"                    -> 1 + CapCount(x.x)
    [] x.t \in {"rep", "look"}        -> CapCount(x.x)
    [] OTHER                          -> 0

\* Numbers the groups in the order of their opening parenthesis, first number o.
RECURSIVE Index(_, _)
Index(x, o) ==
  CASE x.t \in {"seq", "alt"} ->
         [x EXCEPT !.xs = [i \in DOMAIN x.xs |-> Index(x.xs[i], o + SumCaps(x.xs, i - 1))]]
    [] x.t = "cap"             -> Cap(o, x.name, Index(x.x, o + 1))
    [] x.t \in {"rep", "look"} -> [x EXCEPT !.x = Index(x.x, o)]
    [] OTHER                   -> x

\* Group names in group order (<<>> for an unnamed group).
RECURSIVE CapNames(_)
RECURSIVE CatNames(_, _)
CatNames(xs, n) == IF n = 0 THEN <<>> ELSE CatNames(xs, n - 1) \o CapNames(xs[n])
CapNames(x) ==
  CASE x.t \in {"seq", "alt"}  -> CatNames(x.xs, Len(x.xs))
    [] x.t = "cap"             -> <<x.name>> \o CapNames(x.x)
    [] x.t \in {"rep", "look"} -> CapNames(x.x)
    [] OTHER                   -> <<>>

-----------------------------------------------------------------------------
(* Well-formedness: what the parser accepts but has no meaning.              *)
RECURSIVE WellFormedIn(_, _)
WellFormedIn(x, names) ==
  CASE x.t = "rng"            -> x.a <= x.b
    [] x.t \in {"seq", "alt"} -> \A i \in DOMAIN x.xs : WellFormedIn(x.xs[i], names)
    [] x.t = "set"            -> \A i \in DOMAIN x.xs : WellFormedIn(x.xs[i], names)
    [] x.t \in {"neg", "cap", "look"} -> WellFormedIn(x.x, names)
    [] x.t = "rep"            -> (x.hi = Inf \/ x.lo <= x.hi) /\ WellFormedIn(x.x, names)
    [] x.t = "ref"            -> x.id \in 1..Len(names)
    [] x.t = "nref"           -> Cardinality({i \in DOMAIN names : names[i] = x.name}) = 1
    [] OTHER                  -> TRUE
WellFormed(x) == WellFormedIn(x, CapNames(x))

-----------------------------------------------------------------------------
(* Resolution under flags: every one-character node becomes the set of bytes *)
(* it accepts, a named reference the number of its group, and the ungreedy   *)
(* flag swaps the modes.                                                     *)
RECURSIVE ResolveIn(_, _, _)
ResolveIn(x, f, names) ==
  IF IsChar(x) THEN Cs(CharSet(x, f))
  ELSE CASE x.t \in {"seq", "alt"} ->
              [x EXCEPT !.xs = [i \in DOMAIN x.xs |-> ResolveIn(x.xs[i], f, names)]]
         [] x.t \in {"cap", "look"} -> [x EXCEPT !.x = ResolveIn(x.x, f, names)]
         [] x.t = "rep" ->
              [x EXCEPT !.x = ResolveIn(x.x, f, names),
                        !.m = IF f.ungreedy /\ @ = "g" THEN "l"
                              ELSE IF f.ungreedy /\ @ = "l" THEN "g" ELSE @]
         [] x.t = "nref" -> Ref(CHOOSE i \in DOMAIN names : names[i] = x.name)
         [] OTHER -> x
Resolve(x, f) == ResolveIn(x, f, CapNames(x))

-----------------------------------------------------------------------------
(* Normal form for comparing structures: nested concatenations and choices   *)
(* are flattened, one-character nodes are the set of bytes they accept, and  *)
(* repetitions that cannot be told from their body disappear.                *)
RECURSIVE Flat(_, _)
Flat(tag, xs) ==
  IF xs = <<>> THEN <<>>
  ELSE (IF Head(xs).t = tag THEN Head(xs).xs ELSE <<Head(xs)>>) \o Flat(tag, Tail(xs))

RECURSIVE Normal(_)
Normal(x) ==
  IF IsChar(x) THEN Cs(CharSet(x, NoFlags))
  ELSE CASE x.t = "seq" ->
              LET ys == Flat("seq", [i \in DOMAIN x.xs |-> Normal(x.xs[i])])
              IN IF Len(ys) = 1 THEN ys[1] ELSE SeqN(ys)
         [] x.t = "alt" ->
              LET ys == Flat("alt", [i \in DOMAIN x.xs |-> Normal(x.xs[i])])
              IN IF Len(ys) = 1 THEN ys[1]
                 ELSE IF \A i \in DOMAIN ys : ys[i].t = "cs"
                      THEN Cs(UNION {ys[i].s : i \in DOMAIN ys}) ELSE AltN(ys)
         [] x.t \in {"cap", "look"} -> [x EXCEPT !.x = Normal(x.x)]
         [] x.t = "rep" ->
              LET y == Normal(x.x)
              IN IF x.lo = 0 /\ x.hi = 0 THEN Empty
                 ELSE IF x.lo = 1 /\ x.hi = 1 /\ (x.m # "p" \/ y.t = "cs") THEN y
                 ELSE [x EXCEPT !.x = y, !.m = IF x.lo = x.hi /\ x.m = "l" THEN "g" ELSE x.m]
         [] OTHER -> x
=============================================================================
