-------------------------------- MODULE Xpr --------------------------------
(* Expressions: regexes composed from components instead of a pattern. An    *)
(* expression is a record with the component's name in op and its arguments. *)
EXTENDS Grammar

Pack(xs) == IF Len(xs) = 1 THEN xs[1] ELSE SeqN(xs)

\* A choice between single characters can be negated like a set.
RECURSIVE AsChar(_)
AsChar(x) ==
  CASE x.t = "alt" -> SetOf([i \in DOMAIN x.xs |-> AsChar(x.xs[i])])
    [] x.t = "rep" -> AsChar(x.x)
    [] OTHER -> x

RECURSIVE XprTree(_)
XprTree(x) ==
  LET args == [i \in DOMAIN x.a |-> XprTree(x.a[i])]
      op   == x.op
  IN CASE op = "concat"  -> IF args = <<>> THEN Empty ELSE Pack(args)
       [] op = "either"  -> IF Len(args) = 1 THEN args[1] ELSE AltN(args)
       [] op = "atomic"  -> Atomic(Pack(args))
       [] op = "capture" -> Cap(x.id, x.name, Pack(args))
       [] op = "rep"     -> Rep(x.m, x.lo, x.hi, Pack(args))
       [] op = "ahead"   -> Look("a", FALSE, Pack(args))
       [] op = "behind"  -> Look("b", FALSE, Pack(args))
       [] op = "negate"  ->
            (CASE args[1].t = "look" -> [args[1] EXCEPT !.n = ~@]
               [] args[1].t = "wb"   -> [args[1] EXCEPT !.n = ~@]
               [] args[1].t \in {"bol", "eol", "boi", "eoi"} -> Look("a", TRUE, args[1])
               [] OTHER -> Neg(AsChar(args[1])))
       [] op = "chr"     -> Lit(x.c)
       [] op = "str"     -> Pack([i \in DOMAIN x.s |-> Lit(x.s[i])])
       [] op = "range"   -> Rng(x.lo, x.hi)
       [] op = "group"   -> Ref(x.id)
       [] op = "named"   -> NRef(x.name)
       [] op = "regex"   -> Parse(x.pat).ast
       [] op = "empty"   -> Empty
       [] op = "nothing" -> SetOf(<<>>)
       [] op = "begin_line"  -> Bol
       [] op = "end_line"    -> Eol
       [] op = "begin_input" -> Boi
       [] op = "end_input"   -> Eoi
       [] op = "word_boundary" -> Wb(FALSE)
       [] op = "wildcard" -> AnyCh
       [] op = "lower"   -> Rng(97, 122)
       [] op = "upper"   -> Rng(65, 90)
       [] op = "digit"   -> ClassDigit
       [] op = "word"    -> ClassWord
       [] op = "whitespace" -> ClassSpace
       [] op = "linebreak"  -> ClassBreak
=============================================================================
