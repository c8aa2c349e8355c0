------------------------------- MODULE Denote -------------------------------
(* What a pattern means, without any matching strategy.                      *)
(*                                                                           *)
(* Ends lists every way of matching a node from a position, most preferred   *)
(* first, as pairs <<end, captures>>. It defines the priorities of choices   *)
(* and repetitions directly; nothing is ever retried. Spans forgets          *)
(* priorities, captures and strategies altogether and is the textbook        *)
(* relation between start and end positions of a regular expression.         *)
EXTENDS Matcher

RECURSIVE Ends(_, _, _, _, _)
RECURSIVE SeqEnds(_, _, _, _, _, _)
RECURSIVE RepEnds(_, _, _, _, _, _)
RECURSIVE PossEnd(_, _, _, _, _, _)
RECURSIVE Concat(_)

Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
Bind(list, f(_, _)) == Concat([i \in DOMAIN list |-> f(list[i][1], list[i][2])])
One(p, c) == << <<p, c>> >>

SeqEnds(e, xs, i, d, p, c) ==
  IF i > Len(xs) THEN One(p, c)
  ELSE LET x == IF d = "f" THEN xs[i] ELSE xs[Len(xs) + 1 - i]
           rest(q, cc) == SeqEnds(e, xs, i + 1, d, q, cc)
       IN Bind(Ends(e, x, d, p, c), rest)

\* Ways to complete a greedy or lazy repetition of which i iterations are done.
RepEnds(e, x, i, d, p, c) ==
  LET once == Ends(e, x.x, d, p, c)
      next(q, cc) == RepEnds(e, x, i + 1, d, q, cc)
      \* an optional iteration of an unbounded repetition has to make progress
      nonempty(q, cc) == IF q = p THEN <<>> ELSE RepEnds(e, x, x.lo, d, q, cc)
  IN IF i < x.lo THEN Bind(once, next)
     ELSE IF x.hi = i THEN One(p, c)
     ELSE LET more == IF x.hi = Inf THEN Bind(once, nonempty) ELSE Bind(once, next)
          IN IF x.m = "l" THEN One(p, c) \o more ELSE more \o One(p, c)

\* Where a possessive repetition ends that has i iterations done.
PossEnd(e, x, i, d, p, c) ==
  IF x.hi = i THEN One(p, c)
  ELSE LET once == Ends(e, x.x, d, p, c)
       IN IF once = <<>> \/ (x.hi = Inf /\ once[1][1] = p) THEN One(p, c)
          ELSE PossEnd(e, x, i + 1, d, once[1][1], once[1][2])

Ends(e, x, d, p, c) ==
  CASE x.t = "cs" ->
         IF d = "f" THEN IF p < e.n /\ e.s[p + 1] \in x.s THEN One(p + 1, c) ELSE <<>>
         ELSE IF p > 0 /\ e.s[p] \in x.s THEN One(p - 1, c) ELSE <<>>
    [] x.t = "empty" -> One(p, c)
    [] x.t = "seq" -> SeqEnds(e, x.xs, 1, d, p, c)
    [] x.t = "alt" -> Concat([i \in DOMAIN x.xs |-> Ends(e, x.xs[i], d, p, c)])
    [] x.t = "cap" ->
         LET set(q, cc) == One(q, [cc EXCEPT ![x.id] = IF d = "f" THEN <<p, q>> ELSE <<q, p>>])
         IN Bind(Ends(e, x.x, d, p, c), set)
    [] x.t = "rep" ->
         IF x.m # "p" THEN RepEnds(e, x, 0, d, p, c)
         ELSE LET must == IF x.lo = 0 THEN One(p, c) ELSE RepEnds(e, Rep("g", x.lo, x.lo, x.x), 0, d, p, c)
              IN IF must = <<>> THEN <<>> ELSE PossEnd(e, x, x.lo, d, must[1][1], must[1][2])
    [] x.t = "ref" ->
         LET len == c[x.id][2] - c[x.id][1]
             txt(from) == SubSeq(e.s, from + 1, from + len)
             alike(a, b2) == \A j \in 1..len : a[j] = b2[j] \/ (e.f.icase /\ a[j] = OtherCase(b2[j]))
             q == IF d = "f" THEN p + len ELSE p - len
         IN IF q \in 0..e.n /\ alike(txt(c[x.id][1]), txt(IF d = "f" THEN p ELSE q)) THEN One(q, c) ELSE <<>>
    [] x.t = "look" ->
         LET w == Ends(e, x.x, IF x.d = "a" THEN "f" ELSE "r", p, c)
         IN IF x.n THEN (IF w = <<>> THEN One(p, c) ELSE <<>>)
            ELSE (IF w = <<>> THEN <<>> ELSE One(p, w[1][2]))
    [] x.t = "bol" -> IF AtBol(e, p) THEN One(p, c) ELSE <<>>
    [] x.t = "eol" -> IF AtEol(e, p) THEN One(p, c) ELSE <<>>
    [] x.t = "boi" -> IF p = 0 THEN One(p, c) ELSE <<>>
    [] x.t = "eoi" -> IF p = e.n THEN One(p, c) ELSE <<>>
    [] x.t = "wb"  -> IF AtWb(e, p) # x.n THEN One(p, c) ELSE <<>>

\* The first way that ends where required.
RECURSIVE FirstAt(_, _, _)
FirstAt(list, full, n) ==
  IF list = <<>> THEN Fail
  ELSE IF ~full \/ list[1][1] = n THEN Success(list[1][1], list[1][2])
  ELSE FirstAt(Tail(list), full, n)

DenoteAt(e, x, g, p, full) ==
  LET r == FirstAt(Ends(e, x, "f", p, NoCaps(g)), full, e.n)
  IN IF r.ok THEN Found(p, r) ELSE NoMatch(g)

-----------------------------------------------------------------------------
(* The relation between start and end positions. Defined for trees without   *)
(* references, atomic groups and possessive repetitions.                     *)
RECURSIVE Regular(_)
Regular(x) ==
  CASE x.t \in {"seq", "alt"} -> \A i \in DOMAIN x.xs : Regular(x.xs[i])
    [] x.t = "rep"            -> x.m # "p" /\ Regular(x.x)
    [] x.t \in {"cap", "look"} -> Regular(x.x)
    [] x.t = "ref"            -> FALSE
    [] OTHER                  -> TRUE

Join(r1, r2) == {<<ab[1][1], ab[2][2]>> : ab \in {xy \in r1 \X r2 : xy[1][2] = xy[2][1]}}
Identity(n) == {<<p, p>> : p \in 0..n}

RECURSIVE Power(_, _, _)
Power(r, k, n) == IF k = 0 THEN Identity(n) ELSE Join(r, Power(r, k - 1, n))
RECURSIVE Closure(_, _)
Closure(r, n) == LET r2 == r \cup Join(r, r) IN IF r2 = r THEN r ELSE Closure(r2, n)

RECURSIVE Spans(_, _)
RECURSIVE SeqSpans(_, _, _)
SeqSpans(e, xs, i) == IF i > Len(xs) THEN Identity(e.n) ELSE Join(Spans(e, xs[i]), SeqSpans(e, xs, i + 1))
Spans(e, x) ==
  CASE x.t = "cs"    -> {<<p, p + 1>> : p \in {q \in 0..(e.n - 1) : e.s[q + 1] \in x.s}}
    [] x.t = "empty" -> Identity(e.n)
    [] x.t = "seq"   -> SeqSpans(e, x.xs, 1)
    [] x.t = "alt"   -> UNION {Spans(e, x.xs[i]) : i \in DOMAIN x.xs}
    [] x.t = "cap"   -> Spans(e, x.x)
    [] x.t = "rep"   ->
         LET r == Spans(e, x.x)
             must == Power(r, x.lo, e.n)
         IN IF x.hi = Inf THEN Join(must, Closure(r \cup Identity(e.n), e.n))
            ELSE Join(must, Power(r \cup Identity(e.n), x.hi - x.lo, e.n))
    [] x.t = "look"  ->
         LET r == Spans(e, x.x)
             holds(p) == IF x.d = "a" THEN \E q \in p..e.n : <<p, q>> \in r ELSE \E q \in 0..p : <<q, p>> \in r
         IN {<<p, p>> : p \in {q \in 0..e.n : holds(q) # x.n}}
    [] x.t = "bol" -> {<<p, p>> : p \in {q \in 0..e.n : AtBol(e, q)}}
    [] x.t = "eol" -> {<<p, p>> : p \in {q \in 0..e.n : AtEol(e, q)}}
    [] x.t = "boi" -> {<<0, 0>>}
    [] x.t = "eoi" -> {<<e.n, e.n>>}
    [] x.t = "wb"  -> {<<p, p>> : p \in {q \in 0..e.n : AtWb(e, q) # x.n}}
=============================================================================
