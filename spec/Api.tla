-------------------------------- MODULE Api --------------------------------
(* The regex object and its methods as a user sees them.                     *)
(*                                                                           *)
(* A compiled regex is [ast, n, names, f]: the resolved tree, the number of  *)
(* capturing groups, their names, and the flags. Methods are operators from  *)
(* a regex and a text to a result [m, b, e, g]. Generators and lazy ranges   *)
(* are the only objects with a history: a generator is [k, s, p, a], the     *)
(* method it repeats, the text, the position it continues from and whether   *)
(* it is still active; a range is a generator together with its current      *)
(* result.                                                                   *)
EXTENDS Matcher, Grammar

\* Flags given as a sequence of names: order and repetition are immaterial.
FlagsOf(names) ==
  LET has(n) == \E i \in DOMAIN names : names[i] = n
  IN [icase |-> has("icase"), dotall |-> has("dotall"), multiline |-> has("multiline"),
      ungreedy |-> has("ungreedy"), unroll |-> has("unroll")]

Compile(ast, f) == [ast |-> Resolve(ast, f), n |-> CapCount(ast), names |-> CapNames(ast), f |-> f]

\* Where a group is empty its position means nothing.
Visible(r) ==
  [r EXCEPT !.g = [i \in DOMAIN r.g |-> IF r.g[i][1] = r.g[i][2] THEN NoSpan ELSE r.g[i]]]

Match(rx, s)       == Visible(MatchAt(Env(s, rx.f), rx.ast, rx.n, 0, TRUE))
MatchPrefix(rx, s) == Visible(MatchAt(Env(s, rx.f), rx.ast, rx.n, 0, FALSE))
Search(rx, s)      == Visible(SearchFrom(Env(s, rx.f), rx.ast, rx.n, 0))

\* The texts of the whole match and of every group.
TextOf(s, r) ==
  [i \in 1..(Len(r.g) + 1) |->
     IF ~r.m THEN <<>>
     ELSE IF i = 1 THEN SubSeq(s, r.b + 1, r.e) ELSE SubSeq(s, r.g[i - 1][1] + 1, r.g[i - 1][2])]

-----------------------------------------------------------------------------
(* Generators. k is "tok" (prefix matching) or "srch" (searching).           *)
NewGen(k, s) == [k |-> k, s |-> s, p |-> 0, a |-> TRUE]

\* One step of a generator: its result and its next state.
Step(rx, gen) ==
  IF ~gen.a THEN [r |-> NoMatch(rx.n), gen |-> gen]
  ELSE LET e == Env(gen.s, rx.f)
           r == IF gen.k = "tok" THEN MatchAt(e, rx.ast, rx.n, gen.p, FALSE)
                ELSE SearchFrom(e, rx.ast, rx.n, gen.p)
       IN [r   |-> Visible(r),
           gen |-> [gen EXCEPT !.a = r.m /\ r.b # r.e, !.p = IF r.m THEN r.e ELSE @]]

\* All matching results of a generator, in order.
RECURSIVE Results(_, _)
Results(rx, gen) ==
  LET st == Step(rx, gen)
  IN IF st.r.m THEN <<st.r>> \o Results(rx, st.gen) ELSE <<>>

\* A lazy range evaluates its first element at once.
NewRange(rx, k, s) == Step(rx, NewGen(k, s))
Advance(rx, range) == Step(rx, range.gen)
=============================================================================
