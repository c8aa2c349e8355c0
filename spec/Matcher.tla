------------------------------ MODULE Matcher ------------------------------
(* Big-step backtracking semantics of a resolved syntax tree.                *)
(*                                                                           *)
(* Positions are gaps 0..n between the characters of the input. The goals    *)
(* still to be met are a list of frames <<frame, rest>>, captures are a      *)
(* function from group numbers to spans <<begin, end>>, <<0,0>> if nothing   *)
(* was captured. Run tries the goals in priority order and returns the first *)
(* success, with the captures of the successful path only.                   *)
(*                                                                           *)
(* Direction "f" matches left to right. Direction "r" matches right to left  *)
(* and is used for lookbehinds: elements of a sequence are then met last to  *)
(* first, everything else refers to absolute positions.                      *)
EXTENDS Ast

NoSpan == <<0, 0>>
NoCaps(n) == [i \in 1..n |-> NoSpan]

Fail == [ok |-> FALSE, p |-> 0, c |-> <<>>]
Success(p, c) == [ok |-> TRUE, p |-> p, c |-> c]

\* Environment of a call: the input text, its length and the flags.
Env(s, f) == [s |-> s, n |-> Len(s), f |-> f]

BreakAt(e, i) == e.s[i] \in LineBreak
AtBol(e, p) == p = 0   \/ (e.f.multiline /\ BreakAt(e, p))
AtEol(e, p) == p = e.n \/ (e.f.multiline /\ BreakAt(e, p + 1))
AtWb(e, p) ==
  LET behind == p > 0   /\ e.s[p] \in WordChar
      ahead  == p < e.n /\ e.s[p + 1] \in WordChar
  IN behind # ahead

SameChar(e, a, b) == a = b \/ (e.f.icase /\ OtherCase(a) = b)

\* Frames.
X(x, d)               == <<"x", x, d>>            \* match node x
S(xs, i, d)           == <<"s", xs, i, d>>        \* the i-th and later elements of a sequence, in order of direction
C(id, p, d)           == <<"c", id, p, d>>        \* close group id opened at p
L(x, i, d)            == <<"l", x, i, d>>         \* repetition x, i iterations done
N(x, i, d, p)         == <<"n", x, i, d, p>>      \* as L, but the iteration since p must not be empty
E                     == <<"e">>                  \* the whole input must be consumed

\* The number of characters of cs next to p in direction d, at most max; counted in blocks, since texts may be long.
Block == 256
RECURSIVE RunLen(_, _, _, _, _)
RunLen(e, cs, p, d, max) ==
  LET room == IF d = "f" THEN e.n - p ELSE p
      m0   == IF room < Block THEN room ELSE Block
      m    == IF max < m0 THEN max ELSE m0
      At(j) == IF d = "f" THEN e.s[p + j] ELSE e.s[p + 1 - j]
      out  == {j \in 1..m : At(j) \notin cs}
  IN IF out # {} THEN (CHOOSE j \in out : \A i \in out : j <= i) - 1
     ELSE IF m < Block THEN m
     ELSE m + RunLen(e, cs, IF d = "f" THEN p + m ELSE p - m, d, max - m)

RECURSIVE Run(_, _, _, _)
RECURSIVE TryCounts(_, _, _, _, _, _, _, _)
RECURSIVE TryAlts(_, _, _, _, _, _, _)
RECURSIVE PossLoop(_, _, _, _, _, _)

\* Tries alternatives i, i+1, ... of xs in order.
TryAlts(e, xs, i, d, k, p, c) ==
  IF i = Len(xs) THEN Run(e, <<X(xs[i], d), k>>, p, c)
  ELSE LET r == Run(e, <<X(xs[i], d), k>>, p, c)
       IN IF r.ok THEN r ELSE TryAlts(e, xs, i + 1, d, k, p, c)

\* The optional iterations of a possessive repetition: as many as possible, each its own first match.
PossLoop(e, x, i, d, p, c) ==
  IF x.hi # Inf /\ i = x.hi THEN Success(p, c)
  ELSE LET r == Run(e, <<X(x.x, d), <<>>>>, p, c)
       IN IF ~r.ok \/ (x.hi = Inf /\ r.p = p) THEN Success(p, c)
          ELSE PossLoop(e, x, i + 1, d, r.p, r.c)

\* Repetitions of one character: counts i, i + step, ... up to last, in this order.
TryCounts(e, kk, p, c, d, i, step, last) ==
  LET try(n) == Run(e, kk, IF d = "f" THEN p + n ELSE p - n, c)
      left   == (last - i) * step
  IN IF left > 2 * Block /\ \A j \in 0..(Block - 1) : ~try(i + j * step).ok
     THEN TryCounts(e, kk, p, c, d, i + Block * step, step, last)
     ELSE LET r == try(i)
          IN IF r.ok \/ i = last THEN r ELSE TryCounts(e, kk, p, c, d, i + step, step, last)

Run(e, k, p, c) ==
  IF k = <<>> THEN Success(p, c)
  ELSE
  LET fr == k[1]
      kk == k[2]
      f  == fr[1]
  IN
  CASE f = "x" ->
       LET x == fr[2]
           d == fr[3]
           t == x.t
       IN
       (CASE t = "cs" ->
              IF d = "f"
              THEN IF p < e.n /\ e.s[p + 1] \in x.s THEN Run(e, kk, p + 1, c) ELSE Fail
              ELSE IF p > 0 /\ e.s[p] \in x.s THEN Run(e, kk, p - 1, c) ELSE Fail
         [] t = "seq" ->
              IF x.xs = <<>> THEN Run(e, kk, p, c) ELSE Run(e, <<S(x.xs, 1, d), kk>>, p, c)
         [] t = "rep" /\ x.x.t = "cs" ->
              LET most == RunLen(e, x.x.s, p, d, IF x.hi = Inf THEN e.n ELSE x.hi)
              IN IF most < x.lo THEN Fail
                 ELSE (CASE x.m = "g" -> TryCounts(e, kk, p, c, d, most, -1, x.lo)
                         [] x.m = "l" -> TryCounts(e, kk, p, c, d, x.lo, 1, most)
                         [] x.m = "p" -> TryCounts(e, kk, p, c, d, most, 1, most))
         [] t = "rep" /\ x.x.t # "cs" ->
              IF x.m # "p" THEN Run(e, <<L(x, 0, d), kk>>, p, c)
              ELSE LET must == IF x.lo = 0 THEN Success(p, c)
                               ELSE Run(e, <<L(Rep("g", x.lo, x.lo, x.x), 0, d), <<>>>>, p, c)
                   IN IF ~must.ok THEN Fail
                      ELSE LET r == PossLoop(e, x, x.lo, d, must.p, must.c) IN Run(e, kk, r.p, r.c)
         [] t = "cap"   -> Run(e, <<X(x.x, d), <<C(x.id, p, d), kk>>>>, p, c)
         [] t = "alt"   -> IF x.xs = <<>> THEN Fail ELSE TryAlts(e, x.xs, 1, d, kk, p, c)
         [] t = "empty" -> Run(e, kk, p, c)
         [] t = "ref" ->
              LET b   == c[x.id][1]
                  len == c[x.id][2] - b
              IN IF d = "f"
                 THEN IF p + len <= e.n /\ \A j \in 1..len : SameChar(e, e.s[b + j], e.s[p + j])
                      THEN Run(e, kk, p + len, c) ELSE Fail
                 ELSE IF p - len >= 0 /\ \A j \in 1..len : SameChar(e, e.s[b + j], e.s[p - len + j])
                      THEN Run(e, kk, p - len, c) ELSE Fail
         [] t = "look" ->
              LET r == Run(e, <<X(x.x, IF x.d = "a" THEN "f" ELSE "r"), <<>>>>, p, c)
              IN IF x.n THEN (IF r.ok THEN Fail ELSE Run(e, kk, p, c))
                        ELSE (IF r.ok THEN Run(e, kk, p, r.c) ELSE Fail)
         [] t = "bol" -> IF AtBol(e, p) THEN Run(e, kk, p, c) ELSE Fail
         [] t = "eol" -> IF AtEol(e, p) THEN Run(e, kk, p, c) ELSE Fail
         [] t = "boi" -> IF p = 0 THEN Run(e, kk, p, c) ELSE Fail
         [] t = "eoi" -> IF p = e.n THEN Run(e, kk, p, c) ELSE Fail
         [] t = "wb"  -> IF AtWb(e, p) # x.n THEN Run(e, kk, p, c) ELSE Fail)
    [] f = "s" ->
       LET xs == fr[2]
           i  == fr[3]
           d  == fr[4]
           x  == IF d = "f" THEN xs[i] ELSE xs[Len(xs) + 1 - i]
       IN Run(e, <<X(x, d), IF i = Len(xs) THEN kk ELSE <<S(xs, i + 1, d), kk>>>>, p, c)
    [] f = "l" ->
       LET x == fr[2]
           i == fr[3]
           d == fr[4]
       IN IF i < x.lo THEN Run(e, <<X(x.x, d), <<L(x, i + 1, d), kk>>>>, p, c)
          ELSE IF x.hi # Inf /\ i = x.hi THEN Run(e, kk, p, c)
          ELSE LET nxt == IF x.hi = Inf THEN N(x, i, d, p) ELSE L(x, i + 1, d)
               IN IF x.m = "l"
                  THEN LET r == Run(e, kk, p, c)
                       IN IF r.ok THEN r ELSE Run(e, <<X(x.x, d), <<nxt, kk>>>>, p, c)
                  ELSE LET r == Run(e, <<X(x.x, d), <<nxt, kk>>>>, p, c)
                       IN IF r.ok THEN r ELSE Run(e, kk, p, c)
    [] f = "n" -> IF p = fr[5] THEN Fail ELSE Run(e, <<L(fr[2], fr[3], fr[4]), kk>>, p, c)
    [] f = "c" ->
       LET span == IF fr[4] = "f" THEN <<fr[3], p>> ELSE <<p, fr[3]>>
       IN Run(e, kk, p, [c EXCEPT ![fr[2]] = span])
    [] f = "e" -> IF p = e.n THEN Run(e, kk, p, c) ELSE Fail

-----------------------------------------------------------------------------
(* The three entry points: match the rest of the input exactly, a prefix of  *)
(* it, or search for the leftmost match. A result has the whole match in b,e *)
(* and the groups in g.                                                      *)
NoMatch(g) == [m |-> FALSE, b |-> 0, e |-> 0, g |-> NoCaps(g)]
Found(b, r) == [m |-> TRUE, b |-> b, e |-> r.p, g |-> r.c]

MatchAt(env, x, g, p, full) ==
  LET r == Run(env, <<X(x, "f"), IF full THEN <<E, <<>>>> ELSE <<>>>>, p, NoCaps(g))
  IN IF r.ok THEN Found(p, r) ELSE NoMatch(g)

RECURSIVE SearchFrom(_, _, _, _)
SearchFrom(env, x, g, p) ==
  IF env.n - p > 2 * Block /\ \A q \in p..(p + Block - 1) : ~MatchAt(env, x, g, q, FALSE).m
  THEN SearchFrom(env, x, g, p + Block)
  ELSE LET r == MatchAt(env, x, g, p, FALSE)
       IN IF r.m \/ p = env.n THEN r ELSE SearchFrom(env, x, g, p + 1)
=============================================================================
