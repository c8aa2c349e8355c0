------------------------------ MODULE Machine ------------------------------
(* The matcher as a machine that takes one small step at a time.             *)
(*                                                                           *)
(* A state has the goals still to be met, the position, the captures, and a  *)
(* stack of alternatives to fall back on. Matcher describes the same search  *)
(* as one recursive function; here every intermediate state is visible, so   *)
(* that what must hold during a search (positions and reads stay within the  *)
(* input, captures are well formed, the search ends) can be stated and       *)
(* checked in every state. Goals are the frames of Matcher and               *)
(*   cut h          forget the alternatives above height h (atomic groups)   *)
(*   back h p       as cut, and return to position p (positive lookarounds)  *)
(*   never h        as cut, and fail (negative lookarounds)                  *)
(*   more x i d     the optional iterations of a possessive repetition       *)
(*   kept x i d h p c  one of them is complete: keep it                      *)
EXTENDS Matcher, Sequences

\* status: "run" while searching, then "yes" or "no". rd: the positions read in the last step.
Start(x, g, p, full) ==
  [k |-> <<X(x, "f"), IF full THEN <<E, <<>>>> ELSE <<>>>>, p |-> p, c |-> NoCaps(g), bt |-> <<>>, st |-> "run", rd |-> {}]

Go(m, k, p, c, rd)   == [m EXCEPT !.k = k, !.p = p, !.c = c, !.rd = rd]
Keep(m, h)           == SubSeq(m.bt, 1, h)
Retry(m, rd) ==
  IF m.bt = <<>> THEN [m EXCEPT !.st = "no", !.rd = rd]
  ELSE LET a == m.bt[Len(m.bt)]
       IN [m EXCEPT !.k = a.k, !.p = a.p, !.c = a.c, !.bt = Keep(m, Len(m.bt) - 1), !.rd = rd]
Test(m, ok, kk, rd)  == IF ok THEN Go(m, kk, m.p, m.c, rd) ELSE Retry(m, rd)

\* First kk1, and kk2 if that fails.
Either(m, k1, k2) == [m EXCEPT !.k = k1, !.rd = {}, !.bt = Append(@, [k |-> k2, p |-> m.p, c |-> m.c])]

StepChar(e, m, set, d, kk) ==
  IF d = "f"
  THEN IF m.p = e.n THEN Retry(m, {})
       ELSE IF e.s[m.p + 1] \in set THEN Go(m, kk, m.p + 1, m.c, {m.p + 1}) ELSE Retry(m, {m.p + 1})
  ELSE IF m.p = 0 THEN Retry(m, {})
       ELSE IF e.s[m.p] \in set THEN Go(m, kk, m.p - 1, m.c, {m.p}) ELSE Retry(m, {m.p})

StepRef(e, m, id, d, kk) ==
  LET b    == m.c[id][1]
      len  == m.c[id][2] - b
      from == IF d = "f" THEN m.p ELSE m.p - len
      to   == IF d = "f" THEN m.p + len ELSE from
  IN IF from < 0 \/ from + len > e.n THEN Retry(m, {})
     ELSE IF \A j \in 1..len : SameChar(e, e.s[b + j], e.s[from + j])
          THEN Go(m, kk, to, m.c, {from + j : j \in 1..len} \cup {b + j : j \in 1..len})
          ELSE Retry(m, {from + j : j \in 1..len} \cup {b + j : j \in 1..len})

Near(e, p) == {q \in {p, p + 1} : q >= 1 /\ q <= e.n}

StepNode(e, m, x, d, kk) ==
  LET p == m.p
      c == m.c
      h == Len(m.bt)
  IN CASE x.t = "cs"    -> StepChar(e, m, x.s, d, kk)
       [] x.t = "empty" -> Go(m, kk, p, c, {})
       [] x.t = "seq"   -> Go(m, IF x.xs = <<>> THEN kk ELSE <<S(x.xs, 1, d), kk>>, p, c, {})
       [] x.t = "cap"   -> Go(m, <<X(x.x, d), <<C(x.id, p, d), kk>>>>, p, c, {})
       [] x.t = "alt"   ->
            IF x.xs = <<>> THEN Retry(m, {})
            ELSE IF Len(x.xs) = 1 THEN Go(m, <<X(x.xs[1], d), kk>>, p, c, {})
            ELSE Either(m, <<X(x.xs[1], d), kk>>, <<X([x EXCEPT !.xs = Tail(@)], d), kk>>)
       [] x.t = "rep"   ->
            IF x.m # "p" THEN Go(m, <<L(x, 0, d), kk>>, p, c, {})
            ELSE Go(m, <<L(Rep("g", x.lo, x.lo, x.x), 0, d), <<<<"cut", h>>, <<<<"more", x, x.lo, d>>, kk>>>>>>, p, c, {})
       [] x.t = "ref"   -> StepRef(e, m, x.id, d, kk)
       [] x.t = "look"  ->
            LET inner == X(x.x, IF x.d = "a" THEN "f" ELSE "r")
            IN IF x.n THEN Either(m, <<inner, <<<<"never", h>>, <<>>>>>>, kk)
               ELSE Go(m, <<inner, <<<<"back", h, p>>, kk>>>>, p, c, {})
       [] x.t = "bol" -> Test(m, AtBol(e, p), kk, IF e.f.multiline /\ p > 0 THEN {p} ELSE {})
       [] x.t = "eol" -> Test(m, AtEol(e, p), kk, IF e.f.multiline /\ p < e.n THEN {p + 1} ELSE {})
       [] x.t = "boi" -> Test(m, p = 0, kk, {})
       [] x.t = "eoi" -> Test(m, p = e.n, kk, {})
       [] x.t = "wb"  -> Test(m, AtWb(e, p) # x.n, kk, Near(e, p))

MStep(e, m) ==
  IF m.k = <<>> THEN [m EXCEPT !.st = "yes", !.rd = {}]
  ELSE
  LET fr == m.k[1]
      kk == m.k[2]
      f  == fr[1]
      p  == m.p
      c  == m.c
  IN CASE f = "x" -> StepNode(e, m, fr[2], fr[3], kk)
       [] f = "s" ->
            LET xs == fr[2]
                i  == fr[3]
                d  == fr[4]
            IN Go(m, <<X(IF d = "f" THEN xs[i] ELSE xs[Len(xs) + 1 - i], d),
                       IF i = Len(xs) THEN kk ELSE <<S(xs, i + 1, d), kk>>>>, p, c, {})
       [] f = "l" ->
            LET x   == fr[2]
                i   == fr[3]
                d   == fr[4]
                nxt == IF x.hi = Inf THEN N(x, i, d, p) ELSE L(x, i + 1, d)
                again == <<X(x.x, d), <<nxt, kk>>>>
            IN IF i < x.lo THEN Go(m, <<X(x.x, d), <<L(x, i + 1, d), kk>>>>, p, c, {})
               ELSE IF x.hi = i THEN Go(m, kk, p, c, {})
               ELSE IF x.m = "l" THEN Either(m, kk, again) ELSE Either(m, again, kk)
       [] f = "n" -> IF p = fr[5] THEN Retry(m, {}) ELSE Go(m, <<L(fr[2], fr[3], fr[4]), kk>>, p, c, {})
       [] f = "c" -> Go(m, kk, p, [c EXCEPT ![fr[2]] = IF fr[4] = "f" THEN <<fr[3], p>> ELSE <<p, fr[3]>>], {})
       [] f = "e" -> IF p = e.n THEN Go(m, kk, p, c, {}) ELSE Retry(m, {})
       [] f = "cut"   -> [Go(m, kk, p, c, {}) EXCEPT !.bt = Keep(m, fr[2])]
       [] f = "back"  -> [Go(m, kk, fr[3], c, {}) EXCEPT !.bt = Keep(m, fr[2])]
       [] f = "never" -> Retry([m EXCEPT !.bt = Keep(m, fr[2])], {})
       [] f = "more"  ->
            LET x == fr[2]
                i == fr[3]
                d == fr[4]
            IN IF x.hi = i THEN Go(m, kk, p, c, {})
               ELSE Either(m, <<X(x.x, d), <<<<"kept", x, i, d, Len(m.bt), p, c>>, kk>>>>, kk)
       [] f = "kept"  ->
            LET x == fr[2]
                b == [m EXCEPT !.bt = Keep(m, fr[5])]
            IN IF x.hi = Inf /\ p = fr[6] THEN Go(b, kk, fr[6], fr[7], {})
               ELSE Go(b, <<<<"more", x, fr[3] + 1, fr[4]>>, kk>>, p, c, {})

Outcome(m, b, g) == IF m.st = "yes" THEN Found(b, [p |-> m.p, c |-> m.c]) ELSE NoMatch(g)
=============================================================================
