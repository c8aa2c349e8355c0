------------------------------- MODULE Filter -------------------------------
(* Selects from a list of patterns those that a program cannot contain: the  *)
(* parser accepts them but they have no meaning, so using them is an error   *)
(* of compilation (Trace checks that separately).                            *)
EXTENDS Grammar, Json, TLC, IOUtils

Patterns == ndJsonDeserialize(IOEnv.PATTERNS_FILE)

VARIABLE i

\* Bounds in the wrong order.
RECURSIVE Reversed(_)
Reversed(x) ==
  CASE x.t = "rng" -> x.a > x.b
    [] x.t \in {"seq", "alt", "set"} -> \E k \in DOMAIN x.xs : Reversed(x.xs[k])
    [] x.t \in {"neg", "cap", "look"} -> Reversed(x.x)
    [] x.t = "rep" -> (x.hi # Inf /\ x.lo > x.hi) \/ Reversed(x.x)
    [] OTHER -> FALSE

\* Reversed bounds are refused where they stand, even if a syntax error follows later.
RECURSIVE Trips(_, _, _)
Trips(p, k, cfg) ==
  LET nxt == Feed(cfg, IF k > Len(p) THEN EOF ELSE p[k])
  IN \/ \E j \in DOMAIN nxt.nodes : Reversed(nxt.nodes[j])
     \/ nxt.v = "more" /\ Trips(p, k + 1, nxt)

Meaningless(p) == LET q == Parse(p) IN IF q.ok THEN ~WellFormed(q.ast) ELSE Trips(p, 1, InitCfg)
Init == i = 0
Next == /\ i < Len(Patterns)
        /\ i' = i + 1
        /\ IF Meaningless(Patterns[i'].pat) THEN PrintT("ILL " \o ToString(i')) ELSE TRUE
Spec == Init /\ [][Next]_i
=============================================================================
