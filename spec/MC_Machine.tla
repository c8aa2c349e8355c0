----------------------------- MODULE MC_Machine -----------------------------
(* Runs the machine on every combination of the given patterns, all inputs   *)
(* up to a length, and both ways of matching at every starting position, and *)
(* checks every intermediate state.                                          *)
EXTENDS Machine, Api, Json, TLC, IOUtils

Config == JsonDeserialize(IOEnv.MC_FILE)
Pats == Config.pats
FlagSets == [i \in DOMAIN Config.flags |-> FlagsOf(Config.flags[i])]
Alphabet == {Config.chars[i] : i \in DOMAIN Config.chars}
Inputs == UNION {[1..m -> Alphabet] : m \in 0..Config.maxlen}

Trees == [i \in DOMAIN Pats |-> Parse(Pats[i]).ast]
Regexes == [i \in DOMAIN Pats |-> [j \in DOMAIN FlagSets |-> Compile(Trees[i], FlagSets[j])]]

VARIABLES pi, fi, s, b, full, m, steps
vars == <<pi, fi, s, b, full, m, steps>>

Rx == Regexes[pi][fi]
TheEnv == Env(s, Rx.f)

Init ==
  /\ pi \in DOMAIN Pats
  /\ fi \in DOMAIN FlagSets
  /\ s \in Inputs
  /\ b \in 0..Len(s)
  /\ full \in BOOLEAN
  /\ m = Start(Rx.ast, Rx.n, b, full)
  /\ steps = 0

Next ==
  /\ m.st = "run"
  /\ m' = MStep(TheEnv, m)
  /\ steps' = steps + 1
  /\ UNCHANGED <<pi, fi, s, b, full>>

Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

-----------------------------------------------------------------------------
SpanOk(x, n) == 0 <= x[1] /\ x[1] <= x[2] /\ x[2] <= n

\* At no time does the search leave the input or look at a character outside of it.
Inside ==
  /\ m.p \in 0..Len(s)
  /\ m.rd \subseteq 1..Len(s)
  /\ \A i \in DOMAIN m.bt : m.bt[i].p \in 0..Len(s)

\* At all times every capture is a span of the input.
Captures ==
  /\ \A i \in DOMAIN m.c : SpanOk(m.c[i], Len(s))
  /\ \A j \in DOMAIN m.bt : \A i \in DOMAIN m.bt[j].c : SpanOk(m.bt[j].c[i], Len(s))

\* When it is over, the result is the one of Matcher, hence (MC_Match) the one the pattern prescribes.
Agrees == m.st # "run" => Outcome(m, b, Rx.n) = MatchAt(TheEnv, Rx.ast, Rx.n, b, full)

\* The search ends. (A state counts its steps, so that a search without end would also show as an unbounded state space.)
Short == steps <= Config.limit
Ends_ == <>(m.st # "run")
=============================================================================
