------------------------------ MODULE MC_Calls ------------------------------
(* Several callers use regexes at the same time on one text.                 *)
(*                                                                           *)
(* Each caller makes one call after the other; a call is a search of Machine *)
(* that takes one small step at a time, and the steps of different callers   *)
(* come in any order. The text is shared by all of them, and what a caller   *)
(* may do to it is restricted in the same way as for a user of the library:  *)
(* it is replaced only while nobody is reading it, and that ends the use of  *)
(* the generators that were made for it. Everything else belongs to one      *)
(* caller alone. The point of the model is that this is enough: the result   *)
(* of every call is the one Api prescribes for its regex, its method and the *)
(* text at the time of the call, whatever the others did in the meantime.    *)
EXTENDS Machine, Api, Json, TLC, IOUtils

Config == JsonDeserialize(IOEnv.MC_FILE)
Pats == Config.pats
Alphabet == {Config.chars[i] : i \in DOMAIN Config.chars}
Inputs == UNION {[1..k -> Alphabet] : k \in 0..Config.maxlen}
Regexes == [i \in DOMAIN Pats |-> Compile(Parse(Pats[i]).ast, FlagsOf(Config.flags))]
Callers == 1..Config.callers

Methods == {"match", "prefix", "search", "tok", "srch"}

VARIABLES text,   \* the shared text
          call,   \* what every caller is doing
          left    \* how many calls and replacements may still be started
vars == <<text, call, left>>

\* pi, how: regex and method. b, m: the search. gen: the generator in use, or <<>>. r: the result, or <<>>.
\* want: what Api prescribes; the search does not look at it.
Idle == [st |-> "idle", pi |-> 1, how |-> "match", b |-> 0, m |-> <<>>, gen |-> <<>>, r |-> <<>>, want |-> <<>>]

Init ==
  /\ text \in Inputs
  /\ call = [c \in Callers |-> Idle]
  /\ left = Config.calls

Scans(how) == how \in {"search", "srch"}
Begin(pi, how, from) == Start(Regexes[pi].ast, Regexes[pi].n, from, how = "match")

Prescribed(pi, how) ==
  CASE how = "match"  -> Match(Regexes[pi], text)
    [] how = "prefix" -> MatchPrefix(Regexes[pi], text)
    [] how = "search" -> Search(Regexes[pi], text)
    [] OTHER          -> Step(Regexes[pi], NewGen(how, text)).r

\* A caller calls a method, or makes a generator and asks it for its first result.
StartCall(c) ==
  /\ call[c].st # "run" /\ left > 0
  /\ \E pi \in DOMAIN Pats, how \in Methods :
       call' = [call EXCEPT ![c] =
         [st |-> "run", pi |-> pi, how |-> how, b |-> 0, m |-> Begin(pi, how, 0), r |-> <<>>, want |-> Prescribed(pi, how),
          gen |-> IF how \in {"tok", "srch"} THEN NewGen(how, text) ELSE <<>>]]
  /\ left' = left - 1
  /\ UNCHANGED text

\* A caller asks its generator for another result.
Again(c) ==
  /\ call[c].st = "done" /\ call[c].gen # <<>> /\ left > 0
  /\ LET me == call[c]
         g  == me.gen
         w  == Step(Regexes[me.pi], g).r
     IN call' = [call EXCEPT ![c] =
          IF g.a THEN [me EXCEPT !.st = "run", !.b = g.p, !.m = Begin(me.pi, g.k, g.p), !.r = <<>>, !.want = w]
          ELSE [me EXCEPT !.r = NoMatch(Regexes[me.pi].n), !.want = w]]
  /\ left' = left - 1
  /\ UNCHANGED text

\* The search of a caller takes a step. One that failed goes on at the next position if the method says so; otherwise
\* the call returns, and the generator takes note of where it is to go on.
Works(c) ==
  /\ call[c].st = "run"
  /\ LET me == call[c]
         rx == Regexes[me.pi]
         e  == Env(text, rx.f)
     IN call' = [call EXCEPT ![c] =
          IF me.m.st = "run" THEN [me EXCEPT !.m = MStep(e, me.m)]
          ELSE IF me.m.st = "no" /\ Scans(me.how) /\ me.b < e.n
          THEN [me EXCEPT !.b = me.b + 1, !.m = Begin(me.pi, me.how, me.b + 1)]
          ELSE LET r == Visible(Outcome(me.m, me.b, rx.n))
               IN [me EXCEPT !.st = "done", !.m = <<>>, !.r = r,
                             !.gen = IF me.gen = <<>> THEN <<>>
                                     ELSE [me.gen EXCEPT !.a = r.m /\ r.b # r.e, !.p = IF r.m THEN r.e ELSE @]]]
  /\ UNCHANGED <<text, left>>

\* The text is replaced while no call is reading it; generators made for the old one are given up.
Replace ==
  /\ \A c \in Callers : call[c].st # "run"
  /\ left > 0
  /\ text' \in Inputs \ {text}
  /\ call' = [c \in Callers |-> Idle]
  /\ left' = left - 1

Next == Replace \/ \E c \in Callers : StartCall(c) \/ Again(c) \/ Works(c)
Spec == Init /\ [][Next]_vars /\ \A c \in Callers : WF_vars(Works(c))

-----------------------------------------------------------------------------
\* Every result is the prescribed one.
Right == \A c \in Callers : call[c].st = "done" => call[c].r = call[c].want

\* A call never writes to the text, and no step of one caller touches what belongs to another.
Alone ==
  [][\A c \in Callers : Works(c) => text' = text /\ \A d \in Callers \ {c} : call'[d] = call[d]]_vars

\* Every call returns.
Returns == \A c \in Callers : call[c].st = "run" ~> call[c].st # "run"
=============================================================================
