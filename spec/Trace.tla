------------------------------- MODULE Trace -------------------------------
(* Checks a recorded execution of the real library against the specification.*)
(*                                                                           *)
(* Every line of the trace is one observed event. Each action below takes    *)
(* the next event, performs the corresponding step of Api and requires that  *)
(* everything observed is what the specification prescribes. A trace is      *)
(* accepted if all of its lines are consumed.                                *)
EXTENDS Api, Xpr, Json, TLC, IOUtils

Lines == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES l,      \* number of the next line
          rx,     \* the regex defined last
          objs    \* generators and ranges by number

vars == <<l, rx, objs>>

None == [ast |-> Empty, n |-> 0, names |-> <<>>, f |-> NoFlags]

TraceInit == l = 1 /\ rx = None /\ objs = <<>>

Ev == Lines[l]
Is(name) == l <= Len(Lines) /\ Ev.ev = name /\ l' = l + 1

\* Requires that observed and prescribed agree, and says so if they do not.
Same(what, observed, prescribed) ==
  \/ observed = prescribed
  \/ PrintT("MISMATCH " \o ToString(l) \o " " \o what \o " PRESCRIBED " \o ToJson(prescribed)) /\ FALSE

Keys(r) == DOMAIN r

-----------------------------------------------------------------------------
(* Definitions.                                                              *)
TreeOfDef(e) == IF "pat" \in Keys(e) THEN Parse(e.pat).ast ELSE XprTree(e.x)

Define ==
  /\ Is("def")
  /\ LET p == IF "pat" \in Keys(Ev) THEN Parse(Ev.pat) ELSE [ok |-> TRUE, err |-> 0, ast |-> XprTree(Ev.x)]
     IN IF p.ok
        THEN LET c == Compile(p.ast, FlagsOf(Ev.fl))
             IN /\ Same("accepted", Ev.ok, TRUE)
                /\ Same("capture count", Ev.n, c.n)
                /\ Same("group names", Ev.nm, c.names)
                /\ rx' = c
        ELSE /\ Same("accepted", Ev.ok, FALSE)
             /\ Same("error position", Ev.err, p.err)
             /\ rx' = None
  /\ objs' = <<>>

Verdict ==
  /\ Is("verdict")
  /\ LET p == Parse(Ev.pat)
     IN Same("verdict", <<Ev.ok, Ev.err>>, <<p.ok, IF p.ok THEN -1 ELSE p.err>>)
  /\ UNCHANGED <<rx, objs>>

\* Whether a program that uses the pattern compiles.
Compiles ==
  /\ Is("compiles")
  /\ LET p == Parse(Ev.pat)
     IN Same("compiles", Ev.ok, p.ok /\ WellFormed(p.ast))
  /\ UNCHANGED <<rx, objs>>

-----------------------------------------------------------------------------
(* Single calls.                                                             *)
Call ==
  /\ Is("call")
  /\ Same("accesses outside of the range", Ev.oob, 0)
  /\ LET m == Match(rx, Ev.s)
         p == MatchPrefix(rx, Ev.s)
         s == Search(rx, Ev.s)
     IN \A i \in DOMAIN Ev.rs :
          /\ Same("match via " \o Ev.rs[i].v, Ev.rs[i].M, m)
          /\ Same("prefix via " \o Ev.rs[i].v, Ev.rs[i].P, p)
          /\ Same("search via " \o Ev.rs[i].v, Ev.rs[i].S, s)
  /\ UNCHANGED <<rx, objs>>

Owned(s, r) == [m |-> r.m, t |-> TextOf(s, r)]
CallOwned ==
  /\ Is("own")
  /\ Same("owned match", Ev.M, Owned(Ev.s, Match(rx, Ev.s)))
  /\ Same("owned prefix", Ev.P, Owned(Ev.s, MatchPrefix(rx, Ev.s)))
  /\ Same("owned search", Ev.S, Owned(Ev.s, Search(rx, Ev.s)))
  /\ UNCHANGED <<rx, objs>>

Bounds ==
  /\ Is("bounds")
  /\ Same("accesses outside of the range", Ev.oob, 0)
  /\ UNCHANGED <<rx, objs>>

\* Nobody wrote to a text.
Intact ==
  /\ Is("intact")
  /\ Same("text unchanged", Ev.ok, TRUE)
  /\ UNCHANGED <<rx, objs>>

-----------------------------------------------------------------------------
(* Generators and ranges. objs maps object numbers to their state.           *)
Put(id, o) == objs' = [i \in DOMAIN objs \cup {id} |-> IF i = id THEN o ELSE objs[i]]

New ==
  /\ Is("new")
  /\ Same("active", Ev.a, TRUE)
  /\ Put(Ev.id, NewGen(Ev.k, Ev.s))
  /\ UNCHANGED rx

NextResult ==
  /\ Is("next")
  /\ LET st == Step(rx, objs[Ev.id])
     IN /\ Same("next result", Ev.r, st.r)
        /\ Same("active", Ev.a, st.gen.a)
        /\ Put(Ev.id, st.gen)
  /\ UNCHANGED rx

Copy ==
  /\ Is("copy")
  /\ Put(Ev.id, objs[Ev.of])
  /\ UNCHANGED rx

Range ==
  /\ Is("range")
  /\ Same("elements", Ev.rs, Results(rx, NewGen(Ev.k, Ev.s)))
  /\ Same("at end", Ev.end, TRUE)
  /\ UNCHANGED <<rx, objs>>

RangeState(st) ==
  /\ Same("current element", Ev.r, st.r)
  /\ Same("has element", Ev.a, st.r.m)
  /\ Same("ways of asking agree", Ev.agree, TRUE)
  /\ Put(Ev.id, st)
  /\ UNCHANGED rx

RangeNew == Is("rnew") /\ RangeState(NewRange(rx, Ev.k, Ev.s))
RangeInc == Is("rinc") /\ RangeState(Advance(rx, objs[Ev.id]))
RangeSame == Is("rsame") /\ RangeState(objs[Ev.id])

\* The driver records that the observed program crashed or did not return; no step of the specification does that.
Abort == Is("abort") /\ Same("returns", Ev.what, "returns") /\ UNCHANGED <<rx, objs>>

\* All accessors of one result, recorded as a set of views that have to agree.
Views ==
  /\ Is("views")
  /\ LET r == CASE Ev.of = "M" -> Match(rx, Ev.s) [] Ev.of = "P" -> MatchPrefix(rx, Ev.s) [] Ev.of = "S" -> Search(rx, Ev.s)
         t == TextOf(Ev.s, r)
     IN /\ Same("result", Ev.r, r)
        /\ \A i \in DOMAIN Ev.ts : Same("texts via " \o Ev.ts[i].v, Ev.ts[i].t, t)
        /\ \A i \in DOMAIN Ev.ms : Same("matched via " \o Ev.ms[i].v, Ev.ms[i].m, r.m)
        /\ \A i \in DOMAIN Ev.ws : Same("whole text via " \o Ev.ws[i].v, Ev.ws[i].t, t[1])
        /\ \A i \in DOMAIN Ev.bs : Same("non-empty via " \o Ev.bs[i].v, Ev.bs[i].b, [j \in DOMAIN t |-> t[j] # <<>>])
        /\ \A i \in DOMAIN Ev.ns : Same("named group " \o Ev.ns[i].v, Ev.ns[i].t,
                                        t[1 + (CHOOSE j \in DOMAIN rx.names : rx.names[j] = Ev.ns[i].n)])
  /\ UNCHANGED <<rx, objs>>

Blank ==
  /\ Is("blank")
  /\ Same("matched", Ev.m, FALSE)
  /\ Same("length", Ev.len, 0)
  /\ UNCHANGED <<rx, objs>>

\* Which bytes are accepted between two fixed texts.
Range2Set(q) == {q[i] : i \in DOMAIN q}
CharsBetween ==
  /\ Is("chars")
  /\ Same("accepted bytes via " \o Ev.v, Range2Set(Ev.acc), {c \in Byte : Match(rx, Ev.pre \o <<c>> \o Ev.post).m})
  /\ UNCHANGED <<rx, objs>>

TraceNext == Compiles \/ Blank \/ CharsBetween \/ Define \/ Verdict \/ Call \/ CallOwned \/ Bounds \/ Intact \/ New \/ NextResult \/ Copy \/ Range
             \/ RangeNew \/ RangeInc \/ RangeSame \/ Abort \/ Views

TraceSpec == TraceInit /\ [][TraceNext]_vars

TraceAccepted ==
  \/ TLCGet("stats").diameter - 1 = Len(Lines)
  \/ PrintT("STOPPED " \o ToString(TLCGet("stats").diameter)) /\ FALSE
=============================================================================
