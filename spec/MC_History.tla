----------------------------- MODULE MC_History -----------------------------
(* Programs that hold several generators and lazy ranges over one text:      *)
(* creating, stepping, copying and assigning them in every order up to a     *)
(* number of operations. The scripts explored are printed and replayed on    *)
(* the real objects.                                                         *)
(*                                                                           *)
(* Script letters: t, s create a tokenizer or searcher, T, S the range of    *)
(* one, and select it; 0 to 3 select an object; n steps the selected         *)
(* generator or increments the selected range; d looks at the selected range *)
(* again; c copies the selected object and selects the copy; = assigns the   *)
(* first object to it.                                                       *)
EXTENDS Api, Json, TLC, IOUtils

Config == JsonDeserialize(IOEnv.MC_FILE)
K == Config.k
Cases == Config.cases
Regexes == [i \in DOMAIN Cases |-> Compile(Parse(Cases[i].pat).ast, FlagsOf(Cases[i].flags))]
MaxObjects == Config.objects

VARIABLES ci, objs, sel, script, last
vars == <<ci, objs, sel, script, last>>

Rx == Regexes[ci]
Text == Cases[ci].text

Init == ci \in DOMAIN Cases /\ objs = <<>> /\ sel = 0 /\ script = "" /\ last = [k |-> "none"]

Do(letter) == script' = script \o letter /\ UNCHANGED ci

\* An object: a generator, or a range with the result it currently shows.
Nothing == [m |-> FALSE]
GenObj(g) == [o |-> "gen", g |-> g, r |-> Nothing]
RangeObj(st) == [o |-> "range", g |-> st.gen, r |-> st.r]

Create(k) ==
  /\ Len(objs) < MaxObjects
  /\ objs' = Append(objs, GenObj(NewGen(k, Text)))
  /\ sel' = Len(objs) + 1
  /\ last' = [k |-> "create"]
  /\ Do(IF k = "tok" THEN "t" ELSE "s")

CreateRange(k) ==
  /\ Len(objs) < MaxObjects
  /\ objs' = Append(objs, RangeObj(NewRange(Rx, k, Text)))
  /\ sel' = Len(objs) + 1
  /\ last' = [k |-> "create"]
  /\ Do(IF k = "tok" THEN "T" ELSE "S")

Select(i) ==
  /\ i \in DOMAIN objs /\ i # sel
  /\ last.k # "select"
  /\ sel' = i
  /\ last' = [k |-> "select"]
  /\ Do(ToString(i - 1))
  /\ UNCHANGED objs

StepOne ==
  /\ sel # 0
  /\ LET o == objs[sel]
         st == Step(Rx, o.g)
     IN /\ objs' = [objs EXCEPT ![sel] = IF o.o = "gen" THEN GenObj(st.gen) ELSE RangeObj(st)]
        /\ last' = [k |-> "step", r |-> st.r, was |-> o.g]
  /\ Do("n")
  /\ UNCHANGED sel

\* Looking at a range changes nothing, however often it is done.
LookAgain ==
  /\ sel # 0 /\ objs[sel].o = "range" /\ last.k # "look"
  /\ last' = [k |-> "look"]
  /\ Do("d")
  /\ UNCHANGED <<objs, sel>>

CopyOne ==
  /\ sel # 0 /\ Len(objs) < MaxObjects
  /\ objs' = Append(objs, objs[sel])
  /\ sel' = Len(objs) + 1
  /\ last' = [k |-> "copy"]
  /\ Do("c")

AssignOne ==
  /\ sel > 1
  /\ objs' = [objs EXCEPT ![sel] = objs[1]]
  /\ last' = [k |-> "assign"]
  /\ Do("=")
  /\ UNCHANGED sel

Next ==
  /\ Len(script) < K
  /\ \/ Create("tok") \/ Create("srch") \/ CreateRange("tok") \/ CreateRange("srch") \/ StepOne \/ LookAgain \/ CopyOne \/ AssignOne
     \/ \E i \in 1..MaxObjects : Select(i)

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* Every state a generator can be in: those reached from the start by stepping.
RECURSIVE Chain(_, _)
Chain(gen, n) == IF n = 0 THEN {gen} ELSE {gen} \cup Chain(Step(Rx, gen).gen, n - 1)
Reachable == \A i \in DOMAIN objs : objs[i].g \in Chain(NewGen(objs[i].g.k, Text), K + 1)

\* A result never overlaps what the object has yielded before; it starts there if tokenizing.
Consecutive ==
  last.k = "step" =>
    LET w == last.was
    IN /\ ~w.a => ~last.r.m
       /\ last.r.m => w.p <= last.r.b /\ (w.k = "tok" => w.p = last.r.b)
       /\ last.r.m => last.r.e <= Len(Text)

\* Operations on one object leave the others alone.
Independent == [][\A i \in DOMAIN objs : i # sel' => objs'[i] = objs[i]]_vars
\* What has stopped stays stopped until something else is assigned to it, positions never go back.
Final == [][\A i \in DOMAIN objs : last'.k # "assign" => (~objs[i].g.a => objs'[i].g = objs[i].g) /\ objs[i].g.p <= objs'[i].g.p]_vars
\* A range shows a match exactly while it has not ended, and once ended it stays so.
Ended(o) == o.o = "range" /\ ~o.r.m
RangesEnd == [][\A i \in DOMAIN objs : last'.k # "assign" /\ Ended(objs[i]) => Ended(objs'[i])]_vars

Emit == IF Len(script) = K THEN PrintT("HIST " \o script) ELSE TRUE
=============================================================================
