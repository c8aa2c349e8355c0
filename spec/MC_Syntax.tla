----------------------------- MODULE MC_Syntax -----------------------------
(* Explores every token string up to a number of tokens over an alphabet of  *)
(* tokens, feeding the push-down automaton one token at a time, and checks   *)
(* that the automaton agrees with the independent description of the syntax, *)
(* that its error positions are exact, and that every pattern prefix it does *)
(* not refuse can be completed to a pattern. The strings are printed for     *)
(* replay in the real parser.                                                *)
EXTENDS Grammar, Json, TLC, IOUtils

Config == JsonDeserialize(IOEnv.MC_FILE)
Tokens == Config.tokens       \* sequences of bytes
K      == Config.k
Lead   == Config.lead         \* a fixed beginning

D == INSTANCE Syntax

VARIABLES pat, n, cfg

vars == <<pat, n, cfg>>

RECURSIVE FeedAll(_, _, _)
FeedAll(c, t, i) == IF i > Len(t) \/ c.v = "reject" THEN c ELSE FeedAll(Feed(c, t[i]), t, i + 1)

Init == pat = Lead /\ n = 0 /\ cfg = FeedAll(InitCfg, Lead, 1)

Extend(i) ==
  /\ n < K
  /\ cfg.v = "more"
  /\ pat' = pat \o Tokens[i]
  /\ n' = n + 1
  /\ cfg' = FeedAll(cfg, Tokens[i], 1)

Next == \E i \in DOMAIN Tokens : Extend(i)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Accepting == cfg.v = "more" /\ Feed(cfg, EOF).v = "accept"

\* The automaton accepts what the description describes, with the same structure.
Agree ==
  LET d == D!Describe(pat)
  IN /\ d.ok = Accepting
     /\ d.ok => Normal(d.ast) = Normal(TreeOf(Feed(cfg, EOF)))

\* The shortest way to complete what is on the stack.
RECURSIVE Closing(_)
Closing(stk) ==
  IF stk = <<>> THEN <<>>
  ELSE LET s == Head(stk)
           k == s[1]
           here == CASE k \in {"altseq", "range0"} -> <<97>>
                     [] k \in {"qval", "qrange"} -> <<cRBrc>>
                     [] k = "expect" -> <<s[2]>>
                     [] k = "gmod" -> <<cColon>>
                     [] k = "gless" -> <<cEq>>
                     [] k \in {"capname", "refname"} -> <<cGreater>>
                     [] k = "refname0" -> <<97, cGreater>>
                     [] k \in {"esc", "setesc", "rangeesc"} -> <<110>>
                     [] k = "hex" -> [i \in 1..(2 - Len(s[2])) |-> 48]
                     [] OTHER -> <<>>
       IN here \o Closing(Tail(stk))

\* Whatever is not refused is the beginning of some pattern.
Viable == cfg.v = "more" => D!Describe(pat \o Closing(cfg.stk)).ok

\* Whatever is refused is not.
Final == cfg.v = "reject" => \A i \in DOMAIN Tokens : ~D!Describe(pat \o Tokens[i]).ok /\ ~D!Describe(pat \o Tokens[i] \o <<cRPar>>).ok

Emit == IF Config.emit THEN PrintT("PAT " \o ToJson(pat)) ELSE TRUE
=============================================================================
