------------------------------ MODULE MC_Match ------------------------------
(* Explores every pattern of up to k tokens over an alphabet of tokens and   *)
(* checks, for every input up to a length over an alphabet of characters and *)
(* every set of flags of interest, that the backtracking semantics (Matcher) *)
(* reports exactly what the strategy-free meaning (Denote) prescribes, and   *)
(* the consequences users rely on. The patterns are printed for replay.      *)
EXTENDS Denote, Api, Json, TLC, IOUtils

Config == JsonDeserialize(IOEnv.MC_FILE)
Tokens == Config.tokens
K      == Config.k
Lead   == Config.lead
FlagSets == [i \in DOMAIN Config.flags |-> FlagsOf(Config.flags[i])]
Alphabet == {Config.chars[i] : i \in DOMAIN Config.chars}
MaxLen == Config.maxlen
Inputs == UNION {[1..m -> Alphabet] : m \in 0..MaxLen}

VARIABLES pat, n, cfg
vars == <<pat, n, cfg>>

RECURSIVE FeedAll(_, _, _)
FeedAll(c, t, i) == IF i > Len(t) \/ c.v = "reject" THEN c ELSE FeedAll(Feed(c, t[i]), t, i + 1)

Init == pat = Lead /\ n = 0 /\ cfg = FeedAll(InitCfg, Lead, 1)
Extend(i) ==
  LET c == FeedAll(cfg, Tokens[i], 1)
  IN /\ n < K
     /\ c.v = "more"
     /\ pat' = pat \o Tokens[i]
     /\ n' = n + 1
     /\ cfg' = c
Next == \E i \in DOMAIN Tokens : Extend(i)
Spec == Init /\ [][Next]_vars

Tree == TreeOf(Feed(cfg, EOF))
Usable == Feed(cfg, EOF).v = "accept" /\ WellFormed(Tree) /\ CapCount(Tree) >= Config.mincaps

-----------------------------------------------------------------------------
LeftmostFrom(e, x, g, p) ==
  LET starts == {q \in p..e.n : Ends(e, x, "f", q, NoCaps(g)) # <<>>}
  IN IF starts = {} THEN NoMatch(g)
     ELSE DenoteAt(e, x, g, CHOOSE q \in starts : \A q2 \in starts : q <= q2, FALSE)

\* Exact, prefix and search results are what the meaning of the pattern prescribes.
Prescribed(rx, e) ==
  /\ MatchAt(e, rx.ast, rx.n, 0, TRUE) = DenoteAt(e, rx.ast, rx.n, 0, TRUE)
  /\ MatchAt(e, rx.ast, rx.n, 0, FALSE) = DenoteAt(e, rx.ast, rx.n, 0, FALSE)
  /\ SearchFrom(e, rx.ast, rx.n, 0) = LeftmostFrom(e, rx.ast, rx.n, 0)

\* Success is exactly membership in the language.
Language(rx, e) ==
  Regular(rx.ast) =>
    LET r == Spans(e, rx.ast)
    IN /\ MatchAt(e, rx.ast, rx.n, 0, TRUE).m = (<<0, e.n>> \in r)
       /\ MatchAt(e, rx.ast, rx.n, 0, FALSE).m = (\E q \in 0..e.n : <<0, q>> \in r)
       /\ SearchFrom(e, rx.ast, rx.n, 0).m = (r # {})
       /\ \A q \in 0..e.n : {en[1] : en \in {Ends(e, rx.ast, "f", q, NoCaps(rx.n))[i] :
                               i \in DOMAIN Ends(e, rx.ast, "f", q, NoCaps(rx.n))}} = {pq[2] : pq \in {ab \in r : ab[1] = q}}

\* Everything reported lies within the input and nested groups lie within their limits.
WithinBounds(rx, e) ==
  LET r == SearchFrom(e, rx.ast, rx.n, 0)
  IN /\ 0 <= r.b /\ r.b <= r.e /\ r.e <= e.n
     /\ \A i \in DOMAIN r.g : 0 <= r.g[i][1] /\ r.g[i][1] <= r.g[i][2] /\ r.g[i][2] <= e.n
     /\ ~r.m => r = NoMatch(rx.n)

\* Greedy and lazy quantifiers, and hence the ungreedy flag, do not change which texts match.
ModeFree(rx, tree, s, f) ==
  Regular(rx.ast) =>
    LET other == Compile(tree, [f EXCEPT !.ungreedy = ~@])
    IN /\ Match(rx, s).m = Match(other, s).m
       /\ Search(rx, s).m = Search(other, s).m
       /\ Search(rx, s).b = Search(other, s).b

\* Generators stop, and yield adjacent or ordered matches.
Iteration(rx, s) ==
  \A k \in {"tok", "srch"} :
    LET rs == Results(rx, NewGen(k, s))
    IN /\ Len(rs) <= Len(s) + 1
       /\ \A i \in 1..(Len(rs) - 1) : rs[i].b < rs[i].e /\ rs[i].e <= rs[i + 1].b
       /\ k = "tok" => \A i \in 1..Len(rs) : rs[i].b = (IF i = 1 THEN 0 ELSE rs[i - 1].e)

Correct ==
  Usable =>
    LET tree == Tree
    IN \A fi \in DOMAIN FlagSets :
         LET f  == FlagSets[fi]
             rx == Compile(tree, f)
         IN \A s \in Inputs :
              LET e == Env(s, f)
              IN /\ Prescribed(rx, e)
                 /\ Language(rx, e)
                 /\ WithinBounds(rx, e)
                 /\ ModeFree(rx, tree, s, f)
                 /\ Iteration(rx, s)

Emit == IF Usable THEN PrintT("PAT " \o ToJson(pat)) ELSE TRUE
=============================================================================
