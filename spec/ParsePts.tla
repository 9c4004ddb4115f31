---------------------------- MODULE ParsePts ----------------------------
(* Parsing a mixed sequence of points, pairs and bare coordinates into a sequence of points. *)
EXTENDS Integers, Sequences, TLC, Json, CSV
CONSTANTS Tokens, MaxLen
VARIABLES toks, thr
vars == <<toks, thr>>

\* items: [k |-> "one", i |-> token index] for a token that is an entry by itself, [k |-> "two", i |-> index of x]
RECURSIVE Parse(_, _, _)
Parse(s, i, t) ==
  IF i > Len(s) THEN <<>>
  ELSE LET rest(n) == Parse(s, i + n, t)
           cons(e, r) == IF r # <<>> /\ r[1].k = "error" THEN r ELSE <<e>> \o r
       IN CASE s[i] \in {"int", "float"} ->
                 IF i < Len(s) /\ s[i+1] \in {"int", "float"} THEN cons([k |-> "two", i |-> i], rest(2))
                 ELSE <<[k |-> "error", i |-> i]>>
            [] s[i] \in {"point", "rel", "pair"} -> cons([k |-> "one", i |-> i], rest(1))
            [] s[i] = "triple" /\ t -> cons([k |-> "one", i |-> i], rest(1))
            [] OTHER -> <<[k |-> "error", i |-> i]>>
Init == toks = <<>> /\ thr \in BOOLEAN
Next == /\ Len(toks) < MaxLen
        /\ \E k \in Tokens : toks' = Append(toks, k)
        /\ UNCHANGED thr
Spec == Init /\ [][Next]_vars
Result == Parse(toks, 1, thr)
Failed == Result # <<>> /\ Result[1].k = "error"
\* one entry per point: the entries cover the tokens exactly, in order
Covers == ~Failed => LET n(e) == IF e.k = "two" THEN 2 ELSE 1 IN
   /\ \A j \in 1..Len(Result) : Result[j].i = 1 + (IF j = 1 THEN 0 ELSE Result[j-1].i + n(Result[j-1]) - 1)
   /\ toks # <<>> => Result[Len(Result)].i + n(Result[Len(Result)]) - 1 = Len(toks)
Emit == CSVWrite("%1$s", <<ToJson([t |-> toks, thr |-> thr, r |-> Result])>>, "out.ndjson")
==========================================================================
