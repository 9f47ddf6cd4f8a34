-------------------------------- MODULE Flow --------------------------------
(***************************************************************************)
(* Recorded executions of a two-way byte (or message) stream whose ends    *)
(* are used by several goroutines: per direction one or more write and     *)
(* read.                                                                   *)
(*   ops   k  "w" write of n bytes, "r" read, "half" end of a direction,   *)
(*            "close" of an end                                            *)
(*         d  direction (1, 2)                                             *)
(*         r  "ok", "fail", "eof", "none" (did not return)                 *)
(*         n  bytes asked to write, bytes read                             *)
(*   at  with several readers: the places of the stream where the bytes    *)
(*       that were read occur                                              *)
(*   log   <<"i", i>> invoked, <<"r", i>> returned, <<"q">> at rest        *)
(* The harness compares the bytes read with those written at that offset,  *)
(* so here only counts matter.                                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT HistFile
Hs == JsonDeserialize(HistFile)
VARIABLE s
Log == Hs[s.h].log
Op(i) == Hs[s.h].ops[i]

HInit == \E i \in 1..Len(Hs) :
  s = [h |-> i, p |-> 1, wr |-> <<0, 0>>, rd |-> <<0, 0>>, half |-> <<FALSE, FALSE>>,
       cl |-> FALSE, pend |-> {}, lin |-> {}]

\* a write in progress: its bytes may arrive before it returns
PendW(d) == {i \in s.pend : Op(i).k = "w" /\ Op(i).d = d}
RECURSIVE SumN(_)
SumN(I) == IF I = {} THEN 0 ELSE LET i == CHOOSE i \in I : TRUE IN Op(i).n + SumN(I \ {i})
Avail(d) == s.wr[d] + SumN(PendW(d)) - s.rd[d]
\* with several readers: what was read is what the stream has at this place
Here(o) == o.at = <<>> \/ \E i \in 1..Len(o.at) : o.at[i] = s.rd[o.d]
Ended(d) == s.half[d] /\ s.rd[d] = s.wr[d]

LinEn(o) ==
  CASE o.k = "w" -> o.r = "ok" \/ s.cl
    [] o.k = "r" -> CASE o.r = "ok"  -> o.n > 0 /\ o.n <= Avail(o.d) /\ Here(o)
                      [] o.r = "eof" -> Ended(o.d) \/ s.cl
                      [] OTHER       -> s.cl
    [] o.k = "half" -> o.r = "ok" \/ s.cl
    [] OTHER -> TRUE
LinDo(o) ==
  CASE o.k = "w" -> [s EXCEPT !.wr[o.d] = @ + o.n]
    [] o.k = "r" -> IF o.r = "ok" THEN [s EXCEPT !.rd[o.d] = @ + o.n] ELSE s
    [] o.k = "half" -> [s EXCEPT !.half[o.d] = TRUE]
    [] OTHER -> s
\* nothing to do for a waiting operation
Stuck(o) ==
  /\ ~s.cl
  /\ CASE o.k = "r" -> s.rd[o.d] = s.wr[o.d] /\ PendW(o.d) = {} /\ ~Ended(o.d)
       [] o.k = "w" -> s.rd[o.d] < s.wr[o.d] + SumN(PendW(o.d))   \* the other end does not read
       [] OTHER -> FALSE

Consume ==
  /\ s.p <= Len(Log)
  /\ LET e == Log[s.p] IN
     CASE e[1] = "i" -> s' = [s EXCEPT !.p = @ + 1, !.pend = @ \cup {e[2]}, !.cl = @ \/ Op(e[2]).k = "close"]
       [] e[1] = "r" -> e[2] \in s.lin /\ s' = [s EXCEPT !.p = @ + 1, !.lin = @ \ {e[2]}]
       [] e[1] = "q" -> s.lin = {} /\ (\A i \in s.pend : Stuck(Op(i))) /\ s' = [s EXCEPT !.p = @ + 1]
Lin == \E i \in s.pend : /\ Op(i).r # "none" /\ LinEn(Op(i))
                         /\ s' = [LinDo(Op(i)) EXCEPT !.pend = @ \ {i}, !.lin = @ \cup {i}]
Accept == s.p = Len(Log) + 1 /\ PrintT(ToJson(<<"ACC", s.h>>))
          /\ s' = [s EXCEPT !.p = @ + 1, !.pend = {}, !.lin = {}, !.wr = <<0, 0>>, !.rd = <<0, 0>>]
HNext == s.p <= Len(Log) + 1 /\ (Consume \/ Lin \/ Accept)
HSpec == HInit /\ [][HNext]_s
=============================================================================
