------------------------------ MODULE MuxHist ------------------------------
(***************************************************************************)
(* Recorded executions of a Mux that several goroutines use at once.       *)
(* Every operation takes effect at one point between its invocation and    *)
(* its return: the table is never seen half changed.                       *)
(*   ops   k "reg" (s service, ms methods; the handler is number i),       *)
(*         "call" (s, m; r the handler that ran: "1", "2", ..., "fall",    *)
(*         or "none"), "has" (s; r), "hasm" (s, m; r)                      *)
(*         f: a fallback is installed                                      *)
(*   log   <<"i", i>> invoked, <<"r", i>> returned                         *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT HistFile
Hs == JsonDeserialize(HistFile)
VARIABLE s
Log == Hs[s.h].log
Op(i) == Hs[s.h].ops[i]

HInit == \E i \in 1..Len(Hs) : s = [h |-> i, p |-> 1, reg |-> <<>>, pend |-> {}, lin |-> {}]

In(x, q) == \E i \in 1..Len(q) : q[i] = x
\* the latest registration of a method; reg: numbers of the registering operations, in order
Latest(svc, m) ==
  LET c == {i \in 1..Len(s.reg) : Op(s.reg[i]).s = svc /\ In(m, Op(s.reg[i]).ms)} IN
  IF c = {} THEN 0 ELSE s.reg[CHOOSE i \in c : \A j \in c : j <= i]
Svcs == {Op(s.reg[i]).s : i \in 1..Len(s.reg)}
Cands(svc, m) == (IF svc = "" THEN {Latest(x, m) : x \in Svcs} ELSE {Latest(svc, m)}) \ {0}
B(x) == IF x THEN "true" ELSE "false"
LinEn(o) ==
  CASE o.k = "call" -> LET c == Cands(o.s, o.m) IN
                       IF c = {} THEN o.r = (IF o.f THEN "fall" ELSE "none") ELSE o.r \in {ToString(i) : i \in c}
    [] o.k = "has"  -> o.r = B(\E i \in 1..Len(s.reg) : Op(s.reg[i]).s = o.s /\ Op(s.reg[i]).ms # <<>>)
    [] o.k = "hasm" -> o.r = B(Latest(o.s, o.m) # 0)
    [] OTHER -> o.r = "ok"
Consume ==
  /\ s.p <= Len(Log)
  /\ LET e == Log[s.p] IN
     IF e[1] = "i" THEN s' = [s EXCEPT !.p = @ + 1, !.pend = @ \cup {e[2]}]
     ELSE e[2] \in s.lin /\ s' = [s EXCEPT !.p = @ + 1, !.lin = @ \ {e[2]}]
Lin == \E i \in s.pend :
         /\ LinEn(Op(i))
         /\ s' = [s EXCEPT !.pend = @ \ {i}, !.lin = @ \cup {i}, !.reg = IF Op(i).k = "reg" THEN Append(@, i) ELSE @]
Accept == s.p = Len(Log) + 1 /\ PrintT(ToJson(<<"ACC", s.h>>)) /\ s' = [s EXCEPT !.p = @ + 1, !.reg = <<>>, !.pend = {}]
HNext == s.p <= Len(Log) + 1 /\ (Consume \/ Lin \/ Accept)
HSpec == HInit /\ [][HNext]_s
=============================================================================
