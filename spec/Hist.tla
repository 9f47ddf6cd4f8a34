-------------------------------- MODULE Hist --------------------------------
(***************************************************************************)
(* Recorded executions of one call whose stream is used by several         *)
(* goroutines on both sides.  A history is                                 *)
(*   ops   operation i: kind k, message m, result r                        *)
(*   log   <<"i", i>> operation i invoked, <<"r", i>> it returned,         *)
(*         <<"x">> the handler's context was seen done,                    *)
(*         <<"q">> nothing can happen any more without a new operation     *)
(* It is accepted if some order of the operations' effects, each between   *)
(* its invocation and its return, interleaved with the endpoints'          *)
(* reactions of Call, explains every result, and if whenever the log says  *)
(* that nothing can happen the specification agrees: every waiting         *)
(* operation really has nothing to return (no lost wakeup).                *)
(* Init takes every recorded history; an accepted one is printed.          *)
(***************************************************************************)
EXTENDS Call
CONSTANT HistFile
Hs == JsonDeserialize(HistFile)

Opened == [Init0 EXCEPT !.k = "stream", !.cw = TRUE, !.hw = TRUE, !.hst = "run", !.hstarts = 1]
Log == Hs[s.h].log
Op(i) == Hs[s.h].ops[i]
Clean(t) == [t EXCEPT !.o = <<>>, !.a = <<>>, !.cn = 0, !.hn = 0, !.cr = 0, !.hr = 0, !.chalf = IF @ > 1 THEN 1 ELSE @,
                      !.hhalf = IF @ > 1 THEN 1 ELSE @]

HInit == \E i \in 1..Len(Hs) : s = [h |-> i, p |-> 1, t |-> Opened, pend |-> {}, lin |-> {}, x |-> FALSE, dr |-> FALSE]

\* does the recorded error r fall into the specification's set R
Fits(r, R) == CASE r = "eof" -> "eof" \in R
                [] r = "err" -> "err" \in R \/ "bad" \in R
                [] r = "cancel" -> "cancel" \in R \/ "bad" \in R
                [] OTHER -> "bad" \in R
CErr(t) == IF t.cseen # None THEN Outcome(t.cseen)
           ELSE IF Loose(t) THEN (IF t.cx /\ t.cfin = None THEN {"cancel"} ELSE {"bad"})
                                 \cup (IF t.cfin = None THEN {} ELSE Outcome(t.cfin))
           ELSE IF t.cq = <<>> /\ t.cfin # None THEN Outcome(t.cfin) ELSE {}
HErr(t) == IF HLoose(t) THEN {"bad"} \cup (IF t.hfin = "eof" THEN {"eof"} ELSE {})
           ELSE IF t.hq = <<>> /\ t.hfin # None THEN Outcome(t.hfin) ELSE {}
COver(t) == t.cx \/ t.cclosed \/ t.cfin # None \/ ~t.cw \/ ~t.hw
HOver(t) == t.hx \/ ~t.hw \/ ~t.cw

\* can operation o take effect with its recorded result, and the state then
LinEn(t, o) ==
  CASE o.k \in {"csend", "chalf"} -> IF o.r = "ok" THEN TRUE ELSE COver(t)
    [] o.k \in {"hsend", "hhalf"} -> IF o.r = "ok" THEN TRUE ELSE HOver(t)
    [] o.k = "crecv" -> IF o.r = "msg" THEN t.cq # <<>> /\ Head(t.cq) = o.m ELSE Fits(o.r, CErr(t))
    [] o.k = "hrecv" -> IF o.r = "msg" THEN t.hq # <<>> /\ Head(t.hq) = o.m ELSE Fits(o.r, HErr(t))
    [] OTHER -> TRUE
ToC(t, p) == IF Loose(t) THEN [t EXCEPT !.w2 = Append(@, p)] ELSE S2C(t, p)
ToS(t, p) == IF Loose(t) THEN [t EXCEPT !.w1 = Append(@, p)] ELSE C2S(t, p)
LinDo(t, o) ==
  CASE o.k = "csend" -> IF o.r = "ok" /\ ~t.cx THEN ToS(t, Msg(o.m)) ELSE t
    [] o.k = "chalf" -> IF o.r = "ok" THEN ToS([t EXCEPT !.chalf = 1], Pkt("comp")) ELSE t
    [] o.k = "hsend" -> IF o.r = "ok" THEN ToC(t, Msg(o.m)) ELSE t
    [] o.k = "hhalf" -> IF o.r = "ok" THEN ToC([t EXCEPT !.hhalf = 1], Pkt("comp")) ELSE t
    [] o.k = "crecv" -> IF o.r = "msg" THEN [t EXCEPT !.cq = Tail(@)]
                        ELSE IF Loose(t) THEN t ELSE [t EXCEPT !.cseen = t.cfin]
    [] o.k = "hrecv" -> IF o.r = "msg" THEN [t EXCEPT !.hq = Tail(@)] ELSE t
    [] o.k = "cclose" -> CEnd([t EXCEPT !.cclosed = TRUE])
    [] o.k = "ccancel" -> [t EXCEPT !.cx = TRUE, !.cdead = TRUE]
    [] o.k = "hclose" -> HCancel(S2C([t EXCEPT !.hclosed = TRUE], Pkt("cancel")))
    [] o.k \in {"hret", "hfail"} ->
         CloseS(ToC([t EXCEPT !.hst = "ret", !.hx = TRUE], Pkt(IF o.k = "hret" THEN "comp" ELSE "err")))

\* the server's end of the stream is closed shortly after the handler's context
\* is cancelled: until then what the handler sends still goes out
Fin(w) == w # <<>> /\ w[Len(w)].k = "fin"
LinIns(t, o) ==
  LET p == CASE o.k = "hsend" -> Msg(o.m) [] o.k \in {"hret", "hhalf"} -> Pkt("comp") [] o.k = "hfail" -> Pkt("err")
      u == [t EXCEPT !.w2 = Append(SubSeq(@, 1, Len(@) - 1), p) \o <<Pkt("fin")>>]
  IN IF o.k = "hsend" THEN u ELSE IF o.k = "hhalf" THEN [u EXCEPT !.hhalf = 1] ELSE [u EXCEPT !.hst = "ret"]
InsEn(t, o) == o.k \in {"hsend", "hhalf", "hret", "hfail"} /\ o.r = "ok" /\ t.hx /\ ~t.hw /\ Fin(t.w2)
Drops(t, o) == o.k \in {"hsend", "hhalf"} /\ o.r = "ok" /\ ~t.hw

HRx == {"cclose", "d1", "d2"}
\* a waiting operation has nothing to return
Stuck(t, o) == CASE o.k = "crecv" -> ~CRecvReady(t) /\ t.cseen = None
                 [] o.k = "hrecv" -> ~HRecvReady(t)
                 [] OTHER -> FALSE
Quiet == /\ s.lin = {} /\ \A i \in s.pend : Stuck(s.t, Op(i))
         /\ \A r \in HRx : ~REn(s.t, r)
         /\ s.x = s.t.hx

Consume ==
  /\ s.p <= Len(Log)
  /\ LET e == Log[s.p] IN
     CASE e[1] = "i" -> s' = [s EXCEPT !.p = @ + 1, !.pend = @ \cup {e[2]}]
       [] e[1] = "r" -> e[2] \in s.lin /\ s' = [s EXCEPT !.p = @ + 1, !.lin = @ \ {e[2]}]
       [] e[1] = "x" -> s.t.hx /\ s' = [s EXCEPT !.p = @ + 1, !.x = TRUE]
       [] e[1] = "q" -> Quiet /\ s' = [s EXCEPT !.p = @ + 1]
Lin == \E i \in s.pend : /\ Op(i).r # "none" /\ LinEn(s.t, Op(i))
                         /\ s' = [s EXCEPT !.pend = @ \ {i}, !.lin = @ \cup {i}, !.t = Clean(LinDo(s.t, Op(i))),
                                                !.dr = @ \/ Drops(s.t, Op(i))]
Ins == \E i \in s.pend : /\ ~s.dr /\ InsEn(s.t, Op(i))
                         /\ s' = [s EXCEPT !.pend = @ \ {i}, !.lin = @ \cup {i}, !.t = Clean(LinIns(s.t, Op(i)))]
\* until everything has come to rest, an endpoint that already stopped may
\* still take what arrives: the other side cannot tell
Late(t, r) == CASE r = "d1" -> t.w1 # <<>> /\ HLoose(t) /\ ~t.hw /\ Head(t.w1).k \in {"msg", "comp"}
                [] r = "d2" -> t.w2 # <<>> /\ Loose(t) /\ ~t.cw /\ Head(t.w2).k \in {"msg", "comp", "err"}
                [] OTHER -> FALSE
LateDo(t, r) == IF r = "d1" THEN
                  LET p == Head(t.w1)
                      u == [t EXCEPT !.w1 = Tail(@)]
                  IN IF p.k = "msg" THEN [u EXCEPT !.hq = Append(@, p.m)]
                     ELSE IF u.hfin \in {None, "cancel", "cut"} THEN [u EXCEPT !.hfin = "eof"] ELSE u
                ELSE LET p == Head(t.w2)
                         u == [t EXCEPT !.w2 = Tail(@)]
                     IN IF p.k = "msg" THEN [u EXCEPT !.cq = Append(@, p.m)]
                        ELSE IF u.cfin \in {None, "cancel"} THEN [u EXCEPT !.cfin = IF p.k = "comp" THEN "eof" ELSE "err"] ELSE u
React == \E r \in HRx : REn(s.t, r) /\ s' = [s EXCEPT !.t = Clean(RDo(s.t, r))]
LateReact == \E r \in HRx : Late(s.t, r) /\ s' = [s EXCEPT !.t = Clean(LateDo(s.t, r))]
Accept == s.p = Len(Log) + 1 /\ PrintT(ToJson(<<"ACC", s.h>>)) /\ s' = [s EXCEPT !.p = @ + 1, !.t = Opened, !.pend = {}, !.lin = {}]
HNext == s.p <= Len(Log) + 1 /\ (Consume \/ Lin \/ Ins \/ React \/ LateReact \/ Accept)
HSpec == HInit /\ [][HNext]_s
=============================================================================
