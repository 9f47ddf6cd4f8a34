-------------------------------- MODULE Pipe --------------------------------
(***************************************************************************)
(* The in-memory stream pair.  q[e] messages are on their way to end e; a  *)
(* sender waits while Cap messages are buffered.  Cap is measured on the   *)
(* implementation before the graph is generated: the specification does    *)
(* not depend on its value.                                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json
CONSTANTS Cap, MaxSend, MaxRecv, Ops

VARIABLE s
Ends == 1..2
Oth(e) == 3 - e
Init0 == [ q |-> <<0, 0>>, snd |-> <<FALSE, FALSE>>, rcv |-> <<FALSE, FALSE>>, half |-> <<FALSE, FALSE>>,
           closed |-> <<FALSE, FALSE>>, fuzzy |-> <<FALSE, FALSE>>, cancelled |-> FALSE,
           ns |-> <<0, 0>>, nr |-> <<0, 0>>, nc |-> 0, a |-> <<>>, o |-> <<>> ]
Core(t) == [t EXCEPT !.a = <<>>, !.o = <<>>]
Fp(t) == <<TLCFP(Core(t)), TLCFP(<<Core(t), "abcdefghijkl">>)>>
Obs(t, name, e, results) == [t EXCEPT !.o = Append(@, [n |-> name \o ToString(e), r |-> results])]
Dead(t, e) == t.closed[e] \/ t.cancelled
\* a waiting receiver takes a message, a waiting sender gets space, and
\* waiting operations end with the stream
Wake(t, e) ==
  IF t.rcv[e] /\ t.q[e] > 0 THEN Obs([t EXCEPT !.rcv[e] = FALSE, !.q[e] = @ - 1], "recv", e, {"msg"})
  ELSE IF t.rcv[e] /\ t.snd[Oth(e)] /\ t.q[e] = 0 /\ ~Dead(t, e) THEN
       Obs(Obs([t EXCEPT !.rcv[e] = FALSE, !.snd[Oth(e)] = FALSE], "recv", e, {"msg"}), "send", Oth(e), {"ok"})
  ELSE IF t.rcv[e] /\ Dead(t, e) THEN Obs([t EXCEPT !.rcv[e] = FALSE], "recv", e, {"fail"})
  ELSE IF t.rcv[e] /\ (t.half[Oth(e)] \/ t.closed[Oth(e)]) THEN Obs([t EXCEPT !.rcv[e] = FALSE], "recv", e, {"eof"})
  ELSE IF t.snd[e] /\ (Dead(t, e) \/ t.half[e] \/ t.closed[Oth(e)]) THEN Obs([t EXCEPT !.snd[e] = FALSE], "send", e, {"fail"})
  ELSE IF t.snd[e] /\ t.q[Oth(e)] < Cap THEN Obs([t EXCEPT !.snd[e] = FALSE, !.q[Oth(e)] = @ + 1], "send", e, {"ok"})
  ELSE t
\* the context of an end lasts until the end is closed or cancelled
Ended(t, e) == IF Dead(t, e) THEN t ELSE Obs(t, "ctx", e, {"done"})
RECURSIVE Settle(_)
Settle(t) == LET u == Wake(Wake(t, 1), 2) IN IF u = t THEN t ELSE Settle(u)
EnvSet == {<<x, e>> : x \in {"send", "recv", "half", "close", "fill", "drain"}, e \in Ends} \cup {<<"cancel", 0>>}
EnvEn(t, a) ==
  /\ a[1] \in Ops
  /\ CASE a[1] = "send" -> ~t.snd[a[2]] /\ t.ns[a[2]] < MaxSend
       [] a[1] = "fill" -> ~t.snd[a[2]] /\ t.ns[a[2]] = 0 /\ t.q[Oth(a[2])] < Cap /\ ~Dead(t, a[2]) /\ ~Dead(t, Oth(a[2])) /\ ~t.half[a[2]] /\ ~t.rcv[Oth(a[2])]
       [] a[1] = "drain" -> ~t.rcv[a[2]] /\ t.nr[a[2]] = 0 /\ t.q[a[2]] > 1 /\ ~Dead(t, a[2])
       [] a[1] = "recv" -> ~t.rcv[a[2]] /\ ~t.fuzzy[a[2]] /\ t.nr[a[2]] < MaxRecv
       [] a[1] = "half" -> t.nc < 4
       [] a[1] = "close" -> t.nc < 4
       [] a[1] = "cancel" -> ~t.cancelled
RECURSIVE Many(_, _, _)
\* n messages are received by e while a sender may be waiting
Many(t, e, n) == IF n = 0 THEN t ELSE Many(Settle([t EXCEPT !.rcv[e] = TRUE]), e, n - 1)
EnvDo(t0, a) ==
  LET t == [t0 EXCEPT !.a = a, !.o = <<>>]  e == a[2] IN
  CASE a[1] = "send" ->
         LET u == [t EXCEPT !.ns[e] = @ + 1] IN
         IF t.half[e] \/ t.closed[e] THEN Obs(u, "send", e, {"fail"})
         ELSE IF t.cancelled \/ t.closed[Oth(e)] THEN Obs([u EXCEPT !.fuzzy[Oth(e)] = TRUE], "send", e, {"ok", "fail"})
         ELSE Settle([u EXCEPT !.snd[e] = TRUE])
    [] a[1] = "fill" -> [t EXCEPT !.q[Oth(e)] = Cap, !.a = <<"fill", e, Cap - t.q[Oth(e)]>>]
    [] a[1] = "drain" -> Many([t EXCEPT !.nr[e] = @ + 1, !.a = <<"drain", e, t.q[e]>>], e, t.q[e])
    [] a[1] = "recv" ->
         LET u == [t EXCEPT !.nr[e] = @ + 1] IN
         IF Dead(t, e) THEN (IF t.q[e] > 0 THEN Obs([u EXCEPT !.fuzzy[e] = TRUE], "recv", e, {"msg", "fail"}) ELSE Obs(u, "recv", e, {"fail"}))
         ELSE Settle([u EXCEPT !.rcv[e] = TRUE])
    [] a[1] = "half" -> Settle(Obs([t EXCEPT !.half[e] = TRUE, !.nc = @ + 1], "half", e, {"ok", "fail"}))
    [] a[1] = "close" -> Settle(Obs([Ended(t, e) EXCEPT !.closed[e] = TRUE, !.nc = @ + 1], "close", e, {"ok", "fail"}))
    [] a[1] = "cancel" -> Settle([Ended(Ended(t, 1), 2) EXCEPT !.cancelled = TRUE])
Init == s = Init0 /\ PrintT(ToJson(<<"init", Fp(s)>>))
Next == \E a \in EnvSet : EnvEn(s, a) /\ s' = EnvDo(s, a)
Spec == Init /\ [][Next]_s
View == Core(s)
Dump == PrintT(ToJson(<<Fp(s), Fp(s'), s'.a, s'.o, FALSE>>))
\* an operation only waits on a live stream, for a message or for space
Waits == \A e \in Ends :
  /\ s.rcv[e] => s.q[e] = 0 /\ ~Dead(s, e) /\ ~s.half[Oth(e)] /\ ~s.closed[Oth(e)] /\ ~s.snd[Oth(e)]
  /\ s.snd[e] => s.q[Oth(e)] = Cap /\ ~Dead(s, e) /\ ~s.closed[Oth(e)] /\ ~s.half[e]
Inv == Waits
=============================================================================
