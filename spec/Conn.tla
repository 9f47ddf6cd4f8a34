-------------------------------- MODULE Conn --------------------------------
(***************************************************************************)
(* The net.Conn built on a ReadWriteCloser.  The peer sends units, the     *)
(* reader wants n units; a read that waits beyond its deadline fails with  *)
(* a timeout and can be retried: nothing is lost; a deadline set, moved or *)
(* cleared during a read applies to it.  Then the stream's end is reported.*)
(* Closing or cancelling releases a waiting read.  half: more than half of *)
(* the time to a deadline just set passes; time: more than all of it.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json
CONSTANTS MaxLen, MaxSends, MaxReads, MaxNeed, MaxWrites, Ops

VARIABLE s
None == "none"
Init0 == [ av |-> 0, nsend |-> 0, nread |-> 0, nwrite |-> 0,
           need |-> 0, parked |-> FALSE, dl |-> None, ndl |-> 0, end |-> None, wbroken |-> FALSE, over |-> FALSE,
           a |-> <<>>, o |-> <<>> ]
Core(t) == [t EXCEPT !.a = <<>>, !.o = <<>>]
Fp(t) == <<TLCFP(Core(t)), TLCFP(<<Core(t), "abcdefghijkl">>)>>
Obs(t, name, results) == [t EXCEPT !.o = Append(@, [n |-> name, r |-> results])]
Done(t, r) == Obs([t EXCEPT !.need = 0, !.parked = FALSE], "read", r)
Feed(t) ==
  IF t.need = 0 \/ t.parked THEN t
  ELSE IF t.over THEN Done(t, {"fail"})
  ELSE IF t.av >= t.need THEN Done([t EXCEPT !.av = @ - t.need], {"ok"})
  ELSE LET u == [t EXCEPT !.need = @ - t.av, !.av = 0] IN
       IF u.end = "eof" THEN Done(u, {"eof"})
       ELSE IF u.end = "err" THEN Done(u, {"bad"})
       ELSE IF u.dl = "expired" THEN Obs([u EXCEPT !.parked = TRUE], "read", {"timeout"})
       ELSE u
EnvSet == {<<"send", k>> : k \in 1..MaxLen} \cup {<<"end", k>> : k \in {"eof", "err"}}
          \cup {<<"sendend", k, e>> : k \in 1..MaxLen, e \in {"eof", "err"}}
          \cup {<<"read", k>> : k \in 1..MaxNeed} \cup {<<"write", k>> : k \in 0..MaxLen}
          \cup {<<x>> : x \in {"retry", "arm", "armpast", "clear", "time", "half", "werr", "close", "cancel"}}
EnvEn(t, a) ==
  /\ a[1] \in Ops /\ ~t.over
  /\ CASE a[1] = "send" -> t.nsend < MaxSends /\ t.end = None
       [] a[1] = "sendend" -> t.nsend < MaxSends /\ t.end = None
       [] a[1] = "end" -> t.end = None
       [] a[1] = "read" -> t.nread < MaxReads /\ t.need = 0 /\ ~(t.dl = "expired" /\ (t.av > 0 \/ t.end # None))
       [] a[1] = "retry" -> t.parked /\ (t.dl # "expired" \/ (t.av = 0 /\ t.end = None))
       [] a[1] \in {"arm", "armpast"} -> t.ndl < 2
       [] a[1] = "clear" -> t.dl # None
       [] a[1] \in {"time", "half"} -> t.dl \in {"armed", "low"}
       [] a[1] = "write" -> t.nwrite < MaxWrites
       [] a[1] = "werr" -> ~t.wbroken
       [] OTHER -> TRUE
EnvDo(t0, a) ==
  LET t == [t0 EXCEPT !.a = a, !.o = <<>>] IN
  CASE a[1] = "send" -> Feed([t EXCEPT !.av = @ + a[2], !.nsend = @ + 1])
    [] a[1] = "end" -> Feed([t EXCEPT !.end = a[2]])
    [] a[1] = "sendend" -> Feed([t EXCEPT !.av = @ + a[2], !.nsend = @ + 1, !.end = a[3]])
    [] a[1] = "read" -> Feed([t EXCEPT !.need = a[2], !.nread = @ + 1])
    [] a[1] = "retry" -> Feed([t EXCEPT !.parked = FALSE])
    [] a[1] = "arm" -> [t EXCEPT !.dl = "armed", !.ndl = @ + 1]
    [] a[1] = "armpast" -> Feed([t EXCEPT !.dl = "expired", !.ndl = @ + 1])
    [] a[1] = "clear" -> [t EXCEPT !.dl = None]
    [] a[1] = "time" -> Feed([t EXCEPT !.dl = "expired"])
    [] a[1] = "half" -> IF t.dl = "armed" THEN [t EXCEPT !.dl = "low"] ELSE Feed([t EXCEPT !.dl = "expired"])
    [] a[1] = "write" -> Obs([t EXCEPT !.nwrite = @ + 1], "write", IF t.wbroken /\ a[2] > 0 THEN {"fail"} ELSE {"ok"})
    [] a[1] = "werr" -> [t EXCEPT !.wbroken = TRUE]
    [] a[1] = "close" -> Obs(Feed([t EXCEPT !.over = TRUE]), "close", {"ok"})
    [] a[1] = "cancel" -> Feed([t EXCEPT !.over = TRUE])
Init == s = Init0 /\ PrintT(ToJson(<<"init", Fp(s)>>))
Next == \E a \in EnvSet : EnvEn(s, a) /\ s' = EnvDo(s, a)
Spec == Init /\ [][Next]_s
View == Core(s)
Dump == PrintT(ToJson(<<Fp(s), Fp(s'), s'.a, s'.o, s'.over>>))
\* a read waits only if nothing is available, and never beyond its deadline
NoWait == (s.need > 0 /\ ~s.parked) => (s.av = 0 /\ s.end = None /\ s.dl # "expired" /\ ~s.over)
Inv == NoWait
=============================================================================
