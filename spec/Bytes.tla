-------------------------------- MODULE Bytes --------------------------------
(***************************************************************************)
(* The byte-stream view of a message stream.  The peer sends messages of   *)
(* 0..MaxLen units, the reader wants n units at a time and gets them as    *)
(* soon as enough units were sent, whatever the message boundaries; then   *)
(* the stream's end.  A failed acknowledgement (rpc streams) is reported   *)
(* as one error between the bytes around it.  Written bytes arrive exactly.*)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json
CONSTANTS MaxLen, MaxMsgs, MaxReads, MaxNeed, MaxWrites, Ops

VARIABLE s
None == "none"
Init0 == [ q |-> <<>>,       \* items not consumed: 1: a unit, 0: an error acknowledgement
           nmsg |-> 0, nread |-> 0, nwrite |-> 0, wrote |-> 0,
           need |-> 0, got |-> 0, end |-> None, closed |-> FALSE, a |-> <<>>, o |-> <<>> ]
Core(t) == [t EXCEPT !.a = <<>>, !.o = <<>>]
Fp(t) == <<TLCFP(Core(t)), TLCFP(<<Core(t), "abcdefghijkl">>)>>
Obs(t, name, results) == [t EXCEPT !.o = Append(@, [n |-> name, r |-> results])]
RECURSIVE Feed(_)
Feed(t) ==
  IF t.need = 0 THEN t
  ELSE IF t.q # <<>> THEN
     IF Head(t.q) = 0 THEN Obs([t EXCEPT !.q = Tail(@), !.need = 0], "read", {"ackerr"})
     ELSE LET u == [t EXCEPT !.q = Tail(@), !.need = @ - 1, !.got = @ + 1] IN
          IF u.need = 0 THEN Obs(u, "read", {"ok"}) ELSE Feed(u)
  ELSE IF t.closed THEN Obs([t EXCEPT !.need = 0], "read", {"fail"})
  ELSE IF t.end = "eof" THEN Obs([t EXCEPT !.need = 0], "read", {"eof"})
  ELSE IF t.end = "err" THEN Obs([t EXCEPT !.need = 0], "read", {"bad"})
  ELSE t
Rep(n) == [i \in 1..n |-> 1]
EnvSet == {<<"send", k>> : k \in 0..MaxLen} \cup {<<"end", k>> : k \in {"eof", "err"}} \cup {<<"ackerr">>, <<"ackok">>, <<"close">>}
          \cup {<<"read", k>> : k \in 1..MaxNeed} \cup {<<"write", k>> : k \in 0..MaxLen}
EnvEn(t, a) ==
  /\ (IF a[1] = "end" THEN a[1] \o a[2] ELSE a[1]) \in Ops /\ ~t.closed
  /\ CASE a[1] \in {"send", "ackerr", "ackok"} -> t.nmsg < MaxMsgs /\ t.end = None
       [] a[1] = "end" -> t.end = None
       [] a[1] = "read" -> t.nread < MaxReads /\ t.need = 0
       [] a[1] = "write" -> t.nwrite < MaxWrites
       [] OTHER -> TRUE
EnvDo(t0, a) ==
  LET t == [t0 EXCEPT !.a = a, !.o = <<>>] IN
  CASE a[1] = "send" -> Feed([t EXCEPT !.q = @ \o Rep(a[2]), !.nmsg = @ + 1])
    [] a[1] = "ackerr" -> Feed([t EXCEPT !.q = Append(@, 0), !.nmsg = @ + 1])
    [] a[1] = "ackok" -> [t EXCEPT !.nmsg = @ + 1]
    [] a[1] = "end" -> Feed([t EXCEPT !.end = a[2]])
    [] a[1] = "read" -> Feed([t EXCEPT !.need = a[2], !.nread = @ + 1])
    [] a[1] = "write" -> LET u == [t EXCEPT !.nwrite = @ + 1, !.wrote = @ + a[2]] IN Obs(u, "write", {"ok"})
    [] a[1] = "close" -> Obs(Feed([t EXCEPT !.closed = TRUE, !.q = <<>>]), "close", {"ok"})
Init == s = Init0 /\ PrintT(ToJson(<<"init", Fp(s)>>))
Next == \E a \in EnvSet : EnvEn(s, a) /\ s' = EnvDo(s, a)
Spec == Init /\ [][Next]_s
View == Core(s)
Dump == PrintT(ToJson(<<Fp(s), Fp(s'), s'.a, s'.o, s'.closed>>))
\* a read never waits while bytes are available, and waits only for a live stream
NoWait == s.need > 0 => s.q = <<>> /\ s.end = None /\ ~s.closed
Inv == NoWait
=============================================================================
