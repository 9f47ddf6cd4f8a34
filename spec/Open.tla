-------------------------------- MODULE Open --------------------------------
(***************************************************************************)
(* Opening calls on a muxed connection which opens only a few streams      *)
(* ahead of the server: Slots calls may be waiting to be accepted, the     *)
(* next open blocks until the server accepts one, a caller gives up or     *)
(* the connection is lost.  Calls are numbered in the order made.          *)
(*   st:  wait (blocked opening), sent (opened, not accepted), done        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json
CONSTANTS Slots, MaxCalls, Kinds, Ops

VARIABLE s
Init0 == [c |-> <<>>,     \* calls: [k, st]
          q |-> <<>>,     \* streams not accepted yet
          lost |-> FALSE, a |-> <<>>, o |-> <<>>]
Core(t) == [t EXCEPT !.a = <<>>, !.o = <<>>]
Fp(t) == <<TLCFP(Core(t)), TLCFP(<<Core(t), "abcdefghijkl">>)>>
Obs(t, name, results) == [t EXCEPT !.o = Append(@, [n |-> name, r |-> results])]
N(i) == ToString(i)
Waiting(t) == {i \in 1..Len(t.c) : t.c[i].st = "wait"}
Used(t) == Cardinality({i \in 1..Len(t.c) : t.c[i].st = "sent"})
\* the stream of call i is opened
Sent(t, i) ==
  LET u == [t EXCEPT !.c[i].st = "sent", !.q = Append(@, i)] IN
  IF t.c[i].k = "stream" THEN Obs(u, "open" \o N(i), {"ok"}) ELSE u
\* the end of call i as the caller sees it (a stream: what its receive returns)
End(t, i, results) ==
  LET n == IF t.c[i].k = "unary" THEN "exec" ELSE IF t.c[i].st = "wait" THEN "open" ELSE "recv"
  IN Obs([t EXCEPT !.c[i].st = "done"], n \o N(i), IF results = {"bad"} /\ n # "recv" THEN {"fail"} ELSE results)
RECURSIVE EndAll(_, _, _)
EndAll(t, is, results) ==
  IF is = {} THEN t ELSE LET i == CHOOSE x \in is : \A y \in is : x <= y IN EndAll(End(t, i, results), is \ {i}, results)

EnvSet == {<<"open", k>> : k \in Kinds} \cup {<<"precancel", k>> : k \in Kinds}
          \cup {<<"late", k>> : k \in Kinds}
          \cup {<<"cancel", i>> : i \in 1..MaxCalls} \cup {<<"accept">>, <<"lose">>}
EnvEn(t, a) ==
  /\ a[1] \in Ops
  /\ CASE a[1] \in {"open", "precancel"} -> Len(t.c) < MaxCalls
       \* the caller gives up at the moment the stream is opened
       [] a[1] = "late" -> Len(t.c) < MaxCalls /\ Used(t) < Slots /\ ~t.lost
       [] a[1] = "cancel" -> a[2] <= Len(t.c) /\ t.c[a[2]].st # "done" /\ (t.c[a[2]].st = "sent" => Cardinality(Waiting(t)) <= 1)
       \* which of several blocked opens comes first is not specified
       [] a[1] = "accept" -> t.q # <<>> /\ ~t.lost /\ Cardinality(Waiting(t)) <= 1
       [] a[1] = "lose" -> ~t.lost
EnvDo(t0, a) ==
  LET t == [t0 EXCEPT !.a = a, !.o = <<>>]
      new(st) == [t EXCEPT !.c = Append(@, [k |-> a[2], st |-> st])]
      i == Len(t.c) + 1
      more(u) == IF Waiting(u) = {} \/ Used(u) = Slots THEN u ELSE Sent(u, CHOOSE x \in Waiting(u) : TRUE) IN
  CASE a[1] = "open" ->
         IF t.lost THEN End(new("wait"), i, {"bad"})
         ELSE IF Used(t) < Slots THEN Sent(new("wait"), i) ELSE new("wait")
    [] a[1] = "precancel" -> End(new("wait"), i, {"cancel"})
    [] a[1] = "late" ->
         LET u == [new("wait") EXCEPT !.q = Append(@, i)]
         IN Obs(End(u, i, {"cancel"}), "closed" \o N(i), {"yes"})
    [] a[1] = "cancel" -> more(End(t, a[2], {"cancel"}))
    [] a[1] = "accept" ->
         LET j == Head(t.q)
             u == [t EXCEPT !.q = Tail(@)]
             v == IF t.c[j].st = "done" THEN u    \* given up: may reach the handler or not
                  ELSE End(Obs(u, "hstart" \o N(j), {"ok"}), j, IF t.c[j].k = "unary" THEN {"ok"} ELSE {"eof"})
         IN more(v)
    [] a[1] = "lose" -> EndAll([t EXCEPT !.lost = TRUE], {j \in 1..Len(t.c) : t.c[j].st # "done"}, {"bad"})
Init == s = Init0 /\ PrintT(ToJson(<<"init", Fp(s)>>))
Next == \E a \in EnvSet : EnvEn(s, a) /\ s' = EnvDo(s, a)
Spec == Init /\ [][Next]_s
View == Core(s)
Dump == PrintT(ToJson(<<Fp(s), Fp(s'), s'.a, s'.o, FALSE>>))
\* nobody waits without a reason; a call given up was cancelled, not lost
Inv == /\ Waiting(s) # {} => Used(s) = Slots /\ ~s.lost
       /\ s.lost => \A i \in 1..Len(s.c) : s.c[i].st = "done"
       /\ Used(s) <= Slots
=============================================================================
