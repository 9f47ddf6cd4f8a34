------------------------------- MODULE Tunnel -------------------------------
(***************************************************************************)
(* A tunnel behind an rpc stream.  Kind = "raw": to a byte stream; "proxy":*)
(* to another rpc stream.  A is the calling side, B the target.            *)
(* What one side sends arrives on the other side in the same step; when    *)
(* either side ends, both are closed, the handler returns and the release  *)
(* function has run once.                                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json
CONSTANTS Kind, MaxA, MaxB, MaxLen, Ops, Getters, Firsts

VARIABLE s
None == "none"
Init0 == [ ph |-> "idle", getter |-> None, na |-> 0, nb |-> 0, ua |-> 0, ub |-> 0, over |-> FALSE, a |-> <<>>, o |-> <<>> ]
Core(t) == [t EXCEPT !.a = <<>>, !.o = <<>>]
Fp(t) == <<TLCFP(Core(t)), TLCFP(<<Core(t), "abcdefghijkl">>)>>
Obs(t, name, results) == [t EXCEPT !.o = Append(@, [n |-> name, r |-> results])]
Over(t) == [t EXCEPT !.ph = "over", !.over = TRUE]
HasRel(t) == t.getter \in {"found", "callererr", "callernil", "senderr", "errrel", "ackfail", "errB", "callerblock", "callerboth", "nocaller"}
HasB(t) == t.getter \in {"found", "foundnorel", "senderr", "ackfail", "errB", "callerboth"}
Ret(t, r) ==
  LET u == Obs(Over(t), "ret", r)
      v == IF HasB(t) THEN Obs(u, "closedB", {"yes"}) ELSE u
  IN IF HasRel(t) THEN Obs(v, "released", {"once"}) ELSE v
Fail(t, ack, r) == Ret(Obs(t, "ackA", {ack}), r)
First(t, k) ==
  IF k # "init" THEN Obs(Over(t), "ret", {"fail"})
  ELSE LET u == Obs(t, "asked", {"id"}) IN
       \* the getter, or the call to the target, waits until the context ends
       IF t.getter \in {"getterblock", "callerblock"} THEN [u EXCEPT !.ph = "block"]
       ELSE IF t.getter \in {"none", "nocaller"} THEN Fail(u, "none", {"none"})
       ELSE IF t.getter \in {"err", "errrel", "errB"} THEN Fail(u, "err", {"geterr"})
       ELSE IF t.getter = "ackfail" THEN Ret(u, {"fail"})   \* A does not take the acknowledgement
       ELSE IF Kind = "raw" THEN Obs([u EXCEPT !.ph = "run"], "ackA", {"ok"})
       ELSE IF t.getter \in {"callererr", "callerboth"} THEN Fail(u, "other", {"fail"})
       ELSE IF t.getter = "callernil" THEN Fail(u, "other", {"none"})
       ELSE IF t.getter = "senderr" THEN Fail(u, "other", {"fail"})
       ELSE Obs([u EXCEPT !.ph = "run"], "initB", {"target"})
\* units arriving: the number of the last one
Arrive(t, side, k) ==
  IF k = 0 THEN t
  ELSE IF side = "a" THEN Obs([t EXCEPT !.ua = @ + k], "toB", {"u" \o ToString(t.ua + k)})
  ELSE Obs([t EXCEPT !.ub = @ + k], "toA", {"u" \o ToString(t.ub + k)})
Ended(t) == Ret(Obs(t, "closedA", {"yes"}), {"any"})
EnvSet == {<<"serve", g>> : g \in Getters} \cup {<<"first", k>> : k \in Firsts} \cup {<<"firstend", k>> : k \in {"eof", "err", "cancel"}}
          \cup {<<x, k>> : x \in {"a", "b"}, k \in 0..MaxLen}
          \cup {<<"enda", k>> : k \in {"eof", "err", "cancel", "close"}} \cup {<<"endb", k>> : k \in {"eof", "err"}}
          \cup {<<g, k, e>> : g \in {"gonea", "goneb"}, k \in 1..MaxLen, e \in {"eof", "err"}}
          \cup {<<"bursta", k, e>> : k \in 1..MaxLen, e \in {"eof"}} \cup {<<"burstb", k, e>> : k \in 1..MaxLen, e \in {"eof", "err"}}
Name(a) == IF a[1] \in {"enda", "endb"} THEN a[1] \o a[2] ELSE a[1]
EnvEn(t, a) ==
  /\ Name(a) \in Ops /\ ~t.over
  /\ CASE a[1] = "serve" -> t.ph = "idle"
       [] a[1] \in {"first", "firstend"} -> t.ph = "first"
       [] a[1] = "a" -> t.ph = "run" /\ t.na < MaxA
       [] a[1] = "b" -> t.ph = "run" /\ t.nb < MaxB
       [] a[1] = "enda" -> t.ph = "run" \/ (t.ph = "block" /\ a[2] = "cancel")
       [] OTHER -> t.ph = "run"
EnvDo(t0, a) ==
  LET t == [t0 EXCEPT !.a = a, !.o = <<>>] IN
  CASE a[1] = "serve" -> [t EXCEPT !.ph = "first", !.getter = a[2]]
    [] a[1] = "first" -> First(t, a[2])
    [] a[1] = "firstend" -> Obs(Over(t), "ret", {"fail"})
    [] a[1] = "a" -> Arrive([t EXCEPT !.na = @ + 1], "a", a[2])
    [] a[1] = "b" -> Arrive([t EXCEPT !.nb = @ + 1], "b", a[2])
    [] a[1] = "enda" -> IF t.ph = "run" THEN Ended(t)
                        ELSE IF t.getter = "getterblock" THEN Fail(t, "err", {"geterr"})
                        ELSE Fail(t, "other", {"fail"})
    [] a[1] = "endb" -> Ended(t)
    [] a[1] = "bursta" -> Ended(Arrive(t, "a", a[2]))
    [] a[1] = "burstb" -> Ended(Arrive(t, "b", a[2]))
    \* a side sent its last units and is gone when the other side sends one
    [] a[1] = "gonea" -> Ended(Arrive(t, "a", a[2]))
    [] a[1] = "goneb" -> Ended(Arrive(t, "b", a[2]))
Init == s = Init0 /\ PrintT(ToJson(<<"init", Fp(s)>>))
Next == \E a \in EnvSet : EnvEn(s, a) /\ s' = EnvDo(s, a)
Spec == Init /\ [][Next]_s
View == Core(s)
Dump == PrintT(ToJson(<<Fp(s), Fp(s'), s'.a, s'.o, s'.over>>))
Has(n) == \E i \in 1..Len(s.o) : s.o[i].n = n
\* both sides are ended together, with the handler and the component
Together == Has("closedA") => Has("ret") /\ (HasB(s) => Has("closedB")) /\ (HasRel(s) => Has("released"))
Inv == Together
=============================================================================
