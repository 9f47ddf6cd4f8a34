-------------------------------- MODULE Wrap --------------------------------
(***************************************************************************)
(* Wrappers: a stream or packet writer with an additional close function   *)
(* (Depth times), a logging client.  Every operation reaches the wrapped   *)
(* object with the same arguments and returns its result; closing closes   *)
(* the wrapped object and then calls the functions, innermost first, every *)
(* time, and returns the first error.                                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json
CONSTANTS Kinds, Depths, MaxOps

VARIABLE s
Init0 == [kind |-> "", depth |-> 0, n |-> 0, a |-> <<>>, o |-> <<>>]
Core(t) == [t EXCEPT !.a = <<>>, !.o = <<>>]
Fp(t) == <<TLCFP(Core(t)), TLCFP(<<Core(t), "abcdefghijkl">>)>>
Obs(t, name, results) == [t EXCEPT !.o = Append(@, [n |-> name, r |-> results])]
OpsOf(k) == CASE k = "stream" -> {"send", "recv", "half", "ctx"} [] k = "writer" -> {"write"} [] k = "client" -> {"exec", "stream"}
R == {"ok", "err"}
First(q) == IF \A i \in 1..Len(q) : q[i] = "ok" THEN "ok"
            ELSE LET i == CHOOSE i \in 1..Len(q) : q[i] # "ok" /\ \A j \in 1..(i - 1) : q[j] = "ok" IN "err" \o ToString(i - 1)
EnvSet == {<<"make", k, d>> : k \in Kinds, d \in Depths}
          \cup {<<"op", x, r>> : x \in UNION {OpsOf(k) : k \in Kinds}, r \in R}
          \cup UNION {{<<"close">> \o q : q \in [1..(d + 1) -> R]} : d \in Depths}
EnvEn(t, a) ==
  CASE a[1] = "make" -> t.kind = "" /\ (a[2] = "client" => a[3] = 1)
    [] a[1] = "op" -> t.kind # "" /\ a[2] \in OpsOf(t.kind) /\ t.n < MaxOps /\ (a[2] = "ctx" => a[3] = "ok")
    [] a[1] = "close" -> t.kind \in {"stream", "writer"} /\ Len(a) = t.depth + 2 /\ t.n < MaxOps
EnvDo(t0, a) ==
  LET t == [t0 EXCEPT !.a = a, !.o = <<>>] IN
  CASE a[1] = "make" -> [t EXCEPT !.kind = a[2], !.depth = a[3]]
    [] a[1] = "op" -> Obs(Obs([t EXCEPT !.n = @ + 1], "inner", {a[2]}), "result", {IF a[3] = "ok" THEN "ok" ELSE "err0"})
    [] a[1] = "close" ->
         LET calls == [i \in 1..(t.depth + 1) |-> [n |-> "called" \o ToString(i - 1), r |-> {"once"}]]
         IN Obs([t EXCEPT !.n = @ + 1, !.o = calls], "result", {First(Tail(a))})
Init == s = Init0 /\ PrintT(ToJson(<<"init", Fp(s)>>))
Next == \E a \in EnvSet : EnvEn(s, a) /\ s' = EnvDo(s, a)
Spec == Init /\ [][Next]_s
View == Core(s)
Dump == PrintT(ToJson(<<Fp(s), Fp(s'), s'.a, s'.o, FALSE>>))
\* a close always reaches the wrapped object and every function
Inv == s.a # <<>> /\ s.a[1] = "close" => Len(s.o) = s.depth + 2
=============================================================================
