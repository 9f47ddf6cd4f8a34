----------------------------- MODULE ClientSet -----------------------------
(***************************************************************************)
(* A client set: an ordered list of clients tried one after the other.     *)
(* A client answers ok, with an error (err), with the unimplemented error  *)
(* (unimpl; unimpltext: another error value of the same text), cancelled   *)
(* although the caller's context is live (cancel), or cancelled because    *)
(* the caller's context ends during its attempt (ctxend).                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json
CONSTANTS MaxClients, Answers, Kinds

VARIABLE s
Init0 == [cl |-> <<>>, fixed |-> FALSE, ctx |-> TRUE, n |-> 0, a |-> <<>>, o |-> <<>>]
Core(t) == [t EXCEPT !.a = <<>>, !.o = <<>>]
Fp(t) == <<TLCFP(Core(t)), TLCFP(<<Core(t), "abcdefghijkl">>)>>
Obs(t, name, results) == [t EXCEPT !.o = Append(@, [n |-> name, r |-> results])]
Skips(k) == k \in {"unimpl", "unimpltext", "cancel"}
RECURSIVE Try(_, _, _)
Try(t, i, any) ==
  IF i > Len(t.cl) THEN Obs(t, "result", IF any THEN {"unimpl"} ELSE {"noclients"})
  ELSE LET k == t.cl[i] IN
       IF k = "nil" THEN Try(t, i + 1, any)
       ELSE LET u == Obs(t, "asked", {"c" \o ToString(i)}) IN
            IF Skips(k) THEN Try(u, i + 1, TRUE)
            ELSE IF k = "ctxend" THEN Obs([u EXCEPT !.ctx = FALSE], "result", {"cancel"})
            ELSE Obs(u, "result", {k \o ToString(i)})
Dead(t) == \* with a cancelled context every client reports that
  IF \A i \in 1..Len(t.cl) : t.cl[i] = "nil" THEN Obs(t, "result", {"noclients", "cancel"}) ELSE Obs(t, "result", {"cancel"})
EnvSet == {<<"client", k>> : k \in Answers \cup {"nil"}} \cup {<<"make">>, <<"end">>} \cup {<<"call", k>> : k \in Kinds}
EnvEn(t, a) == CASE a[1] = "client" -> ~t.fixed /\ Len(t.cl) < MaxClients
                 [] a[1] = "make" -> ~t.fixed
                 [] a[1] = "end" -> t.fixed /\ t.ctx
                 [] OTHER -> t.fixed
EnvDo(t0, a) ==
  LET t == [t0 EXCEPT !.a = a, !.o = <<>>] IN
  CASE a[1] = "client" -> [t EXCEPT !.cl = Append(@, a[2])]
    [] a[1] = "make" -> [t EXCEPT !.fixed = TRUE]
    [] a[1] = "end" -> [t EXCEPT !.ctx = FALSE]
    [] a[1] = "call" -> IF t.ctx THEN Try(t, 1, FALSE) ELSE Dead(t)
Init == s = Init0 /\ PrintT(ToJson(<<"init", Fp(s)>>))
Next == \E a \in EnvSet : EnvEn(s, a) /\ s' = EnvDo(s, a)
Spec == Init /\ [][Next]_s
View == Core(s)
Dump == PrintT(ToJson(<<Fp(s), Fp(s'), s'.a, s'.o, FALSE>>))
\* at most one client answers: nobody is asked after an answer
Inv == LET asked == SelectSeq(s.o, LAMBDA x : x.n = "asked")
           num(x) == CHOOSE i \in 1..MaxClients : x.r = {"c" \o ToString(i)}
       IN \A i \in 1..Len(asked) : i < Len(asked) => Skips(s.cl[num(asked[i])])
=============================================================================
