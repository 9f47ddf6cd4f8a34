-------------------------------- MODULE Setup --------------------------------
(***************************************************************************)
(* Setting up an rpc stream: the caller's side (Side = "caller") sends the *)
(* component id and may wait for the acknowledgement; the other side       *)
(* (rpc: a mux, raw: a byte stream, proxy: another rpc stream) looks the   *)
(* component up, acknowledges, runs, and releases the component once.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json
CONSTANTS Side, Ops

VARIABLE s
None == "none"
Init0 ==
  [ ph |-> "idle", wait |-> FALSE, getter |-> None, in |-> <<>>, end |-> None, serr |-> FALSE,
    run |-> FALSE, n |-> 0, over |-> FALSE, a |-> <<>>, o |-> <<>> ]
Core(t) == [t EXCEPT !.a = <<>>, !.o = <<>>]
Fp(t) == <<TLCFP(Core(t)), TLCFP(<<Core(t), "abcdefghijkl">>)>>
Obs(t, name, results) == [t EXCEPT !.o = Append(@, [n |-> name, r |-> results])]

---------------------------------------------------------------------------
\* caller
OpenFail(t, r) == Obs(Obs([t EXCEPT !.ph = "over", !.over = TRUE], "open", r), "strmclosed", {"yes"})
RECURSIVE Caller(_)
Caller(t) ==
  IF t.ph # "wait" THEN t
  ELSE IF t.in # <<>> THEN
     LET k == Head(t.in) u == [t EXCEPT !.in = Tail(@)] IN
     IF k = "ackok" THEN Obs([u EXCEPT !.ph = "open"], "open", {"ok"})
     ELSE IF k = "ackerr" THEN OpenFail(u, {"ackerr"})
     ELSE OpenFail(u, {"fail"})
  ELSE IF t.end # None THEN OpenFail(t, {"fail"})
  ELSE t
CEnvSet == {<<"open", w, c>> : w \in {"ack", "noack"}, c \in {"ok", "callererr", "senderr"}}
           \cup {<<"peer", k>> : k \in {"ackok", "ackerr", "data", "init", "empty"}}
           \cup {<<"end", k>> : k \in {"eof", "err", "cancel"}}
CEn(t, a) == CASE a[1] = "open" -> t.ph = "idle"
               [] a[1] = "peer" -> t.ph \in {"wait", "idle"} /\ t.n < 2 /\ t.end = None
               [] OTHER -> t.ph \in {"wait", "idle"} /\ t.end = None /\ (t.ph = "idle" => a[2] # "cancel")
CDo(t, a) ==
  CASE a[1] = "open" ->
        IF a[3] = "callererr" THEN Obs([t EXCEPT !.ph = "over", !.over = TRUE], "open", {"callererr"})
        ELSE IF a[3] = "senderr" THEN OpenFail(t, {"fail"})
        ELSE LET u == Obs(t, "sent", {"init"}) IN
             IF a[2] = "ack" THEN Caller([u EXCEPT !.ph = "wait", !.wait = TRUE])
             ELSE Obs([u EXCEPT !.ph = "open", !.over = TRUE], "open", {"ok"})
    [] a[1] = "peer" -> Caller([t EXCEPT !.in = Append(@, a[2]), !.n = @ + 1])
    [] a[1] = "end" -> Caller([t EXCEPT !.end = a[2]])

---------------------------------------------------------------------------
\* the side which is asked
Found(t) == t.getter \in {"found", "foundnorel"}
Rel(t) == IF t.getter = "found" THEN Obs(t, "released", {"once"}) ELSE t
Ret(t, r) == LET u == Obs([t EXCEPT !.ph = "over", !.over = TRUE], "ret", r) IN IF Found(t) THEN Rel(u) ELSE u
\* the call running inside ends with the stream
NotFound(v) ==
  LET w == IF v.serr THEN v ELSE Obs(v, "sent", {IF v.getter = "none" THEN "acknone" ELSE "ackerr"}) IN
  Obs([w EXCEPT !.ph = "over", !.over = TRUE], "ret", {IF v.getter = "none" THEN "none" ELSE "geterr"})
RECURSIVE Serve(_)
Serve(t) ==
  IF t.ph = "first" THEN
     IF t.in # <<>> THEN
        LET k == Head(t.in) u == [t EXCEPT !.in = Tail(@)] IN
        IF k # "init" THEN Obs([u EXCEPT !.ph = "over", !.over = TRUE], "ret", {"fail"})
        ELSE LET v == Obs(u, "asked", {"id"}) IN
             IF v.getter = "block" /\ v.end # "cancel" THEN [v EXCEPT !.ph = "block"]
             ELSE IF ~Found(v) THEN NotFound(v)
             ELSE IF v.serr THEN Ret(v, {"fail"})
             ELSE Serve(Obs([v EXCEPT !.ph = "run"], "sent", {"ackok"}))
     ELSE IF t.end # None THEN Obs([t EXCEPT !.ph = "over", !.over = TRUE], "ret", {"fail"})
     ELSE t
  ELSE IF t.ph = "run" THEN
     IF t.in # <<>> THEN
        LET k == Head(t.in) u == [t EXCEPT !.in = Tail(@)] IN
        IF k = "callstart" /\ ~t.run THEN Serve(Obs([u EXCEPT !.run = TRUE], "hstart", {"ok"}))
        ELSE IF k = "callstart" THEN Ret(Obs(u, "hctx", {"done"}), {"fail"})     \* refused: the call ends
        ELSE Serve(u)        \* acknowledgements and empty packets carry no data
     ELSE IF t.end # None THEN
        \* the handler, if any, is cancelled and the stream is over
        Ret(IF t.run THEN Obs(t, "hctx", {"done"}) ELSE t, {"any"})
     ELSE t
  \* the getter waits until the context ends
  ELSE IF t.ph = "block" /\ t.end = "cancel" THEN NotFound(t)
  ELSE t
SEnvSet == {<<"serve", g>> : g \in {"found", "foundnorel", "none", "err", "block"}} \cup {<<"serr">>}
           \cup {<<"peer", k>> : k \in {"init", "nilinit", "ack", "data", "empty", "callstart"}}
           \cup {<<"end", k>> : k \in {"eof", "err", "cancel"}} \cup {<<"hret">>}
SEn(t, a) == CASE a[1] = "serve" -> t.ph = "idle"
               [] a[1] = "serr" -> t.ph \in {"idle", "first"} /\ ~t.serr
               [] a[1] = "peer" -> /\ t.ph # "over" /\ t.n < 3 /\ t.end = None
                                   \* what follows the init is call packets
                                   /\ t.n > 0 => a[2] \in {"callstart", "ack", "empty"}
                                   /\ a[2] = "callstart" => t.n > 0
               [] a[1] = "end" -> t.ph # "over" /\ t.end = None
               [] a[1] = "hret" -> t.run /\ t.ph = "run"
SDo(t, a) ==
  CASE a[1] = "serve" -> Serve([t EXCEPT !.ph = "first", !.getter = a[2]])
    [] a[1] = "serr" -> [t EXCEPT !.serr = TRUE]
    [] a[1] = "peer" -> Serve([t EXCEPT !.in = Append(@, a[2]), !.n = @ + 1])
    [] a[1] = "end" -> Serve([t EXCEPT !.end = a[2]])
    [] a[1] = "hret" -> Ret([t EXCEPT !.run = FALSE], {"any"})

EnvDo(t0, a) == LET t == [t0 EXCEPT !.a = a, !.o = <<>>] IN IF Side = "caller" THEN CDo(t, a) ELSE SDo(t, a)
EnvSet == IF Side = "caller" THEN CEnvSet ELSE SEnvSet
EnvEn(t, a) == a[1] \in Ops /\ ~t.over /\ IF Side = "caller" THEN CEn(t, a) ELSE SEn(t, a)
Init == s = Init0 /\ PrintT(ToJson(<<"init", Fp(s)>>))
Next == \E a \in EnvSet : EnvEn(s, a) /\ s' = EnvDo(s, a)
Spec == Init /\ [][Next]_s
View == Core(s)
Dump == PrintT(ToJson(<<Fp(s), Fp(s'), s'.a, s'.o, s'.over>>))
Has(n) == \E i \in 1..Len(s.o) : s.o[i].n = n
\* released only when the stream is over, and only a component that was found
Released == Has("released") => s.ph = "over" /\ s.getter = "found"
AckOnlyIfFound == \A i \in 1..Len(s.o) : (s.o[i].n = "sent" /\ s.o[i].r = {"ackok"}) => Found(s)
Inv == Released /\ AckOnlyIfFound
=============================================================================
