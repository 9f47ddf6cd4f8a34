-------------------------------- MODULE Echo --------------------------------
(***************************************************************************)
(* The reference services: echo.Echoer and the callback-driven Mock.       *)
(*   exec v        Echo with an empty (0) or non-empty (1) message         *)
(*   nothing       DoNothing                                               *)
(*   mock c        MockRequest, without callback / answering / failing     *)
(*   rpc m, v      Echo through RpcStream, with or without a mux           *)
(*   open k        s: EchoServerStream, which sends the request five times *)
(*                 200ms apart; c: EchoClientStream, which returns the     *)
(*                 first message; b: EchoBidiStream, which greets, then    *)
(*                 returns each message and refuses empty ones             *)
(*   tick          200ms pass                                              *)
(* Results are exact: "same" is the message of this call (b: the next one  *)
(* not returned yet), "hello" the greeting, others are error texts.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json
CONSTANTS MaxSend, MaxRecv, MaxUnary

VARIABLE s
None == "none"
Init0 == [ k |-> None, v |-> 0, t |-> 0, nu |-> 0, sent |-> <<>>, got |-> 0, q |-> <<>>, half |-> FALSE, end |-> None,
           cw |-> None, nr |-> 0, cx |-> FALSE, a |-> <<>>, o |-> <<>> ]
Core(t) == [t EXCEPT !.a = <<>>, !.o = <<>>]
Fp(t) == <<TLCFP(Core(t)), TLCFP(<<Core(t), "abcdefghijkl">>)>>
Obs(t, name, result) == [t EXCEPT !.o = Append(@, [n |-> name, r |-> {result}])]
\* what the handler does by itself
Handle(t) ==
  IF t.end # None THEN t
  ELSE IF t.cx THEN [t EXCEPT !.end = "context canceled", !.q = <<>>]
  ELSE IF t.k = "c" THEN (IF t.sent # <<>> THEN [t EXCEPT !.q = <<"same">>, !.end = "eof"]
                          ELSE IF t.half THEN [t EXCEPT !.end = "EOF"] ELSE t)
  ELSE IF t.k = "b" THEN
     (LET empty == {i \in 1..Len(t.sent) : t.sent[i] = 0} IN
      IF empty # {} THEN [t EXCEPT !.end = "got message with empty body"]
      ELSE IF t.half THEN [t EXCEPT !.end = "eof"] ELSE t)
  ELSE t
RECURSIVE Settle(_)
Settle(t0) == LET t == Handle(t0) IN
  IF t.cw = None THEN t
  ELSE IF t.cx THEN Obs([t EXCEPT !.cw = None], t.cw, "context canceled")
  ELSE IF t.q # <<>> THEN Settle(Obs([t EXCEPT !.cw = None, !.q = Tail(@)], t.cw, Head(t.q)))
  ELSE IF t.end # None THEN Settle(Obs([t EXCEPT !.cw = None], t.cw, t.end))
  ELSE t
EnvSet == {<<"exec", v>> : v \in 0..1} \cup {<<"nothing">>, <<"tick">>, <<"half">>, <<"recv">>, <<"car">>, <<"cancel">>}
          \cup {<<"mock", c>> : c \in {"nil", "ok", "err"}} \cup {<<"rpc", m, v>> : m \in {"mux", "none"}, v \in 0..1}
          \cup {<<"open", k, v>> : k \in {"s", "c", "b"}, v \in 0..1} \cup {<<"send", v>> : v \in 0..1}
EnvEn(t, a) ==
  CASE a[1] \in {"exec", "nothing", "mock", "rpc"} -> t.nu < MaxUnary
    [] a[1] = "open" -> t.k = None /\ (a[2] = "s" \/ a[3] = 0)
    [] a[1] = "tick" -> t.k = "s" /\ t.t < 6 /\ ~t.cx
    [] a[1] = "send" -> t.k \in {"b", "c"} /\ Len(t.sent) < (IF t.k = "c" THEN 1 ELSE MaxSend) /\ ~t.half /\ t.end = None /\ t.cw # "car" /\ ~t.cx
    [] a[1] = "half" -> t.k \in {"b", "c"} /\ ~t.half /\ t.end = None /\ t.cw # "car" /\ ~t.cx
    [] a[1] = "recv" -> t.k \in {"s", "b"} /\ t.cw = None /\ t.nr < MaxRecv /\ ~t.cx
    [] a[1] = "car" -> t.k = "c" /\ t.cw = None /\ t.nr = 0 /\ ~t.cx
    [] a[1] = "cancel" -> t.k # None /\ t.cw # None /\ ~t.cx
EnvDo(t0, a) ==
  LET t == [t0 EXCEPT !.a = a, !.o = <<>>] IN
  CASE a[1] \in {"exec", "nothing"} -> Obs([t EXCEPT !.nu = @ + 1], a[1], "same")
    [] a[1] = "mock" -> Obs([t EXCEPT !.nu = @ + 1], "mock", IF a[2] = "nil" THEN "unimplemented" ELSE IF a[2] = "ok" THEN "same" ELSE "callback failed")
    [] a[1] = "rpc" -> Obs([t EXCEPT !.nu = @ + 1], "rpc", IF a[2] = "mux" THEN "same" ELSE "not implemented")
    [] a[1] = "open" -> [t EXCEPT !.k = a[2], !.v = a[3], !.q = IF a[2] = "s" THEN <<"same">> ELSE IF a[2] = "b" THEN <<"hello">> ELSE <<>>]
    [] a[1] = "tick" -> Settle([t EXCEPT !.t = @ + 1, !.q = IF t.t < 4 THEN Append(@, "same") ELSE @, !.end = IF t.t >= 4 THEN "eof" ELSE @])
    [] a[1] = "send" -> Settle([t EXCEPT !.sent = Append(@, a[2]), !.q = IF t.k = "b" /\ a[2] = 1 THEN Append(@, "same") ELSE @])
    [] a[1] = "half" -> Settle([t EXCEPT !.half = TRUE])
    [] a[1] = "recv" -> Settle([t EXCEPT !.cw = "recv", !.nr = @ + 1])
    [] a[1] = "car" -> Settle([t EXCEPT !.cw = "car", !.nr = @ + 1, !.half = TRUE])
    [] a[1] = "cancel" -> Settle([t EXCEPT !.cx = TRUE])
Init == s = Init0 /\ PrintT(ToJson(<<"init", Fp(s)>>))
Next == \E a \in EnvSet : EnvEn(s, a) /\ s' = EnvDo(s, a)
Spec == Init /\ [][Next]_s
View == Core(s)
Dump == PrintT(ToJson(<<Fp(s), Fp(s'), s'.a, s'.o, FALSE>>))
Inv == (s.cw # None => s.q = <<>> /\ s.end = None) /\ Len(s.q) <= 5 + MaxSend
=============================================================================
