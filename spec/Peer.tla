-------------------------------- MODULE Peer --------------------------------
(***************************************************************************)
(* One endpoint of starpc against a peer which writes whatever it likes on *)
(* the call's stream: valid packets in any order, invalid packets, broken  *)
(* frames, end of stream at any point.                                     *)
(*                                                                         *)
(* Side = "server": the peer plays the client, the handler is the          *)
(* application.  Side = "client": the peer plays the server.               *)
(*                                                                         *)
(* Every environment step is followed by all reactions (macro grain).      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json

CONSTANTS
  Side,       \* "server" | "client"
  Good,       \* packets of the protocol the peer may send
  Bad,        \* packets and frames which are never valid
  Ops,        \* operations of the application
  MaxInj,     \* packets injected
  MaxRecv

VARIABLE s
None == "none"

Init0 ==
  [ st |-> IF Side = "server" THEN "idle" ELSE "closed",  \* idle, run, ret | closed, stream, unary
    q |-> <<>>,       \* received, not consumed
    fin |-> None,     \* eof, err, cancel, cut
    x |-> FALSE,      \* context of the call / handler has ended
    cx |-> FALSE,     \* the application cancelled
    w |-> TRUE,       \* this endpoint's stream is open
    pn |-> 0,         \* messages injected
    inj |-> 0,
    r |-> 0,          \* messages received
    rc |-> 0,
    recv |-> FALSE,   \* blocked in a receive (or unary call)
    half |-> FALSE, sn |-> 0,
    pfin |-> FALSE,   \* the peer ended the stream
    a |-> <<>>, o |-> <<>> ]

Obs(t, name, results) == [t EXCEPT !.o = Append(@, [n |-> name, r |-> results])]
Core(t) == [t EXCEPT !.a = <<>>, !.o = <<>>]
Fp(t) == <<TLCFP(Core(t)), TLCFP(<<Core(t), "abcdefghijkl">>)>>

Fin(t, f) == IF t.fin = None THEN [t EXCEPT !.fin = f] ELSE t
EndCtx(t) == IF Side = "server" /\ t.st = "run" /\ ~t.x THEN Obs([t EXCEPT !.x = TRUE], "hctx", {"done"})
             ELSE [t EXCEPT !.x = TRUE]
CloseW(t) == IF t.w THEN Obs([t EXCEPT !.w = FALSE], "wend", {"fin"}) ELSE t
\* the call is ended because of what the peer sent
Kill(t) == CloseW(EndCtx(Fin(t, "cut")))
Push(t, m) == [t EXCEPT !.q = Append(@, m)]

\* does the packet carry a message?
Carries == {"startE", "startD", "msg", "empty", "msgcomp", "msgerr", "emptycomp"}
Started(t) == IF Side = "server" THEN t.st # "idle" ELSE TRUE

Data(t, m, fin) ==
  IF ~Started(t) THEN Kill(t)
  ELSE IF t.fin # None THEN (IF m > 0 \/ fin = None THEN Kill(t) ELSE t)
  ELSE LET u == IF m > 0 THEN Push(t, m) ELSE t IN IF fin = None THEN u ELSE Fin(u, fin)

Rx(t, k, m) ==
  IF ~t.w THEN t
  ELSE CASE k \in {"start0", "startE", "startD"} ->
              IF Side = "client" \/ t.st # "idle" \/ t.fin # None THEN Kill(t)
              ELSE Obs([(IF m > 0 THEN Push(t, m) ELSE t) EXCEPT !.st = "run"], "hstart", {"ok"})
         [] k \in {"msg", "empty"} -> Data(t, m, None)
         [] k = "comp"    -> Data(t, 0, "eof")
         [] k = "msgcomp" -> Data(t, m, "eof")
         \* repeating the completion is tolerated (with an empty message: as
         \* older clients send it), and delivers nothing
         [] k = "emptycomp" -> IF t.fin # None /\ Started(t) THEN t ELSE Data(t, m, "eof")
         [] k = "err"     -> Data(t, 0, "err")
         [] k = "msgerr"  -> Data(t, m, "err")
         [] k = "cancel"  -> CloseW(EndCtx(Fin(t, "cancel")))
         [] k = "nocancel" -> t
         [] k \in {"fin", "lost", "torn"} -> Kill(t)
         [] OTHER         -> Kill(t)          \* everything in Bad

Outcome(f) == CASE f = "eof" -> {"eof"} [] f = "err" -> {"err"} [] OTHER -> {"bad"}

RecvReady(t) == t.recv /\ (t.cx \/ t.q # <<>> \/ t.fin # None)
RecvDo(t) ==
  LET u == [t EXCEPT !.recv = FALSE]
      n == IF t.st = "unary" THEN "cexec" ELSE "recv" IN
  IF t.cx THEN
     Obs(u, n, (IF t.q # <<>> THEN {"next"} ELSE {}) \cup {"bad"} \cup (IF t.fin = None THEN {} ELSE Outcome(t.fin)))
  ELSE IF t.q # <<>> THEN Obs([u EXCEPT !.q = Tail(@), !.r = Head(t.q)], n, {"msg"})
  ELSE IF t.st = "unary" THEN Obs(u, n, IF t.fin = "err" THEN {"err"} ELSE {"bad", "eof"})
  ELSE Obs(u, n, Outcome(t.fin))

\* after a unary call returned, the call is over
RECURSIVE Quiesce(_)
Quiesce(t) ==
  IF RecvReady(t) THEN
    LET u == RecvDo(t) IN
    Quiesce(IF t.st = "unary" THEN CloseW([u EXCEPT !.x = TRUE, !.cx = TRUE]) ELSE u)
  ELSE IF Side = "client" /\ (t.x \/ t.cx) /\ t.w THEN Quiesce(CloseW(t))
  ELSE t

\* ------------------------------------------------------------ environment
EnvSet == {<<"inj", k>> : k \in Good \cup Bad \cup {"fin", "lost", "torn"}}
          \cup (IF "two" \in Ops THEN {<<"inj2", k, l>> : k \in Good \cup Bad, l \in Good \cup Bad} ELSE {})
          \cup {<<"open", "stream">>, <<"open", "unary">>}
          \cup {<<op>> : op \in {"recv", "send", "half", "close", "cancel", "ret", "fail"}}
App(t) == IF Side = "server" THEN t.st = "run" ELSE t.st = "stream"
EnvEn(t, a) ==
  CASE a[1] = "inj"  -> /\ ~t.pfin /\ t.inj < MaxInj /\ (Side = "client" => t.st # "closed")
                        /\ (a[2] \in {"lost"} => t.w)
    \* two packets which arrive together
    [] a[1] = "inj2" -> ~t.pfin /\ t.inj < MaxInj /\ (Side = "client" => t.st # "closed")
    [] a[1] = "open" -> Side = "client" /\ t.st = "closed" /\ ("unary" \in Ops \/ a[2] # "unary")
    [] a[1] = "recv" -> "recv" \in Ops /\ App(t) /\ ~t.recv /\ t.rc < MaxRecv
    [] a[1] = "send" -> "send" \in Ops /\ App(t) /\ ~t.half /\ t.sn < 1
    [] a[1] = "half" -> "half" \in Ops /\ App(t) /\ ~t.half
    [] a[1] = "close" -> "close" \in Ops /\ Side = "client" /\ App(t) /\ ~t.cx
    [] a[1] = "cancel" -> "cancel" \in Ops /\ Side = "client" /\ t.st # "closed" /\ ~t.cx
    [] a[1] = "ret"  -> "ret" \in Ops /\ Side = "server" /\ t.st = "run" /\ ~t.recv
    [] a[1] = "fail" -> "fail" \in Ops /\ Side = "server" /\ t.st = "run" /\ ~t.recv

SendRes(t) == IF t.w /\ ~t.x /\ ~t.cx /\ t.fin = None THEN {"ok"} ELSE {"any"}

EnvDo(t0, a) ==
  LET t == [t0 EXCEPT !.a = a, !.o = <<>>] IN
  CASE a[1] = "inj" ->
         LET m == IF a[2] \in Carries THEN t.pn + 1 ELSE 0
             u == [t EXCEPT !.inj = @ + 1, !.pn = IF m > 0 THEN m ELSE @,
                            !.pfin = a[2] \in {"fin", "lost", "torn"},
                            !.a = <<"inj", a[2], m>>]
         IN Rx(u, a[2], m)
    [] a[1] = "inj2" ->
         LET m == IF a[2] \in Carries THEN t.pn + 1 ELSE 0
             n == IF a[3] \in Carries THEN (IF m > 0 THEN m ELSE t.pn) + 1 ELSE 0
             u == [t EXCEPT !.inj = @ + 1, !.pn = IF n > 0 THEN n ELSE IF m > 0 THEN m ELSE @,
                            !.a = <<"inj2", a[2], m, a[3], n>>]
         IN Rx(Rx(u, a[2], m), a[3], n)
    [] a[1] = "open" -> LET u == [t EXCEPT !.st = a[2]]
                        IN IF a[2] = "unary" THEN [u EXCEPT !.recv = TRUE] ELSE Obs(u, "open", {"ok"})
    [] a[1] = "recv" -> [t EXCEPT !.recv = TRUE, !.rc = @ + 1]
    [] a[1] = "send" -> Obs([t EXCEPT !.sn = @ + 1], "send", SendRes(t))
    [] a[1] = "half" -> Obs([t EXCEPT !.half = TRUE], "half", SendRes(t))
    [] a[1] = "close" -> CloseW(Obs([t EXCEPT !.cx = TRUE, !.x = TRUE], "close", {"any"}))
    [] a[1] = "cancel" -> [t EXCEPT !.cx = TRUE, !.x = TRUE]
    [] a[1] \in {"ret", "fail"} ->
         \* the context of the handler has ended by the time it has returned
         CloseW(Obs([t EXCEPT !.st = "ret", !.x = TRUE], "hend", {"done"}))

Init == s = Init0 /\ PrintT(ToJson(<<"init", Fp(s)>>))
Next == \E a \in EnvSet : EnvEn(s, a) /\ s' = Quiesce(EnvDo(s, a))
Spec == Init /\ [][Next]_s
View == Core(s)
Over(t) == ~t.w /\ ~t.recv /\ (Side = "server" => t.st # "run")
Dump == PrintT(ToJson(<<Fp(s), Fp(s'), s'.a, s'.o, Over(s')>>))

\* ------------------------------------------------------------- properties
\* an invalid packet, a broken frame or the end of the stream ends the call
Ended(t) == ~t.w \/ t.fin # None
OffenderEnds == [][(s'.a[1] \in {"inj", "inj2"} /\ s'.inj > s.inj /\ s'.a[2] \in (Bad \cup {"fin", "lost", "torn", "cancel"}))
                     => Ended(s') /\ ~s'.w]_s
\* delivered messages are injected ones, in order
Valid == \A i \in 1..Len(s.q) : s.q[i] <= s.pn /\ (i > 1 => s.q[i] > s.q[i-1]) /\ s.q[i] > s.r
\* nothing is received for a call that did not start
NoStart == (Side = "server" /\ s.st = "idle") => s.q = <<>> /\ s.r = 0
\* a terminal status is set once
Stable == [][s.fin # None => s'.fin = s.fin]_s
Inv == Valid /\ NoStart
=============================================================================
