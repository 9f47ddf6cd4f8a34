-------------------------------- MODULE Stub --------------------------------
(***************************************************************************)
(* Generated stubs: a method is unary (u), server-streaming (s), client-   *)
(* streaming (c) or bidirectional (b).  The stub operations of both sides, *)
(* with the calls delivered at once.                                       *)
(*   open        the caller calls the method (u, s: with the request)      *)
(*   openfast    the handler sends n messages and returns r at once,       *)
(*               before the caller's stub goes on                          *)
(*   csend/hsend v: which of the equivalent operations is used             *)
(*   car         close and receive (c)                                     *)
(*   hsc         send and close; n = 1: with a message                     *)
(*   ccancel     the caller cancels: the handler's context ends (of a      *)
(*               unary method: the one it was given), and what either     *)
(*               side sends or waits for afterwards fails                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json
CONSTANTS Kinds, MaxC, MaxS, MaxRecv, Vars, Ops

VARIABLE s
None == "none"
Init0 == [ k |-> None, cn |-> 0, cr |-> 0, hn |-> 0, hr |-> 0, chalf |-> FALSE, hhalf |-> FALSE, run |-> FALSE, ret |-> None,
           cw |-> None, hw |-> FALSE, crc |-> 0, hrc |-> 0, cend |-> FALSE, cx |-> FALSE, a |-> <<>>, o |-> <<>> ]
Core(t) == [t EXCEPT !.a = <<>>, !.o = <<>>]
Fp(t) == <<TLCFP(Core(t)), TLCFP(<<Core(t), "abcdefghijkl">>)>>
Obs(t, name, results) == [t EXCEPT !.o = Append(@, [n |-> name, r |-> results])]
StreamsIn(k) == k \in {"c", "b"}     \* the caller sends a stream
StreamsOut(k) == k \in {"s", "b"}
RECURSIVE Settle(_)
Settle(t) ==
  IF t.hw /\ t.hr < t.cn THEN Settle(Obs([t EXCEPT !.hw = FALSE, !.hr = @ + 1], "hrecv", {"msg"}))
  ELSE IF t.hw /\ t.chalf THEN Settle(Obs([t EXCEPT !.hw = FALSE], "hrecv", {"eof"}))
  ELSE IF t.cw = "recv" /\ t.cr < t.hn THEN Settle(Obs([t EXCEPT !.cw = None, !.cr = @ + 1], "crecv", {"msg"}))
  ELSE IF t.cw = "recv" /\ t.ret = "err" THEN Settle(Obs([t EXCEPT !.cw = None, !.cend = TRUE], "crecv", {"err"}))
  ELSE IF t.cw = "recv" /\ (t.ret = "ok" \/ t.hhalf) THEN Settle(Obs([t EXCEPT !.cw = None, !.cend = TRUE], "crecv", {"eof"}))
  ELSE IF t.cw \in {"exec", "car"} /\ t.ret # None THEN
       Settle(Obs([t EXCEPT !.cw = None, !.cend = TRUE, !.cr = @ + 1], t.cw, {IF t.ret = "ok" THEN "msg" ELSE "err"}))
  ELSE t
Start(t, k) ==
  LET u == Obs([t EXCEPT !.k = k, !.run = TRUE, !.cn = IF StreamsIn(k) THEN 0 ELSE 1, !.hr = IF StreamsIn(k) THEN 0 ELSE 1,
                         !.chalf = (k = "s"), !.cw = IF k = "u" THEN "exec" ELSE None], "hstart", {"right"})
  IN IF k = "u" THEN u ELSE Obs(u, "copen", {"ok"})
EnvSet == {<<"open", k>> : k \in Kinds} \cup {<<"openfast", k, n, r>> : k \in Kinds, n \in 0..2, r \in {"ok", "err"}}
          \cup {<<x, v>> : x \in {"csend", "crecv", "hsend", "hrecv", "car"}, v \in 1..Vars} \cup {<<"csendnil">>, <<"chalf">>, <<"ccancel">>}
          \cup {<<"hsc", n>> : n \in 0..1} \cup {<<"hret", r>> : r \in {"ok", "err"}} \cup {<<"unknown", v>> : v \in 1..2}
EnvEn(t, a) ==
  /\ a[1] \in Ops
  /\ CASE a[1] = "open" -> t.k = None
       [] a[1] = "openfast" -> t.k = None /\ (IF StreamsOut(a[2]) THEN TRUE ELSE a[3] = (IF a[4] = "ok" THEN 1 ELSE 0))
       [] a[1] = "unknown" -> t.k = None
       [] a[1] \in {"csend", "csendnil"} -> StreamsIn(t.k) /\ ~t.chalf /\ t.cn < MaxC /\ t.ret = None /\ t.cw # "car"
       [] a[1] = "chalf" -> StreamsIn(t.k) /\ ~t.chalf /\ ~t.cx
       [] a[1] = "ccancel" -> t.run /\ ~t.cx
       [] a[1] = "crecv" -> StreamsOut(t.k) /\ t.cw = None /\ t.crc < MaxRecv /\ ~t.cx
       [] a[1] = "car" -> t.k = "c" /\ t.cw = None /\ ~t.cend
       [] a[1] = "hsend" -> StreamsOut(t.k) /\ t.run /\ ~t.hhalf /\ t.hn < MaxS
       [] a[1] = "hsc" -> StreamsOut(t.k) /\ t.run /\ ~t.hhalf
       [] a[1] = "hrecv" -> t.run /\ t.k # "u" /\ ~t.hw /\ t.hrc < MaxRecv /\ ~t.cx
       [] a[1] = "hret" -> t.run /\ ~t.hw /\ (t.hhalf => a[2] = "ok")
EnvDo(t0, a) ==
  LET t == [t0 EXCEPT !.a = a, !.o = <<>>] IN
  CASE a[1] = "open" -> Start(t, a[2])
    [] a[1] = "openfast" ->
         LET u == Start(t, a[2]) IN Settle([u EXCEPT !.run = FALSE, !.ret = a[4], !.hn = a[3]])
    [] a[1] = "unknown" -> Obs([t EXCEPT !.k = "x"], "unknown", {"unimpl"})
    [] a[1] = "ccancel" ->
         LET u == Obs([t EXCEPT !.cx = TRUE], "hctx", {"done"})
             v == IF t.hw THEN Obs(u, "hrecv", {"bad"}) ELSE u
             w == IF t.cw = None THEN v ELSE Obs(v, IF t.cw = "recv" THEN "crecv" ELSE t.cw, {"bad"})
         IN  [w EXCEPT !.hw = FALSE, !.cw = None, !.cend = (t.cend \/ t.cw # None)]
    [] t.cx /\ a[1] \in {"csend", "hsend", "hsc", "car"} -> \* fails, unless there is nothing to send
         LET u == Obs(t, a[1], IF a[1] = "hsc" /\ a[2] = 0 THEN {"any"} ELSE {"bad"}) IN
        (CASE a[1] = "csend" -> [u EXCEPT !.cn = @ + 1]
           [] a[1] = "hsend" -> [u EXCEPT !.hn = @ + 1]
           [] a[1] = "hsc" -> [u EXCEPT !.hhalf = TRUE]
           [] OTHER -> [u EXCEPT !.cend = TRUE, !.chalf = TRUE])
    [] a[1] = "csend" -> Settle(Obs([t EXCEPT !.cn = @ + 1], "csend", {"ok"}))
    [] a[1] = "csendnil" -> Obs(t, "csend", {"ok"})
    [] a[1] = "chalf" -> Settle(Obs([t EXCEPT !.chalf = TRUE], "chalf", {"ok"}))
    [] a[1] = "crecv" -> Settle([t EXCEPT !.cw = "recv", !.crc = @ + 1])
    [] a[1] = "car" -> Settle([t EXCEPT !.cw = "car", !.chalf = TRUE])
    [] a[1] = "hsend" -> Settle(Obs([t EXCEPT !.hn = @ + 1], "hsend", {"ok"}))
    [] a[1] = "hsc" -> Settle(Obs([t EXCEPT !.hn = @ + a[2], !.hhalf = TRUE], "hsc", {"ok"}))
    [] a[1] = "hrecv" -> Settle([t EXCEPT !.hw = TRUE, !.hrc = @ + 1])
    [] a[1] = "hret" -> Settle([t EXCEPT !.run = FALSE, !.ret = a[2], !.hn = IF StreamsOut(t.k) \/ a[2] = "err" THEN @ ELSE 1])
Init == s = Init0 /\ PrintT(ToJson(<<"init", Fp(s)>>))
Next == \E a \in EnvSet : EnvEn(s, a) /\ s' = EnvDo(s, a)
Spec == Init /\ [][Next]_s
View == Core(s)
Over(t) == t.ret # None /\ t.cw = None
Dump == PrintT(ToJson(<<Fp(s), Fp(s'), s'.a, s'.o, FALSE>>))
\* nobody waits for what is already there
Inv == /\ (s.hw => s.hr = s.cn /\ ~s.chalf)
       /\ (s.cw # None => s.ret = None /\ (s.cw = "recv" => s.cr = s.hn /\ ~s.hhalf))
=============================================================================
