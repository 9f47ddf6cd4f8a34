-------------------------------- MODULE Call --------------------------------
(***************************************************************************)
(* One call between a client endpoint and a server endpoint of starpc.     *)
(*                                                                         *)
(* The state is one record s.  Its parts:                                  *)
(*   client application and endpoint   (fields c...)                       *)
(*   two FIFO wires                    (w1: client->server, w2: back)      *)
(*   server endpoint and handler       (fields h...)                       *)
(* Environment steps (application calls, packet delivery, faults) and      *)
(* reactions (what the endpoints do by themselves) are separate operators. *)
(*                                                                         *)
(* Grain = "free":  every reaction is its own step and interleaves with    *)
(*                  everything (used to check the design).                 *)
(* Grain = "macro": an environment step is followed by all reactions it    *)
(*                  enables, up to quiescence.  Every such step carries    *)
(*                  the operation (field a) and everything an observer     *)
(*                  must see (field o); behaviours of this graph are       *)
(*                  replayed on the real code.                             *)
(* AutoDeliver: delivery is a reaction (TRUE) or an environment step.      *)
(*                                                                         *)
(* Messages are numbered 1,2,... per direction, so "in order, exactly      *)
(* once" means: the numbers received are 1,2,...                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json

CONSTANTS
  Grain,        \* "free" | "macro"
  AutoDeliver,  \* BOOLEAN
  Kinds,        \* subset of {"stream", "first", "unary", "unknown", "nosvc", "nometh",
                \* "badresp" (unary, the response does not parse),
                \* "badfirst", "badreq" (the first message / request cannot be encoded)}
  COps,         \* subset of {"send","recv","half","close","cancel","precancel","sendbad"}
  HOps,         \* subset of {"send","recv","half","close","ret","fail","sx","sendbad"}
  Faults,       \* subset of {"lose", "stall", "cwf", "swf"}; stall: the client's writes block;
                \* cwf, swf: the client's / the server's writes fail, the rest works
  MaxC, MaxS,   \* messages per direction
  MaxRecv,      \* receive operations per side
  MaxHalf       \* half-close operations per side

VARIABLE s

None == "none"

Init0 ==
  [ k |-> None,            \* kind of the call; none: not opened yet
    cx |-> FALSE,          \* caller cancelled its context
    cq |-> <<>>,           \* received, not yet consumed
    cfin |-> None,         \* terminal status: eof, err, cancel, cut
    cseen |-> None,        \* terminal status returned to the application
    cdead |-> FALSE,       \* call context of the client endpoint ended
    cw |-> FALSE,          \* client's side of the transport stream is open
    chalf |-> 0, cclosed |-> FALSE,
    crecv |-> None,        \* blocked operation: recv, exec
    cpend |-> None,        \* operation blocked in a write: copen, csend, chalf, exec
    stall |-> FALSE,       \* the client's writes block
    cwf |-> FALSE, swf |-> FALSE, \* the client's, the server's writes fail
    cn |-> 0,              \* messages sent
    cr |-> 0,              \* messages received by the application
    crc |-> 0,             \* receive operations started
    hst |-> None,          \* none, run, ret
    hstarts |-> 0,
    hq |-> <<>>, hfin |-> None,
    hx |-> FALSE,          \* handler context cancelled
    hw |-> FALSE,          \* server's side of the transport stream is open
    hhalf |-> 0, hclosed |-> FALSE, hsx |-> FALSE,
    hrecv |-> None,
    hn |-> 0, hr |-> 0, hrc |-> 0,
    hret |-> None,         \* what the handler returned: ok, err
    w1 |-> <<>>, w2 |-> <<>>,
    lost |-> FALSE,
    a |-> <<>>,            \* last environment operation
    o |-> <<>> ]           \* what it makes visible: sequence of [n, r]

\* --------------------------------------------------------------- helpers
Obs(t, name, results) == [t EXCEPT !.o = Append(@, [n |-> name, r |-> results])]
Pkt(k) == [k |-> k, m |-> 0]
Msg(i) == [k |-> "msg", m |-> i]
C2S(t, p) == IF t.cw /\ ~t.lost /\ (t.stall \/ t.cwf => p.k = "fin") THEN [t EXCEPT !.w1 = Append(@, p)] ELSE t
S2C(t, p) == IF t.hw /\ ~t.lost /\ (t.swf => p.k = "fin") THEN [t EXCEPT !.w2 = Append(@, p)] ELSE t
CloseC(t) == [C2S(t, Pkt("fin")) EXCEPT !.cw = FALSE]
CloseS(t) == [S2C(t, Pkt("fin")) EXCEPT !.hw = FALSE]
Open(t) == t.k # None
UnaryKinds == {"unary", "badresp", "badreq"}
Unary(t) == t.k \in UnaryKinds
\* After the caller cancelled or closed, messages still queued may or may not
\* be handed out: the observation is a set of acceptable results ("next" is
\* the next message in order).
Loose(t)  == t.cx \/ t.cclosed
HLoose(t) == t.hx

\* ------------------------------------------------- endpoint packet handling
\* Terminal status is set once.
CFin(t, f) == IF t.cfin = None THEN [t EXCEPT !.cfin = f] ELSE t
HFin(t, f) == IF t.hfin = None THEN [t EXCEPT !.hfin = f] ELSE t

\* the handler context is cancelled
HCancel(t) ==
  IF t.hx \/ t.hst # "run" THEN [t EXCEPT !.hx = TRUE]
  ELSE Obs([t EXCEPT !.hx = TRUE], "hctx", {"done"})

ClientRx(t, p) ==
  IF ~t.cw THEN t                       \* closed: not reading any more
  ELSE CASE p.k = "msg"    -> IF t.cfin = None THEN [t EXCEPT !.cq = Append(@, p.m)]
                              ELSE [t EXCEPT !.cdead = TRUE]
         [] p.k = "comp"   -> CFin(t, "eof")
         [] p.k = "err"    -> CFin(t, "err")
         [] p.k = "unimpl" -> CFin(t, "unimpl")
         [] p.k = "cancel" -> [CFin(t, "cancel") EXCEPT !.cdead = TRUE]
         [] p.k = "muddy"  -> CFin(t, "muddy")
         [] p.k = "fin"    -> [CFin(t, "cut") EXCEPT !.cdead = TRUE]

Invalid(t) == t.k \in {"nosvc", "nometh"}

ServerRx(t, p) ==
  IF ~t.hw THEN t
  ELSE CASE p.k = "start" ->
              IF t.k = "unknown" THEN CloseS(S2C([t EXCEPT !.hst = "ret", !.hx = TRUE, !.hret = "unimpl"], Pkt("unimpl")))
              ELSE IF Invalid(t) THEN CloseS([t EXCEPT !.hst = "ret", !.hx = TRUE, !.hfin = "cut"])
              ELSE Obs([t EXCEPT !.hst = "run", !.hstarts = @ + 1,
                                 !.hq = IF p.m > 0 THEN Append(@, p.m) ELSE @],
                       "hstart", {"ok"})
         [] p.k = "msg"    -> IF t.hfin = None THEN [t EXCEPT !.hq = Append(@, p.m)]
                              ELSE CloseS(HCancel(t))
         [] p.k = "comp"   -> HFin(t, "eof")
         [] p.k = "cancel" -> CloseS(HCancel(HFin(t, "cancel")))
         [] p.k \in {"fin", "end"} -> CloseS(HCancel(HFin(t, "cut")))

\* ------------------------------------------------------------ application
\* what a terminal status looks like to the application
Outcome(f) == CASE f = "eof" -> {"eof"} [] f = "err" -> {"err"} [] f = "unimpl" -> {"unimpl"}
                [] f = "cancel" -> {"bad"} [] f = "cut" -> {"bad"}
                [] f = "muddy" -> {"bad", "eof"}

\* The client ends the call locally: cancel packet, transport closed.
\* After the context was cancelled the packet may not make it any more: one
\* combined end of stream.
CEnd(t) ==
  [CFin(IF t.cx THEN [C2S(t, [k |-> IF t.stall \/ t.cwf THEN "fin" ELSE "end", m |-> 0]) EXCEPT !.cw = FALSE]
        ELSE CloseC(C2S(t, Pkt("cancel"))), "cancel") EXCEPT !.cdead = TRUE]

\* Result of a client receive, if it can return now.
CRecvReady(t) ==
  \/ Loose(t) \/ t.cq # <<>> \/ t.cfin # None
CRecvDo(t) ==
  LET u == [t EXCEPT !.crecv = None] IN
  IF t.crecv = "exec" THEN
     IF t.cx /\ t.cq = <<>> /\ t.cfin \in {None, "cut"} THEN
       CEnd(Obs([u EXCEPT !.cseen = "cancel"], "cexec", {"cancel"}))
     ELSE IF t.cq # <<>> THEN
       CEnd(Obs([u EXCEPT !.cr = @ + 1, !.cq = Tail(@), !.cseen = "eof"], "cexec", IF t.k = "badresp" THEN {"fail"} ELSE {"msg"}))
     ELSE IF t.cfin \in {"eof", "cut", "cancel", "muddy"} THEN
       CEnd(Obs([u EXCEPT !.cseen = t.cfin], "cexec", {"bad", "eof"}))
     ELSE CEnd(Obs([u EXCEPT !.cseen = t.cfin], "cexec", Outcome(t.cfin)))
  ELSE IF t.cseen # None THEN Obs(u, "crecv", Outcome(t.cseen))
  ELSE IF Loose(t) THEN
     Obs(u, "crecv",
         (IF t.cq # <<>> THEN {"next"} ELSE {})
         \cup (IF t.cx /\ t.cfin = None /\ ~t.hsx THEN {"cancel"} ELSE {"bad"})
         \cup (IF t.cfin \in {None} THEN {} ELSE Outcome(t.cfin)))
  ELSE IF t.cq # <<>> THEN
     Obs([u EXCEPT !.cq = Tail(@), !.cr = @ + 1], "crecv", {"msg"})
  ELSE Obs([u EXCEPT !.cseen = t.cfin], "crecv", Outcome(t.cfin))

HRecvReady(t) == HLoose(t) \/ t.hq # <<>> \/ t.hfin # None
HRecvDo(t) ==
  LET u == [t EXCEPT !.hrecv = None] IN
  IF HLoose(t) THEN
     Obs(u, "hrecv", (IF t.hq # <<>> THEN {"next"} ELSE {}) \cup {"bad"}
                     \cup (IF t.hfin = "eof" THEN {"eof"} ELSE {}))
  ELSE IF t.hq # <<>> THEN
     Obs([u EXCEPT !.hq = Tail(@), !.hr = @ + 1], "hrecv", {"msg"})
  ELSE Obs(u, "hrecv", Outcome(t.hfin))

\* --------------------------------------------------------------- reactions
\* each: enabling condition and effect
RxSet == {"crecv", "hrecv", "cclose", "cpend", "d1", "d2"}
REn(t, r) ==
  CASE r = "crecv"  -> t.crecv # None /\ t.cpend # "cexec" /\ CRecvReady(t)
    [] r = "hrecv"  -> t.hrecv # None /\ HRecvReady(t)
    [] r = "cclose" -> t.cdead /\ t.cw
    [] r = "cpend"  -> t.cpend # None /\ (t.cx \/ t.lost \/ ~t.cw)
    [] r = "d1"     -> AutoDeliver /\ t.w1 # <<>>
    [] r = "d2"     -> AutoDeliver /\ t.w2 # <<>>
RDo(t, r) ==
  CASE r = "crecv"  -> CRecvDo(t)
    [] r = "hrecv"  -> HRecvDo(t)
    [] r = "cclose" -> CloseC(t)
    [] r = "cpend"  ->      \* a blocked write is released
         LET u == [t EXCEPT !.cpend = None] IN
         IF t.cpend = "cexec" THEN CEnd(Obs([u EXCEPT !.crecv = None, !.cseen = "cancel"], "cexec",
                                            IF t.cx THEN {"cancel"} ELSE {"fail"}))
         ELSE IF t.cpend = "copen" THEN
           Obs([CFin(CloseC(u), "cancel") EXCEPT !.cdead = TRUE, !.cseen = "cancel", !.cclosed = TRUE,
                      !.chalf = MaxHalf + 1, !.crc = MaxRecv],
               "copen", IF t.cx THEN {"cancel"} ELSE {"fail"})
         ELSE Obs(u, t.cpend, IF t.cpend = "chalf" /\ t.cfin \in {"eof", "err", "unimpl"} THEN {"ok", "fail"} ELSE {"fail"})
    [] r = "d1"     -> ServerRx([t EXCEPT !.w1 = Tail(@)], Head(t.w1))
    [] r = "d2"     -> ClientRx([t EXCEPT !.w2 = Tail(@)], Head(t.w2))

RECURSIVE Quiesce(_)
Quiesce(t) ==
  IF      REn(t, "cpend")  THEN Quiesce(RDo(t, "cpend"))
  ELSE IF REn(t, "crecv")  THEN Quiesce(RDo(t, "crecv"))
  ELSE IF REn(t, "hrecv")  THEN Quiesce(RDo(t, "hrecv"))
  ELSE IF REn(t, "cclose") THEN Quiesce(RDo(t, "cclose"))
  ELSE IF REn(t, "d1")     THEN Quiesce(RDo(t, "d1"))
  ELSE IF REn(t, "d2")     THEN Quiesce(RDo(t, "d2"))
  ELSE t

\* ------------------------------------------------------- environment steps
\* Result of a send / half-close on the client: ok while the call is live;
\* an error once the caller cancelled; unspecified after the end.
CSendRes(t) ==
  IF t.cx \/ t.cwf THEN {"bad"}
  ELSE IF t.cw /\ t.cfin = None /\ ~t.cclosed /\ ~t.lost /\ ~t.hsx THEN {"ok"} ELSE {"any"}
HSendRes(t) ==
  IF t.swf THEN {"bad"}
  ELSE IF t.hw /\ ~t.hx /\ ~t.lost THEN {"ok"} ELSE {"any"}

CanOp(t) == Open(t) /\ ~Unary(t) /\ t.cpend # "copen"

EnvSet ==
  {<<"open", k>> : k \in Kinds} \cup {<<"precancel", k>> : k \in Kinds \ {"badfirst", "badreq"}}
  \cup {<<c>> : c \in {"csend","crecv","chalf","cclose","ccancel","csendbad"}}
  \cup {<<h>> : h \in {"hsend","hrecv","hhalf","hclose","hret","hfail","hsx","hsendbad"}}
  \cup {<<"dl1">>, <<"dl2">>, <<"lose">>, <<"stall">>, <<"cwf">>, <<"swf">>}

\* the handler closed the call and the caller could not be told
Limbo(t) == t.swf /\ t.hclosed
EnvEn(t, a) ==
  /\ Limbo(t) => a[1] = "hret"
  /\ CASE a[1] = "open"    -> ~Open(t) /\ ~t.cx
    [] a[1] = "precancel" -> ~Open(t) /\ "precancel" \in COps
    [] a[1] = "csend"   -> "send" \in COps /\ CanOp(t) /\ t.chalf = 0 /\ t.cn < MaxC /\ t.cpend = None
    \* a message which cannot be encoded: nothing is sent
    [] a[1] = "csendbad" -> "sendbad" \in COps /\ CanOp(t) /\ t.chalf = 0 /\ t.cpend = None
    [] a[1] = "hsendbad" -> "sendbad" \in HOps /\ t.hst = "run" /\ t.hhalf = 0 /\ ~t.hclosed
    [] a[1] = "crecv"   -> "recv" \in COps /\ CanOp(t) /\ t.crecv = None /\ t.crc < MaxRecv
                           /\ (t.hsx => t.hst = "ret")
    [] a[1] = "chalf"   -> "half" \in COps /\ CanOp(t) /\ t.chalf < MaxHalf /\ t.cpend = None
    [] a[1] = "cclose"  -> "close" \in COps /\ CanOp(t) /\ ~t.cclosed /\ ~t.stall
    [] a[1] = "ccancel" -> "cancel" \in COps /\ Open(t) /\ ~t.cx
    [] a[1] = "hsend"   -> "send" \in HOps /\ t.hst = "run" /\ t.hhalf = 0 /\ ~t.hclosed /\ ~t.hsx /\ t.hn < MaxS
                           /\ (Unary(t) => t.hn = 0 /\ ~t.stall)
    [] a[1] = "hrecv"   -> "recv" \in HOps /\ t.hst = "run" /\ t.hrecv = None /\ t.hrc < MaxRecv
    [] a[1] = "hhalf"   -> "half" \in HOps /\ t.hst = "run" /\ ~t.hclosed /\ ~t.hsx /\ t.hhalf < MaxHalf
    [] a[1] = "hclose"  -> "close" \in HOps /\ t.hst = "run" /\ ~t.hclosed /\ ~t.hsx /\ ~Unary(t)
                           /\ (t.swf => t.hrecv = None /\ t.crecv = None)
    [] a[1] = "hret"    -> "ret" \in HOps /\ t.hst = "run" /\ t.hrecv = None /\ ~(Unary(t) /\ t.stall)
    [] a[1] = "hfail"   -> "fail" \in HOps /\ t.hst = "run" /\ t.hrecv = None /\ t.hhalf = 0 /\ ~t.hclosed
                           /\ (Unary(t) => t.hn = 0 /\ ~t.stall)
    [] a[1] = "hsx"     -> "sx" \in HOps /\ Open(t) /\ ~t.hsx /\ ~t.hclosed /\ AutoDeliver /\ t.hst = "run" /\ t.crecv = None
    [] a[1] = "dl1"     -> ~AutoDeliver /\ t.w1 # <<>>
    [] a[1] = "dl2"     -> ~AutoDeliver /\ t.w2 # <<>>
    [] a[1] = "lose"    -> "lose" \in Faults /\ Open(t) /\ ~t.lost
    [] a[1] = "stall"   -> "stall" \in Faults /\ ~t.stall /\ ~t.lost /\ ~t.cx /\ ~t.cclosed /\ ~t.hsx /\ ~t.cwf
                           /\ (Open(t) => t.cw)
    [] a[1] = "cwf"     -> "cwf" \in Faults /\ ~t.cwf /\ ~t.lost /\ ~t.cx /\ ~t.cclosed /\ ~t.hsx /\ ~t.stall
                           /\ (Open(t) => t.cw)
    [] a[1] = "swf"     -> "swf" \in Faults /\ ~t.swf /\ ~t.lost /\ ~t.hsx /\ ~t.hclosed /\ (Open(t) => t.hw)

EnvDo(t0, a) ==
  LET t == [t0 EXCEPT !.a = a, !.o = <<>>] IN
  CASE a[1] = "open" /\ a[2] \in {"badfirst", "badreq"} ->
         Obs([t EXCEPT !.k = a[2], !.cx = TRUE, !.cdead = TRUE, !.cfin = "cancel", !.cseen = "cancel",
                       !.cclosed = TRUE, !.chalf = 1, !.crc = MaxRecv, !.hst = "ret", !.hx = TRUE],
             IF a[2] \in UnaryKinds THEN "cexec" ELSE "copen", {"fail"})
    [] a[1] = "open" ->
         LET first == a[2] # "stream"
             u == [t EXCEPT !.k = a[2], !.cw = TRUE, !.hw = TRUE, !.cn = IF first THEN 1 ELSE 0,
                            !.crecv = IF a[2] \in UnaryKinds THEN "exec" ELSE None]
             v == C2S(u, [k |-> "start", m |-> IF first THEN 1 ELSE 0])
         IN IF t.cwf THEN      \* the call cannot be started
              IF a[2] \in UnaryKinds THEN CEnd(Obs([v EXCEPT !.crecv = None, !.cseen = "cancel"], "cexec", {"fail"}))
              ELSE Obs([CFin(CloseC(v), "cancel") EXCEPT !.cdead = TRUE, !.cseen = "cancel", !.cclosed = TRUE,
                                                         !.chalf = MaxHalf + 1, !.crc = MaxRecv], "copen", {"fail"})
            ELSE IF t.stall THEN [v EXCEPT !.cpend = IF a[2] \in UnaryKinds THEN "cexec" ELSE "copen"]
            ELSE IF a[2] \in UnaryKinds THEN v ELSE Obs(v, "copen", {"ok"})
    [] a[1] \in {"csendbad", "hsendbad"} -> Obs(t, a[1], {"bad"})
    [] a[1] = "precancel" ->                   \* opening with a cancelled context
         Obs([t EXCEPT !.k = a[2], !.cx = TRUE, !.cdead = TRUE, !.cfin = "cancel", !.cseen = "cancel",
                       !.cclosed = TRUE, !.chalf = 1, !.crc = MaxRecv, !.hst = "ret", !.hx = TRUE],
             IF a[2] \in UnaryKinds THEN "cexec" ELSE "copen", {"cancel"})
    [] a[1] = "csend" ->
         LET u == [t EXCEPT !.cn = @ + 1]
         IN IF t.stall /\ t.cw /\ ~t.cx /\ ~t.lost THEN [u EXCEPT !.cpend = "csend"]
            ELSE Obs(IF t.cx THEN u ELSE C2S(u, Msg(t.cn + 1)), "csend", CSendRes(t))
    [] a[1] = "crecv" -> [t EXCEPT !.crecv = "recv", !.crc = @ + 1]
    [] a[1] = "chalf" ->
         IF t.stall /\ t.cw /\ ~t.cx /\ ~t.lost THEN [t EXCEPT !.cpend = "chalf", !.chalf = @ + 1]
         ELSE Obs(C2S([t EXCEPT !.chalf = @ + 1], Pkt("comp")), "chalf",
             IF t.cx THEN {"any"}
             ELSE IF t.cfin \in {"eof", "err", "unimpl"}  \* completed by the peer
                  THEN IF ~t.cclosed /\ ~t.lost /\ ~t.hsx THEN {"ok"} ELSE {"any"}
             ELSE CSendRes(t))
    [] a[1] = "cclose" -> Obs(CEnd([t EXCEPT !.cclosed = TRUE]), "cclose", {"any"})
    [] a[1] = "ccancel" -> [t EXCEPT !.cx = TRUE, !.cdead = TRUE]
    [] a[1] = "hsend" ->
         Obs(S2C([t EXCEPT !.hn = @ + 1], Msg(t.hn + 1)), "hsend", HSendRes(t))
    [] a[1] = "hrecv" -> [t EXCEPT !.hrecv = "recv", !.hrc = @ + 1]
    [] a[1] = "hhalf" ->
         Obs(S2C([t EXCEPT !.hhalf = @ + 1], Pkt("comp")), "hhalf", HSendRes(t))
    [] a[1] = "hclose" ->
         HCancel(Obs(S2C([t EXCEPT !.hclosed = TRUE], Pkt("cancel")), "hclose", {"any"}))
    [] a[1] \in {"hret", "hfail"} ->
         LET r == IF a[1] = "hret" THEN "ok" ELSE "err"
             p == IF t.hsx THEN "muddy" ELSE IF r = "ok" THEN "comp" ELSE "err"
         IN CloseS(S2C([t EXCEPT !.hst = "ret", !.hret = r, !.hx = TRUE], Pkt(p)))
    [] a[1] = "hsx" -> HCancel([t EXCEPT !.hsx = TRUE])
    [] a[1] = "cwf" -> [t EXCEPT !.cwf = TRUE]
    [] a[1] = "swf" -> [t EXCEPT !.swf = TRUE]
    [] a[1] = "stall" -> [t EXCEPT !.stall = TRUE]
    [] a[1] = "dl1" -> ServerRx([t EXCEPT !.a = <<"dl1", Head(t.w1).k, Head(t.w1).m>>, !.w1 = Tail(@)], Head(t.w1))
    [] a[1] = "dl2" -> ClientRx([t EXCEPT !.a = <<"dl2", Head(t.w2).k, Head(t.w2).m>>, !.w2 = Tail(@)], Head(t.w2))
    [] a[1] = "lose" ->
         LET u == [t EXCEPT !.lost = TRUE, !.w1 = <<>>, !.w2 = <<>>]
             v == IF u.cw THEN [CFin(u, "cut") EXCEPT !.cdead = TRUE, !.cw = FALSE] ELSE u
         IN IF v.hw THEN [HCancel(HFin(v, "cut")) EXCEPT !.hw = FALSE] ELSE v

\* ------------------------------------------------------------ specification
Core(t) == [t EXCEPT !.a = <<>>, !.o = <<>>]
Fp(t) == <<TLCFP(Core(t)), TLCFP(<<Core(t), "abcdefghijkl">>)>>

Init == s = Init0 /\ PrintT(ToJson(<<"init", Fp(s)>>))

EnvStep(a) == EnvEn(s, a) /\ s' = (IF Grain = "macro" THEN Quiesce(EnvDo(s, a)) ELSE EnvDo(s, a))
RxStep(r)  == Grain = "free" /\ REn(s, r) /\ s' = RDo([s EXCEPT !.a = <<"rx", r>>, !.o = <<>>], r)

Next == (\E a \in EnvSet : EnvStep(a)) \/ (\E r \in RxSet : RxStep(r))
Spec == Init /\ [][Next]_s
FairSpec == Spec /\ WF_s(\E r \in RxSet : RxStep(r))

View == [s EXCEPT !.a = <<>>, !.o = <<>>]


\* the call is over on both sides
Over(t) == Open(t) /\ t.crecv = None /\ t.cpend = None /\ t.hst # "run" /\ ~t.cw /\ ~t.hw

\* ACTION_CONSTRAINT that prints every transition
Dump == PrintT(ToJson(<<Fp(s), Fp(s'), s'.a, s'.o, Over(s')>>))

\* ------------------------------------------------------------- properties
PrefixOK(q, r, n) == \A i \in 1..Len(q) : q[i] = r + i /\ q[i] <= n
InOrder == /\ (~Loose(s)  => PrefixOK(s.cq, s.cr, s.hn))
           /\ (~HLoose(s) => PrefixOK(s.hq, s.hr, s.cn))
WireOrder == LET ms(w) == SelectSeq(w, LAMBDA p : p.m > 0)
             IN /\ \A i, j \in 1..Len(ms(s.w1)) : i < j => ms(s.w1)[i].m < ms(s.w1)[j].m
                /\ \A i, j \in 1..Len(ms(s.w2)) : i < j => ms(s.w2)[i].m < ms(s.w2)[j].m
\* end of stream only after everything
CleanEnd == /\ s.cseen = "eof" /\ ~Unary(s) => (s.hret = "ok" \/ s.hhalf > 0) /\ s.cr = s.hn
            /\ s.cseen = "err" => s.hret = "err" /\ (~Unary(s) => s.cr = s.hn)
            /\ (s.hfin = "eof" => s.chalf > 0)
Once == s.hstarts <= 1 /\ (s.hst # "none" => Open(s))
\* the handler context is cancelled only for a reason
CancelCause == s.hx => \/ s.cx \/ s.cclosed \/ s.lost \/ s.hsx \/ s.hclosed \/ s.hst = "ret"
                       \/ (Unary(s) /\ s.crecv = None) \/ s.hhalf > 0
StatusStable == [][s.cseen # None => s'.cseen = s.cseen]_s
\* liveness (fair reactions, automatic delivery)
Released     == (s.crecv # None /\ (s.cx \/ s.cclosed \/ s.lost \/ s.hst = "ret")) ~> (s.crecv = None)
HReleased    == (s.hrecv # None /\ (s.cx \/ s.cclosed \/ s.lost)) ~> (s.hrecv = None)
CancelSeen   == ((s.cx \/ s.cclosed \/ s.lost) /\ s.hst = "run") ~> s.hx
Cleanup      == (Open(s) /\ s.hst = "ret") ~> (~s.cw /\ ~s.hw)
Inv == InOrder /\ WireOrder /\ CleanEnd /\ Once /\ CancelCause
=============================================================================
