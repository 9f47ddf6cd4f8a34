-------------------------------- MODULE Wire --------------------------------
(***************************************************************************)
(* The encoding of the messages: proto3 of the .proto files.  A document   *)
(* is written field by field; after each complete field it is decoded.     *)
(* val is the decoded value, Enc(val) its canonical encoding.  Fields of a *)
(* oneof replace one another, except that a sub-message merges into one of *)
(* the same kind; other repeated fields replace the value; unknown fields  *)
(* are kept and written at the end; bad input is refused.                  *)
(* Tokens: e (empty), a, b, c: strings or bytes the harness chooses; t, f. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json
CONSTANTS Msg, MaxTop, MaxSub, Unknown, Bads

VARIABLE s
Oneof == [ Packet |-> <<"CallStart", "CallData", "bool">>, RpcStreamPacket |-> <<"RpcStreamInit", "RpcAck", "bytes">> ]
Plain == [ CallStart |-> <<"str", "str", "bytes", "bool">>, CallData |-> <<"bytes", "bool", "bool", "str">>,
           RpcStreamInit |-> <<"str">>, RpcAck |-> <<"str">>, EchoMsg |-> <<"str">> ]
IsOneof == Msg \in DOMAIN Oneof
Toks(ty) == IF ty = "bool" THEN {"t", "f"} ELSE {"e", "a", "b", "c"}
Default(ty) == IF ty = "bool" THEN "f" ELSE "e"
Blank(m) == [f |-> [i \in 1..Len(Plain[m]) |-> Default(Plain[m][i])], u |-> <<>>]
NoSub == [f |-> <<>>, u |-> <<>>]
\* field 0: no body.  Sub-messages keep their fields in sub, scalars their token in sc.
Val0 == [b |-> 0, sc |-> "", sub |-> IF IsOneof THEN NoSub ELSE Blank(Msg), u |-> <<>>]
Init0 == [ val |-> Val0, top |-> 0, open |-> 0, w |-> <<>>, bad |-> FALSE, a |-> <<>>, o |-> <<>> ]
Core(t) == [t EXCEPT !.a = <<>>, !.o = <<>>]
Fp(t) == <<TLCFP(Core(t)), TLCFP(<<Core(t), "abcdefghijkl">>)>>
Obs(t, name, results) == [t EXCEPT !.o = Append(@, [n |-> name, r |-> results])]

\* canonical encoding, as a text
RECURSIVE Unk(_)
Unk(u) == IF u = <<>> THEN "" ELSE "u" \o Head(u) \o ";" \o Unk(Tail(u))
RECURSIVE Fields(_, _, _)
Fields(m, f, i) == IF i > Len(f) THEN ""
                   ELSE (IF f[i] = Default(Plain[m][i]) THEN "" ELSE ToString(i) \o "=" \o f[i] \o ";") \o Fields(m, f, i + 1)
Sub(m, v, unk) == Fields(m, v.f, 1) \o (IF unk THEN Unk(v.u) ELSE "")
Text(v, unk) ==
  IF ~IsOneof THEN Sub(Msg, v.sub, unk)
  ELSE (IF v.b = 0 THEN ""
        ELSE IF Oneof[Msg][v.b] \in DOMAIN Plain THEN ToString(v.b) \o "{" \o Sub(Oneof[Msg][v.b], v.sub, unk) \o "}"
        ELSE ToString(v.b) \o "=" \o v.sc \o ";") \o (IF unk THEN Unk(v.u) ELSE "")
Enc(v) == Text(v, TRUE)

\* decoding of the fields w = <<field or 0 for unknown, token>> into sub-message v
RECURSIVE Fill(_, _)
Fill(v, w) == IF w = <<>> THEN v
              ELSE LET h == Head(w) IN
                   Fill(IF h[1] = 0 THEN [v EXCEPT !.u = Append(@, h[2])] ELSE [v EXCEPT !.f[h[1]] = h[2]], Tail(w))
Shut(v, b, w) == [v EXCEPT !.b = b, !.sc = "", !.sub = Fill(IF v.b = b THEN v.sub ELSE Blank(Oneof[Msg][b]), w)]

Seen(t, old) == LET yes(x) == {IF x THEN "yes" ELSE "no"} IN
                Obs(Obs(Obs(Obs(Obs(t, "val", {":" \o Text(t.val, FALSE)}), "enc", {":" \o Enc(t.val)}), "json", {":" \o Text(t.val, FALSE)}),
                        "clone", {":" \o Enc(t.val)}), "eq", yes(Enc(t.val) = Enc(old)))
CurMsg(t) == IF ~IsOneof THEN Msg ELSE Oneof[Msg][t.open]
InSub(t) == ~IsOneof \/ t.open # 0
EnvSet == {<<"open", b>> : b \in 1..3} \cup {<<"shut">>} \cup {<<x, i, k>> : x \in {"sub", "top"}, i \in 1..4, k \in {"e", "a", "b", "c", "t", "f"}}
          \cup {<<"unk", k>> : k \in Unknown} \cup {<<"bad", k>> : k \in Bads}
EnvEn(t, a) ==
  /\ ~t.bad
  /\ CASE a[1] = "open" -> IsOneof /\ t.open = 0 /\ t.top < MaxTop /\ a[2] <= Len(Oneof[Msg]) /\ Oneof[Msg][a[2]] \in DOMAIN Plain
       [] a[1] = "shut" -> IsOneof /\ t.open # 0
       [] a[1] = "sub"  -> InSub(t) /\ a[2] <= Len(Plain[CurMsg(t)]) /\ a[3] \in Toks(Plain[CurMsg(t)][a[2]])
                           /\ (IF IsOneof THEN Len(t.w) < MaxSub ELSE t.top < MaxTop)
       [] a[1] = "top"  -> IsOneof /\ t.open = 0 /\ t.top < MaxTop /\ a[2] <= Len(Oneof[Msg]) /\ Oneof[Msg][a[2]] \notin DOMAIN Plain
                           /\ a[3] \in Toks(Oneof[Msg][a[2]])
       [] a[1] = "unk"  -> IF IsOneof /\ t.open # 0 THEN Len(t.w) < MaxSub ELSE t.top < MaxTop
       [] OTHER -> TRUE
EnvDo(t0, a) ==
  LET t == [t0 EXCEPT !.a = a, !.o = <<>>] IN
  CASE a[1] = "open" -> [t EXCEPT !.open = a[2], !.w = <<>>, !.top = @ + 1]
    [] a[1] = "shut" -> Seen([t EXCEPT !.open = 0, !.w = <<>>, !.val = Shut(@, t.open, t.w)], t.val)
    [] a[1] = "sub"  -> IF IsOneof THEN [t EXCEPT !.w = Append(@, <<a[2], a[3]>>)]
                        ELSE Seen([t EXCEPT !.top = @ + 1, !.val.sub = Fill(@, <<<<a[2], a[3]>>>>)], t.val)
    [] a[1] = "top"  -> Seen([t EXCEPT !.top = @ + 1, !.val.b = a[2], !.val.sc = a[3], !.val.sub = NoSub], t.val)
    [] a[1] = "unk"  -> IF IsOneof /\ t.open # 0 THEN [t EXCEPT !.w = Append(@, <<0, a[2]>>)]
                        ELSE IF IsOneof THEN Seen([t EXCEPT !.top = @ + 1, !.val.u = Append(@, a[2])], t.val)
                        ELSE Seen([t EXCEPT !.top = @ + 1, !.val.sub = Fill(@, <<<<0, a[2]>>>>)], t.val)
    [] a[1] = "bad"  -> Obs([t EXCEPT !.bad = TRUE], "decode", {"refused"})
Init == s = Init0 /\ PrintT(ToJson(<<"init", Fp(s)>>))
Next == \E a \in EnvSet : EnvEn(s, a) /\ s' = EnvDo(s, a)
Spec == Init /\ [][Next]_s
View == Core(s)
Dump == PrintT(ToJson(<<Fp(s), Fp(s'), s'.a, s'.o, s'.bad>>))

\* decoding the canonical encoding of a value gives the value
Canon(m, v) == LET fs == SelectSeq([i \in 1..Len(v.f) |-> <<i, v.f[i]>>], LAMBDA x : x[2] # Default(Plain[m][x[1]]))
               IN  fs \o [i \in 1..Len(v.u) |-> <<0, v.u[i]>>]
RoundTrip ==
  IF ~IsOneof THEN Fill(Blank(Msg), Canon(Msg, s.val.sub)) = s.val.sub
  ELSE s.val.b # 0 /\ Oneof[Msg][s.val.b] \in DOMAIN Plain =>
         Shut([Val0 EXCEPT !.u = s.val.u], s.val.b, Canon(Oneof[Msg][s.val.b], s.val.sub)) = s.val
Inv == RoundTrip
=============================================================================
