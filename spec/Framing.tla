------------------------------- MODULE Framing -------------------------------
(***************************************************************************)
(* The length-prefixed packet framing on a byte stream.                    *)
(*                                                                         *)
(* A frame is 4 prefix units and Body body units.  The writer appends      *)
(* frames, the stream delivers any number of units at a time (a chunk),    *)
(* possibly together with its end or an error.  The reader hands out the   *)
(* frames which are complete.  A bad frame is a prefix the reader must     *)
(* refuse (zero or above the limit) and nothing else.                      *)
(* The harness maps units to bytes: prefix units to single bytes, body     *)
(* units to parts of bodies whose sizes are chosen around the buffer sizes.*)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json
CONSTANTS Body, MaxFrames, Ops, MaxChunks

VARIABLE s
None == "none"
Init0 ==
  [ fr |-> <<>>,      \* frames on the stream: "ok", "zero", "over"
    del |-> 0,        \* units delivered to the reader
    got |-> 0,        \* frames handed out
    ch |-> 0,
    cberr |-> 0,      \* the consumer fails on this frame
    wbroken |-> FALSE,
    fin |-> None,     \* how reading ended
    a |-> <<>>, o |-> <<>> ]
Obs(t, name, results) == [t EXCEPT !.o = Append(@, [n |-> name, r |-> results])]
Core(t) == [t EXCEPT !.a = <<>>, !.o = <<>>]
Fp(t) == <<TLCFP(Core(t)), TLCFP(<<Core(t), "abcdefghijkl">>)>>

Len1(k) == IF k = "ok" THEN 4 + Body ELSE 4
RECURSIVE Sum(_, _)
Sum(fr, n) == IF n = 0 THEN 0 ELSE Sum(fr, n - 1) + Len1(fr[n])
Total(t) == Sum(t.fr, Len(t.fr))
\* the number of frames that end at or before unit d
Whole(t, d) == CHOOSE n \in 0..Len(t.fr) : Sum(t.fr, n) <= d /\ (n = Len(t.fr) \/ Sum(t.fr, n + 1) > d)

RECURSIVE Hand(_)
\* hand out complete frames until one is refused
Hand(t) ==
  IF t.fin # None \/ t.got = Whole(t, t.del) THEN t
  ELSE LET k == t.fr[t.got + 1] IN
       IF k # "ok" THEN Obs([t EXCEPT !.fin = "bad"], "closed", {"fail"})
       ELSE LET u == Obs([t EXCEPT !.got = @ + 1], "pkt", {"p" \o ToString(t.got + 1)}) IN
            IF u.got = t.cberr THEN Obs([u EXCEPT !.fin = "cb"], "closed", {"cberr"}) ELSE Hand(u)
AtEnd(t) == t.del = Sum(t.fr, t.got)
End(t, how) ==
  IF t.fin # None THEN t
  ELSE IF how = "eof" THEN Obs([t EXCEPT !.fin = "eof"], "closed", IF AtEnd(t) THEN {"ok"} ELSE {"fail"})
  ELSE Obs([t EXCEPT !.fin = "err"], "closed", {"fail"})

EnvSet == {<<"write">>, <<"werr">>, <<"cberr">>, <<"eof">>, <<"err">>}
          \cup {<<"bad", k>> : k \in {"zero", "over"}}
          \cup {<<c, n>> : c \in {"chunk", "chunkeof", "chunkerr"}, n \in 1..(MaxFrames * (4 + Body))}
EnvEn(t, a) ==
  /\ a[1] \in Ops /\ t.fin = None
  /\ CASE a[1] = "write" -> Len(t.fr) < MaxFrames /\ ~t.wbroken
       [] a[1] = "werr"  -> ~t.wbroken
       [] a[1] = "bad"   -> Len(t.fr) < MaxFrames /\ ~t.wbroken /\ (\A i \in 1..Len(t.fr) : t.fr[i] = "ok")
       [] a[1] = "cberr" -> t.cberr = 0 /\ t.got < MaxFrames
       [] a[1] \in {"chunk", "chunkeof", "chunkerr"} -> t.ch < MaxChunks /\ t.del + a[2] <= Total(t)
       [] OTHER -> TRUE
EnvDo(t0, a) ==
  LET t == [t0 EXCEPT !.a = a, !.o = <<>>] IN
  CASE a[1] = "write" -> Obs([t EXCEPT !.fr = Append(@, "ok")], "write", {"ok"})
    [] a[1] = "werr"  -> Obs([t EXCEPT !.wbroken = TRUE], "write", {"fail"})
    [] a[1] = "bad"   -> [t EXCEPT !.fr = Append(@, a[2])]
    [] a[1] = "cberr" -> [t EXCEPT !.cberr = t.got + 1]
    [] a[1] = "eof"   -> End(t, "eof")
    [] a[1] = "err"   -> End(t, "err")
    [] a[1] = "chunk" -> Hand([t EXCEPT !.del = @ + a[2], !.ch = @ + 1])
    [] a[1] = "chunkeof" -> End(Hand([t EXCEPT !.del = @ + a[2], !.ch = @ + 1]), "eof")
    [] a[1] = "chunkerr" -> End(Hand([t EXCEPT !.del = @ + a[2], !.ch = @ + 1]), "err")

Init == s = Init0 /\ PrintT(ToJson(<<"init", Fp(s)>>))
Next == \E a \in EnvSet : EnvEn(s, a) /\ s' = EnvDo(s, a)
Spec == Init /\ [][Next]_s
View == Core(s)
Dump == PrintT(ToJson(<<Fp(s), Fp(s'), s'.a, s'.o, s'.fin # None>>))

\* properties of the design
Exact == s.got <= Len(s.fr) /\ (\A i \in 1..s.got : s.fr[i] = "ok") /\ Sum(s.fr, s.got) <= s.del
\* all complete frames before the first bad one are handed out
Complete == s.fin \in {None, "eof", "err", "bad"} =>
              \A i \in 1..Len(s.fr) : (Sum(s.fr, i) <= s.del /\ \A j \in 1..i : s.fr[j] = "ok") => s.got >= i
Inv == Exact /\ Complete
=============================================================================
