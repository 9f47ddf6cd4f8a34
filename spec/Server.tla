------------------------------- MODULE Server -------------------------------
(***************************************************************************)
(* A listening server and its connections.  A connection is that of a good *)
(* client, or idle, or sends garbage; a good client makes calls and keeps  *)
(* one call open.  What happens on one connection is invisible on all      *)
(* others.  Stopping ends the listening and, if its context is cancelled,  *)
(* the running handlers.                                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json
CONSTANTS MaxConn, MaxCalls, Kinds, Stops, Ops

VARIABLE s
Init0 == [ c |-> <<>>, calls |-> 0, stop |-> "", after |-> 0, late |-> 0, a |-> <<>>, o |-> <<>> ]
Core(t) == [t EXCEPT !.a = <<>>, !.o = <<>>]
Fp(t) == <<TLCFP(Core(t)), TLCFP(<<Core(t), "abcdefghijkl">>)>>
Obs(t, name, results) == [t EXCEPT !.o = Append(@, [n |-> name, r |-> results])]
S(i) == ToString(i)
\* c[i] = [k: kind, up: connected, run: its open call]
Conns(t, P(_)) == SelectSeq([i \in 1..Len(t.c) |-> i], P)
ObsAll(t, is, name, r) == [t EXCEPT !.o = @ \o [k \in 1..Len(is) |-> [n |-> name \o S(is[k]), r |-> {r}]]]
\* every open call is cancelled
Cancel(t) == LET is == Conns(t, LAMBDA i : t.c[i].run = 1)
                 c == [i \in 1..Len(t.c) |-> IF t.c[i].run = 1 THEN [t.c[i] EXCEPT !.run = 2] ELSE t.c[i]]
             IN  ObsAll([t EXCEPT !.c = c], is, "hctx", "done")
EnvSet == {<<"connect", k>> : k \in Kinds} \cup {<<x, i>> : x \in {"call", "open", "cancel", "leave", "break", "junk", "late"}, i \in 1..MaxConn}
          \cup {<<"stop", k>> : k \in Stops} \cup {<<"callall">>, <<"refused">>, <<"dialfail">>, <<"inuse">>}
Up(t, i) == i <= Len(t.c) /\ t.c[i].up
Good(t, i) == Up(t, i) /\ t.c[i].k = "good" /\ ~t.c[i].junk
EnvEn(t, a) ==
  /\ a[1] \in Ops
  /\ CASE a[1] = "connect" -> Len(t.c) < MaxConn /\ t.stop = ""
       [] a[1] = "call" -> Good(t, a[2]) /\ t.calls < MaxCalls /\ t.stop = ""
       [] a[1] = "open" -> Good(t, a[2]) /\ t.c[a[2]].run = 0 /\ t.stop = ""
       [] a[1] = "cancel" -> Good(t, a[2]) /\ t.c[a[2]].run = 1
       [] a[1] \in {"leave", "break"} -> Up(t, a[2]) /\ (a[1] = "break" => t.c[a[2]].run # 0)
       [] a[1] = "junk" -> Good(t, a[2])
       [] a[1] = "callall" -> t.stop = "" /\ \E i \in 1..Len(t.c) : Good(t, i)
       [] a[1] = "stop" -> t.stop = ""
       [] a[1] = "late" -> t.stop # "" /\ Good(t, a[2]) /\ t.late < 2
       [] a[1] = "refused" -> t.stop # "" /\ t.after = 0
       [] OTHER -> t.stop = "" /\ t.calls < MaxCalls
All(t) == ObsAll(t, Conns(t, LAMBDA i : Good(t, i)), "call", "ok")
End(t, i) == LET u == [t EXCEPT !.c[i].up = FALSE] IN
             IF t.c[i].run = 1 THEN Obs([u EXCEPT !.c[i].run = 2], "hctx" \o S(i), {"done"}) ELSE u
EnvDo(t0, a) ==
  LET t == [t0 EXCEPT !.a = a, !.o = <<>>]  IN
  CASE a[1] = "connect" -> Obs([t EXCEPT !.c = Append(@, [k |-> a[2], up |-> TRUE, junk |-> FALSE, run |-> 0])], "connect", {"ok"})
    [] a[1] = "call" -> Obs([t EXCEPT !.calls = @ + 1], "call" \o S(a[2]), {"ok"})
    [] a[1] = "open" -> Obs([t EXCEPT !.c[a[2]].run = 1], "hstart" \o S(a[2]), {"yes"})
    [] a[1] = "cancel" -> Obs([t EXCEPT !.c[a[2]].run = 2], "hctx" \o S(a[2]), {"done"})
    [] a[1] \in {"leave", "break"} -> End(t, a[2])
    [] a[1] = "junk" -> \* garbage inside a muxed stream of its own: the connection goes on
         t
    [] a[1] = "callall" -> All(t)
    [] a[1] = "stop" ->
         LET u == [t EXCEPT !.stop = a[2]] IN
        (CASE a[2] = "ctx"  -> Cancel(Obs(u, "listen", {"cancel"}))
           [] a[2] = "base" -> Cancel(u)        \* no listener of its own
           [] a[2] = "errch" -> Obs(u, "listen", {"cause"})
           [] a[2] = "close" -> Obs(u, "listen", {"fail"}))
    [] a[1] = "late" -> Obs([t EXCEPT !.late = @ + 1], "late", IF t.stop \in {"ctx", "base"} THEN {"failed"} ELSE {"ok"})
    [] a[1] = "refused" -> Obs([t EXCEPT !.after = 1], "refused", {"yes"})
    [] a[1] = "dialfail" -> Obs([t EXCEPT !.calls = @ + 1], "dialfail", {"fail"})
    [] a[1] = "inuse" -> Obs([t EXCEPT !.calls = @ + 1], "inuse", {"fail"})
Init == s = Init0 /\ PrintT(ToJson(<<"init", Fp(s)>>))
\* a crowd: everybody connects before anything else happens, then the connections take turns
First(t, r) == LET I == {i \in 1..Len(t.c) : t.c[i].run = r} IN
               IF I = {} THEN 1 ELSE CHOOSE i \in I : \A j \in I : i <= j
Turns(t) == IF Len(t.c) < MaxConn THEN {<<"connect", k>> : k \in Kinds}
            ELSE {<<"stop", k>> : k \in Stops} \cup {<<"callall">>, <<"open", First(t, 0)>>, <<"call", 1 + ((t.calls * 37) % MaxConn)>>}
                 \cup {<<x, First(t, 1)>> : x \in {"cancel", "leave", "break"}}
Next == \E a \in (IF "crowd" \in Ops THEN Turns(s) ELSE EnvSet) : EnvEn(s, a) /\ s' = EnvDo(s, a)
Spec == Init /\ [][Next]_s
View == Core(s)
Dump == PrintT(ToJson(<<Fp(s), Fp(s'), s'.a, s'.o, FALSE>>))
\* a step of one connection is not seen on another one
Touched(a) == IF a[1] \in {"call", "open", "cancel", "leave", "break", "junk"} THEN {a[2]} ELSE 1..MaxConn
Local == \A i \in 1..Len(s.o) : s.a[1] \in {"cancel", "leave", "break"} => s.o[i].n = "hctx" \o S(s.a[2])
Inv == Local
=============================================================================
