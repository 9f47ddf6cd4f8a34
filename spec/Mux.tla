-------------------------------- MODULE Mux --------------------------------
(***************************************************************************)
(* Mux dispatch: a table service -> method -> handler in which the latest  *)
(* registration wins, a list of fallback invokers asked in order, and the  *)
(* presence queries.                                                       *)
(*                                                                         *)
(* A handler or fallback answers a call in one of the ways of Answers:     *)
(* ok/err: handled it; no: not found; noerr: not found but failed.         *)
(* A handler that answers "nest" uses the mux while it runs: it registers  *)
(* another handler of the method it was called for, asks the mux for it    *)
(* and calls it through the mux.                                           *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json
CONSTANTS Svcs, Meths, MaxReg, MaxFall, Ops, Answers

VARIABLE s
None == "none"
Init0 ==
  [ fall |-> <<>>, fixed |-> FALSE,
    reg |-> <<>>,                                  \* registrations in order
    a |-> <<>>, o |-> <<>> ]
Core(t) == [t EXCEPT !.a = <<>>, !.o = <<>>]
Fp(t) == <<TLCFP(Core(t)), TLCFP(<<Core(t), "abcdefghijkl">>)>>
Obs(t, name, results) == [t EXCEPT !.o = Append(@, [n |-> name, r |-> results])]

\* registrations are <<service, methods, answer>>; the number is the handler
Covers(r, svc, m) == r[1] = svc /\ m \in r[2] /\ m # ""
\* the handler of a service and method: the latest
Latest(t, svc, m) ==
  LET c == {i \in 1..Len(t.reg) : Covers(t.reg[i], svc, m)} IN
  IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : j <= i
\* with an empty service any handler of the method may answer
Cands(t, svc, m) == IF svc = "" THEN {Latest(t, x, m) : x \in Svcs} \ {0}
                    ELSE {Latest(t, svc, m)} \ {0}
RECURSIVE Fall(_, _)
\* asked fallbacks and the result
Fall(t, i) ==
  IF i > Len(t.fall) THEN <<"no", {}>>
  ELSE IF t.fall[i] = "nil" THEN Fall(t, i + 1)
  ELSE LET x == t.fall[i]
           r == IF x = "no" THEN Fall(t, i + 1) ELSE <<x, {}>>
       IN <<r[1], r[2] \cup {i}>>
Res(k) == CASE k \in {"ok", "nest"} -> "found" [] k = "err" -> "founderr" [] k = "no" -> "notfound" [] k = "noerr" -> "notfounderr"
Call(t, svc, m) ==
  LET c == Cands(t, svc, m) IN
  IF c # {} THEN
     IF Cardinality(c) = 1 THEN LET i == CHOOSE i \in c : TRUE IN
        IF t.reg[i][3] = "nest" /\ Len(t.reg) < MaxReg THEN
          LET u == Obs(Obs([t EXCEPT !.reg = Append(@, <<t.reg[i][1], {m}, "ok">>)], "ran", {"h" \o ToString(i)}), "reg", {"ok"})
              v == Obs(Obs(u, "hasm", {"true"}), "ran", {"h" \o ToString(Len(u.reg))})
          IN Obs(Obs(v, "result", {"found"}), "result", {"found"})
        ELSE
        Obs(Obs(t, "ran", {"h" \o ToString(i)}), "result", {Res(t.reg[i][3])})
     ELSE Obs(Obs(t, "ran", {"h" \o ToString(i) : i \in c}), "result", {Res(t.reg[i][3]) : i \in c})
  ELSE LET f == Fall(t, 1)
           asked(i) == IF i \in f[2] THEN <<[n |-> "ran", r |-> {"f" \o ToString(i)}]>> ELSE <<>>
           u == [t EXCEPT !.o = @ \o asked(1) \o asked(2) \o asked(3)]
       IN Obs(u, "result", {Res(f[1])})

B(x) == IF x THEN "true" ELSE "false"
EnvSet == {<<"fall", k>> : k \in (Answers \ {"nest"}) \cup {"nil"}} \cup {<<"make">>}
          \cup {<<"reg", svc, ms, k>> : svc \in Svcs \cup {""}, ms \in SUBSET (Meths \cup {""}), k \in Answers}
          \cup {<<"call", svc, m>> : svc \in Svcs \cup {""}, m \in Meths \cup {""}}
          \cup {<<"has", svc>> : svc \in Svcs \cup {""}}
          \cup {<<"hasm", svc, m>> : svc \in Svcs \cup {""}, m \in Meths \cup {""}}
EnvEn(t, a) ==
  /\ a[1] \in Ops
  /\ CASE a[1] = "fall" -> ~t.fixed /\ Len(t.fall) < MaxFall
       [] a[1] = "make" -> ~t.fixed
       [] a[1] = "reg"  -> t.fixed /\ Len(t.reg) < MaxReg
       [] a[1] = "call" -> /\ t.fixed
                           /\ LET c == Cands(t, a[2], a[3]) IN Cardinality(c) < 2 \/ \A i \in c : t.reg[i][3] # "nest"
       [] OTHER -> t.fixed
EnvDo(t0, a) ==
  LET t == [t0 EXCEPT !.a = a, !.o = <<>>] IN
  CASE a[1] = "fall" -> [t EXCEPT !.fall = Append(@, a[2])]
    [] a[1] = "make" -> [t EXCEPT !.fixed = TRUE]
    [] a[1] = "reg"  -> IF a[2] = "" THEN Obs(t, "reg", {"fail"})
                        ELSE Obs([t EXCEPT !.reg = Append(@, <<a[2], a[3], a[4]>>)], "reg", {"ok"})
    [] a[1] = "call" -> Call(t, a[2], a[3])
    [] a[1] = "has"  -> Obs(t, "has", {B(a[2] # "" /\ \E m \in Meths : Latest(t, a[2], m) # 0)})
    [] a[1] = "hasm" -> Obs(t, "hasm", {B(a[2] # "" /\ a[3] # "" /\ Latest(t, a[2], a[3]) # 0)})

Init == s = Init0 /\ PrintT(ToJson(<<"init", Fp(s)>>))
Next == \E a \in EnvSet : EnvEn(s, a) /\ s' = EnvDo(s, a)
Spec == Init /\ [][Next]_s
View == Core(s)
Dump == PrintT(ToJson(<<Fp(s), Fp(s'), s'.a, s'.o, FALSE>>))
\* a query agrees with what a call would do
Agree == \A svc \in Svcs, m \in Meths : (Latest(s, svc, m) # 0) = (Cands(s, svc, m) # {})
Inv == Agree
=============================================================================
