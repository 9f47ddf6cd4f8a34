------------------------------- MODULE Prefix -------------------------------
(***************************************************************************)
(* Service-prefix routing.  Ids and prefixes are words over Letters; the   *)
(* harness maps letters to different strings none of which is a prefix of  *)
(* another, so that words and their concrete ids have the same prefixes.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json
CONSTANTS Letters, MaxPfx, MaxPfxLen, MaxIdLen, Kinds

VARIABLE s
Words(n) == UNION {[1..k -> Letters] : k \in 0..n}
Init0 == [pfx |-> <<>>, fixed |-> FALSE, a |-> <<>>, o |-> <<>>]
Core(t) == [t EXCEPT !.a = <<>>, !.o = <<>>]
Fp(t) == <<TLCFP(Core(t)), TLCFP(<<Core(t), "abcdefghijkl">>)>>
Obs(t, name, results) == [t EXCEPT !.o = Append(@, [n |-> name, r |-> results])]
RECURSIVE Str(_)
Str(w) == IF w = <<>> THEN "" ELSE Head(w) \o Str(Tail(w))
Starts(w, p) == Len(p) <= Len(w) /\ SubSeq(w, 1, Len(p)) = p
Matches(t, w) == {i \in 1..Len(t.pfx) : Starts(w, t.pfx[i])}
First(t, w) == CHOOSE i \in Matches(t, w) : \A j \in Matches(t, w) : i <= j
\* the id a call is forwarded with
Strip(t, w) == LET p == t.pfx[First(t, w)] IN SubSeq(w, Len(p) + 1, Len(w))
EnvSet == {<<"pfx", Str(w)>> : w \in {w \in Words(MaxPfxLen) : w # <<>>}} \cup {<<"make">>}
          \cup {<<"call", k, Str(w)>> : k \in Kinds, w \in Words(MaxIdLen)}
WordOf(x, n) == CHOOSE w \in Words(n) : Str(w) = x
EnvEn(t, a) == CASE a[1] = "pfx" -> ~t.fixed /\ Len(t.pfx) < MaxPfx
                 [] a[1] = "make" -> ~t.fixed
                 [] OTHER -> t.fixed
EnvDo(t0, a) ==
  LET t == [t0 EXCEPT !.a = a, !.o = <<>>] IN
  CASE a[1] = "pfx" -> [t EXCEPT !.pfx = Append(@, WordOf(a[2], MaxPfxLen))]
    [] a[1] = "make" -> [t EXCEPT !.fixed = TRUE]
    [] a[1] = "call" ->
         LET w == WordOf(a[3], MaxIdLen) IN
         IF t.pfx = <<>> THEN Obs(Obs(t, "fwd", {"=" \o Str(w)}), "result", {"fwd"})
         ELSE IF Matches(t, w) = {} THEN Obs(t, "result", {"unimpl"})
         ELSE Obs(Obs(t, "fwd", {"=" \o Str(Strip(t, w))}), "result", {"fwd"})
Init == s = Init0 /\ PrintT(ToJson(<<"init", Fp(s)>>))
Next == \E a \in EnvSet : EnvEn(s, a) /\ s' = EnvDo(s, a)
Spec == Init /\ [][Next]_s
View == Core(s)
Dump == PrintT(ToJson(<<Fp(s), Fp(s'), s'.a, s'.o, FALSE>>))
\* what is forwarded is the id without the first matching prefix
Inv == \A w \in Words(MaxIdLen) : Matches(s, w) # {} => s.pfx[First(s, w)] \o Strip(s, w) = w
=============================================================================
