------------------------------- MODULE RawMsg -------------------------------
(***************************************************************************)
(* The raw message container and who owns which buffer.                    *)
(*                                                                         *)
(* Buffers live in a heap (value = <<length class, version>>).  The        *)
(* message refers to a buffer (ref) of which it shows everything or        *)
(* nothing (clr).  A copying message never refers to a buffer a caller     *)
(* passed to set or unmarshal and never hands its own buffer out of        *)
(* marshal; a message that does not copy uses the given buffer itself.     *)
(* The harness turns values into bytes and, after every operation,         *)
(* compares the message and every buffer the callers hold.                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json
CONSTANTS MaxOps, MaxBufs, Lens, Ops

VARIABLE s
None == "none"
Init0 ==
  [ made |-> FALSE, copy |-> FALSE,
    own |-> FALSE,      \* the message owns a private buffer with value val
    val |-> <<0, 0>>,
    ref |-> 0,          \* or uses this caller's buffer
    clr |-> FALSE,      \* cleared: length zero
    bufs |-> <<>>,      \* buffers held by callers
    free |-> {},        \* buffers given away: the message may overwrite them
    ver |-> 0, n |-> 0, a |-> <<>>, o |-> <<>> ]
Core(t) == [t EXCEPT !.a = <<>>, !.o = <<>>]
Fp(t) == <<TLCFP(Core(t)), TLCFP(<<Core(t), "abcdefghijkl">>)>>
Tok(v) == "L" \o ToString(v[1]) \o "v" \o ToString(v[2])
Empty == <<0, 0>>
Data(t) == IF ~t.made \/ t.clr THEN Empty
           ELSE IF t.ref # 0 THEN t.bufs[t.ref] ELSE IF t.own THEN t.val ELSE Empty
\* what can be seen after an operation
See(t) == [t EXCEPT !.o = @ \o <<[n |-> "data", r |-> {Tok(Data(t))}]>>
                       \o [i \in 1..Len(t.bufs) |-> [n |-> "b" \o ToString(i),
                                r |-> IF i \in t.free THEN {"any"} ELSE {Tok(t.bufs[i])}]]]
Obs(t, name, results) == [t EXCEPT !.o = Append(@, [n |-> name, r |-> results])]
Fresh(t, l) == IF l = 0 THEN Empty ELSE <<l, t.ver + 1>>
NewBuf(t, l) == [t EXCEPT !.bufs = Append(@, Fresh(t, l)), !.ver = @ + 1]

\* the message takes buffer i
Take(t, i) == IF t.copy THEN [t EXCEPT !.own = TRUE, !.val = t.bufs[i], !.ref = 0, !.clr = FALSE]
              ELSE [t EXCEPT !.own = FALSE, !.ref = i, !.clr = FALSE]
EnvSet == {<<"new", c, l>> : c \in {"copy", "nocopy"}, l \in Lens} \cup {<<"nil", c>> : c \in {"copy", "nocopy"}}
          \cup {<<k, l>> : k \in {"set", "unm", "msz"}, l \in Lens}
          \cup {<<k, i>> : k \in {"reset2", "mut", "reunm"}, i \in 1..MaxBufs}
          \cup {<<"clear">>, <<"reset">>, <<"mar">>, <<"bad">>}
EnvEn(t, a) ==
  /\ a[1] \in Ops /\ t.n < MaxOps
  /\ (a[1] \in {"new", "nil"}) = ~t.made
  /\ a[1] \in {"set", "unm", "mar", "new"} => Len(t.bufs) < MaxBufs
  /\ a[1] \in {"reset2", "mut", "reunm"} => a[2] <= Len(t.bufs) /\ t.bufs[a[2]][1] # 0 /\ a[2] \notin t.free
  /\ a[1] = "bad" => TRUE
EnvDo(t0, a) ==
  LET t == [t0 EXCEPT !.a = a, !.o = <<>>, !.n = @ + 1] IN
  CASE a[1] = "new" ->
         \* the buffer given to the constructor is retained in either mode
         LET u == NewBuf([t EXCEPT !.made = TRUE, !.copy = (a[2] = "copy")], a[3]) IN See([u EXCEPT !.ref = 1])
    [] a[1] = "nil" -> See([t EXCEPT !.made = TRUE, !.copy = (a[2] = "copy")])
    [] a[1] \in {"set", "unm"} ->
         LET u == NewBuf(t, a[2])
             \* a retained buffer may be overwritten by the next set in copy mode
             w == IF t.copy /\ t.ref # 0 THEN [u EXCEPT !.free = @ \cup {t.ref}] ELSE u
         IN See(Take(w, Len(u.bufs)))
    [] a[1] \in {"reset2", "reunm"} ->     \* an earlier buffer is given again
         LET w == IF t.copy /\ t.ref # 0 /\ t.ref # a[2] THEN [t EXCEPT !.free = @ \cup {t.ref}] ELSE t IN
         IF t.copy /\ t.ref = a[2] THEN See([t EXCEPT !.clr = FALSE]) ELSE See(Take(w, a[2]))
    [] a[1] = "mut" -> See([t EXCEPT !.bufs[a[2]] = <<@[1], t.ver + 1>>, !.ver = @ + 1])
    [] a[1] = "clear" -> See([t EXCEPT !.clr = TRUE])
    [] a[1] = "reset" -> See([t EXCEPT !.own = FALSE, !.ref = 0, !.clr = FALSE])
    [] a[1] = "mar" ->
         LET d == Data(t) IN
         IF t.copy \/ d = Empty THEN See([t EXCEPT !.bufs = Append(@, d)])
         ELSE See(Obs(t, "alias", {"b" \o ToString(t.ref)}))      \* the given buffer itself
    [] a[1] = "msz" ->          \* marshal into a buffer of the given length class
         See(Obs(t, "msz", IF Data(t)[1] = a[2] THEN {Tok(Data(t))} ELSE {"refused"}))
    [] a[1] = "bad" -> See(Obs(t, "bad", {"refused"}))             \* any other wrong length

Init == s = Init0 /\ PrintT(ToJson(<<"init", Fp(s)>>))
Next == \E a \in EnvSet : EnvEn(s, a) /\ s' = EnvDo(s, a)
Spec == Init /\ [][Next]_s
View == Core(s)
Dump == PrintT(ToJson(<<Fp(s), Fp(s'), s'.a, s'.o, s'.n = MaxOps>>))

\* in copy mode only the constructor's buffer can be in use by the message
NoAlias == s.copy => s.ref \in {0, 1}
\* changing a buffer changes a copying message only if it is the constructor's
Inv == NoAlias
=============================================================================
