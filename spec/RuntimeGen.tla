----------------------------- MODULE RuntimeGen -----------------------------
(* Random behaviours of Runtime.tla with random programs, for replay.        *)
EXTENDS Runtime, TLC, Json
CONSTANTS Depth, Inits
VARIABLES hist, done
NF == 6

\* ---- random programs (an argument keeps TLC from evaluating these only once)
Pick(x, s) == s[RandomElement(1..Len(s)) + 0 * x]
Wide(x) == Pick(x, <<1, 4>>)
AnyVar(x) == Pick(x, <<1, 2, 4, 5>>)
Same(x, i) == IF Kind[i] = 4 THEN Pick(x, <<2, 5>>) ELSE Pick(x, <<1, 4>>)
Op(o, a, b, c) == [o |-> o, a |-> a, b |-> b, c |-> c]
Mild(x, f) ==
  LET k == RandomElement(1..30) i == AnyVar(x) IN
  CASE k \in 1..4   -> Op("set", i, RandomElement(0..4), 0)
    [] k \in 5..6   -> Op("copy", i, Same(x, i), 0)
    [] k \in 7..9   -> Op("inc", i, 0, 0)
    [] k \in 10..11 -> Op("log", RandomElement(0..5), 0, 0)
    [] k \in 12..14 -> Op("logvar", RandomElement(NVars), 0, 0)
    [] k \in 15..16 -> Op("put", Pick(x, <<3, 6>>), RandomElement(0..4), 0)
    [] k \in 17..21 -> Op("xfer", RandomElement(1..3), RandomElement(1..3), Pick(x, <<0, 1, 1, 1, 1, 1, 2, 2, 3, 7, 9, 14>>))
    [] k = 22       -> Op("ret", RandomElement(1..5), 0, 0)
    [] k = 23       -> Op("echo", 0, 0, 0)
    [] k = 24       -> Op("logcd", 0, 0, 0)
    [] k = 25       -> Op("trapif", i, RandomElement(0..4), 0)
    [] k = 26       -> Op("retif", i, RandomElement(0..4), 0)
    [] k = 27       -> Op("alloc", RandomElement(1..12), RandomElement(1..12), RandomElement(1..5))
    [] OTHER        -> IF f < NF THEN Op("call", RandomElement((f + 1)..NF), 0, 0) ELSE Op("inc", i, 0, 0)
Harsh(x) == Pick(x, <<Op("trap", 0, 0, 0), Op("memoob", 0, 0, 0), Op("badvar", 0, 0, 0), Op("setbad", 1, 0, 0), Op("allocbig", 0, 0, 0), Op("trap", 0, 0, 0)>>)
RECURSIVE RandBody(_, _, _)
RandBody(f, n, harsh) ==
  IF n = 0 THEN <<>> ELSE <<IF RandomElement(1..100) <= harsh THEN Harsh(n) ELSE Mild(n, f)>> \o RandBody(f, n - 1, harsh)
Fn(e, s, c, b) == [exp |-> e, sig |-> s, ctor |-> c, body |-> b]
RandFn(x, f) ==
  CASE f = 1 -> Fn(TRUE, "ok", TRUE, RandBody(f, RandomElement(0..3), 0))
    [] f = 2 -> Fn(TRUE, "ok", TRUE, RandBody(f, RandomElement(1..6), 15))
    [] f = 3 -> Fn(TRUE, "ok", FALSE, RandBody(f, RandomElement(1..5), 0))
    [] f = 4 -> Fn(TRUE, "ok", FALSE, RandBody(f, RandomElement(1..7), 10))
    [] f = 5 -> LET k == Pick(x, <<1, 2, 3, 4, 5, 5, 5>>) IN
                Fn(k \notin {1, 2}, IF k \in {3, 4} THEN "bad" ELSE "ok", k \in {1, 3}, RandBody(f, RandomElement(1..4), 5))
    [] OTHER -> Fn(TRUE, "ok", FALSE, RandBody(f, RandomElement(1..3), 5))
Sly == <<"read", "write", "move", "read32", "write32", "load", "store">>
RandTmpl(x) == [alloc |-> IF RandomElement(1..10) <= 7 THEN "good" ELSE Pick(x, <<"fixed", "fixed", "trap", "far">> \o Sly),
                vfy |-> IF RandomElement(1..2) = 1 THEN "valid" ELSE Pick(x, <<"trap">> \o Sly),
                fns |-> [f \in 1..NF |-> RandFn(x, f)]]
RandProg(x) == [t \in Tmpls |-> RandTmpl(x + t)]

\* ---- random steps
Dyn(S) == IF Len(hist) >= 0 THEN S ELSE {}
R(S) == RandomElement(Dyn(S))
Clean == ~dirty' /\ st' = layers'[Len(layers')]
Rec(op, args) == /\ Len(hist) < Depth
                 /\ \E at \in {R(2..Len(layers'))} :
                    hist' = Append(hist, [op |-> op, args |-> args, res |-> res', st |-> st', layer |-> Len(layers'), dirty |-> dirty',
                                          clean |-> Clean, at |-> at, past |-> layers'[at]])
                 /\ UNCHANGED done
GInit == Init0 /\ done = FALSE /\ hist = <<>> /\ \E x \in 1..Inits : prog = RandProg(x)

Lims == <<"none", "none", "none", "above", "above", "equal", "below", "tiny">>
SLims == <<"none", "none", "none", "none", "above", "above", "equal", "below", "tiny", "payload">>
L(s) == s[R(1..Len(s))]
Live == {a \in Accts : Exists(st, a)}
SomeAcct == IF Live # {} /\ R(1..20) # 1 THEN R(Live) ELSE R(Accts)
Slot == IF Live # {} /\ R(1..25) # 1 THEN R(Live) ELSE R(1..(NA + 1))
SomeCd == IF R(1..5) = 1 THEN NoCd ELSE [n |-> R(1..5), slots |-> <<Slot, Slot, Slot>>]
DoDeploy(t) == \E h \in {R(1..3)}, l \in {L(Lims)} : Deploy(t, h, l) /\ Rec("deploy", [t |-> t, hdr |-> h, lim |-> l, perbyte |-> PerByte])
DoSpawn(t, f) == \E cd \in {SomeCd}, l \in {L(SLims)}, n \in {R(1..4)}, w \in {R(Exts)} :
      Spawn(t, f, cd, l, n, w) /\ Rec("spawn", [t |-> t, f |-> f, cd |-> cd, lim |-> l, name |-> n, who |-> w, perbyte |-> PerByte,
                                               price |-> IF prog[t].fns[f].exp THEN FnPrice(prog[t], f) ELSE 0,
                                               again |-> st.acct[t].tmpl # 0, was |-> st.acct[t]])
GDeploy == \E t \in {R(Tmpls)} : DoDeploy(t)
GSpawn == \E t \in {R(Tmpls)}, f \in {L(<<1, 1, 1, 2, 2, 2, 5, 3>>)} : DoSpawn(t, f)
DoCall(a, f) == \E cd \in {SomeCd}, w \in {R(Exts)} : Call(a, f, cd) /\ Rec("call", [a |-> a, f |-> f, cd |-> cd, who |-> w])
GCall == \E a \in {SomeAcct}, f \in {L(<<1, 3, 3, 3, 3, 4, 4, 4, 4, 4, 5, 5, 6, 6, 0>>)} : DoCall(a, f)
GSpecial == \E a \in {SomeAcct}, t \in {R(Tmpls)}, n \in {L(<<"svm_alloc", "svm_verify", "memory", "", "nope">>)}, w \in {R(1..2)} :
      \/ w = 1 /\ (n = "svm_verify" /\ Exists(st, a) => prog[st.acct[a].tmpl].vfy = "valid") /\ CallSpecial(a, n) /\ Rec("callname", [a |-> a, name |-> n])
      \/ w = 2 /\ SpawnSpecial(t, n) /\ Rec("spawnname", [t |-> t, name |-> n])
GVerify == \E a \in {R(Accts)}, cd \in {SomeCd} : Exists(st, a) /\ Verify(a, cd) /\ Rec("verify", [a |-> a, cd |-> cd])
GCreate == \E a \in {R(Exts)}, t \in {R(Tmpls)}, b \in {R(0..Cap)}, c \in {R(0..3)}, n \in {R(1..4)} : Create(a, t, b, c, n) /\ Rec("create", [a |-> a, tmpl |-> t, bal |-> b, ctr |-> c, name |-> n])
GIncrease == \E a \in {SomeAcct}, n \in {IF R(1..5) = 1 THEN R(0..Cap) ELSE R(0..5)} : Increase(a, n) /\ Rec("increase", [a |-> a, n |-> n])
GTransfer == \E a \in {SomeAcct}, b \in {SomeAcct}, n \in {IF R(1..3) = 1 THEN R(0..Cap) ELSE R(0..5)} : HostTransfer(a, b, n) /\ Rec("transfer", [a |-> a, b |-> b, n |-> n])
GCommit == Commit /\ Rec("commit", [x |-> 0])
GRewind == \E l \in {IF R(1..20) = 1 \/ Len(layers) < 4 THEN R(2..Len(layers)) ELSE IF R(1..4) = 1 THEN R(3..Len(layers)) ELSE R((Len(layers) - 1)..Len(layers))} : Rewind(l) /\ Rec("rewind", [l |-> l])
Finish == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<hist, vars>>

NE == NA - NT
Prologue ==
   \/ /\ Len(hist) < NT
      /\ \E h \in {R(1..3)} : LET t == Len(hist) + 1 IN
           Deploy(t, h, "none") /\ Rec("deploy", [t |-> t, hdr |-> h, lim |-> "none", perbyte |-> PerByte])
   \/ /\ Len(hist) >= NT /\ Len(hist) < NT + NE
      /\ \E t \in {R(Tmpls)}, b \in {R(0..Cap)}, c \in {R(0..3)}, n \in {R(1..4)} : LET a == Len(hist) + 1 IN
           Create(a, t, b, c, n) /\ Rec("create", [a |-> a, tmpl |-> t, bal |-> b, ctr |-> c, name |-> n])
   \/ /\ Len(hist) = NT + NE /\ DoSpawn(1, 1)
   \/ /\ Len(hist) = NT + NE + 1 /\ Commit /\ Rec("commit", [x |-> 0])
Started(A) == Len(hist) > NT + NE + 1 /\ A
GNextW == \/ Prologue
          \/ Started(GDeploy) \/ Started(GSpawn) \/ Started(GSpawn) \/ Started(GSpawn) \/ Started(GCall) \/ Started(GCall) \/ Started(GCall) \/ Started(GCall)
          \/ Started(GCall) \/ Started(GCall) \/ Started(GSpecial) \/ Started(GVerify) \/ Started(GCreate) \/ Started(GIncrease)
          \/ Started(GTransfer) \/ Started(GCommit) \/ Started(GRewind) \/ Finish
Emit == done => PrintT("TRACE" \o ToJson([prog |-> prog, steps |-> hist]))
=============================================================================
