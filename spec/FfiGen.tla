------------------------------- MODULE FfiGen -------------------------------
EXTENDS Ffi, TLC, Json
CONSTANTS Depth
VARIABLES hist, done
Dyn(S) == IF Len(hist) >= 0 THEN S ELSE {}
R(S) == RandomElement(Dyn(S))
L(s) == s[R(1..Len(s))]
Rec(op, h, args) == /\ Len(hist) < Depth /\ UNCHANGED done
                    /\ hist' = Append(hist, [op |-> op, h |-> h, args |-> args, res |-> res', count |-> Cardinality({x \in Handles : hs'[x].live}),
                                             hs |-> [x \in Handles |-> [live |-> hs'[x].live, st |-> hs'[x].st, dirty |-> hs'[x].dirty, layer |-> Len(hs'[x].layers)]]])
LiveH == {h \in Handles : hs[h].live}
DeadH == Handles \ LiveH
SomeH == IF LiveH = {} \/ R(1..20) = 1 THEN R({0} \cup DeadH) ELSE R(LiveH)
Known(h) == IF Live(h) THEN {a \in Accts : hs[h].st.acct[a].ex} ELSE {}
SomeA(h) == IF Known(h) # {} /\ R(1..5) # 1 THEN R(Known(h)) ELSE R(1..(NA + 1))
Amount == IF R(1..3) = 1 THEN R(0..Cap) ELSE R(0..4)
Hows == <<"well", "well", "well", "well", "trap", "panic", "malformed">>

GInit == Init0 /\ hist = <<>> /\ done = FALSE
GSvm == SvmInit /\ Rec("init", 0, [x |-> 0])
GEarly == \E h \in {R(Handles)} : Create(h, "mem") /\ Rec("create", h, [where |-> "mem"])
GCreate == \E h \in {IF DeadH = {} THEN 0 ELSE R(DeadH)}, w \in {L(<<"mem", "mem", "mem", "file", "file", "file", "nottext", "nofile">>)} : h # 0 /\ Create(h, w) /\ Rec("create", h, [where |-> w])
GDestroy == \E h \in {SomeH}, x \in {R(1..5)} : (x = 1 \/ ~Live(h)) /\ Destroy(h) /\ Rec("destroy", h, [x |-> 0])
GValidate == \E h \in {SomeH}, k \in {L(<<"deploy", "spawn", "call">>)}, g \in {R(BOOLEAN)}, v \in {R(0..999)} : Request(h, LAMBDA r : DoValidate(r, g)) /\ Rec("validate", h, [kind |-> k, good |-> g, n |-> v])
GDeploy == \E h \in {SomeH}, g \in {R(1..4) # 1}, v \in {R(0..999)} : Request(h, LAMBDA r : DoDeploy(r, g)) /\ Rec("deploy", h, [good |-> g, n |-> v])
GSpawn == \E h \in {SomeH}, w \in {L(<<"notctor">> \o Hows)}, v \in {R(0..999)} : (Live(h) => ~hs[h].st.acct[1].ex) /\ Request(h, LAMBDA r : DoSpawn(r, w)) /\ Rec("spawn", h, [how |-> w, n |-> v])
GCall == \E h \in {SomeH}, w \in {L(<<"nofunc">> \o Hows)}, v \in {R(0..999)} : Request(h, LAMBDA r : DoCall(r, w)) /\ Rec("call", h, [how |-> w, n |-> v])
GVerify == \E h \in {SomeH}, w \in {L(<<"well", "malformed">>)}, v \in {R(0..999)} : Request(h, LAMBDA r : DoVerify(r, w)) /\ Rec("verify", h, [how |-> w, n |-> v])
GGenesis == \E h \in {SomeH}, a \in {R(2..NA)}, b \in {R(0..Cap)}, c \in {R(0..3)} : Request(h, LAMBDA r : DoGenesis(r, a, b, c)) /\ Rec("genesis", h, [a |-> a, bal |-> b, ctr |-> c])
GIncrease == \E h \in {SomeH} : \E a \in {SomeA(h)}, n \in {Amount} : Request(h, LAMBDA r : DoIncrease(r, a, n)) /\ Rec("increase", h, [a |-> a, n |-> n])
GTransfer == \E h \in {SomeH} : \E a \in {SomeA(h)}, b \in {SomeA(h)}, n \in {Amount} : Request(h, LAMBDA r : DoTransfer(r, a, b, n)) /\ Rec("transfer", h, [a |-> a, b |-> b, n |-> n])
GCommit == \E h \in {SomeH} : Request(h, DoCommit) /\ Rec("commit", h, [x |-> 0])
\* l: a layer, or one that is not there; 0 a number no layer can have
GRewind == \E h \in {SomeH} : \E l \in {IF Live(h) /\ R(1..4) # 1 /\ Len(hs[h].layers) > 1 THEN R(2..Len(hs[h].layers)) ELSE R({0} \cup (2..(MaxLayers + 2)))} :
              (Live(h) => l # 1) /\ Request(h, LAMBDA r : DoRewind(r, l)) /\ Rec("rewind", h, [l |-> l])
GAccount == \E h \in {SomeH} : \E a \in {SomeA(h)}, z \in {R(1..4) = 1} : Request(h, LAMBDA r : IF z THEN Ans(r, "err") ELSE DoAccount(r, a)) /\ Rec("account", h, [a |-> a, null |-> z])
GUncommitted == \E h \in {SomeH} : Request(h, DoUncommitted) /\ Rec("uncommitted", h, [x |-> 0])
GLayerInfo == \E h \in {SomeH} : Request(h, DoLayerInfo) /\ Rec("layerinfo", h, [x |-> 0])
Finish == Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<hist, vars>>
\* a behaviour starts with two runtimes in use
Prologue(i, h) ==
  \/ i = 0 /\ \E w \in {L(<<"mem", "file">>)} : Create(h, w) /\ Rec("create", h, [where |-> w])
  \/ i = 1 /\ Request(h, LAMBDA r : DoDeploy(r, TRUE)) /\ Rec("deploy", h, [good |-> TRUE, n |-> 1])
  \/ i \in {2, 3} /\ \E b \in {R(0..Cap)}, c \in {R(0..3)} : Request(h, LAMBDA r : DoGenesis(r, i, b, c)) /\ Rec("genesis", h, [a |-> i, bal |-> b, ctr |-> c])
  \/ i = 4 /\ Request(h, LAMBDA r : DoSpawn(r, "well")) /\ Rec("spawn", h, [how |-> "well", n |-> 1])
Started(A) == Len(hist) > 11 /\ A
GNext == \/ Len(hist) = 0 /\ GEarly
         \/ Len(hist) = 1 /\ GSvm
         \/ Len(hist) \in 2..6 /\ Prologue(Len(hist) - 2, 1)
         \/ Len(hist) \in 7..11 /\ (Prologue(Len(hist) - 7, 2) \/ (Len(hist) = 7 /\ GCommit))
         \/ Started(GCreate) \/ Started(GDestroy) \/ Started(GValidate) \/ Started(GDeploy) \/ Started(GSpawn) \/ Started(GSpawn) \/ Started(GCall) \/ Started(GCall)
         \/ Started(GCall) \/ Started(GVerify) \/ Started(GGenesis) \/ Started(GIncrease) \/ Started(GTransfer) \/ Started(GTransfer) \/ Started(GCommit) \/ Started(GCommit)
         \/ Started(GRewind) \/ Started(GRewind) \/ Started(GAccount) \/ Started(GUncommitted) \/ Started(GLayerInfo) \/ Finish
Emit == done => PrintT("TRACE" \o ToJson([steps |-> hist]))
=============================================================================
