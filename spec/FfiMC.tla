------------------------------- MODULE FfiMC --------------------------------
(* All behaviours of a small library.                                        *)
EXTENDS Ffi
H0 == 0..NH
AnyAcct == 1..(NA + 1)
Vals == 0..Cap
Req(h) ==
  \/ \E g \in BOOLEAN : Request(h, LAMBDA r : DoValidate(r, g)) \/ Request(h, LAMBDA r : DoDeploy(r, g))
  \/ \E w \in {"malformed", "notctor", "well", "trap", "panic"} : (Live(h) => ~hs[h].st.acct[1].ex) /\ Request(h, LAMBDA r : DoSpawn(r, w))
  \/ \E w \in {"malformed", "nofunc", "well", "trap", "panic"} : Request(h, LAMBDA r : DoCall(r, w))
  \/ Request(h, LAMBDA r : DoVerify(r, "well"))
  \/ \E a \in 2..NA, b \in Vals : Request(h, LAMBDA r : DoGenesis(r, a, b, 0))
  \/ \E a \in AnyAcct, n \in Vals : Request(h, LAMBDA r : DoIncrease(r, a, n))
  \/ \E x, y \in AnyAcct, n \in Vals : Request(h, LAMBDA r : DoTransfer(r, x, y, n))
  \/ Request(h, DoCommit)
  \/ \E l \in 1..(MaxLayers + 1) : Request(h, LAMBDA r : DoRewind(r, l))
  \/ \E a \in AnyAcct : Request(h, LAMBDA r : DoAccount(r, a))
  \/ Request(h, DoUncommitted) \/ Request(h, DoLayerInfo)
Next == \/ SvmInit
        \/ \E h \in Handles, w \in {"mem", "file", "nottext", "nofile"} : Create(h, w)
        \/ \E h \in H0 : Destroy(h)
        \/ \E h \in H0 : Req(h)
Spec == Init0 /\ [][Next]_vars

\* an error changes nothing that can be read
ErrorsChangeNothing == [][res' = "err" => /\ \A h \in Handles : hs'[h].st = hs[h].st /\ hs'[h].layers = hs[h].layers /\ hs'[h].live = hs[h].live
                                          /\ disk' = disk]_vars
\* a call concerns one runtime
Isolated == [][Cardinality({h \in Handles : hs'[h] # hs[h]}) <= 1]_vars
\* coins appear only by genesis and increase; a failed execution leaves every balance alone
FailuresChangeNothing == [][res' = "failed" => \A h \in Handles : hs'[h].st = hs[h].st /\ hs'[h].layers = hs[h].layers]_vars
\* what was committed to the file is there when it is opened again
DiskIsCommitted == \A h \in Handles : hs[h].live /\ hs[h].file => hs[h].layers = disk
DurableUntilRewound == [][disk # <<>> => \/ disk' = disk
                                         \/ Len(disk') = Len(disk) + 1 /\ SubSeq(disk', 1, Len(disk)) = disk
                                         \/ Len(disk') < Len(disk) /\ SubSeq(disk, 1, Len(disk')) = disk']_vars
OneUser == Cardinality({h \in Handles : hs[h].live /\ hs[h].file}) <= 1
CountIsHandedOut == Count <= NH /\ (~inited => Count = 0)
CountSteps == [][Count' # Count => res' = "ok" /\ Count' - Count \in {-1, 1}]_vars
=============================================================================
