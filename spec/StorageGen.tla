----------------------------- MODULE StorageGen -----------------------------
(* Behaviours of Storage with a recorded history, for replay on the code.  *)
(* Each record holds the operation, its outcome and everything observable  *)
(* afterwards: the latest contents, the contents of every layer, whether   *)
(* there are dirty writes.                                                 *)
EXTENDS Storage, TLC, Json

CONSTANTS Depth,     \* length of a behaviour
          Ops        \* the operations to use
VARIABLES hist, done

Rec(op, a, b) ==
   /\ Len(hist) < Depth
   /\ hist' = Append(hist, [op |-> op, a |-> a, b |-> b,
        latest |-> Over(Over(layers'[Len(layers')], saved'), dirty'),
        layers |-> layers', dirty |-> (dirty' # NoWrites), res |-> res'])
   /\ UNCHANGED done

GInit == Init /\ hist = <<>> /\ done = FALSE

\* TLC makes an action of its own of each value of a constant bound, which would spoil the weights
\* of a simulation; this bound depends on the state
Dyn(S) == IF Len(hist) >= 0 THEN S ELSE {}
R(S) == RandomElement(Dyn(S))
GSetR       == "set" \in Ops /\ \E k \in {R(Keys)}, v \in {R(Vals)} : Set(k, v) /\ Rec("set", k, v)
GSet        == "set" \in Ops /\ \E k \in Keys, v \in Vals : Set(k, v) /\ Rec("set", k, v)
GCheckpoint == "checkpoint" \in Ops /\ Checkpoint /\ Rec("checkpoint", 0, 0)
GRollback   == "rollback" \in Ops /\ Rollback /\ Rec("rollback", 0, 0)
GCommit     == "commit" \in Ops /\ Commit /\ Rec("commit", 0, 0)
GRewind     == "rewind" \in Ops /\ \E l \in 1..Len(layers) : Rewind(l) /\ Rec("rewind", l, 0)
GReopen     == "reopen" \in Ops /\ Reopen /\ Rec("reopen", 0, 0)
\* a crash: the record holds both possible results, the behaviour goes on with one
NoCrashYet == \A i \in 1..Len(hist) : hist[i].op \notin {"crashcommit", "crashrewind", "crashseal"}
RecCrash(op, a, after) ==
   /\ Len(hist) < Depth /\ Len(hist) >= Depth \div 3 /\ NoCrashYet
   /\ hist' = Append(hist, [op |-> op, a |-> a, b |-> 0, latest |-> layers'[Len(layers')],
        layers |-> layers', dirty |-> FALSE, res |-> res', before |-> layers, after |-> after])
   /\ UNCHANGED done
GCrashCommit == /\ "crash" \in Ops /\ Len(layers) < MaxLayers /\ saved # NoWrites
                /\ CrashCommit
                /\ RecCrash("crashcommit", 0, Append(layers, Over(Committed, saved)))
GCrashRewind == "crash" \in Ops /\ \E l \in 1..(Len(layers) - 1) :
                   CrashRewind(l) /\ RecCrash("crashrewind", l, SubSeq(layers, 1, l))
\* a crash in a commit right after a checkpoint of everything pending
GCrashSeal == /\ "crash" \in Ops /\ Len(layers) < MaxLayers
              /\ saved' = NoWrites /\ dirty' = NoWrites
              /\ LET new == Append(layers, Over(Over(Committed, saved), dirty)) IN
                 /\ \/ layers' = layers /\ res' = "before"
                    \/ layers' = new /\ res' = "after"
                 /\ RecCrash("crashseal", 0, new)
GCrash == GCrashCommit \/ GCrashRewind \/ GCrashSeal
\* checkpoint and commit in one go, so that long histories have many layers
GSeal == /\ "seal" \in Ops /\ Len(layers) < MaxLayers
         /\ saved' = NoWrites /\ dirty' = NoWrites /\ res' = "ok"
         /\ layers' = Append(layers, Over(Over(Committed, saved), dirty))
         /\ Rec("seal", 0, 0)

GNext == \/ GSet \/ GCheckpoint \/ GRollback \/ GCommit \/ GRewind \/ GReopen \/ GCrash \/ GSeal

\* more writes and layers, fewer rewinds: for simulation
GNextW == \/ GSetR \/ GSetR \/ GSetR \/ GSetR \/ GSetR \/ GSetR \/ GCheckpoint \/ GCheckpoint \/ GRollback
          \/ GCommit \/ GCommit \/ GSeal \/ GSeal \/ GRewind \/ GReopen
          \/ (Len(hist) = Depth /\ ~done /\ done' = TRUE /\ UNCHANGED <<hist, layers, saved, dirty, res>>)

\* for crash behaviours: the crash is likely to happen
GNextC == GNextW \/ GCrashCommit \/ GCrashCommit \/ GCrashCommit \/ GCrashRewind \/ GCrashRewind \/ GCrashSeal \/ GCrashSeal

Emit == done => PrintT("TRACE" \o ToJson(hist))

\* exhaustive exploration: print every transition, with a shortest way to its source
View == <<layers, saved, dirty>>
EmitStep == PrintT("TRACE" \o ToJson(hist'))
=============================================================================
