---------------------------- MODULE StorageNoRes ----------------------------
(* The steps of Storage without its outcome variable: the target of the    *)
(* refinement check of StorageDisk.                                        *)
EXTENDS Integers, Sequences
CONSTANTS Keys, Vals, MaxLayers
VARIABLES layers, saved, dirty
S == INSTANCE Storage WITH res <- "ok"
Quiet == dirty = S!NoWrites
NextOrStutter ==
   \/ \E k \in Keys, v \in Vals :
        dirty' = [dirty EXCEPT ![k] = v] /\ UNCHANGED <<layers, saved>>
   \/ saved' = S!Over(saved, dirty) /\ dirty' = S!NoWrites /\ UNCHANGED layers
   \/ dirty' = S!NoWrites /\ UNCHANGED <<layers, saved>>
   \/ /\ Quiet /\ Len(layers) < MaxLayers
      /\ layers' = Append(layers, S!Over(S!Committed, saved))
      /\ saved' = S!NoWrites /\ UNCHANGED dirty
   \/ /\ Quiet
      /\ \E l \in 1..Len(layers) : layers' = SubSeq(layers, 1, l)
      /\ saved' = S!NoWrites /\ UNCHANGED dirty
   \/ saved' = S!NoWrites /\ dirty' = S!NoWrites /\ UNCHANGED layers
=============================================================================
