-------------------------------- MODULE Ffi ---------------------------------
(* The C interface: a library that hands out runtimes.  A call answers "ok", *)
(* a receipt ("done" or "failed"), or an error ("err"), whatever it is given;*)
(* an error changes nothing that can be read, in any runtime.                *)
(*                                                                           *)
(* Handle h in 1..NH is the h-th place where the caller keeps a runtime;     *)
(* handle 0 stands for a pointer that never was one (or no longer is).       *)
(* Account 1 is spawned from the template, 2..NA are genesis accounts and    *)
(* account NA + 1 never exists.                                              *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS NH, NA, MaxLayers, Cap
Handles == 1..NH
Accts == 1..NA

VARIABLES inited,      \* svm_init was called
          hs,          \* what is behind each handle
          disk,        \* the layers in the database file; none before it is made
          res          \* the answer to the last call
vars == <<inited, hs, disk, res>>

NoAcct == [ex |-> FALSE, bal |-> 0, ctr |-> 0]
Blank == [tmpl |-> FALSE, acct |-> [a \in Accts |-> NoAcct], v |-> 0]
Gone == [live |-> FALSE, file |-> FALSE, st |-> Blank, dirty |-> FALSE, layers |-> <<Blank>>]
Fresh(file, layers) == [live |-> TRUE, file |-> file, st |-> layers[Len(layers)], dirty |-> FALSE, layers |-> layers]

Live(h) == h # 0 /\ hs[h].live
Count == Cardinality({h \in Handles : hs[h].live})
FileOpen == \E h \in Handles : hs[h].live /\ hs[h].file

Keep == UNCHANGED <<inited, disk>>
Same == UNCHANGED hs
Put(h, r) == hs' = [hs EXCEPT ![h] = r]

-----------------------------------------------------------------------------
Init0 == inited = FALSE /\ hs = [h \in Handles |-> Gone] /\ disk = <<>> /\ res = "ok"

SvmInit == inited' = TRUE /\ res' = "ok" /\ UNCHANGED <<hs, disk>>

\* where: in memory, the file, a path that is not text, or one that cannot be opened
Create(h, where) ==
  /\ ~hs[h].live /\ (where = "file" => ~FileOpen)
  /\ UNCHANGED inited
  /\ IF ~inited \/ where \in {"nottext", "nofile"}
     THEN res' = "err" /\ UNCHANGED <<hs, disk>>
     ELSE /\ res' = "ok"
          /\ IF where = "file"
             THEN LET d == IF disk = <<>> THEN <<Blank>> ELSE disk IN disk' = d /\ Put(h, Fresh(TRUE, d))
             ELSE Put(h, Fresh(FALSE, <<Blank>>)) /\ UNCHANGED disk

\* what was not committed is gone
Destroy(h) ==
  /\ UNCHANGED <<inited, disk>>
  /\ IF Live(h) THEN Put(h, Gone) /\ res' = "ok" ELSE Same /\ res' = "err"

-----------------------------------------------------------------------------
(* Requests to a runtime.  r is the runtime, the answer is a pair.           *)
Ans(r, x) == [r |-> r, x |-> x]
Write(r, s) == [r EXCEPT !.st = s, !.dirty = TRUE]
Layer(r, s) == [r EXCEPT !.st = s, !.dirty = FALSE, !.layers = Append(@, s)]
Checkpointed(r) == [r EXCEPT !.dirty = FALSE]

DoValidate(r, good) == Ans(r, IF good THEN "ok" ELSE "err")
DoDeploy(r, good) == IF good THEN Ans(Write(r, [r.st EXCEPT !.tmpl = TRUE]), "done") ELSE Ans(r, "err")
\* how the constructor or function ends: well, in a trap, or in a panic of the host
DoSpawn(r, how) ==
  IF how = "malformed" THEN Ans(Checkpointed(r), "err")
  ELSE IF ~r.st.tmpl \/ how = "notctor" THEN Ans(Checkpointed(r), "failed")
  ELSE IF how = "well" THEN Ans(Layer(r, [r.st EXCEPT !.acct[1] = [NoAcct EXCEPT !.ex = TRUE], !.v = 1]), "done")
  ELSE IF how = "trap" THEN Ans(Checkpointed(r), "failed")
  ELSE Ans(Checkpointed(r), "err")
DoCall(r, how) ==
  IF how = "malformed" THEN Ans(Checkpointed(r), "err")
  ELSE IF ~r.st.acct[1].ex \/ how = "nofunc" THEN Ans(Checkpointed(r), "failed")
  ELSE IF how = "well" THEN Ans(Layer(r, [r.st EXCEPT !.v = @ + 1]), "done")
  ELSE IF how = "trap" THEN Ans(Checkpointed(r), "failed")
  ELSE Ans(Checkpointed(r), "err")
DoVerify(r, how) ==
  Ans(Checkpointed(r), IF how = "malformed" THEN "err" ELSE "any")
DoGenesis(r, a, bal, ctr) == Ans(Write(r, [r.st EXCEPT !.acct[a] = [ex |-> TRUE, bal |-> bal, ctr |-> ctr]]), "ok")
Ex(r, a) == a \in Accts /\ r.st.acct[a].ex
DoIncrease(r, a, n) ==
  IF Ex(r, a) /\ r.st.acct[a].bal + n <= Cap THEN Ans(Write(r, [r.st EXCEPT !.acct[a].bal = @ + n]), "ok") ELSE Ans(r, "err")
DoTransfer(r, x, y, n) ==
  IF ~(Ex(r, x) /\ Ex(r, y) /\ r.st.acct[x].bal >= n /\ (x # y => r.st.acct[y].bal + n <= Cap)) THEN Ans(r, "err")
  ELSE IF x = y THEN Ans(r, "ok")
  ELSE Ans(Write(r, [r.st EXCEPT !.acct[x].bal = @ - n, !.acct[y].bal = @ + n]), "ok")
DoCommit(r) == Ans(Layer(r, r.st), "ok")
\* layer 1 is the genesis, which has no number
DoRewind(r, l) ==
  IF l \notin 2..Len(r.layers) \/ r.dirty THEN Ans(r, "err")
  ELSE Ans([r EXCEPT !.st = r.layers[l], !.layers = SubSeq(@, 1, l)], "ok")
DoAccount(r, a) == Ans(r, IF Ex(r, a) THEN "ok" ELSE "err")
DoUncommitted(r) == Ans(r, IF r.dirty THEN "err" ELSE "ok")
\* the layer of a runtime that has committed none is left open
DoLayerInfo(r) == Ans(r, IF Len(r.layers) > 1 THEN "ok" ELSE "any")

Request(h, Do(_)) ==
  /\ UNCHANGED inited
  /\ IF Live(h)
     THEN LET y == Do(hs[h]) IN
            /\ Len(y.r.layers) <= MaxLayers
            /\ Put(h, y.r) /\ res' = y.x
            /\ disk' = IF y.r.file THEN y.r.layers ELSE disk
     ELSE Same /\ res' = "err" /\ UNCHANGED disk
=============================================================================
