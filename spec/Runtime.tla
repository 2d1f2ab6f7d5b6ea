------------------------------ MODULE Runtime -------------------------------
(* The SVM runtime: templates, accounts, transactions, receipts, gas and     *)
(* layers.  Template code is given as scripts of host-level operations that  *)
(* this module interprets; the harness compiles the same scripts to Wasm.    *)
(*                                                                           *)
(* Accounts 1..NT are those spawned from templates 1..NT; NT+1..NA are made  *)
(* by create_account.  Account NA+1 never exists.  Balances are in units, at *)
(* most Cap of which fit in a balance.                                       *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS NT, NA, MaxLayers, Cap
Tmpls == 1..NT
Accts == 1..NA
Exts == (NT + 1)..NA

\* the variables of every account: widths in bytes
Kind == <<8, 4, 20, 8, 4, 20>>
NVars == 1..Len(Kind)
Zero == [i \in NVars |-> 0]

VARIABLES prog,           \* the code of each template
          st,             \* what is read now: templates, accounts
          saved,          \* the same at the last checkpoint
          dirty,          \* whether there are writes since the last checkpoint
          layers,         \* the same at each committed layer
          res             \* the outcome of the last operation
vars == <<prog, st, saved, dirty, layers, res>>

NoAcct == [tmpl |-> 0, name |-> 0, bal |-> 0, ctr |-> 0]
Blank == [tmpl |-> [t \in Tmpls |-> 0],        \* 0: not deployed, else which header it was deployed with
          acct |-> [a \in Accts |-> NoAcct],
          var |-> [a \in Accts |-> Zero]]

-----------------------------------------------------------------------------
(* Prices *)
PerByte == 1000
Import == [alloc |-> 100, cdoff |-> 10, cdlen |-> 10, setret |-> 20, get32 |-> 100, set32 |-> 1000000,
           get64 |-> 200, set64 |-> 2000000, load160 |-> 500, store160 |-> 5000000, log |-> 3000, transfer |-> 1000]
Get(i) == IF Kind[i] = 4 THEN Import.get32 ELSE Import.get64
Set(i) == IF Kind[i] = 4 THEN Import.set32 ELSE Import.set64
\* every instruction costs 1, a call what its target costs, control instructions nothing
OpPrice(o) ==
  CASE o.o = "set"    -> 2 + Set(o.a)
    [] o.o = "copy"   -> 2 + Get(o.b) + Set(o.a)
    [] o.o = "inc"    -> 4 + Get(o.a) + Set(o.a)
    [] o.o = "log"    -> 2 + Import.log
    [] o.o = "logvar" -> IF Kind[o.a] = 20 THEN 4 + Import.load160 + Import.log ELSE 5 + Get(o.a) + Import.log
    [] o.o = "put"    -> 2 + Import.store160
    [] o.o = "xfer"   -> 5 + 2 * Import.cdoff + Import.transfer
    [] o.o = "ret"    -> 2 + Import.setret
    [] o.o = "echo"   -> Import.cdoff + Import.cdlen + Import.setret
    [] o.o = "logcd"  -> Import.cdoff + Import.cdlen + Import.log
    [] o.o \in {"trapif", "retif"} -> 3 + Get(o.a)
    [] o.o = "alloc"  -> 2 * (3 + Import.alloc) + 6 * (o.a + o.b) + 2 * (3 + Import.log)
    [] o.o = "badvar" -> 2 + Import.get64
    [] o.o = "setbad" -> 2 + Import.set32
    [] o.o = "memoob" -> 3
    [] o.o = "allocbig" -> 2 + Import.alloc
    [] o.o = "trap"   -> 0
    [] OTHER -> 0
RECURSIVE Price(_, _, _)
\* the price of the body of a function from its i-th operation on: nothing follows a trap
Price(p, b, i) ==
  IF i > Len(b) THEN 0
  ELSE IF b[i].o = "trap" THEN 0
  ELSE (IF b[i].o = "call" THEN Price(p, p.fns[b[i].a].body, 1) ELSE OpPrice(b[i])) + Price(p, b, i + 1)
FnPrice(p, f) == Price(p, p.fns[f].body, 1)

-----------------------------------------------------------------------------
(* Execution of a script.  The machine m: the state s, the executing account *)
(* me, the calldata cd, and what becomes of it: out, logs, ret, touched.     *)
(* Calldata: cd.n = 0 is none; else three addresses and a payload cd.n.      *)
NoCd == [n |-> 0, slots |-> <<1, 1, 1>>]
Fail(m, how) == [m EXCEPT !.out = how]
Log(m, w, v, n) == [m EXCEPT !.logs = Append(@, [w |-> w, v |-> v, n |-> n])]
Put(m, i, v) == [m EXCEPT !.s.var[m.me][i] = v]
Var(m, i) == m.s.var[m.me][i]
Exists(s, a) == a \in Accts /\ s.acct[a].tmpl # 0

CanMove(s, x, y, n) == /\ Exists(s, x) /\ Exists(s, y)
                       /\ s.acct[x].bal >= n
                       /\ (x # y => s.acct[y].bal + n <= Cap)
Move(s, x, y, n) == IF x = y THEN s ELSE [s EXCEPT !.acct[x].bal = @ - n, !.acct[y].bal = @ + n]

Transfer(m, x, y, n) ==
  IF n = 0 THEN m
  ELSE IF ~CanMove(m.s, x, y, n) THEN Fail(m, "panic")
  ELSE [m EXCEPT !.s = Move(@, x, y, n), !.touched = @ \cup {x, y}]
Return(m, w, v) == IF m.ret.w # 0 THEN Fail(m, "panic") ELSE [m EXCEPT !.ret = [w |-> w, v |-> v]]

Step(o, m) ==
  CASE o.o = "set"    -> Put(m, o.a, o.b)
    [] o.o = "copy"   -> Put(m, o.a, Var(m, o.b))
    [] o.o = "inc"    -> Put(m, o.a, Var(m, o.a) + 1)
    [] o.o = "log"    -> Log(m, 1, o.a, 0)
    [] o.o = "logvar" -> Log(m, Kind[o.a], Var(m, o.a), 0)
    [] o.o = "put"    -> Put(m, o.a, o.b)
    [] o.o = "xfer"   -> IF m.cd.n = 0 THEN Fail(m, "panic") ELSE Transfer(m, m.cd.slots[o.a], m.cd.slots[o.b], o.c)
    [] o.o = "ret"    -> Return(m, 1, o.a)
    [] o.o = "echo"   -> IF m.cd.n = 0 THEN Fail(m, "panic") ELSE Return(m, 2, 0)
    [] o.o = "logcd"  -> IF m.cd.n = 0 THEN Fail(m, "panic") ELSE Log(m, 2, 0, 0)
    [] o.o = "trapif" -> IF Var(m, o.a) = o.b THEN Fail(m, "trap") ELSE m
    [] o.o = "alloc"  -> Log(Log(m, 3, o.c, o.a), 3, o.c + 1, o.b)
    [] o.o \in {"badvar", "setbad", "allocbig"} -> Fail(m, "panic")
    [] o.o \in {"memoob", "trap"} -> Fail(m, "trap")

RECURSIVE Exec(_, _, _, _)
Exec(p, b, i, m) ==
  IF m.out # "ok" \/ i > Len(b) THEN m
  ELSE IF b[i].o = "retif" THEN (IF Var(m, b[i].a) = b[i].b THEN m ELSE Exec(p, b, i + 1, m))
  ELSE IF b[i].o = "call" THEN Exec(p, b, i + 1, Exec(p, p.fns[b[i].a].body, 1, m))
  ELSE Exec(p, b, i + 1, Step(b[i], m))

-----------------------------------------------------------------------------
(* Receipts *)
R0 == [ok |-> FALSE, err |-> "none", func |-> "", logs |-> <<>>, ret |-> [w |-> 0, v |-> 0], touched |-> {}, oog |-> FALSE]
Err(e) == [R0 EXCEPT !.err = e]

\* ways in which allocation or verification code may try to reach storage
Sneaky == {"read", "write", "move", "read32", "write32", "load", "store"}
\* Runs function f (an index, or 0 and a special name) of template t for account a in state s.
\* Nothing of the result's state is kept unless it succeeds.
RunFn(t, f, s, a, cd) ==
  LET p == prog[t]
      m0 == [s |-> s, me |-> a, cd |-> cd, out |-> "ok", logs |-> <<>>, ret |-> [w |-> 0, v |-> 0], touched |-> {a}]
      stop(e) == [m |-> Fail(m0, e), r |-> Err(e)]
  IN IF f = 0 \/ ~p.fns[IF f = 0 THEN 1 ELSE f].exp THEN stop("FuncNotFound")
     ELSE IF p.fns[f].sig # "ok" THEN stop("FuncInvalidSignature")
     ELSE IF cd.n # 0 /\ p.alloc \in Sneaky \cup {"far"} THEN stop("panic")
     ELSE IF cd.n # 0 /\ p.alloc = "trap" THEN [m |-> Fail(m0, "trap"), r |-> [Err("FuncFailed") EXCEPT !.func = "svm_alloc"]]
     ELSE LET m == Exec(p, p.fns[f].body, 1, m0)
          IN [m |-> m,
              r |-> CASE m.out = "ok" -> [R0 EXCEPT !.ok = TRUE, !.logs = m.logs, !.ret = m.ret, !.touched = m.touched]
                      [] m.out = "trap" -> [Err("FuncFailed") EXCEPT !.logs = m.logs]
                      [] OTHER -> Err("panic")]

IsCtor(t, f) == f # 0 /\ prog[t].fns[f].ctor

-----------------------------------------------------------------------------
(* Operations *)
Keep == UNCHANGED <<prog>>
Write(s) == st' = s /\ dirty' = TRUE /\ UNCHANGED <<saved, layers>>
Nothing == UNCHANGED <<st, saved, dirty, layers>>
Ok == [R0 EXCEPT !.ok = TRUE]
\* what a transaction that fails leaves behind: earlier changes are checkpointed
Checkpointed == saved' = st /\ dirty' = FALSE /\ UNCHANGED <<st, layers>>
NewLayer(s) == st' = s /\ saved' = s /\ dirty' = FALSE /\ layers' = Append(layers, s)

\* lim: "none", or what the limit is relative to the price: below, equal, above; or "tiny"
Deploy(t, hdr, lim) ==
  /\ Keep
  /\ IF lim \in {"below", "tiny"}
     THEN Nothing /\ res' = [Err("OOG") EXCEPT !.oog = TRUE]
     ELSE Write([st EXCEPT !.tmpl[t] = hdr]) /\ res' = Ok

SpawnOog(t, f, lim) == lim \in {"below", "equal", "tiny"} \/ (lim = "payload" /\ prog[t].fns[f].exp /\ FnPrice(prog[t], f) > 0)
Spawn(t, f, cd, lim, name, who) ==
  /\ Keep /\ Len(layers) < MaxLayers
  /\ IF st.tmpl[t] = 0 THEN Checkpointed /\ res' = Err("TemplateNotFound")
     ELSE IF ~IsCtor(t, f) THEN Checkpointed /\ res' = Err("FuncNotCtor")
     ELSE IF SpawnOog(t, f, lim) THEN Checkpointed /\ res' = [Err("OOG") EXCEPT !.oog = TRUE]
     ELSE LET s0 == [st EXCEPT !.acct[t] = [tmpl |-> t, name |-> name, bal |-> 0, ctr |-> 0]]
              x == RunFn(t, f, s0, t, cd)
          IN IF x.r.ok THEN NewLayer(x.m.s) /\ res' = [x.r EXCEPT !.touched = @ \cup {who}]
             ELSE Checkpointed /\ res' = x.r

Call(a, f, cd) ==
  /\ Keep /\ Len(layers) < MaxLayers
  /\ IF ~Exists(st, a) THEN Checkpointed /\ res' = Err("AccountNotFound")
     ELSE LET t == st.acct[a].tmpl
          IN IF IsCtor(t, f) THEN Checkpointed /\ res' = Err("FuncNotAllowed")
             ELSE LET x == RunFn(t, f, st, a, cd)
                  IN IF x.r.ok THEN NewLayer(x.m.s) /\ res' = x.r
                     ELSE Checkpointed /\ res' = x.r

\* functions that exist in every template under fixed names, and are of the wrong type for a call
CallSpecial(a, name) ==
  /\ Keep /\ Checkpointed
  /\ res' = IF ~Exists(st, a) THEN Err("AccountNotFound")
            ELSE IF name \in {"svm_alloc", "svm_verify"} THEN Err("FuncInvalidSignature") ELSE Err("FuncNotFound")
SpawnSpecial(t, name) ==
  /\ Keep /\ Checkpointed
  /\ res' = IF st.tmpl[t] = 0 THEN Err("TemplateNotFound") ELSE Err("FuncNotCtor")

\* Verification code has no access to storage and no effect; what else it answers is left open.
Verify(a, cd) == Keep /\ Checkpointed /\ res' = Err(IF Exists(st, a) /\ prog[st.acct[a].tmpl].vfy = "valid" THEN "any" ELSE "fail")

Create(a, t, bal, ctr, name) ==
  /\ Keep
  /\ IF st.tmpl[t] = 0 THEN Nothing /\ res' = Err("panic")
     ELSE Write([st EXCEPT !.acct[a] = [tmpl |-> t, name |-> name, bal |-> bal, ctr |-> ctr]]) /\ res' = Ok
Increase(a, n) ==
  /\ Keep
  /\ IF Exists(st, a) /\ st.acct[a].bal + n <= Cap
     THEN Write([st EXCEPT !.acct[a].bal = @ + n]) /\ res' = Ok
     ELSE Nothing /\ res' = Err("panic")
HostTransfer(x, y, n) ==
  /\ Keep
  /\ IF CanMove(st, x, y, n)
     THEN IF x = y THEN Nothing /\ res' = Ok ELSE Write(Move(st, x, y, n)) /\ res' = Ok
     ELSE Nothing /\ res' = Err("panic")
Commit == Keep /\ Len(layers) < MaxLayers /\ NewLayer(st) /\ res' = Ok
Rewind(l) ==
  /\ Keep /\ l \in 2..Len(layers)
  /\ IF dirty THEN Nothing /\ res' = Err("err")
     ELSE st' = layers[l] /\ saved' = layers[l] /\ dirty' = FALSE /\ layers' = SubSeq(layers, 1, l) /\ res' = Ok

\* layer 1 is the genesis, layer 2 the first one that can be rewound to
Init0 == st = Blank /\ saved = Blank /\ dirty = FALSE /\ layers = <<Blank, Blank>> /\ res = R0
=============================================================================
