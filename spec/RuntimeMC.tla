----------------------------- MODULE RuntimeMC ------------------------------
(* Exhaustive check of Runtime.tla with two fixed templates.                 *)
EXTENDS Runtime
VARIABLE act
Op(o, a, b, c) == [o |-> o, a |-> a, b |-> b, c |-> c]
Fn(e, s, c, b) == [exp |-> e, sig |-> s, ctor |-> c, body |-> b]
P1 == [alloc |-> "good", vfy |-> "valid",
       fns |-> << Fn(TRUE, "ok", TRUE,  <<Op("set", 1, 1, 0)>>),
                  Fn(TRUE, "ok", FALSE, <<Op("inc", 1, 0, 0), Op("xfer", 1, 2, 1), Op("log", 1, 0, 0), Op("trapif", 1, 3, 0), Op("xfer", 2, 3, 1)>>),
                  Fn(FALSE, "ok", TRUE, <<>>),
                  Fn(TRUE, "bad", FALSE, <<>>) >>]
P2 == [alloc |-> "write", vfy |-> "read",
       fns |-> << Fn(TRUE, "ok", TRUE,  <<Op("set", 2, 1, 0), Op("badvar", 0, 0, 0)>>),
                  Fn(TRUE, "ok", FALSE, <<Op("set", 2, 1, 0), Op("call", 3, 0, 0), Op("trap", 0, 0, 0)>>),
                  Fn(TRUE, "ok", TRUE, <<Op("ret", 1, 0, 0)>>),
                  Fn(TRUE, "ok", FALSE, <<Op("retif", 2, 1, 0), Op("set", 2, 1, 0), Op("log", 2, 0, 0)>>) >>]
Cds == {NoCd, [n |-> 1, slots |-> <<1, 3, 2>>], [n |-> 1, slots |-> <<3, 1, 4>>]}
mvars == <<vars, act>>
MInit == Init0 /\ prog = <<P1, P2>> /\ act = [o |-> "init", a |-> 0]
A(o, a) == act' = [o |-> o, a |-> a]
MNext ==
  \/ \E t \in Tmpls, l \in {"none", "below", "equal"} : Deploy(t, 1, l) /\ A("deploy", t)
  \/ \E t \in Tmpls, f \in 1..4, cd \in Cds, l \in {"none", "equal", "above", "payload"} : Spawn(t, f, cd, l, 1, NA) /\ A("spawn", t)
  \/ \E a \in Accts, f \in 0..4, cd \in Cds : Call(a, f, cd) /\ A("call", a)
  \/ \E a \in Accts : Verify(a, NoCd) /\ A("verify", a)
  \/ \E a \in Exts, t \in Tmpls : Create(a, t, 2, 0, 1) /\ st.acct[a] = NoAcct /\ A("create", a)
  \/ \E a \in Accts : Increase(a, 1) /\ A("increase", a)
  \/ \E a, b \in Accts : HostTransfer(a, b, 1) /\ A("transfer", a)
  \/ Commit /\ A("commit", 0)
  \/ \E l \in 2..MaxLayers : Rewind(l) /\ A("rewind", l)
MSpec == MInit /\ [][MNext]_mvars
View == <<st, saved, dirty, layers>>
Small == \A a \in Accts : st.var[a][1] <= 4

RECURSIVE SumBal(_, _)
SumBal(s, a) == IF a = 0 THEN 0 ELSE s.acct[a].bal + SumBal(s, a - 1)
Total(s) == SumBal(s, NA)
Tx == {"spawn", "call", "verify"}
\* R01
FailedChangesNothing == [][act'.o \in Tx \cup {"deploy"} /\ ~res'.ok => st' = st /\ layers' = layers]_mvars
\* R02 (an account that is spawned again is set up anew: known finding)
Conserved == [][act'.o \in Tx => Total(st') = Total(st) - (IF act'.o = "spawn" /\ res'.ok THEN st.acct[act'.a].bal ELSE 0)]_mvars
Bounded == \A a \in Accts : st.acct[a].bal \in 0..Cap
\* R03
CtorsOnlyAtSpawn == [][act'.o = "spawn" /\ res'.ok => st'.acct[act'.a].tmpl = act'.a]_mvars
\* R04
OneLayer == [][act'.o \in Tx => Len(layers') = Len(layers) + (IF res'.ok THEN 1 ELSE 0)]_mvars
Durable == [][act'.o \in Tx /\ res'.ok => layers'[Len(layers')] = st' /\ ~dirty']_mvars
\* R05
OogChangesNothing == [][res'.oog => st' = st /\ layers' = layers]_mvars
\* R06
VerifyNoEffect == [][act'.o = "verify" => st' = st /\ layers' = layers]_mvars
\* R09
OnlyThatAccount == [][act'.o = "spawn" => \A a \in Accts : a # act'.a => st'.acct[a].tmpl = st.acct[a].tmpl /\ st'.acct[a].name = st.acct[a].name /\ st'.var[a] = st.var[a]]_mvars
OnlyThatVar == [][act'.o = "call" => \A a \in Accts : a # act'.a => st'.var[a] = st.var[a]]_mvars
OnlyThatTemplate == [][st'.tmpl # st.tmpl => act'.o \in {"deploy", "rewind"}]_mvars
CodeExists == \A a \in Accts : Exists(st, a) => st.tmpl[st.acct[a].tmpl] # 0
=============================================================================
