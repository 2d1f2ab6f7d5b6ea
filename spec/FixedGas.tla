------------------------------ MODULE FixedGas ------------------------------
(* Fixed-gas programs.  A program is a set of functions; a function is a     *)
(* sequence of instructions.  The module defines                             *)
(*   - when a program is acceptable (Reasons = {}),                          *)
(*   - the price of a function,                                              *)
(*   - how a program executes (Step): a machine with a call stack that       *)
(*     accumulates what it executes; conditions are nondeterministic.        *)
(* Checked: no execution costs more than the price, some execution costs     *)
(* exactly the price, and every acceptable program terminates.               *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt
CONSTANTS NF            \* number of functions
VARIABLES code,         \* code[f]: the instructions of function f
          kind,         \* kind[f]: "fn", or "alloc" / "verify" for the entry points, which have a result
          exps,         \* how the entry points are exported: [alloc, verify]
          pr,           \* price of each plain operation
          hp,           \* price of each host function
          cur, opens,   \* the function being written and its open scopes (innermost first)
          ph, stack, cost, entry
gvars == <<code, kind, exps, pr, hp, cur, opens, ph, stack, cost, entry>>
Fns == 1..NF

\* An instruction: k is its kind, n a callee, host function, variant or label, l the labels of a table.
I(k, n, l) == [k |-> k, n |-> n, l |-> l]
Opens(t) == t.k \in {"block", "if", "loop"}

\* ------------------------------------------------------------------ prices
\* The host functions: number of arguments of 32 and 64 bits, results, price in version 0.
Hosts == << [name |-> "svm_static_alloc", a |-> 1, b |-> 0, r |-> 1, p |-> 100],
            [name |-> "svm_calldata_offset", a |-> 0, b |-> 0, r |-> 1, p |-> 10],
            [name |-> "svm_calldata_len", a |-> 0, b |-> 0, r |-> 1, p |-> 10],
            [name |-> "svm_set_returndata", a |-> 2, b |-> 0, r |-> 0, p |-> 20],
            [name |-> "svm_get32", a |-> 1, b |-> 0, r |-> 1, p |-> 100],
            [name |-> "svm_set32", a |-> 2, b |-> 0, r |-> 0, p |-> 1000000],
            [name |-> "svm_get64", a |-> 1, b |-> 0, r |-> 1, p |-> 200],
            [name |-> "svm_set64", a |-> 1, b |-> 1, r |-> 0, p |-> 2000000],
            [name |-> "svm_load160", a |-> 2, b |-> 0, r |-> 0, p |-> 500],
            [name |-> "svm_store160", a |-> 2, b |-> 0, r |-> 0, p |-> 5000000],
            [name |-> "svm_log", a |-> 2, b |-> 0, r |-> 0, p |-> 3000],
            [name |-> "svm_transfer", a |-> 2, b |-> 1, r |-> 0, p |-> 1000] >>
OpNames == {"nop", "const", "const64", "drop", "block", "add", "load", "set"}
V0Op == [o \in OpNames |-> 1]
V0Host == [h \in DOMAIN Hosts |-> Hosts[h].p]
\* The plain operations that go with an instruction: operands before it, unused results after it.
Plain == << <<"nop">>, <<"const", "drop">>, <<"const", "const", "add", "drop">>, <<"const", "load", "drop">>, <<"const", "set">> >>
Rep(s, n) == [i \in 1..n |-> s]
OpsOf(t) == CASE t.k = "op" -> Plain[t.n]
              [] t.k \in {"if", "br_if", "br_table"} -> <<"const">>
              [] t.k = "block" -> <<"block">>
              [] t.k = "host" -> Rep("const", Hosts[t.n].a) \o Rep("const64", Hosts[t.n].b) \o Rep("drop", Hosts[t.n].r)
              [] t.k = "call" -> (CASE kind[t.n] = "alloc" -> <<"const", "drop">> [] kind[t.n] = "verify" -> <<"drop">> [] OTHER -> <<>>)
              [] t.k = "result" -> <<"const">>
              [] OTHER -> <<>>
RECURSIVE SumP(_)
SumP(s) == IF s = <<>> THEN 0 ELSE pr[Head(s)] + SumP(Tail(s))
\* What executing t costs, apart from the callee's own instructions.
Own(t) == SumP(OpsOf(t)) + (IF t.k = "host" THEN hp[t.n] ELSE 0)

\* ------------------------------------------------------------ control flow
\* The position of the `end' that closes d scopes, looking from q on.
RECURSIVE EndFrom(_, _, _)
EndFrom(c, q, d) == IF Opens(c[q]) THEN EndFrom(c, q + 1, d + 1)
                    ELSE IF c[q].k = "end" THEN (IF d = 1 THEN q ELSE EndFrom(c, q + 1, d - 1))
                    ELSE EndFrom(c, q + 1, d)
RECURSIVE ElseFrom(_, _, _)
ElseFrom(c, q, d) == IF Opens(c[q]) THEN ElseFrom(c, q + 1, d + 1)
                     ELSE IF c[q].k = "end" THEN (IF d = 1 THEN 0 ELSE ElseFrom(c, q + 1, d - 1))
                     ELSE IF c[q].k = "else" /\ d = 1 THEN q
                     ELSE ElseFrom(c, q + 1, d)
Branch(c, p, l) == EndFrom(c, p + 1, l + 1) + 1
Succ(c, p) ==
  LET t == c[p] IN
  CASE t.k = "br" -> {Branch(c, p, t.n)}
    [] t.k = "br_if" -> {p + 1, Branch(c, p, t.n)}
    [] t.k = "br_table" -> {Branch(c, p, t.l[i]) : i \in DOMAIN t.l}
    [] t.k \in {"return", "unreachable"} -> {Len(c) + 1}
    [] t.k = "if" -> {p + 1, IF ElseFrom(c, p + 1, 1) # 0 THEN ElseFrom(c, p + 1, 1) + 1 ELSE EndFrom(c, p + 1, 1) + 1}
    [] t.k = "else" -> {EndFrom(c, p + 1, 1) + 1}
    [] OTHER -> {p + 1}

\* ------------------------------------------------------------------ price
\* acc[i] is the largest cost from position p + i on; P gives the callees' prices.
RECURSIVE Back(_, _, _, _)
Back(c, P, p, acc) ==
  IF p = 0 THEN acc
  ELSE LET w == Own(c[p]) + (IF c[p].k = "call" THEN P[c[p].n] ELSE 0)
       IN Back(c, P, p - 1, <<w + Max({acc[q - p] : q \in Succ(c, p)})>> \o acc)
Longest(c, P) == Back(c, P, Len(c), <<0>>)
Calls(f) == {code[f][i].n : i \in {j \in DOMAIN code[f] : code[f][j].k = "call"}}
RECURSIVE Pricing(_)
Pricing(P) == LET known == DOMAIN P
                  ready == {f \in Fns \ known : Calls(f) \subseteq known} IN
              IF ready = {} THEN P
              ELSE Pricing([f \in known \cup ready |-> IF f \in known THEN P[f] ELSE Longest(code[f], P)[1]])
NoPrice == [f \in {} |-> 0]
Prices == Pricing(NoPrice)

\* ------------------------------------------------------------- acceptability
RECURSIVE Closure(_, _)
Closure(S, n) == IF n = 0 THEN S ELSE Closure(S \cup UNION {Calls(f) : f \in S}, n - 1)
Has(k) == \E f \in Fns : \E i \in DOMAIN code[f] : code[f][i].k = k
Recursive(f) == f \in Calls(f)
Cyclic == \E f \in Fns : f \in Closure(Calls(f), NF)
ExpReason(n, e) == IF e = "ok" THEN {} ELSE {n \o "-" \o e}
Reasons == (IF Has("loop") THEN {"loop"} ELSE {}) \cup (IF Has("call_indirect") THEN {"call_indirect"} ELSE {})
           \cup (IF Has("float") THEN {"float"} ELSE {})
           \cup (IF \E f \in Fns : Recursive(f) THEN {"recursive"} ELSE {})
           \cup (IF Cyclic THEN {"cycle"} ELSE {})
           \cup ExpReason("alloc", exps.alloc) \cup ExpReason("verify", exps.verify)
Accepted == Reasons = {}

\* ----------------------------------------------------------------- writing
Deep == Len(opens)
HasResult == kind[cur] # "fn"
MaxLabel == IF HasResult THEN Deep - 1 ELSE Deep
Put(t) == code' = [code EXCEPT ![cur] = Append(@, t)]
Write(t) ==
  /\ ph = "write"
  /\ CASE t.k \in {"block", "if", "loop"} -> opens' = <<t.k>> \o opens
       [] t.k = "else" -> Deep > 0 /\ Head(opens) = "if" /\ opens' = <<"else">> \o Tail(opens)
       [] t.k = "end" -> Deep > 0 /\ opens' = Tail(opens)
       [] t.k \in {"br", "br_if"} -> t.n <= MaxLabel /\ UNCHANGED opens
       [] t.k = "br_table" -> (\A i \in DOMAIN t.l : t.l[i] <= MaxLabel) /\ UNCHANGED opens
       [] t.k = "return" -> ~HasResult /\ UNCHANGED opens
       [] OTHER -> UNCHANGED opens
  /\ Put(t)
  /\ UNCHANGED <<kind, exps, pr, hp, cur, ph, stack, cost, entry>>
\* Closes the function: its open scopes, its result, and itself.
Close ==
  /\ ph = "write"
  /\ code' = [code EXCEPT ![cur] = @ \o Rep(I("end", 0, <<>>), Deep) \o (IF HasResult THEN <<I("result", 0, <<>>)>> ELSE <<>>) \o <<I("end", 0, <<>>)>>]
  /\ opens' = <<>>
  /\ IF cur < NF THEN cur' = cur + 1 /\ UNCHANGED ph ELSE ph' = "closed" /\ UNCHANGED cur
  /\ UNCHANGED <<kind, exps, pr, hp, stack, cost, entry>>

\* ---------------------------------------------------------------- executing
Start(f) ==
  /\ ph = "closed" /\ Accepted
  /\ ph' = "run" /\ entry' = f /\ stack' = <<[f |-> f, pc |-> 1]>> /\ cost' = 0
  /\ UNCHANGED <<code, kind, exps, pr, hp, cur, opens>>
Step ==
  /\ ph = "run" /\ stack # <<>>
  /\ LET top == Head(stack) c == code[top.f] IN
     IF top.pc > Len(c) THEN stack' = Tail(stack) /\ UNCHANGED cost
     ELSE /\ cost' = cost + Own(c[top.pc])
          /\ \E q \in Succ(c, top.pc) :
             stack' = (IF c[top.pc].k = "call" THEN <<[f |-> c[top.pc].n, pc |-> 1]>> ELSE <<>>) \o <<[top EXCEPT !.pc = q]>> \o Tail(stack)
  /\ UNCHANGED <<code, kind, exps, pr, hp, cur, opens, ph, entry>>
Init0 ==
  /\ code = [f \in Fns |-> <<>>] /\ cur = 1 /\ opens = <<>> /\ ph = "write" /\ stack = <<>> /\ cost = 0 /\ entry = 0
RunNext == (\E f \in Fns : Start(f)) \/ Step

\* --------------------------------------------------------------- properties
\* What may still be spent from the current configuration on.
RECURSIVE Rem(_, _)
Rem(st, P) == IF st = <<>> THEN 0 ELSE Longest(code[Head(st).f], P)[Head(st).pc] + Rem(Tail(st), P)
Bounded == ph = "run" => LET P == Prices IN cost + Rem(stack, P) <= P[entry]
\* All the costs of executing function f, by exploring its paths from the start.
RECURSIVE From(_, _)
From(f, p) == IF p > Len(code[f]) THEN {0}
              ELSE LET t == code[f][p] w == Own(t) rest == UNION {From(f, q) : q \in Succ(code[f], p)}
                       inner == IF t.k = "call" THEN From(t.n, 1) ELSE {0}
                   IN {w + a + b : a \in inner, b \in rest}
Attained == (ph = "closed" /\ Accepted) => LET P == Prices IN DOMAIN P = Fns /\ \A f \in Fns : P[f] = Max(From(f, 1))
\* An acceptable program has a price for every function, and it cannot run forever.
Terminates == (ph = "run") ~> (ph = "run" /\ stack = <<>>)
=============================================================================
