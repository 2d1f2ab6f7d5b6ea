------------------------------ MODULE JsonApiMC -----------------------------
(* All documents with these few values in their fields.                      *)
EXTENDS JsonApi
VARIABLES ty, doc
vars == <<ty, doc>>
Mag(x) == Zeros(7) \o <<x>>
I(x) == JInt(0, Mag(x))
Ints == {I(0), I(127), I(255), JInt(1, Mag(1)), JInt(1, Mag(128)), JInt(0, [i \in 1..8 |-> 255]), JInt(1, <<128>> \o Zeros(7)), JInt(0, <<0, 0, 0, 0, 128, 0, 0, 0>>)}
Odd == {Absent, Null, JBool(1), JFloat("1.5"), JText(<<65>>), JList(<<I(1)>>), JText(<<71, 71>>)}
Values == Ints \cup Odd \cup {JBool(0), JText(<<48, 97>>), JList(<<>>), JList(<<I(3), I(200)>>), JList([i \in 1..11 |-> I(i)])}
Sigs == {JWord(t) : t \in TypeNames} \cup {JWord("u128"), Null, JList(<<>>), JList(<<JWord("u8"), JWord("u8")>>), JList(<<JList(<<JWord("u8")>>)>>)}
        \cup {JList(<<JWord(t)>>) : t \in TypeNames}
Inputs == {JInput(JList(<<s>>), JList(<<v>>)) : s \in {JWord("u8"), JWord("bool")}, v \in {I(5), JBool(1)}} \cup
          {JInput(JList(<<JWord("u8")>>), JList(<<>>)), JInput(Absent, JList(<<>>)), JInput(JList(<<>>), JList(<<>>)), JInput(JList(<<JWord("i16")>>), JList(<<JInt(1, Mag(1))>>))}
Datas == Inputs \cup {JText(<<>>), JText(<<48, 48>>), JText(<<51, 48>>), JText(<<49, 50, 102, 70>>), JText(<<49>>), Null, Absent}
Names == {JText(<<>>), JText(<<65, 66>>), JText(<<65, 66, 67>>), Null, Absent}
Init == \/ ty = "inputdata" /\ \E s \in Sigs, v \in Values : doc = [f \in {"abi", "data"} |-> IF f = "abi" THEN JList(<<s>>) ELSE JList(<<v>>)]
        \/ ty = "inputdata" /\ \E s \in {JWord("u8"), JWord("bool")}, v \in Values, w \in Values : doc = [f \in {"abi", "data"} |-> IF f = "abi" THEN JList(<<s, JWord("i32")>>) ELSE JList(<<v, w>>)]
        \/ ty = "inputdata" /\ doc \in [{"abi", "data"} -> Odd \cup {JList(<<>>), JList(<<JWord("bool")>>), JList(<<JBool(1)>>)}]
        \/ ty = "call" /\ \E x \in {I(1), JInt(0, Zeros(6) \o <<1, 0>>), Absent}, a \in {JText(<<65, 98>>), JText(<<65>>), Absent}, nm \in Names, v \in Datas, c \in Datas :
             doc = [f \in {"version", "target", "func_name", "verifydata", "calldata"} |-> CASE f = "version" -> x [] f = "target" -> a [] f = "func_name" -> nm [] f = "verifydata" -> v [] f = "calldata" -> c]
        \/ ty = "spawn" /\ \E x \in {I(1), JBool(1)}, a \in {JText(<<65, 98>>), JText(<<65, 98, 65, 98>>)}, nm \in Names, ct \in Names, c \in Datas :
             doc = [f \in {"version", "template", "name", "ctor_name", "calldata"} |-> CASE f = "version" -> x [] f = "template" -> a [] f = "name" -> nm [] f = "ctor_name" -> ct [] f = "calldata" -> c]
Spec == Init /\ [][UNCHANGED vars]_vars

Digit(x) == IF x < 10 THEN 48 + x ELSE 55 + x
RECURSIVE Hex(_)
Hex(x) == IF x = <<>> THEN <<>> ELSE <<Digit(Head(x) \div 16), Digit(Head(x) % 16)>> \o Hex(Tail(x))
HexInverse == \A x \in {<<0>>, <<10, 255>>, <<159, 160, 1>>} : IsHex(Hex(x)) /\ UnHex(Hex(x)) = x
E0 == EncodeDoc(ty, doc)
Back == DecodeDoc(ty, [f \in {"data"} |-> JText(Hex(E0.x))])
\* What is encoded is decoded to the same fields.
Fields0 == LET fs == Fields(ty) IN [i \in 1..Len(fs) |-> IF fs[i] \in {"verifydata", "calldata"}
              THEN LET v == doc[fs[i]] IN IF v.j = "input" THEN AsInput(v.e[1], v.e[2]).x ELSE Shown(UnHex(v.b)).x
              ELSE AsField(fs[i], doc[fs[i]]).x]
Showable == \A f \in {"verifydata", "calldata"} \cap DOMAIN doc : doc[f].j = "text" => Shown(UnHex(doc[f].b)).ok
RoundTrip == E0.ok => IF ty = "inputdata" THEN Back = Good(AsInput(doc["abi"], doc["data"]).x)
                      ELSE IF Showable THEN Back = Good(Fields0) ELSE ~Back.ok
\* Nothing is made up, left out or cut off.
Complete == E0.ok => /\ \A f \in DOMAIN doc : doc[f].j # "absent"
                     /\ ty # "inputdata" => Decode(ty, Kinds, E0.x).ok
=============================================================================
