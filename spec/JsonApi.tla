------------------------------- MODULE JsonApi ------------------------------
(* Messages and receipts as JSON documents.                                  *)
(*                                                                           *)
(* A JSON value is a record: its kind j; b, the truth value, the sign and    *)
(* magnitude of a number, or the bytes of a text; t, a text as a word; e,    *)
(* the elements of a list or the two fields of an input-data object.         *)
EXTENDS Codec
A == INSTANCE Abi WITH AddrLen <- Addr
JV(j, t, x, e) == [j |-> j, t |-> t, b |-> x, e |-> e]
Absent == JV("absent", "", <<>>, <<>>)
Null == JV("null", "", <<>>, <<>>)
JBool(x) == JV("bool", "", <<x>>, <<>>)
JInt(neg, mag) == JV("int", "", <<neg>> \o mag, <<>>)    \* the magnitude has eight bytes
JFloat(t) == JV("float", t, <<>>, <<>>)                  \* not an integer of up to 64 bits
JText(x) == JV("text", "", x, <<>>)
JWord(t) == JV("word", t, <<>>, <<>>)
JList(e) == JV("list", "", <<>>, e)
JInput(abi, data) == JV("input", "", <<>>, <<abi, data>>)

Fail == [ok |-> FALSE, x |-> <<>>]
Good(x) == [ok |-> TRUE, x |-> x]
----------------------------------------------------------------------- \* hex
HexVal(c) == CASE c \in 48..57 -> c - 48 [] c \in 65..70 -> c - 55 [] c \in 97..102 -> c - 87 [] OTHER -> 16
IsHex(x) == Len(x) % 2 = 0 /\ \A i \in DOMAIN x : HexVal(x[i]) < 16
UnHex(x) == [i \in 1..(Len(x) \div 2) |-> 16 * HexVal(x[2 * i - 1]) + HexVal(x[2 * i])]
AsBytes(v) == IF v.j = "text" /\ IsHex(v.b) THEN Good(UnHex(v.b)) ELSE Fail
AsAddr(v) == LET r == AsBytes(v) IN IF r.ok /\ Len(r.x) = Addr THEN r ELSE Fail

------------------------------------------------------------------- \* numbers
Wide8(w, mag) == \A i \in 1..(8 - w) : mag[i] = 0        \* fits into w bytes
Low(w, mag) == SubSeq(mag, 9 - w, 8)
TopBit(x) == x[1] >= 128
RECURSIVE Negate(_)
Negate(x) == IF x = <<>> THEN <<>> ELSE IF x[Len(x)] = 0 THEN Append(Negate(SubSeq(x, 1, Len(x) - 1)), 0)
             ELSE Append([i \in 1..(Len(x) - 1) |-> 255 - x[i]], 256 - x[Len(x)])
Signed == {"i8", "i16", "i32", "i64"}
AsNum(t, v) == LET w == A!Width[t] mag == Tail(v.b) neg == v.b[1] = 1 low == Low(w, mag) IN
               IF v.j # "int" \/ ~Wide8(w, mag) THEN Fail
               ELSE IF t \in Signed
                    THEN IF neg THEN (IF ~TopBit(low) \/ low = [i \in 1..w |-> IF i = 1 THEN 128 ELSE 0] THEN Good(Negate(low)) ELSE Fail)
                         ELSE IF TopBit(low) THEN Fail ELSE Good(low)
                    ELSE IF neg THEN Fail ELSE Good(low)

---------------------------------------------------------------- \* input data
TypeNames == A!NumTypes \cup {"bool", "address"}
IsPrimType(s) == s.j = "word" /\ s.t \in TypeNames
IsArrType(s) == s.j = "list" /\ Len(s.e) = 1 /\ IsPrimType(s.e[1])
AsPrim(t, v) == LET r == CASE t = "bool" -> (IF v.j = "bool" THEN Good(v.b) ELSE Fail)
                           [] t = "address" -> AsAddr(v)
                           [] OTHER -> (IF v.j = "int" THEN AsNum(t, v) ELSE Fail)
                IN IF r.ok THEN Good(A!Prim(t, r.x)) ELSE Fail
RECURSIVE AsPrims(_, _, _)
AsPrims(t, vs, acc) == IF vs = <<>> THEN Good(acc) ELSE LET r == AsPrim(t, Head(vs)) IN IF r.ok THEN AsPrims(t, Tail(vs), Append(acc, r.x)) ELSE Fail
AsValue(s, v) == IF IsPrimType(s) THEN AsPrim(s.t, v)
                 ELSE IF IsArrType(s) /\ v.j = "list" /\ Len(v.e) <= A!MaxArray
                      THEN LET r == AsPrims(s.e[1].t, v.e, <<>>) IN IF r.ok THEN Good(A!Arr(r.x)) ELSE Fail
                      ELSE Fail
RECURSIVE AsValues(_, _, _)
AsValues(ss, vs, acc) == IF ss = <<>> THEN Good(acc) ELSE LET r == AsValue(Head(ss), Head(vs)) IN IF r.ok THEN AsValues(Tail(ss), Tail(vs), Append(acc, r.x)) ELSE Fail
\* All values are there and have the types they are said to have.
AsInput(abi, data) == IF abi.j = "list" /\ data.j = "list" /\ Len(abi.e) = Len(data.e) THEN AsValues(abi.e, data.e, <<>>) ELSE Fail
InputBytes(abi, data) == LET r == AsInput(abi, data) IN IF r.ok THEN Good(A!EncAll(r.x)) ELSE Fail
\* In a message, input data is given either way.
AsData(v) == LET r == CASE v.j = "text" -> AsBytes(v) [] v.j = "input" -> InputBytes(v.e[1], v.e[2]) [] OTHER -> Fail
             IN IF r.ok /\ Len(r.x) <= MaxText THEN r ELSE Fail
AsVersion(v) == IF v.j = "int" /\ v.b[1] = 0 /\ Wide8(U16, Tail(v.b)) THEN Good(Low(U16, Tail(v.b))) ELSE Fail
AsName(v) == IF v.j = "text" /\ Len(v.b) <= MaxText THEN Good(v.b) ELSE Fail

------------------------------------------------------------------- \* messages
\* A document is a function from fields to values; a message, that with these fields.
Fields(ty) == CASE ty = "call" -> <<"version", "target", "func_name", "verifydata", "calldata">>
                [] ty = "spawn" -> <<"version", "template", "name", "ctor_name", "calldata">>
                [] ty = "inputdata" -> <<"abi", "data">>
                [] OTHER -> <<"data">>
AsField(f, v) == CASE f = "version" -> AsVersion(v) [] f \in {"target", "template"} -> AsAddr(v)
                   [] f \in {"func_name", "name", "ctor_name"} -> AsName(v) [] OTHER -> AsData(v)
EncodeDoc(ty, doc) ==
  IF ty = "inputdata" THEN InputBytes(doc["abi"], doc["data"])
  ELSE LET fs == Fields(ty) r == [i \in 1..Len(fs) |-> AsField(fs[i], doc[fs[i]])] IN
       IF \A i \in 1..Len(fs) : r[i].ok THEN Good(Encode(ty, [i \in 1..Len(fs) |-> r[i].x])) ELSE Fail
\* What is shown of bytes: values that JSON can show.
Shown(x) == LET r == A!DecAll(x) IN
            IF r.ok /\ \A i \in DOMAIN r.v : r.v[i].t \notin {"none", "unit"} /\ \A k \in DOMAIN r.v[i].e : r.v[i].e[k].t \notin {"none", "unit"}
            THEN Good(r.v) ELSE Fail
DataAt(ty) == CASE ty = "call" -> {4, 5} [] ty = "spawn" -> {5} [] OTHER -> {}
DecodeDoc(ty, doc) ==
  LET d == AsBytes(doc["data"]) IN
  IF ~d.ok THEN Fail
  ELSE IF ty = "inputdata" THEN Shown(d.x)
  ELSE LET r == Decode(ty, Kinds, d.x) IN
       IF ~r.ok \/ \E i \in DataAt(ty) : ~Shown(r.v[i]).ok THEN Fail
       ELSE Good([i \in DOMAIN r.v |-> IF i \in DataAt(ty) THEN Shown(r.v[i]).x ELSE r.v[i]])

-------------------------------------------------------------------- \* receipts
Sh(f, k, x) == [f |-> f, k |-> k, x |-> x]
ErrName == <<"oog", "template-not-found", "account-not-found", "compilation-failed", "instantiation-failed", "function-not-found", "function-failed",
             "function-not-ctor", "function-not-allowed", "function-invalid-signature">>
TypeName == <<"deploy-template", "spawn-account", "call-account">>
\* The fields of a decoded receipt: their names, how they are written, and their contents.
ShowFailure(k, x) == <<Sh("err_type", "word", ErrName[k + 1]), Sh("logs", "logs", x[1])>> \o
  CASE k = 0 -> <<>>
    [] k = 1 -> <<Sh("template_addr", "hex", x[2])>>
    [] k = 2 -> <<Sh("account_addr", "hex", x[2])>>
    [] k = 7 -> <<Sh("template_addr", "hex", x[2]), Sh("func", "text", x[3])>>
    [] OTHER -> <<Sh("template_addr", "hex", x[2]), Sh("account_addr", "hex", x[3])>> \o
                (IF k \in {3, 4} THEN <<Sh("message", "text", x[4])>> ELSE <<Sh("func", "text", x[4])>>) \o
                (IF k \in {6, 8} THEN <<Sh("message", "text", x[5])>> ELSE <<>>)
ShowSuccess(k, x) ==
  CASE k = 0 -> <<Sh("addr", "hex", x[1]), Sh("gas_used", "gas", x[2]), Sh("logs", "logs", x[3])>>
    [] k = 1 -> <<Sh("account", "hex", x[1]), Sh("state", "hex", x[2]), Sh("returndata", "hex", x[3]), Sh("gas_used", "gas", x[4]), Sh("touched_accounts", "addrs", x[5]), Sh("logs", "logs", x[6])>>
    [] k = 2 -> <<Sh("new_state", "hex", x[1]), Sh("returndata", "hex", x[2]), Sh("gas_used", "gas", x[3]), Sh("touched_accounts", "addrs", x[4]), Sh("logs", "logs", x[5])>>
ShowReceipt(doc) ==
  LET d == AsBytes(doc["data"]) r == IF d.ok THEN Decode("receipt", Kinds, d.x) ELSE Err IN
  IF ~r.ok THEN Fail
  ELSE LET kind == r.v[1][1] res == r.v[1][2][2] IN
       Good(<<Sh("type", "word", TypeName[kind + 1]), Sh("success", "bool", res[1])>> \o
            IF res[1] = 1 THEN ShowSuccess(kind, res[2]) ELSE ShowFailure(res[2][1][1], res[2][1][2]))
=============================================================================
