------------------------------ MODULE JsonApiGen ----------------------------
(* Random documents, good and bad, with what the specification says of them. *)
EXTENDS JsonApi, CodecGen
CONSTANTS Bad          \* how many of a hundred fields are bad
VARIABLES op, doc
jvars == <<op, doc>>
B == IF n >= 0 THEN P(Bad) ELSE FALSE
-------------------------------------------------------------------- \* values
HexDigit(x) == IF x < 10 THEN 48 + x ELSE IF P(70) THEN 55 + x ELSE 87 + x
RECURSIVE RandHex1(_, _)
RandHex1(x, acc) == IF x = <<>> THEN acc ELSE RandHex1(Tail(x), acc \o <<HexDigit(Head(x) \div 16), HexDigit(Head(x) % 16)>>)
Upper(x) == IF x < 10 THEN 48 + x ELSE 55 + x
RandHex(x, acc) == IF Len(x) < 300 THEN RandHex1(x, acc) ELSE [i \in 1..(2 * Len(x)) |-> Upper(IF i % 2 = 1 THEN x[(i + 1) \div 2] \div 16 ELSE x[i \div 2] % 16)]
JunkHex(x) == LET c == R(1..5) h == RandHex(x, <<>>) IN
              CASE c = 1 -> Append(h, 48)
                [] c = 2 /\ h # <<>> -> SubSeq(h, 1, Len(h) - 1)
                [] c = 3 /\ h # <<>> -> [h EXCEPT ![R(1..Len(h))] = L(<<71, 103, 32, 47, 58, 64, 96, 45>>)]
                [] c = 4 -> <<48, 120>> \o h
                [] OTHER -> h \o L(<<<<32>>, <<10>>, <<195, 169>>>>)
HexJ(x) == JText(IF B THEN JunkHex(x) ELSE RandHex(x, <<>>))
Floats == <<"1.5", "-0.5", "1e3", "18446744073709551616", "-9223372036854775809">>
Junk == LET c == R(1..9) IN
        CASE c = 1 -> Null [] c = 2 -> JBool(R({0, 1})) [] c = 3 -> JInt(R({0, 1}), Zeros(7) \o <<R(1..255)>>) [] c = 4 -> JFloat(Floats[R(1..5)])
          [] c = 5 -> JText(L(<<<<>>, <<49, 48>>, <<116, 114, 117, 101>>>>)) [] c = 6 -> JWord("u8") [] c = 7 -> JList(<<JInt(0, Zeros(7) \o <<R(1..9)>>)>>)
          [] c = 8 -> JInput(Absent, Absent) [] c = 9 -> Absent
\* As a list element nothing can be absent.
Junk1 == LET x == Junk IN IF x.j = "absent" THEN Null ELSE x
\* Magnitudes about the limits of the types.
Pow(k) == [i \in 1..8 |-> IF 8 - i = k \div 8 THEN 2 ^ (k % 8) ELSE 0]
PowLess(k) == [i \in 1..8 |-> IF 8 - i > k \div 8 THEN 0 ELSE IF 8 - i = k \div 8 THEN 2 ^ (k % 8) - 1 ELSE 255]
PowMore(k) == IF k > 0 THEN [Pow(k) EXCEPT ![8] = IF k < 8 THEN 2 ^ k + 1 ELSE 1] ELSE Pow(0)
Limits == <<7, 8, 15, 16, 31, 32, 63, 24, 40, 48, 56>>
RandMag(w) == LET c == R(1..8) IN
  CASE c = 1 -> Zeros(8)
    [] c = 2 -> LET k == L(Limits) IN L(<<Pow(k), PowLess(k), PowMore(k)>>)
    [] c = 3 -> [i \in 1..8 |-> 255]
    [] OTHER -> LET k == R(1..w) IN Zeros(8 - k) \o RB(k, {0, 1, 127, 128, 255, R(Byte), R(Byte)}, <<>>)
IsZero(mag) == mag = Zeros(8)
RandInt(w) == LET mag == RandMag(w) IN
              \* -2^63 is the least integer there is
              IF ~IsZero(mag) /\ (~TopBit(mag) \/ mag = Pow(63)) /\ P(40) THEN JInt(1, mag) ELSE JInt(0, mag)
\* An integer of the type, in nine of ten tries.
RECURSIVE GoodInt(_, _)
GoodInt(t, k) == LET v == RandInt(A!Width[t]) IN IF k = 0 \/ AsNum(t, v).ok THEN v ELSE GoodInt(t, k - 1)
PT == <<"amount", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "bool", "address">>
RandV(t) == CASE t = "bool" -> IF B THEN Junk1 ELSE JBool(R({0, 1}))
              [] t = "address" -> IF B THEN (IF P(50) THEN Junk1 ELSE HexJ(RandFix(L(<<1, 2, 19, 21, 32>>)))) ELSE HexJ(RandFix(Addr))
              [] OTHER -> IF B THEN (IF P(30) THEN Junk1 ELSE RandInt(A!Width[t])) ELSE GoodInt(t, 8)
RECURSIVE RandVs(_, _, _)
RandVs(k, t, acc) == IF k = 0 THEN acc ELSE RandVs(k - 1, t, Append(acc, RandV(t)))
ArrLen == IF B THEN L(<<10, 11, 11, 12, 255>>) ELSE R(0..10)
BadSig == L(<<JWord("u128"), JWord("U8"), JWord(""), JWord("none"), JWord("unit"), JWord("string"), Null, JInt(0, Zeros(8)), JList(<<>>), JList(<<JWord("u8"), JWord("u8")>>), JList(<<JList(<<JWord("u8")>>)>>), JList(<<JWord("nope")>>)>>)
\* <<types, values>>
RECURSIVE RandIn(_, _, _)
RandIn(k, abi, data) ==
  IF k = 0 THEN <<abi, data>>
  ELSE LET t == L(PT) a == P(35) junk == P(Bad) IN
       RandIn(k - 1, Append(abi, IF junk THEN BadSig ELSE IF a THEN JList(<<JWord(t)>>) ELSE JWord(t)),
                     Append(data, IF a THEN (IF B THEN Junk1 ELSE JList(RandVs(ArrLen, t, <<>>))) ELSE RandV(t)))
RandPair == LET p == RandIn(L(<<0, 1, 1, 2, 2, 3, 5, 7>>), <<>>, <<>>) IN
            IF ~B THEN p
            ELSE LET c == R(1..3) IN
                 CASE c = 1 /\ p[1] # <<>> -> <<Tail(p[1]), p[2]>> [] c = 2 /\ p[2] # <<>> -> <<p[1], Tail(p[2])>> [] OTHER -> <<p[1], p[2] \o <<JBool(1)>>>>
FieldOr(v) == IF B THEN Junk ELSE v
RandInput == LET p == RandPair IN <<FieldOr(JList(p[1])), FieldOr(JList(p[2]))>>
\* Encoded input data as clients have it, or any bytes.
RECURSIVE GoodVals(_, _)
GoodVals(k, acc) ==
  IF k = 0 THEN acc ELSE
  LET t == L(PT) a == P(35) IN
  GoodVals(k - 1, acc \o LET r == AsValue(IF a THEN JList(<<JWord(t)>>) ELSE JWord(t), IF a THEN JList(RandVs(R(0..10), t, <<>>)) ELSE RandV(t)) IN IF r.ok THEN <<r.x>> ELSE <<>>)
Special == <<A!Prim("none", <<>>), A!Prim("unit", <<>>), A!Arr(<<A!Prim("unit", <<>>)>>), A!Arr(<<A!Prim("u8", <<7>>), A!Prim("none", <<>>)>>), A!Arr(<<A!Prim("bool", <<1>>), A!Prim("u8", <<7>>)>>)>>
RandBytes == LET x == A!EncAll(GoodVals(L(<<0, 1, 1, 2, 3, 5>>), <<>>) \o (IF B THEN <<L(Special)>> ELSE <<>>)) IN IF B THEN HurtN(x, L(<<1, 1, 2>>)) ELSE x
SizedBytes == IF P(8) THEN LET c == R({0, 16}) IN [i \in 1..L(<<254, 255, 256, 257, 300, 511, 512>>) |-> c] ELSE RandBytes
RandData == IF P(40) THEN HexJ(SizedBytes) ELSE LET p == RandInput IN JInput(p[1], p[2])
Clean(x) == IF Utf8(x) THEN x ELSE <<65>>
RandName == JText(Clean(IF P(15) THEN RandChars(L(<<254, 255, 256, 257, 260, 511, 512>>), 0, <<>>) ELSE RandText))
RandVersion == IF B THEN JInt(0, RandMag(3)) ELSE JInt(0, Zeros(6) \o RandFix(2))
\* (a word is a text, and the specification does not spell words)
NoWord(v) == IF v.j = "word" THEN Null ELSE v
RandField(f) == NoWord(FieldOr(CASE f = "version" -> RandVersion
                          [] f \in {"target", "template"} -> (IF B THEN HexJ(RandFix(L(<<1, 19, 21, 32>>))) ELSE HexJ(RandFix(Addr)))
                          [] f \in {"func_name", "name", "ctor_name"} -> RandName
                          [] OTHER -> RandData))
--------------------------------------------------------------------- \* cases
RECURSIVE RandFields(_, _)
RandFields(fs, acc) == IF fs = <<>> THEN acc ELSE RandFields(Tail(fs), Append(acc, RandField(Head(fs))))
\* Fields are passed as sequences, in the order of Fields(ty).
DocOf(fs, vs) == [f \in {fs[i] : i \in 1..Len(fs)} |-> vs[CHOOSE i \in 1..Len(fs) : fs[i] = f]]
Trailing == L(<<<<>>, <<>>, <<>>, <<0>>, <<255, 1>>>>)
RandEnc(t) == LET x == CASE t = "inputdata" -> SizedBytes
                         [] t = "call" -> Encode(t, <<RandFix(U16), RandFix(Addr), Clean(RandText), LET y == RandBytes IN SubSeq(y, 1, IF Len(y) > 255 THEN 255 ELSE Len(y)), LET y == RandBytes IN SubSeq(y, 1, IF Len(y) > 255 THEN 255 ELSE Len(y))>>)
                         [] t = "spawn" -> Encode(t, <<RandFix(U16), RandFix(Addr), Clean(RandText), Clean(RandText), LET y == RandBytes IN SubSeq(y, 1, IF Len(y) > 255 THEN 255 ELSE Len(y))>>)
                         [] t = "receipt" -> Encode(t, RandReceipt)
              IN IF P(Damaged) THEN HurtN(x, L(<<1, 1, 2, 3>>)) ELSE x
GJInit == GInit /\ op = "" /\ doc = <<>>
GJNext ==
  \E t \in {R(GenTypes)}, o \in {R({"encode", "decode"})} :
    /\ n' = n + 1 /\ ty' = t /\ UNCHANGED <<m, b, fresh, want>>
    /\ op' = IF t = "receipt" THEN "decode" ELSE o
    /\ \E vs \in {IF op' = "decode" THEN <<FieldOr(HexJ(RandEnc(t)))>> ELSE IF t = "inputdata" THEN RandInput ELSE RandFields(Fields(t), <<>>)} :
         doc' = DocOf(IF op' = "decode" THEN <<"data">> ELSE Fields(t), vs)
Result == IF op = "encode" THEN EncodeDoc(ty, doc) ELSE IF ty = "receipt" THEN ShowReceipt(doc) ELSE DecodeDoc(ty, doc)
\* What an encoded message looks like when it is decoded.
Again == IF op = "encode" /\ Result.ok
         THEN LET d == Result.x IN
              IF ty = "inputdata" THEN Shown(d)
              ELSE LET r == Decode(ty, Kinds, d) IN
                   IF \E i \in DataAt(ty) : ~Shown(r.v[i]).ok THEN Fail
                   ELSE Good([i \in DOMAIN r.v |-> IF i \in DataAt(ty) THEN Shown(r.v[i]).x ELSE r.v[i]])
         ELSE Fail
EmitJ == n > 0 => PrintT("TRACE" \o ToJson([op |-> op, ty |-> ty, doc |-> doc, ok |-> Result.ok, x |-> Result.x, again |-> Again]))
=============================================================================
