-------------------------------- MODULE AbiGen ------------------------------
(* Random values, their bytes, damaged bytes, and what can be read of them.  *)
EXTENDS Abi, FiniteSets, TLC, Json
CONSTANTS Damaged       \* how many of a hundred cases are damaged
VARIABLES vs, b, fresh, tup, asks, n
vars == <<vs, b, fresh, tup, asks, n>>
Byte == 0..255
R(S) == RandomElement(IF n >= 0 THEN S ELSE {})
P(k) == R(1..100) <= k
L(s) == s[R(1..Len(s))]
Digit == L(<<0, 0, 1, 127, 128, 255, R(Byte), R(Byte)>>)
RECURSIVE RB(_, _)
RB(k, acc) == IF k = 0 THEN acc ELSE RB(k - 1, Append(acc, Digit))
\* A number with k significant bytes.
RandNum(w) == LET k == R(0..w) IN
              IF k = 0 THEN L(<<Zeros(w), [i \in 1..w |-> 255], [i \in 1..w |-> IF i = 1 THEN 128 ELSE 0], [i \in 1..w |-> IF i = 1 THEN 127 ELSE 255]>>)
              ELSE Zeros(w - k) \o RB(k, <<>>)
Types == <<"amount", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "bool", "address", "none", "unit">>
RandPrim(t) == CASE t \in NumTypes -> Prim(t, RandNum(Width[t]))
                 [] t = "bool" -> Prim(t, <<R({0, 1})>>)
                 [] t = "address" -> Prim(t, RB(AddrLen, <<>>))
                 [] OTHER -> Prim(t, <<>>)
RECURSIVE RandPrims(_, _, _)
RandPrims(k, t, acc) == IF k = 0 THEN acc ELSE RandPrims(k - 1, t, Append(acc, RandPrim(IF t = "any" THEN L(Types) ELSE t)))
RandValue == IF P(70) THEN RandPrim(L(Types)) ELSE Arr(RandPrims(R(0..MaxArray), IF P(15) THEN "any" ELSE Types[R(1..11)], <<>>))
RECURSIVE RandValues(_, _)
RandValues(k, acc) == IF k = 0 THEN acc ELSE RandValues(k - 1, Append(acc, RandValue))
\* Two tuples of Rust types, and their beginnings.
Tuples == <<<<"i8", "u16", "i32", "u64", "address", "bool">>, <<"amount", "i64", "u32", "i16", "u8", "none">>>>
RECURSIVE RandOf(_, _)
RandOf(ts, acc) == IF ts = <<>> THEN acc ELSE RandOf(Tail(ts), Append(acc, RandPrim(Head(ts))))
\* Markers, rather than any bytes, are what damage is made of.
Odd == IF P(60) THEN L(<<0, 16, 32, 48, 64, 80, 112, 1, 113, 2, 18, 34, 50, 66, 82, 98, 3, 51, 67, 115, 4, 116, 5, 117, 6, 22, 38, 118, 7, 23, 39, 55, 8, 9, 15, 128, 134, 255>>) ELSE R(Byte)
Hurt(x) == LET c == R(1..12) i == IF x = <<>> THEN 0 ELSE R(1..Len(x)) IN
  CASE c \in 1..4 /\ i > 0 -> [x EXCEPT ![i] = Odd]
    [] c \in 5..6 -> SubSeq(x, 1, i) \o <<Odd>> \o SubSeq(x, i + 1, Len(x))
    [] c \in 7..8 /\ i > 0 -> SubSeq(x, 1, i - 1) \o SubSeq(x, i + 1, Len(x))
    [] c \in 9..10 -> SubSeq(x, 1, i)
    [] c = 11 -> x \o <<Odd>>
    [] c = 12 -> <<Odd>> \o x
    [] OTHER -> x
RECURSIVE HurtN(_, _)
HurtN(x, k) == IF k = 0 THEN x ELSE HurtN(Hurt(x), k - 1)
\* Types to read a value as: its own, one like it, or any.
TypeOf(v) == IF v.t = "array" THEN (IF v.e = <<>> THEN "u8" ELSE v.e[1].t) ELSE v.t
Ask(v) == LET own == TypeOf(v) t == IF P(60) /\ own \in {Types[i] : i \in 1..11} THEN own ELSE Types[R(1..11)]
              k == IF v.t = "array" THEN (IF v.e # <<>> /\ P(85) THEN Len(v.e) ELSE R(1..MaxArray)) ELSE IF P(8) THEN R(1..MaxArray) ELSE 99
              opt == k = 99 /\ P(50) IN
          [t |-> t, n |-> k, opt |-> opt, fits |-> Fits(v, t, k, opt)]
RECURSIVE Asks(_, _)
Asks(xs, acc) == IF xs = <<>> THEN acc ELSE Asks(Tail(xs), Append(acc, Ask(Head(xs))))

GInit == vs = <<>> /\ b = <<>> /\ fresh = FALSE /\ tup = 0 /\ asks = <<>> /\ n = 0
GNext == \E k \in {IF P(20) THEN R({1, 2}) ELSE 0} : \E v \in {IF k > 0 THEN RandOf(SubSeq(Tuples[k], 1, R(1..6)), <<>>) ELSE RandValues(R(0..6), <<>>)}, hurt \in {P(Damaged)} :
           /\ n' = n + 1 /\ fresh' = ~hurt /\ tup' = IF hurt THEN 0 ELSE k
           /\ \E x \in {IF hurt THEN HurtN(EncAll(v), L(<<1, 1, 2, 3>>)) ELSE EncAll(v)} :
                /\ b' = x
                /\ vs' = IF hurt THEN Readable(x, 1, <<>>) ELSE v
                /\ \E a \in {Asks(vs', <<>>)} : asks' = a
\* Every marker, followed by payloads of every length.
AllInit == /\ n = 1 /\ fresh = FALSE /\ tup = 0 /\ asks = <<>>
           /\ \E m \in Byte, k \in 0..(AddrLen + 2) : b = <<m>> \o [i \in 1..k |-> (16 * i + 1) % 256]
           /\ vs = Readable(b, 1, <<>>)
AllNext == UNCHANGED vars
Case == [fresh |-> fresh, vs |-> vs, b |-> b, ok |-> DecAll(b).ok, asks |-> asks,
         encs |-> [k \in DOMAIN vs |-> Enc(vs[k])], tup |-> tup,
         max |-> [t \in PrimTypes \ {"none"} |-> MaxSize(t)]]
Emit == n > 0 => PrintT("TRACE" \o ToJson(Case))
=============================================================================
