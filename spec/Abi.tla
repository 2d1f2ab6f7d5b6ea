--------------------------------- MODULE Abi --------------------------------
(* How function arguments and results are written as bytes.                  *)
(*                                                                           *)
(* A value has a type, its payload (a number is its bits, the most           *)
(* significant byte first, in as many bytes as its type has) and, for an     *)
(* array, its elements.  An encoded value is a marker, which tells the type  *)
(* and the length, and the payload without its leading zero bytes.           *)
EXTENDS Naturals, Sequences
CONSTANTS AddrLen       \* bytes of an address, 20 in reality
MaxArray == 10

\* Numbers: the bytes of the type and the marker of one byte of payload.
Width == [amount |-> 8, i8 |-> 1, u8 |-> 1, i16 |-> 2, u16 |-> 2, i32 |-> 4, u32 |-> 4, i64 |-> 8, u64 |-> 8]
Base == [amount |-> 1, i8 |-> 2, u8 |-> 18, i16 |-> 34, u16 |-> 66, i32 |-> 3, u32 |-> 67, i64 |-> 4, u64 |-> 5]
NumTypes == DOMAIN Width
PrimTypes == NumTypes \cup {"bool", "none", "unit", "address"}
Prim(t, b) == [t |-> t, b |-> b, e |-> <<>>]
Arr(e) == [t |-> "array", b |-> <<>>, e |-> e]

ArrMarker(n) == IF n < 8 THEN 16 * n + 6 ELSE 16 * (n - 8) + 7
ArrLens == 0..MaxArray
Zeros(n) == [i \in 1..n |-> 0]
RECURSIVE Trim(_)
Trim(b) == IF Len(b) > 1 /\ Head(b) = 0 THEN Trim(Tail(b)) ELSE b

------------------------------------------------------------------ \* encoding
EncPrim(v) ==
  CASE v.t = "bool" -> <<16 * v.b[1]>>
    [] v.t = "none" -> <<32>>
    [] v.t = "unit" -> <<48>>
    [] v.t = "address" -> <<64>> \o v.b
    [] OTHER -> LET p == Trim(v.b) IN <<Base[v.t] + 16 * (Len(p) - 1)>> \o p
RECURSIVE EncPrims(_)
EncPrims(vs) == IF vs = <<>> THEN <<>> ELSE EncPrim(Head(vs)) \o EncPrims(Tail(vs))
Enc(v) == IF v.t = "array" THEN <<ArrMarker(Len(v.e))>> \o EncPrims(v.e) ELSE EncPrim(v)
RECURSIVE EncAll(_)
EncAll(vs) == IF vs = <<>> THEN <<>> ELSE Enc(Head(vs)) \o EncAll(Tail(vs))
\* The room a value of a type may need.
MaxSize(t) == CASE t \in NumTypes -> 1 + Width[t] [] t = "address" -> 1 + AddrLen [] OTHER -> 1
MaxArraySize(t, n) == 1 + n * MaxSize(t)

------------------------------------------------------------------ \* decoding
Err == [ok |-> FALSE, v |-> <<>>, i |-> 0]
Ok(v, i) == [ok |-> TRUE, v |-> v, i |-> i]
Kind(m) == [t |-> IF \E t \in NumTypes : \E n \in 1..Width[t] : m = Base[t] + 16 * (n - 1)
                  THEN CHOOSE t \in NumTypes : \E n \in 1..Width[t] : m = Base[t] + 16 * (n - 1)
                  ELSE CASE m \in {0, 16} -> "bool" [] m = 32 -> "none" [] m = 48 -> "unit" [] m = 64 -> "address"
                         [] \E n \in ArrLens : m = ArrMarker(n) -> "array"
                         [] OTHER -> "bad"]
\* The value that starts at i.
DecPrim(b, i) ==
  IF i > Len(b) THEN Err ELSE
  LET m == b[i] t == Kind(m).t IN
  IF t \in NumTypes THEN
    LET n == (m - Base[t]) \div 16 + 1 IN
    IF i + n > Len(b) THEN Err ELSE Ok(Prim(t, Zeros(Width[t] - n) \o SubSeq(b, i + 1, i + n)), i + n + 1)
  ELSE CASE t = "bool" -> Ok(Prim(t, <<m \div 16>>), i + 1)
         [] t \in {"none", "unit"} -> Ok(Prim(t, <<>>), i + 1)
         [] t = "address" -> IF i + AddrLen > Len(b) THEN Err ELSE Ok(Prim(t, SubSeq(b, i + 1, i + AddrLen)), i + AddrLen + 1)
         [] OTHER -> Err     \* arrays hold no arrays
RECURSIVE DecPrims(_, _, _, _)
DecPrims(n, b, i, acc) == IF n = 0 THEN Ok(acc, i) ELSE
                          LET r == DecPrim(b, i) IN IF r.ok THEN DecPrims(n - 1, b, r.i, Append(acc, r.v)) ELSE Err
Dec(b, i) == IF i > Len(b) THEN Err
             ELSE IF Kind(b[i]).t = "array"
                  THEN LET n == CHOOSE n \in ArrLens : b[i] = ArrMarker(n) r == DecPrims(n, b, i + 1, <<>>) IN
                       IF r.ok THEN Ok(Arr(r.v), r.i) ELSE Err
                  ELSE DecPrim(b, i)
RECURSIVE DecFrom(_, _, _)
DecFrom(b, i, acc) == IF i > Len(b) THEN Ok(acc, i) ELSE LET r == Dec(b, i) IN IF r.ok THEN DecFrom(b, r.i, Append(acc, r.v)) ELSE Err
DecAll(b) == DecFrom(b, 1, <<>>)
\* The values before the first that cannot be decoded.
RECURSIVE Readable(_, _, _)
Readable(b, i, acc) == IF i > Len(b) THEN acc ELSE LET r == Dec(b, i) IN IF r.ok THEN Readable(b, r.i, Append(acc, r.v)) ELSE acc

\* Whether a value can be read as a type: nothing is converted.  A type is
\* [t, n, opt]: t itself, an array of n of them unless n is 99, possibly missing.
Fits(v, t, n, opt) == IF n \in ArrLens THEN v.t = "array" /\ Len(v.e) = n /\ \A k \in 1..n : v.e[k].t = t
                      ELSE v.t = t \/ (opt /\ v.t = "none")
=============================================================================
