------------------------------- MODULE CodecMC ------------------------------
(* Messages with narrow fields are sent and damaged on the way.              *)
EXTENDS Codec
CONSTANTS MaxEdits, MaxWild, Damage
VARIABLES ty, m, b, edits
vars == <<ty, m, b, edits>>
Alphabet == {0, 1, 2, 128, 194}
S(B, n) == UNION {[1..k -> B] : k \in 0..n}
Texts == {s \in S({65, 128, 194}, 2) : Utf8(s)}
LongTexts == {s \in S({65, 128, 194, 226}, 4) : Utf8(s)}
One(B) == {<<x>> : x \in B}
Wd(B) == IF U16 = 1 THEN One(B) ELSE {}
SmallLogs == S(S({7}, 1), 2)
Pairs(A, B) == {<<x, y>> : x \in A, y \in B}
FailureOf(k) ==
  CASE k = 0 -> {<<l>> : l \in SmallLogs}
    [] k \in {1, 2} -> {<<l, a>> : l \in SmallLogs, a \in One({0, 5})}
    [] k \in {3, 4} -> {<<l, <<1>>, <<2>>, t>> : l \in SmallLogs, t \in LongTexts}
    [] k \in {5, 9} -> {<<l, <<1>>, <<2>>, t>> : l \in SmallLogs, t \in Texts}
    [] k \in {6, 8} -> {<<l, <<1>>, <<2>>, f, t>> : l \in S(S({7}, 1), 1), f \in Texts, t \in LongTexts}
    [] k = 7 -> {<<l, <<1>>, f>> : l \in SmallLogs, f \in Texts}
SuccessOf(n) ==
  CASE n = 0 -> {<<a, g, l>> : a \in One({1, 2}), g \in One({0, 9}), l \in SmallLogs}
    [] n = 1 -> {<<<<1>>, <<2>>, r, <<3>>, t, l>> : r \in S({1, 2}, 2), t \in {<<>>, <<<<1>>>>, <<<<1>>, <<4>>>>}, l \in SmallLogs}
    [] n = 2 -> {<<<<2>>, r, g, t, l>> : r \in S({1, 2}, 2), g \in One({0, 9}), t \in {<<>>, <<<<1>>>>, <<<<1>>, <<4>>>>}, l \in SmallLogs}
SecOf(k) ==
  CASE k = 1 -> {<<<<1>>, fl, <<1>>, ve, c>> : fl \in One({0, 1}), ve \in One({0}), c \in S({1, 3}, 2)}
    [] k = 2 -> {<<l>> : l \in {<<>>, <<<<<<0>>, <<>>>>>>, <<<<<<3>>, <<<<1>>, <<4>>>>>>, <<<<0>>, <<>>>>>>, <<<<<<253>>, <<<<1>>, <<1>>>>>>>>}}
    [] k = 3 -> {<<l>> : l \in S({<<>>, <<65>>}, 2)}
    [] k = 6 -> {<<<<1>>, s, t>> : s \in Texts, t \in {<<>>, <<65>>}}
    [] k = 7 -> {<<<<1>>, <<2>>, <<3>>, a>> : a \in One({1, 2})}
SecMsgs == LET Seqs == {<<>>, <<1>>, <<2, 3>>, <<1, 2, 3>>, <<3, 6, 2, 1>>, <<7, 2>>} IN
           UNION {LET P == {q \in [1..Len(ks) -> UNION {{<<k, x>> : x \in SecOf(k)} : k \in {ks[j] : j \in 1..Len(ks)}}] : \A j \in 1..Len(ks) : q[j][1] = ks[j]} IN P : ks \in Seqs}
Init1 ==
  \/ ty = "envelope" /\ m \in {<<a, x, y, z, w>> : a \in One({0, 1}), x \in One({0, 2}), y \in One({1}), z \in One({0, 3}), w \in One({4})}
  \/ ty = "context" /\ m \in {<<a, x, y>> : a \in One({0, 1}), x \in One({0, 2}), y \in One({1, 7})}
  \/ ty = "call" /\ m \in {<<v, <<9>>, f, x, y>> : v \in One({0, 1}), f \in Texts, x \in S({1, 200}, 2), y \in S({0}, 1)}
  \/ ty = "spawn" /\ m \in {<<v, <<9>>, f, g, y>> : v \in One({0, 1}), f \in Texts, g \in Texts, y \in S({0, 200}, 2)}
  \/ ty = "receipt" /\ \E n \in 0..2 : \E k \in 0..9 : \E x \in FailureOf(k) : m = <<<<n, <<<<0>>, <<0, <<<<k, x>>>>>>>>>>>>
  \/ ty = "receipt" /\ \E n \in 0..2 : \E x \in SuccessOf(n) : m = <<<<n, <<<<0>>, <<1, x>>>>>>>>
SmallSec(k) == CASE k = 1 -> {<<<<1>>, <<0>>, <<1>>, <<0>>, c>> : c \in {<<>>, <<3>>}}
                 [] k = 3 -> {<<l>> : l \in {<<>>, <<<<65>>>>}}
                 [] k = 6 -> {<<<<1>>, <<65>>, <<>>>>}
                 [] OTHER -> SecOf(k)
Init2 == ty \in {"sections", "template"} /\
         \/ m = <<>>
         \/ \E k \in {1, 2, 3, 6, 7} : \E x \in SecOf(k) : m = <<<<k, x>>>>
         \/ \E x \in SecOf(1), y \in SecOf(2), z \in SecOf(3) : m = <<<<1, x>>, <<2, y>>, <<3, z>>>>
         \/ \E x \in SmallSec(1), y \in SmallSec(2), z \in SmallSec(3), h \in SmallSec(6) : m = <<<<6, h>>, <<3, z>>, <<2, y>>, <<1, x>>>>
         \/ \E y \in SmallSec(2), z \in SmallSec(7) : m = <<<<7, z>>, <<2, y>>>>
MInit == (Init1 \/ Init2) /\ b = Encode(ty, m) /\ edits = 0
\* The bytes may be damaged ...
Edit == /\ edits < MaxEdits /\ edits' = edits + 1 /\ UNCHANGED <<ty, m>>
        /\ \/ \E i \in 1..Len(b), x \in Damage : b' = [b EXCEPT ![i] = x]
           \/ \E i \in 0..Len(b), x \in Damage : b' = SubSeq(b, 1, i) \o <<x>> \o SubSeq(b, i + 1, Len(b))
           \/ \E i \in 1..Len(b) : b' = SubSeq(b, 1, i - 1) \o SubSeq(b, i + 1, Len(b))
           \/ \E i \in 0..(Len(b) - 1) : b' = SubSeq(b, 1, i)
\* ... or anything at all.
WInit == ty \in {"call", "spawn", "sections"} /\ m = <<>> /\ b = <<>> /\ edits = 99
Grow == edits = 99 /\ Len(b) < MaxWild /\ \E x \in Alphabet : b' = Append(b, x) /\ UNCHANGED <<ty, m, edits>>
MSpec == MInit /\ [][Edit]_vars
WSpec == WInit /\ [][Grow]_vars

D(x) == Decode(ty, Kinds, x)
Decodable == ty = "template" => HasCore(m)
RoundTrip == edits = 0 => D(b) = IF Decodable THEN Ok(Kept(ty, m), Len(b) + 1) ELSE Err
PrefixFails == edits = 0 => \A n \in 0..(Len(b) - 1) : ~D(SubSeq(b, 1, n)).ok
Partial == edits = 0 /\ ty = "sections" => \A want \in SUBSET Kinds : Decode(ty, want, b) = Ok(Restrict(m, want), Len(b) + 1)
Delimited == LET r == D(b) IN r.ok => r.i <= Len(b) + 1 /\ D(SubSeq(b, 1, r.i - 1)) = r /\ \A x \in {0, 255} : D(Append(b, x)) = r
Canonical == LET r == D(b) IN r.ok => LET e == Encode(ty, r.v) IN
                /\ D(e) = Ok(r.v, Len(e) + 1)
                /\ ty \in Plain \ {"receipt"} => e = SubSeq(b, 1, r.i - 1)
=============================================================================
