------------------------------ MODULE CodecGen ------------------------------
(* Random messages of the real format, intact and damaged, with what the     *)
(* specification says about their encoding and decoding.                     *)
EXTENDS Codec, TLC, Json
CONSTANTS GenTypes, Damaged     \* Damaged: how many of 100 cases are damaged
VARIABLES ty, m, b, fresh, want, n
gvars == <<ty, m, b, fresh, want, n>>
R(S) == RandomElement(IF n >= 0 THEN S ELSE {})
L(s) == s[R(1..Len(s))]
P(k) == R(1..100) <= k
\* (built by recursion so that nothing is drawn twice)
RECURSIVE RB(_, _, _)
RB(k, S, acc) == IF k = 0 THEN acc ELSE RB(k - 1, S, Append(acc, R(S)))
RandFix(k) == LET c == R(1..10) IN
  CASE c = 1 -> Zeros(k) [] c = 2 -> [i \in 1..k |-> 255] [] c = 3 -> Zeros(k - 1) \o <<R(Byte)>> [] c = 4 -> <<R(Byte)>> \o Zeros(k - 1)
    [] OTHER -> RB(k, Byte, <<>>)
Len8 == LET c == R(1..20) IN CASE c \in 1..3 -> 0 [] c = 4 -> 255 [] c = 5 -> R(0..255) [] c = 6 -> L(<<127, 128, 254>>) [] OTHER -> R(1..9)
RandBlob8 == RB(Len8, Byte, <<>>)
Len16 == LET c == R(1..40) IN CASE c \in 1..5 -> 0 [] c = 6 -> 255 [] c = 7 -> L(<<256, 257, 300>>) [] OTHER -> R(1..12)
RandBlob16 == IF R(1..300) = 1 THEN LET c == R(Byte) IN [i \in 1..L(<<65535, 65280, 40000>>) |-> c] ELSE RB(Len16, Byte, <<>>)
RandBlob32 == IF R(1..200) = 1 THEN LET c == R(Byte) IN [i \in 1..L(<<65535, 65536, 66000>>) |-> c] ELSE RB(Len16, Byte, <<>>)
Chars == <<<<97>>, <<98>>, <<90>>, <<48>>, <<0>>, <<127>>, <<34>>, <<92>>, <<195, 169>>, <<194, 128>>, <<223, 191>>, <<224, 160, 128>>, <<226, 130, 172>>, <<236, 191, 191>>,
           <<237, 159, 191>>, <<238, 128, 128>>, <<239, 191, 191>>, <<240, 144, 128, 128>>, <<243, 191, 191, 191>>, <<244, 143, 191, 191>>>>
BadChars == <<<<128>>, <<191>>, <<192, 128>>, <<193, 191>>, <<194>>, <<194, 65>>, <<194, 192>>, <<224, 159, 191>>, <<224, 128, 128>>, <<226, 130>>, <<226, 65, 128>>, <<237, 160, 128>>, <<237, 191, 191>>,
              <<240, 143, 191, 191>>, <<240, 144, 128>>, <<243, 128, 128, 65>>, <<244, 144, 128, 128>>, <<245, 128, 128, 128>>, <<248, 136, 128, 128, 128>>, <<254>>, <<255>>>>
RECURSIVE RandChars(_, _, _)
RandChars(k, bad, acc) ==
  IF Len(acc) >= k THEN acc
  ELSE \* the last character may leave some room
       LET c == IF P(bad) THEN L(BadChars) ELSE IF k - Len(acc) < 4 \/ R(1..2) = 1 THEN <<R(97..122)>> ELSE L(Chars) IN
       IF Len(acc) + Len(c) > k THEN acc ELSE RandChars(k, bad, acc \o c)
BadRate == IF Damaged > 0 /\ P(5) THEN 20 ELSE 0
RandText == RandChars(Len8, BadRate, <<>>)
RandLong == RandChars(LET c == R(1..6) IN IF c = 1 THEN R(250..262) ELSE IF c = 2 THEN R(200..400) ELSE Len8, BadRate, <<>>)
RECURSIVE RandLogs(_, _)
RandLogs(k, acc) == IF k = 0 THEN acc ELSE RandLogs(k - 1, Append(acc, RandBlob16))
Logs0 == IF R(1..200) = 1 THEN [i \in 1..255 |-> <<7>>] ELSE RandLogs(L(<<0, 0, 1, 1, 2, 3, 5>>), <<>>)
RECURSIVE RandSet(_, _)
RandSet(k, acc) == IF k = 0 THEN acc ELSE RandSet(k - 1, SortedIns(acc, RandFix(Addr)))
Set0 == RandSet(L(<<0, 1, 1, 2, 3, 6>>), <<>>)
RECURSIVE RandSeq(_, _, _)
RandSeq(k, what, acc) ==
  IF k = 0 THEN acc
  ELSE RandSeq(k - 1, what, Append(acc, IF what = "text" THEN RandText
                                        ELSE IF what = "size" THEN (IF P(80) THEN <<0, R(1..64)>> ELSE RandFix(2))
                                        ELSE LET z == RandSeq(L(<<0, 1, 1, 2, 3, 5, 20>>), "size", <<>>)
                                             IN IF z = <<>> THEN <<Zeros(U32), <<>>>>
                                                ELSE <<IF P(70) THEN <<0, 0, 0, R(0..99)>> ELSE IF P(60) THEN RB(3, Byte, <<R(0..254)>>) ELSE <<255, 255, R({0, 255}), R({0, 1, 235, 254, 255} \cup {256 - Len(z), 255 - Len(z)})>>, z>>))
RandFailure == LET k == R(0..9) a == RandFix(Addr) c == RandFix(Addr) l == Logs0 f == RandText t == RandLong IN
  <<k, CASE k = 0 -> <<l>> [] k \in {1, 2} -> <<l, a>> [] k \in {3, 4} -> <<l, a, c, t>> [] k \in {5, 9} -> <<l, a, c, f>> [] k \in {6, 8} -> <<l, a, c, f, t>> [] k = 7 -> <<l, a, f>> >>
RandReceipt == LET k == R(0..2) a == RandFix(Addr) h == RandFix(Hash) d == RandBlob16 g == RandFix(U64) s == Set0 l == Logs0 IN
  <<<<k, <<Zeros(U16), IF P(55) THEN <<0, <<RandFailure>>>>
                       ELSE <<1, CASE k = 0 -> <<a, g, l>> [] k = 1 -> <<a, h, d, g, s, l>> [] k = 2 -> <<h, d, g, s, l>> >> >> >> >>
RandSec(k) == <<k, CASE k = 1 -> <<BE(1, U16), RandFix(U64), BE(1, U64), RandFix(U32), RandBlob32>>
                     [] k = 2 -> <<RandSeq(L(<<0, 1, 1, 1, 2, 3, 7>>), "layout", <<>>)>>
                     [] k = 3 -> <<RandSeq(IF R(1..100) = 1 THEN 255 ELSE L(<<0, 1, 2, 2, 3, 9>>), "text", <<>>)>>
                     [] k \in {4, 5} -> <<RB(R(0..9), Byte, <<>>)>>
                     [] k = 6 -> <<RandFix(U32), RandText, RandText>>
                     [] k = 7 -> <<RandFix(Hash), RandFix(U64), RandFix(Addr), RandFix(Addr)>> >>
RECURSIVE RandSecs(_, _)
RandSecs(ks, acc) == IF ks = <<>> THEN acc ELSE RandSecs(Tail(ks), Append(acc, RandSec(Head(ks))))
RECURSIVE Shuffle(_, _)
Shuffle(s, acc) == IF s = <<>> THEN acc ELSE LET i == R(1..Len(s)) IN Shuffle(SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s)), Append(acc, s[i]))
SetSeq(S) == CHOOSE s \in [1..Cardinality(S) -> S] : \A x \in S : \E i \in DOMAIN s : s[i] = x
RandKinds == LET core == IF P(90) THEN {1, 2, 3} ELSE {R(1..3), R(1..3)}
                 more == (IF P(50) THEN {6} ELSE {}) \cup (IF P(40) THEN {7} ELSE {})
                 odd == IF Damaged > 0 /\ P(15) THEN {R({4, 5})} ELSE {}
                 ks == Shuffle(SetSeq(core \cup more \cup odd), <<>>)
             IN IF P(30) THEN SetSeq(core \cup more \cup odd) ELSE IF Damaged > 0 /\ P(10) THEN Shuffle(ks \o <<R({1, 2, 3, 6, 7})>>, <<>>) ELSE ks
RandMsg(t) ==
  CASE t = "envelope" -> <<RandFix(Addr), RandFix(U64), RandFix(U128), RandFix(U64), RandFix(U64)>>
    [] t = "context" -> <<RandFix(Hash), RandFix(U64), RandFix(Hash)>>
    [] t = "call" -> <<RandFix(U16), RandFix(Addr), RandText, RandBlob8, RandBlob8>>
    [] t = "spawn" -> <<RandFix(U16), RandFix(Addr), RandText, RandText, RandBlob8>>
    [] t = "receipt" -> RandReceipt
    [] OTHER -> RandSecs(RandKinds, <<>>)
\* Damage
Pos(x) == IF P(50) THEN R(1..(IF Len(x) > 40 THEN 40 ELSE Len(x))) ELSE R(1..Len(x))
Odd == L(<<0, 1, 2, 3, 4, 7, 8, 9, 127, 128, 194, 254, 255, R(Byte)>>)
Hurt(x) == LET c == R(1..12) i == IF x = <<>> THEN 0 ELSE Pos(x) IN
  CASE c \in 1..5 /\ i > 0 -> [x EXCEPT ![i] = Odd]
    [] c \in 6..7 -> SubSeq(x, 1, i) \o <<Odd>> \o SubSeq(x, i + 1, Len(x))
    [] c \in 8..9 /\ i > 0 -> SubSeq(x, 1, i - 1) \o SubSeq(x, i + 1, Len(x))
    [] c = 10 -> SubSeq(x, 1, i)
    [] c = 11 -> x \o RB(R(1..5), Byte, <<>>)
    [] c = 12 -> RB(R(0..60), {0, 1, 2, 3, 255}, <<>>)
    [] OTHER -> x
RECURSIVE HurtN(_, _)
HurtN(x, k) == IF k = 0 THEN x ELSE HurtN(Hurt(x), k - 1)
\* Sections announced with a wrong size or kind.
Announced(s) == LET body == EncAll(Section[s[1]], s[2]) d == L(<<0, 0, 0, 1, 2, 200>>) k == IF P(95) THEN s[1] ELSE L(<<0, 8, 255, 256, 257, 258, 65535>>) IN
                IF P(30) THEN BE(k, U16) \o BE(Len(body) + d, U32) \o body
                ELSE IF P(20) /\ Len(body) > 0 THEN BE(k, U16) \o BE(Len(body) - 1, U32) \o body
                ELSE IF P(5) THEN BE(k, U16) \o <<R({128, 127, 1}), 0, 0, 0>> \o body
                ELSE BE(s[1], U16) \o BE(Len(body), U32) \o body
RECURSIVE AnnouncedAll(_, _)
AnnouncedAll(ss, acc) == IF ss = <<>> THEN acc ELSE AnnouncedAll(Tail(ss), acc \o Announced(Head(ss)))
RandWant(t) == IF t \in Plain \/ P(50) THEN Kinds ELSE IF P(40) THEN {k \in Kinds : k \in Core} \cup {R(4..7)} ELSE {k \in {R(Kinds), R(Kinds), R(Kinds), R(Kinds)} : TRUE}

GInit == ty = "" /\ m = <<>> /\ b = <<>> /\ fresh = FALSE /\ want = {} /\ n = 0
RECURSIVE DropDup(_, _)
DropDup(ss, acc) == IF ss = <<>> THEN acc ELSE DropDup(Tail(ss), Put(acc, Head(ss)))
NoOdd(ss) == \A i \in DOMAIN ss : ss[i][1] \notin {4, 5}
\* Texts that are no texts cannot be in a message.
RECURSIVE TextsOk(_, _), AllTextsOk(_, _)
AllTextsOk(fs, vs) == \A i \in 1..Len(fs) : TextsOk(fs[i], vs[i])
TextsOk(f, v) == CASE f.t \in {"text", "clip"} -> Utf8(v)
                   [] f.t = "choice" -> AllTextsOk(f.opts[v[1] + 1], v[2])
                   [] f.t = "list" -> \A i \in DOMAIN v : TextsOk(f.f, v[i])
                   [] f.t = "layout" -> v[2] = <<>> \/ AddsUp(v[1], Len(v[2]))
                   [] OTHER -> TRUE
Proper(t, v) == IF t \in Plain THEN AllTextsOk(Format(t), v) ELSE NoOdd(v) /\ \A i \in DOMAIN v : AllTextsOk(Section[v[i][1]], v[i][2])
GNextW ==
  \E t \in {R(GenTypes)} : \E v \in {RandMsg(t)}, hurt \in {P(Damaged)} : \E w \in {RandWant(t)} :
    /\ ty' = t /\ n' = n + 1 /\ want' = w
    /\ IF hurt \/ ~Proper(t, v) THEN
         /\ m' = <<>> /\ fresh' = FALSE
         /\ \E x \in {IF t \notin Plain /\ P(50) THEN BE(IF P(90) THEN Len(v) ELSE R(0..9), U16) \o AnnouncedAll(v, <<>>) ELSE Encode(t, v)} :
              b' = IF ~Proper(t, v) \/ (t \notin Plain /\ P(40)) THEN x ELSE HurtN(x, L(<<1, 1, 1, 2, 3>>))
       ELSE \E d \in {IF t \in Plain THEN v ELSE DropDup(v, <<>>)} : m' = d /\ b' = Encode(t, d) /\ fresh' = TRUE
RECURSIVE SortSet(_)
SortSet(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x <= y IN <<x>> \o SortSet(S \ {x})
Case == LET r == Decode(ty, want, b) IN
        [ty |-> ty, fresh |-> fresh, m |-> m, b |-> b, all |-> want = Kinds, want |-> SortSet(want), ok |-> r.ok, v |-> r.v, used |-> r.i - 1]
Emit == n > 0 => PrintT("TRACE" \o ToJson(Case))
=============================================================================
