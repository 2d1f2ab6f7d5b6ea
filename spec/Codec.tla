-------------------------------- MODULE Codec -------------------------------
(* The binary format of messages and receipts.                               *)
(*                                                                           *)
(* A format is a sequence of fields; Enc and Dec are the only definitions    *)
(* that say what a field looks like.  Bytes are numbers, a value is a byte   *)
(* sequence, a text (its UTF-8 bytes), a list of values, or a choice.        *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS U16, U32, U64, U128, Addr, Hash,  \* widths in bytes; 2, 4, 8, 16, 20 and 32 in reality
          MaxText                           \* the longest text, 255 in reality
Byte == 0..255
Huge == 16777216    \* longer than any input

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Zeros(n) == [i \in 1..n |-> 0]
\* A number in w bytes, the most significant one first.
RECURSIVE BE(_, _)
BE(x, w) == IF w = 0 THEN <<>> ELSE BE(x \div 256, w - 1) \o <<x % 256>>
RECURSIVE NumOf(_, _, _)
NumOf(b, i, acc) == IF i > Len(b) THEN acc ELSE IF acc > 65535 THEN Huge ELSE NumOf(b, i + 1, acc * 256 + b[i])
Num(b) == NumOf(b, 1, 0)
RECURSIVE Lex(_, _)
Lex(a, b) == IF a = <<>> \/ b = <<>> THEN a = <<>> /\ b # <<>>
             ELSE Head(a) < Head(b) \/ (Head(a) = Head(b) /\ Lex(Tail(a), Tail(b)))

--------------------------------------------------------------------- \* text
Cont(s, i, lo, hi) == i <= Len(s) /\ s[i] \in lo..hi
C(s, i) == Cont(s, i, 128, 191)
RECURSIVE Utf8From(_, _)
Utf8From(s, i) ==
  IF i > Len(s) THEN TRUE ELSE
  LET c == s[i] IN
  CASE c < 128 -> Utf8From(s, i + 1)
    [] c \in 194..223 -> C(s, i + 1) /\ Utf8From(s, i + 2)
    [] c = 224 -> Cont(s, i + 1, 160, 191) /\ C(s, i + 2) /\ Utf8From(s, i + 3)
    [] c \in (225..236 \cup 238..239) -> C(s, i + 1) /\ C(s, i + 2) /\ Utf8From(s, i + 3)
    [] c = 237 -> Cont(s, i + 1, 128, 159) /\ C(s, i + 2) /\ Utf8From(s, i + 3)
    [] c = 240 -> Cont(s, i + 1, 144, 191) /\ C(s, i + 2) /\ C(s, i + 3) /\ Utf8From(s, i + 4)
    [] c \in 241..243 -> C(s, i + 1) /\ C(s, i + 2) /\ C(s, i + 3) /\ Utf8From(s, i + 4)
    [] c = 244 -> Cont(s, i + 1, 128, 143) /\ C(s, i + 2) /\ C(s, i + 3) /\ Utf8From(s, i + 4)
    [] OTHER -> FALSE
Utf8(s) == Utf8From(s, 1)
\* The longest beginning of a text that is not too long and does not split a character.
ClipLen(s) == IF Len(s) <= MaxText THEN Len(s)
              ELSE CHOOSE n \in 0..MaxText : s[n + 1] \notin 128..191 /\ \A k \in (n + 1)..MaxText : s[k + 1] \in 128..191
Clip(s) == SubSeq(s, 1, ClipLen(s))

------------------------------------------------------------------- \* fields
Fix(n) == [t |-> "fix", n |-> n]                  \* exactly n bytes
Const(b) == [t |-> "const", b |-> b]              \* these bytes
Blob(w) == [t |-> "blob", w |-> w]                \* its length in w bytes, then the bytes
Text == [t |-> "text"]                            \* its length in one byte, then UTF-8
Clipped == [t |-> "clip"]                         \* a text that is shortened if necessary
List(w, f) == [t |-> "list", w |-> w, f |-> f]    \* the number of elements in w bytes, then the elements
AddrSet == [t |-> "set"]                          \* a set of addresses, as a sorted list
Choice(opts) == [t |-> "choice", opts |-> opts]   \* one byte, then the fields it selects
Layout == [t |-> "layout"]                        \* the variables of a template
Never == [t |-> "never"]                          \* not implemented

RECURSIVE Enc(_, _), EncAll(_, _)
EncAll(fs, vs) == Cat([i \in 1..Len(fs) |-> Enc(fs[i], vs[i])])
Enc(f, v) ==
  CASE f.t = "fix" -> v
    [] f.t = "const" -> f.b
    [] f.t = "blob" -> BE(Len(v), f.w) \o v
    [] f.t = "text" -> <<Len(v)>> \o v
    [] f.t = "clip" -> <<ClipLen(v)>> \o Clip(v)
    [] f.t = "list" -> BE(Len(v), f.w) \o Cat([i \in 1..Len(v) |-> Enc(f.f, v[i])])
    [] f.t = "set" -> BE(Len(v), U16) \o Cat(v)
    [] f.t = "choice" -> <<v[1]>> \o EncAll(f.opts[v[1] + 1], v[2])
    [] f.t = "never" -> v
    [] f.t = "layout" -> BE(1, U16) \o BE(Len(v[2]), U16) \o (IF v[2] = <<>> THEN <<>> ELSE v[1] \o Cat(v[2]))

\* Decoding b from position i on yields a value and the position after it, or an error.
Err == [ok |-> FALSE, v |-> <<>>, i |-> 0]
Ok(v, i) == [ok |-> TRUE, v |-> v, i |-> i]
Take(b, i, n) == IF n > Len(b) - i + 1 THEN Err ELSE Ok(SubSeq(b, i, i + n - 1), i + n)
RECURSIVE SortedIns(_, _)
SortedIns(s, x) == IF s = <<>> THEN <<x>> ELSE IF s[1] = x THEN s ELSE IF Lex(x, s[1]) THEN <<x>> \o s ELSE <<s[1]>> \o SortedIns(Tail(s), x)
RECURSIVE Sorted(_)
Sorted(s) == IF s = <<>> THEN <<>> ELSE SortedIns(Sorted(Tail(s)), Head(s))
\* The first variable and their number must stay within 32 bits.
RECURSIVE AddsUp(_, _)
AddsUp(b, n) == IF b = <<>> THEN n = 0 ELSE LET x == b[Len(b)] + n IN AddsUp(SubSeq(b, 1, Len(b) - 1), x \div 256)

RECURSIVE Dec(_, _, _), DecAll(_, _, _, _, _), DecList(_, _, _, _, _)
DecAll(fs, k, b, i, acc) ==
  IF k > Len(fs) THEN Ok(acc, i) ELSE LET r == Dec(fs[k], b, i) IN IF r.ok THEN DecAll(fs, k + 1, b, r.i, Append(acc, r.v)) ELSE Err
DecList(f, n, b, i, acc) ==
  IF n = 0 THEN Ok(acc, i) ELSE LET r == Dec(f, b, i) IN IF r.ok THEN DecList(f, n - 1, b, r.i, Append(acc, r.v)) ELSE Err
DecBlob(w, b, i) == LET l == Take(b, i, w) IN IF l.ok THEN Take(b, l.i, Num(l.v)) ELSE Err
Dec(f, b, i) ==
  CASE f.t = "fix" -> Take(b, i, f.n)
    [] f.t = "const" -> LET r == Take(b, i, Len(f.b)) IN IF r.ok /\ r.v = f.b THEN r ELSE Err
    [] f.t = "blob" -> DecBlob(f.w, b, i)
    [] f.t \in {"text", "clip"} -> LET r == DecBlob(1, b, i) IN IF r.ok /\ Len(r.v) <= MaxText /\ Utf8(r.v) THEN r ELSE Err
    [] f.t = "list" -> LET l == Take(b, i, f.w) IN IF l.ok THEN DecList(f.f, Num(l.v), b, l.i, <<>>) ELSE Err
    [] f.t = "set" -> LET l == Take(b, i, U16) r == IF l.ok THEN DecList(Fix(Addr), Num(l.v), b, l.i, <<>>) ELSE Err
                      IN IF r.ok THEN Ok(Sorted(r.v), r.i) ELSE Err
    [] f.t = "choice" -> LET c == Take(b, i, 1) IN
                         IF ~c.ok \/ c.v[1] >= Len(f.opts) THEN Err
                         ELSE LET r == DecAll(f.opts[c.v[1] + 1], 1, b, c.i, <<>>) IN IF r.ok THEN Ok(<<c.v[1], r.v>>, r.i) ELSE Err
    [] f.t = "layout" -> LET k == Dec(Const(BE(1, U16)), b, i)
                             l == IF k.ok THEN Take(b, k.i, U16) ELSE Err IN
                         IF ~l.ok THEN Err
                         ELSE IF Num(l.v) = 0 THEN Ok(<<Zeros(U32), <<>>>>, l.i)
                         ELSE LET a == Take(b, l.i, U32) IN
                              IF ~a.ok \/ ~AddsUp(a.v, Num(l.v)) THEN Err
                              ELSE LET r == DecList(Fix(U16), Num(l.v), b, a.i, <<>>) IN IF r.ok THEN Ok(<<a.v, r.v>>, r.i) ELSE Err
    [] f.t = "never" -> Err

------------------------------------------------------------------ \* formats
Logs == List(1, Blob(U16))
Failure == Choice(<<
  <<Logs>>,                                               \* out of gas
  <<Logs, Fix(Addr)>>,                                    \* no such template
  <<Logs, Fix(Addr)>>,                                    \* no such account
  <<Logs, Fix(Addr), Fix(Addr), Clipped>>,                \* compilation failed
  <<Logs, Fix(Addr), Fix(Addr), Clipped>>,                \* instantiation failed
  <<Logs, Fix(Addr), Fix(Addr), Text>>,                   \* no such function
  <<Logs, Fix(Addr), Fix(Addr), Text, Clipped>>,          \* the function failed
  <<Logs, Fix(Addr), Text>>,                              \* not a constructor
  <<Logs, Fix(Addr), Fix(Addr), Text, Clipped>>,          \* not allowed
  <<Logs, Fix(Addr), Fix(Addr), Text>> >>)                \* wrong type
Version0 == Const(Zeros(U16))
Receipt == Choice(<<
  <<Version0, Choice(<<<<Failure>>, <<Fix(Addr), Fix(U64), Logs>>>>)>>,                                           \* deployment
  <<Version0, Choice(<<<<Failure>>, <<Fix(Addr), Fix(Hash), Blob(U16), Fix(U64), AddrSet, Logs>>>>)>>,            \* spawn
  <<Version0, Choice(<<<<Failure>>, <<Fix(Hash), Blob(U16), Fix(U64), AddrSet, Logs>>>>)>> >>)                    \* call
Section == <<
  <<Const(BE(1, U16)), Fix(U64), Const(BE(1, U64)), Fix(U32), Blob(U32)>>,   \* 1 code: kind, flags, gas mode, version, code
  <<List(U16, Layout)>>,                                                     \* 2 data
  <<List(1, Text)>>,                                                         \* 3 constructors
  <<Never>>, <<Never>>,                                                      \* 4 schema, 5 interface
  <<Fix(U32), Text, Text>>,                                                  \* 6 header: version, name, description
  <<Fix(Hash), Fix(U64), Fix(Addr), Fix(Addr)>> >>                           \* 7 deployment: transaction, layer, deployer, template
Kinds == 1..7
Core == {1, 2, 3}
Format(ty) ==
  CASE ty = "envelope" -> <<Fix(Addr), Fix(U64), Fix(U128), Fix(U64), Fix(U64)>>   \* principal, amount, nonce, gas limit (0: none), gas fee
    [] ty = "context" -> <<Fix(Hash), Fix(U64), Fix(Hash)>>                         \* transaction, layer, state
    [] ty = "call" -> <<Fix(U16), Fix(Addr), Text, Blob(1), Blob(1)>>               \* version, target, function, verify data, call data
    [] ty = "spawn" -> <<Fix(U16), Fix(Addr), Text, Text, Blob(1)>>                 \* version, template, name, constructor, call data
    [] ty = "receipt" -> <<Receipt>>
Plain == {"envelope", "context", "call", "spawn", "receipt"}
Types == Plain \cup {"sections", "template"}

\* Sections: each is announced by its kind and its size.
SecEnc(s) == LET body == EncAll(Section[s[1]], s[2]) IN BE(s[1], U16) \o BE(Len(body), U32) \o body
\* A section replaces an earlier one of the same kind.
Put(ss, s) == IF \E j \in DOMAIN ss : ss[j][1] = s[1] THEN [j \in DOMAIN ss |-> IF ss[j][1] = s[1] THEN s ELSE ss[j]] ELSE Append(ss, s)
RECURSIVE DecSecs(_, _, _, _, _)
DecSecs(n, want, b, i, acc) ==
  IF n = 0 THEN Ok(acc, i) ELSE
  LET k == Take(b, i, U16) z == IF k.ok THEN Take(b, k.i, U32) ELSE Err IN
  IF ~z.ok \/ Num(k.v) \notin Kinds THEN Err
  ELSE IF Num(k.v) \in want THEN LET r == DecAll(Section[Num(k.v)], 1, b, z.i, <<>>) IN
                                 IF r.ok THEN DecSecs(n - 1, want, b, r.i, Put(acc, <<Num(k.v), r.v>>)) ELSE Err
  ELSE LET r == Take(b, z.i, Num(z.v)) IN IF r.ok THEN DecSecs(n - 1, want, b, r.i, acc) ELSE Err
HasCore(ss) == \A k \in Core : \E j \in DOMAIN ss : ss[j][1] = k

\* A whole message, and its decoding (want: the sections to decode).
Encode(ty, m) == IF ty \in Plain THEN EncAll(Format(ty), m) ELSE BE(Len(m), U16) \o Cat([i \in 1..Len(m) |-> SecEnc(m[i])])
Decode(ty, want, b) ==
  IF ty \in Plain THEN DecAll(Format(ty), 1, b, 1, <<>>)
  ELSE LET c == Take(b, 1, U16)
           r == IF c.ok THEN DecSecs(Num(c.v), want, b, c.i, <<>>) ELSE Err
       IN IF r.ok /\ ty = "template" /\ ~HasCore(r.v) THEN Err ELSE r

\* What remains of a message after encoding and decoding: overlong error texts are shortened.
RECURSIVE Shortened(_, _), ShortAll(_, _)
ShortAll(fs, vs) == [i \in 1..Len(fs) |-> Shortened(fs[i], vs[i])]
Shortened(f, v) == CASE f.t = "clip" -> Clip(v)
                     [] f.t = "choice" -> <<v[1], ShortAll(f.opts[v[1] + 1], v[2])>>
                     [] OTHER -> v
Kept(ty, m) == IF ty \in Plain THEN ShortAll(Format(ty), m) ELSE m
Restrict(m, want) == LET Test(s) == s[1] \in want IN SelectSeq(m, Test)
=============================================================================
