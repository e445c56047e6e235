------------------------------- MODULE Bytes -------------------------------
(* Byte sequences and text (sequences of Unicode code points).             *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Byte == 0..255

(* little-endian 16-bit field; the tool truncates to 16 bits *)
LE16(n) == << n % 256, (n \div 256) % 256 >>
Word(lo, hi) == lo + 256 * hi

SumOf(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Sum16(s) == SumOf(s) % 65536

Zeros(n) == [i \in 1..n |-> 0]
PadTo(s, n) == IF Len(s) >= n THEN s ELSE s \o Zeros(n - Len(s))
NonZero(s) == SelectSeq(s, LAMBDA b : b # 0)

(* s with the elements from position i on (1-based) replaced by those of r *)
Splice(s, i, r) == SubSeq(s, 1, i - 1) \o r \o SubSeq(s, i + Len(r), Len(s))

(* the sequences of ss one after the other; halving keeps TLC's recursion shallow *)
RECURSIVE ConcatFrom(_, _, _)
ConcatFrom(ss, a, b) ==
    IF a > b THEN << >>
    ELSE IF a = b THEN ss[a]
    ELSE LET m == (a + b) \div 2 IN TLCEval(ConcatFrom(ss, a, m) \o ConcatFrom(ss, m + 1, b))
Concat(ss) == LET u == TLCEval(ss) IN ConcatFrom(u, 1, Len(u))

(* ---- text ---- *)
LF == 10
CR == 13
IsUpper(c) == c \in 65..90
IsLower(c) == c \in 97..122
IsAlpha(c) == IsUpper(c) \/ IsLower(c)
AllAlpha(t) == \A i \in 1..Len(t) : IsAlpha(t[i])
ToUpper(c) == IF IsLower(c) THEN c - 32 ELSE c
Upper(t) == [i \in 1..Len(t) |-> ToUpper(t[i])]

(* UTF-8 *)
Utf8Char(c) ==
    IF c < 128 THEN << c >>
    ELSE IF c < 2048 THEN << 192 + (c \div 64), 128 + (c % 64) >>
    ELSE IF c < 65536 THEN << 224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64) >>
    ELSE << 240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64) >>
Utf8Len(t) == FoldLeft(LAMBDA a, c : a + (IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4), 0, t)
Utf8(t) == IF \A i \in 1..Len(t) : t[i] < 128 THEN t ELSE Concat([i \in 1..Len(t) |-> Utf8Char(t[i])])


(* the text a byte sequence is in UTF-8, if it is valid UTF-8 *)
Utf8Decode(s) ==
    LET start(b) == IF b < 128 THEN [n |-> 0, c |-> b]
                    ELSE IF b \in 194..223 THEN [n |-> 1, c |-> b - 192]
                    ELSE IF b \in 224..239 THEN [n |-> 2, c |-> b - 224]
                    ELSE IF b \in 240..244 THEN [n |-> 3, c |-> b - 240]
                    ELSE [n |-> -1, c |-> 0]
        least(n) == CASE n = 1 -> 0 [] n = 2 -> 128 [] n = 3 -> 2048 [] n = 4 -> 65536
        emit(acc, c, size) == IF c < least(size) \/ c \in 55296..57343 \/ c > 1114111 THEN [acc EXCEPT !.ok = FALSE]
                              ELSE [acc EXCEPT !.need = 0, !.out = Append(acc.out, c)]
        step(acc, b) ==
            IF ~acc.ok THEN acc
            ELSE IF acc.need = 0
                 THEN LET f == start(b) IN
                      IF f.n < 0 THEN [acc EXCEPT !.ok = FALSE]
                      ELSE IF f.n = 0 THEN [acc EXCEPT !.out = Append(acc.out, b)]
                      ELSE [acc EXCEPT !.need = f.n, !.size = f.n + 1, !.c = f.c]
                 ELSE IF b \notin 128..191 THEN [acc EXCEPT !.ok = FALSE]
                 ELSE IF acc.need = 1 THEN emit(acc, acc.c * 64 + (b - 128), acc.size)
                 ELSE [acc EXCEPT !.need = acc.need - 1, !.c = acc.c * 64 + (b - 128)]
        end == FoldLeft(step, [ok |-> TRUE, need |-> 0, size |-> 0, c |-> 0, out |-> << >>], s)
    IN  [ok |-> end.ok /\ end.need = 0, text |-> end.out]

(* positions of x in t, ascending *)
Positions(t, x) == LET u == TLCEval(t) IN TLCEval(SelectSeq(TLCEval([i \in 1..Len(u) |-> i]), LAMBDA i : u[i] = x))

(* split t at every x: always at least one (possibly empty) part *)
SplitAt(t, x) ==
    LET u == TLCEval(t)
        ps == TLCEval(<< 0 >> \o Positions(u, x) \o << Len(u) + 1 >>)
    IN  TLCEval([k \in 1..(Len(ps) - 1) |-> SubSeq(u, ps[k] + 1, ps[k + 1] - 1)])

(* join parts with x between them *)
JoinWith(parts, x) ==
    IF parts = << >> THEN << >>
    ELSE Concat([k \in 1..Len(parts) |-> IF k = 1 THEN parts[k] ELSE << x >> \o parts[k]])

(* The lines of a text file: a line ends with LF or CR LF; the last line need not be ended; *)
(* a text that ends with a line end has no further, empty line.                            *)
Lines(t) ==
    LET parts == TLCEval(SplitAt(t, LF))
        n == Len(parts)
        chop(l) == IF l # << >> /\ l[Len(l)] = CR THEN SubSeq(l, 1, Len(l) - 1) ELSE l
        ended == [k \in 1..(n - 1) |-> chop(parts[k])]
    IN  TLCEval(IF parts[n] = << >> THEN ended ELSE Append(ended, parts[n]))

IsPrefixAt(p, t, i) ==
    /\ i >= 1 /\ i + Len(p) - 1 <= Len(t)
    /\ \A k \in 1..Len(p) : p[k] = t[i + k - 1]

Occurs(p, t) == \E i \in 1..(Len(t) - Len(p) + 1) : IsPrefixAt(p, t, i)

TrimChars == {9, 10, 11, 12, 13, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup 8192..8202
Trim(t) ==
    LET u == TLCEval(t)
        ends == FoldLeft(LAMBDA acc, i : IF u[i] \in TrimChars THEN acc ELSE << IF acc[1] = 0 THEN i ELSE acc[1], i >>, << 0, 0 >>, [i \in 1..Len(u) |-> i])
    IN  IF ends[1] = 0 THEN << >> ELSE SubSeq(u, ends[1], ends[2])
Blank(t) == \A i \in 1..Len(t) : t[i] \in TrimChars

(* decimal and hexadecimal numerals *)
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN << 48 + n >> ELSE Append(Decimal(n \div 10), 48 + (n % 10))
HexDigit(d) == IF d < 10 THEN 48 + d ELSE 55 + d
Hex2(b) == << HexDigit(b \div 16), HexDigit(b % 16) >>
=============================================================================
