------------------------------- MODULE Codec -------------------------------
(* Translation between the body bytes of a program and its text.            *)
(*                                                                          *)
(* A codec environment is [order, mode, enc]: the token table of a model    *)
(* generation, the display mode and the encode mode.  The encoder and the   *)
(* decoder are machines that consume one token per step; EncodeBody and     *)
(* DecodeBody run them to the end.                                          *)
EXTENDS TokenSheet

EncodeModes == {"min", "max", "smart"}

(* ------------------------------- decoder ------------------------------- *)
(* The entry at position i of the body, or <<>>; one-byte tokens first (the sheet is prefix-free). *)
DecodeAt(body, i, order) ==
    LET Tok == ByKey[order]
    IN  IF body[i] \in DOMAIN Tok THEN << Tok[body[i]] >>
        ELSE IF i < Len(body) /\ KeyRank(<< body[i], body[i + 1] >>) \in DOMAIN Tok
             THEN << Tok[KeyRank(<< body[i], body[i + 1] >>)] >>
        ELSE << >>

DecodeBody(body, order, mode) ==
    LET step(acc, i) ==
            IF ~acc.ok \/ i # acc.next THEN acc
            ELSE LET e == DecodeAt(body, i, order)
                 IN  IF e = << >> THEN [acc EXCEPT !.ok = FALSE]
                     ELSE [ok |-> TRUE, next |-> i + Len(e[1].key), parts |-> Append(acc.parts, NameIn(e[1], mode))]
        end == FoldLeft(step, [ok |-> TRUE, next |-> 1, parts |-> << >>], [i \in 1..Len(body) |-> i])
    IN  [ok |-> end.ok, text |-> IF end.ok THEN Concat(end.parts) ELSE << >>]

(* ------------------------------- encoder ------------------------------- *)
Theta == 952
ThetaLikes == {920, 1012, 7615}
Normalise(t) == TLCEval([i \in 1..Len(t) |-> IF t[i] \in ThetaLikes THEN Theta ELSE t[i]])

(* Which rule picks the next token.  In smart mode a quote (2A) starts a run of shortest matches unless it    *)
(* directly follows prgm (5F) or the small L (EB); the run ends after the store arrow (04), after any token   *)
(* whose name is not purely alphabetic, and after whatever follows prgm or the small L.                       *)
Rules == {"longest", "shortest"}
StartRule(enc) == IF enc = "min" THEN "shortest" ELSE "longest"
NextRule(enc, rule, prev, item) ==
    IF enc # "smart" THEN rule
    ELSE IF prev \in {<< 95 >>, << 235 >>} THEN "longest"
    ELSE IF item.key = << 42 >> THEN "shortest"
    ELSE IF item.key = << 4 >> THEN "longest"
    ELSE IF ~item.alpha THEN "longest"
    ELSE rule

(* The token chosen at position i of a line, or <<>>. *)
MatchAt(line, i, order, mode, rule) ==
    LET table == IF rule = "longest" THEN LongestFirst[order][mode] ELSE ShortestFirst[order][mode]
    IN  IF line[i] \notin DOMAIN table THEN << >>
        ELSE LET B == table[line[i]]
                 n == SelectInSeq(B, LAMBDA item : IsPrefixAt(item.name, line, i))
             IN  IF n = 0 THEN << >> ELSE << B[n] >>

StartOfLine(enc) == [next |-> 1, rule |-> StartRule(enc), prev |-> << >>]
AfterItem(s, enc, item) ==
    [next |-> s.next + Len(item.name), rule |-> NextRule(enc, s.rule, s.prev, item), prev |-> item.key]

EncodeLine(line, order, mode, enc) ==
    LET step(acc, i) ==
            IF ~acc.ok \/ i # acc.s.next THEN acc
            ELSE LET m == MatchAt(line, i, order, mode, acc.s.rule)
                 IN  IF m = << >> THEN [acc EXCEPT !.ok = FALSE]
                     ELSE [ok |-> TRUE, s |-> AfterItem(acc.s, enc, m[1]), out |-> Append(acc.out, m[1].key)]
        end == FoldLeft(step, [ok |-> TRUE, s |-> StartOfLine(enc), out |-> << >>], [i \in 1..Len(line) |-> i])
    IN  [ok |-> end.ok, body |-> Concat(end.out)]

NewLine == 63
(* body text as a sequence of lines *)
EncodeLines(lines, order, mode, enc) ==
    LET r == [k \in 1..Len(lines) |-> TLCEval(EncodeLine(TLCEval(Normalise(lines[k])), order, mode, enc))]
        all == TLCEval(r)
    IN  [ok |-> \A k \in 1..Len(lines) : all[k].ok,
         body |-> JoinWith([k \in 1..Len(lines) |-> all[k].body], NewLine)]

EncodeBody(text, order, mode, enc) == EncodeLines(SplitAt(text, LF), order, mode, enc)
=============================================================================
