------------------------------ MODULE MC_Codec ------------------------------
(* The encoder and the decoder, step by step, over every line of a few      *)
(* fragments and every body of a few bytes.  What the listed properties     *)
(* promise is checked at every step, and each line or body is printed when  *)
(* its end (or the point where the machine is stuck) is reached, so that    *)
(* all of them can be given to the real tool.                               *)
EXTENDS Codec

Setup == ndJsonDeserialize(IOEnv.RUN_DIR \o "/setup.ndjson")[1]
Order == Setup.order
Mode == Setup.mode
Enc == Setup.enc            \* an encode mode, or "decode"
Pieces == Setup.pieces      \* texts, or bytes

VARIABLES cUsed,     \* the pieces so far, by number
          cPhase,    \* "collect", "run", "end" or "stuck"
          cAt,       \* the encoder's state [next, rule, prev], or the decoder's [next]
          cOut       \* token keys

Encoding == Enc # "decode"
Input == IF Encoding THEN Concat([i \in 1..Len(cUsed) |-> Pieces[cUsed[i]]]) ELSE [i \in 1..Len(cUsed) |-> Pieces[cUsed[i]]]
Names(keys) == Concat([i \in 1..Len(keys) |-> NameIn(ByKey[Order][KeyRank(keys[i])], Mode)])

Init == cUsed = << >> /\ cPhase = "collect" /\ cAt = << >> /\ cOut = << >>
Collect == /\ cPhase = "collect" /\ Len(cUsed) < Setup.depth
           /\ \E i \in 1..Len(Pieces) : cUsed' = Append(cUsed, i)
           /\ UNCHANGED << cPhase, cAt, cOut >>
Run == /\ cPhase = "collect"
       /\ cPhase' = "run" /\ cAt' = (IF Encoding THEN StartOfLine(Enc) ELSE [next |-> 1])
       /\ UNCHANGED << cUsed, cOut >>
Stop(phase) == cPhase' = phase /\ PrintT(<< "LINE", phase, cUsed >>) /\ UNCHANGED << cUsed, cAt, cOut >>
Take == LET input == TLCEval(Input)
            m == IF Encoding THEN MatchAt(input, cAt.next, Order, Mode, cAt.rule) ELSE DecodeAt(input, cAt.next, Order)
        IN  /\ cPhase = "run"
            /\ IF cAt.next > Len(input) THEN Stop("end")
               ELSE IF m = << >> THEN Stop("stuck")
               ELSE /\ cOut' = Append(cOut, m[1].key)
                    /\ cAt' = (IF Encoding THEN AfterItem(cAt, Enc, m[1]) ELSE [next |-> cAt.next + Len(m[1].key)])
                    /\ UNCHANGED << cUsed, cPhase >>
Next == Collect \/ Run \/ Take

Started == cPhase # "collect"

(* ---- promises of the encoder ---- *)
(* C01: what has been encoded decodes to what has been read *)
Lossless == Started /\ Encoding =>
    LET d == DecodeBody(Concat(cOut), Order, Mode) IN d.ok /\ d.text = SubSeq(Input, 1, cAt.next - 1)
(* C04: in smart mode shortest matches are taken exactly in a run that a quote started *)
Quote == << 42 >>
Names5F == {<< 95 >>, << 235 >>}
Follows(j) == j > 1 /\ cOut[j - 1] \in Names5F
InRun == \E q \in 1..Len(cOut) :
            /\ cOut[q] = Quote /\ ~Follows(q)
            /\ \A j \in (q + 1)..Len(cOut) :
                  /\ cOut[j] # << 4 >> /\ ~Follows(j)
                  /\ AllAlpha(NameIn(ByKey[Order][KeyRank(cOut[j])], Mode))
RuleTrue == Started /\ Encoding =>
    cAt.rule = (CASE Enc = "min" -> "shortest" [] Enc = "max" -> "longest" [] Enc = "smart" -> IF InRun THEN "shortest" ELSE "longest")
(* C04: no token fits better than the one taken, and of those that fit as well it has the lowest code *)
Starting(c) == LET B == LongestFirst[Order][Mode] IN IF c \in DOMAIN B THEN {B[c][i] : i \in 1..Len(B[c])} ELSE {}
Best ==
    [][Encoding /\ Len(cOut') > Len(cOut) =>
         LET input == TLCEval(Input)
             taken == ByKey[Order][KeyRank(cOut'[Len(cOut')])]
             m == NameIn(taken, Mode)
         IN  \A item \in Starting(input[cAt.next]) : IsPrefixAt(item.name, input, cAt.next) =>
                 IF item.name = m THEN taken.rank <= item.rank
                 ELSE IF cAt.rule = "longest" THEN Len(item.name) < Len(m) ELSE Len(item.name) > Len(m)]_<< cUsed, cPhase, cAt, cOut >>
(* C02, C04: the machine is the function; without a quote smart is max *)
SameAsFunction == cPhase \in {"end", "stuck"} /\ Encoding =>
    LET e == EncodeLine(Input, Order, Mode, Enc)
    IN  /\ e.ok = (cPhase = "end")
        /\ e.ok => e.body = Concat(cOut)
        /\ e.ok => EncodeLine(DecodeBody(e.body, Order, Mode).text, Order, Mode, Enc) = e
        /\ (Enc = "smart" /\ \A i \in 1..Len(cOut) : cOut[i] # Quote) => (e.ok => e.body = EncodeLine(Input, Order, Mode, "max").body)
(* C04: a line is refused only where no name fits *)
StuckTrue == cPhase = "stuck" /\ Encoding => \A k \in DOMAIN ByKey[Order] : ~IsPrefixAt(NameIn(ByKey[Order][k], Mode), Input, cAt.next)

(* ---- promises of the decoder (C03) ---- *)
IsToken(i, n) == i + n - 1 <= Len(Input) /\ KeyRank(SubSeq(Input, i, i + n - 1)) \in DOMAIN ByKey[Order]
(* the positions that a division of the body into tokens can reach *)
RECURSIVE Reach(_)
Reach(S) == LET more == S \cup UNION {{i + n : n \in {m \in {1, 2} : IsToken(i, m)}} : i \in S} IN IF more = S THEN S ELSE Reach(more)
Divided == cPhase \in {"end", "stuck"} /\ ~Encoding =>
    LET d == DecodeBody(Input, Order, Mode)
    IN  /\ (Len(Input) + 1 \in Reach({1})) = (cPhase = "end")
        /\ d.ok = (cPhase = "end")
        /\ Concat(cOut) = SubSeq(Input, 1, cAt.next - 1)
        /\ d.ok => d.text = Names(cOut)
        (* no other division *)
        /\ \A i \in Reach({1}) \ {Len(Input) + 1} : Cardinality({n \in {1, 2} : IsToken(i, n)}) <= 1
=============================================================================
