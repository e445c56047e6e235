------------------------------ MODULE Console -------------------------------
(* What the tool shows.                                                     *)
EXTENDS ProgramFile, Cli

(* ---- styled messages: [color:x], [bg:x] and [style:x] become ANSI sequences, all other text is kept ---- *)
LBr == 91
RBr == 93
Colon == 58
Esc == 27

(* the end of the directive at position i (which holds "["): the next bracket, if it closes a directive; else 0 *)
DirectiveEnd(t, i) ==
    LET S == {j \in (i + 1)..Len(t) : t[j] \in {LBr, RBr}}
        e == IF S = {} THEN 0 ELSE CHOOSE j \in S : \A k \in S : j <= k
    IN  IF e = 0 THEN 0
        ELSE IF t[e] # RBr THEN 0
        ELSE LET parts == SplitAt(SubSeq(t, i + 1, e - 1), Colon)
             IN  IF Len(parts) = 2 /\ parts[1] \in {T("color"), T("bg"), T("style")} THEN e ELSE 0

(* the text of a message without its directives *)
Plain(t) ==
    LET step(acc, i) ==
            IF i < acc.next THEN acc
            ELSE IF t[i] = LBr /\ DirectiveEnd(t, i) # 0 THEN [acc EXCEPT !.next = DirectiveEnd(t, i) + 1]
            ELSE [next |-> i + 1, out |-> Append(acc.out, t[i])]
    IN  FoldLeft(step, [next |-> 1, out |-> << >>], [i \in 1..Len(t) |-> i]).out

(* the ANSI sequence a directive stands for; unknown colours and styles reset *)
Colours == << T("black"), T("red"), T("green"), T("yellow"), T("blue"), T("purple"), T("cyan"), T("white") >>
Bright == T("bright-")
TextStyles == << T("bold"), T("dim"), T("italic"), T("underline"), T("blink"), T("invert"), T("hidden"), T("strikethrough") >>
StyleNumbers == << 1, 2, 3, 4, 5, 7, 8, 9 >>
PlaceIn(list, x) == LET S == {i \in 1..Len(list) : list[i] = x} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
SequenceOf(kind, what) ==
    LET ground == IF kind = T("bg") THEN 10 ELSE 0
        bright == IsPrefixAt(Bright, what, 1)
        colour == PlaceIn(Colours, IF bright THEN SubSeq(what, Len(Bright) + 1, Len(what)) ELSE what)
        style == PlaceIn(TextStyles, what)
        number == IF kind = T("style") THEN (IF style = 0 THEN 0 ELSE StyleNumbers[style])
                  ELSE IF colour = 0 THEN 0 ELSE (IF bright THEN 89 ELSE 29) + colour + ground
    IN  << Esc, LBr >> \o Decimal(number) \o << 109 >>
Styled(t) ==
    LET directive(i) == SplitAt(SubSeq(t, i + 1, DirectiveEnd(t, i) - 1), Colon)
        step(acc, i) ==
            IF i < acc.next THEN acc
            ELSE IF t[i] = LBr /\ DirectiveEnd(t, i) # 0
                 THEN [next |-> DirectiveEnd(t, i) + 1, out |-> acc.out \o SequenceOf(directive(i)[1], directive(i)[2])]
            ELSE [next |-> i + 1, out |-> Append(acc.out, t[i])]
    IN  FoldLeft(step, [next |-> 1, out |-> << >>], [i \in 1..Len(t) |-> i]).out

(* output without ANSI sequences: ESC up to the next m *)
StripAnsi(t) ==
    LET parts == SplitAt(t, Esc)
        rest(p) == LET ms == Positions(p, 109) IN IF ms = << >> THEN << >> ELSE SubSeq(p, ms[1] + 1, Len(p))
    IN  Concat([i \in 1..Len(parts) |-> IF i = 1 THEN parts[1] ELSE rest(parts[i])])

NL == << 10 >>
Line(s) == s \o NL

(* ---- facts about a program ---- *)
FileSize(p) == Len(p.header.bytes) + Len(p.metadata.bytes) + Len(p.body.bytes) + 2
Facts(p) ==
    Concat(<< Line(p.metadata.name), Line(p.header.comment),
              T("Total Size: "), Decimal(FileSize(p)), Line(T(" bytes")),
              T("Body Size: "), Decimal(Len(p.body.bytes)), Line(T(" bytes")),
              Line(T("----- Status -----")),
              T("model: "), Line(NameText(p.model.model)),
              T("language: "), Line(p.model.language),
              T("Destination: "), Line(DestinationText(p.metadata.destination)),
              T("File Type: "), Line(FileTypeText(p.metadata.file_type)) >>)

ProgramView(p) == Concat(<< Facts(p), Line(T("----- Program -----")), Line(p.body.translation), NL >>)

AllBytes(p) == p.header.bytes \o p.metadata.bytes \o p.body.bytes \o p.checksum.bytes
HexDump(bytes) ==
    Concat([i \in 1..Len(bytes) |-> Hex2(bytes[i]) \o (IF i % 16 = 0 THEN NL ELSE << 44, 32 >>)])
BytesView(p) == Concat(<< HexDump(AllBytes(p)), NL, NL >>)

(* what convert shows of a program; the JSON view is compared as a program, not as text *)
Shown(p, ext, content, preview) ==
    CASE ext \in ProgramExts -> (IF content THEN BytesView(p) ELSE << >>) \o (IF preview THEN ProgramView(p) ELSE << >>)
      [] ext = T("txt")      -> (IF content THEN ProgramView(p) ELSE << >>) \o (IF preview THEN BytesView(p) ELSE << >>)
      [] ext = T("json")     -> (IF preview THEN BytesView(p) \o ProgramView(p) ELSE << >>)

(* ---- what a successful command says, without its colours ---- *)
SetText(op, arg) ==
    T("Successfully set ") \o
    CASE op = "rename" -> T("name to ") \o Plain(arg)
      [] op = "comment" -> T("comment to ") \o Plain(arg)
      [] op = "lock" -> T("file type to locked program")
      [] op = "unlock" -> T("file type to program")
      [] op = "archive" -> T("destination to archive")
      [] op = "unarchive" -> T("destination to RAM")
SavedText(name, path) == Concat(<< T("Successfully saved "), Plain(name), T(" to "), Plain(path) >>)

ToolName == T("ti-tools")

(* help shows every command asked for, each with the short and the long form of its options *)
PositionalOf(cmd) ==
    IF cmd = T("search") THEN T("<TOKEN>") ELSE IF cmd = T("help") THEN T("<COMMAND>")
    ELSE IF cmd \in EditCommands \cup {T("convert"), T("details")} THEN T("<INPUT>") ELSE << >>
HelpShown(cmds, out) ==
    LET ls == SplitAt(out, LF)
        headed(cmd) == {i \in 1..Len(ls) : IsPrefixAt(cmd \o T(" - "), Trim(ls[i]), 1)}
        mentions(i, arg) == Occurs(arg.short \o << 32 >>, ls[i]) /\ Occurs(arg.long \o << 32 >>, ls[i])
    IN  \A cmd \in cmds :
          /\ Cardinality(headed(cmd)) = 1
          /\ LET h == CHOOSE i \in headed(cmd) : TRUE
                 n == (IF PositionalOf(cmd) = << >> THEN 0 ELSE 1) + Len(ArgsOf(cmd))
             IN  /\ h + n <= Len(ls)
                 /\ (PositionalOf(cmd) # << >> => Occurs(PositionalOf(cmd), ls[h + 1]))
                 /\ \A k \in 1..Len(ArgsOf(cmd)) : \E i \in (h + 1)..(h + n) : mentions(i, ArgsOf(cmd)[k])

ModelsText == Line(T("Supported TI calculator models:")) \o Concat([i \in 1..Len(ModelTable) |-> Line(NameText(ModelTable[i].name))])
=============================================================================
