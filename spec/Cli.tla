-------------------------------- MODULE Cli ---------------------------------
(* The command line: what an argument vector asks for.                      *)
(* argv is a sequence of texts, the first being the command.                *)
EXTENDS Bytes, Text

Arg(name, short, takesValue) == [name |-> name, short |-> T("-") \o short, long |-> T("--") \o T(name), value |-> takesValue]

ConvertArgs == << Arg("output", T("o"), TRUE), Arg("display-mode", T("d"), TRUE), Arg("encode-mode", T("e"), TRUE),
                  Arg("content", T("c"), FALSE), Arg("preview", T("p"), FALSE), Arg("mass", T("m"), FALSE) >>
FileArgs == << Arg("new-file", T("f"), TRUE), Arg("delete-old", T("d"), FALSE) >>
SearchArgs == << Arg("type", T("t"), TRUE) >>
RenameArgs == << Arg("name", T("n"), TRUE) >> \o FileArgs
CommentArgs == << Arg("comment", T("c"), TRUE) >> \o FileArgs

EditCommands == {T("rename"), T("comment"), T("lock"), T("unlock"), T("archive"), T("unarchive")}
Commands == EditCommands \cup {T("help"), T("version"), T("convert"), T("search"), T("details"), T("models")}

ArgsOf(cmd) ==
    CASE cmd = T("convert") -> ConvertArgs
      [] cmd = T("search") -> SearchArgs
      [] cmd = T("rename") -> RenameArgs
      [] cmd = T("comment") -> CommentArgs
      [] cmd \in {T("lock"), T("unlock"), T("archive"), T("unarchive")} -> FileArgs
      [] OTHER -> << >>

(* Where an argument is given (0: nowhere).  Arguments follow the command and its positional argument; the     *)
(* value of an argument is not an argument.                                                                    *)
RECURSIVE FindFrom(_, _, _, _)
FindFrom(argv, args, name, i) ==
    IF i > Len(argv) THEN 0
    ELSE LET given == SelectSeq(args, LAMBDA a : argv[i] \in {a.short, a.long})
         IN  IF given # << >> /\ given[1].name = name THEN i
             ELSE FindFrom(argv, args, name, IF given # << >> /\ given[1].value THEN i + 2 ELSE i + 1)
Find(argv, name) == FindFrom(argv, ArgsOf(argv[1]), name, 3)

None == << -1 >>      \* no value (not a text)
Given(argv, name) == Find(argv, name) # 0
ValueOf(argv, name, default) ==
    LET i == Find(argv, name) IN IF i = 0 \/ i = Len(argv) THEN default ELSE argv[i + 1]

HelpFlags == {T("-h"), T("--help")}
NoInput(argv) == Len(argv) < 2 \/ argv[2] = T("--")

OpOf(cmd) == CHOOSE op \in {"rename", "comment", "lock", "unlock", "archive", "unarchive"} : T(op) = cmd

(* The request an argument vector makes. *)
Request(argv) ==
    IF argv = << >> THEN [kind |-> "help", topic |-> << >>]
    ELSE IF argv[1] \notin Commands THEN [kind |-> "unknown"]
    ELSE IF \E i \in 1..Len(argv) : argv[i] \in HelpFlags THEN [kind |-> "help", topic |-> argv[1]]
    ELSE IF argv[1] = T("help") THEN [kind |-> "help", topic |-> IF Len(argv) < 2 THEN << >> ELSE argv[2]]
    ELSE IF argv[1] \in {T("version"), T("models")} THEN [kind |-> CHOOSE k \in {"version", "models"} : T(k) = argv[1]]
    ELSE IF NoInput(argv) THEN [kind |-> "incomplete"]
    ELSE IF argv[1] = T("convert") THEN
        [kind |-> "convert", input |-> argv[2], output |-> ValueOf(argv, "output", None),
         mode |-> ValueOf(argv, "display-mode", T("accessible")), enc |-> ValueOf(argv, "encode-mode", T("smart")),
         content |-> Given(argv, "content"), preview |-> Given(argv, "preview"), mass |-> Given(argv, "mass")]
    ELSE IF argv[1] = T("search") THEN
        [kind |-> "search", token |-> argv[2], by |-> ValueOf(argv, "type", T("accessible"))]
    ELSE IF argv[1] = T("details") THEN [kind |-> "details", input |-> argv[2]]
    ELSE LET op == OpOf(argv[1])
             arg == IF op = "rename" THEN ValueOf(argv, "name", None)
                    ELSE IF op = "comment" THEN ValueOf(argv, "comment", None) ELSE << >>
         IN  IF arg = None THEN [kind |-> "incomplete"]
             ELSE IF Given(argv, "delete-old") /\ ~Given(argv, "new-file") THEN [kind |-> "refused"]
             ELSE [kind |-> "edit", op |-> op, arg |-> arg, input |-> argv[2],
                   new |-> ValueOf(argv, "new-file", None), delete |-> Given(argv, "delete-old")]
=============================================================================
