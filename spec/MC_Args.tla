------------------------------- MODULE MC_Args -------------------------------
(* All argument vectors made of a command, its positional argument and up to *)
(* MaxOptions of its options, each in its short or long form, with ordinary  *)
(* values and values that look like options: the request they make is what   *)
(* the options say one by one, in whatever order and form.  The vectors are  *)
(* printed and replayed into the real tool.                                  *)
EXTENDS Cli, Json

CONSTANT MaxOptions

VARIABLES aCmd, aPos, aOpts      \* the command, the positional argument, the options so far

Positionals(cmd) == CASE cmd = T("convert") -> {T("in.txt"), T("in.8xp"), T("d"), T("-o")}
                      [] cmd = T("search") -> {T("Disp "), T("-t"), T("0xDE")}
                      [] OTHER -> {T("in.8xp"), T("-f"), T("in.83p")}
(* values, usual ones and ones that look like options; [v |-> None] stands for a missing value at the very end *)
Values(cmd, name) ==
    CASE name = "output" -> {T("out.txt"), T("out.8xp"), T("od"), T("-p"), T("--encode-mode")}
      [] name = "display-mode" -> {T("ti"), T("pretty"), T("-o"), T("nomode")}
      [] name = "encode-mode" -> {T("min"), T("-d"), T("max")}
      [] name = "type" -> {T("byte"), T("pretty"), T("-t")}
      [] name = "name" -> {T("NEW"), T("-d"), T("--new-file")}
      [] name = "comment" -> {T("new"), T("-d"), T("--delete-old"), T("-f")}
      [] name = "new-file" -> {T("new.8xp"), T("-d"), T("-n"), T("-c")}

Option(arg, form, v) == [name |-> arg.name, v |-> v, text |-> << IF form = "short" THEN arg.short ELSE arg.long >> \o IF v = None THEN << >> ELSE << v >>]
Options(cmd) == UNION {LET a == ArgsOf(cmd)[i]
                       IN  {Option(a, f, v) : f \in {"short", "long"}, v \in IF a.value THEN Values(cmd, a.name) ELSE {None}} : i \in 1..Len(ArgsOf(cmd))}

Argv == << aCmd, aPos >> \o Concat([i \in 1..Len(aOpts) |-> aOpts[i].text])
Used(name) == \E i \in 1..Len(aOpts) : aOpts[i].name = name

Init == /\ aCmd \in {T("convert"), T("search"), T("rename"), T("comment"), T("lock"), T("archive")}
        /\ aPos \in Positionals(aCmd)
        /\ aOpts = << >>
Next == /\ Len(aOpts) < MaxOptions
        /\ \E o \in Options(aCmd) : ~Used(o.name) /\ aOpts' = Append(aOpts, o)
        /\ UNCHANGED << aCmd, aPos >>

(* ---- what the options say, one by one ---- *)
Said(name, default) == LET S == {i \in 1..Len(aOpts) : aOpts[i].name = name} IN IF S = {} THEN default ELSE aOpts[CHOOSE i \in S : TRUE].v
Meaning ==
    CASE aCmd = T("convert") ->
            [kind |-> "convert", input |-> aPos, output |-> Said("output", None), mode |-> Said("display-mode", T("accessible")),
             enc |-> Said("encode-mode", T("smart")), content |-> Used("content"), preview |-> Used("preview"), mass |-> Used("mass")]
      [] aCmd = T("search") -> [kind |-> "search", token |-> aPos, by |-> Said("type", T("accessible"))]
      [] OTHER ->
            LET arg == IF aCmd = T("rename") THEN Said("name", None) ELSE IF aCmd = T("comment") THEN Said("comment", None) ELSE << >>
            IN  IF arg = None THEN [kind |-> "incomplete"]
                ELSE IF Used("delete-old") /\ ~Used("new-file") THEN [kind |-> "refused"]
                ELSE [kind |-> "edit", op |-> OpOf(aCmd), arg |-> arg, input |-> aPos, new |-> Said("new-file", None), delete |-> Used("delete-old")]

Means == Request(Argv) = Meaning
(* the form does not matter *)
OtherForm(o) == LET a == CHOOSE x \in {ArgsOf(aCmd)[i] : i \in 1..Len(ArgsOf(aCmd))} : x.name = o.name
                IN  [o EXCEPT !.text[1] = IF @ = a.short THEN a.long ELSE a.short]
Forms == Request(<< aCmd, aPos >> \o Concat([i \in 1..Len(aOpts) |-> OtherForm(aOpts[i]).text])) = Request(Argv)
(* of an option given twice the first counts, unless it comes first as a value *)
Twice == \A o \in Options(aCmd) : Used(o.name) => Request(Argv \o o.text) = Request(Argv)
(* a value missing at the very end is like the option not being there, a flag apart *)
Cut == \A i \in 1..Len(ArgsOf(aCmd)) :
        LET a == ArgsOf(aCmd)[i] IN (a.value /\ ~Used(a.name) /\ a.name # "new-file") => Request(Append(Argv, a.short)) = Request(Argv)
(* help wins wherever it stands, and nothing else is asked for *)
Help == \A h \in HelpFlags, i \in 1..Len(Argv) : Request(SubSeq(Argv, 1, i) \o << h >> \o SubSeq(Argv, i + 1, Len(Argv))) = [kind |-> "help", topic |-> aCmd]
(* without its positional argument a command does nothing *)
Positional == Request(<< aCmd >>).kind = "incomplete" /\ Request(<< aCmd, T("--") >> \o Concat([i \in 1..Len(aOpts) |-> aOpts[i].text])).kind = "incomplete"

Dump == PrintT(<< "ARGV", ToJson(Argv) >>)
=============================================================================
