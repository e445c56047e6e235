------------------------------- MODULE MC_Edit -------------------------------
(* All histories of edits of a small program, with what the edits promise.   *)
EXTENDS ProgramFile

CONSTANT Layout          \* "8xp" or "83p": the file the program comes from

VARIABLES vProg, vLast   \* the program; the last edit [op, arg, ok], for the action properties

Names == {T(""), T("A"), T("ab"), T("ABCDEFGH"), T("ABCDEFGHI"), T("A1")}
Comments == {T(""), T("x"), T("0123456789012345678901234567890123456789ab"), T("0123456789012345678901234567890123456789abc"), << 233 >>}

FileBytes ==
    LET hdr == Sig83F \o << 26, 10, 0 >> \o PadTo(T("old"), 42)
        meta8 == << 13, 7, 4, 0, 23 >> \o PadTo(T("OLD"), 8) \o << 3, 128, 4, 0, 2, 0 >>
        meta3 == << 11, 0, 4, 0, 23 >> \o PadTo(T("OLD"), 8) \o << 4, 0, 2, 0 >>
    IN  IF Layout = "8xp" THEN hdr \o << 21, 0 >> \o meta8 \o << 65, 66, 1, 2 >> ELSE hdr \o << 19, 0 >> \o meta3 \o << 65, 66, 1, 2 >>
First == LoadXp(FileBytes, T(Layout), "accessible").program

Do(op, arg) ==
    /\ vLast' = [op |-> op, arg |-> arg, ok |-> EditAllowed(op, arg)]
    /\ vProg' = IF EditAllowed(op, arg) THEN Edit(vProg, op, arg) ELSE vProg

Init == vProg = First /\ vLast = [op |-> "none", arg |-> << >>, ok |-> TRUE]
Next == \/ \E n \in Names : Do("rename", n)
        \/ \E c \in Comments : Do("comment", c)
        \/ \E op \in EditOps \ {"rename", "comment"} : Do(op, << >>)
Spec == Init /\ [][Next]_<< vProg, vLast >>

Saved == XpBytes(Recheck(vProg))
OldSaved == OldBytes(Recheck(vProg))

(* what is saved is well formed and reads back as the program in memory *)
Agree == LET l == LoadXp(Saved, T("8xp"), "accessible") IN l.ok /\ l.program = Recheck(vProg)
Sound == WellFormed(Saved, T("8xp")) /\ WellFormed(OldSaved, T("83p"))
(* the 83p layout keeps everything it has room for *)
OldAgree == LET l == LoadXp(OldSaved, T("83p"), "accessible") IN
    l.ok /\ l.program.metadata.name = vProg.metadata.name /\ l.program.metadata.file_type = vProg.metadata.file_type
         /\ l.program.header.comment = vProg.header.comment /\ l.program.body = vProg.body
         /\ OldBytes(l.program) = OldSaved

(* the positions of the saved file an edit may change (the checksum apart) *)
Field(op) == CASE op = "rename" -> 61..68 [] op = "comment" -> 12..53 [] op \in {"lock", "unlock"} -> {60} [] op \in {"archive", "unarchive"} -> {70} [] OTHER -> {}
Frame == [][LET a == Saved b == XpBytes(Recheck(vProg'))
            IN  Len(a) = Len(b) /\ \A i \in 1..(Len(a) - 2) : a[i] # b[i] => i \in Field(vLast'.op) /\ vLast'.ok]_<< vProg, vLast >>
(* the edit has its effect, whatever came before *)
Effect == vLast.op # "none" /\ vLast.ok =>
    CASE vLast.op = "rename" -> vProg.metadata.name = Upper(vLast.arg) /\ SubSeq(Saved, 61, 68) = PadTo(Upper(vLast.arg), 8)
      [] vLast.op = "comment" -> vProg.header.comment = vLast.arg /\ SubSeq(Saved, 12, 53) = PadTo(Utf8(vLast.arg), 42)
      [] vLast.op = "lock" -> Saved[60] = 6
      [] vLast.op = "unlock" -> Saved[60] = 5
      [] vLast.op = "archive" -> Saved[70] = 128
      [] vLast.op = "unarchive" -> Saved[70] = 0
Rejects == [][~vLast'.ok => vProg' = vProg]_<< vProg, vLast >>
(* edits of different fields commute, of the same field the last wins *)
Commute == \A x, y \in {<< "rename", T("Q") >>, << "comment", T("q") >>, << "lock", << >> >>, << "unlock", << >> >>, << "archive", << >> >>, << "unarchive", << >> >>} :
    LET xy == Edit(Edit(vProg, x[1], x[2]), y[1], y[2]) yx == Edit(Edit(vProg, y[1], y[2]), x[1], x[2])
    IN  IF Field(x[1]) = Field(y[1]) THEN xy = Edit(vProg, y[1], y[2]) ELSE xy = yx
=============================================================================
