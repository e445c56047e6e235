------------------------------- MODULE MC_Pair -------------------------------
(* Commands that save to the same path at the same time, operation by         *)
(* operation, each of which may die at any point, and one that reads it.      *)
(* Files are what names lead to, so that a file keeps being written after its *)
(* name was given to another one.  Nobody ever sees anything but whole files, *)
(* and no command can make another one fail: saving is one atomic step, as *)
(* Trace_Pair takes it to be.                                                 *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Commands,    \* how many
          Chunks,      \* pieces a content is written in
          SameId,      \* whether they have the same process id
          Protocol     \* "replace": as it is; to show that the promises notice, "shared": the temporary file has one
                       \* name and is created over an existing one, "single": one name, not created over an existing one,
                       \* "direct": the target is written in place

VARIABLES hDir,        \* name -> file (a number); 0: there is none
          hData,       \* file -> the pieces written to it, as the numbers of their writers; 0 is the old content
          hPc, hFile, hName, hLeft, hRead   \* per command; what the reader has found

All == 1..Commands
Tries == 0..3
Temp(who, try) == << "temp", IF SameId THEN 1 ELSE who, IF Protocol = "replace" THEN try ELSE 0 >>
Target == << "target", 0, 0 >>
AllNames == {Target} \cup {<< "temp", i, t >> : i \in All, t \in Tries}
Old == [i \in 1..Chunks |-> 0]
vars == << hDir, hData, hPc, hFile, hName, hLeft, hRead >>

Init == /\ hDir = [n \in AllNames |-> IF n = Target THEN 1 ELSE 0]
        /\ hData = << Old >>
        /\ hPc = [c \in All |-> "create"] /\ hFile = [c \in All |-> 0] /\ hLeft = [c \in All |-> Chunks]
        /\ hName = [c \in All |-> IF Protocol = "direct" THEN Target ELSE Temp(c, 0)]
        /\ hRead = << >>

Goto(c, pc) == hPc' = [hPc EXCEPT ![c] = pc]
Exclusive == Protocol \in {"replace", "single"}
Create(c) ==
    /\ hPc[c] = "create"
    /\ IF hDir[hName[c]] = 0
       THEN /\ hData' = Append(hData, << >>) /\ hDir' = [hDir EXCEPT ![hName[c]] = Len(hData')]
            /\ hFile' = [hFile EXCEPT ![c] = Len(hData')] /\ Goto(c, "write") /\ UNCHANGED hName
       ELSE IF Exclusive
       THEN /\ IF Protocol = "replace" /\ hName[c][3] < 3
               THEN hName' = [hName EXCEPT ![c] = Temp(c, hName[c][3] + 1)] /\ UNCHANGED hPc
               ELSE Goto(c, "failed") /\ UNCHANGED hName
            /\ UNCHANGED << hDir, hData, hFile >>
       ELSE /\ hFile' = [hFile EXCEPT ![c] = hDir[hName[c]]] /\ hData' = [hData EXCEPT ![hDir[hName[c]]] = << >>]
            /\ Goto(c, "write") /\ UNCHANGED << hDir, hName >>
    /\ UNCHANGED << hLeft, hRead >>
Write(c) == /\ hPc[c] = "write" /\ hLeft[c] > 0
            /\ hData' = [hData EXCEPT ![hFile[c]] = Append(@, c)] /\ hLeft' = [hLeft EXCEPT ![c] = @ - 1]
            /\ UNCHANGED << hDir, hPc, hFile, hName, hRead >>
Written(c) == hPc[c] = "write" /\ hLeft[c] = 0 /\ Goto(c, IF Protocol = "direct" THEN "saved" ELSE "rename") /\ UNCHANGED << hDir, hData, hFile, hName, hLeft, hRead >>
Rename(c) == /\ hPc[c] = "rename"
             /\ IF hDir[hName[c]] = 0 THEN Goto(c, "failed") /\ UNCHANGED hDir
                ELSE hDir' = [hDir EXCEPT ![Target] = hDir[hName[c]], ![hName[c]] = 0] /\ Goto(c, "saved")
             /\ UNCHANGED << hData, hFile, hName, hLeft, hRead >>
Die(c) == hPc[c] \in {"create", "write", "rename"} /\ Goto(c, "dead") /\ UNCHANGED << hDir, hData, hFile, hName, hLeft, hRead >>
Look == hRead' = << hData[hDir[Target]] >> /\ UNCHANGED << hDir, hData, hPc, hFile, hName, hLeft >>

Next == Look \/ \E c \in All : Create(c) \/ Write(c) \/ Written(c) \/ Rename(c) \/ Die(c)
Spec == Init /\ [][Next]_vars

Whole(d) == Len(d) = Chunks /\ \A i \in 1..Chunks : d[i] = d[1]
Untorn == Whole(hData[hDir[Target]])
ReadWhole == hRead # << >> => Whole(hRead[1])
Unhindered == \A c \in All : hPc[c] # "failed"
(* a file that has been saved is never written again *)
Settled == \A c \in All : hPc[c] = "write" => hFile[c] # hDir[Target]
(* the files of commands that ended are the target's; only one that died leaves its temporary file behind *)
Clean == (\A c \in All : hPc[c] \in {"saved", "dead"}) =>
            Cardinality({n \in AllNames \ {Target} : hDir[n] # 0}) <= Cardinality({c \in All : hPc[c] = "dead"})
(* the target only changes by a save, to what was saved *)
Atomic == [][hDir'[Target] # hDir[Target] => \E c \in All : hPc[c] = "rename" /\ hPc'[c] = "saved" /\ hData[hDir'[Target]] = [i \in 1..Chunks |-> c]]_vars
=============================================================================
