------------------------------ MODULE Trace_Lib ------------------------------
(* Conformance of histories of the library: a program is loaded once, edited *)
(* in memory any number of times and saved at points of the history.  The    *)
(* specification's program must agree with the real one after every step;    *)
(* the checksum is compared where it counts, in the files that are saved.    *)
EXTENDS ProgramFile

Blobs == ndJsonDeserialize(IOEnv.RUN_DIR \o "/blobs.ndjson")
Cases == ndJsonDeserialize(IOEnv.RUN_DIR \o "/cases.ndjson")

VARIABLES vCase, vStep, vProg

Case == Cases[vCase]
Step == Case.steps[vStep]

LoadCase(c) ==
    LET b == Blobs[c.blob]
    IN  IF c.ext = T("txt") THEN (IF b.u THEN LoadText(b.t, c.enc) ELSE Failed)
        ELSE IF c.ext = T("json") THEN LoadJson(b.j)
        ELSE LoadXp(b.b, c.ext, c.mode)

NoSum(p) == [p EXCEPT !.checksum = << >>]
SameProgram(rec, p) == rec.ok /\ NoSum(rec.program) = NoSum(p)

SavedOk(n, ext, p) ==
    LET b == Blobs[n] content == ContentOf(p, ext)
    IN  n # 0 /\ (CASE content.form = "text"  -> b.u /\ b.t = content.text
                    [] content.form = "bytes" -> b.b = content.bytes
                    [] content.form = "json"  -> b.j.ok /\ NoSum(b.j.program) = NoSum(content.program))

Reject(why) == PrintT(<< "REJECT", Case.id, vStep, << why >> >>) /\ vStep' = -1 /\ vProg' = vProg
Move(p) == /\ vProg' = p /\ vStep' = vStep + 1
           /\ vStep = Len(Case.steps) => PrintT(<< "ACCEPT", Case.id >>)

Init == vCase \in 1..Len(Cases) /\ vStep = 0 /\ vProg = << >>

LoadIt ==
    /\ vStep = 0
    /\ LET l == TLCEval(LoadCase(Case))
       IN  IF l.ok # Case.loaded THEN Reject("loaded")
           ELSE IF ~l.ok THEN vStep' = -1 /\ vProg' = vProg /\ PrintT(<< "ACCEPT", Case.id >>)
           ELSE IF ~SameProgram(Case.first, l.program) THEN Reject("program")
           ELSE Move(l.program)

SaveIt ==
    /\ vStep > 0 /\ Step.op = "save"
    /\ IF ~Step.ok \/ ~SavedOk(Step.saved, Step.ext, vProg) THEN Reject("saved")
       ELSE IF ~SameProgram(Step.program, vProg) THEN Reject("program")
       ELSE Move(vProg)

EditIt ==
    /\ vStep > 0 /\ Step.op # "save"
    /\ LET ok == EditAllowed(Step.op, Step.arg)
           p == TLCEval(IF ok THEN Edit(vProg, Step.op, Step.arg) ELSE vProg)
       IN  IF Step.ok # ok THEN Reject("accepted")
           ELSE IF ~SameProgram(Step.program, p) THEN Reject("program")
           ELSE Move(p)

Next == /\ vStep \in 0..Len(Case.steps)
        /\ LoadIt \/ SaveIt \/ EditIt
        /\ UNCHANGED vCase
=============================================================================
