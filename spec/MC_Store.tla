------------------------------ MODULE MC_Store ------------------------------
(* How a file is saved, operation by operation, with failures and crashes   *)
(* at every point: the saved content is collected in a temporary file next  *)
(* to the target, which then takes the target's place; only then is the old *)
(* file of an edit removed.  What the atomic description in TiTools says    *)
(* (a save happens completely or not at all, the removal after it) follows. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Chunks,       \* the content arrives in this many pieces
          Protocol      \* "replace": as described; to show that the invariants notice, "direct": written in place,
                        \* and "fallback": written in place only when replacing has failed

VARIABLES fFs,          \* path -> content: Absent, or [of, n]: n pieces of content "of"
          fPc, fPlan,   \* the point reached; the request: [new: saved under a new path, there: it exists, delete, answer]
          fLeft,        \* pieces still to write
          fInto,        \* the file they are written to
          fExit         \* -1 running, 0, 1, 9 died

Absent == [of |-> "nothing", n |-> 0]
Old == [of |-> "old", n |-> Chunks]
Other == [of |-> "other", n |-> Chunks]
New(n) == [of |-> "new", n |-> n]

Plans == [new : BOOLEAN, there : BOOLEAN, delete : BOOLEAN, yes : BOOLEAN]
Target == IF fPlan.new THEN "output" ELSE "input"
Existed == ~fPlan.new \/ fPlan.there

Init == /\ fPlan \in {p \in Plans : (p.delete => p.new) /\ (p.there => p.new)}
        /\ fFs = [p \in {"input", "output", "temp"} |-> CASE p = "input" -> Old [] p = "output" -> (IF fPlan.there THEN Other ELSE Absent) [] OTHER -> Absent]
        /\ fPc = "ask" /\ fLeft = Chunks /\ fExit = -1 /\ fInto = IF Protocol = "direct" THEN Target ELSE "temp"

Running == fExit = -1
Goto(pc) == fPc' = pc
Stop(code) == fExit' = code
Ask == fPc = "ask" /\ (IF Existed /\ ~fPlan.yes THEN Stop(0) /\ Goto("end") ELSE Goto("create") /\ UNCHANGED fExit) /\ UNCHANGED << fFs, fPlan, fLeft, fInto >>
Create == fPc = "create" /\ fFs' = [fFs EXCEPT ![fInto] = New(0)] /\ Goto("write") /\ UNCHANGED << fPlan, fLeft, fExit, fInto >>
Write == /\ fPc = "write" /\ fLeft > 0
         /\ fFs' = [fFs EXCEPT ![fInto] = New(@.n + 1)] /\ fLeft' = fLeft - 1
         /\ Goto("write") /\ UNCHANGED << fPlan, fExit, fInto >>
Written == fPc = "write" /\ fLeft = 0 /\ Goto(IF fInto = "temp" THEN "rename" ELSE "saved") /\ UNCHANGED << fFs, fPlan, fLeft, fExit, fInto >>
Replace == fPc = "rename" /\ fFs' = [fFs EXCEPT ![Target] = fFs["temp"], !["temp"] = Absent] /\ Goto("saved") /\ UNCHANGED << fPlan, fLeft, fExit, fInto >>
Saved == fPc = "saved" /\ (IF fPlan.delete THEN Goto("delete") /\ UNCHANGED fExit ELSE Stop(0) /\ Goto("end")) /\ UNCHANGED << fFs, fPlan, fLeft, fInto >>
Delete == fPc = "delete" /\ fFs' = [fFs EXCEPT !["input"] = Absent] /\ Stop(0) /\ Goto("end") /\ UNCHANGED << fPlan, fLeft, fInto >>
(* An operation fails: the temporary file is removed, the command fails.  The removal may fail too, and the *)
(* process may die before it. *)
FailOp == /\ fPc \in {"create", "write", "rename", "delete"}
          /\ IF Protocol = "fallback" /\ fInto = "temp" /\ fPc # "delete"
             THEN Goto("create") /\ fInto' = Target /\ fLeft' = Chunks
             ELSE Goto("clean") /\ UNCHANGED << fInto, fLeft >>
          /\ UNCHANGED << fFs, fPlan, fExit >>
Clean == /\ fPc = "clean"
         /\ \/ fFs' = [fFs EXCEPT !["temp"] = Absent]
            \/ fFs' = fFs
         /\ Stop(1) /\ Goto("end") /\ UNCHANGED << fPlan, fLeft, fInto >>
Die == Stop(9) /\ Goto("end") /\ UNCHANGED << fFs, fPlan, fLeft, fInto >>

Next == Running /\ (Ask \/ Create \/ Write \/ Written \/ Replace \/ Saved \/ Delete \/ FailOp \/ Clean \/ Die)
vars == << fFs, fPc, fPlan, fLeft, fInto, fExit >>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

(* ---- the promises ---- *)
Before(p) == CASE p = "input" -> Old [] OTHER -> IF fPlan.there THEN Other ELSE Absent
Complete == New(Chunks)
OldOrNew == /\ fFs["output"] \in {Before("output")} \cup (IF fPlan.new THEN {Complete} ELSE {})
            /\ fFs["input"] \in {Old} \cup (IF fPlan.new THEN {} ELSE {Complete}) \cup (IF fPlan.delete THEN {Absent} ELSE {})
DeletedLast == fFs["input"] = Absent => fPlan.delete /\ fFs["output"] = Complete
AskedFirst == Existed /\ ~fPlan.yes => fFs["input"] = Old /\ fFs["output"] = Before("output")
ExitTrue == fExit = 0 => \/ fFs[Target] = Complete /\ (fPlan.delete => fFs["input"] = Absent)
                         \/ Existed /\ ~fPlan.yes
FailureTrue == fExit = 1 => ~(fFs[Target] = Complete /\ (fPlan.delete => fFs["input"] = Absent))
NoLeftovers == fExit = 0 => fFs["temp"] = Absent
Ends == <>(~Running)

(* the atomic stages of Trace_Store: nothing, saved, old file removed *)
Stage == IF fFs[Target] # Complete THEN 0 ELSE IF fPlan.delete /\ fFs["input"] = Absent THEN 2 ELSE 1
Stages == [][Stage' \in {Stage, Stage + 1} /\ (Stage' # Stage => Cardinality({p \in {"input", "output"} : fFs'[p] # fFs[p]}) = 1)]_vars
=============================================================================
