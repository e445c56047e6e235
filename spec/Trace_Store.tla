----------------------------- MODULE Trace_Store ----------------------------
(* Executions of the real tool in which one file operation failed or during *)
(* which the process died (Case.fault is "error", "kill" or "none").        *)
(*                                                                          *)
(* A command is a sequence of atomic stages: nothing done, new file saved,  *)
(* old file deleted (MC_Store).  Whatever the fault, the directory must be  *)
(* as some stage leaves it, apart from temporary files; and an exit status  *)
(* of 0 means that the last stage was reached.  In a mass conversion each   *)
(* file is saved by such a stage, in any order, and a failing save is       *)
(* followed by the question whether to go on.                               *)
EXTENDS Trace_Tool

(* temporary files may be left behind: names the tool does not take for programs *)
Temporary(p) == p # << >> /\ Ext(p) \notin Exts
Visible(before, a) == [p \in {q \in DOMAIN a : q \in DOMAIN before \/ a[q].kind # "file" \/ ~Temporary(q)} |-> a[p]]
Fits(w, before) == SameWorld(w, Visible(before, After))

StagesOf(w, r, answers) ==
    IF r.kind = "edit"
    THEN LET saved == TLCEval(EditOne(w, [r EXCEPT !.delete = FALSE], answers))
             all == TLCEval(EditOne(w, r, answers))
         IN  << [w |-> w, last |-> all.w = w], [w |-> saved.w, last |-> all.w = saved.w], [w |-> all.w, last |-> TRUE] >>
    ELSE LET o == TLCEval(Perform(w, r, answers)) IN << [w |-> w, last |-> o.w = w], [w |-> o.w, last |-> TRUE] >>

Ended == Case.fault # "kill"          \* the tool ended by itself
TellsSuccess == Ended /\ Step.exit = 0

Accept == PrintT(<< "ACCEPT", Case.id >>)
Reject(why) == PrintT(<< "REJECT", Case.id, 1, << why >> >>)

Single ==
    /\ vMass = Idle /\ ~IsMass(TheRequest)
    /\ LET w == Before
           s == TLCEval(StagesOf(w, TheRequest, Step.answers))
           fits == {i \in 1..Len(s) : Fits(s[i].w, w)}
           told == {i \in fits : TellsSuccess => s[i].last}
       IN  IF told # {} THEN Accept ELSE Reject(IF fits = {} THEN "stage" ELSE "success")
    /\ vStep' = 0 /\ UNCHANGED << vCase, vMass >>

(* ---- mass conversion: the machine of TiTools with a fault ---- *)
FaultyStart ==
    /\ vMass = Idle /\ IsMass(TheRequest)
    /\ \/ vMass' = [m |-> MassStart(Before, TheRequest, Step.answers), used |-> FALSE]
       \* the fault prevents the creation of the directory or its reading
       \/ vMass' = [m |-> [MassStart(Before, TheRequest, Step.answers) EXCEPT !.todo = {}, !.exit = 1], used |-> TRUE]
       \/ vMass' = [m |-> [MassStart(Before, TheRequest, Step.answers) EXCEPT !.todo = {}, !.exit = 1, !.w = Before], used |-> TRUE]
    /\ UNCHANGED << vCase, vStep >>

(* instead of what the machine does next, a save fails, or the input cannot be read; *)
(* a save may also be reported as failed once the file is in place                   *)
SaveFails(st, path) ==
    LET there == Exists(st.w, path)
        left == IF there THEN Rest(st.left) ELSE st.left
        skip == Yes(Answer(left))
    IN  [st EXCEPT !.left = Rest(left), !.asks = @ + (IF there THEN 2 ELSE 1), !.pend = << >>,
                   !.exit = IF skip THEN -1 ELSE 0, !.todo = IF skip THEN @ ELSE {}]
Unread(st, e) == [st EXCEPT !.todo = {}, !.exit = 1]
Reported(after, failed) == [failed EXCEPT !.w = after.w]
FailsAt(st, r, e) ==
    LET l == TLCEval(IF ModeKnown(r.mode) /\ EncKnown(r.enc) THEN Load(st.w, e, ModeNamed(r.mode), EncNamed(r.enc)) ELSE Failed)
    IN  IF Ext(e) \in Exts /\ l.ok /\ r.output # None
        THEN SaveFails([st EXCEPT !.todo = @ \ {e}], InDir(r.output, OutputName(l.program.metadata.name, e, IF Ext(e) = T("txt") THEN T("8xp") ELSE T("txt"))))
        ELSE st

(* one fault, or from some point on every save (a full disk) *)
MayFail == ~vMass.used \/ Case.fault = "full"

FaultyStep ==
    /\ vMass # Idle /\ vStep = 1 /\ ~MassDone(vMass.m)
    /\ LET st == vMass.m r == TheRequest IN
       IF st.pend # << >>
       THEN \/ vMass' = [vMass EXCEPT !.m = MassPending(st)]
            \/ MayFail /\ vMass' = [vMass EXCEPT !.m = SaveFails(st, st.pend[1].path), !.used = TRUE]
            \/ MayFail /\ vMass' = [vMass EXCEPT !.m = Reported(MassPending(st), SaveFails(st, st.pend[1].path)), !.used = TRUE]
       ELSE \E e \in st.todo :
            \/ vMass' = [vMass EXCEPT !.m = MassStep(st, r, e)]
            \/ MayFail /\ vMass' = [vMass EXCEPT !.m = FailsAt(st, r, e), !.used = TRUE]
            \/ MayFail /\ vMass' = [vMass EXCEPT !.m = Reported(MassStep(st, r, e), FailsAt(st, r, e)), !.used = TRUE]
            \/ MayFail /\ vMass' = [vMass EXCEPT !.m = Unread(st, e), !.used = TRUE]
    /\ UNCHANGED << vCase, vStep >>

(* the process may die at any point; if it ends by itself the machine must have ended *)
FaultyEnd ==
    /\ vMass # Idle /\ vStep = 1
    /\ LET st == vMass.m
           exit == IF st.exit = -1 THEN 0 ELSE st.exit
           may == Ended => MassDone(st) /\ ((Step.exit = 0) = (exit = 0))
       IN  IF may /\ Fits(st.w, Before) THEN Accept ELSE MassDone(st) /\ Reject("stage")
    /\ vStep' = 0 /\ UNCHANGED << vCase, vMass >>

StoreNext == vStep = 1 /\ (Single \/ FaultyStart \/ FaultyStep \/ FaultyEnd)
=============================================================================
