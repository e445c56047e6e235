----------------------------- MODULE Trace_Pair -----------------------------
(* Commands that run at the same time, recorded turn by turn: one of them    *)
(* runs until it is paused before one of its file operations or ends, then   *)
(* another, and so on.                                                        *)
(*                                                                            *)
(* A command is a sequence of atomic steps: it loads its input, asks about    *)
(* the output if that exists, finds out where the output goes, puts the whole *)
(* file there, and then removes its old file.  During its turn it makes any   *)
(* number of steps, and the others none.  After every turn the directory must  *)
(* be as the steps made so far leave it: every file is what it was or what    *)
(* one of the commands saved, completely.  MC_Pair shows why these steps are  *)
(* atomic although each consists of several file operations.                  *)
EXTENDS Trace_Store

VARIABLE vPair    \* [w: the files, p: the commands]

TurnRequest(who) == Request(Case.argvs[who])
Command(who) == [who |-> who, phase |-> "begin", r |-> TurnRequest(who), left |-> Case.answers[who], asks |-> 0, exit |-> -1,
                 program |-> << >>, path |-> << >>, at |-> << >>, todo |-> {}, pend |-> << >>]

At(c, phase) == [c EXCEPT !.phase = phase]
Over(c, exit) == [c EXCEPT !.phase = "end", !.exit = exit, !.todo = {}, !.pend = << >>]
EncOf(r) == EncNamed(r.enc)

(* the next file of a mass conversion, or its end *)
More(c) == IF c.pend # << >> THEN [c EXCEPT !.phase = "ask", !.program = c.pend[1].program, !.path = c.pend[1].path, !.pend = << >>]
           ELSE IF c.todo = {} THEN Over(c, 0) ELSE At(c, "next")
NotSaved(c, single) ==
    IF ~IsMass(c.r) THEN Over(c, single)
    ELSE LET d == [c EXCEPT !.asks = @ + 1, !.left = Rest(@), !.pend = << >>]
         IN  IF Yes(Answer(c.left)) THEN More(d) ELSE Over(d, 0)

(* loading a single file *)
TakesIn(c, w) ==
    LET r == c.r
        l == TLCEval(IF r.kind = "edit" THEN (IF Ext(r.input) \in ProgramExts THEN Load(w, r.input, "accessible", "smart") ELSE Failed)
                     ELSE IF ~Exists(w, r.input) \/ IsDir(w, r.input) \/ (r.output = None /\ ~r.preview /\ ~r.content)
                             \/ Ext(r.input) \notin Exts \/ ~ModeKnown(r.mode) \/ ~EncKnown(r.enc) THEN Failed
                     ELSE Load(w, r.input, ModeNamed(r.mode), EncOf(r)))
    IN  IF ~l.ok THEN Over(c, 1)
        ELSE IF r.kind = "edit"
        THEN (IF ~EditAllowed(r.op, r.arg) THEN Over(c, 1)
              ELSE [c EXCEPT !.phase = "ask", !.program = Recheck(Edit(l.program, r.op, r.arg)), !.path = IF r.new = None THEN r.input ELSE r.new])
        ELSE IF r.output = None THEN Over(c, 0)
        ELSE [c EXCEPT !.phase = "ask", !.program = l.program, !.path = r.output]

(* loading one file of a mass conversion *)
TakesEntry(c0, w, e) ==
    LET c == [c0 EXCEPT !.todo = @ \ {e}]
        l == TLCEval(Load(w, e, ModeNamed(c.r.mode), EncOf(c.r)))
        out(ext) == InDir(c.r.output, OutputName(l.program.metadata.name, e, ext))
    IN  IF Ext(e) \notin Exts THEN More(c)
        ELSE IF ~l.ok THEN Over(c, 1)
        ELSE [c EXCEPT !.phase = "ask", !.program = l.program, !.path = out(IF Ext(e) = T("txt") THEN T("8xp") ELSE T("txt")),
                       !.pend = IF Ext(e) = T("json") THEN << [program |-> l.program, path |-> out(T("8xp"))] >> ELSE << >>]

(* the steps command c can make on files w: pairs of the command and the files afterwards *)
Moves(c, w) ==
    LET r == c.r stay(d) == << d, w >> IN
    CASE c.phase = "begin" ->
            IF r.kind \notin {"convert", "edit"} THEN {stay(Over(c, Perform(w, r, c.left).exit))}
            ELSE IF ~IsMass(r) THEN {stay(TakesIn(c, w))}
            ELSE IF ~IsDir(w, r.input) THEN {stay(Over(c, 1))}
            ELSE IF Exists(w, r.output) THEN {stay(At(c, "list"))}
            ELSE IF Yes(Answer(c.left)) THEN {stay([c EXCEPT !.phase = "mkdir", !.asks = 1, !.left = Rest(@)])}
            ELSE {stay([Over(c, 1) EXCEPT !.asks = 1])}
      [] c.phase = "mkdir" ->
            LET l == ResolveLink(w, r.output)
            IN  IF l.status = "absent" THEN {<< At(c, "list"), (l.at :> NodeDir) @@ w >>}
                ELSE {stay(Over(c, 1))} \cup (IF IsDir(w, r.output) THEN {stay(At(c, "list"))} ELSE {})
      [] c.phase = "list" -> {stay(More([c EXCEPT !.todo = Entries(w, r.input)]))}
      [] c.phase = "next" -> {stay(TakesEntry(c, w, e)) : e \in c.todo}
      [] c.phase = "ask" ->
            IF Ext(c.path) \notin Exts THEN {stay(NotSaved(c, 1))}
            ELSE IF ~Exists(w, c.path) THEN {stay(At(c, "aim"))}
            ELSE LET d == [c EXCEPT !.asks = @ + 1, !.left = Rest(@)]
                 IN  IF Yes(Answer(c.left)) THEN {stay(At(d, "aim"))} ELSE {stay(NotSaved(d, 0))}
      [] c.phase = "aim" -> LET t == WriteTarget(w, c.path) IN IF t.status = "none" THEN {stay(NotSaved(c, 1))} ELSE {stay([c EXCEPT !.phase = "save", !.at = t.at])}
      [] c.phase = "save" ->
            LET v == (c.at :> [kind |-> "new", content |-> ContentOf(c.program, Ext(c.path))]) @@ w
            IN  {<< IF IsMass(r) THEN More(c) ELSE IF r.kind = "edit" /\ r.delete /\ r.new # None THEN At(c, "compare") ELSE Over(c, 0), v >>}
      [] c.phase = "compare" -> {stay(IF SameFile(w, r.input, r.new) THEN Over(c, 0) ELSE At(c, "remove"))}
      [] c.phase = "remove" -> IF CanRemove(w, r.input) THEN {<< Over(c, 0), RemoveFile(w, r.input) >>} ELSE {stay(Over(c, 1))}
      [] c.phase = "end" -> {}

(* ------------------------------- judgement -------------------------------- *)
First == TLCEval(WorldOf(Case.steps[1].before))
Seen == TLCEval(Visible(First, After))
Mover == vPair.p[Step.who]

TurnAgrees ==
    /\ SameWorld(vPair.w, Seen)
    /\ Step.ended => Mover.phase = "end" /\ (Mover.exit = 0) = (Step.exit = 0) /\ Questions(Step.out) = Mover.asks /\ ~Step.crash

PairInit == vCase \in 1..Len(Cases) /\ vStep = 1 /\ vMass = Idle /\ vPair = << >>
PairBegin ==
    /\ vPair = << >> /\ vPair' = [w |-> First, p |-> [i \in 1..Len(Case.argvs) |-> Command(i)]]
    /\ PrintT(<< "REJECT", Case.id, 1, << "order" >> >>)      \* unless it is accepted
    /\ UNCHANGED << vCase, vStep, vMass >>
PairMove ==
    /\ vPair # << >> /\ Mover.phase # "end"
    /\ \E m \in Moves(Mover, vPair.w) : vPair' = [w |-> m[2], p |-> [vPair.p EXCEPT ![Step.who] = m[1]]]
    /\ UNCHANGED << vCase, vStep, vMass >>
PairTurn ==
    /\ vPair # << >> /\ TurnAgrees
    /\ IF vStep = Len(Case.steps) THEN PrintT(<< "ACCEPT", Case.id >>) /\ vStep' = 0
       ELSE vStep' = vStep + 1
    /\ vPair' = [vPair EXCEPT !.w = Seen]
    /\ UNCHANGED << vCase, vMass >>
PairNext == vStep \in 1..Len(Case.steps) /\ (PairBegin \/ PairMove \/ PairTurn)
=============================================================================
