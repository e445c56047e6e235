------------------------------ MODULE Scenario ------------------------------
(* All histories of a given set of commands over a given directory, up to a *)
(* depth: TLC explores the worlds they lead to, checks on every step what   *)
(* the listed properties promise, and prints each step with the shortest    *)
(* history leading to it.  The histories are then replayed on the real tool *)
(* and judged by Trace_Tool, so every step of this graph is executed.       *)
EXTENDS TiTools

Blobs == ndJsonDeserialize(IOEnv.RUN_DIR \o "/blobs.ndjson")
BlobOf(n) == Blobs[n]
Setup == ndJsonDeserialize(IOEnv.RUN_DIR \o "/setup.ndjson")[1]
(* [argv, answers]; what they ask for is the same in every world *)
Alphabet == ndJsonDeserialize(IOEnv.RUN_DIR \o "/commands.ndjson")
Requests == TLCEval([i \in 1..Len(Alphabet) |-> TLCEval(Request(Alphabet[i].argv))])

VARIABLES sWorld,    \* the directory
          sHist      \* the commands that led to it

BareNode(r) == CASE r.k = "file" -> [kind |-> "file", blob |-> r.c]
                 [] r.k = "dir"  -> [kind |-> "dir"]
                 [] r.k = "link" -> [kind |-> "link", target |-> r.t]
Start0 == TLCEval(FoldLeft(LAMBDA w, r : TLCEval(w @@ (r.p :> BareNode(r))), << >>, Setup.files))

(* a mass conversion ends in as many ways as there are orders *)
RECURSIVE MassEnds(_, _)
MassEnds(m, r) == IF MassDone(m) THEN {MassOutcome(m)}
                  ELSE IF m.pend # << >> THEN MassEnds(MassPending(m), r)
                  ELSE UNION {MassEnds(MassStep(m, r, e), r) : e \in m.todo}
Outcomes(w, r, answers) ==
    IF r.kind = "convert" /\ r.mass THEN MassEnds(MassStart(w, r, answers), r) ELSE {Perform(w, r, answers)}

Init == sWorld = Start0 /\ sHist = << >>
Do(i) == \E o \in Outcomes(sWorld, Requests[i], Alphabet[i].answers) :
            /\ sWorld' = o.w
            /\ sHist' = Append(sHist, i)
            /\ PrintT(<< "STEP", sHist', o.exit, o.asks >>)
Next == Len(sHist) < Setup.depth /\ \E i \in 1..Len(Alphabet) : Do(i)
View == sWorld

(* ------------------------- promises, step by step ------------------------- *)
Latest == sHist'[Len(sHist')]
Req == Requests[Latest]
Said == Alphabet[Latest].answers
Changed == {p \in DOMAIN sWorld : p \notin DOMAIN sWorld' \/ sWorld'[p] # sWorld[p]}
Added == DOMAIN sWorld' \ DOMAIN sWorld
NodeIn(w, path) == w[Resolve(w, path).at]
Mass == Req.kind = "convert" /\ Req.mass

(* C11: what existed is only replaced after a yes, or removed by delete-old *)
Asked == LET yes == Cardinality({i \in 1..Len(Said) : Yes(Said[i])})
             removed == Changed \ DOMAIN sWorld'
         IN  /\ Cardinality({p \in Changed \ removed : Exists(sWorld, p)}) <= yes
             /\ removed # {} => /\ Req.kind = "edit" /\ Req.delete /\ Req.new # None
                                /\ removed = {ResolveLink(sWorld, Req.input).at}
(* C13: the old file goes only when the new one is there, and it is another file *)
Replaced == Changed \ DOMAIN sWorld' # {} => IsFile(sWorld', Req.new) /\ NodeIn(sWorld', Req.new).kind = "new"
(* C12, C16: at most one file and its removal change in a single command; it changes nothing unless it is an edit or has an output *)
Few == ~Mass => Cardinality(Added) + Cardinality(Changed \cap DOMAIN sWorld') <= 1
Quiet == Req.kind \notin {"edit", "convert"} \/ (Req.kind = "convert" /\ Req.output = None) => sWorld' = sWorld
(* C14: mass conversion writes in its output directory *)
Within == Mass => \A p \in Added \cup Changed :
             \/ Resolve(sWorld', Req.output).at = p /\ sWorld'[p].kind = "dir"
             \/ p \in Entries(sWorld', Req.output) /\ Ext(p) \in {T("txt"), T("8xp")}
             \/ p \in Changed /\ \E q \in Entries(sWorld, Req.output) : Exists(sWorld, q) /\ Resolve(sWorld, q).at = p
Steps == [][Asked /\ Replaced /\ Few /\ Quiet /\ Within]_<< sWorld, sHist >>

(* C10: every program file written is well formed if those at the start were *)
SoundFiles == \A p \in DOMAIN sWorld : (sWorld[p].kind = "new" /\ Ext(p) \in ProgramExts) =>
                  sWorld[p].content.form = "bytes" /\ WellFormed(sWorld[p].content.bytes, sWorld[p].content.ext)
(* C07, C08, C18: whatever was done, a written program file reads back and is written identically again *)
Stable == \A p \in DOMAIN sWorld : (sWorld[p].kind = "new" /\ Ext(p) \in ProgramExts) =>
              LET l == TLCEval(Load(sWorld, p, "accessible", "smart"))
              IN  l.ok /\ ContentOf(l.program, Ext(p)) = sWorld[p].content
=============================================================================
