------------------------------ MODULE TiTools -------------------------------
(* What each command does: from the files, the arguments and the answers to *)
(* the files afterwards, the exit status and the number of questions.       *)
(*                                                                          *)
(* An outcome is [exit, w, asks, left, done]: exit status, files, number of *)
(* questions asked, answers left, and whether the request was carried out.  *)
EXTENDS ProgramFile, World, Cli

CONSTANT Blob(_)     \* content number -> [b: bytes, u: is UTF-8, t: text, j: json program]

Yes(answer) == Trim(answer) \in {T("y"), T("Y")}
(* the next answer; at the end of the input every answer is empty *)
Answer(answers) == IF answers = << >> THEN << >> ELSE answers[1]
Rest(answers) == IF answers = << >> THEN << >> ELSE Tail(answers)

Outcome(exit, w, asks, done) == [exit |-> exit, w |-> w, asks |-> asks, done |-> done]
Fail(w, asks) == Outcome(1, w, asks, FALSE)

(* ------------------------------- loading --------------------------------- *)
(* what a file written earlier in the same command reads as *)
BlobOfContent(c) ==
    CASE c.form = "bytes" -> [b |-> c.bytes, u |-> FALSE, t |-> << >>, j |-> [ok |-> FALSE]]
      [] c.form = "text"  -> [b |-> Utf8(c.text), u |-> TRUE, t |-> c.text, j |-> [ok |-> FALSE]]
      [] c.form = "json"  -> [b |-> << >>, u |-> FALSE, t |-> << >>, j |-> [ok |-> TRUE, program |-> c.program]]
NodeBlob(node) == IF node.kind = "new" THEN BlobOfContent(node.content) ELSE Blob(node.blob)

Load(w, path, mode, enc) ==
    IF ~IsFile(w, path) THEN Failed
    ELSE IF Denied(w[Resolve(w, path).at], "r") THEN Failed
    ELSE LET ext == Ext(path)
             blob == NodeBlob(w[Resolve(w, path).at])
         IN  IF ext \in ProgramExts THEN LoadXp(blob.b, ext, mode)
             ELSE IF ext = T("txt") THEN (IF blob.u THEN LoadText(blob.t, enc) ELSE Failed)
             ELSE IF ext = T("json") THEN LoadJson(blob.j)
             ELSE Failed

(* ------------------------------- saving ---------------------------------- *)
(* status "saved", "declined" or "failed" *)
Save(w, p, path, answers) ==
    IF Ext(path) \notin Exts THEN [status |-> "failed", w |-> w, asks |-> 0, left |-> answers]
    ELSE IF Exists(w, path) /\ ~Yes(Answer(answers)) THEN [status |-> "declined", w |-> w, asks |-> 1, left |-> Rest(answers)]
    ELSE LET asks == IF Exists(w, path) THEN 1 ELSE 0
             left == IF Exists(w, path) THEN Rest(answers) ELSE answers
         IN  IF CanWrite(w, path) THEN [status |-> "saved", w |-> Write(w, path, ContentOf(p, Ext(path))), asks |-> asks, left |-> left]
             ELSE [status |-> "failed", w |-> w, asks |-> asks, left |-> left]

(* ------------------------------- convert --------------------------------- *)
ModeNamed(t) == CHOOSE m \in DisplayModes : ModeText(m) = t
ModeKnown(t) == \E m \in DisplayModes : ModeText(m) = t
EncNamed(t) == CHOOSE e \in EncodeModes : T(e) = t
EncKnown(t) == \E e \in EncodeModes : T(e) = t

ConvertOne(w, r, answers) ==
    IF \/ ~Exists(w, r.input) \/ IsDir(w, r.input)
       \/ r.output = None /\ ~r.preview /\ ~r.content
       \/ Ext(r.input) \notin Exts \/ ~ModeKnown(r.mode) \/ ~EncKnown(r.enc) THEN Fail(w, 0)
    ELSE LET l == TLCEval(Load(w, r.input, ModeNamed(r.mode), EncNamed(r.enc)))
         IN  IF ~l.ok THEN Fail(w, 0)
             ELSE IF r.output = None THEN Outcome(0, w, 0, TRUE)
             ELSE LET s == Save(w, l.program, r.output, answers)
                  IN  Outcome(IF s.status = "failed" THEN 1 ELSE 0, s.w, s.asks, s.status = "saved")

(* -------------------------------- edits ---------------------------------- *)
EditOne(w, r, answers) ==
    LET l == TLCEval(IF Ext(r.input) \in ProgramExts THEN Load(w, r.input, "accessible", "smart") ELSE Failed)
    IN  IF ~l.ok \/ ~EditAllowed(r.op, r.arg) THEN Fail(w, 0)
        ELSE LET p == Recheck(Edit(l.program, r.op, r.arg))
                 target == IF r.new = None THEN r.input ELSE r.new
                 s == Save(w, p, target, answers)
             IN  IF s.status = "declined" THEN Outcome(0, s.w, s.asks, FALSE)
                 ELSE IF s.status = "failed" THEN Outcome(1, s.w, s.asks, FALSE)
                 ELSE IF r.delete /\ r.new # None /\ ~SameFile(s.w, r.input, r.new)
                      THEN (IF CanRemove(s.w, r.input) THEN Outcome(0, RemoveFile(s.w, r.input), s.asks, TRUE)
                            ELSE Outcome(1, s.w, s.asks, FALSE))
                      ELSE Outcome(0, s.w, s.asks, TRUE)

(* --------------------------- mass conversion ----------------------------- *)
(* A machine: the entries of the input directory are processed in any order. *)
(* State: [todo: entries, w, left: answers, asks, exit: -1 while running,     *)
(* pend: the second file of a JSON program, seen: without an output path, the *)
(* programs in the order they were converted, said: what was saved where]     *)
MassStart(w, r, answers) ==
    LET run(v, left, asks) == [todo |-> Entries(v, r.input), w |-> v, left |-> left, asks |-> asks, exit |-> -1, pend |-> << >>, seen |-> << >>, said |-> {}]
        stop(v, asks) == [todo |-> {}, w |-> v, left |-> << >>, asks |-> asks, exit |-> 1, pend |-> << >>, seen |-> << >>, said |-> {}]
        readable == May(w, Comps(Resolve(w, r.input).at), "r")
    IN  IF ~IsDir(w, r.input) \/ (r.output = None /\ ~r.preview /\ ~r.content) THEN stop(w, 0)
        ELSE IF r.output = None \/ Exists(w, r.output) THEN (IF readable THEN run(w, answers, 0) ELSE stop(w, 0))
        ELSE IF ~Yes(Answer(answers)) THEN stop(w, 1)
        ELSE LET l == ResolveLink(w, r.output)
             IN  IF l.status # "absent" \/ (r.output[Len(r.output)] = Dot /\ Slashed(r.output)) THEN stop(w, 1)
                 ELSE IF ~May(w, Parent(l.at), "w") THEN stop(w, 1)
                 ELSE LET v == (l.at :> NodeDir) @@ w
                      IN  IF readable THEN run(v, Rest(answers), 1) ELSE stop(v, 1)

(* the output of a program is named after it if its name is a plain file name, otherwise after the input *)
PlainName(name) == name # << >> /\ Comps(name) = << name >> /\ name # DotDot
OutputName(name, entry, ext) == IF PlainName(name) THEN name \o << Dot >> \o ext ELSE WithExt(BaseName(entry), ext)
InDir(dir, name) == IF dir[Len(dir)] = Slash THEN dir \o name ELSE dir \o << Slash >> \o name

MassSave(s, p, path) ==
    LET r == Save(s.w, p, path, s.left)
    IN  IF r.status = "saved" THEN [s EXCEPT !.w = r.w, !.left = r.left, !.asks = @ + r.asks,
                                             !.said = @ \cup {[name |-> p.metadata.name, path |-> path]}]
        ELSE LET skip == Yes(Answer(r.left))
             IN  [s EXCEPT !.w = r.w, !.left = Rest(r.left), !.asks = @ + r.asks + 1, !.pend = << >>,
                           !.exit = IF skip THEN -1 ELSE 0, !.todo = IF skip THEN @ ELSE {}]

(* A JSON file is written twice: the second file is pending until the next step. *)
MassPending(st) == MassSave([st EXCEPT !.pend = << >>], st.pend[1].program, st.pend[1].path)

MassStep(st, r, entry) ==
    LET s0 == [st EXCEPT !.todo = @ \ {entry}]
        ext == Ext(entry)
    IN  IF ext \notin Exts THEN s0
        ELSE IF ~ModeKnown(r.mode) \/ ~EncKnown(r.enc) THEN [s0 EXCEPT !.exit = 1, !.todo = {}]
        ELSE LET l == TLCEval(Load(st.w, entry, ModeNamed(r.mode), EncNamed(r.enc)))
             IN  IF ~l.ok THEN [s0 EXCEPT !.exit = 1, !.todo = {}]
                 ELSE IF r.output = None THEN [s0 EXCEPT !.seen = Append(@, entry)]
                 ELSE LET out(e) == InDir(r.output, OutputName(l.program.metadata.name, entry, e))
                          s1 == IF ext = T("json") THEN [s0 EXCEPT !.pend = << [program |-> l.program, path |-> out(T("8xp"))] >>] ELSE s0
                      IN  MassSave(s1, l.program, out(IF ext = T("txt") THEN T("8xp") ELSE T("txt")))

MassDone(st) == st.todo = {} /\ st.pend = << >>
MassOutcome(st) == Outcome(IF st.exit = -1 THEN 0 ELSE st.exit, st.w, st.asks, st.exit = -1)

(* ------------------------------ all others ------------------------------- *)
DetailsOne(w, r) ==
    LET l == IF Ext(r.input) \in ProgramExts THEN Load(w, r.input, "accessible", "smart") ELSE Failed
    IN  IF l.ok THEN Outcome(0, w, 0, TRUE) ELSE Fail(w, 0)

(* deterministic requests *)
Perform(w, r, answers) ==
    CASE r.kind = "convert" -> ConvertOne(w, r, answers)
      [] r.kind = "edit" -> EditOne(w, r, answers)
      [] r.kind = "details" -> DetailsOne(w, r)
      [] r.kind \in {"help", "version", "models"} -> Outcome(0, w, 0, TRUE)
      [] r.kind \in {"unknown", "refused"} -> Outcome(0, w, 0, FALSE)
      [] r.kind = "incomplete" -> Fail(w, 0)
=============================================================================
