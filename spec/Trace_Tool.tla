----------------------------- MODULE Trace_Tool -----------------------------
(* Conformance of recorded executions of the real tool.                     *)
(*                                                                          *)
(* A case is a history of commands in a scratch directory.  Each step holds *)
(* the arguments, the answers given, the directory before and after, the    *)
(* exit status and the output.  The specification performs the request on   *)
(* the recorded state before; the aspects the case looks at must agree with *)
(* the recorded state after.  Mass conversion is the machine of TiTools and *)
(* may process the directory in any order; a step marked straight is one on *)
(* which every order ends alike (MC_Mass: files with different names, none  *)
(* of whose outputs exists), so one will do.  A case is accepted if some    *)
(* behaviour of the specification agrees with every step.                   *)
EXTENDS TiTools, Search, Console

Blobs == ndJsonDeserialize(IOEnv.RUN_DIR \o "/blobs.ndjson")
Cases == ndJsonDeserialize(IOEnv.RUN_DIR \o "/cases.ndjson")
BlobOf(n) == Blobs[n]

(* Their names must not be used for anything else in any module: TLC would not cache constants that use them. *)
VARIABLES vCase,  \* the case
          vStep,  \* its current step; 0 when it has been rejected
          vMass   \* state of the mass conversion machine, or Idle

Idle == [idle |-> TRUE]
Case == Cases[vCase]
Step == Case.steps[vStep]

BareNode(r) == CASE r.k = "file" -> [kind |-> "file", blob |-> r.c]
                 [] r.k = "dir"  -> [kind |-> "dir"]
                 [] r.k = "link" -> [kind |-> "link", target |-> r.t]
NodeOf(r) == IF r.d = << >> THEN BareNode(r) ELSE BareNode(r) @@ [deny |-> ToSet(r.d)]
WorldOf(fs) == FoldLeft(LAMBDA w, r : TLCEval(w @@ (r.p :> NodeOf(r))), << >>, fs)

(* ------------------------------- comparing ------------------------------- *)
Matches(blob, content) ==
    CASE content.form = "text"  -> blob.u /\ blob.t = content.text
      [] content.form = "bytes" -> blob.b = content.bytes
      [] content.form = "json"  -> blob.j.ok /\ blob.j.program = content.program

SameNode(e, a) ==
    CASE e.kind = "dir"  -> a.kind = "dir"
      [] e.kind = "link" -> a.kind = "link" /\ a.target = e.target
      [] e.kind = "file" -> a.kind = "file" /\ a.blob = e.blob
      [] e.kind = "new"  -> a.kind = "file" /\ Matches(BlobOf(a.blob), e.content)

SameWorld(e, a) == DOMAIN e = DOMAIN a /\ \A p \in DOMAIN e : SameNode(e[p], a[p])
SamePaths(e, a) == DOMAIN e = DOMAIN a
Kept(e, a) == \A p \in DOMAIN e : e[p].kind # "new" => p \in DOMAIN a /\ SameNode(e[p], a[p])
NewPaths(e) == {p \in DOMAIN e : e[p].kind = "new"}

(* the part of a file that is the translated program: body bytes, or body text *)
BodyOfText(t) == LET l == Lines(t) IN JoinWith(SubSeq(l, 7, Len(l)), LF)
BodyOfBlob(blob, ext) ==
    IF ext = T("txt") THEN (IF blob.u THEN BodyOfText(blob.t) ELSE << -1 >>)
    ELSE IF ext = T("json") THEN (IF blob.j.ok THEN blob.j.program.body.bytes ELSE << -1 >>)
    ELSE SubSeq(blob.b, HeaderLen + MetaLen(ext) + 1, Len(blob.b) - 2)
BodyOfContent(content) ==
    IF content.form = "text" THEN BodyOfText(content.text)
    ELSE IF content.form = "json" THEN content.program.body.bytes
    ELSE SubSeq(content.bytes, HeaderLen + MetaLen(content.ext) + 1, Len(content.bytes) - 2)
SameBodies(e, a) ==
    /\ SamePaths(e, a)
    /\ \A p \in NewPaths(e) : a[p].kind = "file" /\ BodyOfBlob(BlobOf(a[p].blob), e[p].content.ext) = BodyOfContent(e[p].content)

(* everything but the body, given the body that was written *)
SameFrame(e, a) ==
    /\ SamePaths(e, a)
    /\ \A p \in NewPaths(e) :
          /\ a[p].kind = "file"
          /\ LET blob == BlobOf(a[p].blob)
                 content == e[p].content
             IN  IF content.form # "bytes" THEN Matches(blob, content)
                 ELSE LET n == HeaderLen + MetaLen(content.ext)
                          b == SubSeq(content.bytes, 1, 53) \o SubSeq(content.bytes, 56, 57) \o SubSeq(content.bytes, 60, n - 4)
                      IN  /\ SubSeq(blob.b, 1, 53) \o SubSeq(blob.b, 56, 57) \o SubSeq(blob.b, 60, n - 4) = b
                          /\ WellFormed(blob.b, content.ext)

(* name, comment, file type, destination, display mode and model of a text export; every other file up to its body *)
SameHead(e, a) ==
    \A p \in NewPaths(e) :
        /\ p \in DOMAIN a /\ a[p].kind = "file"
        /\ LET blob == BlobOf(a[p].blob) content == e[p].content
           IN  CASE content.form = "text" -> blob.u /\ Len(Lines(blob.t)) >= 6 /\ SubSeq(Lines(blob.t), 1, 6) = SubSeq(Lines(content.text), 1, 6)
                 [] OTHER -> TRUE

(* lengths and checksum of every program written; through a link a file may get what its name does not announce *)
Sound(e, a) == \A p \in NewPaths(e) : e[p].content.form = "bytes" => p \in DOMAIN a /\ a[p].kind = "file" /\ WellFormed(BlobOf(a[p].blob).b, e[p].content.ext)
CheckedSum(bytes, ext) ==
    /\ Len(bytes) >= HeaderLen + MetaLen(ext) + 2
    /\ SubSeq(bytes, Len(bytes) - 1, Len(bytes)) = LE16(Sum16(SubSeq(bytes, HeaderLen + 1, Len(bytes) - 2)))
SummedUp(e, a) == \A p \in NewPaths(e) : e[p].content.form = "bytes" => p \in DOMAIN a /\ a[p].kind = "file" /\ CheckedSum(BlobOf(a[p].blob).b, e[p].content.ext)

(* only names ending in txt or 8xp directly inside the output directory of a mass conversion may change, *)
(* and what existed only as often as the user said yes                                                   *)
Contained(r, before, after) ==
    LET changed == {p \in (DOMAIN before \cup DOMAIN after) : ~(p \in DOMAIN before /\ p \in DOMAIN after /\ before[p] = after[p])}
        yes == {i \in 1..Len(Step.answers) : Yes(Step.answers[i])}
    IN  /\ \A p \in changed :
              /\ r.kind = "convert" /\ r.mass /\ r.output # None
              /\ p \in DOMAIN after
              /\ \/ p \notin DOMAIN before /\ after[p].kind = "dir" /\ ResolveLink(before, r.output) = [status |-> "absent", at |-> p]
                 \/ /\ Exists(after, r.output)
                    /\ \/ p \in Entries(after, r.output) /\ Ext(p) \in {T("txt"), T("8xp")}
                       \* through a link that was in the output directory
                       \/ \E q \in Entries(before, r.output) : Ext(q) \in {T("txt"), T("8xp")} /\ before[q].kind = "link"
                                                                 /\ (Exists(after, q) /\ Resolve(after, q).at = p)
                    /\ after[p].kind = "file"
        /\ Cardinality({p \in changed \cap DOMAIN before : Exists(before, p)}) <= Cardinality(yes)   \* a link that leads nowhere is nothing

IsMass(r) == r.kind = "convert" /\ r.mass

Question == T("[y/N]")
Questions(out) == Cardinality({i \in 1..Len(out) : out[i] = Question[1] /\ IsPrefixAt(Question, out, i)})

StartsWith(t, p) == IsPrefixAt(p, t, 1)

(* what must be visible in the output of a request that was carried out *)
ShownOk(r, o, w) ==
    LET out == Step.out
    IN  CASE r.kind = "models" -> out = ModelsText
          [] r.kind = "help" -> HelpShown(IF r.topic \in Commands THEN {r.topic} ELSE Commands, StripAnsi(out))
          [] r.kind = "version" -> Trim(out) = ToolName \o << 32 >> \o ToolVersion
          [] r.kind = "details" -> o.done => out = Facts(Load(w, r.input, "accessible", "smart").program)
          [] r.kind = "convert" /\ ~r.mass ->
                LET l == IF ~Exists(w, r.input) \/ IsDir(w, r.input) \/ Ext(r.input) \notin Exts THEN Failed ELSE Load(w, r.input, IF ModeKnown(r.mode) THEN ModeNamed(r.mode) ELSE "accessible", IF EncKnown(r.enc) THEN EncNamed(r.enc) ELSE "smart")
                IN  /\ (o.exit = 0 /\ l.ok) =>
                      IF Ext(r.input) = T("json") /\ r.content
                      THEN /\ Step.outj.ok /\ Step.outj.program = l.program
                           /\ LET rest == SubSeq(out, Step.outj.next, Len(out))
                                  shown == NL \o NL \o Shown(l.program, Ext(r.input), TRUE, r.preview)
                              IN  StartsWith(rest, shown) /\ (r.output = None => rest = shown)
                      ELSE LET shown == Shown(l.program, Ext(r.input), r.content, r.preview)
                           IN  StartsWith(out, shown) /\ (r.output = None => out = shown)
                    \* what was not asked for is not shown
                    /\ (l.ok /\ ~r.content /\ ~r.preview) => ~Occurs(T("----- Status -----"), out) /\ ~Occurs(SubSeq(HexDump(AllBytes(l.program)), 1, 48), out)
          \* without an output path a mass conversion shows the programs one after the other
          [] r.kind = "convert" /\ r.mass ->
                (r.output = None /\ o.done /\ (r.content => \A i \in 1..Len(vMass.seen) : Ext(vMass.seen[i]) # T("json"))) =>
                    out = Concat([i \in 1..Len(vMass.seen) |-> Shown(Load(w, vMass.seen[i], ModeNamed(r.mode), EncNamed(r.enc)).program, Ext(vMass.seen[i]), r.content, r.preview)])
          [] r.kind = "search" -> LET f == Found(r.token, r.by)
                                  IN  IF f.ok THEN IsPrefixAt(FoundText(f.defs), out, Len(out) - Len(FoundText(f.defs)) + 1)
                                                   /\ (r.by # T("pretty") => out = FoundText(f.defs))
                                      ELSE TRUE
          [] OTHER -> TRUE

(* messages: an unsuccessful request says why and claims nothing; a successful one says what it did *)
Speakable(t) == \A i \in 1..Len(t) : t[i] # Esc      \* StripAnsi would take a part of it
SaysSaved(plain, name, path) == Speakable(name) /\ Speakable(path) => Occurs(SavedText(name, path), plain)
MessageOk(r, o, w) ==
    LET plain == StripAnsi(Step.out)
    IN  /\ (o.exit # 0 => ~Blank(plain) \/ ~Blank(Step.err))
        /\ r.kind = "edit" =>
              /\ Occurs(T("Successfully set"), plain) = o.done
              /\ Occurs(T("Deleted old file."), plain) = (\E p \in DOMAIN w : p \notin DOMAIN o.w)
              /\ (o.done /\ Speakable(r.arg) => Occurs(SetText(r.op, r.arg), plain) /\ Occurs(Styled(r.arg), Step.out))
        /\ (r.kind = "convert" /\ ~r.mass /\ r.output # None) =>
              /\ (~r.preview /\ ~r.content => Occurs(T("Successfully saved"), plain) = o.done)
              /\ (o.done => SaysSaved(plain, Load(w, r.input, ModeNamed(r.mode), EncNamed(r.enc)).program.metadata.name, r.output))
        /\ IsMass(r) => \A f \in vMass.said : SaysSaved(plain, f.name, f.path)

(* a failed request says so and leaves no trace but what the specification allows; a failed mass conversion keeps everything that was there *)
FailureOk(r, o, w, a) ==
    Step.exit # 0 => /\ ~Blank(StripAnsi(Step.out)) \/ ~Blank(Step.err)
                     /\ IF IsMass(r) THEN \A p \in DOMAIN w : p \in DOMAIN a /\ (w[p] = a[p] \/ Questions(Step.out) > 0)
                        ELSE w = a \/ (o.w # w /\ SameWorld(o.w, a))      \* the deletion after a save

SearchOutcome(w, r) == LET f == Found(r.token, r.by) IN Outcome(IF f.ok THEN 0 ELSE 1, w, 0, f.ok)

(* ------------------------------- judgement -------------------------------- *)
Before == TLCEval(WorldOf(Step.before))
After == TLCEval(WorldOf(Step.after))
TheRequest == TLCEval(Request(Step.argv))

Agrees(aspect, r, o, w, a) ==
    CASE aspect = "crash" -> ~Step.crash
      [] aspect = "exit"  -> (o.exit = 0) = (Step.exit = 0)
      [] aspect = "world" -> SameWorld(o.w, a)
      [] aspect = "paths" -> SamePaths(o.w, a)
      [] aspect = "kept"  -> Kept(o.w, a)
      [] aspect = "asks"  -> Questions(Step.out) = o.asks
      [] aspect = "body"  -> SameBodies(o.w, a)
      [] aspect = "frame" -> SameFrame(o.w, a)
      [] aspect = "sound" -> Sound(o.w, a)
      [] aspect = "sum"   -> SummedUp(o.w, a)
      [] aspect = "contained" -> Contained(r, w, a)
      [] aspect = "shown" -> ShownOk(r, o, w)
      [] aspect = "message" -> MessageOk(r, o, w)
      [] aspect = "head" -> SameHead(o.w, a)
      [] aspect = "failure" -> FailureOk(r, o, w, a)
      [] aspect = "untouched" -> o.w = w => w = a        \* a request that changes nothing changes nothing

Disagreements(r, o, w, a) == SelectSeq(Step.look, LAMBDA aspect : ~Agrees(aspect, r, o, w, a))

(* claims about the whole history *)
FileAt(ref) == LET w == WorldOf(Case.steps[ref.step].after) IN IF ref.path \in DOMAIN w /\ w[ref.path].kind = "file" THEN w[ref.path].blob ELSE 0
TextLines(n) == BodyLines(Lines(BlobOf(n).t))
Holds(claim) ==
    LET a == FileAt(claim.a) b == FileAt(claim.b)
    IN  (\A i \in 1..Len(claim.given) : FileAt(claim.given[i]) # 0) =>
        CASE claim.kind = "same" -> a # 0 /\ a = b
          [] claim.kind = "samebody" -> a # 0 /\ b # 0 /\ BodyOfBlob(BlobOf(a), Ext(claim.a.path)) = BodyOfBlob(BlobOf(b), Ext(claim.b.path))
          (* b is the text the program made from text a decodes to, in display mode claim.mode *)
          [] claim.kind = "lossless" ->
                /\ a # 0 /\ b # 0 /\ BlobOf(a).u /\ BlobOf(b).u
                /\ LET given == [i \in 1..Len(TextLines(a)) |-> Normalise(TextLines(a)[i])]
                       back == TextLines(b)
                   IN  IF claim.mode = "ti" THEN Len(back) = 1 /\ back[1] = Concat([i \in 1..Len(given) |-> IF i = 1 THEN given[1] ELSE T("D6") \o given[i]])
                       ELSE back = given
          (* two text exports that agree except for the comment *)
          [] claim.kind = "sametext" ->
                /\ a # 0 /\ b # 0 /\ BlobOf(a).u /\ BlobOf(b).u
                /\ [Lines(BlobOf(a).t) EXCEPT ![2] = << >>] = [Lines(BlobOf(b).t) EXCEPT ![2] = << >>]
BrokenClaims == SelectSeq([i \in 1..Len(Case.claims) |-> i], LAMBDA i : ~Holds(Case.claims[i]))

Finish ==
    IF BrokenClaims = << >> THEN PrintT(<< "ACCEPT", Case.id >>)
    ELSE PrintT(<< "REJECT", Case.id, 0, << "claim", Case.claims[BrokenClaims[1]].kind >> >>)

Advance(bad) ==
    /\ vMass' = Idle
    /\ vCase' = vCase
    /\ IF bad # << >> THEN /\ vStep' = 0
                           /\ PrintT(<< "REJECT", Case.id, vStep, bad >>)
       ELSE /\ vStep' = vStep + 1
            /\ vStep = Len(Case.steps) => Finish

PerformRequest ==
    /\ vMass = Idle
    /\ LET r == TheRequest w == Before IN
       /\ ~IsMass(r)
       /\ LET o == TLCEval(IF r.kind = "search" THEN SearchOutcome(w, r) ELSE Perform(w, r, Step.answers))
          IN  Advance(Disagreements(r, o, w, After))

MassBegin ==
    /\ vMass = Idle
    /\ IsMass(TheRequest)
    /\ vMass' = MassStart(Before, TheRequest, Step.answers)
    /\ UNCHANGED << vCase, vStep >>

MassEntry ==
    /\ vMass # Idle /\ ~MassDone(vMass)
    /\ IF vMass.pend # << >> THEN vMass' = MassPending(vMass) ELSE \E e \in (IF Step.straight THEN {CHOOSE x \in vMass.todo : TRUE} ELSE vMass.todo) : vMass' = MassStep(vMass, TheRequest, e)
    /\ UNCHANGED << vCase, vStep >>

MassEnd ==
    /\ vMass # Idle /\ MassDone(vMass)
    /\ LET o == MassOutcome(vMass) IN Advance(Disagreements(TheRequest, o, Before, After))

Init == vCase \in 1..Len(Cases) /\ vStep = 1 /\ vMass = Idle
Next == /\ vStep \in 1..Len(Case.steps)
        /\ PerformRequest \/ MassBegin \/ MassEntry \/ MassEnd
=============================================================================
