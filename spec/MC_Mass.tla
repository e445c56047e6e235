------------------------------- MODULE MC_Mass -------------------------------
(* Mass conversion of small directories, in every order: what the machine of *)
(* TiTools promises whatever the names in the files and the answers.         *)
EXTENDS TiTools

VARIABLES gCase, gMass     \* the scenario; the state of the machine
Names == {T("A"), T("B"), T("../X"), T(""), T("/x"), T("A/B"), T(".."), T("C.D")}
Extras == {"none", "there", "dir", "link"}

File8(name) == LET hdr == Sig83F \o << 26, 10, 0 >> \o PadTo(T("c"), 42)
                   meta == << 13, 0, 4, 0, 5 >> \o PadTo(name, 8) \o << 0, 0, 4, 0, 2, 0 >>
               IN  hdr \o << 21, 0 >> \o meta \o << 65, 66 >> \o CheckBytes(meta, << 65, 66 >>)
TextFile(name) == JoinWith(<< name, T("c"), T("Program"), T("RAM"), T("accessible"), T("latest"), T("A") >>, LF)

(* the files: a program, a text, an exported program (which may carry any name) and one that is none of these *)
Programs == [n \in Names \cup {T("C")} |-> [b |-> File8(n), u |-> FALSE, t |-> << >>, j |-> Failed]]
Texts == [n \in Names |-> [b |-> << >>, u |-> TRUE, t |-> TextFile(n), j |-> Failed]]
Exports == [n \in Names \cup {T("C")} |-> [b |-> << >>, u |-> FALSE, t |-> << >>, j |-> [ok |-> TRUE, program |-> LoadXp(File8(n), T("8xp"), "accessible").program]]]
BlobNow(n) == CASE n = 1 -> Programs[gCase.n1] [] n = 2 -> Texts[gCase.n2] [] n = 3 -> Exports[gCase.n3]
                [] OTHER -> [b |-> T("B"), u |-> TRUE, t |-> T("B"), j |-> Failed]

World(s) ==
    LET base == (T("in") :> NodeDir) @@ (T("in/p.8xp") :> [kind |-> "file", blob |-> 1]) @@ (T("in/q.txt") :> [kind |-> "file", blob |-> 2])
                @@ (T("in/r.json") :> [kind |-> "file", blob |-> 3]) @@ (T("in/s.bin") :> [kind |-> "file", blob |-> 4])
        out == IF s.out THEN base @@ (T("out") :> NodeDir) ELSE base
    IN  CASE s.extra = "none" \/ ~s.out -> out
          [] s.extra = "there" -> out @@ (T("out/A.txt") :> [kind |-> "file", blob |-> 4])
          [] s.extra = "dir" -> out @@ (T("out/A.txt") :> NodeDir)
          [] s.extra = "link" -> out @@ (T("out/A.txt") :> [kind |-> "link", target |-> T("../in/p.8xp")])
Req == [kind |-> "convert", input |-> T("in"), output |-> T("out"), mode |-> T("accessible"), enc |-> T("smart"), content |-> FALSE, preview |-> FALSE, mass |-> TRUE]
No == T("n")
Sure == T("y")
AnswerLists == {<< >>, << Sure >>, << No, Sure >>, << Sure, Sure, Sure >>}
Scenarios == [n1 : Names, n2 : {T("A"), T("B")}, n3 : {T("A"), T("../X"), T("C")}, out : BOOLEAN, extra : Extras, answers : AnswerLists]

Init == /\ gCase \in {s \in Scenarios : (~s.out => s.extra = "none") /\ (s.extra # "none" => s.n3 # T("C"))}
        /\ gMass = MassStart(World(gCase), Req, gCase.answers)
Next == /\ ~MassDone(gMass) /\ UNCHANGED gCase
        /\ IF gMass.pend # << >> THEN gMass' = MassPending(gMass)
           ELSE \E e \in gMass.todo : gMass' = MassStep(gMass, Req, e)

Before == World(gCase)
Yeses == Cardinality({i \in 1..Len(gCase.answers) : Yes(gCase.answers[i])})
Touched == {p \in DOMAIN Before : p \notin DOMAIN gMass.w \/ gMass.w[p] # Before[p]}
(* only the output directory, the files directly in it, and what they link to change *)
Inside == /\ \A p \in DOMAIN gMass.w \ DOMAIN Before :
                p = T("out") \/ (p \in Entries(gMass.w, T("out")) /\ Ext(p) \in {T("txt"), T("8xp")} /\ gMass.w[p].kind = "new")
          /\ \A p \in Touched : Exists(Before, T("out/A.txt")) /\ Resolve(Before, T("out/A.txt")).at = p
          /\ Cardinality(Touched) <= Yeses
InputsKept == gCase.extra # "link" => \A p \in {T("in/p.8xp"), T("in/q.txt"), T("in/r.json"), T("in/s.bin")} : gMass.w[p] = Before[p]
(* every file by itself: the result does not depend on the order *)
Alone(entry) == Load(Before, entry, "accessible", "smart").program
Plainly == PlainName(gCase.n1) /\ gCase.n1 # gCase.n2 /\ gCase.n1 # gCase.n3 /\ gCase.n2 # gCase.n3 /\ PlainName(gCase.n3)
Expected ==
    LET o(p, e) == (T("out/") \o p.metadata.name \o T(".") \o e) :> [kind |-> "new", content |-> ContentOf(p, e)]
        p == Alone(T("in/p.8xp")) q == Alone(T("in/q.txt")) r == Alone(T("in/r.json"))
    IN  o(p, T("txt")) @@ o(q, T("8xp")) @@ o(r, T("txt")) @@ o(r, T("8xp")) @@ Before @@ (T("out") :> NodeDir)
Result == MassDone(gMass) /\ Plainly /\ gCase.extra = "none" /\ (gCase.out \/ (gCase.answers # << >> /\ Yes(gCase.answers[1])))
          => gMass.exit = -1 /\ gMass.w = Expected
Refused == ~gCase.out /\ ~(gCase.answers # << >> /\ Yes(gCase.answers[1])) => gMass.exit = 1 /\ gMass.w = Before
=============================================================================
