---------------------------- MODULE TokenSheet -----------------------------
(* The TI token sheet: which tokens exist for which model and OS version,   *)
(* and what they are called.  The data file is made from the XML edition.   *)
EXTENDS Models

SheetRaw == ndJsonDeserialize(SpecDir \o "/data/sheet.ndjson")

(* ---- OS versions: written numbers separated by dots, or "latest" ---- *)
LatestText == T("latest")
Digits == 48..57
(* a component that is not a number counts as zero *)
Number(t) ==
    IF t = << >> \/ \E i \in 1..Len(t) : t[i] \notin Digits THEN 0
    ELSE FoldLeft(LAMBDA a, c : a * 10 + (c - 48), 0, t)
Components(v) == [k \in 1..Len(SplitAt(v, 46)) |-> Number(SplitAt(v, 46)[k])]

(* lexicographic order of sequences of numbers: -1, 0 or 1 *)
CompareSeqs(a, b) ==
    LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
        D == {i \in 1..n : a[i] # b[i]}
    IN  IF D = {} THEN (IF Len(a) = Len(b) THEN 0 ELSE IF Len(a) < Len(b) THEN -1 ELSE 1)
        ELSE LET i == CHOOSE i \in D : \A j \in D : i <= j IN IF a[i] < b[i] THEN -1 ELSE 1

(* rank: the empty version is below, "latest" above every other version *)
VersionRank(v) == IF v = LatestText THEN 2 ELSE IF v = << >> THEN 0 ELSE 1
CompareVersions(v, w) ==
    IF VersionRank(v) # VersionRank(w) THEN (IF VersionRank(v) < VersionRank(w) THEN -1 ELSE 1)
    ELSE IF VersionRank(v) # 1 THEN 0
    ELSE CompareSeqs(Components(v), Components(w))

(* targets [order, version]; models of one generation are compared by version *)
CompareTargets(s, t) ==
    IF s.order # t.order THEN (IF s.order < t.order THEN -1 ELSE 1)
    ELSE CompareVersions(s.version, t.version)
AtMost(s, t) == CompareTargets(s, t) <= 0

LatestOf(order) == [order |-> order, version |-> LatestText]

(* ---- the sheet ---- *)
KeyRank(k) == IF Len(k) = 1 THEN k[1] ELSE 65536 + 256 * k[1] + k[2]

Entry(r) == [key |-> r.key, rank |-> KeyRank(r.key),
             since |-> [order |-> ModelNamed(r.since.model).order, version |-> r.since.version],
             bounded |-> r.until.model # "",
             until |-> [order |-> ModelNamed(r.until.model).order, version |-> r.until.version],
             ti |-> r.ti, pretty |-> r.pretty, accessible |-> r.accessible]
Sheet == TLCEval([i \in 1..Len(SheetRaw) |-> Entry(SheetRaw[i])])

Applies(e, target) == AtMost(e.since, target) /\ (e.bounded => AtMost(target, e.until))

(* the tokens of a target: for each key the last listed entry that applies *)
ActiveTokens(target) ==
    LET idx == SelectSeq([i \in 1..Len(Sheet) |-> i], LAMBDA i : Applies(Sheet[i], target))
        last == SelectSeq([n \in 1..Len(idx) |-> n],
                          LAMBDA n : n = Len(idx) \/ Sheet[idx[n]].key # Sheet[idx[n + 1]].key)
    IN  [n \in 1..Len(last) |-> Sheet[idx[last[n]]]]

DisplayModes == {"pretty", "accessible", "ti"}
NameIn(e, mode) == CASE mode = "ti" -> e.ti [] mode = "pretty" -> e.pretty [] mode = "accessible" -> e.accessible

(* token tables per generation (every model stands for the latest OS version of its generation) *)
TokensOf == TLCEval([o \in Orders |-> TLCEval(ActiveTokens(LatestOf(o)))])

(* key -> entry *)
ByKey == TLCEval([o \in Orders |-> TLCEval(FoldLeft(LAMBDA f, e : TLCEval(f @@ (e.rank :> e)), << >>, TokensOf[o]))])

(* For matching: the tokens whose name starts with a given code point, by descending (or ascending) length of *)
(* the name and then ascending byte code.                                                                     *)
Item(e, m) == [name |-> NameIn(e, m), key |-> e.key, rank |-> e.rank, alpha |-> AllAlpha(NameIn(e, m))]
Longer(a, b)  == Len(a.name) > Len(b.name) \/ (Len(a.name) = Len(b.name) /\ a.rank < b.rank)
Shorter(a, b) == Len(a.name) < Len(b.name) \/ (Len(a.name) = Len(b.name) /\ a.rank < b.rank)
Buckets(o, m, Before(_, _)) ==
    LET Tok == TokensOf[o]
        ByLead(a, b) == a.name[1] < b.name[1] \/ (a.name[1] = b.name[1] /\ Before(a, b))
        S == TLCEval(SortSeq([i \in 1..Len(Tok) |-> Item(Tok[i], m)], ByLead))
        starts == SelectSeq([n \in 1..Len(S) |-> n], LAMBDA n : n = 1 \/ S[n].name[1] # S[n - 1].name[1])
        bucket(k) == SubSeq(S, starts[k], IF k = Len(starts) THEN Len(S) ELSE starts[k + 1] - 1)
    IN  FoldLeft(LAMBDA f, k : TLCEval(f @@ (S[starts[k]].name[1] :> bucket(k))), << >>, [k \in 1..Len(starts) |-> k])
LongestFirst  == TLCEval([o \in Orders |-> TLCEval([m \in DisplayModes |-> Buckets(o, m, Longer)])])
ShortestFirst == TLCEval([o \in Orders |-> TLCEval([m \in DisplayModes |-> Buckets(o, m, Shorter)])])
=============================================================================
