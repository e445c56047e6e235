------------------------------ MODULE MC_Sheet ------------------------------
(* Facts about the token sheet and the order of targets that the other       *)
(* arguments rest on, checked for every pair of targets and every table.     *)
EXTENDS Codec

VARIABLES vA, vB

Versions == {T("latest"), << >>} \cup {T("1.0"), T("1.9"), T("1.10"), T("1.16"), T("2.55"), T("2.100"), T("5.0.1"), T("5.1"), T("10.0")}
Targets == [order : Orders, version : Versions]

Init == vA \in Targets /\ vB \in Targets
Next == UNCHANGED << vA, vB >>

(* the order is total and a target equals itself; transitivity over all third targets *)
TotalOrder ==
    /\ CompareTargets(vA, vA) = 0
    /\ CompareTargets(vA, vB) = -CompareTargets(vB, vA)
    /\ \A x \in Targets : AtMost(vA, vB) /\ AtMost(vB, x) => AtMost(vA, x)
    /\ (CompareTargets(vA, vB) = 0 => vA = vB)
    /\ AtMost(vA, LatestOf(Newest))

(* tables: for the pairs (vA, vA) *)
Diagonal == vA = vB
OneEntryPerKey == Diagonal => LET a == ActiveTokens(vA) IN Cardinality({a[i].key : i \in 1..Len(a)}) = Len(a)
PrefixFree == Diagonal => LET a == ActiveTokens(vA) one == {a[i].key[1] : i \in {j \in 1..Len(a) : Len(a[j].key) = 1}}
                          IN  \A i \in 1..Len(a) : Len(a[i].key) \in {1, 2} /\ (Len(a[i].key) = 2 => a[i].key[1] \notin one)
Named == Diagonal => LET a == ActiveTokens(vA) IN \A i \in 1..Len(a), m \in DisplayModes : NameIn(a[i], m) # << >>
LineBreak == Diagonal /\ vA.version = LatestText =>
    /\ NewLine \in DOMAIN ByKey[vA.order]
    /\ \A m \in {"pretty", "accessible"} : NameIn(ByKey[vA.order][NewLine], m) = << LF >>
    /\ \A k \in DOMAIN ByKey[vA.order], m \in DisplayModes : k # NewLine => LF \notin {NameIn(ByKey[vA.order][k], m)[i] : i \in 1..Len(NameIn(ByKey[vA.order][k], m))}
(* from the TI-83+ on, every character of every accessible name is a name itself: no accessible text made of names can *)
(* get an encoder stuck, whatever the rule                                                                             *)
Readable == Diagonal /\ vA.version = LatestText /\ vA.order >= 30 =>
    LET names == {NameIn(ByKey[vA.order][k], "accessible") : k \in DOMAIN ByKey[vA.order]}
    IN  \A n \in names : \A i \in 1..Len(n) : << n[i] >> \in names
(* every name on its own is found again as a token of the same name (longest match) *)
SelfMatch == Diagonal /\ vA.version = LatestText =>
    \A k \in DOMAIN ByKey[vA.order], m \in DisplayModes :
        LET n == NameIn(ByKey[vA.order][k], m) IN MatchAt(n, 1, vA.order, m, "longest")[1].name = n
=============================================================================
