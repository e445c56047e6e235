------------------------------ MODULE Models -------------------------------
(* The calculator models the tool supports and how files name them.        *)
EXTENDS Bytes, Text

Sig82  == << 42, 42, 84, 73, 56, 50, 42, 42 >>  \* **TI82**
Sig83  == << 42, 42, 84, 73, 56, 51, 42, 42 >>  \* **TI83**
Sig83F == << 42, 42, 84, 73, 56, 51, 70, 42 >>  \* **TI83F*

Mdl(name, order, sig, pid, lang) == [name |-> name, order |-> order, sig |-> sig, pid |-> pid, lang |-> lang]

Newest == 9999999

ModelTable == <<
    Mdl("TI-82",         10, Sig82,   0, "en"),
    Mdl("TI-83",         20, Sig83,   0, "en"),
    Mdl("TI-82ST",       20, Sig83,   0, "en"),
    Mdl("TI-82ST.fr",    20, Sig83,   0, "fr"),
    Mdl("TI-76.fr",      20, Sig83,   0, "fr"),
    Mdl("TI-83+",        30, Sig83F,  4, "en"),
    Mdl("TI-83+SE",      30, Sig83F,  4, "en"),
    Mdl("TI-83+.fr",     30, Sig83F,  4, "fr"),
    Mdl("TI-82+",        30, Sig83F,  4, "fr"),
    Mdl("TI-84+",        40, Sig83F, 10, "en"),
    Mdl("TI-84+SE",      40, Sig83F, 10, "en"),
    Mdl("TI-83+.fr:USB", 40, Sig83F, 10, "fr"),
    Mdl("TI-84P.fr",     40, Sig83F, 10, "fr"),
    Mdl("TI-84+PSE",     40, Sig83F, 10, "en"),
    Mdl("TI-82A",        45, Sig83F, 11, "fr"),
    Mdl("TI-84+T",       45, Sig83F, 27, "en"),
    Mdl("TI-84+CSE",     50, Sig83F, 15, "en"),
    Mdl("TI-84+CE",      60, Sig83F, 19, "en"),
    Mdl("TI-84+CET",     60, Sig83F, 19, "en"),
    Mdl("TI-83PCE",      60, Sig83F, 19, "fr"),
    Mdl("TI-83PCEEP",    60, Sig83F, 19, "fr"),
    Mdl("TI-84+CEPY",    60, Sig83F, 19, "en"),
    Mdl("TI-84+CETPE",   60, Sig83F, 19, "en"),
    Mdl("TI-82AEP",      60, Sig83F,  0, "fr"),
    Mdl("latest",    Newest, Sig83F,  0, "en") >>

ModelNames == {ModelTable[i].name : i \in 1..Len(ModelTable)}
Orders == {ModelTable[i].order : i \in 1..Len(ModelTable)}

(* the model a text file names; every unknown name stands for the newest model *)
ModelNamed(name) ==
    IF name \in ModelNames THEN ModelTable[CHOOSE i \in 1..Len(ModelTable) : ModelTable[i].name = name]
    ELSE ModelTable[25]

(* the model a program file was written for, by product id and, for product id 0, signature *)
KnownProductIds == {0, 4, 10, 11, 15, 19, 27}
ModelOfFile(pid, sig) ==
    CASE pid = 0  -> (CASE sig = Sig83F -> ModelNamed("latest")
                        [] sig = Sig83  -> ModelNamed("TI-83")
                        [] OTHER        -> ModelNamed("TI-82"))
      [] pid = 4  -> ModelNamed("TI-83+")
      [] pid = 10 -> ModelNamed("TI-84+")
      [] pid = 11 -> ModelNamed("TI-82A")
      [] pid = 15 -> ModelNamed("TI-84+CSE")
      [] pid = 19 -> ModelNamed("TI-84+CE")
      [] pid = 27 -> ModelNamed("TI-84+T")

(* names as code points, for text files and messages *)
NameText(n) == TextTable[n]
ModelWithText(t) ==
    LET S == {n \in ModelNames : NameText(n) = t} IN IF S = {} THEN ModelNamed("latest") ELSE ModelNamed(CHOOSE n \in S : TRUE)
=============================================================================
