----------------------------- MODULE Trace_Sheet -----------------------------
(* Conformance of the token tables, the order of the targets and the table   *)
(* of models with what the real library computes.                            *)
EXTENDS Codec

Tables == ndJsonDeserialize(IOEnv.RUN_DIR \o "/tables.ndjson")
Cases == ndJsonDeserialize(IOEnv.RUN_DIR \o "/cases.ndjson")

VARIABLES vCase, vDone
Case == Cases[vCase]

Target(t) == [order |-> ModelNamed(t.model).order, version |-> t.version]

(* the table of a target: exactly the sheet's tokens under exactly its names *)
TableOf(target) == LET a == ActiveTokens(target) IN {[key |-> a[i].key, ti |-> a[i].ti, pretty |-> a[i].pretty, accessible |-> a[i].accessible] : i \in 1..Len(a)}
TokensOk == /\ Case.ok
            /\ LET real == Tables[Case.table] IN {real[i] : i \in 1..Len(real)} = TableOf(Target(Case.target))

(* out: [cmp, partial_cmp, ==, <, <=, >, >=]; equality by == is finer than the order (models of one generation) *)
CompareOk == /\ Case.ok
             /\ \A i \in 1..Len(Case.with) :
                   LET n == CompareTargets(Target(Case.a), Target(Case.with[i]))
                       o == Case.out[i]
                   IN  /\ o[1] = n /\ o[2] = n
                       /\ (Case.a = Case.with[i] => o[3])
                       /\ (o[3] => n = 0)
                       /\ o[4] = (n < 0) /\ o[5] = (n <= 0) /\ o[6] = (n > 0) /\ o[7] = (n >= 0)

DetailsOk(d, m) == d.model = m.name /\ d.signature = m.sig /\ d.product_id = m.pid /\ d.language = T(m.lang)
ModelsOk == /\ Case.ok
            /\ \A i \in 1..Len(Case.names) :
                  LET m == ModelWithText(Case.names[i]) r == Case.named[i]
                  IN  r.name = NameText(m.name) /\ r.order = m.order /\ DetailsOk(r.details, m)
            /\ \A i \in 1..Len(Case.pids) :
                  LET r == Case.files[i]
                  IN  r.ok = (Case.pids[i].pid \in KnownProductIds)
                      /\ (r.ok => DetailsOk(r.details, ModelOfFile(Case.pids[i].pid, Case.pids[i].sig)))

Init == vCase \in 1..Len(Cases) /\ vDone = FALSE
Next == /\ ~vDone /\ vDone' = TRUE /\ UNCHANGED vCase
        /\ IF (CASE Case.kind = "tokens" -> TokensOk [] Case.kind = "compare" -> CompareOk [] Case.kind = "models" -> ModelsOk)
           THEN PrintT(<< "ACCEPT", Case.id >>)
           ELSE PrintT(<< "REJECT", Case.id, 1, << Case.kind >> >>)
=============================================================================
