-------------------------------- MODULE Text --------------------------------
(* Texts as sequences of code points: T("abc") = <<97, 98, 99>>.  The table *)
(* is generated from the T("...") occurrences in these modules.              *)
EXTENDS Sequences, Json, IOUtils, TLC
SpecDir == IOEnv.SPEC_DIR
TextTable == JsonDeserialize(SpecDir \o "/data/text.json")
T(s) == TextTable[s]
(* facts about this run: the version of the tool *)
RunFacts == JsonDeserialize(IOEnv.RUN_DIR \o "/facts.json")
ToolVersion == RunFacts.version
=============================================================================
