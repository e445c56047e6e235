------------------------------- MODULE Search -------------------------------
(* The token search.                                                        *)
EXTENDS Codec

Definitions == TLCEval(FoldLeft(LAMBDA f, d : TLCEval(f @@ (d.key :> d.defs)), << >>,
                                ndJsonDeserialize(SpecDir \o "/data/definitions.ndjson")))

HexKey(key) == T("0x") \o Concat([i \in 1..Len(key) |-> Hex2(key[i])])

SearchTypes == {T("accessible"), T("pretty"), T("byte")}
(* the definitions found, or Failed *)
Found(query, by) ==
    LET mode == IF by = T("pretty") THEN "pretty" ELSE "accessible"
        m == IF query = << >> THEN << >> ELSE MatchAt(query, 1, Newest, mode, "longest")
        key == IF by = T("byte") THEN query ELSE IF m = << >> THEN << >> ELSE HexKey(m[1].key)
    IN  IF by \notin SearchTypes \/ key \notin DOMAIN Definitions THEN [ok |-> FALSE]
        ELSE [ok |-> TRUE, defs |-> Definitions[key]]

DefinitionText(d) == Concat(<< T("syntax: "), d.syntax, << 10 >>, d.description, << 10, 10 >> >>)
FoundText(defs) == << 10 >> \o Concat([i \in 1..Len(defs) |-> DefinitionText(defs[i])])
=============================================================================
