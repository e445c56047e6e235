---------------------------- MODULE ProgramFile ----------------------------
(* Programs and the files that hold them: 8xp, 83p/82p, txt and json.       *)
(*                                                                          *)
(* A program is a record with the fields of the JSON export: raw header and *)
(* metadata bytes next to what they mean, the body bytes and their text,    *)
(* the checksum, the display mode and the model.                            *)
EXTENDS Codec

(* ---- vocabulary ---- *)
FileTypeBytes == {5, 6, 23, 36}
FileTypeOfByte(b) == CASE b = 5 -> "Program" [] b = 6 -> "LockedProgram" [] b = 23 -> "Group" [] b = 36 -> "FlashApplication"
FileTypes == {"Program", "LockedProgram", "Group", "FlashApplication"}
FileTypeByte(f) == CASE f = "Program" -> 5 [] f = "LockedProgram" -> 6 [] f = "Group" -> 23 [] f = "FlashApplication" -> 36
FileTypeText(f) == CASE f = "Program" -> T("Program") [] f = "LockedProgram" -> T("Locked Program")
                     [] f = "Group" -> T("Group") [] f = "FlashApplication" -> T("Flash Application")

Destinations == {"RAM", "Archive"}
DestinationBytes == {0, 128}
DestinationOfByte(b) == IF b = 0 THEN "RAM" ELSE "Archive"
DestinationByte(d) == IF d = "RAM" THEN 0 ELSE 128
DestinationText(d) == IF d = "RAM" THEN T("RAM") ELSE T("Archive")

ModeText(m) == CASE m = "pretty" -> T("pretty") [] m = "accessible" -> T("accessible") [] m = "ti" -> T("ti")
JsonMode(m) == CASE m = "pretty" -> "Pretty" [] m = "accessible" -> "Accessible" [] m = "ti" -> "TiAscii"
ModeOfJson(j) == CASE j = "Pretty" -> "pretty" [] j = "Accessible" -> "accessible" [] j = "TiAscii" -> "ti"

ProgramExts == {T("8xp"), T("83p"), T("82p")}
Exts == ProgramExts \cup {T("txt"), T("json")}
OldLayout(ext) == ext \in {T("83p"), T("82p")}

HeaderLen == 55
MetaLen(ext) == IF OldLayout(ext) THEN 17 ELSE 19
CheckBytes(meta, body) == LE16((SumOf(meta) + SumOf(body)) % 65536)

Failed == [ok |-> FALSE]
Loaded(p) == [ok |-> TRUE, program |-> p]

ModelField(m) == [model |-> m.name, signature |-> m.sig, product_id |-> m.pid, language |-> T(m.lang)]

(* comments are UTF-8; bytes that are not are taken for Latin-1 *)
CommentText(bytes) == LET u == Utf8Decode(bytes) IN IF u.ok THEN u.text ELSE bytes

(* ------------------------- reading program files ------------------------ *)
LoadXp(bytes, ext, mode) ==
    LET n == MetaLen(ext)
        old == OldLayout(ext)
        hdr == SubSeq(bytes, 1, HeaderLen)
        raw == SubSeq(bytes, HeaderLen + 1, HeaderLen + n)
        body == SubSeq(bytes, HeaderLen + n + 1, Len(bytes) - 2)
        stored == SubSeq(bytes, Len(bytes) - 1, Len(bytes))
        sig == SubSeq(hdr, 1, 8)
        pid == hdr[11]
        model == ModelOfFile(pid, sig)
        decoded == TLCEval(DecodeBody(body, model.order, mode))
        header == IF old THEN Splice(hdr, 54, LE16(Len(body) + 19)) ELSE hdr
        meta == IF old THEN << 13, 0 >> \o LE16(Len(body) + 2) \o << raw[5] >> \o SubSeq(raw, 6, 13)
                            \o << 0, 0 >> \o LE16(Len(body) + 2) \o LE16(Len(body))
                ELSE raw
        check == IF old THEN CheckBytes(meta, body) ELSE stored
    IN  IF Len(bytes) < HeaderLen + n + 2 THEN Failed
        ELSE IF \/ pid \notin KnownProductIds
                \/ raw[5] \notin FileTypeBytes
                \/ ~old /\ raw[15] \notin DestinationBytes
                \/ ~decoded.ok THEN Failed
        ELSE Loaded([
            header |-> [bytes |-> header, signature |-> sig, signature_extra |-> SubSeq(hdr, 9, 10), product_id |-> pid,
                        comment |-> CommentText(NonZero(SubSeq(hdr, 12, 53))), metadata_and_body_length |-> Word(header[54], header[55])],
            metadata |-> [bytes |-> meta, flag |-> meta[1], unknown_byte |-> meta[2],
                          body_and_checksum_length |-> Word(meta[3], meta[4]), file_type |-> FileTypeOfByte(meta[5]),
                          name |-> NonZero(SubSeq(meta, 6, 13)), version |-> meta[14], destination |-> DestinationOfByte(meta[15]),
                          body_and_checksum_length_copy |-> Word(meta[16], meta[17]), body_length |-> Word(meta[18], meta[19])],
            body |-> [bytes |-> body, translation |-> decoded.text],
            checksum |-> [bytes |-> check, value |-> Word(check[1], check[2])],
            display_mode |-> JsonMode(mode),
            model |-> ModelField(model)])

(* --------------------------- reading text files -------------------------- *)
ToolComment == T("Created by TI-Tools ") \o ToolVersion

NameAllowed(t) == Utf8Len(t) <= 8 /\ AllAlpha(t)
CommentAllowed(t) == Utf8Len(t) <= 42
MaxBody == 65535 - 19

(* the program a text describes; header: the five header lines that matter; lines: the body lines *)
ProgramOfText(name, ftype, dest, mode, model, lines, body) ==
    LET hdr == model.sig \o << 26, 10, model.pid >> \o PadTo(ToolComment, 42) \o LE16(Len(body) + 19)
        meta == << 13, 0 >> \o LE16(Len(body) + 2) \o << FileTypeByte(ftype) >> \o PadTo(name, 8)
                \o << 0, DestinationByte(dest) >> \o LE16(Len(body) + 2) \o LE16(Len(body))
        check == CheckBytes(meta, body)
    IN  [header |-> [bytes |-> hdr, signature |-> model.sig, signature_extra |-> << 26, 10 >>, product_id |-> model.pid,
                     comment |-> ToolComment, metadata_and_body_length |-> Len(body) + 19],
         metadata |-> [bytes |-> meta, flag |-> 13, unknown_byte |-> 0, body_and_checksum_length |-> Len(body) + 2,
                       file_type |-> ftype, name |-> name, version |-> 0, destination |-> dest,
                       body_and_checksum_length_copy |-> Len(body) + 2, body_length |-> Len(body)],
         body |-> [bytes |-> body, translation |-> JoinWith(lines, LF)],
         checksum |-> [bytes |-> check, value |-> Word(check[1], check[2])],
         display_mode |-> JsonMode(mode),
         model |-> ModelField(model)]

(* header lines: 1 name, 2 comment (ignored), 3 file type, 4 destination, 5 display mode, 6 model *)
HeaderOfText(lines) ==
    IF Len(lines) < 6 THEN Failed
    ELSE LET F == {f \in FileTypes : FileTypeText(f) = lines[3]}
             D == {d \in Destinations : DestinationText(d) = lines[4]}
             M == {m \in DisplayModes : ModeText(m) = lines[5]}
         IN  IF F = {} \/ D = {} \/ M = {} \/ ~NameAllowed(lines[1]) THEN Failed
             ELSE [ok |-> TRUE, name |-> lines[1], ftype |-> CHOOSE f \in F : TRUE, dest |-> CHOOSE d \in D : TRUE,
                   mode |-> CHOOSE m \in M : TRUE, model |-> ModelWithText(lines[6])]

BodyLines(lines) ==
    LET rest == SubSeq(lines, 7, Len(lines)) IN IF rest = << >> THEN << << >> >> ELSE rest

LoadText(text, enc) ==
    LET lines == Lines(text)
        h == HeaderOfText(lines)
    IN  IF ~h.ok THEN Failed
        ELSE LET body == TLCEval(EncodeLines(BodyLines(lines), h.model.order, h.mode, enc))
             IN  IF ~body.ok \/ Len(body.body) > MaxBody THEN Failed
                 ELSE Loaded(ProgramOfText(h.name, h.ftype, h.dest, h.mode, h.model, BodyLines(lines), body.body))

(* --------------------------- reading json files --------------------------- *)
LoadJson(j) ==
    IF ~j.ok THEN Failed
    ELSE IF \/ Len(j.program.header.bytes) # 55 \/ Len(j.program.metadata.bytes) # 19
            \/ Len(j.program.checksum.bytes) # 2 THEN Failed
    ELSE Loaded(j.program)

(* ------------------------------- writing ---------------------------------- *)
XpBytes(p) == p.header.bytes \o p.metadata.bytes \o p.body.bytes \o CheckBytes(p.metadata.bytes, p.body.bytes)

OldBytes(p) ==
    LET hdr == Splice(p.header.bytes, 54, LE16(Len(p.body.bytes) + 17))
        meta == << 11, 0 >> \o SubSeq(p.metadata.bytes, 3, 13) \o SubSeq(p.metadata.bytes, 16, 19)
    IN  hdr \o meta \o p.body.bytes \o CheckBytes(meta, p.body.bytes)

OneLine(t) == [i \in 1..Len(t) |-> IF t[i] \in {LF, CR} THEN 32 ELSE t[i]]
TextOf(p) ==
    Concat(<< p.metadata.name, << LF >>, OneLine(p.header.comment), << LF >>, FileTypeText(p.metadata.file_type), << LF >>,
              DestinationText(p.metadata.destination), << LF >>, ModeText(ModeOfJson(p.display_mode)), << LF >>,
              NameText(p.model.model), << LF >>, p.body.translation, << LF >> >>)

(* the content a program is written as, by extension *)
ContentOf(p, ext) ==
    CASE ext = T("txt")  -> [form |-> "text", ext |-> ext, text |-> TextOf(p)]
      [] ext = T("json") -> [form |-> "json", ext |-> ext, program |-> p]
      [] ext = T("8xp")  -> [form |-> "bytes", ext |-> ext, bytes |-> XpBytes(p)]
      [] OTHER           -> [form |-> "bytes", ext |-> ext, bytes |-> OldBytes(p)]

(* --------------------------------- edits ---------------------------------- *)
(* what the library operations do to a program in memory *)
Rename(p, name) == [p EXCEPT !.metadata.bytes = Splice(@, 6, PadTo(Upper(name), 8)), !.metadata.name = Upper(name)]
SetComment(p, c) == [p EXCEPT !.header.bytes = Splice(@, 12, PadTo(Utf8(c), 42)), !.header.comment = c]
SetType(p, f) == [p EXCEPT !.metadata.bytes = Splice(@, 5, << FileTypeByte(f) >>), !.metadata.file_type = f]
SetDestination(p, d) == [p EXCEPT !.metadata.bytes = Splice(@, 15, << DestinationByte(d) >>), !.metadata.destination = d]

EditAllowed(op, arg) == (op = "rename" => NameAllowed(arg)) /\ (op = "comment" => CommentAllowed(arg))
Edit(p, op, arg) ==
    CASE op = "rename"    -> Rename(p, arg)
      [] op = "comment"   -> SetComment(p, arg)
      [] op = "lock"      -> SetType(p, "LockedProgram")
      [] op = "unlock"    -> SetType(p, "Program")
      [] op = "archive"   -> SetDestination(p, "Archive")
      [] op = "unarchive" -> SetDestination(p, "RAM")
EditOps == {"rename", "comment", "lock", "unlock", "archive", "unarchive"}

(* before an edited program is saved its checksum is brought up to date *)
Recheck(p) == LET c == CheckBytes(p.metadata.bytes, p.body.bytes)
              IN  [p EXCEPT !.checksum = [bytes |-> c, value |-> Word(c[1], c[2])]]

(* ---------------------- well-formedness of written files ------------------- *)
WellFormed(bytes, ext) ==
    LET n == MetaLen(ext)
        body == Len(bytes) - HeaderLen - n - 2
        meta == SubSeq(bytes, HeaderLen + 1, HeaderLen + n)
    IN  /\ body >= 0
        /\ SubSeq(bytes, Len(bytes) - 1, Len(bytes)) = LE16(Sum16(SubSeq(bytes, HeaderLen + 1, Len(bytes) - 2)))
        /\ SubSeq(bytes, 54, 55) = LE16(body + n)
        /\ SubSeq(meta, 3, 4) = LE16(body + 2)
        /\ SubSeq(meta, n - 3, n - 2) = LE16(body + 2)
        /\ SubSeq(meta, n - 1, n) = LE16(body)
=============================================================================
