import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if observe: d['anchors']['observe_at']=observe
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d['anchors']['hook_needed']=hook
    assert len(title)<=80,(id,len(title))
    P.append(d)
CLI="the ti-tools command line (files written, exit status, output)"
p("C01","Encoding loses nothing: encoded text decodes back to the same text",
"For every text program the tool accepts, in every encode mode (min, max, smart), display mode and calculator model, the program file it produces decodes, under the same display mode, to exactly the body text that was encoded, line for line. The only differences allowed are that the look-alikes of theta (U+0398, U+03F4, U+1DBF) come back as the plain Greek theta, that CRLF line ends come back as LF, and that in ti display mode a line break comes back as its name D6.",
["inputs","configurations"],"every body text x 3 encode modes x 3 display modes x 25 models","The tests encode nine fixed programs in one display mode, one encode mode and one model; nothing covers other texts, modes, models, blank lines at the end, or tokens those programs do not use.",
["src/calculator/file/encode.rs","src/calculator/file/decode.rs","src/calculator/file/from_txt.rs","src/calculator/file/from_8xp.rs"],
[("token-by-token consumption of the text","src/calculator/file/encode.rs: encode"),("byte-by-byte lookup","src/calculator/file/decode.rs: decode")],[CLI])
p("C02","Encoding is deterministic and conversion reaches a fixed point at once",
"Encoding the same text file with the same options always produces the same bytes, in every run and for every display and encode mode. When a program has been written from text once, converting it to text and back again with the same modes gives the same body bytes every further time, including leading, blank and trailing lines.",
["inputs","histories","configurations"],"every text, every mode combination, any number of repeated runs and round trips","One encoding of each sample is compared once; repeated runs, ambiguous names (several tokens share one pretty or ti name) and repeated round trips are not sampled.",
["src/calculator/tokens/mod.rs","src/calculator/file/encode.rs","src/calculator/program.rs"],
[("choice among tokens with equal names","src/calculator/tokens/mod.rs: get_longest_matching_token, get_shortest_matching_token"),("txt writer and reader agree on line ends","src/calculator/program.rs: save_to; src/calculator/file/from_txt.rs")],[CLI])
p("C03","Decoding yields exactly the names of the tokens in the body, or an error",
"For every sequence of body bytes, decoding either yields the concatenation of the names (in the requested display mode, for the file's calculator model) of the one- and two-byte tokens the bytes split into, in order, or fails with an error when a byte or byte pair is not a token of that model or the last token is incomplete. It never skips, truncates or substitutes part of the body, and on failure no output file is written.",
["inputs","configurations"],"every byte sequence as body x 3 display modes x every product id","The tests decode nine well-formed bodies in accessible mode only; undefined bytes, incomplete tokens, other modes and other models are never decoded.",
["src/calculator/file/decode.rs","src/calculator/file/from_8xp.rs","src/calculator/tokens/mod.rs"],
[("prefix accumulation and lookup","src/calculator/file/decode.rs: decode")],[CLI])
p("C04","Each encode mode picks tokens by its documented matching rule",
"Encoding reads each line left to right, at each point replacing a prefix of the remaining text by a token of the model with exactly that name in the chosen display mode: max always takes the longest such name, min always the shortest, and smart takes the longest except in the run of purely alphabetic tokens that directly follows a double quote (unless that quote directly follows the prgm or small-L token), where it takes the shortest, the run ending at the first token whose name is not purely ASCII alphabetic, directly after a prgm or small-L token, or at the line end. When several tokens share the name, the one with the shorter and then the lower byte code is used, and line breaks become byte 3F. Text that cannot be matched at some point is rejected with an error and nothing is written.",
["inputs","configurations"],"every text x 3 encode modes x 3 display modes x models","Only smart mode is exercised, on nine texts; min and max are never run and the smart state machine is seen only on the sequences in those texts.",
["src/calculator/file/encode.rs","src/calculator/tokens/mod.rs"],
[("mode state machine","src/calculator/file/encode.rs: EncodeState"),("longest and shortest match","src/calculator/tokens/mod.rs: Map")],[CLI,"body bytes of the written program"])
p("C05","The token set of a model and OS version is the token sheet's, no more no less",
"For every calculator model and OS version, the tokens available are exactly those the TI token sheet lists as introduced at or before that model and version and not withdrawn before it, each under the names the sheet gives for that model and version (the newest entry where two apply). Models order by generation and, within a generation, versions compare component by component as numbers with 'latest' above every other version; comparing two targets is a total order in which a target equals itself.",
["inputs","configurations"],"every (model, OS version) target x every token of the sheet","The tests only check that the sheet for the latest model parses; no target, boundary version or token name is checked.",
["src/calculator/tokens/mod.rs","src/calculator/models.rs","src/calculator/tokens/standard_tokens/8X.json"],
[("since/until filter","src/calculator/tokens/mod.rs: load_tokens"),("version order","src/calculator/tokens/mod.rs: Ord for OsVersion"),("generation","src/calculator/models.rs: model_order")],["load_tokens(target)","OsVersion comparison","text of decoded programs"])
p("C06","A program file made from text is well formed and says what the text says",
"For every accepted text file, the 8xp file written is exactly: 55 header bytes (the model's signature, 1A 0A, its product id, the tool's own comment padded with zeros to 42 bytes, the little-endian length of all that follows except the checksum), 19 metadata bytes (0D 00, length of body plus 2, file type byte, name padded with zeros to 8 bytes, version 0, destination byte, length of body plus 2 again, body length), the body, and the checksum. Name, file type and destination are those on the text's lines 1, 3 and 4, and text whose body does not fit the 16-bit length fields, whose name is longer than 8 or not ASCII alphabetic, or that lacks or misspells a required line is rejected with nothing written.",
["inputs","configurations"],"every text file: names, types, destinations, models and bodies up to and past 65535 bytes","Lengths are compared with reference files for nine samples under one model, type and destination; large bodies, length carries, locked or archived programs and other models are not.",
["src/calculator/file/from_txt.rs","src/calculator/program.rs"],
[("layout","src/calculator/file/from_txt.rs: create_from_txt"),("write","src/calculator/program.rs: save_to")],[CLI])
p("C07","Loading a program file and saving it unedited changes nothing",
"Converting a well-formed 8xp file to 8xp writes the identical bytes, and so does converting it to JSON and the JSON back to 8xp, whatever its name, comment, flags, version, unknown bytes, file type, destination or body. Converting it to text shows the same name, comment, file type, destination and model the file carries.",
["inputs","histories"],"every well-formed 8xp file: all header and metadata byte values and decodable bodies","No test saves anything: writing program, JSON or text files is not covered at all.",
["src/calculator/program.rs","src/calculator/file/from_8xp.rs"],
[("raw bytes kept next to parsed fields","src/calculator/file/from_8xp.rs: create_from_8xp"),("serialisation","src/calculator/program.rs: save_to")],[CLI])
p("C08","An edit changes its own field and nothing else, over any history of edits",
"rename, comment, lock, unlock, archive and unarchive each change exactly their field (the name zero-padded to 8 bytes and upper-cased, the comment zero-padded to 42 bytes, the file type, the destination) and otherwise only the checksum; every other byte of the program, including body and lengths, stays as it was. This holds after any sequence of edits: the last edit of a field wins, edits of different fields do not affect each other, unlock undoes lock, unarchive undoes archive, and the in-memory fields, the saved bytes, and what a reload, details or a text export shows all agree.",
["inputs","histories"],"every well-formed program x every sequence of edit operations","Each edit is applied once to one program in memory and only its own byte range is checked; sequences, saved files and reloads are not.",
["src/calculator/program.rs","src/commands/edit/mod.rs","src/commands/edit/rename.rs","src/commands/edit/comment.rs","src/commands/edit/lock.rs","src/commands/edit/unlock.rs","src/commands/edit/archive.rs","src/commands/edit/unarchive.rs"],
[("byte splices","src/calculator/program.rs: Header::comment, Metadata::rename, lock, unlock, archive, unarchive")],[CLI,"Program fields and bytes"])
p("C09","Invalid names and comments are rejected and change nothing",
"A rename is accepted exactly when the new name is at most 8 bytes and consists only of ASCII letters, and a comment exactly when it is at most 42 bytes long. A rejected edit reports an error with a non-zero exit status and leaves the program in memory, the input file and any output path exactly as they were.",
["inputs"],"every string as new name or comment, on every program","A handful of bad names and one long comment are tried; lengths next to the limits, multi-byte characters and the effect on files are not.",
["src/calculator/program.rs","src/commands/edit/rename.rs","src/commands/edit/comment.rs"],
[("validation before splice","src/calculator/program.rs: Metadata::rename, Header::comment")],[CLI,"Program fields and bytes"])
p("C10","Every program file written carries a correct checksum and lengths",
"Whenever the tool writes an 8xp, 83p or 82p file, by conversion from any supported type or by any edit or sequence of edits, its last two bytes are the little-endian sum modulo 65536 of all bytes between the header and the checksum, and its length fields equal the real lengths of the parts they describe, provided the lengths in the loaded file were right. A loaded file whose checksum was wrong is written with the right one.",
["inputs","histories"],"every program x every conversion and edit history, including sums past 65535","Checksums are compared only for freshly loaded samples; no test checks one after an edit or in a written file.",
["src/calculator/program.rs","src/calculator/file/from_txt.rs","src/commands/edit/mod.rs"],
[("checksum","src/calculator/file/from_txt.rs, src/calculator/program.rs: save_to")],[CLI])
p("C11","Nothing existing is overwritten without an explicit yes",
"When the output path already exists, no command (convert, mass convert, any edit, with or without a new-file option) changes or removes what is there unless the answer to its question is y or Y, surrounding whitespace aside; any other answer or end of input leaves every file exactly as it was. Without an existing output file no question is asked.",
["inputs","histories","configurations"],"every command x every existing output x every answer, including several questions in one mass conversion","No test runs a command or saves a file, so the question and its answers are never exercised.",
["src/calculator/program.rs","src/commands/convert.rs","src/commands/edit/mod.rs"],
[("prompt","src/calculator/program.rs: save_to")],[CLI])
p("C12","Failures and crashes never lose or half-write a file",
"If a command fails (unreadable, unconvertible or wrong-type input, invalid option, unsupported output extension, write error or full disk) or the process dies at any point, every file that existed keeps its complete old content, except that an output file or in-place edit the user confirmed may already hold its complete new content and that delete-old may have removed its input once the new file is complete. A partially written file is never visible under an output path.",
["inputs","fault_sequences","crash_points"],"every command x every failing step x every crash point between two file-system operations","Tests never write, and no test injects a failure or a crash.",
["src/calculator/program.rs","src/commands/edit/mod.rs","src/commands/convert.rs"],
[("order of check, prompt and replacement","src/calculator/program.rs: save_to, write_to_file")],["file system after a fault or crash"])
p("C13","delete-old removes the old file only, and only once the new one is saved",
"The input of an edit is deleted exactly when delete-old and new-file are both given and the edited program has been completely saved at the new path; if saving fails or is declined the input stays untouched. When the new path is the input itself, under any spelling or through a link, the saved program is never deleted. delete-old without new-file is refused and nothing changes.",
["inputs","histories","fault_sequences"],"every edit command x path spelling and links x answers x save failures","No test runs an edit command or deletes a file.",
["src/commands/edit/mod.rs","src/main.rs","src/cli.rs"],
[("delete after save","src/commands/edit/mod.rs: save_edits"),("requires","src/cli.rs: check_if_required_args_are_present")],[CLI])
p("C14","Mass conversion writes only inside its output directory and keeps its inputs",
"Whatever names the programs inside the input files carry (path separators, '..', absolute paths, empty), mass conversion creates or replaces files only directly inside the given output directory, only with the extensions txt and 8xp, and never changes or deletes an input file unless the user confirms overwriting that very path. Without an output path it writes nothing.",
["inputs","configurations"],"every directory content and every program name stored in a file","Mass conversion is not tested at all.",
["src/commands/convert.rs"],[("output path from the stored name","src/commands/convert.rs: convert_command")],[CLI])
p("C15","Mass conversion gives each file the result of converting it alone",
"For a directory whose supported files (8xp, 83p, 82p, txt, json) are all convertible and differently named, mass conversion writes for every program file one txt, for every text file one 8xp and for every JSON file both, named after the program stored in the file (the whole name, dots included; if it is empty or no plain file name, the name of the input file without its extension), each with exactly the bytes single conversion gives under the same options, in whatever order the directory is read; other files are ignored. If the output directory does not exist it is created only after a yes, otherwise nothing happens and the exit status is non-zero.",
["inputs","configurations","schedules"],"every set of input files, every directory order, every option combination","Mass conversion is not tested at all.",
["src/commands/convert.rs"],[("directory loop","src/commands/convert.rs: convert_command")],[CLI])
p("C16","Malformed input is reported as an error, never a crash",
"For every content of an input file of any supported type (truncated at any byte, empty, random, wrong lengths, unknown product id, file type or destination, invalid UTF-8, incomplete or inconsistent JSON), and for any name of a file in a mass-converted directory, every command ends with an error message and a non-zero exit status or succeeds; it never panics. On error no output file is created.",
["inputs"],"every byte string as content of an 8xp, 83p, 82p, txt or json file x every command that reads it","All test inputs are well formed.",
["src/calculator/file/from_8xp.rs","src/calculator/file/from_txt.rs","src/calculator/program.rs"],
[("bounds and value checks","src/calculator/file/from_8xp.rs: create_from_8xp")],[CLI])
p("C17","82p and 83p programs survive conversion and editing",
"Loading an 82p or 83p program reads its name, comment, file type and body as its 17-byte metadata layout stores them, and writing a program as 82p or 83p produces that layout (0B 00, body length plus 2, file type, 8-byte name, body length plus 2, body length), while writing it as 8xp produces the 19-byte layout with version and destination 0. So an 82p or 83p file converted to its own type is byte-identical, an edit of it changes only its field and the checksum, and conversion through 8xp and back restores it.",
["inputs","histories"],"every well-formed 82p/83p program x output types x edits","The sample 82p and 83p files are not used by any test.",
["src/calculator/file/from_8xp.rs","src/calculator/program.rs"],
[("metadata for older models","src/calculator/file/from_8xp.rs: create_from_8xp"),("save","src/calculator/program.rs: save_to")],[CLI])
p("C18","JSON export and import preserve the whole program",
"Exporting any program (from 8xp, 83p, 82p or text, edited or not) to JSON and loading that JSON gives a program with the same name, comment, file type, destination, display mode, calculator model, body bytes, translation and checksum, so that every file written from the JSON equals the file written directly. Exporting the reloaded program to JSON again gives the same JSON.",
["inputs","configurations","histories"],"every program x every model, display mode and output type","JSON is never written or read by a test.",
["src/calculator/program.rs","src/calculator/models.rs","src/calculator/tokens/mod.rs"],
[("serde derive and model names","src/calculator/models.rs: Model; src/calculator/tokens/mod.rs: Deserialize for Model")],[CLI])
p("C19","The text export describes the program completely and can be read back",
"A text export consists of the name, comment (line breaks in it shown as spaces), file type, destination, display mode and model, one per line, then the body in that display mode and a final line break. Reading any such export of a program with an alphabetic name back gives a program with the same name, file type, destination, display mode and model whose body decodes to the same text, and the same holds when text is converted to text or JSON. Reading it back always succeeds for accessible names on the TI-83+ and every later model; elsewhere it fails only where the matching rule of the encode mode finds no token.",
["inputs","configurations","histories"],"every program x 3 display modes x models x conversion chains","Text files are read in one display mode and compared with reference bodies; exporting is not tested and display mode, model, type and destination are not compared.",
["src/calculator/program.rs","src/calculator/file/from_txt.rs"],
[("text writer","src/calculator/program.rs: save_to"),("text reader","src/calculator/file/from_txt.rs: create_from_txt")],[CLI])
p("C20","The calculator model is identified by signature and product id",
"A loaded program file is attributed to the model its product id (and, for product id 0, its signature: **TI83F* latest, **TI83** TI-83, otherwise TI-82) stands for, an unknown product id is rejected, and writing text for any of the 25 models writes that model's signature and product id, so that reloading reports a model of the same generation and product id (latest for the TI-82AEP, which shares its signature and product id 0). Every model name the tool lists is accepted in text files and exported unchanged.",
["inputs","configurations"],"all 256 product ids x signatures; all 25 models","All samples carry product id 0 and the same signature; no model is compared.",
["src/calculator/models.rs","src/calculator/file/from_8xp.rs","src/calculator/file/from_txt.rs"],
[("model tables","src/calculator/models.rs: ModelDetails::from_byte, from_model, Model::from_string, to_string")],[CLI])
p("C21","search describes the longest token the query starts with, or says none exists",
"search by accessible or pretty name prints the syntax and description of every definition of the token with the longest name that the query starts with (shorter, then lower byte code among equal names), and search by byte (0x and 2 or 4 hex digits, upper case) those of exactly that token. If there is no such token or definition, or the search type is unknown, it says so and exits with a non-zero status; the result is the same on every run.",
["inputs"],"every query string x 3 search types","search is not tested; only that the definitions parse.",
["src/commands/search.rs","src/calculator/tokens/mod.rs"],
[("key to definition lookup","src/commands/search.rs: search_command, fix_byte_format")],[CLI])
p("C22","Command-line options mean the same in every position and form",
"For every command the short and the long form of an option are equivalent, options may come in any order after the positional argument, an absent display mode, encode mode or search type has its documented default, and a missing required value, unknown option value or unusable path stops the command before any file is changed. A value given to one option is never taken for another option (the help flags aside), and help, version, models and unknown commands never touch a file.",
["inputs","configurations"],"every argument vector over the documented commands and options","No test runs the command line.",
["src/cli.rs","src/main.rs","src/commands/convert.rs"],
[("argument lookup","src/cli.rs: Command::has, get_option, get_arg, check_if_required_args_are_present")],[CLI])
p("C23","What the tool displays is what the file contains",
"details shows the program's name, comment, model, language, destination, file type, body size and, for 8xp files, the size of the whole file; convert's content and preview options show exactly the bytes of the program (in hexadecimal, 16 per line, the same bytes written as 8xp) and the same header facts followed by the decoded text, and never change what is written. help lists every command with its options, models every supported model.",
["inputs","configurations"],"every program x every combination of content, preview, display and encode options","Displayed output is not tested.",
["src/commands/details.rs","src/commands/convert.rs","src/calculator/program.rs","src/commands/models.rs","src/cli.rs"],
[("printing","src/commands/details.rs, src/commands/convert.rs: print_bytes; src/calculator/program.rs: to_string")],[CLI])
p("C24","Exit status tells the truth and messages cope with any text",
"A command exits with status 0 exactly when it did what was asked, only showed help or version, refused delete-old without new-file, did not know the command, or was declined by the user; otherwise it exits with a non-zero status and an error message. A message that a program was saved names the program and the path that was really written, one per file written, and an edit says what it set. Names, comments and paths containing brackets, colons, style directives or non-ASCII characters never make a command crash, and text in messages that is not one of the tool's own style directives appears unchanged.",
["inputs"],"every command outcome x every name, comment and path text","No test runs a command or prints a message.",
["src/styles.rs","src/main.rs","src/commands/convert.rs","src/commands/edit/mod.rs","src/calculator/errors.rs"],
[("style parser","src/styles.rs: prints"),("exit","src/calculator/errors.rs: exit")],[CLI])
p("C25","Commands that run at the same time do not disturb each other",
"When several commands work in the same directory at the same time, every program, text and JSON file is at every moment what it was before or the complete output of one save; a reader never meets a half written file, and a file is never missing between its old and its new content. Each command ends as if it had done its parts - load an input, find that the output exists and ask, put the output in place, delete the old file - each at one instant, in this order, between the parts of the others: none fails, asks, loses or spoils a file because another one was in the middle of a save, even if they have the same process id. This holds for conversions, mass conversions, edits in place, with a new file and with deletion of the old one.",
["schedules","inputs"],"every interleaving of the file operations of the commands x every way their files can meet (same output, output of one is input of the other, links, directories)","The tests never run a command, let alone two at a time; what matters is which of a dozen file operations of one command fall between those of the other.",
["src/calculator/program.rs","src/commands/convert.rs","src/commands/edit/mod.rs"],
[("atomic replacement through a temporary file of its own","src/calculator/program.rs: write_to_file"),("directory collected before converting","src/commands/convert.rs: mass_convert")],[CLI])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
