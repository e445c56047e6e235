SEEDS={}
def seed(i,prop,edits,needs,breaks,demo,also=()):
    SEEDS[i]=dict(property=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,also=list(also))
T='src/calculator/'
M='src/commands/edit/mod.rs'
C='src/commands/convert.rs'
seed('curly-quotes','C01',[(T+'file/encode.rs','''        .replace(['\\u{0398}', '\\u{03F4}', '\\u{1DBF}'], "θ")''','''        .replace(['\\u{0398}', '\\u{03F4}', '\\u{1DBF}'], "θ")
        .replace(['\\u{201C}', '\\u{201D}'], "\\"")''')],'typographic quotes in a text program','typographic quotes become plain quotes instead of being rejected',r'''
put('in.txt', text('Disp \u201cA\u201d'))
r = run('convert', 'in.txt', '-o', 'o.8xp')
check(r.returncode != 0 and get('o.8xp') is None, 'accepted: %r' % get('o.8xp'))
''')
seed('soft-break','C02',[(T+'file/from_txt.rs','        .join("\\n");','        .join("\\n")\n        .replace("\\n\\n\\n\\n", "\\n\\n\\n");')],'three blank lines in a row','one of three blank lines in a row is lost, and one more each time the text is converted',r'''
put('in.txt', text('Disp 1\n\n\n\nDisp 2'))
run('convert', 'in.txt', '-o', 'o.8xp'); run('convert', 'o.8xp', '-o', 't.txt')
check(get('t.txt').decode().split('\n')[6:] == ['Disp 1', '', '', '', 'Disp 2', ''], repr(get('t.txt')))
''',also=['C01'])
seed('resync','C03',[(T+'file/decode.rs','            2 => format!("${:02X}${:02X}", current_bytes[0], current_bytes[1]),','''            2 if current_bytes[1] == 0x3F => {
                // a line break always ends a token
                current_bytes.remove(0);
                "$3F".to_string()
            }
            2 => format!("${:02X}${:02X}", current_bytes[0], current_bytes[1]),''')],'a first byte of a two-byte token directly before a line break','the byte before the line break is silently skipped',r'''
put('p.8xp', xp(b'A\xbb\x3fB'))
r = run('convert', 'p.8xp', '-o', 't.txt')
n = get('t.txt')
check(n is None or b'A\nB' not in n, 'decoded %r' % n)
''')
seed('line-rest','C04',[(T+'file/encode.rs','                            // -> / →\n                            state.reset();','                            // -> / →\n                            state.current_mode = state.default_mode;\n                            state.in_string = true;')],'-','-','')
del SEEDS['line-rest']
seed('quote-pairs','C04',[(T+'file/encode.rs','                            state.current_mode = &EncodeMode::Min;\n','                            state.current_mode = if state.in_string || state.last_token_key == vec![0x2A] {\n                                &EncodeMode::Min\n                            } else {\n                                state.default_mode\n                            };\n')],'smart mode, a quoted text made of letters only, and a name of several letters after the closing quote','the closing quote does not start a run of shortest matches',r'''
put('in.txt', text('"AB"sin('))
run('convert', 'in.txt', '-o', 'o.8xp', '-e', 'smart')
check(len(body('o.8xp')) > 5, 'body %r' % body('o.8xp'))
''')
seed('group-unlock','C08',[(T+'program.rs','        self.bytes[4] = FileType::Program.to_byte();\n','        if matches!(self.file_type, FileType::LockedProgram) {\n            self.bytes[4] = FileType::Program.to_byte();\n        }\n')],'unlock on a group or flash application','the type changes in memory but not in the bytes',r'''
put('p.8xp', xp(ft=0x17))
run('unlock', 'p.8xp', answer='y\n')
check(get('p.8xp')[59] == 5, 'type %d' % get('p.8xp')[59])
''')
seed('trailing-space','C09',[(T+'program.rs','        if comment.len() > 42 {','        let comment = if comment.len() > 42 { comment.trim_end().to_string() } else { comment };\n        if comment.len() > 42 {')],'a comment that is too long only because of spaces at its end','a comment of more than 42 bytes is accepted after its end has been cut off',r'''
put('p.8xp', xp())
before = get('p.8xp')
r = run('comment', 'p.8xp', '-c', 'x' * 40 + '   ', answer='y\n')
check(r.returncode != 0 and get('p.8xp') == before, 'accepted')
''')
seed('endless-comment','C09',[(T+'program.rs','        if comment.len() > 42 {','        if comment.trim_end().len() > 42 {')],'a comment that is too long only because of spaces at its end','the comment is padded for ever',r'''
put('p.8xp', xp())
before = get('p.8xp')
import resource
try:
    r = subprocess.run([TOOL, 'comment', 'p.8xp', '-c', 'x' * 40 + '   '], cwd=ROOT, input=b'y\n', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=10,
                       preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (1 << 29, 1 << 29)))
    check(r.returncode == 1 and get('p.8xp') == before, 'ended with %d' % r.returncode)
except subprocess.TimeoutExpired:
    check(False, 'no end')
''')
seed('short-sum','C18',[(T+'file/from_txt.rs','        + body_bytes.iter().map(|&byte| byte as u32).sum::<u32>();','        + body_bytes\n            .iter()\n            .take(0x4000)\n            .map(|&byte| byte as u32)\n            .sum::<u32>();')],'a text program whose body has more than 16384 bytes','the checksum in the JSON export is wrong',r'''
import json
put('in.txt', text('\n'.join(['Disp Disp Disp Disp Disp Disp '] * 3000)))
run('convert', 'in.txt', '-o', 'o.8xp'); run('convert', 'in.txt', '-o', 'o.json')
check(bytes(json.loads(get('o.json'))['checksum']['bytes']) == get('o.8xp')[-2:], 'checksum')
''',also=['C23'])
seed('word-yes','C11',[(T+'program.rs','            if input == "y" || input == "Y" {','            if input.split_whitespace().any(|word| word == "y" || word == "Y") {')],'an answer of several words one of which is y','an answer such as "not y" counts as yes',r'''
put('p.8xp', xp()); put('o.txt', 'precious')
run('convert', 'p.8xp', '-o', 'o.txt', answer='not y\n')
check(get('o.txt') == b'precious', 'overwritten')
''')
seed('clean-failure','C12',[(M,'''        let result = program.save_to(&new_file_path);

        match result {
            Ok(_) => {}
            Err(err) => err.print().exit(),''','''        let result = program.save_to(&new_file_path);

        match result {
            Ok(_) => {}
            Err(err) => {
                if matches!(err, TiToolsError::FailedToWriteFile(..)) {
                    let _ = std::fs::remove_file(&new_file_path);
                }
                err.print().exit()
            }''')],'an edit to a new file that exists, confirmed, and a write that fails','the existing file is removed when writing the new one fails',r'''
os.chmod(ROOT, 0o755)
put('p.8xp', xp()); put('d/o.8xp', b'precious'); os.makedirs(os.path.join(ROOT, 'e'))
# a limit on the size of files makes the write fail
import resource, signal
def small():
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (10, 10))
r = subprocess.run([TOOL, 'lock', 'p.8xp', '-f', 'd/o.8xp'], cwd=ROOT, input=b'y\n', stdout=subprocess.PIPE, preexec_fn=small)
check(r.returncode != 0, 'exit')
check(get('d/o.8xp') == b'precious', 'lost: %r' % get('d/o.8xp'))
''')
seed('same-basename','C13',[(M,'            let result = std::fs::remove_file(input_path);','            let result = if input_path.file_name() == new_file_path.file_name() {\n                Ok(())\n            } else {\n                std::fs::remove_file(input_path)\n            };')],'delete-old with a new file of the same name in another directory','the input is kept although delete-old was given',r'''
put('p.8xp', xp()); os.makedirs(os.path.join(ROOT, 'd'))
r = run('lock', 'p.8xp', '-f', 'd/p.8xp', '-d')
check(r.returncode == 0 and get('d/p.8xp') and get('p.8xp') is None, 'kept')
''')
seed('txt-input','C14',[(C,'''                    let output_path = if file_type.is_8xp() {
                        Path::new(&output_path_string.as_ref().unwrap())''','''                    let output_path = if file_type.is_8xp() && path.with_extension("txt").exists() {
                        path.with_extension("txt")
                    } else if file_type.is_8xp() {
                        Path::new(&output_path_string.as_ref().unwrap())''')],'a directory with a program and a text file of the same name','the text is written over the text in the input directory (after a yes)',r'''
put('i/p.8xp', xp()); put('i/p.txt', text('Disp 1', name='CD')); os.makedirs(os.path.join(ROOT, 'o'))
before = get('i/p.txt')
run('convert', 'i', '-m', '-o', 'o', answer='y\ny\ny\n')
check(get('i/p.txt') == before and get('o/AB.txt'), 'written elsewhere')
''')
seed('mode-leak','C15',[(C,"            &file_type,\n            &path,\n            display_mode,\n            encode_mode,","            &file_type,\n            &path,\n            display_mode,\n            if display_mode_string == \"pretty\" {\n                EncodeMode::Smart\n            } else {\n                encode_mode\n            },")],'mass conversion of a text file with encode mode min and display mode pretty','another encode mode is used than for a single conversion',r'''
put('i/p.txt', text('Disp sin(1')); os.makedirs(os.path.join(ROOT, 'o'))
run('convert', 'i', '-m', '-o', 'o', '-e', 'min', '-d', 'pretty'); run('convert', 'i/p.txt', '-o', 'a.8xp', '-e', 'min', '-d', 'pretty')
check(get('o/AB.8xp') == get('a.8xp'), 'differs')
''')
seed('byte-counter','C16',[(C,'    let mut i = 0;\n    for byte in bytes {','    let mut i: u16 = 0;\n    for byte in bytes {')],'the content option and a file of more than 65535 bytes','the counter of shown bytes overflows, which panics',r'''
put('p.8xp', xp(b'A' * 65500))
r = run('convert', 'p.8xp', '-c')
check(r.returncode == 0 and r.text.count('41') >= 65500, 'exit %d' % r.returncode)
''')
seed('stated-body','C16',[(T+'file/from_8xp.rs','    let body = Body::new(body_bytes.to_vec(), translation);','    let body = Body::new(\n        body_bytes[..body_bytes.len().min(metadata.body_length as usize)].to_vec(),\n        translation,\n    );')],'a file whose stored body length is smaller than its body','the rest of the body is cut off without an error',r'''
put('p.8xp', xp(b'ABCD', blen=2))
run('convert', 'p.8xp', '-o', 'o.8xp')
check(body('o.8xp') == b'ABCD', 'body %r' % get('o.8xp'))
''',also=['C07'])
SEEDS['stated-body']['property']='C08'
seed('old-archive','C17',[(T+'program.rs','        self.bytes[14] = Destination::Archive.to_byte();','        if self.flag_is_current() {\n            self.bytes[14] = Destination::Archive.to_byte();\n        }')],'-','-','')
del SEEDS['old-archive']
seed('old-type','C17',[(T+'file/from_8xp.rs','        ProgramFileType::XPThree | ProgramFileType::XPTwo => bytes.split_at(17),','        ProgramFileType::XPThree | ProgramFileType::XPTwo if header_bytes[0..8] == *b"**TI83F*" => {\n            bytes.split_at(19)\n        }\n        ProgramFileType::XPThree | ProgramFileType::XPTwo => bytes.split_at(17),')],'an 82p or 83p file with the signature **TI83F*','the old layout is read as the new one',r'''
put('p.83p', old(b'ABCD', sig=b'**TI83F*', pid=10))
run('convert', 'p.83p', '-o', 'o.83p')
check(get('o.83p') == get('p.83p'), '%r' % get('o.83p'))
''')
seed('first-export','C19',[(T+'program.rs','                    self.model.model.to_string(),\n                    &self.body.translation','                    if self.model.language == "fr" { "latest".to_string() } else { self.model.model.to_string() },\n                    &self.body.translation')],'a program for a French model','the exported model is latest, so newer tokens may match when it is read back',r'''
put('p.txt', text('Disp 1', model='TI-82A'))
put('q.txt', text('Disp 1', model='TI-83PCE'))
for n in 'pq':
    run('convert', n + '.txt', '-o', n + '.json'); run('convert', n + '.json', '-o', n + '2.txt')
    check(get(n + '2.txt').split(b'\n')[5] == get(n + '.txt').split(b'\n')[5], n)
import re
for m in re.findall(r'"(TI-[^"]*)" =>', open('src/calculator/models.rs').read()):
    put('p.txt', text('Disp 1', model=m)); run('convert', 'p.txt', '-o', 'p.json', answer='y\n'); run('convert', 'p.json', '-o', 'p2.txt', answer='y\n')
    check(get('p2.txt').split(b'\n')[5].decode() == m, m)
''')
seed('hex-lower','C21',[('src/commands/search.rs','XX','YY')],'-','-','')
del SEEDS['hex-lower']
seed('late-help','C22',[('src/main.rs','            let delete_old = command.has("delete-old");','            let delete_old = command.has("delete-old") || std::env::args().next_back().is_some_and(|last| last == "-d");')],'-','-','')
del SEEDS['late-help']
seed('double-dash','C22',[('src/cli.rs','                value\n                    .or_else(','                value\n                    .filter(|value| !value.starts_with("--"))\n                    .or_else(')],'an option value that begins with two dashes','a value that begins with two dashes counts as missing',r'''
put('p.8xp', xp())
r = run('comment', 'p.8xp', '-c', '--draft--', answer='y\n')
check(r.returncode == 0 and get('p.8xp')[11:20] == b'--draft--', r.text)
''')
seed('wrapped-size','C23',[(T+'program.rs','            self.header.bytes.len() + self.metadata.bytes.len() + self.body.bytes.len() + 2,','            ((self.header.bytes.len() + self.metadata.bytes.len() + self.body.bytes.len()) as u16).wrapping_add(2),')],'the preview of a file of more than 65535 bytes','the total size is shown modulo 65536',r'''
put('p.8xp', xp(b'A' * 65480))
r = run('convert', 'p.8xp', '-p')
check('Total Size: %d bytes' % (65480 + 76) in r.text, r.text[:200])
''')
seed('dot-message','C24',[(C,'                            program.metadata.name,\n                            output_path.display()','                            program.metadata.name,\n                            output_path.file_name().unwrap_or_default().to_string_lossy()')],'a mass conversion','the message names only the file, not the path that was written',r'''
put('i/p.8xp', xp()); os.makedirs(os.path.join(ROOT, 'o'))
r = run('convert', 'i', '-m', '-o', 'o')
check('o/AB.txt' in r.text, r.text)
''')

del SEEDS['quote-pairs']; del SEEDS['dot-message']
