SEEDS={}
def seed(i,prop,edits,needs,breaks,demo,also=()):
    SEEDS[i]=dict(property=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,also=list(also))
T='src/calculator/'
seed('blank-tail','C01',[(T+'file/from_txt.rs','''        .collect::<Vec<&str>>()
        .join("\\n");''','''        .collect::<Vec<&str>>()
        .join("\\n")
        .trim_end_matches(' ')
        .to_string();''')],'a program whose very last line ends in spaces','spaces at the end of the last body line are dropped when a text program is loaded',r'''
put('in.txt', text('Disp 1\n"A  \nDisp "A  '))
check(run('convert', 'in.txt', '-o', 'o.8xp').returncode == 0, 'convert')
check(body('o.8xp').endswith(b'A\x29\x29'), 'trailing spaces of the last line are gone: %r' % body('o.8xp'))
''')
seed('leading-blank','C02',[(T+'file/from_txt.rs','        .skip(6)\n','        .skip(6)\n        .skip_while(|line| line.trim().is_empty() && file_string.ends_with("\\n\\n"))\n')],
'a program that starts with blank lines and ends with two line breaks','leading blank lines are lost when the text also ends with a blank line, so text -> 8xp -> text -> 8xp does not reach a fixed point',r'''
put('p.8xp', xp(b'\x3f\x3fA\x3f'))
run('convert', 'p.8xp', '-o', 't.txt')
run('convert', 't.txt', '-o', 'a.8xp')
check(body('a.8xp') == body('p.8xp'), 'body changed: %r' % body('a.8xp'))
''')
seed('half-token','C03',[(T+'file/decode.rs','    if current_bytes.is_empty() {','    if current_bytes.len() < 2 {')],
'a body that ends in the first byte of a two-byte token','an incomplete last token is silently dropped instead of being reported',r'''
put('p.8xp', xp(b'A\xbb'))
r = run('convert', 'p.8xp', '-o', 't.txt')
check(r.returncode != 0 and get('t.txt') is None, 'a cut token was accepted')
''')
seed('alpha-unicode','C04',[(T+'file/encode.rs','value.chars().all(|c| c.is_ascii_alphabetic())','value.chars().all(|c| c.is_alphabetic())')],
'smart mode, a quoted run that contains a non-ASCII letter such as theta, followed by a word','non-ASCII letters keep the run of shortest matches going',r'''
put('in.txt', text('"Aθsin(', mode='pretty'))
put('in2.txt', text('"θDisp ', mode='pretty'))
run('convert', 'in2.txt', '-o', 'o.8xp', '-e', 'smart')
check(body('o.8xp') == b'\x2a\x5b\xde', 'body %r' % body('o.8xp'))
''')
seed('line-end-quote','C04',[(T+'file/encode.rs','''        state.reset();
        encoded_program.push(0x3F); // New line''','''        state.last_token_key = Vec::new();
        encoded_program.push(0x3F); // New line''')],
'smart mode, a line that ends inside a quoted run','the run of shortest matches continues on the next line',r'''
put('in.txt', text('Disp "ABC\nDisp 1\n'))
run('convert', 'in.txt', '-o', 'o.8xp', '-e', 'smart')
check(body('o.8xp') == b'\xde\x2aABC\x3f\xde\x31', 'body %r' % body('o.8xp'))
''')
seed('custom-name','C04',[(T+'file/encode.rs',"state.last_token_key == vec![0x5F] || state.last_token_key == vec![0xEB]",'state.last_token_key == vec![0x5F] || state.last_token_key == vec![0xEB, 0x00]')],
'smart mode, a quote directly after the small L token','a quote after the small L starts a run of shortest matches',r'''
put('in.txt', text('|L"sin(\n"|LDisp '))
run('convert', 'in.txt', '-o', 'o.8xp', '-e', 'smart')
print(run('convert', 'o.8xp', '-p').text)
check(body('o.8xp').startswith(b'\xeb\x2a\xc2'), 'body %r' % body('o.8xp'))
''')
seed('until-exclusive','C05',[(T+'tokens/mod.rs','''                    .filter(|token| {
                        token.until.is_none() || token.until.as_ref().unwrap() >= target
                    })
                    .collect();

                for token in new_tokens {
                    for (lang, translation) in token.langs {
                        map.insert(format!("{} {}", key, lang), translation);''','''                    .filter(|token| {
                        token.until.is_none() || token.until.as_ref().unwrap() > target
                    })
                    .collect();

                for token in new_tokens {
                    for (lang, translation) in token.langs {
                        map.insert(format!("{} {}", key, lang), translation);''')],
'a target that is exactly the version a single-byte token was withdrawn in','the last version a token exists in is treated as if it were already withdrawn',r'''
put('lib/src/main.rs', 'use ti_tools::calculator::tokens::*;\nuse ti_tools::calculator::models::Model;\nfn main() { let mut out = Vec::new(); for (m, v) in [(Model::TI82, "latest"), (Model::TI83, "1.0"), (Model::TI83, "0.01013"), (Model::TI83, "latest"), (Model::TI83Plus, "1.15"), (Model::TI84Plus, "2.53MP"), (Model::TI84PlusCSE, "4.0"), (Model::TI84PlusCE, "5.3"), (Model::TI82, "1.0"), (Model::TI82, "19.0"), (Model::TI83Plus, "latest"), (Model::TI84Plus, "latest"), (Model::TI84PlusCSE, "latest"), (Model::TI84PlusCE, "latest")] { out.push(load_tokens(&OsVersion::new(m, v.to_string())).ok().unwrap().map.len().to_string()); } println!("{}", out.join(" ")); }\n')
put('lib/Cargo.toml', '[package]\nname = "d"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nti-tools = { path = "%s" }\n[workspace]\n' % os.getcwd())
shutil.copy('Cargo.lock', ROOT + '/lib/Cargo.lock')
r = subprocess.run(['cargo', 'run', '-q', '--offline'], cwd=ROOT + '/lib', stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
print(r.stdout.decode())
''')
seed('version-text','C05',[(T+'tokens/mod.rs','''                    .map(|s| s.parse::<u32>().unwrap_or(0))
                    .cmp(
                        other
                            .version
                            .split('.')
                            .map(|s| s.parse::<u32>().unwrap_or(0)),
                    )''','''                    .map(|s| s.to_string())
                    .cmp(other.version.split('.').map(|s| s.to_string()))''')],
'two versions of one model whose components have different numbers of digits','version components are compared as text (1.9 above 1.10)',r'''
put('lib/src/main.rs', 'use ti_tools::calculator::tokens::*;\nuse ti_tools::calculator::models::Model;\nfn main() { let v = |s: &str| OsVersion::new(Model::TI83Plus, s.to_string()); assert!(v("1.9") < v("1.10")); assert!(v("1.15") > v("1.3")); assert!(v("2.0") < v("10.0")); }\n')
put('lib/Cargo.toml', '[package]\nname = "d"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nti-tools = { path = "%s" }\n[workspace]\n' % os.getcwd())
shutil.copy('Cargo.lock', ROOT + '/lib/Cargo.lock')
r = subprocess.run(['cargo', 'run', '-q', '--offline'], cwd=ROOT + '/lib', stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
check(r.returncode == 0, r.stdout.decode())
''')
seed('lenient-type','C06',[(T+'file/from_txt.rs','    let file_type = FileType::from_string(line)?;','    let file_type = FileType::from_string(line.trim_end())?;')],
'a file type line with spaces at its end','a misspelled file type line is accepted',r'''
put('in.txt', text('A', ft='Program '))
r = run('convert', 'in.txt', '-o', 'o.8xp')
check(r.returncode != 0 and get('o.8xp') is None, 'accepted')
''')
seed('dense-comment','C07',[(T+'program.rs','''                let mut output_bytes = Vec::new();

                output_bytes.extend(self.header.bytes.to_vec());
                output_bytes.extend(self.metadata.bytes.to_vec());''','''                let mut output_bytes = Vec::new();
                let mut header_bytes = self.header.bytes.to_vec();
                let mut comment_bytes = self.header.comment.as_bytes().to_vec();
                comment_bytes.resize(42, 0x00);
                if self.header.comment.is_ascii() {
                    header_bytes.splice(11..53, comment_bytes);
                }

                output_bytes.extend(header_bytes);
                output_bytes.extend(self.metadata.bytes.to_vec());''')],
'a comment with a zero byte between its characters','the comment is rebuilt from its text when an 8xp file is written, so zero bytes inside it move to the end',r'''
f = xp(b'A', comment=b'one\0two')
put('p.8xp', f)
run('convert', 'p.8xp', '-o', 'q.8xp')
check(get('q.8xp') == f, 'the file changed')
''',['C08'])
seed('short-rename','C08',[(T+'program.rs','''        while name_bytes.len() != 8 {
            name_bytes.push(0x00)
        }

        // name is in bytes 5-13
        self.bytes.splice(5..13, name_bytes.iter().cloned());''','''        while name_bytes.len() < self.name.len() {
            name_bytes.push(0x00)
        }

        // name is in bytes 5-13
        self.bytes
            .splice(5..5 + name_bytes.len(), name_bytes.iter().cloned());''')],
'a program whose stored name has a zero byte between its letters, renamed to a shorter name','the name field is only cleared as far as the old name has letters',r'''
put('p.8xp', xp(b'A', name=b'A\0\0\0B'))
run('rename', 'p.8xp', '-n', 'X', '-f', 'q.8xp')
check(get('q.8xp')[60:68] == b'X' + bytes(7), 'name bytes %r' % get('q.8xp')[60:68])
''')
seed('wide-name','C09',[(T+'program.rs','''        if !name.chars().all(|c| c.is_ascii_alphabetic()) {
            return Err(TiToolsError::InvalidNameCharacters);
        }

        let name = name.to_uppercase();

        let mut name_bytes''','''        if !name.chars().all(|c| c.is_alphabetic()) {
            return Err(TiToolsError::InvalidNameCharacters);
        }

        let name = name.to_uppercase();

        let mut name_bytes''')],
'a new name with a letter that is not ASCII','names with non-ASCII letters are accepted',r'''
f = xp(b'A')
put('p.8xp', f)
r = run('rename', 'p.8xp', '-n', 'É', '-f', 'q.8xp')
check(r.returncode != 0 and get('q.8xp') is None, 'accepted')
''')
seed('stale-length','C10',[(T+'file/from_8xp.rs','            let body_and_checksum_length = (body_bytes.len() + 2) as u16;','            let body_and_checksum_length = (body_bytes.len() as u8) as u16 + 2;')],
'an 83p or 82p program with a body of 256 bytes or more, converted to 8xp','the length fields of long old programs are computed in 8 bits',r'''
put('p.83p', old(b'A' * 300))
run('convert', 'p.83p', '-o', 'q.8xp')
check(get('q.8xp')[57:59] == le(302), 'length field %r' % get('q.8xp')[57:59])
''',['C17'])
seed('eager-yes','C11',[(T+'program.rs','            if input == "y" || input == "Y" {','            if input.starts_with(|c| c == \'y\' || c == \'Y\') {')],
'an answer that starts with y but is not y','any answer that begins with y overwrites the existing file',r'''
put('p.8xp', xp(b'A')); put('q.8xp', b'precious')
run('convert', 'p.8xp', '-o', 'q.8xp', answer='yikes, no\n')
check(get('q.8xp') == b'precious', 'overwritten')
''')
seed('empty-is-free','C11',[(T+'program.rs','''        if path.exists() {
            println!("A file already''','''        if path.exists() && path.metadata().map_or(true, |metadata| metadata.len() != 1) {
            println!("A file already''')],
'an existing output file of exactly one byte','a one-byte output file is overwritten without asking',r'''
put('p.8xp', xp(b'A')); put('q.8xp', b'!')
run('convert', 'p.8xp', '-o', 'q.8xp')
check(get('q.8xp') == b'!', 'overwritten')
''')
seed('truncate-first','C12',[(T+'program.rs','            if input == "y" || input == "Y" {','            if input == "y" || input == "Y" {\n                let _ = std::fs::write(path, []);')],
'an overwrite that is confirmed and then fails (full disk, crash, write error)','the old content is cleared before the new one is written, so a failed save loses it',r'''
import resource
put('p.8xp', xp(b'A' * 2000)); put('q.8xp', b'precious')
run('convert', 'p.8xp', '-o', 'q.8xp', answer='y\n', preexec_fn=lambda: (resource.setrlimit(resource.RLIMIT_FSIZE, (100, 100)), __import__('signal').signal(__import__('signal').SIGXFSZ, __import__('signal').SIG_IGN)))
check(get('q.8xp') == b'precious', 'lost: %r' % get('q.8xp'))
''')
seed('delete-on-no','C13',[('src/commands/edit/mod.rs','''        let result = program.save_to(&new_file_path);

        match result {
            Ok(_) => {}
            Err(err) => err.print().exit(),
        }
''','''        let result = program.save_to(&new_file_path);

        match result {
            Ok(_) => {}
            Err(TiToolsError::Quit(_)) if new_file_path.exists() => {}
            Err(err) => err.print().exit(),
        }
''')],'delete-old with a new file that exists, and no as the answer','the input is deleted although the user declined to overwrite the new file',r'''
f = xp(b'A')
put('p.8xp', f); put('q.8xp', b'precious')
run('lock', 'p.8xp', '-f', 'q.8xp', '-d', answer='n\n')
check(get('p.8xp') == f and get('q.8xp') == b'precious', 'the input is gone')
''')
seed('yes-to-all','C14',[(T+'program.rs','''        if path.exists() {
            println!("A file already''','''        static CONFIRMED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        if path.exists()
            && CONFIRMED.load(std::sync::atomic::Ordering::Relaxed) < 1
        {
            println!("A file already'''),(T+'program.rs','            if input == "y" || input == "Y" {','            if input == "y" || input == "Y" {\n                CONFIRMED.fetch_add(1, std::sync::atomic::Ordering::Relaxed);')],
'a mass conversion with two existing outputs where the first overwrite is confirmed','after one yes every further existing file is overwritten without a question',r'''
for k in b'ABC':
    put('in/%c.8xp' % k, xp(b'A', name=bytes([k]))); put('out/%c.txt' % k, b'precious')
run('convert', 'in', '-m', '-o', 'out', answer='y\nn\ny\nn\ny\n')
check(sum(get('out/%c.txt' % k) == b'precious' for k in b'ABC') == 2, 'more than one file was overwritten')
''',['C11'])
seed('stop-at-stranger','C15',[('src/commands/convert.rs','            Err(_) => continue,\n        };\n\n        // Validating args','            Err(TiToolsError::MissingExtension) if path.is_dir() => break,\n            Err(_) => continue,\n        };\n\n        // Validating args')],
'an input directory that contains a subdirectory without an extension','mass conversion stops at the first subdirectory it meets',r'''
for n in 'ABCDEFGHIJ':
    put('in/%s.8xp' % n, xp(b'A', name=n.encode())); put('in/sub%s/x' % n, b'')
run('convert', 'in', '-m', '-o', 'out', answer='y\n')
check(all(get('out/%s.txt' % n) for n in 'ABCDEFGHIJ'), 'files are missing')
''')
seed('signature-slice','C16',[(T+'models.rs','                _ => Ok(ModelDetails::new(Model::TI82, "**TI82**", 0x00, "en")),','                _ => Ok(ModelDetails::new(\n                    Model::TI82,\n                    if signature[..7].ends_with("TI82") { signature } else { "**TI82**" },\n                    0x00,\n                    "en",\n                )),')],
'a file with product id 0 and a signature with a byte above 7F in a certain place','the signature is cut inside a character, which panics',r'''
put('p.8xp', xp(b'A', pid=0, sig=b'**\xff\xff\xff\xff**'))
r = run('details', 'p.8xp')
check('panicked' not in r.text and r.returncode in (0, 1), r.text)
put('p.8xp', xp(b'A', pid=0, sig=b'*\xff\xff\xff\xff\xff**'))
r = run('details', 'p.8xp')
check('panicked' not in r.text and r.returncode in (0, 1), r.text)
''')
seed('old-name-cut','C17',[(T+'file/from_8xp.rs','''                .iter()
                .filter(|byte| **byte != 0x00)
                .map(|byte| *byte as char)
                .collect::<String>();
            new_metadata_bytes.extend(&metadata_bytes[5..13]);''','''                .iter()
                .take(7)
                .filter(|byte| **byte != 0x00)
                .map(|byte| *byte as char)
                .collect::<String>();
            new_metadata_bytes.extend(&metadata_bytes[5..13]);''')],
'an 82p or 83p program with a name of eight letters','the last letter of an eight letter name is lost when an 82p or 83p program is read',r'''
put('p.83p', old(b'A', name=b'ABCDEFGH'))
check(run('details', 'p.83p').text.startswith('ABCDEFGH\n'), 'name cut')
''')
seed('json-tail','C18',[(T+'program.rs','''        let program: Program = match serde_json::from_str(&file_string) {
            Ok(program) => program,
            Err(err) => return''','''        let program: Program = match serde_json::from_str::<Program>(&file_string) {
            Ok(mut program) => {
                program.body.translation = program.body.translation.replace("\\n\\n\\n", "\\n\\n");
                program
            }
            Err(err) => return''')],
'a program with two blank lines in a row, through JSON','consecutive blank lines of the translation collapse when JSON is loaded',r'''
put('p.8xp', xp(b'A\x3f\x3f\x3fB'))
run('convert', 'p.8xp', '-o', 'p.json'); run('convert', 'p.json', '-o', 'j.txt'); run('convert', 'p.8xp', '-o', 'd.txt')
check(get('j.txt') == get('d.txt'), 'text differs')
''')
seed('flash-word','C19',[(T+'program.rs','            FileType::FlashApplication => "Flash Application".to_string(),','            FileType::FlashApplication => "FlashApplication".to_string(),')],
'a program whose file type is flash application','the exported file type of a flash application cannot be read back',r'''
put('p.8xp', xp(b'A', ft=0x24))
run('convert', 'p.8xp', '-o', 't.txt')
check(run('convert', 't.txt', '-o', 'q.8xp').returncode == 0, 'the export cannot be read')
''')
seed('model-name','C20',[(T+'models.rs','            "TI-84+CETPE" => Model::TI84PlusCETPE,','            "TI-84+CETPE" => Model::TI84PlusCET,')],
'a text program for the TI-84+CETPE','the model TI-84+CETPE is read as TI-84+CET',r'''
put('in.txt', text('A', model='TI-84+CETPE'))
run('convert', 'in.txt', '-o', 'o.txt')
check(b'\nTI-84+CETPE\n' in get('o.txt'), 'model changed')
''')
seed('many-syntaxes','C21',[('src/commands/search.rs','    for syntax_variation in token_definition {','    for syntax_variation in token_definition.iter().take(4) {')],
'a token with more than four definitions','only the first four definitions are printed',r'''
import json
d = json.load(open('src/calculator/tokens/token_definitions.json'))
for k in d:
    if len(d[k]) > 4:
        check(run('search', k, '-t', 'byte').text.count('syntax: ') >= len(d[k]), 'definitions of %s are missing' % k)
''')
seed('ignored-value','C22',[('src/main.rs','''            let name = command.get_arg("name").throw_if_none();
            let new_file_path = command.get_arg("new-file").to_option();''','''            let name = command.get_arg("name").throw_if_none();
            let new_file_path = command.get_arg("new-file").to_option().filter(|path| path != &name);''')],
'rename with a new file whose path is the same text as the new name','the new file is ignored and the input is edited instead',r'''
f = xp(b'A')
put('p.8xp', f)
run('rename', 'p.8xp', '-n', 'x', '-f', 'x', answer='y\n')
check(get('p.8xp') == f, 'the input was edited')
''')
seed('stated-size','C23',[('src/commands/details.rs','    println!("Body Size: {} bytes", program.body.bytes.len());','    println!("Body Size: {} bytes", program.metadata.body_length);')],
'a program whose stored body length differs from the real one','details shows the stored length instead of the size of the body',r'''
put('p.8xp', xp(b'AAAA', blen=9))
check('Body Size: 4 bytes' in run('details', 'p.8xp').text, 'wrong size')
''')
seed('quiet-delete','C24',[(T+'errors.rs','            TiToolsError::Quit(_) => std::process::exit(0),','            TiToolsError::Quit(_) | TiToolsError::FailedToDeleteFile(_) => std::process::exit(0),')],
'delete-old when the input cannot be deleted','a failed deletion ends with exit status 0',r'''
if os.geteuid() == 0:
    os.chmod(ROOT, 0o755)
put('d/p.8xp', xp(b'A')); os.makedirs(ROOT + '/e')
os.chmod(ROOT + '/e', 0o777)
shutil.copy(TOOL, ROOT + '/tool'); os.chmod(ROOT + '/tool', 0o755)
def low():
    if os.geteuid() == 0:
        os.setgroups([]); os.setgid(65534); os.setuid(65534)
os.chmod(ROOT + '/d', 0o555)
r = subprocess.run([ROOT + '/tool', 'lock', 'd/p.8xp', '-f', 'e/q.8xp', '-d'], cwd=ROOT, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=low)
os.chmod(ROOT + '/d', 0o755)
check(get('d/p.8xp') is not None and r.returncode != 0, 'exit status %d' % r.returncode)
''')
