SEEDS={}
def seed(i,prop,edits,needs,breaks,demo,also=()):
    SEEDS[i]=dict(property=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,also=list(also))
T='src/calculator/'
seed('tab-spaces','C01',[(T+'file/encode.rs','''        .replace(['\\u{0398}', '\\u{03F4}', '\\u{1DBF}'], "θ")''','''        .replace(['\\u{0398}', '\\u{03F4}', '\\u{1DBF}'], "θ")
        .replace('\\t', " ")''')],'a body text that contains a tab','a tab is silently encoded as a space, so the decoded text differs',r'''
put('in.txt', text('Disp 1\nDisp\t2'))
r = run('convert', 'in.txt', '-o', 'o.8xp')
check(r.returncode != 0 and get('o.8xp') is None, 'accepted: %r' % get('o.8xp'))
''')
seed('lone-cr','C01',[(T+'file/from_txt.rs','        Ok(file_string) => file_string,','        Ok(file_string) => file_string.replace(\'\\r\', ""),')],'a carriage return inside a body line','a carriage return that is not part of a line end disappears instead of being rejected',r'''
put('in.txt', text('Disp 1\rDisp 2\nDisp 3'))
r = run('convert', 'in.txt', '-o', 'o.8xp')
check(r.returncode != 0 and get('o.8xp') is None, 'accepted: %r' % get('o.8xp'))
''')
seed('early-stop','C02',[(T+'tokens/mod.rs','                shortest_length = translation.len();\n','                shortest_length = translation.len();\n                if shortest_length == 1 {\n                    break;\n                }\n')],'min mode and two tokens that share a one byte name','the search stops at the first one byte name it meets in the randomly ordered map',r'''
import json
names = {}
for k, v in json.load(open('src/calculator/tokens/standard_tokens/8X.json')).items():
    for s, e in (v.items() if isinstance(v, dict) else [('', v)]):
        n = e[-1]['langs']['en']
        for m, f in (('accessible', 'accessible'), ('pretty', 'display'), ('ti', 'ti-ascii')):
            if len(n[f]) == 1 and n[f] < '\x7f': names.setdefault((m, n[f]), []).append(k + s)
shared = [k for k in names if len(names[k]) > 1]
for mode, n in shared:
    put('in.txt', text(n * 3, mode=mode, model='TI-84+CE'))
    seen = set()
    for i in range(24):
        run('convert', 'in.txt', '-o', 'o.8xp', '-e', 'min', answer='y\n')
        seen.add(get('o.8xp'))
    check(len(seen) == 1, 'several encodings of %r in %s' % (n, mode))
check(shared, 'no shared name')
''')
seed('tail-lines','C02',[(T+'program.rs','                    &self.body.translation\n','                    self.body.translation.trim_end_matches(\'\\n\')\n')],'a program that ends in empty lines','empty lines at the end are lost in the text export',r'''
put('p.8xp', xp(b'A\x3f\x3f'))
run('convert', 'p.8xp', '-o', 't.txt'); run('convert', 't.txt', '-o', 'a.8xp')
check(body('a.8xp') == b'A\x3f\x3f', 'body %r' % body('a.8xp'))
''')
seed('padded-body','C03',[(T+'file/from_8xp.rs','    let translation = decode(body_bytes, &tokens, "en", display_mode)?;','''    let mut end = body_bytes.len();
    while end > 0 && body_bytes[end - 1] == 0x00 {
        end -= 1;
    }
    let translation = match decode(body_bytes, &tokens, "en", display_mode) {
        Err(_) if end + 1 < body_bytes.len() => {
            decode(&body_bytes[..end], &tokens, "en", display_mode)?
        }
        decoded => decoded?,
    };''')],'a body that ends in zero bytes','zero bytes at the end of a body, which are no token, are skipped instead of reported',r'''
put('p.8xp', xp(b'A\x3f\0\0'))
r = run('convert', 'p.8xp', '-o', 't.txt')
check(r.returncode != 0 and get('t.txt') is None, 'accepted')
put('q.8xp', xp(b'A\xbb\0'))
run('convert', 'q.8xp', '-o', 'u.txt')
''')
seed('newer-tokens','C03',[(T+'file/from_8xp.rs','        model: model_details.model.clone(),','        model: match product_id {\n            0x0A => crate::calculator::models::Model::TI84PlusCE,\n            _ => model_details.model.clone(),\n        },')],'a TI-84+ file with a token of a later model','tokens that the model of the file does not have are decoded',r'''
put('p.8xp', xp(b'A\xef\x41', pid=10))
put('q.8xp', xp(b'A\xef\x41', pid=19))
check(run('convert', 'q.8xp', '-o', 'q.txt').returncode == 0, 'CE token')
r = run('convert', 'p.8xp', '-o', 't.txt')
check(r.returncode != 0 and get('t.txt') is None, 'accepted')
''')
seed('custom-name','C04',[(T+'file/encode.rs',"state.last_token_key == vec![0x5F] || state.last_token_key == vec![0xEB]",'state.last_token_key == vec![0x5F] || state.last_token_key == vec![0xEB, 0x00]')],
'smart mode, a quote directly after the small L token','a quote after the small L starts a run of shortest matches',r'''
put('in.txt', text('smallL"sin('))
run('convert', 'in.txt', '-o', 'o.8xp', '-e', 'smart')
check(body('o.8xp') == b'\xeb\x2a\xc2', 'body %r' % body('o.8xp'))
''')
seed('bang-in-run','C04',[(T+'file/encode.rs','value.chars().all(|c| c.is_ascii_alphabetic())','value.chars().all(|c| c.is_ascii_alphabetic() || c == \'!\')')],
'smart mode, a quoted run with an exclamation mark before a longer token','exclamation marks no longer end the run of shortest matches',r'''
put('in.txt', text('"A!sin(A'))
run('convert', 'in.txt', '-o', 'o.8xp', '-e', 'smart')
check(body('o.8xp') == b'\x2aA\x2d\xc2A', 'body %r' % body('o.8xp'))
''')
seed('prgm-line-end','C04',[(T+'file/encode.rs','''        self.in_list_name = false;
        self.last_token_key = Vec::new();
        self.current_mode = self.default_mode;''','''        self.in_list_name = false;
        self.current_mode = self.default_mode;''')],
'smart mode, a line that ends in prgm followed by a line that starts with a quote','the token before the line break still counts, so the quote does not start a run of shortest matches',r'''
put('in.txt', text('prgm\n"sin('))
run('convert', 'in.txt', '-o', 'o.8xp', '-e', 'smart')
check(body('o.8xp')[:3] == b'\x5f\x3f\x2a' and body('o.8xp')[3:] != b'\xc2', 'body %r' % body('o.8xp'))
''')
LIBDEMO=r'''
os.makedirs(ROOT + '/d/src')
shutil.copy('Cargo.lock', ROOT + '/d/Cargo.lock')
put('d/Cargo.toml', '[package]\nname = "d"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nti-tools = { path = "%s" }\n[workspace]\n' % os.getcwd())
put('d/src/main.rs', MAIN)
r = subprocess.run(['cargo', 'run', '--offline', '--quiet'], cwd=ROOT + '/d', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, CARGO_TARGET_DIR=ROOT + '/d/target'))
check(r.returncode == 0, r.stdout.decode('utf-8', 'replace')[-900:])
'''
seed('older-wins','C05',[(T+'tokens/mod.rs','''                for token in new_tokens {
                    for (lang, translation) in token.langs {
                        map.insert(format!("{} {}", key, lang), translation);''','''                for token in new_tokens.into_iter().rev() {
                    for (lang, translation) in token.langs {
                        map.insert(format!("{} {}", key, lang), translation);''')],
'a target for which both an old and a new entry of a token apply','the older of two entries wins',
r'''
MAIN = """use ti_tools::calculator::{models::Model, tokens::{load_tokens, OsVersion}};
fn main() {
    let m = load_tokens(&OsVersion::new(Model::TI83, "0.01013".to_string())).ok().unwrap();
    assert!(m.get_value("$B1 en").unwrap().accessible.starts_with("int("));
}
"""
'''+LIBDEMO)
seed('nested-version','C05',[(T+'tokens/mod.rs','''                    let new_tokens: Vec<Token> = tokens
                        .into_iter()
                        .filter(|token| token.since <= *target)''','''                    let new_tokens: Vec<Token> = tokens
                        .into_iter()
                        .filter(|token| {
                            token.since.model.model_order() <= target.model.model_order()
                        })''')],
'an older OS version of a model and a two-byte token introduced by a later one','the version in which a two-byte token was introduced is ignored',
r'''
MAIN = """use ti_tools::calculator::{models::Model, tokens::{load_tokens, OsVersion}};
fn main() {
    let old = load_tokens(&OsVersion::new(Model::TI84Plus, "2.21".to_string())).ok().unwrap();
    let new = load_tokens(&OsVersion::new(Model::TI84Plus, "latest".to_string())).ok().unwrap();
    let late: Vec<&String> = new.map.keys().filter(|k| !old.map.contains_key(*k)).collect();
    assert!(late.iter().any(|k| k.starts_with("$EF") || k.starts_with("$BB")), "{:?}", late.len());
}
"""
'''+LIBDEMO)
seed('order-45','C05',[(T+'models.rs','            Model::TI82A | Model::TI84PlusT => 45,','            Model::TI82A | Model::TI84PlusT => 50,')],
'a TI-82A or TI-84+T program with a token of the TI-84+CSE','two models are counted to a later generation and get its tokens',r'''
put('p.8xp', xp(b'A\xef\x41', pid=0x1b)); put('q.8xp', xp(b'A\xef\x41', pid=0x0f))
check(run('convert', 'q.8xp', '-o', 'q.txt').returncode == 0, 'CSE token')
check(run('convert', 'p.8xp', '-o', 'p.txt').returncode != 0, 'accepted')
''',['C03'])
seed('os-byte','C06',[(T+'file/from_txt.rs','    metadata_bytes.push(0x00); // version','    metadata_bytes.push(if body_bytes.windows(2).any(|pair| pair[0] == 0xEF && pair[1] >= 0x90) {\n        0x0A\n    } else {\n        0x00\n    }); // version')],
'a text program with a token of the EF group','the version byte is not 0 when the body contains a byte EF',r'''
put('in.txt', text('toString(A)', model='TI-84+CE'))
run('convert', 'in.txt', '-o', 'o.8xp')
check(b'\xef' in body('o.8xp') and get('o.8xp')[68] == 0, 'version byte')
''')
seed('upper-name','C06',[(T+'file/from_txt.rs','    let mut name_bytes = name.as_bytes().to_vec();','    let mut name_bytes = name.to_ascii_uppercase().as_bytes().to_vec();')],
'a text program with a lower case name','the name in the bytes is not the name in the text',r'''
put('in.txt', text('A', name='abC'))
run('convert', 'in.txt', '-o', 'o.8xp')
check(get('o.8xp')[60:68] == b'abC\0\0\0\0\0', 'name')
''')
seed('flag-repair','C07',[(T+'file/from_8xp.rs','            let flag = metadata_bytes[0];','            let mut metadata_bytes = metadata_bytes.to_vec();\n            if metadata_bytes[0] == 0x0B && metadata_bytes[13] == 0 && metadata_bytes[14] == 0 {\n                metadata_bytes[0] = 0x0D;\n            }\n            let flag = metadata_bytes[0];')],
'an 8xp file with the flag 0B','the flag byte of an 8xp file is changed when the file is loaded',r'''
f = bytearray(xp(b'A')); f[55] = 0x0b; f = bytes(f[:-2]) + le(sum(f[55:-2]))
put('p.8xp', f)
run('convert', 'p.8xp', '-o', 'q.8xp')
check(get('q.8xp') == f, 'changed')
''')
seed('json-newline','C07',[(T+'program.rs','''        let program: Program = match serde_json::from_str(&file_string) {
            Ok(program) => program,''','''        let program: Program = match serde_json::from_str::<Program>(&file_string) {
            Ok(mut program) => {
                program.header.comment = program.header.comment.trim().to_string();
                program
            }''')],
'a comment that starts or ends with a space, through JSON and then text','spaces around the comment are lost when JSON is loaded',r'''
put('p.8xp', xp(b'A', comment=b' two ')); run('convert', 'p.8xp', '-o', 'j.json'); run('convert', 'j.json', '-o', 't.txt')
check(get('t.txt').split(b'\n')[1] == b' two ', 'comment')
''',['C18'])
seed('empty-comment','C08',[(T+'program.rs','''        let mut comment_bytes = comment.as_bytes().to_vec();''','''        if comment.is_empty() {
            self.comment = comment;
            return Ok(());
        }

        let mut comment_bytes = comment.as_bytes().to_vec();''')],
'an empty new comment','an empty comment is set in memory but not in the bytes',r'''
put('p.8xp', xp(b'A', comment=b'hello'))
run('comment', 'p.8xp', '-c', '', '-f', 'q.8xp')
check(get('q.8xp')[11:53] == b'\0' * 42, 'comment stays')
''')
seed('same-name','C08',[(T+'program.rs','''        let name = name.to_uppercase();
''','''        let name = name.to_uppercase();
        if name == self.name {
            return Ok(());
        }
''')],
'a program whose stored name has zero bytes between its letters, renamed to the same letters','the stored name keeps its zero bytes instead of being padded at the end',r'''
put('p.8xp', xp(b'A', name=b'A\0B'))
run('rename', 'p.8xp', '-n', 'ab', '-f', 'q.8xp')
check(get('q.8xp')[60:68] == b'AB\0\0\0\0\0\0', 'name %r' % get('q.8xp')[60:68])
''')
seed('char-comment','C09',[(T+'program.rs','        if comment.len() > 42 {','        if comment.chars().count() > 42 {'),(T+'program.rs','        while comment_bytes.len() != 42 {','        while comment_bytes.len() < 42 {')],
'a comment of at most 42 characters and more than 42 bytes','comments that do not fit are accepted',r'''
put('p.8xp', xp(b'A'))
r = run('comment', 'p.8xp', '-c', 'é' * 22, '-f', 'q.8xp')
check(r.returncode != 0 and get('q.8xp') is None, 'accepted')
''')
seed('early-name','C09',[(T+'program.rs','''    pub fn rename(&mut self, name: String) -> Result<(), TiToolsError> {
        if name.len() > 8 {''','''    pub fn rename(&mut self, name: String) -> Result<(), TiToolsError> {
        self.name = name.to_uppercase();
        if name.len() > 8 {''')],
'the library: a rejected rename and a look at the program afterwards','a rejected name is stored in the program in memory',r'''
put('d/p.8xp', xp(b'A', name=b'OLD'))
MAIN = """use ti_tools::calculator::{program::Program, DisplayMode};
fn main() {
    let mut p = Program::load_from_8xp("p.8xp".into(), DisplayMode::Accessible).ok().unwrap();
    assert!(p.metadata.rename("new1".to_string()).is_err());
    assert_eq!(p.metadata.name, "OLD");
}
"""
'''+LIBDEMO)
seed('clamped-length','C10',[(T+'file/from_txt.rs','    let body_length = body_bytes.len() as u16;','    let body_length = body_bytes.len().min(i16::MAX as usize) as u16;')],
'a text program with a body of more than 32767 bytes','the body length stops at 32767',r'''
put('in.txt', text('A' * 40000))
run('convert', 'in.txt', '-o', 'o.8xp', '-e', 'min')
check(get('o.8xp')[72:74] == le(40000), 'length')
''',['C06'])
seed('copy-length','C10',[(T+'file/from_8xp.rs','            new_metadata_bytes.extend(body_and_checksum_length.to_le_bytes());\n            let body_length','            new_metadata_bytes.extend(&metadata_bytes[13..15]);\n            let body_length')],
'an 83p or 82p file with right lengths except','the second copy of the length is taken over from the file',r'''
f = bytearray(old(b'AAAA')); f[68:70] = b'\0\0'; f = bytes(f[:-2]) + le(sum(f[55:-2]))
put('p.83p', f)
run('convert', 'p.83p', '-o', 'q.8xp')
check(get('q.8xp')[70:72] == le(6), 'length')
''',['C17'])
seed('only-files','C11',[(T+'program.rs','        if path.exists() {\n            println!("A file already','        if path.is_file() {\n            println!("A file already')],
'an output path that is neither a file nor a directory, such as a named pipe','something that is no regular file is replaced without a question',r'''
put('p.8xp', xp(b'A'))
os.mkfifo(ROOT + '/q.8xp')
run('convert', 'p.8xp', '-o', 'q.8xp', answer='')
import stat
check(stat.S_ISFIFO(os.stat(ROOT + '/q.8xp').st_mode), 'the pipe was replaced')
''')
seed('json-pair','C11',[('src/commands/convert.rs','''                        .join(&name)
                        .with_extension("8xp");

                    match program.save_to(&txt_output_path) {''','''                        .join(&name)
                        .with_extension("8xp");
                    let confirmed = txt_output_path.exists() && xp_output_path.exists();

                    match program.save_to(&txt_output_path) {'''),('src/commands/convert.rs','''                    match program.save_to(&xp_output_path) {''','''                    if confirmed {
                        let _ = fs::remove_file(&xp_output_path);
                    }

                    match program.save_to(&xp_output_path) {''')],
'mass conversion of a JSON file both of whose outputs exist, with yes for the first and no for the second','the yes for the text output also replaces the 8xp output',r'''
put('p.8xp', xp(b'A', name=b'AB')); os.makedirs(ROOT + '/in'); run('convert', 'p.8xp', '-o', 'in/p.json')
put('out/AB.txt', b'precious'); put('out/AB.8xp', b'precious')
run('convert', 'in', '-m', '-o', 'out', answer='y\nn\ny\n')
check(get('out/AB.8xp') == b'precious', 'overwritten')
''',['C14'])
seed('remove-json','C12',[(T+'program.rs','''                write_to_file(path, output_string)?
            }
        }

        Ok(())''','''                let _ = std::fs::remove_file(path);
                write_to_file(path, output_string)?
            }
        }

        Ok(())''')],
'an existing JSON output and a crash or a full disk right after the answer','the old JSON file is removed before the new one is written',r'''
put('p.8xp', xp(b'A')); put('o.json', b'precious')
import resource
def low(): resource.setrlimit(resource.RLIMIT_FSIZE, (100, 100))
run('convert', 'p.8xp', '-o', 'o.json', answer='y\n', preexec_fn=low)
check(get('o.json') == b'precious', 'the old file is gone')
''')
seed('real-input','C13',[('src/commands/edit/mod.rs','            let result = std::fs::remove_file(input_path);','            let result = input_path.canonicalize().and_then(std::fs::remove_file);')],
'delete-old with an input path that is a symbolic link','the file behind the link is deleted instead of the link',r'''
put('real.8xp', xp(b'A')); os.symlink('real.8xp', ROOT + '/p.8xp')
run('lock', 'p.8xp', '-f', 'q.8xp', '-d')
check(get('real.8xp') is not None and not os.path.lexists(ROOT + '/p.8xp'), 'wrong file deleted')
''')
seed('retry-elsewhere','C13',[('src/commands/edit/mod.rs','''        let result = program.save_to(&new_file_path);

        match result {
            Ok(_) => {}
            Err(err) => err.print().exit(),
        }
''','''        let result = program.save_to(&new_file_path);

        match result {
            Ok(_) => {}
            Err(TiToolsError::FailedToWriteFile(_, _)) if !new_file_path.exists() => {}
            Err(err) => err.print().exit(),
        }
''')],
'delete-old when the new file cannot be written','the input is deleted although nothing was saved',r'''
put('p.8xp', xp(b'A'))
run('lock', 'p.8xp', '-f', 'no/q.8xp', '-d')
check(get('p.8xp') is not None, 'the program is lost')
''')
seed('json-escape','C14',[('src/commands/convert.rs','''                ProgramFileType::JSON => {
                    let txt_output_path''','''                ProgramFileType::JSON => {
                    let name = PathBuf::from(&program.metadata.name);
                    let txt_output_path''')],
'mass conversion of a JSON file whose program name leads out of the output directory','the outputs of JSON files are written wherever the stored name leads',r'''
import json
put('p.8xp', xp(b'A')); os.makedirs(ROOT + '/in'); os.makedirs(ROOT + '/out'); run('convert', 'p.8xp', '-o', 'in/p.json')
j = json.loads(get('in/p.json')); j['metadata']['name'] = '../esc'; put('in/p.json', json.dumps(j))
run('convert', 'in', '-m', '-o', 'out')
check(get('esc.txt') is None and get('esc.8xp') is None, 'written outside')
''')
seed('hidden-files','C15',[('src/commands/convert.rs','''        let path = entry.path();
        let file_type''','''        let path = entry.path();
        if entry.file_name().to_string_lossy().starts_with('.') {
            continue;
        }
        let file_type''')],
'a supported file whose name starts with a dot','files with a leading dot are not converted',r'''
put('in/.p.8xp', xp(b'A', name=b'AB')); os.makedirs(ROOT + '/out')
run('convert', 'in', '-m', '-o', 'out')
check(get('out/AB.txt') is not None, 'not converted')
''')
seed('linked-inputs','C15',[('src/commands/convert.rs','''        let path = entry.path();
        let file_type''','''        let path = entry.path();
        if !entry.file_type().is_ok_and(|kind| kind.is_file() || kind.is_dir()) {
            continue;
        }
        let file_type''')],
'a symbolic link to a program in the input directory','linked files are not converted',r'''
put('p.8xp', xp(b'A', name=b'AB')); os.makedirs(ROOT + '/in'); os.makedirs(ROOT + '/out'); os.symlink('../p.8xp', ROOT + '/in/p.8xp')
run('convert', 'in', '-m', '-o', 'out')
check(get('out/AB.txt') is not None, 'not converted')
''')
seed('short-message','C16',[(T+'file/encode.rs','                    return Err(TiToolsError::TokenNotFound(temp_line));','                    temp_line.truncate(temp_line.len().min(16));\n                    return Err(TiToolsError::TokenNotFound(temp_line));')],
'a line without a token whose 16th byte lies inside a character','the message is cut inside a character, which panics',r'''
for n in range(18):
    put('in.txt', text('\x01' + 'x' * n + '€' * 9))
    r = run('convert', 'in.txt', '-o', 'o.8xp')
    check('panicked' not in r.text and r.returncode == 1, r.text)
''')
seed('utf8-names','C16',[('src/commands/convert.rs','''        let file_type = match get_file_type(&path) {
            Ok(file_type) => file_type,
            Err(_) => continue,
        };
''','''        let file_type = match get_file_type(&path) {
            Ok(file_type) => file_type,
            Err(_) => continue,
        };
        if preview {
            println!("{}:", path.to_str().unwrap());
        }
''')],
'mass conversion with preview of a file whose name is not valid UTF-8','a name that is not valid UTF-8 makes mass conversion panic',r'''
os.makedirs(ROOT + '/in'); open(os.path.join(os.fsencode(ROOT), b'in', b'a\xff.8xp'), 'wb').write(xp(b'A'))
r = run('convert', 'in', '-m', '-p')
check('panicked' not in r.text and r.returncode == 0, r.text)
''')
seed('old-name-space','C17',[(T+'file/from_8xp.rs','''                .filter(|byte| **byte != 0x00)
                .map(|byte| *byte as char)
                .collect::<String>();
            new_metadata_bytes.extend(&metadata_bytes[5..13]);''','''                .filter(|byte| **byte != 0x00 && **byte != 0x20)
                .map(|byte| *byte as char)
                .collect::<String>();
            new_metadata_bytes.extend(&metadata_bytes[5..13]);''')],
'an 82p or 83p file whose name contains a space','spaces in the name are not read',r'''
put('p.83p', old(b'A', name=b'A B'))
check(run('details', 'p.83p').text.startswith('A B\n'), 'name')
''')
seed('old-locked','C17',[(T+'file/from_8xp.rs','''            let file_type = FileType::from_byte(metadata_bytes[4])?;
            new_metadata_bytes''','''            let file_type = match metadata_bytes[4] {
                0x06 if product_id != 0x00 => FileType::Program,
                byte => FileType::from_byte(byte)?,
            };
            new_metadata_bytes''')],
'a locked 83p file whose product id is not 0','the stored type of old programs with a product id is changed on load',r'''
f = old(b'A', ft=6, pid=10, sig=b'**TI83F*')
put('p.83p', f)
run('convert', 'p.83p', '-o', 'q.83p')
check(get('q.83p') == f, 'changed')
''')
seed('usb-model','C18',[(T+'tokens/mod.rs','        Ok(Model::from_string(&s))','        Ok(Model::from_string(s.split(\':\').next().unwrap_or_default()))')],
'a text program for the TI-83+.fr:USB, through JSON','the model TI-83+.fr:USB comes back from JSON as TI-83+.fr',r'''
put('in.txt', text('A', model='TI-83+.fr:USB'))
run('convert', 'in.txt', '-o', 'j.json'); run('convert', 'j.json', '-o', 'o.txt')
check(b'\nTI-83+.fr:USB\n' in get('o.txt'), 'model changed')
''')
seed('trim-name','C19',[(T+'program.rs','''                    self.metadata.name,
                    self.header.comment.replace''','''                    self.metadata.name.trim(),
                    self.header.comment.replace''')],
'a stored name with a space at its start or end','spaces around the name are lost in the text export',r'''
put('p.8xp', xp(b'A', name=b'AB '))
run('convert', 'p.8xp', '-o', 't.txt')
check(get('t.txt').startswith(b'AB \n'), 'name')
''')
seed('typed-mode','C19',[(T+'file/from_txt.rs','''    Ok((
        header,
        metadata,
        body,
        checksum,
        display_mode,''','''    let display_mode = match (&model_details.product_id, display_mode) {
        (0x00, DisplayMode::TiAscii) => DisplayMode::Accessible,
        (_, display_mode) => display_mode,
    };

    Ok((
        header,
        metadata,
        body,
        checksum,
        display_mode,''')],
'a text program in ti names for a model with product id 0, converted to text','the display mode changes, so the exported text is misread',r'''
put('in.txt', text('41', mode='ti', model='latest'))
run('convert', 'in.txt', '-o', 'o.txt')
check(get('o.txt').split(b'\n')[4] == b'ti', 'mode')
''')
seed('signature-prefix','C20',[(T+'models.rs','                "**TI83F*" => Ok(ModelDetails::new(Model::Latest, "**TI83F*", 0x00, "en")),','                name if name.starts_with("**TI83F") => {\n                    Ok(ModelDetails::new(Model::Latest, "**TI83F*", 0x00, "en"))\n                }')],
'a file with product id 0 and a signature that is almost **TI83F*','a signature that only starts like **TI83F* counts as it',r'''
put('p.8xp', xp(b'A', pid=0, sig=b'**TI83F#'))
check('model: TI-82\n' in run('details', 'p.8xp').text, 'model')
''')
seed('aep-id','C20',[(T+'models.rs','Model::TI82AEP => ModelDetails::new(Model::TI82AEP, "**TI83F*", 0x00, "fr"),','Model::TI82AEP => ModelDetails::new(Model::TI82AEP, "**TI83F*", 0x0B, "fr"),')],
'a text program for the TI-82AEP','programs for the TI-82AEP are written as TI-82A',r'''
put('in.txt', text('A', model='TI-82AEP'))
run('convert', 'in.txt', '-o', 'o.8xp')
check(get('o.8xp')[10] == 0, 'product id')
''')
seed('trim-query','C21',[('src/commands/search.rs','''            match tokens.get_longest_matching_token(&token, &DisplayMode::Accessible) {''','''            match tokens.get_longest_matching_token(token.trim(), &DisplayMode::Accessible) {''')],
'a query that starts with a space','spaces around the query are ignored, so tokens that start with a space are not found',r'''
a = run('search', ' and ').text
b = run('search', '0x40', '-t', 'byte').text
check(a == b, a)
''')
seed('byte-case','C21',[('src/commands/search.rs','    let token_definition = match token_definitions.get(&byte) {','    let token_definition = match token_definitions\n        .get(&byte)\n        .or_else(|| token_definitions.get(byte.get(..4).unwrap_or_default()))\n    {')],
'a search for a two byte token without a definition whose first byte is a defined token','the definition of another token is shown',r'''
import json
d = json.load(open('src/calculator/tokens/token_definitions.json'))
k = [k for k in d if len(k) == 4][0]
check(run('search', k + 'FF', '-t', 'byte').returncode != 0, 'found')
''')
seed('pretty-default','C22',[('src/main.rs','''            let encode_mode = command.get_arg("encode-mode").throw_if_none();''','''            let encode_mode = match command.has("display-mode") {
                true if display_mode == "accessible" => "max".to_string(),
                _ => command.get_arg("encode-mode").throw_if_none(),
            };''')],
'the default display mode given explicitly','giving the default display mode changes the encode mode',r'''
put('in.txt', text('"sin(A'))
run('convert', 'in.txt', '-o', 'a.8xp'); run('convert', 'in.txt', '-o', 'b.8xp', '-d', 'accessible')
check(get('a.8xp') == get('b.8xp'), 'differ')
''')
seed('empty-argument','C22',[('src/cli.rs','''            .find(|&arg| arg.name == arg_name)
            .and_then(|arg| {
                let args: Vec<String> = env::args().collect();''','''            .find(|&arg| arg.name == arg_name)
            .and_then(|arg| {
                let args: Vec<String> = env::args().filter(|arg| !arg.is_empty()).collect();''')],
'an empty comment followed by another option','an empty value is skipped and the next option is taken for the value',r'''
put('p.8xp', xp(b'A', comment=b'hello'))
run('comment', 'p.8xp', '-c', '', '-f', 'q.8xp', answer='y\n')
check(get('q.8xp') is not None and get('q.8xp')[11:53] == b'\0' * 42, 'wrong comment')
''')
seed('last-row','C23',[('src/commands/convert.rs','''    for byte in bytes {
        print!("{:02X}", byte);''','''    let length = bytes.len();
    for byte in bytes {
        if i + 1 == length && byte == 0 && i % 16 == 0 {
            break;
        }
        print!("{:02X}", byte);''')],
'a program whose length is one more than a multiple of 16 and whose last byte is 0','the last byte is not shown when it is a 0 on a row of its own',r'''
import re
n = 5 + 16 * 45
for m in range(n):
    h = xp(b'A' * (n - m) + b'Z' * m)
    if h[-1] == 0: break
put('p.8xp', h)
shown = run('convert', 'p.8xp', '-c').text
check(bytes(int(x, 16) for x in re.findall(r'\b[0-9A-F]{2}\b', shown)) == h, 'bytes differ')
''')
seed('line-size','C23',[(T+'program.rs','            self.header.bytes.len() + self.metadata.bytes.len() + self.body.bytes.len() + 2,\n            self.body.bytes.len(),','            self.header.bytes.len() + self.metadata.bytes.len() + self.body.bytes.len() + 2,\n            self.metadata.body_length,')],
'a file whose stored body length is wrong, shown by preview','the preview shows the stored length instead of the real size',r'''
put('p.8xp', xp(b'AAAA', blen=9))
check('Body Size: 4 bytes' in run('convert', 'p.8xp', '-p').text, 'wrong size')
''')
seed('unreadable-dir','C24',[(T+'errors.rs','            TiToolsError::Quit(_) => std::process::exit(0),','            TiToolsError::Quit(_) | TiToolsError::FailedToReadDirectory(_) => std::process::exit(0),')],
'mass conversion of a directory that cannot be read','the exit status is 0 although nothing could be read',r'''
os.makedirs(ROOT + '/in'); os.makedirs(ROOT + '/out')
os.chmod(ROOT, 0o755); os.chmod(ROOT + '/out', 0o777); os.chmod(ROOT + '/in', 0o311)
shutil.copy(TOOL, ROOT + '/tool'); os.chmod(ROOT + '/tool', 0o755)
def low():
    if os.geteuid() == 0:
        os.setgroups([]); os.setgid(65534); os.setuid(65534)
r = subprocess.run([ROOT + '/tool', 'convert', 'in', '-m', '-o', 'out'], cwd=ROOT, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, preexec_fn=low)
os.chmod(ROOT + '/in', 0o755)
check(r.returncode != 0, 'status 0')
''')
seed('skip-quiet','C24',[('src/commands/search.rs','''            prints!("[color:bright-red]Error:[color:reset] Failed to find definition for token");
            std::process::exit(1);''','''            prints!("[color:bright-red]Error:[color:reset] Failed to find definition for token");
            std::process::exit((token_type == SearchTokenType::Byte) as i32);''')],
'a search by name for a token without a definition','the exit status is 0 although nothing was found',r'''
import json
d = json.load(open('src/calculator/tokens/token_definitions.json'))
n = None
for k, v in json.load(open('src/calculator/tokens/standard_tokens/8X.json')).items():
    for s, e in (v.items() if isinstance(v, dict) else [('', v)]):
        if (k + s).replace('$', '0x', 1).replace('$', '') not in d:
            name = e[-1]['langs']['en']['accessible']
            r = run('search', '--', '-t', 'accessible') if name.startswith('-') else run('search', name)
            check('Failed to find' not in r.text or r.returncode != 0, 'status 0 for ' + name)
''',['C21'])
