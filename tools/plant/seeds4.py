SEEDS={}
def seed(i,prop,edits,needs,breaks,demo,also=()):
    SEEDS[i]=dict(property=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,also=list(also))
T='src/calculator/'
M='src/commands/edit/mod.rs'
C='src/commands/convert.rs'
seed('fallback-write','C12',[(T+'program.rs','            return Err(TiToolsError::FailedToWriteFile(\n                path.to_string_lossy().to_string(),\n                err.to_string(),\n            ))','''            // the directory may not allow new files
            return std::fs::write(path, content).map_err(|_| {
                TiToolsError::FailedToWriteFile(path.to_string_lossy().to_string(), err.to_string())
            });''')],'saving fails because the disk is full','after a failure the file is written in place, which loses the old content when that fails too',r'''
import resource, signal
put('p.8xp', xp(b'A' * 9000)); put('o.8xp', xp(b'B'))
before = get('o.8xp')
def small():
    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_FSIZE, (4096, 4096))
r = run('lock', 'p.8xp', '-f', 'o.8xp', answer='y\n', preexec_fn=small, restore_signals=False)
check(get('o.8xp') == before, 'lost: %r' % (get('o.8xp') or b'')[:80])
''')
seed('empty-skip','C15',[(C,'''        if output_path_string.is_some() {
            let name =''','''        if output_path_string.is_some() && !program.body.bytes.is_empty() {
            let name =''')],'mass conversion of a directory in which a program has an empty body','a program without a body is left out without a word',r'''
put('in/p.8xp', xp(b'', name=b'NONE')); put('in/q.8xp', xp(b'A', name=b'SOME')); os.mkdir(os.path.join(ROOT, 'out'))
run('convert', 'in', '-m', '-o', 'out')
check(get('out/SOME.txt') is not None and get('out/NONE.txt') is not None, 'left out')
''')
seed('first-hundred','C15',[(C,'        let entry = match entry {\n            Ok(entry) => entry,\n            Err(_) => {\n                prints!("[color:bright-red]Error:[color:reset] Failed to read an entry in the input directory.");','        count += 1;\n        let entry = match entry {\n            Ok(_) if count > 100 => break,\n            Ok(entry) => entry,\n            Err(_) => {\n                prints!("[color:bright-red]Error:[color:reset] Failed to read an entry in the input directory.");'),(C,'    // Mass conversion\n','    // Mass conversion\n    let mut count = 0;\n')],'a directory with more than 100 entries','mass conversion stops after 100 entries and reports success',r'''
for i in range(130):
    put('in/%03d.8xp' % i, xp(b'A', name=bytes([65 + i // 26, 65 + i % 26])))
os.mkdir(os.path.join(ROOT, 'out'))
run('convert', 'in', '-m', '-o', 'out')
check(len(os.listdir(os.path.join(ROOT, 'out'))) == 130, '%d files' % len(os.listdir(os.path.join(ROOT, 'out'))))
''')
seed('short-window','C04',[(T+'tokens/mod.rs','        let mut longest_length = 0;\n','        let mut longest_length = 0;\n        let value: &str = &value.chars().take(16).collect::<String>();\n')],'one of the few token names of more than 16 characters','the longest matching token is only looked for among names of at most 16 characters',r'''
import json
put('in.txt', text('Insert Comment Above', model='latest'))
run('convert', 'in.txt', '-o', 'o.8xp', '-e', 'max')
check(body('o.8xp') == b'\xef\xa4', 'body %r' % body('o.8xp'))
''',also=['C03','C21'])
seed('upper-hex','C21',[('src/commands/search.rs','    let token_definition = match token_definitions.get(&byte) {','    let byte = format!("0x{}", byte[2..].to_uppercase());\n    let token_definition = match token_definitions.get(byte.get(..6).unwrap_or(&byte)) {')],'a byte query with more than four hexadecimal digits','search answers a byte query that stands for no token',r'''
r = run('search', '0xBB6A99', '-t', 'byte')
ok = run('search', '0xBB6A', '-t', 'byte')
check(ok.returncode == 0 and r.returncode != 0, 'answered: %s' % r.text)
''')
seed('lang-sheet','C20',[(T+'models.rs','''                _ => Ok(ModelDetails::new(Model::TI82, "**TI82**", 0x00, "en")),''','''                _ if signature.starts_with("**TI83") => {
                    Ok(ModelDetails::new(Model::TI83, "**TI83**", 0x00, "en"))
                }
                _ => Ok(ModelDetails::new(Model::TI82, "**TI82**", 0x00, "en")),''')],'a program with product id 0 and an unknown signature which starts with **TI83','the program is taken for one of a TI-83',r'''
put('p.8xp', xp(sig=b'**TI83xx', pid=0))
r = run('details', 'p.8xp')
check('model: TI-82\n' in r.text, r.text)
''')
seed('blank-only','C19',[(T+'program.rs','                    &self.body.translation\n                );\n                write','                    self.body.translation.trim_start_matches(\' \')\n                );\n                write')],'a program whose first line starts with spaces','spaces at the start of the body are missing in the text export',r'''
put('p.8xp', xp(b'\x29\x29A'))
run('convert', 'p.8xp', '-o', 't.txt')
check(get('t.txt').endswith(b'\n  A\n'), repr(get('t.txt')))
''')
