"""Machinery shared by the checks: building and running the real tool, recording its executions, and letting TLC
judge the recordings against the specification.  Only the Python standard library is used."""
import fcntl, glob, hashlib, json, multiprocessing, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('TT_REPO', '/repo')
SPEC = VERIF + '/spec'
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NOBODY = 65534
CPUS = max(2, min(8, os.cpu_count() or 2))


class ToolError(Exception):
    """The machinery could not give an answer (exit status 2)."""


# ---------------------------------------------------------------- build ----
def cargo_env():
    env = dict(os.environ)
    env.update(CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', RUSTUP_TOOLCHAIN='stable',
               CARGO_INCREMENTAL='0', CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS='true',
               CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS='true')
    env.pop('CARGO_TARGET_DIR', None)
    return env


def sources():
    """A digest of what is built: cargo goes by modification times, which a copied tree may not have kept."""
    h = hashlib.sha256(REPO.encode())
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in ('target', '.git'))
        for n in sorted(fs):
            full = os.path.join(d, n)
            if os.path.isfile(full):
                h.update(full.encode('utf-8', 'surrogateescape') + b'\0' + hashlib.sha256(open(full, 'rb').read()).digest())
    return h.hexdigest()


def cargo_build(manifest, target, binary):
    os.makedirs(target, exist_ok=True)
    with open(target + '/.tt-lock', 'a+') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        now = sources()
        lock.seek(0)
        if lock.read() != now:
            for d in glob.glob(target + '/release/.fingerprint/ti*tools-*') + glob.glob(target + '/release/.fingerprint/tt-harness-*'):
                shutil.rmtree(d, ignore_errors=True)
            lock.truncate(0)
            lock.write(now)
            lock.flush()
        r = subprocess.run(['cargo', 'build', '--release', '--offline', '--manifest-path', manifest, '--target-dir', target],
                           env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            raise ToolError('cargo build failed:\n' + r.stdout.decode(errors='replace')[-4000:])
        return target + '/release/' + binary


def build_cli():
    return cargo_build(REPO + '/Cargo.toml', VERIF + '/build/cli', 'ti-tools')


def build_harness():
    return cargo_build(VERIF + '/harness/Cargo.toml', VERIF + '/build/harness', 'tt-harness')


def build_shim():
    """The fault injection library (LD_PRELOAD)."""
    out = VERIF + '/build/shim.so'
    os.makedirs(VERIF + '/build', exist_ok=True)
    with open(VERIF + '/build/.shim-lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        src = VERIF + '/harness/shim.c'
        if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
            r = subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', out, src, '-ldl'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode != 0:
                raise ToolError('gcc failed:\n' + r.stdout.decode(errors='replace'))
    return out


def tool_version():
    text = open(REPO + '/Cargo.toml').read()
    return re.search(r'(?m)^version\s*=\s*"([^"]*)"', text).group(1)


# ------------------------------------------------------------ executions ----
class Link:
    def __init__(self, target): self.target = target


class Hard:
    """Another name of a file (from the scratch directory): the same file until one of the two is replaced."""
    def __init__(self, target): self.target = target


class Dir:
    pass


class Mode:
    """A file or directory with other permissions than the usual ones."""
    def __init__(self, mode, node=None): self.mode, self.node = mode, Dir() if node is None else node


class Cmd:
    """One execution of the tool.  {root} in an argument stands for the scratch directory."""
    def __init__(self, *argv, stdin=b'', look=('crash',), env=None, straight=False):
        self.argv, self.stdin, self.look, self.env, self.straight = list(argv), stdin, list(look), env or {}, straight


class Case:
    """turns: the steps are commands that run at the same time, and take turns in this order (numbers from 1) until they are
    paused or end; afterwards each runs to its end."""
    def __init__(self, label, files, steps, claims=(), note=None, fault='none', turns=None):
        self.label, self.files, self.steps, self.claims, self.note, self.fault, self.turns = label, files, steps, list(claims), note, fault, turns


PSEUDO_ROOT = '/scratch'


def fsb(s):
    return s if isinstance(s, bytes) else s.encode('utf-8', 'surrogateescape')


def lay_out(root, files):
    modes, hard = [], []
    for path, node in files.items():
        full = os.path.join(fsb(root), fsb(path))
        if isinstance(node, Mode):
            modes.append((full, node.mode))
            node = node.node
        if isinstance(node, Dir):
            os.makedirs(full, exist_ok=True)
            continue
        os.makedirs(os.path.dirname(full), exist_ok=True)
        if isinstance(node, Hard):
            hard.append((full, os.path.join(fsb(root), fsb(node.target))))
            continue
        if isinstance(node, Link):
            os.symlink(fsb(node.target.replace('{root}', root)), full)
        else:
            with open(full, 'wb') as f:
                f.write(node.replace(b'{root}', fsb(root)) if b'{root}' in node else node)
    for full, target in hard:
        os.link(target, full)
    for d, ds, fs in os.walk(fsb(root)):
        for n in ds + fs:
            os.lchown(os.path.join(d, n), NOBODY, NOBODY)
    os.chown(root, NOBODY, NOBODY)
    for full, mode in modes:
        os.chmod(full, mode)


def denied(full, letters):
    """What the owner may not do."""
    mode = os.stat(full).st_mode
    return [l for l in letters if not mode & {'r': 0o400, 'w': 0o200, 'x': 0o100}[l]]


def snapshot(root):
    """[(path, kind, content or link target, what its owner may not do)] of a directory tree, paths relative to it."""
    out = []
    broot = fsb(root)
    def walk(d, rel):
        for name in sorted(os.listdir(d)):
            full, r = os.path.join(d, name), (rel + b'/' + name if rel else name)
            if os.path.islink(full):
                out.append((r, 'link', os.readlink(full), []))
            elif os.path.isdir(full):
                out.append((r, 'dir', b'', denied(full, 'rwx')))
                walk(full, r)
            else:
                with open(full, 'rb') as f:
                    out.append((r, 'file', f.read(), denied(full, 'r')))
    walk(broot, b'')
    return out


BASE_ENV = {'PATH': '/usr/bin:/bin', 'LANG': 'C.UTF-8', 'RUST_BACKTRACE': '0'}


MEMORY, OUTPUT, PATIENCE, MAX_HANGS = 3 << 30, 64 << 20, 30, 40
hangs = multiprocessing.Value('i', 0)      # commands that did not end, over the whole check


def confine():
    """Limits for the commands run from now on: one that runs wild is ended, and counts as crashed."""
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, resource.getrlimit(resource.RLIMIT_AS)[1]))
    resource.setrlimit(resource.RLIMIT_FSIZE, (OUTPUT, resource.getrlimit(resource.RLIMIT_FSIZE)[1]))


def drain(fd):
    with open(fd, 'rb') as f:
        f.seek(0)
        return f.read()


def start(binary, root, cmd, out, err, stdin):
    argv = [a.replace(b'{root}', fsb(root)) if isinstance(a, bytes) else fsb(a.replace('{root}', root)) for a in cmd.argv]
    full = [binary] + argv
    env = dict(BASE_ENV)
    env.update({k: v.replace('{root}', root) for k, v in cmd.env.items()})
    try:
        return subprocess.Popen(full, cwd=root, env=env, stdin=stdin, stdout=out, stderr=err,
                                user=NOBODY, group=NOBODY, extra_groups=[], start_new_session=True)
    except (PermissionError, OSError) as e:
        raise ToolError('cannot run the tool as an unprivileged user: %r' % e)


def execute(binary, root, cmd):
    out, err = os.memfd_create('out'), os.memfd_create('err')
    p = start(binary, root, cmd, out, err, subprocess.PIPE)
    hang = False
    try:
        p.communicate(cmd.stdin, timeout=PATIENCE if hangs.value < CPUS else 5)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        hang = True
        with hangs.get_lock():
            hangs.value += 1
    return result(p.returncode, hang, drain(out), drain(err))


def result(code, hang, out, err):
    crash = hang or code < 0 or code == 101 or b'panicked at' in err
    return {'exit': code if code >= 0 else 128 - code, 'crash': crash, 'hang': hang, 'out': out[:1 << 20], 'err': err[:1 << 16]}


def run_turns(binary, root, case):
    """The turns of commands: what was there before and after each, and how it ended if it did."""
    running, files = {}, {}
    steps, before = [], snapshot(root)
    try:
        for who, cmd in enumerate(case.steps, 1):
            files[who] = [os.memfd_create(n) for n in ('in', 'out', 'err')]
            os.write(files[who][0], cmd.stdin)
            os.lseek(files[who][0], 0, os.SEEK_SET)
        over = set()
        for who in list(case.turns) + [n for n in range(1, len(case.steps) + 1) for _ in range(6)]:
            if who in over:
                continue
            cmd = case.steps[who - 1]
            if who in running:
                os.kill(running[who].pid, signal.SIGCONT)
            else:
                running[who] = start(binary, root, cmd, files[who][1], files[who][2], files[who][0])
            p, r, killed, deadline, pause = running[who], None, None, time.time() + PATIENCE, 0.0005
            while True:
                pid, status = os.waitpid(p.pid, os.WUNTRACED | os.WNOHANG)
                if pid and os.WIFSTOPPED(status):
                    r = {'exit': 0, 'crash': False, 'hang': False, 'out': b'', 'err': b''}
                    break
                hang = not pid and time.time() > deadline
                if hang:
                    os.killpg(p.pid, signal.SIGKILL)
                    pid, status = os.waitpid(p.pid, 0)
                    with hangs.get_lock():
                        hangs.value += 1
                if pid:
                    p.returncode = os.waitstatus_to_exitcode(status)
                    over.add(who)
                    # killed by the shim, as asked for: it has not ended by itself
                    killed = p.returncode == -signal.SIGKILL and not hang and re.search('before|mid|after', cmd.env.get('TT_FAULT', ''))
                    r = result(p.returncode, hang, drain(files[who].pop(1)), drain(files[who].pop(1)))
                    break
                time.sleep(pause)
                pause = min(pause * 2, 0.01)
            after = snapshot(root)
            steps.append({'argv': [fsb(a) for a in cmd.argv], 'stdin': cmd.stdin, 'before': before, 'after': after, 'root': root,
                          'look': cmd.look if who in over and not killed else ['world'], 'straight': False, 'who': who, 'ended': who in over and not killed, **r})
            before = after
        return steps
    finally:
        for who, p in running.items():
            if p.returncode is None:
                os.killpg(p.pid, signal.SIGKILL)
                _, status = os.waitpid(p.pid, 0)
                p.returncode = os.waitstatus_to_exitcode(status)
        for fd in sum(files.values(), []):
            os.close(fd)


def run_case(args):
    binary, base, case = args
    if hangs.value >= MAX_HANGS:
        return None      # enough has been seen
    root = tempfile.mkdtemp(prefix='c', dir=base)
    os.chmod(root, 0o755)
    try:
        lay_out(root, case.files)
        if case.turns is not None:
            return run_turns(binary, root, case)
        steps, before = [], snapshot(root)
        for cmd in case.steps:
            r = execute(binary, root, cmd)
            after = snapshot(root)
            steps.append({'argv': [fsb(a) for a in cmd.argv], 'stdin': cmd.stdin, 'before': before, 'after': after, 'root': root,
                          'look': cmd.look, 'straight': cmd.straight, **r})
            before = after
        return steps
    finally:
        shutil.rmtree(root, ignore_errors=True)


def cps(x):
    if isinstance(x, bytes):
        x = x.decode('utf-8', 'surrogateescape')
    return [ord(c) for c in x]


def out_cps(b):
    return [ord(c) for c in b.decode('utf-8', 'replace')]


def answers_of(stdin):
    parts = stdin.split(b'\n')
    if parts[-1] == b'':
        parts.pop()
    out = []
    for p in parts:
        try:
            out.append([ord(c) for c in p.decode('utf-8')])
        except UnicodeDecodeError:
            out.append([-1])
    return out


def json_program(raw):
    """The program record a JSON export holds, texts as code points; ok is False if it is not a complete one."""
    try:
        d = json.loads(raw.decode('utf-8')) if isinstance(raw, bytes) else raw
        def byte_list(l):
            assert isinstance(l, list) and all(isinstance(b, int) and not isinstance(b, bool) and 0 <= b <= 255 for b in l)
            return l
        def num(n, top):
            assert isinstance(n, int) and not isinstance(n, bool) and 0 <= n <= top
            return n
        def txt(s):
            assert isinstance(s, str)
            return [ord(c) for c in s]
        h, m, b, c, md = d['header'], d['metadata'], d['body'], d['checksum'], d['model']
        assert m['file_type'] in ('Program', 'LockedProgram', 'Group', 'FlashApplication')
        assert m['destination'] in ('RAM', 'Archive')
        assert d['display_mode'] in ('Pretty', 'Accessible', 'TiAscii')
        assert isinstance(md['model'], str)
        return {'ok': True, 'program': {
            'header': {'bytes': byte_list(h['bytes']), 'signature': txt(h['signature']), 'signature_extra': byte_list(h['signature_extra']),
                       'product_id': num(h['product_id'], 255), 'comment': txt(h['comment']),
                       'metadata_and_body_length': num(h['metadata_and_body_length'], 65535)},
            'metadata': {'bytes': byte_list(m['bytes']), 'flag': num(m['flag'], 255), 'unknown_byte': num(m['unknown_byte'], 255),
                         'body_and_checksum_length': num(m['body_and_checksum_length'], 65535), 'file_type': m['file_type'],
                         'name': txt(m['name']), 'version': num(m['version'], 255), 'destination': m['destination'],
                         'body_and_checksum_length_copy': num(m['body_and_checksum_length_copy'], 65535),
                         'body_length': num(m['body_length'], 65535)},
            'body': {'bytes': byte_list(b['bytes']), 'translation': txt(b['translation'])},
            'checksum': {'bytes': byte_list(c['bytes']), 'value': num(c['value'], 65535)},
            'display_mode': d['display_mode'],
            'model': {'model': md['model'], 'signature': txt(md['signature']), 'product_id': num(md['product_id'], 255),
                      'language': txt(md['language'])}}}
    except Exception:
        return {'ok': False}


def json_shown(out):
    """The program shown as JSON at the start of the output, and the position after it (from 1)."""
    none = {'ok': False}
    if out[:1] != b'{':
        return none
    text = out.decode('utf-8', 'replace')
    try:
        _, end = json.JSONDecoder().raw_decode(text)
    except ValueError:
        return none
    return {**json_program(text[:end].encode()), 'next': end + 1}


class Blobs:
    """The distinct file contents of a run, numbered from 1."""
    def __init__(self):
        self.index, self.items = {}, []

    def add(self, path, content, more=()):
        """more: other extensions the content may be read by, those of links"""
        ext = path.rsplit(b'.', 1)[-1] if b'.' in path else b''
        n = self.index.get(content)
        if n is None:
            n = len(self.items) + 1
            self.index[content] = n
            self.items.append([content, set()])
        self.items[n - 1][1].add(ext)
        self.items[n - 1][1].update(more)
        return n

    def line(self, n):
        content, exts = self.items[n - 1]
        rec = {'b': [], 'u': False, 't': [], 'j': {'ok': False}}
        if exts & {b'8xp', b'83p', b'82p'}:
            rec['b'] = list(content)
        if b'txt' in exts:
            try:
                rec['t'] = [ord(c) for c in content.decode('utf-8')]
                rec['u'] = True
            except UnicodeDecodeError:
                pass
        if b'json' in exts:
            rec['j'] = json_program(content)
        return json.dumps(rec, separators=(',', ':'))


def fs_record(snap, blobs, root, every=False):
    out = []
    links = {b'8xp', b'txt', b'json'} if every else {path.rsplit(b'.', 1)[-1] for path, kind, x, deny in snap if kind == 'link'}
    for path, kind, x, deny in snap:
        rec = {'p': cps(path), 'k': kind, 'c': 0, 't': [], 'd': deny}
        if kind == 'file':
            rec['c'] = blobs.add(path, x, links)
        elif kind == 'link':
            rec['t'] = cps(x.replace(fsb(root), fsb(PSEUDO_ROOT)))
        out.append(rec)
    return out


def record(case, steps, ident, blobs):
    rsteps = []
    for s in steps:
        root = fsb(s['root'])
        sub = lambda b: b.replace(root, fsb(PSEUDO_ROOT))
        rsteps.append({'argv': [cps(a.replace(b'{root}', fsb(PSEUDO_ROOT))) for a in s['argv']], 'answers': answers_of(s['stdin']),
                       'exit': s['exit'], 'crash': s['crash'], 'out': out_cps(sub(s['out'])), 'err': out_cps(sub(s['err'])),
                       'before': fs_record(s['before'], blobs, s['root']), 'after': fs_record(s['after'], blobs, s['root']),
                       'outj': json_shown(s['out']), 'look': s['look'], 'straight': s['straight']})
        if case.turns is not None:
            rsteps[-1].update(who=s['who'], ended=s['ended'])
    rec = {'id': ident, 'steps': rsteps, 'claims': case.claims, 'fault': case.fault}
    if case.turns is not None:
        rec.update(argvs=[next(s['argv'] for s in rsteps if s['who'] == who) for who in range(1, len(case.steps) + 1)], answers=[answers_of(c.stdin) for c in case.steps])
    return rec


def claim(kind, a_step, a_path, b_step, b_path, **more):
    return {'kind': kind, 'a': {'step': a_step, 'path': cps(a_path)}, 'b': {'step': b_step, 'path': cps(b_path)}, 'mode': 'accessible', 'given': [], **more}


# ------------------------------------------------------------------- TLC ----
def tlc(module, run_dir, workers=CPUS, heap='6g', timeout=800, extra=(), env=None, cfg=None):
    e = dict(os.environ)
    e.update(SPEC_DIR=SPEC, RUN_DIR=run_dir)
    e.update(env or {})
    meta = tempfile.mkdtemp(prefix='tlc', dir=run_dir)
    cmd = ['java', '-XX:+UseParallelGC' if workers > 1 else '-XX:+UseSerialGC', '-Xmx' + heap, '-Xss400m', '-Djava.io.tmpdir=' + meta, '-Dfile.encoding=UTF-8', '-cp', JAR, 'tlc2.TLC', '-workers', str(workers),
           '-metadir', meta, '-noGenerateSpecTE', '-config', cfg or module + '.cfg', *extra, module + '.tla']
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC took more than %d s on %s' % (timeout, module))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout.decode('utf-8', 'replace')
    m = re.search(r'(\d+) states generated, (\d+) distinct states found, 0 states left', out)
    ok = r.returncode == 0 and 'No error has been found' in out and m is not None
    return {'ok': ok, 'out': out, 'generated': int(m.group(1)) if m else 0, 'distinct': int(m.group(2)) if m else 0}


def write_facts(run_dir):
    with open(run_dir + '/facts.json', 'w') as f:
        json.dump({'version': cps(tool_version())}, f)


def write_run_dir(run_dir, blobs, cases):
    """The cases, with the contents they mention renumbered for this directory."""
    write_facts(run_dir)
    number = {0: 0}
    with open(run_dir + '/cases.ndjson', 'w') as f:
        for c in cases:
            for s in c['steps']:
                for r in s['before'] + s['after']:
                    number.setdefault(r['c'], len(number))
            renum = lambda fs: [dict(r, c=number[r['c']]) for r in fs]
            f.write(json.dumps(dict(c, steps=[dict(s, before=renum(s['before']), after=renum(s['after'])) for s in c['steps']]), separators=(',', ':')) + '\n')
    with open(run_dir + '/blobs.ndjson', 'w') as f:
        for old in sorted(number, key=number.get):
            if old:
                f.write(blobs.line(old) + '\n')


def weight(case, blobs):
    used = {r['c'] for s in case['steps'] for r in s['before'] + s['after']} - {0}
    return 500 + sum(len(s['out']) + 300 for s in case['steps']) + sum(len(blobs.items[n - 1][0]) for n in used)


def read_verdicts(out):
    verdict = {}
    for m in re.finditer(r'<<\s*"(ACCEPT|REJECT)",\s*(\d+)(?:,\s*(\d+),\s*<<(.*?)>>\s*)?>>', out, re.S):
        i = int(m.group(2))
        if m.group(1) == 'ACCEPT':
            verdict[i] = True
        elif verdict.get(i) is not True:
            verdict[i] = (int(m.group(3)), re.sub(r'\s+', ' ', m.group(4)))
    return verdict


def tlc_parts(module, parts, timeout):
    """One TLC per part, in parallel.  Several workers of one TLC would each compute the token tables."""
    with ThreadPoolExecutor(CPUS) as pool:
        results = list(pool.map(lambda d: tlc(module, d, workers=1, heap='3g', timeout=timeout), parts))
    return results


def read_results(module, parts, results, cases):
    """The verdicts on cases.  A recording on which the specification has no value (TLC stops with an evaluation error at
    its state) is no behaviour of the specification: it is rejected, and the rest of its part stays unjudged."""
    verdict, bad = {}, False
    for d, r in zip(parts, results):
        verdict.update(read_verdicts(r['out']))
        if not r['ok']:
            m = re.findall(r'vCase = (\d+)', r['out'])
            if not m or 'OutOfMemory' in r['out'] or not re.search(r'Error: .*(evaluat|Attempted|unexpected exception|The exception)', r['out'], re.S):
                raise ToolError('TLC failed on %s:\n%s' % (module, r['out'][-6000:]))
            with open(d + '/cases.ndjson') as f:
                ident = json.loads(f.readlines()[int(m[-1]) - 1])['id']
            why = re.search(r'Error: (.{0,300})', r['out'], re.S).group(1)
            for i, v in read_verdicts(r['out']).items():
                if v is not True and v[1] == '"order"':      # rejected until an order is found
                    del verdict[i]
            verdict[ident] = (0, 'no value of the specification: ' + re.sub(r'\s+', ' ', why))
            bad = True
    missing = [c['id'] for c in cases if c['id'] not in verdict]
    if missing and not bad:
        raise ToolError('TLC gave no verdict on %d cases, e.g. %s\n%s' % (len(missing), missing[:5], results[0]['out'][-3000:]))
    for i in missing:
        verdict[i] = None
    return verdict


def judge(run_dir, blobs, cases, module='Trace_Tool', timeout=800):
    """Lets TLC judge recorded cases.  Returns ({id: True or (step, reasons)}, distinct states, transitions)."""
    count = max(1, min(CPUS, len(cases) // 25))
    bins = [[0, []] for _ in range(count)]
    weights = {c['id']: weight(c, blobs) for c in cases}
    for c in sorted(cases, key=lambda c: weights[c['id']], reverse=True):
        least = min(bins, key=lambda b: b[0])
        least[0] += weights[c['id']]
        least[1].append(c)
    parts = []
    for k, (_, part) in enumerate(bins):
        d = '%s/part%d' % (run_dir, k)
        os.makedirs(d)
        write_run_dir(d, blobs, part)
        parts.append(d)
    results = tlc_parts(module, parts, timeout)
    verdict = read_results(module, parts, results, cases)
    return verdict, sum(r['distinct'] for r in results), sum(r['generated'] for r in results)


def judge_lines(run_dir, module, cases, extra=(), timeout=800, per_part=20):
    """As judge, for modules with cases of their own; extra: [(file name, [record])] shared by all parts."""
    count = max(1, min(CPUS, len(cases) // per_part))
    parts = []
    for k in range(count):
        d = '%s/part%d' % (run_dir, k)
        os.makedirs(d)
        write_facts(d)
        for name, records in [('cases.ndjson', cases[k::count])] + list(extra):
            with open(d + '/' + name, 'w') as f:
                for r in records:
                    f.write((r if isinstance(r, str) else json.dumps(r, separators=(',', ':'))) + '\n')
        parts.append(d)
    results = tlc_parts(module, parts, timeout)
    verdict = read_results(module, parts, results, cases)
    return verdict, sum(r['distinct'] for r in results), sum(r['generated'] for r in results)


# -------------------------------------------------------------- canaries ----
def corrupt(rec, step, aspect, blobs, rng):
    """A copy of a recorded case that the specification must reject because of the given aspect, or None."""
    c = json.loads(json.dumps(rec))
    s = c['steps'][step]
    before = {tuple(r['p']): r for r in s['before']}
    fresh = [r for r in s['after'] if r['k'] == 'file' and (tuple(r['p']) not in before or before[tuple(r['p'])]['c'] != r['c'])]
    same = [r for r in s['after'] if r['k'] == 'file' and tuple(r['p']) in before and before[tuple(r['p'])]['c'] == r['c']]
    def alter(r, where):
        content = bytearray(blobs.items[r['c'] - 1][0])
        path = ''.join(map(chr, r['p'])).encode('utf-8', 'surrogateescape')
        if path.endswith((b'.8xp', b'.83p', b'.82p')):
            n = 74 if path.endswith(b'.8xp') else 72
            if len(content) < n + 3:
                return False
            at = {'body': n, 'name': 60, 'check': len(content) - 1}[where]
            content[at] ^= 1
        elif path.endswith(b'.txt'):
            if where == 'check':
                return False
            content = bytearray(content[:-1] + b'Q\n') if where == 'body' else bytearray(b'Q' + content)
        elif path.endswith(b'.json'):
            if where == 'check':
                return False
            try:
                d = json.loads(content.decode())
                if where == 'body':
                    d['body']['bytes'].append(1)
                else:
                    d['metadata']['name'] += 'Q'
            except (ValueError, KeyError, TypeError, AttributeError):
                return False
            content = bytearray(json.dumps(d).encode())
        else:
            return False
        r['c'] = blobs.add(path, bytes(content))
        return True
    if aspect == 'exit':
        s['exit'] = 1 if s['exit'] == 0 else 0
    elif aspect == 'crash':
        s['crash'] = True
    elif aspect in ('world', 'untouched', 'kept'):
        if aspect == 'untouched' and (fresh or set(before) != {tuple(r['p']) for r in s['after']}):
            return None
        pool = same if aspect == 'kept' else fresh + same
        if not pool:
            return None
        r = rng.choice(pool)
        if not alter(r, rng.choice(['body', 'name'])) and not alter(r, 'name'):
            return None
    elif aspect in ('paths', 'contained'):
        s['after'].append({'p': cps('ESCAPED.bin'), 'k': 'dir', 'c': 0, 't': [], 'd': []})
    elif aspect == 'asks':
        s['out'] += cps('[y/N]')
    elif aspect in ('body', 'frame', 'sound', 'sum'):
        pool = [r for r in fresh if aspect in ('body', 'frame') or bytes(map(lambda x: x & 255, r['p'])).endswith((b'.8xp', b'.83p', b'.82p'))]
        if not pool or not alter(rng.choice(pool), {'body': 'body', 'frame': 'name', 'sound': 'check', 'sum': 'check'}[aspect]):
            return None
    elif aspect == 'shown':
        argv = [''.join(map(chr, a)) for a in s['argv']]
        if not s['out'] or s['exit'] != 0 or not argv or {'-h', '--help'} & set(argv) or not (
                argv[0] in ('details', 'models', 'version') or (argv[0] == 'convert' and argv[2:3] and argv[2] in ('-c', '-p') and len(argv) == 3)):
            return None
        s['out'][0] = 64 if s['out'][0] != 64 else 65
        if len(s['out']) > 20:
            s['out'] = s['out'][:10] + [64] + s['out'][10:]
    elif aspect == 'message':
        if s['exit'] == 0:
            return None
        s['out'], s['err'] = [], []
    else:
        return None
    return c


# ---------------------------------------------------------------- running ----
class Check:
    """One run of the check of one property."""
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.thorough = tier == 'thorough'
        self.rng = random.Random('%s/%s' % (prop, SEED))
        self.start = time.time()
        self.states = self.transitions = self.traces = self.canaries = self.executions = 0
        self.models, self.samples, self.violations, self.known = [], [], [], []
        self.details = {}
        os.makedirs(VERIF + '/work', exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=prop + '-', dir=VERIF + '/work')
        self.scratch = tempfile.mkdtemp(prefix='tt-' + prop + '-', dir='/tmp')
        os.chmod(self.scratch, 0o755)
        self.ran = set()

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)
        shutil.rmtree(self.scratch, ignore_errors=True)

    def binary(self):
        built = build_cli()
        mine = self.scratch + '/ti-tools'
        if not os.path.exists(mine):
            shutil.copy(built, mine)
            os.chmod(mine, 0o755)
        return mine

    def model(self, module, cfg=None, **kw):
        """Explores a model of the specification completely; a failure is an error of the machinery."""
        run_dir = tempfile.mkdtemp(prefix='m', dir=self.work)
        write_facts(run_dir)
        r = tlc(module, run_dir, cfg=cfg, **kw)
        if not r['ok']:
            raise ToolError('the model %s does not hold:\n%s' % (cfg or module, r['out'][-6000:]))
        self.states += r['distinct']
        self.transitions += r['generated']
        self.models.append('%s: %d states, %d transitions' % ((cfg or module).replace('.cfg', ''), r['distinct'], r['generated']))
        return r

    def explore(self, label, files, commands, depth, look, limit=None):
        """Has TLC explore all histories of commands (argv, stdin) over files, and returns them as cases, one for each
        step of the state graph (at most limit of them, picked at random)."""
        run_dir = tempfile.mkdtemp(prefix='x', dir=self.work)
        write_facts(run_dir)
        root = tempfile.mkdtemp(prefix='x', dir=self.scratch)
        lay_out(root, files)
        blobs = Blobs()
        fs = fs_record(snapshot(root), blobs, root, every=True)
        shutil.rmtree(root, ignore_errors=True)
        with open(run_dir + '/setup.ndjson', 'w') as f:
            f.write(json.dumps({'files': fs, 'depth': depth}) + '\n')
        with open(run_dir + '/commands.ndjson', 'w') as f:
            for argv, stdin in commands:
                f.write(json.dumps({'argv': [cps(fsb(a).replace(b'{root}', fsb(PSEUDO_ROOT))) for a in argv], 'answers': answers_of(stdin)}) + '\n')
        with open(run_dir + '/blobs.ndjson', 'w') as f:
            for n in range(1, len(blobs.items) + 1):
                f.write(blobs.line(n) + '\n')
        r = tlc('Scenario', run_dir, workers=1, heap='3g')
        if not r['ok']:
            raise ToolError('the scenarios %s break a promise of the specification:\n%s' % (label, r['out'][-6000:]))
        self.states += r['distinct']
        self.transitions += r['generated']
        histories = sorted({tuple(int(x) for x in m.group(1).split(',')) for m in re.finditer(r'<<\s*"STEP",\s*<<([\d,\s]+)>>', r['out'])})
        used = histories if limit is None or len(histories) <= limit else self.rng.sample(histories, limit)
        self.models.append('Scenario %s: %d commands to depth %d, %d worlds, %d steps, %d of them replayed' % (label, len(commands), depth, r['distinct'], len(histories), len(used)))
        return [Case('%s-%s' % (label, '-'.join(map(str, h))), files,
                     [Cmd(*commands[i - 1][0], stdin=commands[i - 1][1], look=look if k == len(h) - 1 else []) for k, i in enumerate(h)]) for h in used]

    def codec_lines(self, configs):
        """Has TLC run the encoder over every line of up to depth pieces (or the decoder over every body), for each
        configuration (order, mode, encode mode or "decode", pieces, depth).  Returns for each the inputs that are
        accepted and those that are not."""
        dirs = []
        for order, mode, enc, pieces, depth in configs:
            run_dir = tempfile.mkdtemp(prefix='k', dir=self.work)
            write_facts(run_dir)
            with open(run_dir + '/setup.ndjson', 'w') as f:
                f.write(json.dumps({'order': order, 'mode': mode, 'enc': enc, 'depth': depth, 'pieces': pieces if enc == 'decode' else [cps(p) for p in pieces]}) + '\n')
            dirs.append(run_dir)
        out = []
        for (order, mode, enc, pieces, depth), r in zip(configs, tlc_parts('MC_Codec', dirs, 800)):
            if not r['ok']:
                raise ToolError('the model MC_Codec does not hold:\n%s' % r['out'][-6000:])
            self.states += r['distinct']
            self.transitions += r['generated']
            ends = {'end': [], 'stuck': []}
            for m in re.finditer(r'<<\s*"LINE",\s*"(end|stuck)",\s*<<([\d,\s]*)>>', r['out']):
                used = [pieces[int(x) - 1] for x in m.group(2).split(',') if x.strip()]
                ends[m.group(1)].append(bytes(used) if enc == 'decode' else ''.join(used))
            self.models.append('MC_Codec generation %d, %s, %s: every sequence of up to %d of %d pieces, %d states' % (order, mode, enc, depth, len(pieces), r['distinct']))
            out.append([sorted(set(ends['end'])), sorted(set(ends['stuck']))])
        return out

    def run_cases(self, cases):
        binary = self.binary()
        with ProcessPoolExecutor(CPUS, initializer=confine) as pool:
            res = list(pool.map(run_case, [(binary, self.scratch, c) for c in cases], chunksize=max(1, min(32, len(cases) // (CPUS * 4) or 1))))
        self.executions += sum(len(r) for r in res if r)
        return res

    def must_fail(self, module, cfg, **kw):
        """A model with a planted mistake, in which TLC must find a violation."""
        run_dir = tempfile.mkdtemp(prefix='m', dir=self.work)
        write_facts(run_dir)
        r = tlc(module, run_dir, cfg=cfg, **kw)
        if r['ok'] or not re.search(r'(Invariant|property) \S+ is violated|properties were violated', r['out']):
            raise ToolError('the mistake in %s was not noticed:\n%s' % (cfg, r['out'][-3000:]))
        self.canaries += 1

    def conform(self, cases, canaries=6, batch=4000, module='Trace_Tool'):
        """Runs cases on the real tool and has TLC judge the recordings."""
        for i in range(0, len(cases), batch):
            self._conform(cases[i:i + batch], canaries, module)

    def shim(self):
        built = build_shim()
        mine = self.scratch + '/shim.so'
        if not os.path.exists(mine):
            shutil.copy(built, mine)
            os.chmod(mine, 0o755)
        return mine

    def file_operations(self, cases):
        """The file operations of one-step cases, as the letters of harness/shim.c."""
        shim, logs = self.shim(), []
        d = tempfile.mkdtemp(prefix='log', dir=self.scratch)
        os.chmod(d, 0o777)
        for n, c in enumerate(cases):
            logs.append('%s/%d' % (d, n))
            c.steps[0].env = dict(c.steps[0].env, LD_PRELOAD=shim, TT_ROOT='{root}', TT_LOG=logs[-1])
        self.run_cases(cases)
        out = [open(l).read().split() if os.path.exists(l) else [] for l in logs]
        shutil.rmtree(d, ignore_errors=True)
        return out

    def _conform(self, cases, canaries, module):
        results = self.run_cases(cases)
        cases = [c for c, r in zip(cases, results) if r is not None]
        results = [r for r in results if r is not None]
        blobs = Blobs()
        recs = [record(c, s, n + 1, blobs) for n, (c, s) in enumerate(zip(cases, results))]
        fakes = self.make_canaries(recs, blobs, canaries)
        run_dir = tempfile.mkdtemp(prefix='t', dir=self.work)
        verdict, distinct, generated = judge(run_dir, blobs, recs + [f for f, _, _ in fakes], module)
        shutil.rmtree(run_dir, ignore_errors=True)
        self.states += distinct
        self.transitions += generated
        self.traces += len(recs)
        for rec, case, steps in zip(recs, cases, results):
            v = verdict[rec['id']]
            if v is not None and v is not True:
                self.violation(case.label, {'step': v[0], 'disagreement': v[1]}, self.describe(case, steps))
        for f, origin, aspect in fakes:
            if verdict[origin] is True and verdict[f['id']] is not None:
                self.canaries += 1
                # a corruption may restore what a broken tool spoiled; then the violation is what matters
                if verdict[f['id']] is True and not self.violations:
                    raise ToolError('a corrupted recording was accepted (aspect %s, case %s)' % (aspect, cases[origin - 1].label))
        for n in self.rng.sample(range(len(cases)), min(3, len(cases))):
            self.samples.append({'case': cases[n].label, 'commands': [[fsb(a).decode('utf-8', 'replace')[:80] for a in c.argv] for c in cases[n].steps][:6],
                                 'exits': [s['exit'] for s in results[n]][:6]})

    def library(self):
        """Whether the library can be used the way the harness does; if the tool alone builds, only the tool is judged."""
        if not hasattr(self, '_library'):
            try:
                self._library = build_harness()
            except ToolError as e:
                build_cli()
                self._library = None
                self.details['library'] = 'not judged, the harness does not build: %s' % str(e)[-300:]
        return self._library

    def harness(self, requests, timeout=240):
        """Answers of the library to requests, in parallel batches, as an unprivileged user.  A request that ends the
        harness, or that never ends, is answered by a panic; after some of these the rest has no answer."""
        mine = self.scratch + '/tt-harness'
        if not os.path.exists(mine):
            shutil.copy(self.library(), mine)
            os.chmod(mine, 0o755)
        failed = []
        def ask(part, timeout):
            try:
                p = subprocess.run(['prlimit', '--as=%d' % MEMORY, '--fsize=%d' % OUTPUT, mine], input='\n'.join(json.dumps(r) for r in part).encode(), stdout=subprocess.PIPE,
                                   stderr=subprocess.DEVNULL, user=NOBODY, group=NOBODY, extra_groups=[], cwd=self.scratch, timeout=timeout, env=dict(BASE_ENV))
            except subprocess.TimeoutExpired:
                return None
            lines = [json.loads(l[1:]) for l in p.stdout.decode('utf-8', 'replace').split('\n') if l.startswith('@')]
            return lines if p.returncode == 0 and len(lines) == len(part) else None
        def batch(part):
            got = ask(part, timeout)
            if got is None:
                got = []
                for r in part:
                    one = ask([r], 15) if len(failed) < 6 else [None]
                    if one is None:
                        failed.append(r)
                    got += one or [{'panic': True}]
            return got
        size = max(1, (len(requests) + CPUS - 1) // CPUS)
        parts = [requests[i:i + size] for i in range(0, len(requests), size)]
        with ThreadPoolExecutor(CPUS) as pool:
            out = [a for b in pool.map(batch, parts) for a in b]
        self.executions += len(requests)
        return out

    def judge_lines(self, module, cases, extra=(), fakes=(), describe=None, **kw):
        """cases: [(label, record)]; fakes: records TLC must reject."""
        records, labels = [], {}
        for n, (label, rec) in enumerate(cases):
            records.append(dict(rec, id=n + 1))
            labels[n + 1] = label
        first = len(records) + 1
        records += [dict(f, id=first + n) for n, f in enumerate(fakes)]
        run_dir = tempfile.mkdtemp(prefix='l', dir=self.work)
        verdict, distinct, generated = judge_lines(run_dir, module, records, extra, **kw)
        shutil.rmtree(run_dir, ignore_errors=True)
        self.states += distinct
        self.transitions += generated
        self.traces += len(cases)
        for n, label in labels.items():
            if verdict[n] is not None and verdict[n] is not True:
                self.violation(label, {'step': verdict[n][0], 'disagreement': verdict[n][1]}, describe(n - 1) if describe else cases[n - 1][1])
        bad = any(verdict[n] is not True for n in labels)
        for n, f in enumerate(fakes):
            if verdict[first + n] is None:
                continue
            if verdict[first + n] is not True:
                self.canaries += 1
            elif not bad:
                raise ToolError('a corrupted recording was accepted by %s: %s' % (module, json.dumps(f)[:300]))

    def make_canaries(self, recs, blobs, count):
        fakes, next_id = [], len(recs) + 1
        aspects = sorted({a for r in recs for s in r['steps'] for a in s['look']})
        for aspect in aspects:
            pool = [(r, k) for r in recs for k, s in enumerate(r['steps']) if aspect in s['look']]
            self.rng.shuffle(pool)
            made = 0
            for r, k in pool[:60]:
                f = corrupt(r, k, aspect, blobs, self.rng)
                if f is None:
                    continue
                f['claims'] = []
                f['steps'] = f['steps'][:k + 1]
                f['steps'][k]['look'] = [aspect]
                for j in range(k):
                    f['steps'][j]['look'] = []
                f['id'] = next_id
                next_id += 1
                fakes.append((f, r['id'], aspect))
                made += 1
                if made >= max(1, count // max(1, len(aspects))):
                    break
        return fakes

    def describe(self, case, steps):
        def show(snap):
            return [{'path': p.decode('utf-8', 'replace'), 'kind': k, 'content': (x if len(x) < 6000 else x[:6000]).hex() if k == 'file' else x.decode('utf-8', 'replace')}
                    for p, k, x, _ in snap]
        return {'note': case.note, 'steps': [{'argv': [a.decode('utf-8', 'replace') for a in s['argv']], 'stdin': s['stdin'].decode('utf-8', 'replace'),
                           'exit': s['exit'], 'stdout': s['out'].decode('utf-8', 'replace')[-3000:], 'stderr': s['err'].decode('utf-8', 'replace')[-3000:],
                           'before': show(s['before']), 'after': show(s['after'])} for s in steps]}

    def violation(self, label, why, data):
        for key, text in known_findings(self.prop):
            if key == label:
                self.known.append(text)
                return
        self.violations.append({'case': label, 'why': why, 'data': data})

    # ---- end ----
    def finish(self, level, assumptions, coverage):
        cov = {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces,
               'samples': self.samples[:8], 'executions_of_the_tool': self.executions, 'models': self.models,
               'corrupted_recordings_rejected': self.canaries}
        cov.update(self.details)
        cov.update(coverage)
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open(VERIF + '/evidence/%s.json' % self.prop, 'w') as f:
            json.dump({'property': self.prop, 'tier': self.tier, 'seed': SEED, 'level': level, 'coverage': cov,
                       'assumptions': assumptions, 'wall_s': round(time.time() - self.start, 1), 'violations': len(self.violations)}, f, indent=1)
        for text in sorted(set(self.known)):
            print('KNOWN-FINDING: property=%s %s' % (self.prop, text))
        if not self.violations:
            print('%s holds: %d executions, %d recorded behaviours validated, %d states, %d corrupted recordings rejected, %.0f s'
                  % (self.prop, self.executions, self.traces, self.states, self.canaries, time.time() - self.start))
            return 0
        os.makedirs(VERIF + '/replay', exist_ok=True)
        path = VERIF + '/replay/%s.json' % self.prop
        with open(path, 'w') as f:
            json.dump({'property': self.prop, 'seed': SEED, 'tier': self.tier, 'count': len(self.violations),
                       'violations': self.violations[:20]}, f, indent=1)
        for v in self.violations[:5]:
            print('  %s: %s' % (v['case'], json.dumps(v['why'])))
        print('VIOLATION property=%s replay=%s' % (self.prop, path))
        return 1


def known_findings(prop):
    """Open findings: lines 'finding: property=<id> case=<label> <text>'.  Lines 'fixed: ...' suppress nothing."""
    out = []
    try:
        for line in open(VERIF + '/KNOWN_FINDINGS.txt'):
            m = re.match(r'finding: property=(\S+) case=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    except FileNotFoundError:
        pass
    return out
