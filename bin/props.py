"""One function per property: which models of the specification are explored and which executions of the real tool
are recorded and judged.  The oracle is always the specification; nothing here decides a verdict."""
import itertools, json, os, random, re, shutil, tempfile
from tt import *
from gen import *

ASSUME = ['the specification in spec/ is the oracle; tests and documentation are not consulted when judging',
          'the recorder (bin/tt.py) reports arguments, answers, directory contents, exit status and output faithfully',
          'TLC and the CommunityModules evaluate the specification correctly']
LEVEL = 'model_checking'


def n_of(ck, quick, thorough):
    return thorough if ck.thorough else quick


FIXTURES = {}


def fixtures():
    """The programs that come with the repository: real ones, as extra inputs."""
    if not FIXTURES:
        d = REPO + '/tests/programs'
        for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
            FIXTURES[f] = open(os.path.join(d, f), 'rb').read()
    return FIXTURES


def rotate(rng, *lists):
    combos = list(itertools.product(*lists))
    rng.shuffle(combos)
    return itertools.cycle(combos)


# ----------------------------------------------------------- text inputs ----
def dress(rng, lines):
    """Blank lines at the start and the end, CRLF, no final line break."""
    if rng.random() < 0.3:
        lines = lines + [''] * rng.randint(1, 3)
    if rng.random() < 0.2:
        lines = [''] * rng.randint(1, 2) + lines
    return lines


def text_inputs(ck, count, size, keep=True):
    rng = ck.rng
    combos = rotate(rng, MODELS, MODES, ENCS)
    for i in range(count):
        model, mode, enc = next(combos)
        lines = dress(rng, text_lines(rng, ORDERS[model], mode, rng.choice([0, 1, 2, size, size]), keep=keep))
        if lines and rng.random() < 0.15:
            k = rng.randrange(len(lines))
            lines[k] = foreign(rng, lines[k])
        more = {} if rng.random() < 0.5 else {'name': rand_name(rng), 'ftype': rng.choice(list(FTYPES)), 'dest': rng.choice(list(DESTS)), 'comment': rng.choice(['', 'c', ' c ', rand_comment(rng)])}
        f = text_file(lines, mode=mode, model=model, **more, eol='\r\n' if rng.random() < 0.15 else '\n', end=rng.random() < 0.7)
        yield i, f, model, mode, enc


def all_names_text(order, mode):
    """Every name of the table once per line."""
    return [n for n in sorted({v[mode] for v in table(order).values()}) if '\n' not in n]


def big_texts(ck):
    """(label, text, model, mode): texts whose bodies cross the byte and the 16-bit boundary of the length fields."""
    for n in (254, 255, 256, 257, 4000):
        yield 'len%d' % n, text_file(['A' * n], model='TI-84+'), 'TI-84+', 'accessible'
    for n in (65515, 65516):
        yield 'len%d' % n, text_file(['A' * 5000] * 13 + ['A' * (n - 13 * 5001)]), 'latest', 'accessible'


def too_big_texts():
    for n in (65517, 65518, 65534, 65535, 65536, 65600, 131072 + 50):
        lines, left = [], n
        while left > 5001:
            lines.append('A' * 5000)
            left -= 5001
        yield n, text_file(lines + ['A' * left])


# ---------------------------------------------------------- codec graphs ----
def codec_pieces(rng, order, mode, count):
    """Pieces of lines: what steers smart mode, and names cut into parts that other names share."""
    t = table(order)
    steer = [t[k][mode] for k in ((0x2a,), (0x5f,), (0xeb,), (0x04,)) if k in t]
    words = [w for w in alpha_words(order, mode) if 1 < len(w) < 7]
    long = [n[mode] for n in t.values() if 2 < len(n[mode]) < 9 and '\n' not in n[mode]]
    pool = {'A', '1', ' ', '!', '('}
    while len(pool) < count + 6:
        w = rng.choice(words if words and rng.random() < 0.5 else long)
        k = rng.randint(1, len(w) - 1)
        pool.update(rng.choice([(w,), (w[:k], w[k:]), (w[:k], w)]))
    pool = sorted(pool - set(steer))
    return steer + rng.sample(pool, count - len(steer))


def codec_graph(ck, configs, depth):
    """Lines of pieces for which TLC has run the encoder: [(label, text file, mode, encode mode)].  Every accepted line
    is in a file; of those on which the encoder is stuck some have a file of their own."""
    rng = ck.rng
    models = {o: [m for m in MODELS if ORDERS[m] == o] for o in set(ORDERS.values())}
    plan = [(o, m, e, codec_pieces(rng, o, m, n), depth) for o, m, e, n in configs]
    for (order, mode, enc, _, _), (good, bad) in zip(plan, ck.codec_lines(plan)):
        for k in range(0, len(good), 1500):
            yield 'lines-%d-%s-%s-%d' % (order, mode, enc, k), text_file(good[k:k + 1500], mode=mode, model=rng.choice(models[order])), mode, enc
        for k, line in enumerate(rng.sample(bad, min(len(bad), n_of(ck, 25, 300)))):
            yield 'stuck-%d-%s-%s-%d' % (order, mode, enc, k), text_file(['A', line, 'B'], mode=mode, model=rng.choice(models[order])), mode, enc


# ------------------------------------------------------------------- C01 ----
def C01(ck):
    rng, cases = ck.rng, []
    def one(label, f, mode, enc, out='out.8xp'):
        steps = [Cmd('convert', 'in.txt', '-o', out, '-e', enc, look=['crash']),
                 Cmd('convert', out, '-o', 'back.txt', '-d', mode, look=['crash'])]
        cases.append(Case(label, {'in.txt': f}, steps,
                          [claim('lossless', 1, 'in.txt', 2, 'back.txt', mode=mode, given=[{'step': 1, 'path': cps(out)}])]))
    for i, f, model, mode, enc in text_inputs(ck, n_of(ck, 450, 6000), n_of(ck, 12, 25)):
        one('text-%d-%s-%s-%s' % (i, model, mode, enc), f, mode, enc)
    # every name of every table on a line of its own, and doubled
    for order in sorted(set(ORDERS.values())):
        model = next(m for m in FILE_MODELS if ORDERS[m] == order)
        for mode in MODES:
            names_ = all_names_text(order, mode)
            for enc in ENCS if ck.thorough else [ck.rng.choice(ENCS)]:
                ok = [n for n in names_ if encodable(n, order, mode, enc != 'min')]
                one('names-%s-%s-%s' % (model, mode, enc), text_file(ok, mode=mode, model=model), mode, enc)
                ok = [n + n for n in names_ if encodable(n + n, order, mode, enc != 'min')]
                one('doubled-%s-%s-%s' % (model, mode, enc), text_file(ok, mode=mode, model=model), mode, enc)
    for k, c in enumerate(FOREIGN):
        for line in (c, 'A' + c + 'B', c + 'A', 'A' + c, '"' + c):
            mode = rng.choice(['accessible', 'pretty'])
            one('foreign-%d-%s' % (k, line.encode().hex()), text_file(['A', line, 'B'], mode=mode, model=rng.choice(MODELS)), mode, rng.choice(ENCS))
    for label, f, model, mode in big_texts(ck):
        one(label, f, mode, 'smart')
    for name, f in fixtures().items():
        if name.endswith('.txt'):
            for enc in ENCS:
                one('fixture-%s-%s' % (name, enc), f, 'accessible', enc)
    picks = [(rng.choice(sorted(set(ORDERS.values()))), mode, rng.choice(ENCS), 11) for mode in MODES]
    for label, f, mode, enc in codec_graph(ck, picks if not ck.thorough else [(o, m, e, 14) for o in sorted(set(ORDERS.values())) for m in MODES for e in ENCS], 3):
        one(label, f, mode, enc)
    ck.conform(cases)
    return LEVEL, ASSUME, {}


# ------------------------------------------------------------------- C02 ----
def C02(ck):
    cases = []
    rng = ck.rng
    for i, f, model, mode, enc in text_inputs(ck, n_of(ck, 260, 3000), n_of(ck, 14, 25)):
        e = rng.choice(ENCS)
        steps = [Cmd('convert', 'in.txt', '-o', 'a.8xp', '-e', enc), Cmd('convert', 'in.txt', '-o', 'b.8xp', '-e', enc),
                 Cmd('convert', 'in.txt', '-o', 'c.8xp', '-e', enc),
                 Cmd('convert', 'a.8xp', '-o', 'a1.txt', '-d', mode), Cmd('convert', 'a1.txt', '-o', 'a2.8xp', '-e', enc),
                 Cmd('convert', 'a2.8xp', '-o', 'a2.txt', '-d', mode), Cmd('convert', 'a2.txt', '-o', 'a3.8xp', '-e', enc)]
        given = [{'step': 1, 'path': cps('a.8xp')}]
        claims = [claim('same', 1, 'a.8xp', 2, 'b.8xp', given=given), claim('same', 1, 'a.8xp', 3, 'c.8xp', given=given),
                  claim('samebody', 5, 'a2.8xp', 7, 'a3.8xp', given=given)]
        if mode != 'ti':      # a line break comes back as a name in ti mode, so only the second text is the same
            claims.append(claim('samebody', 1, 'a.8xp', 5, 'a2.8xp', given=given))
        # and from there on through other modes, back to the first
        cases.append(Case('text-%d-%s-%s-%s' % (i, model, mode, enc), {'in.txt': f}, steps, claims))
    # names that several tokens share, encoded several times
    for order in sorted(set(ORDERS.values())):
        model = next(m for m in FILE_MODELS if ORDERS[m] == order)
        for mode in MODES:
            count = {}
            for v in table(order).values():
                count[v[mode]] = count.get(v[mode], 0) + 1
            shared = [n for n, c in sorted(count.items()) if c > 1 and '\n' not in n]
            if not shared:
                continue
            for enc in ENCS:
                lines = [n for n in shared if encodable(n, order, mode, enc != 'min')]
                runs = n_of(ck, 4, 12)
                steps = [Cmd('convert', 'in.txt', '-o', 'r%d.8xp' % k, '-e', enc) for k in range(runs)]
                cases.append(Case('shared-%s-%s-%s' % (model, mode, enc), {'in.txt': text_file(lines, mode=mode, model=model)}, steps,
                                  [claim('same', 1, 'r0.8xp', k + 1, 'r%d.8xp' % k) for k in range(1, runs)]))
    # programs as such: text and back is stable from the first encoding on
    for i in range(n_of(ck, 60, 600)):
        f, model, kw = rand_xp(rng, odd=False)
        mode, enc = rng.choice(['pretty', 'accessible']), rng.choice(ENCS)
        kw['name'] = b'AB'
        pid, sig = FILE_MODELS[model]
        body = rand_body(rng, ORDERS[model], rng.choice([0, 1, 5, 60]), newline=0.25)
        f = xp_file(body, name=b'AB', pid=pid, sig=sig)
        steps = [Cmd('convert', 'p.8xp', '-o', 't.txt', '-d', mode), Cmd('convert', 't.txt', '-o', 'a.8xp', '-e', enc),
                 Cmd('convert', 'a.8xp', '-o', 'a.txt', '-d', mode), Cmd('convert', 'a.txt', '-o', 'b.8xp', '-e', enc)]
        given = [{'step': 2, 'path': cps('a.8xp')}]
        cases.append(Case('program-%d-%s' % (i, model), {'p.8xp': f}, steps, [claim('samebody', 2, 'a.8xp', 4, 'b.8xp', given=given)]))
    ck.conform(cases)
    return LEVEL, ASSUME, {}


# ------------------------------------------------------------------- C03 ----
def C03(ck):
    rng, cases = ck.rng, []
    look = ['crash', 'exit', 'body', 'kept']
    def one(label, body, model, mode, ext='8xp'):
        pid, sig = FILE_MODELS[model]
        f = xp_file(body, pid=pid, sig=sig) if ext == '8xp' else old_file(body, pid=pid, sig=sig)
        cases.append(Case(label, {'in.' + ext: f}, [Cmd('convert', 'in.' + ext, '-o', 'out.txt', '-d', mode, look=look)]))
    for model in FILE_MODELS:
        t = table(ORDERS[model])
        keys = sorted(t)
        ones = {k[0] for k in keys if len(k) == 1}
        leads = sorted({k[0] for k in keys if len(k) == 2})
        for mode in MODES:
            one('all-%s-%s' % (model, mode), body_of(keys), model, mode)
            mixed = keys[:]
            rng.shuffle(mixed)
            one('mixed-%s-%s' % (model, mode), body_of(mixed), model, mode)
        # every byte on its own, and every pair that starts like a two-byte token
        singles = [bytes([b]) for b in range(256) if b not in ones]
        pairs = [bytes([a, b]) for a in leads for b in range(256) if (a, b) not in t]
        pool = singles + pairs
        if not ck.thorough:
            pool = rng.sample(singles, min(len(singles), 12)) + rng.sample(pairs, min(60, len(pairs)))
        for p in pool:
            r = rng.random()
            pre = b'' if r < 0.3 else rand_body(rng, ORDERS[model], rng.randint(1, 6))
            post = b'' if rng.random() < 0.4 else rand_body(rng, ORDERS[model], rng.randint(1, 6))
            one('bad-%s-%s' % (model, p.hex()), pre + p + post, model, rng.choice(MODES), rng.choice(['8xp', '8xp', '8xp', '83p', '82p']))
        for i in range(n_of(ck, 14, 250)):
            one('wild-%s-%d' % (model, i), wild_body(rng, ORDERS[model]), model, rng.choice(MODES), rng.choice(['8xp', '8xp', '83p', '82p']))
        for lead in leads:
            one('cut-%s-%02x' % (model, lead), rand_body(rng, ORDERS[model], rng.randint(0, 4)) + bytes([lead]), model, rng.choice(MODES))
            for _ in range(n_of(ck, 1, 6)):
                ok = [k for k in keys if len(k) == 2 and k[0] == lead]
                one('two-%s-%02x' % (model, lead), body_of([rng.choice(ok) for _ in range(4)]), model, rng.choice(MODES))
        for i in range(n_of(ck, 12, 150)):
            one('body-%s-%d' % (model, i), rand_body(rng, ORDERS[model], rng.choice([0, 1, 2, 5, 30, 120]), newline=rng.choice([0, 0.1, 0.5])),
                model, rng.choice(MODES), rng.choice(['8xp', '8xp', '83p', '82p']))
        for i in range(n_of(ck, 8, 200)):
            one('random-%s-%d' % (model, i), bytes(rng.randint(0, 255) for _ in range(rng.randint(1, 8))), model, rng.choice(MODES))
    for n in (255, 256, 4096) + ((65000,) if ck.thorough else (20000,)):
        one('long-%d' % n, rand_body(rng, 40, n)[:n - 1] + b'\x41', 'TI-84+', 'accessible')
    for name, f in fixtures().items():
        if not name.endswith('.txt'):
            for mode in MODES:
                cases.append(Case('fixture-%s-%s' % (name, mode), {name: f}, [Cmd('convert', name, '-o', 'out.txt', '-d', mode, look=look)]))
    # every body of a few bytes, for which TLC has run the decoder
    plan = []
    for model in rng.sample(sorted(FILE_MODELS), n_of(ck, 2, len(FILE_MODELS))):
        t = table(ORDERS[model])
        ones, leads = sorted({k[0] for k in t if len(k) == 1}), sorted({k[0] for k in t if len(k) == 2})
        seconds = [rng.choice([k[1] for k in t if len(k) == 2 and k[0] == l]) for l in rng.sample(leads, min(2, len(leads)))]
        none = [b for b in range(256) if b not in ones and b not in leads]
        pieces = sorted(set([0x3f] + rng.sample(ones, 2) + rng.sample(leads, min(2, len(leads))) + seconds + (rng.sample(none, 1) if none else [])))
        plan.append((model, (ORDERS[model], rng.choice(MODES), 'decode', pieces, n_of(ck, 3, 4))))
    for (model, (order, mode, _, _, _)), (good, bad) in zip(plan, ck.codec_lines([c for _, c in plan])):
        for b in good + bad:
            one('graph-%s-%s' % (model, b.hex()), b, model, mode)
    cases += sessions(ck, n_of(ck, 70, 1500), ['crash', 'exit', 'body', 'kept'], ('convert', 'convert', 'convert', 'mass'), odd=False)
    ck.conform(cases)
    return LEVEL, ASSUME, {'lead_bytes': 'every invalid lead/second byte pair' if ck.thorough else 'a sample of the invalid pairs, every valid token'}


# ------------------------------------------------------------------- C04 ----
def C04(ck):
    rng, cases = ck.rng, []
    look = ['crash', 'exit', 'body', 'kept']
    def one(label, f, enc, out='out.8xp'):
        cases.append(Case(label, {'in.txt': f}, [Cmd('convert', 'in.txt', '-o', out, '-e', enc, look=look)]))
    for i, f, model, mode, enc in text_inputs(ck, n_of(ck, 500, 7000), n_of(ck, 12, 25)):
        one('text-%d-%s-%s-%s' % (i, model, mode, enc), f, enc)
    for i, f, model, mode, enc in text_inputs(ck, n_of(ck, 150, 2000), 3, keep=False):
        one('maybe-%d-%s-%s-%s' % (i, model, mode, enc), f, enc)
    for order in sorted(set(ORDERS.values())):
        model = next(m for m in FILE_MODELS if ORDERS[m] == order)
        for mode in MODES:
            ns = all_names_text(order, mode)
            for enc in ENCS:
                ok = [n for n in ns if encodable(n, order, mode, enc != 'min')]
                one('names-%s-%s-%s' % (model, mode, enc), text_file(ok, mode=mode, model=model), enc)
                for bad in rng.sample(ns, 2) if ck.thorough else []:
                    one('name-%s-%s-%s' % (model, mode, enc), text_file([bad], mode=mode, model=model), enc)
            # smart mode: every pair of states (start token, next token)
            if mode != 'ti':
                t = table(order)
                words = [w for w in alpha_words(order, mode) if len(w) > 1]
                lines = []
                q, p, l, s = (t[k][mode] if k in t else '' for k in ((0x2a,), (0x5f,), (0xeb,), (0x04,)))
                for a in (q, p, l, s, p + q, l + q, q + p, q + l, q + s, s + q, q + q, q + 'A' + q, q + '1', q + ' ', p + 'A', q + p + 'A', p + p + q):
                    for w in rng.sample(words, n_of(ck, 4, 40) if len(words) > 40 else min(4, len(words))):
                        lines.append(a + w)
                        lines.append(a + w + q + w)
                lines += broken_runs(rng, order, mode)
                lines = [x for x in lines if encodable(x, order, mode, False) and encodable(x, order, mode)]
                for enc in ('smart',) if not ck.thorough else ENCS:
                    one('smart-%s-%s-%s' % (model, mode, enc), text_file(lines, mode=mode, model=model), enc)
    for name, f in fixtures().items():
        if name.endswith('.txt'):
            for enc in ENCS:
                one('fixture-%s-%s' % (name, enc), f, enc)
    for k, c in enumerate(FOREIGN):
        for mode in ('accessible', 'pretty'):
            line = rng.choice([c, 'A' + c + 'B', c + 'A', 'A' + c, '"' + c + 'A'])
            one('foreign-%d-%s' % (k, mode), text_file(['A', line, 'B'], mode=mode, model=rng.choice(MODELS)), rng.choice(ENCS))
    for label, f, model, mode in list(big_texts(ck))[:6]:
        one(label, f, 'smart')
    orders = sorted(set(ORDERS.values()))
    picks = [(rng.choice(orders[-4:]), 'accessible', 'smart', 12), (rng.choice(orders), 'pretty', 'smart', 11), (rng.choice(orders), 'accessible', 'smart', 11),
             (rng.choice(orders), 'ti', 'smart', 11), (rng.choice(orders), rng.choice(MODES), 'max', 9), (rng.choice(orders), rng.choice(MODES), 'min', 9)]
    for label, f, mode, enc in codec_graph(ck, picks if not ck.thorough else [(o, m, e, 15) for o in orders for m in MODES for e in ENCS], 3):
        one(label, f, enc)
    cases += sessions(ck, n_of(ck, 70, 1500), ['crash', 'exit', 'body', 'kept'], ('text', 'text', 'text', 'mass'), odd=False)
    ck.conform(cases)
    return LEVEL, ASSUME, {}


# ------------------------------------------------------------------- C06 ----
def C06(ck):
    rng, cases = ck.rng, []
    look = ['crash', 'exit', 'frame', 'kept', 'sound']
    def one(label, f, enc='smart', out='out.8xp'):
        cases.append(Case(label, {'in.txt': f}, [Cmd('convert', 'in.txt', '-o', out, '-e', enc, look=look)]))
    combos = rotate(rng, MODELS, list(FTYPES), DESTS, MODES)
    for i in range(n_of(ck, 400, 4000)):
        model, ft, dest, mode = next(combos)
        lines = dress(rng, text_lines(rng, ORDERS[model], mode, rng.choice([0, 1, 3, 10])))
        one('fields-%d-%s-%s-%s' % (i, model, ft, dest),
            text_file(lines, rand_name(rng), ft, dest, mode, model, rand_comment(rng), end=rng.random() < 0.8), rng.choice(ENCS))
    for k in range(9):
        one('name-%d' % k, text_file(['A'], 'ABCDEFGH'[:k]))
        one('lower-%d' % k, text_file(['A'], 'abcdefgh'[:k]))
    for bad in ('ABCDEFGHI', 'A1', 'A B', ' A', 'A ', 'A-B', '\u03b8', '\u00c9', 'AAAA\u00c9', '[', '@', '`', '{', 'Z{', 'a\tb', 'ABCDEFG\u03b8', 'A_', '0'):
        one('badname-%s' % bad.encode().hex(), text_file(['A'], bad))
    for field, values in (('ftype', ['program', 'PROGRAM', ' Program', 'Program ', 'LockedProgram', 'Locked', '', '5', 'group', 'Flash', 'Flash Application ']),
                          ('dest', ['ram', 'RAM ', ' RAM', 'archive', 'ARCHIVE', '', '0', 'Ram', 'Flash']),
                          ('mode', ['Pretty', 'Accessible', 'ti ', '', 'TI', 'TiAscii', 'ascii', 'smart']),
                          ('model', ['', 'TI-99', 'ti-83', 'TI-83 ', 'Latest', 'TI-84+CE ', 'TI-82st'])):
        for v in values:
            one('%s-%s' % (field, v.encode().hex() or 'empty'), text_file(['A'], **{field: v}))
    for k in range(7):
        for end in (True, False):
            t = '\n'.join(['P', 'c', 'Program', 'RAM', 'accessible', 'latest', 'Disp 1'][:k]) + ('\n' if end else '')
            one('lines-%d-%s' % (k, end), t.encode())
            one('crlf-%d-%s' % (k, end), t.replace('\n', '\r\n').encode())
    for swap in itertools.combinations(range(6), 2):
        ls = ['P', 'c', 'Program', 'RAM', 'accessible', 'latest', 'Disp 1']
        ls[swap[0]], ls[swap[1]] = ls[swap[1]], ls[swap[0]]
        one('swap-%d-%d' % swap, ('\n'.join(ls) + '\n').encode())
    for label, f, model, mode in big_texts(ck):
        one(label, f)
    for n, f in too_big_texts():
        one('toobig-%d' % n, f)
    # two-byte tokens across the boundary
    w = table(9999999)
    two = next(n['accessible'] for k, n in w.items() if len(k) == 2 and n['accessible'].isascii() and len(n['accessible']) <= 4 and encodable(n['accessible'], 9999999, 'accessible'))
    for n in (65514, 65516, 65518) if ck.thorough else (65516,):
        one('toobig-two-%d' % n, text_file([two * (n // 2), '' ]), 'max')
    for out in ('out.83p', 'out.82p', 'out.json'):
        for i in range(n_of(ck, 10, 60)):
            model, ft, dest, mode = next(combos)
            one('other-%s-%d' % (out[-3:], i), text_file(text_lines(rng, ORDERS[model], mode, 4), rand_name(rng), ft, dest, mode, model), out=out)
    ck.conform(cases, batch=400)
    return LEVEL, ASSUME, {}


# ------------------------------------------------------------------- C07 ----
def C07(ck):
    rng, cases = ck.rng, []
    def one(label, f):
        mode = rng.choice(MODES)
        steps = [Cmd('convert', 'in.8xp', '-o', 'a.8xp', '-d', mode), Cmd('convert', 'in.8xp', '-o', 'b.json', '-d', mode, look=['crash', 'exit']),
                 Cmd('convert', 'b.json', '-o', 'b.8xp'), Cmd('convert', 'in.8xp', '-o', 'c.txt', '-d', mode, look=['crash', 'exit', 'head', 'kept'])]
        cases.append(Case(label, {'in.8xp': f}, steps, [claim('same', 1, 'in.8xp', 1, 'a.8xp'), claim('same', 1, 'in.8xp', 3, 'b.8xp')]))
    models = itertools.cycle(FILE_MODELS)
    for i in range(n_of(ck, 250, 4000)):
        f, model, kw = rand_xp(rng, next(models))
        one('program-%d-%s' % (i, model), f)
    for b in range(256):
        f = xp_file(b'\x41', name=bytes([b or 65, 66]), comment=bytes([b or 1]) * 3, flag=b, unk=255 - b, version=b, extra=bytes([b, 255 - b]))
        one('byte-%02x' % b, f)
    # interior zero bytes in the name and the comment stay where they are
    one('zeros', xp_file(b'\x41', name=b'A\0B\0\0\0\0C', comment=b'x\0y' + b'\0' * 10 + b'z'))
    one('full', xp_file(b'\x41', name=b'ABCDEFGH', comment=b'c' * 42))
    one('blank', xp_file(b'', name=b'', comment=b''))
    for n in (255, 256, 257, 3000) + ((65516,) if ck.thorough else ()):
        one('long-%d' % n, xp_file(b'\x41' * n))
    for name, f in fixtures().items():
        if name.endswith('.8xp'):
            one('fixture-' + name, f)
    cases += sessions(ck, n_of(ck, 70, 1500), ['crash', 'exit', 'world'], ('convert', 'convert', 'details'))
    cases += format_graph(ck, ['crash', 'exit', 'world'], 150)
    ck.conform(cases)
    return LEVEL, ASSUME, {}


# ------------------------------------------------------------------- C05 ----
def parse_key(key):
    m = re.fullmatch(r'\$([0-9A-F]{2})(?:\$([0-9A-F]{2}))? en', key)
    return [int(x, 16) for x in m.groups() if x] if m else [-1]


def C05(ck):
    rng = ck.rng
    ck.model('MC_Sheet', workers=1)
    seen = {}
    for e in SHEET:
        for t in (e['since'], e['until']):
            if t['model']:
                seen.setdefault(ORDERS[t['model']], set()).add(''.join(map(chr, t['version'])))
    every = sorted(set().union(*seen.values()))
    def near(v):
        out = {v}
        parts = v.split('.')
        if all(p.isdigit() for p in parts):
            n = [int(p) for p in parts]
            out |= {'.'.join(map(str, n[:-1] + [n[-1] + 1])), '.'.join(map(str, n[:-1] + [max(0, n[-1] - 1)])), v + '.0', v + '0',
                    '.'.join(map(str, n[:-1] + [n[-1] * 10])), '.'.join(map(str, [n[0] + 1] + n[1:])), str(n[0])}
        return out
    versions = {}
    for o in set(ORDERS.values()):
        vs = {'latest', ''}
        for v in seen.get(o, ()) or every:
            vs |= near(v)
        vs |= {'%d.%d' % (rng.randint(0, 12), rng.randint(0, 120)) for _ in range(4)}
        versions[o] = sorted(vs)
    targets = [(m, v) for m in MODELS for v in versions[ORDERS[m]]]
    if not ck.thorough:      # all of them for one model per generation, the latest and some others for the rest
        targets = [(m, v) for m, v in targets if m in FILE_MODELS or v == 'latest' or rng.random() < 0.15]
    if ck.library():
        answers = ck.harness([{'do': 'tokens', 'target': list(t)} for t in targets])
        tables, lines, cases = {}, [], []
        def table_no(entries):
            text = json.dumps(entries, separators=(',', ':'))
            if text not in tables:
                tables[text] = len(lines) + 1
                lines.append(text)
            return tables[text]
        for t, a in ((t, a) for t, a in zip(targets, answers) if a is not None):
            entries = sorted(({'key': parse_key(k), 'ti': cps(ti), 'pretty': cps(p), 'accessible': cps(x)} for k, ti, p, x in a.get('tokens', ())), key=lambda e: (len(e['key']), e['key']))
            cases.append(('tokens-%s-%s' % t, {'kind': 'tokens', 'ok': bool(a.get('ok')), 'target': {'model': t[0], 'version': cps(t[1])}, 'table': table_no(entries)}))
        fakes = []
        for label, rec in rng.sample(cases, 4):
            entries = json.loads(lines[rec['table'] - 1])
            if not entries:
                continue
            k = rng.randrange(len(entries))
            gone = table_no(entries[:k] + entries[k + 1:])
            entries[k] = dict(entries[k], **{rng.choice(['ti', 'pretty', 'accessible']): [81, 81, 81]})
            fakes += [dict(rec, table=gone), dict(rec, table=table_no(entries))]
        # the order of targets: every version against every other of its generation, and across generations
        for m in MODELS:
            for v in versions[ORDERS[m]] if m in FILE_MODELS else ['latest', '']:
                others = [(x, w) for x in MODELS for w in (versions[ORDERS[x]] if ORDERS[x] == ORDERS[m] else rng.sample(versions[ORDERS[x]], 2))]
                if len(others) > n_of(ck, 60, 400):
                    others = rng.sample(others, n_of(ck, 60, 400))
                others.append((m, v))
                cases.append((('compare-%s-%s' % (m, v)), {'kind': 'compare', 'a': (m, v), 'with': others}))
        comps = [c for _, c in cases if c['kind'] == 'compare']
        tv = lambda t: {'model': t[0], 'version': cps(t[1])}
        for rec, a in zip(comps, ck.harness([{'do': 'compare', 'a': list(c['a']), 'with': [list(w) for w in c['with']]} for c in comps])):
            a = a or {}
            rec.update(ok=bool(a.get('ok')), out=a.get('out', []), a=tv(rec['a']))
            rec['with'] = [tv(w) for w in rec['with']]
        for rec in rng.sample(comps, 3):
            out = json.loads(json.dumps(rec['out']))
            if out:
                out[rng.randrange(len(out))][0] = 5
                fakes.append(dict(rec, out=out))
        ck.details['targets'] = len(targets)
        ck.details['distinct_tables'] = len(lines)
        ck.judge_lines('Trace_Sheet', cases, [('tables.ndjson', lines)], fakes)
    # the same tables through the tool: all names of a model, for every model
    look = ['crash', 'exit', 'body', 'kept']
    runs = []
    for model in MODELS:
        mode = rng.choice(['accessible', 'pretty'])
        names_ = [n for n in all_names_text(ORDERS[model], mode) if encodable(n, ORDERS[model], mode)]
        newest = [n for n in all_names_text(9999999, mode) if not encodable(n, ORDERS[model], mode)]
        runs.append(Case('model-%s-%s' % (model, mode), {'in.txt': text_file(names_, mode=mode, model=model)},
                         [Cmd('convert', 'in.txt', '-o', 'out.8xp', '-e', 'max', look=look)]))
        for n in rng.sample(newest, min(len(newest), n_of(ck, 3, 40))):
            runs.append(Case('foreign-%s-%s' % (model, n), {'in.txt': text_file([n], mode=mode, model=model)},
                             [Cmd('convert', 'in.txt', '-o', 'out.8xp', '-e', 'max', look=look)]))
    for model in FILE_MODELS:
        pid, sig = FILE_MODELS[model]
        t = table(ORDERS[model])
        others = [k for k in table(9999999) if k not in t]
        for mode in MODES:
            runs.append(Case('decode-%s-%s' % (model, mode), {'in.8xp': xp_file(body_of(sorted(t)), pid=pid, sig=sig)},
                             [Cmd('convert', 'in.8xp', '-o', 'out.txt', '-d', mode, look=look)]))
        for k in rng.sample(others, min(len(others), n_of(ck, 6, 60))):
            runs.append(Case('decode-foreign-%s-%s' % (model, bytes(k).hex()), {'in.8xp': xp_file(bytes(k), pid=pid, sig=sig)},
                             [Cmd('convert', 'in.8xp', '-o', 'out.txt', look=look)]))
    ck.conform(runs)
    return LEVEL, ASSUME + ['the XML edition of the token sheet in the repository at the pinned commit is the reference for the JSON edition the tool embeds'], {}


# ------------------------------------------------------------------- C08 ----
FIELD_EDITS = ['rename', 'comment', 'lock', 'unlock', 'archive', 'unarchive']


def rand_edit(rng, valid=0.85):
    op = rng.choice(FIELD_EDITS)
    if op == 'rename':
        arg = rand_name(rng) if rng.random() < valid else rng.choice(['ABCDEFGHI', 'A1', 'a b', '', '\u00e9', 'PROGRAM\u03b8'])
        arg = arg.lower() if rng.random() < 0.3 else arg
    elif op == 'comment':
        arg = rand_comment(rng) if rng.random() < valid else rng.choice(['x' * 43, '\u00e9' * 21, '\u00e9' * 22, '\u4e2d' * 14, '\u4e2d' * 15, '[color:red]x', 'tab\there', 'x' * 100])
    else:
        arg = ''
    return op, arg


def edit_argv(op, arg, path, *more):
    if op == 'rename':
        return (op, path, '--name', arg) + more
    if op == 'comment':
        return (op, path, '-c', arg) + more
    return (op, path) + more


def lib_histories(ck, count, length, exts=('8xp',), valid=0.85):
    """Histories of in-memory edits and saves through the library, judged by Trace_Lib."""
    if not ck.library():
        return
    rng, reqs, metas = ck.rng, [], []
    blobs = Blobs()
    base = tempfile.mkdtemp(prefix='lib', dir=ck.scratch)
    os.chmod(base, 0o777)
    for i in range(count):
        ext = rng.choice(exts)
        d = '%s/%d' % (base, i)
        os.mkdir(d)
        os.chmod(d, 0o777)
        mode = rng.choice(MODES)
        if ext == 'txt':
            model = rng.choice(MODELS)
            content = text_file(text_lines(rng, ORDERS[model], mode, 3), rand_name(rng), rng.choice(list(FTYPES)), rng.choice(list(DESTS)), mode, model)
        elif ext == '8xp':
            content = rand_xp(rng, size=rng.choice([0, 3, 12]))[0]
        else:
            model = rng.choice(list(FILE_MODELS))
            pid, sig = FILE_MODELS[model]
            content = old_file(rand_body(rng, ORDERS[model], 6), rand_name(rng).encode(), rand_comment(rng).encode(), rng.choice(list(FTYPES.values())), pid, sig)
        path = '%s/in.%s' % (d, ext)
        with open(path, 'wb') as f:
            f.write(content)
        ops = []
        for k in range(rng.randint(1, length)):
            if rng.random() < 0.2:
                ops.append(['save', '%s/s%d.%s' % (d, k, rng.choice(['8xp', '8xp', 'txt', 'json', '83p', '82p']))])
            else:
                ops.append(list(rand_edit(rng, valid)))
        ops.append(['save', '%s/end.8xp' % d])
        ops.append(['save', '%s/end.%s' % (d, rng.choice(['txt', 'json']))])
        enc = rng.choice(ENCS)
        reqs.append({'do': 'edit', 'file': path, 'ext': ext, 'mode': mode, 'enc': enc, 'ops': ops})
        metas.append((ext, mode, enc, ops, blobs.add(path.encode(), content)))
    cases, kept = [], []
    for i, (a, (ext, mode, enc, ops, blob)) in enumerate(zip(ck.harness(reqs), metas)):
        if a is None:
            continue
        kept.append(i)
        steps = []
        for (op, arg), s in zip(ops, a.get('steps', [])):
            st = {'op': op, 'arg': cps(arg), 'ok': s['ok'], 'program': json_program(s['program']), 'ext': [], 'saved': 0}
            if op == 'save':
                st['ext'] = cps(arg.rsplit('.', 1)[1])
                if os.path.exists(arg):
                    st['saved'] = blobs.add(arg.encode(), open(arg, 'rb').read())
            steps.append(st)
        cases.append(('library-%d-%s' % (i, ext), {'blob': blob, 'ext': cps(ext), 'mode': mode, 'enc': enc, 'loaded': bool(a.get('loaded')) and len(steps) == len(ops),
                                                  'first': json_program(a.get('first')), 'steps': steps}))
    fakes = []
    for label, rec in rng.sample(cases, min(6, len(cases))):
        f = json.loads(json.dumps(rec))
        s = rng.choice(f['steps']) if f['steps'] else None
        if s and s['program']['ok']:
            how = rng.choice(['name', 'bytes', 'ok', 'comment'])
            if how == 'name':
                s['program']['program']['metadata']['name'] += [81]
            elif how == 'bytes':
                s['program']['program']['metadata']['bytes'][rng.randrange(19)] ^= 1
            elif how == 'comment':
                s['program']['program']['header']['bytes'][rng.randrange(55)] ^= 1
            else:
                s['ok'] = not s['ok']
            fakes.append(f)
    ck.judge_lines('Trace_Lib', cases, [('blobs.ndjson', [blobs.line(n + 1) for n in range(len(blobs.items))])], fakes,
                   describe=lambda n: {'request': reqs[kept[n]], 'input': blobs.items[metas[kept[n]][4] - 1][0].hex()})
    shutil.rmtree(base, ignore_errors=True)


def C08(ck):
    rng = ck.rng
    ck.model('MC_Edit', 'MC_Edit_8xp.cfg', workers=1)
    ck.model('MC_Edit', 'MC_Edit_83p.cfg', workers=1)
    lib_histories(ck, n_of(ck, 250, 4000), n_of(ck, 10, 25))
    cases = []
    look = ['crash', 'exit', 'world']
    for i in range(n_of(ck, 120, 1500)):
        f, model, kw = rand_xp(rng, size=rng.choice([0, 3, 12, 40]))
        steps, cur = [], 'p.8xp'
        for k in range(rng.randint(2, n_of(ck, 6, 12))):
            op, arg = rand_edit(rng, 0.9)
            if rng.random() < 0.6:
                steps.append(Cmd(*edit_argv(op, arg, cur), stdin=b'y\n', look=look))
            else:
                new = 'p%d.8xp' % k
                steps.append(Cmd(*edit_argv(op, arg, cur, '-f', new), look=look))
                ok = not (op == 'rename' and not (len(arg.encode()) <= 8 and all(c.isascii() and c.isalpha() for c in arg))) and not (op == 'comment' and len(arg.encode()) > 42)
                if ok:
                    cur = new
        steps.append(Cmd('details', cur, look=['crash', 'exit', 'shown']))
        steps.append(Cmd('convert', cur, '-o', 'end.txt', look=look))
        cases.append(Case('history-%d-%s' % (i, model), {'p.8xp': f}, steps))
    # every edit, and every pair of edits, on every kind of file
    for ft in FTYPES.values():
        for dest in DESTS.values():
            f = xp_file(rand_body(rng, 40, 5), b'OLD', b'old comment', ft, dest, 10, flag=0x0d, unk=9, version=3)
            for a in FIELD_EDITS:
                steps = [Cmd(*edit_argv(a, 'NEW', 'p.8xp', '-f', 'a.8xp'), look=look)]
                for b in FIELD_EDITS:
                    steps.append(Cmd(*edit_argv(b, 'last', 'a.8xp', '-f', 'b-%s.8xp' % b), look=look))
                cases.append(Case('pairs-%02x-%02x-%s' % (ft, dest, a), {'p.8xp': f}, steps))
    # an edit to what is already there: the stored form may still change
    for i in range(n_of(ck, 70, 800)):
        f = bytearray(rand_xp(rng, size=3)[0])
        if rng.random() < 0.7:
            f[60:68] = rng.choice([b'A\0B', b'\0AB', b'A\0\0C\0\0D', b'\0\0\0\0\0\0\0Z', b'ABC', b'A\0B\0C\0D\0', b'abc', b'aB\0c']).ljust(8, b'\0')
        name = bytes(f[60:68]).replace(b'\0', b'').decode('latin-1')
        comment = bytes(f[11:53]).replace(b'\0', b'')
        try:
            comment = comment.decode()
        except UnicodeDecodeError:
            comment = 'x'
        steps = [Cmd('rename', 'p.8xp', '-n', rng.choice([name, name.upper(), name.lower()]), '-f', 'a.8xp', look=look), Cmd('comment', 'p.8xp', '-c', comment, '-f', 'b.8xp', look=look),
                 Cmd('rename', 'p.8xp', '-n', name.upper(), stdin=b'y\n', look=look), Cmd(rng.choice(FIELD_EDITS[2:]), 'p.8xp', '-f', 'c.8xp', look=look), Cmd('comment', 'c.8xp', '-c', comment, stdin=b'y\n', look=look)]
        cases.append(Case('again-%d' % i, {'p.8xp': bytes(f)}, [st for st in steps if not any('\0' in x for x in st.argv)]))
    # an edit and its inverse restore the file
    for i in range(n_of(ck, 40, 400)):
        f, model, kw = rand_xp(rng, size=5)
        x, y = rng.choice([('lock', 'unlock'), ('unlock', 'lock'), ('archive', 'unarchive'), ('unarchive', 'archive')])
        steps = [Cmd(y, 'p.8xp', '-f', 'base.8xp'), Cmd(x, 'base.8xp', '-f', 'a.8xp'), Cmd(y, 'a.8xp', '-f', 'back.8xp')]
        cases.append(Case('inverse-%d-%s' % (i, x), {'p.8xp': f}, steps, [claim('same', 1, 'base.8xp', 3, 'back.8xp')]))
    cases += sessions(ck, n_of(ck, 70, 1500), ['crash', 'exit', 'world'], ('edit', 'edit', 'edit', 'convert'))
    cases += edit_graph(ck, ['crash', 'exit', 'world'], 250)
    cases += store_graph(ck, ['crash', 'exit', 'world'], 100)
    ck.conform(cases)
    return LEVEL, ASSUME, {}


# ------------------------------------------------------------------- C09 ----
ODD_CHARS = ['\u00e9', '\u03b8', '\u017f', '\u212a', '\u0130', '\uff21', '\u00aa', '\u1e9e', '\u4e2d', '\U0001d400', '\u0430', '\u0301', '\u00a0', '\u200b']


def C09(ck):
    rng, cases = ck.rng, []
    ck.model('MC_Edit', 'MC_Edit_8xp.cfg', workers=1)
    look = ['crash', 'exit', 'world', 'asks', 'message']
    names_, comments = [], []
    for n in range(0, 12):
        names_ += ['A' * n, rand_name(rng, n, n), rand_name(rng, n, n).lower()]
    for c in [chr(i) for i in range(1, 128)] + ODD_CHARS:
        k = rng.randint(0, 7)
        names_ += [c, 'A' * k + c + 'A' * (7 - k)] if ck.thorough or not c.isalnum() or c in '09' else [c]
    for c in ODD_CHARS:
        names_ += [c * 4, c * 8, 'A' * (8 - len(c.encode())) + c, c + 'A' * 8]
    for n in (0, 1, 2, 20, 40, 41, 42, 43, 44, 45, 60, 84, 85, 200):
        comments += ['c' * n, rand_comment(rng, n)]
    for c in ODD_CHARS:
        w = len(c.encode())
        for total in (40, 41, 42, 43, 44):
            comments.append(c * (total // w) + 'x' * (total % w))
            comments.append('x' * (total - w) + c)
        comments += [c * 14, c * 21, c * 42, c * 43]
    comments += [chr(i) for i in list(range(1, 32)) + [127]] + ['-n', '--', '', ' ', '[color:red]', 'a\nb', 'a\r\nb', '\t' * 42, '\t' * 43]
    def one(i, op, arg):
        if arg in ('-h', '--help'):
            return
        f, model, kw = rand_xp(rng, size=rng.choice([0, 4]))
        files = {'p.8xp': f, 'other.8xp': rand_xp(rng, size=3)[0]}
        way = rng.choice(['place', 'place', 'new', 'over', 'delete', 'no', 'old', 'nofile'])
        path = 'p.8xp'
        if way == 'old':
            m = rng.choice(list(FILE_MODELS))
            path = 'p.83p'
            files = {'p.83p': old_file(rand_body(rng, ORDERS[m], 4), rand_name(rng).encode(), b'c', 5, *FILE_MODELS[m]), 'other.8xp': b'x'}
        more = {'new': ['-f', 'new.8xp'], 'over': ['-f', 'other.8xp'], 'delete': ['-f', 'new.8xp', '-d'], 'nofile': ['-f', 'new.txt']}.get(way, [])
        opt = rng.choice(['-n', '--name'] if op == 'rename' else ['-c', '--comment'])
        cases.append(Case('%s-%d-%s' % (op, i, way), files, [Cmd(op, path, *([opt, arg] + more if rng.random() < 0.6 else more + [opt, arg]),
                                                            stdin=rng.choice([b'n\n', b'']) if way == 'no' else b'y\n', look=look)], note=ascii(arg)))
    for i, n in enumerate(names_):
        one(i, 'rename', n)
    for i, c in enumerate(comments):
        one(i, 'comment', c)
    if ck.thorough:
        for i in range(4000):
            arg = ''.join(rng.choice('ABCxyz019 _-' + ''.join(ODD_CHARS)) for _ in range(rng.randint(0, 12)))
            one(10000 + i, 'rename', arg)
            arg = ''.join(rng.choice('abc ' + ''.join(ODD_CHARS)) for _ in range(rng.randint(10, 45)))
            one(10000 + i, 'comment', arg)
    cases += sessions(ck, n_of(ck, 70, 1500), ['crash', 'exit', 'world', 'asks', 'message'], ('edit', 'edit', 'edit', 'edit', 'convert'))
    ck.conform(cases)
    lib_histories(ck, n_of(ck, 120, 2500), 8, exts=('8xp', '8xp', 'txt', '83p'), valid=0.2)
    return LEVEL, ASSUME, {}


# ------------------------------------------------------------------- C10 ----
def heavy_body(order, n):
    """n bytes of the greatest one-byte token: a sum far beyond 16 bits."""
    top = max(k[0] for k in table(order) if len(k) == 1)
    return bytes([top]) * n


def any_program(rng, ext, model=None, **kw):
    model = model or rng.choice(list(FILE_MODELS))
    pid, sig = FILE_MODELS[model]
    body = kw.pop('body', None)
    if body is None:
        body = rand_body(rng, ORDERS[model], rng.choice([0, 1, 5, 40]))
    odd = rng.random() < 0.25
    name, comment = (rand_name_raw(rng) if odd else rand_name(rng, 1).encode()), (rand_comment_raw(rng) if odd else rand_comment(rng).encode())
    if ext == '8xp':
        return xp_file(body, name, comment, rng.choice(list(FTYPES.values())), rng.choice([0, 0x80]), pid, sig, **kw)
    return old_file(body, name, comment, rng.choice(list(FTYPES.values())), pid, sig, **kw)


def C10(ck):
    rng, cases = ck.rng, []
    right, wrong = ['crash', 'exit', 'sum', 'sound'], ['crash', 'exit', 'sum']
    exts = ['8xp', '83p', '82p']
    for i in range(n_of(ck, 220, 3000)):
        src = rng.choice(exts)
        model = rng.choice(list(FILE_MODELS))
        body = heavy_body(ORDERS[model], rng.choice([255, 256, 257, 300, 520, 1000])) if rng.random() < 0.35 else None
        kw = {}
        if rng.random() < 0.5:
            kw['check'] = rng.randint(0, 65535)
        look = right
        if src == '8xp' and rng.random() < 0.3:
            kw[rng.choice(['length', 'l1', 'l2', 'lb'])] = rng.randint(0, 65535)
            look = wrong
        if src == '8xp' and rng.random() < 0.3:
            kw.update(flag=255, unk=255, version=255)
        f = any_program(rng, src, model, body=body, **kw)
        steps = [Cmd('convert', 'in.' + src, '-o', 'a.' + rng.choice(exts), look=look), Cmd('convert', 'in.' + src, '-o', 'j.json', look=['crash']),
                 Cmd('convert', 'j.json', '-o', 'b.' + rng.choice(exts), look=look),
                 Cmd('convert', 'in.' + src, '-o', 't.txt', look=['crash']), Cmd('convert', 't.txt', '-o', 'c.' + rng.choice(exts), look=['crash', 'sum', 'sound'])]
        cur, cext = 'in.' + src, src
        for k in range(rng.randint(1, 5)):
            op, arg = rand_edit(rng, 1)
            if rng.random() < 0.5:
                steps.append(Cmd(*edit_argv(op, arg, cur), stdin=b'y\n', look=look))
            else:
                cext = rng.choice(exts)
                steps.append(Cmd(*edit_argv(op, arg, cur, '-f', 'e%d.%s' % (k, cext)), look=look))
                cur = 'e%d.%s' % (k, cext)
        cases.append(Case('program-%d-%s-%s' % (i, src, model), {'in.' + src: f}, steps))
    for i, f, model, mode, enc in text_inputs(ck, n_of(ck, 80, 1500), 10):
        steps = [Cmd('convert', 'in.txt', '-o', 'a.' + e, '-e', enc, look=right) for e in exts]
        steps += [Cmd('convert', 'in.txt', '-o', 'j.json', '-e', enc, look=['crash']), Cmd('convert', 'j.json', '-o', 'b.8xp', look=right)]
        cases.append(Case('text-%d-%s' % (i, model), {'in.txt': f}, steps))
    for n in (1, 255, 256, 257, 258, 511, 512, 770, 5000) + ((65516,) if ck.thorough else ()):
        for model in ('TI-84+CE', 'TI-82'):
            f = any_program(rng, '8xp', model, body=heavy_body(ORDERS[model], n))
            cases.append(Case('heavy-%d-%s' % (n, model), {'in.8xp': f}, [Cmd('convert', 'in.8xp', '-o', 'a.' + e, look=right) for e in exts] + [Cmd('lock', 'in.8xp', '-f', 'l.8xp', look=right)]))
    for label, f, model, mode in list(big_texts(ck)):
        cases.append(Case('text-' + label, {'in.txt': f}, [Cmd('convert', 'in.txt', '-o', 'a.' + e, look=right) for e in (exts if ck.thorough or len(f) < 9000 else rng.sample(exts, 1))]))
    for n in (32740, 32767, 32768, 40000):
        cases.append(Case('text-half-%d' % n, {'in.txt': text_file(['A' * 4999] * (n // 5000) + ['A' * (n % 5000)])}, [Cmd('convert', 'in.txt', '-o', 'a.' + rng.choice(exts), look=right)]))
    for i in range(n_of(ck, 40, 500)):       # stated lengths that are wrong: an old file is written with the right ones
        src = rng.choice(exts[1:])
        f = misstate_old(rng, any_program(rng, src))
        steps = [Cmd('convert', 'in.' + src, '-o', 'a%d.%s' % (k, e), look=right) for k, e in enumerate(exts)] + [Cmd(*edit_argv(*rand_edit(rng, 1), 'in.' + src), stdin=b'y\n', look=right)]
        cases.append(Case('misstated-%d-%s' % (i, src), {'in.' + src: f}, steps))
    # mass conversion writes program files too
    for i in range(n_of(ck, 12, 100)):
        files = {'in/%d.txt' % k: text_file(text_lines(rng, 9999999, 'accessible', 4), rand_name(rng, 2)) for k in range(rng.randint(1, 3))}
        files['out'] = Dir()
        cases.append(Case('mass-%d' % i, files, [Cmd('convert', 'in', '-m', '-o', 'out', look=['crash', 'sum', 'sound'])]))
    cases += sessions(ck, n_of(ck, 70, 1500), ['crash', 'exit', 'sum'], ('convert', 'edit', 'edit', 'mass', 'text'))
    cases += format_graph(ck, ['crash', 'exit', 'sum'], 120)
    ck.conform(cases, batch=1500)
    lib_histories(ck, n_of(ck, 100, 1500), 8, exts=('8xp', '83p', '82p', 'txt'))
    return LEVEL, ASSUME, {}


def renamed_json(raw, name):
    d = json.loads(raw)
    d['metadata']['name'] = name
    d['metadata']['bytes'][5:13] = list(name.encode('latin-1')[:8].ljust(8, b'\0'))
    return json.dumps(d).encode()


# ------------------------------------------------------------------- C11 ----
ANSWERS = [b'y\n', b'Y\n', b' y \n', b'\tY\t\r\n', b'y\r\n', b'y', b'  Y', b'yes\n', b'n\n', b'N\n', b'\n', b'', b'yy\n', b'y y\n', b'\xff\n', b'y\xff\n',
           b'\xc2\xa0y\n', b'Yes\ny\n', b'\ny\n', b'n\ny\n', b'\xd1\x83\n', b'\xef\xbd\x99\n', b'1\n', b'true\n', b'ok\n', b'y\x00\n', b'\x0by\x0c\n', b'-y\n', b'[y]\n', b'y.\n']


def precious(rng, ext='bin', name=b''):
    """What an existing file may hold: nothing, little, much, something like what is going to be written."""
    r = rng.random()
    if r < 0.5:
        return bytes(rng.choice([0, 10, 32, 65, 255]) for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 7, 8, 16])))
    if r < 0.7:
        return rng.choice([b'precious' + name, b'\n', b'\0' * 57, b'x' * 4096, b'y\n', b'# not a program\n'])
    return text_file(['A'], 'AB') if ext == 'txt' else b'{}' if ext == 'json' else any_program(rng, ext if ext in ('8xp', '83p', '82p') else '8xp')


def outputs(rng, ext):
    """(label, path, what exists): every kind of thing an output path can lead to"""
    for label, path, extra in outputs_as_such(rng, ext):
        yield label, path, {k: precious(rng, ext) if v == b'precious' else v for k, v in extra.items()}
    for size in rng.sample([0, 1, 2, 3, 4, 5, 8, 16, 57, 64, 74, 76, 77, 255, 256, 512, 4096], 5):
        yield 'size%d' % size, 'out.' + ext, {'out.' + ext: bytes(rng.choice([0, 65]) for _ in range(size))}


def outputs_as_such(rng, ext):
    yield 'file', 'out.' + ext, {'out.' + ext: b'precious'}
    yield 'empty', 'out.' + ext, {'out.' + ext: b''}
    yield 'dir', 'out.' + ext, {'out.' + ext: Dir()}
    yield 'fulldir', 'out.' + ext, {'out.%s/a' % ext: b'a'}
    yield 'link', 'out.' + ext, {'out.' + ext: Link('real.' + ext), 'real.' + ext: b'precious'}
    yield 'odd', 'out.' + ext, {'out.' + ext: Link('real.bin'), 'real.bin': b'precious'}
    yield 'absolute', '{root}/out.' + ext, {'out.' + ext: b'precious'}
    yield 'abslink', 'out.' + ext, {'out.' + ext: Link('{root}/sub/real.' + ext), 'sub/real.' + ext: b'precious'}
    yield 'dangling', 'out.' + ext, {'out.' + ext: Link('nowhere.' + ext)}
    yield 'dirlink', 'out.' + ext, {'out.' + ext: Link('sub'), 'sub/x': b'x'}
    yield 'sub', 'sub/out.' + ext, {'sub/out.' + ext: b'precious'}
    yield 'dots', './sub/../out.' + ext, {'sub/x': b'x', 'out.' + ext: b'precious'}
    yield 'slashes', 'sub//out.' + ext, {'sub/out.' + ext: b'precious'}
    yield 'absent', 'out.' + ext, {'out2.' + ext: b'near', 'OUT.' + ext: b'case'}
    yield 'nodir', 'none/out.' + ext, {'none.txt': b'x'}
    yield 'filedir', 'x/out.' + ext, {'x': b'a file'}
    yield 'temp', 'out.' + ext, {'out.' + ext: b'precious', 'out.%s.tmp' % ext: b'mine', '.out.%s.tmp' % ext: b'mine', 'out.%s~' % ext: b'mine', 'out.tmp': b'mine', '.ti-tools.tmp': b'mine'}
    yield 'hard', 'out.' + ext, {'out.' + ext: Hard('sub/real.bin'), 'sub/real.bin': b'precious'}
    yield 'loop', 'out.' + ext, {'out.' + ext: Link('loop'), 'loop': Link('out.' + ext)}


def C11(ck):
    rng, cases = ck.rng, []
    ck.model('MC_Store')
    ck.must_fail('MC_Store', 'MC_Store_direct.cfg')
    look = ['crash', 'exit', 'paths', 'kept', 'asks']
    answers = itertools.cycle(rng.sample(ANSWERS, len(ANSWERS)))
    exports = [e for e in json_exports(ck, [('8xp', any_program(rng, '8xp')) for _ in range(10)]) if e]
    def inputs():
        model = rng.choice(list(FILE_MODELS))
        src = rng.choice(['8xp', '8xp', '83p', '82p', 'txt'])
        if src == 'txt':
            return src, text_file(text_lines(rng, ORDERS[model], 'accessible', 2), rand_name(rng), model=model)
        return src, any_program(rng, src, model)
    n = n_of(ck, 2, 25)
    for ext in ('8xp', '83p', '82p', 'txt', 'json'):
        for _ in range(n):
            for label, path, extra in outputs(rng, ext):
                src, f = inputs()
                a = next(answers) if rng.random() < 0.8 else b'y\n'
                cases.append(Case('convert-%s-%s-%s' % (ext, label, a.hex()), dict(extra, **{'in.' + src: f}), [Cmd('convert', 'in.' + src, '-o', path, stdin=a, look=look)]))
    for label, path, extra in outputs(rng, '8xp'):
        for op in FIELD_EDITS:
            for delete in (False, True):
                if not ck.thorough and rng.random() < 0.4:
                    continue
                a = next(answers) if rng.random() < 0.8 else b'y\n'
                f = any_program(rng, '8xp')
                more = ['-f', path] + (['-d'] if delete else [])
                cases.append(Case('%s-%s-%s-%s' % (op, label, delete, a.hex()), dict(extra, **{'in.8xp': f}), [Cmd(*edit_argv(op, 'NEW', 'in.8xp', *more), stdin=a, look=look)]))
    for a in ANSWERS:
        for op in rng.sample(FIELD_EDITS, n_of(ck, 2, 6)):
            src = rng.choice(['8xp', '83p', '82p'])
            f = any_program(rng, src)
            files, path = {'in.' + src: f}, 'in.' + src
            if rng.random() < 0.3:
                files['ln.' + src] = Link('in.' + src)
                path = 'ln.' + src
            if rng.random() < 0.3:
                files['other.' + src] = Hard('in.' + src)
            cases.append(Case('place-%s-%s' % (op, a.hex()), files, [Cmd(*edit_argv(op, 'NEW', path), stdin=a, look=look)]))
            cases.append(Case('again-%s-%s' % (op, a.hex()), {'in.' + src: f}, [Cmd(*edit_argv(op, 'NEW', 'in.' + src, '-f', 'b.' + src), stdin=b'', look=look),
                                                                                 Cmd(*edit_argv(op, 'OTHER', 'in.' + src, '-f', 'b.' + src), stdin=a, look=look),
                                                                                 Cmd('convert', 'b.' + src, '-o', 'in.' + src, stdin=a, look=look)]))
        # converting a file into itself
        cases.append(Case('self-%s' % a.hex(), {'in.8xp': any_program(rng, '8xp'), 'l.8xp': Link('in.8xp')},
                          [Cmd('convert', 'in.8xp', '-o', rng.choice(['in.8xp', './in.8xp', '{root}/in.8xp', 'l.8xp']), stdin=a, look=look)]))
    # mass conversion: some outputs exist, one answer per question
    for i in range(n_of(ck, 60, 900)):
        files, count = {'out': Dir()}, rng.randint(1, 3)
        used = rng.sample(['AA', 'BB', 'CC', 'DD'], count)
        for name in used:
            src = rng.choice(['8xp', '83p', 'txt', 'json'])
            model = rng.choice(list(FILE_MODELS))
            pid, sig = FILE_MODELS[model]
            body = rand_body(rng, ORDERS[model], 3)
            files['in/%s.%s' % (name.lower(), src)] = renamed_json(rng.choice(exports), name) if src == 'json' else xp_file(body, name.encode(), pid=pid, sig=sig) if src == '8xp' else old_file(body, name.encode(), pid=pid, sig=sig) if src == '83p' \
                else text_file(text_lines(rng, ORDERS[model], 'accessible', 2), name, model=model)
            for e in ('txt', '8xp'):
                r = rng.random()
                if r < 0.5:
                    files['out/%s.%s' % (name, e)] = precious(rng, e, name.encode())
                elif r < 0.6:
                    files['out/%s.%s' % (name, e)] = Dir()
                elif r < 0.7:
                    files['out/%s.%s' % (name, e)] = Link('../kept.' + e)
                    files['kept.' + e] = b'elsewhere'
        a = b''.join(rng.choice([b'y\n', b'y\n', b'n\n', b'\n', b' Y \n', b'yes\n', b'\xff\n']) for _ in range(rng.randint(0, 7)))
        cases.append(Case('mass-%d-%s' % (i, a.hex()), files, [Cmd('convert', 'in', '-m', '-o', rng.choice(['out', 'out/', './out', '{root}/out']), stdin=a, look=look)]))
    # one source with two outputs, or two sources: every combination of what exists and what is answered
    for a, b in itertools.product([b'y\n', b'n\n', b'maybe\n', b''], repeat=2):
        for exist in ((1, 1), (1, 0), (0, 1)):
            e = rng.choice(exports)
            files = {'in/j.json': renamed_json(e, 'JJ'), 'out': Dir()}
            if rng.random() < 0.3:
                files['in/k.8xp'] = xp_file(b'A', b'KK')
            for yes, ext in zip(exist, ('txt', '8xp')):
                if yes:
                    files['out/JJ.' + ext] = precious(rng, ext, b'JJ')
            cases.append(Case('pair-%s-%s-%s' % (a.hex(), b.hex(), exist), files, [Cmd('convert', 'in', '-m', '-o', 'out', stdin=a + b, look=look)]))
    for a in ANSWERS:
        cases.append(Case('create-%s' % a.hex(), {'in/a.8xp': any_program(rng, '8xp')}, [Cmd('convert', 'in', '-m', '-o', rng.choice(['out', 'no/out', 'out/']), stdin=a + a, look=look)]))
    cases += sessions(ck, n_of(ck, 70, 1500), ['crash', 'exit', 'paths', 'kept', 'asks'], ('convert', 'edit', 'mass'))
    cases += [Case(label, files, [Cmd(*argv, stdin=stdin, look=look)]) for label, files, argv, stdin in long_paths(ck, n_of(ck, 80, 1200))]
    cases += store_graph(ck, ['crash', 'exit', 'paths', 'kept', 'asks'], 200)
    cases += mass_graph(ck, ['crash', 'exit', 'paths', 'kept', 'asks'], 80)
    ck.conform(directory_orders(ck, cases))
    return LEVEL, ASSUME, {}


def permission_cases(ck, count):
    """[(label, files, argv, stdin)]: files that may not be read, directories that may not be changed, searched or listed"""
    rng, out = ck.rng, []
    for i in range(count):
        ext = rng.choice(['8xp', '8xp', '83p', '82p'])
        mode = rng.choice([0o555, 0o555, 0o555, 0o333, 0o444, 0o666, 0o000, 0o111])
        where = rng.choice(['input', 'output', 'both', 'unreadable', 'mass-in', 'mass-out', 'mass-create', 'mass-file', 'linked'])
        f = any_program(rng, ext)
        files = {'i/p.' + ext: f, 'o/x': b'x', 'o/there.' + ext: precious(rng, ext)}
        src, dst = 'i/p.' + ext, rng.choice(['o/new.' + ext, 'o/new.' + ext, 'o/there.' + ext, 'o/new.txt', 'new.' + ext, 'i/new.' + ext, 'o/new.json'])
        if where in ('input', 'both'):
            files['i'] = Mode(mode)
        if where in ('output', 'both'):
            files['o'] = Mode(mode)
        if where == 'unreadable':
            files[src] = Mode(rng.choice([0o000, 0o200, 0o333]), f)
        if where == 'linked':
            files['i'], files['l'] = Mode(mode), Link('i')
            src = 'l/p.' + ext
        stdin = rng.choice([b'y\n', b'y\n', b'y\ny\ny\n', b'n\n', b'', b'n\ny\n'])
        if where.startswith('mass'):
            files = {'i/p.' + ext: xp_file(b'A', name=b'PP') if ext == '8xp' else old_file(b'A', name=b'PP'), 'i/q.txt': text_file(['A'], 'QQ'), 'o': Dir()}
            if where == 'mass-in':
                files['i'] = Mode(mode)
            elif where == 'mass-out':
                files['o'] = Mode(mode)
                if rng.random() < 0.5:
                    files['o/PP.txt'] = precious(rng, 'txt')
            elif where == 'mass-file':
                files['i/q.txt'] = Mode(rng.choice([0o000, 0o200]), files['i/q.txt'])
            o = 'o'
            if where == 'mass-create':
                files['o'], o = Mode(mode), 'o/new'
            argv = ['convert', 'i', '-m'] + (['-o', o] if rng.random() < 0.9 else ['-p'])
        else:
            c = rng.choice(['convert', 'details'] + FIELD_EDITS * 2)
            if c == 'convert':
                argv = [c, src, '-o', dst] + rng.choice([[], ['-p']])
            elif c == 'details':
                argv = [c, src]
            else:
                argv = list(edit_argv(c, 'NEW', src)) + rng.choice([[], ['-f', dst], ['-f', dst, '-d'], ['-d', '-f', dst]])
        out.append(('%s-%03o-%s' % (where, mode, argv[0]), files, argv, stdin))
    return out


# -------------------------------------------------------------- sessions ----
PLACES = ['a.8xp', 'b.8xp', 'c.83p', 'd.82p', 'e.txt', 'f.txt', 'g.json', 'd/a.8xp', 'd/p.txt', 'd/q.json', 'd/r.83p', 'd/s.8xp', 'o/AA.txt', 'o/BB.8xp', 'l.8xp', 'l.txt', 'm.8xp']
_exports = []


def wild_text(rng):
    """A text file, sometimes with something wrong in it."""
    model, mode = rng.choice(MODELS), rng.choice(MODES + ['accessible'])
    lines = dress(rng, text_lines(rng, ORDERS[model], mode, rng.choice([0, 1, 3, 6])))
    if lines and rng.random() < 0.1:
        k = rng.randrange(len(lines))
        lines[k] = foreign(rng, lines[k])
    kw = dict(name=rng.choice(['AA', 'BB', rand_name(rng), rand_name(rng, 1).lower()]), ftype=rng.choice(list(FTYPES)), dest=rng.choice(list(DESTS)), mode=mode, model=model, comment=rng.choice(['', 'c', rand_comment(rng)]))
    if rng.random() < 0.08:
        kw[rng.choice(list(kw))] = rng.choice(['', 'x', ' ', 'A1', 'ABCDEFGHI', 'latest', 'ti', 'RAM', 'Program', '\u03b8'])
    return text_file(lines, eol='\r\n' if rng.random() < 0.1 else '\n', end=rng.random() < 0.8, **kw)


def wild_program(rng, ext):
    """The content of a program file of any type, sometimes damaged."""
    if ext == 'txt':
        return wild_text(rng)
    if ext == 'json':
        return rng.choice(_exports)
    model = rng.choice(list(FILE_MODELS))
    pid, sig = FILE_MODELS[model]
    body = rand_body(rng, ORDERS[model], rng.choice([0, 1, 5, 30])) if rng.random() < 0.9 else wild_body(rng, ORDERS[model])
    if ext == '8xp':
        f = rand_xp(rng, model)[0] if rng.random() < 0.6 else xp_file(body, rng.choice([b'AA', b'BB', b'CC']), rand_comment_raw(rng), rng.choice(list(FTYPES.values())), rng.choice([0, 128]), pid, sig)
        if rng.random() < 0.12:
            f = misstate(rng, f)
    else:
        f = old_file(body, rng.choice([b'AA', b'CC', rand_name_raw(rng)]), rand_comment_raw(rng), rng.choice(list(FTYPES.values())), pid, sig)
        if rng.random() < 0.12:
            f = misstate_old(rng, f)
    if rng.random() < 0.06:
        f = f[:rng.randint(0, len(f))]
    return f


def sessions(ck, count, look, kinds=('convert', 'edit', 'mass', 'details'), length=6, contained=False, odd=True):
    """Histories of arbitrary commands on a handful of files and names, so that what one writes the next one meets."""
    rng, cases = ck.rng, []
    if not _exports:
        _exports.extend(r for r in json_exports(ck, [(e, any_program(rng, e)) for e in ['8xp', '83p', '82p', '8xp'] * 8]) if r)
    for i in range(count):
        files = {}
        for p in rng.sample(PLACES, rng.randint(4, 9)):
            files[p] = precious(rng, p.rsplit('.', 1)[1]) if p.startswith('o/') else wild_program(rng, p.rsplit('.', 1)[1])
        if rng.random() < 0.2:
            files['h.8xp'] = Hard(rng.choice([p for p in files if not isinstance(files[p], Link)]))
        for p in rng.sample(['l.8xp', 'l.txt', 'm.8xp', 'd/s.8xp'], rng.randint(0, 2)):
            files[p] = Link(rng.choice(['a.8xp', 'b.8xp', 'e.txt', 'd/a.8xp', 'gone.' + p.rsplit('.', 1)[1], '{root}/a.8xp', 'd'])) if not p.startswith('d/') else Link(rng.choice(['../a.8xp', '../b.8xp', 'a.8xp']))
        for d in ('d', 'o'):
            files.setdefault(d, Dir())
        if odd and rng.random() < 0.06:
            files[rng.choice(['x.8xp', 'x.txt'])] = Dir()
        if odd and rng.random() < 0.06:
            files[rng.choice(['d', 'o'])] = Mode(rng.choice([0o555, 0o333, 0o111]))
        here = [p for p in files if '.' in p and not p.startswith('o/')]
        steps = []
        def old_or_new(exts):
            r = rng.random()
            e = rng.choice(exts)
            if r < 0.45:
                return 'n%d.%s' % (rng.randint(0, 3), e)
            if r < 0.8:
                c = [p for p in here if p.endswith(tuple('.' + x for x in exts))]
                return rng.choice(c) if c else 'n.' + e
            if r < 0.9 or not odd:
                return rng.choice(['d/', 'o/', './', '{root}/', 'd/../']) + 'n%d.%s' % (rng.randint(0, 1), e)
            return rng.choice(['none/n.8xp', 'x.8xp', 'n', 'n.bin', 'a.8xp/n.txt', 'd', '', 'n.8XP', '.8xp'])
        def flags():
            f = []
            if rng.random() < 0.4:
                f += [rng.choice(['-d', '--display-mode']), rng.choice(MODES) if rng.random() < 0.96 else rng.choice(['x', 'Pretty', ''])]
            if rng.random() < 0.4:
                f += [rng.choice(['-e', '--encode-mode']), rng.choice(ENCS) if rng.random() < 0.96 else rng.choice(['x', 'Max', ''])]
            f += rng.sample(['-p', '-c', '--preview', '--content'], 1) if rng.random() < 0.15 else []
            return f
        for k in range(rng.randint(2, length)):
            kind = rng.choice(kinds)
            src = rng.choice(here) if rng.random() < 0.95 else rng.choice(['gone.8xp', 'd', 'n0.8xp', 'n1.txt'])
            stdin = rng.choice([b'y\n', b'y\n', b'Y\n', b'n\n', b'', rng.choice(ANSWERS)])
            if kind == 'convert':
                argv = ['convert', src] + rng.choice([['-o', old_or_new(['8xp', 'txt', 'json', '83p', '82p'])]] * 6 + [['-p'], ['-c'], []]) + flags()
            elif kind == 'text':
                c = [p for p in here if p.endswith('.txt')] or ['gone.txt']
                argv = ['convert', rng.choice(c), '-o', old_or_new(['8xp', '8xp', '83p', '82p', 'json'])] + flags()
            elif kind == 'edit':
                c = [p for p in here if p.endswith('p')] or here
                op, arg = rand_edit(rng, 0.9)
                argv = list(edit_argv(op, arg, rng.choice(c) if rng.random() < 0.93 else src))
                r = rng.random()
                if r < 0.55:
                    argv += rng.sample(['-f', '--new-file'], 1) + [old_or_new(['8xp', '8xp', '83p', '82p', 'txt', 'json'])]
                    if rng.random() < 0.4:
                        argv += ['-d'] if rng.random() < 0.7 else ['--delete-old']
                elif r < 0.6:
                    argv += ['-d']
            elif kind == 'details':
                argv = ['details', src]
            else:
                argv = ['convert', rng.choice(['d', 'd', 'd/', './d'] + (['.', 'o', 'a.8xp', 'gone'] if odd else [])), '-m'] + rng.choice([['-o', 'o']] * 5 + [['-o', 'new'], ['-o', 'd'], ['-p'], ['-c'], ['-o', 'a.8xp'], ['-o', 'none/o']]) + flags()
                stdin = b''.join(rng.choice([b'y\n', b'y\n', b'n\n', b'\n']) for _ in range(rng.randint(0, 8)))
            mass = kind == 'mass'
            steps.append(Cmd(*argv, stdin=stdin, look=list(look) + (['contained'] if contained and mass else [])))
            for a in argv[2:]:       # what was written comes up again
                if '.' in a and a.rsplit('.', 1)[-1] in ('8xp', '83p', '82p', 'txt', 'json') and '/n' not in a and len(here) < 14:
                    here.append(a)
        cases.append(Case('session-%d' % i, files, steps))
    return cases


# ------------------------------------------------------------- scenarios ----
def edit_graph(ck, look, limit=None):
    """All histories of edits in place of one program: the whole state graph, whose every step is replayed."""
    rng, cases = ck.rng, []
    for ext in n_of(ck, [rng.choice(['8xp', '8xp', '83p', '82p'])], ['8xp', '83p', '82p']):
        commands = [(list(edit_argv(op, arg, 'p.' + ext)), b'y\n') for op, arg in
                    [('rename', rand_name(rng)), ('rename', 'ABCDEFGH'), ('rename', 'x'), ('comment', ''), ('comment', rand_comment_raw(rng).decode('utf-8', 'ignore').replace('\0', '')[:20]), ('comment', 'c' * 42)]
                    + [(op, '') for op in ('lock', 'unlock', 'archive', 'unarchive')]]
        cases += ck.explore('edits-' + ext, {'p.' + ext: any_program(rng, ext)}, commands, 12, look, n_of(ck, limit, None))
    return cases


def store_graph(ck, look, limit):
    """Edits between files some of which exist, with and without deleting, with yes and no."""
    rng, cases = ck.rng, []
    for k in range(n_of(ck, 1, 3)):
        files = {'a.8xp': any_program(rng, '8xp'), 'b.8xp': any_program(rng, '8xp'), 'l.8xp': Link('a.8xp'), 'n.83p': any_program(rng, '83p'), 'd/l.8xp': Link('../b.8xp')}
        commands = []
        for src, dst in itertools.product(['a.8xp', 'b.8xp', 'l.8xp', 'n.83p', 'c.8xp', 'd/l.8xp'], [None, 'a.8xp', './b.8xp', 'c.8xp', 'l.8xp', 'm.83p', 'd/c.8xp', 'd/l.8xp', 'd', 'none/c.8xp', '{root}/c.8xp', 't.txt']):
            for op, arg in rng.sample([('rename', 'NEW'), ('comment', 'other'), ('lock', ''), ('archive', ''), ('unlock', ''), ('rename', 'B1')], 2):
                more = [] if dst is None else ['-f', dst] + rng.choice([[], ['-d'], ['-d']])
                commands.append((list(edit_argv(op, arg, src, *more)), rng.choice([b'y\n', b'y\n', b'n\n', b''])))
        cases += ck.explore('store%d' % k, files, rng.sample(commands, n_of(ck, 26, 40)), n_of(ck, 2, 3), look, n_of(ck, limit, 5000))
    return cases


def format_graph(ck, look, limit):
    """Conversions among the five kinds of files in every order, with some edits between them."""
    rng, cases = ck.rng, []
    for k in range(n_of(ck, 1, 3)):
        model = rng.choice(list(FILE_MODELS))
        ext = rng.choice(['8xp', '8xp', '83p', '82p'])
        files = {'p.' + ext: any_program(rng, ext, model), 'p.txt': text_file(text_lines(rng, ORDERS[model], 'accessible', 2), rand_name(rng), model=model)}
        exts = ['8xp', '83p', '82p', 'txt', 'json']
        commands = []
        for a, b in itertools.product(exts, exts):
            commands.append((['convert', 'p.' + a, '-o', 'p.' + b] + rng.choice([[], [], ['-e', rng.choice(ENCS)], ['-d', rng.choice(['accessible', 'accessible', 'pretty', 'ti'])]]), b'y\n'))
        for op, arg in (('rename', 'NEW'), ('comment', 'other'), ('lock', ''), ('archive', '')):
            commands.append((list(edit_argv(op, arg, 'p.' + rng.choice(exts[:3]))), b'y\n'))
        cases += ck.explore('formats%d' % k, files, commands, n_of(ck, 2, 3), look, n_of(ck, limit, 5000))
    return cases


def mass_graph(ck, look, limit):
    """Mass conversions back and forth between directories, with edits and conversions in them."""
    rng, cases = ck.rng, []
    for k in range(n_of(ck, 1, 3)):
        text = lambda n: text_file(['Disp "HI' + n, 'X'], n)
        files = {'i/a.8xp': xp_file(b'AB', b'ONE'), 'i/b.txt': text(rng.choice(['TWO', 'ONE'])), 'i/c.83p': old_file(b'\xde*A', rng.choice([b'CC', b'../X', b'C.D'])), 'o': Dir(), 'o/ONE.txt': b'precious'}
        y, n = b'y\n' * 8, b'n\ny\n' * 4
        commands = [(['convert', 'i', '-m', '-o', 'o'], y), (['convert', 'i', '-m', '-o', 'o'], n), (['convert', 'i', '-m', '-o', 'o'], b''), (['convert', 'o', '-m', '-o', 'new'], y), (['convert', 'o', '-m', '-o', 'new'], b'n\n'),
                    (['convert', 'new', '-m', '-o', 'o', '-e', 'max'], y), (['convert', 'i', '-m', '-o', 'new', '-d', rng.choice(MODES)], y), (['convert', 'new', '-m', '-p'], b''),
                    (['rename', 'i/a.8xp', '-n', 'TWO'], b'y\n'), (['rename', 'i/a.8xp', '-n', 'CC', '-f', 'i/d.8xp', '-d'], b'y\n'), (['convert', 'i/a.8xp', '-o', 'i/e.json'], b'y\n'), (['lock', 'i/c.83p'], b'y\n'),
                    (['convert', 'i/b.txt', '-o', 'i/b.83p'], b'y\n'), (['convert', 'i/c.83p', '-o', 'o/ONE.txt'], b'n\n')]
        cases += ck.explore('mass%d' % k, files, rng.sample(commands, n_of(ck, 11, len(commands))), n_of(ck, 2, 3), look, n_of(ck, limit, 3000))
    for c in cases:
        if '-m' not in c.steps[-1].argv and 'contained' in look:
            c.steps[-1].look = [a for a in look if a != 'contained']
    return cases


# ------------------------------------------------------------------- C12 ----
EIO, ENOSPC, EINTR, EACCES, EXDEV, EDQUOT = 5, 28, 4, 13, 18, 122


def fault_scenarios(ck):
    """[(label, files, argv, stdin)]: every kind of command that changes files, on every kind of output"""
    rng = ck.rng
    body = rand_body(rng, 40, 30)
    p = xp_file(body, b'PROG', b'old comment', pid=10)
    q = old_file(rand_body(rng, 20, 20), b'OLDER')
    big = xp_file(b'\x41' * 1500, b'BIG', pid=10)
    t = text_file(text_lines(rng, 40, 'accessible', 6), 'TEXT', model='TI-84+')
    out = []
    add = lambda label, files, argv, stdin=b'': out.append((label, files, argv, stdin))
    for ext in ('8xp', '83p', '82p', 'txt', 'json'):
        add('new-' + ext, {'in.8xp': p}, ['convert', 'in.8xp', '-o', 'out.' + ext])
        add('over-' + ext, {'in.8xp': p, 'out.' + ext: b'precious' * 40}, ['convert', 'in.8xp', '-o', 'out.' + ext], b'y\n')
    add('over-text', {'in.txt': t, 'out.8xp': b'precious'}, ['convert', 'in.txt', '-o', 'out.8xp'], b'y\n')
    add('self', {'in.8xp': p[:-1] + b'\x00'}, ['convert', 'in.8xp', '-o', 'in.8xp'], b'y\n')
    add('big', {'in.8xp': big, 'out.json': b'precious'}, ['convert', 'in.8xp', '-o', 'out.json'], b'y\n')
    add('link', {'in.8xp': p, 'out.8xp': Link('sub/real.8xp'), 'sub/real.8xp': b'precious'}, ['convert', 'in.8xp', '-o', 'out.8xp'], b'y\n')
    add('hard', {'in.8xp': p, 'out.8xp': Hard('sub/real.8xp'), 'sub/real.8xp': b'precious'}, ['convert', 'in.8xp', '-o', 'out.8xp'], b'y\n')
    add('declined', {'in.8xp': p, 'out.8xp': b'precious'}, ['convert', 'in.8xp', '-o', 'out.8xp'], b'n\n')
    for op in FIELD_EDITS:
        add('place-' + op, {'in.8xp': p}, edit_argv(op, 'NEWNAME', 'in.8xp'), b'y\n')
        add('move-' + op, {'in.8xp': p}, edit_argv(op, 'NEWNAME', 'in.8xp', '-f', 'out.8xp', '-d'))
        if ck.thorough or op in ('rename', 'lock'):
            add('copy-' + op, {'in.83p': q}, edit_argv(op, 'NEWNAME', 'in.83p', '-f', 'out.83p'))
            add('moveover-' + op, {'in.8xp': p, 'out.txt': b'precious'}, edit_argv(op, 'NEWNAME', 'in.8xp', '-f', 'out.txt', '-d'), b'y\n')
            add('moveself-' + op, {'in.8xp': p, 'l.8xp': Link('in.8xp')}, edit_argv(op, 'NEWNAME', 'in.8xp', '-f', 'l.8xp', '-d'), b'y\n')
            add('placelink-' + op, {'in.8xp': p, 'l.8xp': Link('in.8xp')}, edit_argv(op, 'NEWNAME', 'l.8xp'), b'y\n')
            add('movelink-' + op, {'in.8xp': p, 'l.8xp': Link('in.8xp')}, edit_argv(op, 'NEWNAME', 'l.8xp', '-f', 'out.8xp', '-d'), b'y\n')
            add('place82-' + op, {'in.82p': q}, edit_argv(op, 'NEWNAME', 'in.82p'), b'y\n')
    mass = {'in/a.8xp': p, 'in/b.txt': t, 'in/c.83p': q}
    add('mass', dict(mass, out=Dir()), ['convert', 'in', '-m', '-o', 'out'], b'')
    add('masscreate', {'in/a.8xp': p, 'in/b.txt': t}, ['convert', 'in', '-m', '-o', 'out'], b'y\n')
    add('massover', {'in/a.8xp': p, 'in/b.txt': t, 'out/PROG.txt': b'precious', 'out/TEXT.8xp': b'dear'}, ['convert', 'in', '-m', '-o', 'out'], b'y\ny\ny\ny\n')
    add('massskip', {'in/a.8xp': p, 'in/b.txt': t, 'out': Dir()}, ['convert', 'in', '-m', '-o', 'out'], b'y\ny\ny\n')
    add('details', {'in.8xp': p}, ['details', 'in.8xp'])
    add('preview', {'in.8xp': p}, ['convert', 'in.8xp', '-p', '-c'])
    return out


def second_faults(ck, cases):
    """After an operation has failed, the tool cleans up or tries something else: it dies there, or that fails as well."""
    rng = ck.rng
    failing = [c for c in cases if c.steps[0].env.get('TT_FAULT', '').startswith(('fail', 'full', 'half'))]
    logged = [Case(c.label, c.files, [Cmd(*c.steps[0].argv, stdin=c.steps[0].stdin, env=c.steps[0].env)], fault=c.fault) for c in failing]
    found = {}
    for c, letters in zip(failing, ck.file_operations(logged)):
        first = c.steps[0].env['TT_FAULT']
        n = int(first.split(':')[1])
        for m, letter in enumerate(letters[n:], n + 1):
            kinds = [('before', 'kill', 0)]
            if letter in 'wcnumltsh':
                kinds += [('after', 'kill', 0)]
                if letter == 'w':
                    kinds.append(('mid', 'kill', 0))
                if '-m' not in c.steps[0].argv:
                    kinds.append(('fail', 'error', EACCES if letter == 'c' else EIO))
            for kind, fault, err in kinds:
                step = c.steps[0]
                env = dict(step.env, TT_FAULT='%s,%s:%d:%d' % (first, kind, m, err))
                env.pop('TT_LOG', None)
                sort = (step.argv[0], letters[n - 1], ''.join(l for l in letters[n:m] if l in 'wcnumltsh')[-5:], kind)
                found.setdefault(sort, []).append(Case('%s+%d%s-%s-%d' % (c.label, m, letter, kind, err), c.files, [Cmd(*step.argv, stdin=step.stdin, look=['world'], env=env)], fault=fault))
    # each sort of course in turn, until there are enough
    out, count = [], n_of(ck, 400, 6000)
    for l in found.values():
        rng.shuffle(l)
    while len(out) < count and any(found.values()):
        for l in found.values():
            if l:
                out.append(l.pop())
    ck.details['courses_after_a_failure'] = len(found)
    return out


def C12(ck):
    rng = ck.rng
    ck.model('MC_Store')
    ck.must_fail('MC_Store', 'MC_Store_direct.cfg')
    ck.must_fail('MC_Store', 'MC_Store_fallback.cfg')
    scenarios = fault_scenarios(ck)
    shim = ck.shim()
    ops = ck.file_operations([Case(l, f, [Cmd(*a, stdin=s)]) for l, f, a, s in scenarios])
    cases, total = [], 0
    def one(label, files, argv, stdin, fault, env):
        cases.append(Case(label, files, [Cmd(*argv, stdin=stdin, look=['world'], env=env)], fault=fault))
    for (label, files, argv, stdin), letters in zip(scenarios, ops):
        one(label, files, argv, stdin, 'none', {})
        total += len(letters)
        for n, letter in enumerate(letters, 1):
            kinds = [('before', 'kill', 0)]
            if letter in 'wcnumlt':
                kinds.append(('after', 'kill', 0))
            if letter == 'w':
                kinds += [('mid', 'kill', 0), ('short', 'none', 0), ('half', 'full', ENOSPC), ('full', 'full', ENOSPC), ('fail', 'error', EIO), ('fail', 'none', EINTR)]
            elif letter == 'c':
                kinds += [('full', 'full', ENOSPC), ('fail', 'error', EACCES)]
            elif letter == 'r':
                kinds += [('fail', 'error', EIO), ('fail', 'none', EINTR)]
            elif letter == 'n':
                kinds += [('fail', 'error', e) for e in (EIO, EXDEV, EACCES)]
            elif letter == 'x':
                kinds += [('fail', 'error', e) for e in ([EIO, EDQUOT] if ck.thorough else [EIO])]
            else:
                kinds += [('fail', 'error', e) for e in ((EIO, EACCES, ENOSPC) if ck.thorough else (EACCES,))]
            for kind, fault, err in kinds:
                # a fault that must not matter is still judged like an error: the tool may report it
                env = {'LD_PRELOAD': shim, 'TT_ROOT': '{root}', 'TT_FAULT': '%s:%d:%d' % (kind, n, err)}
                one('%s@%d%s-%s-%d' % (label, n, letter, kind, err), files, argv, stdin, 'error' if fault == 'none' else fault, env)
    ck.conform(cases, module='Trace_Store')
    ck.conform(second_faults(ck, cases), module='Trace_Store')
    # nobody reads what the tool says any more: it may stop there, but between two parts
    deaf = [Case('%s-deaf%d' % (label, n), files, [Cmd(*argv, stdin=stdin, look=['world'], env={'LD_PRELOAD': shim, 'TT_TELL': str(n)})], fault='kill')
            for label, files, argv, stdin in scenarios for n in sorted(rng.sample(range(1, 25), n_of(ck, 4, 24)) if '-m' in argv else range(1, 5))]
    ck.conform(deaf, module='Trace_Store')
    # what a killed command leaves does not hinder the same command, even if it gets the same process id
    again = []
    for c in cases:
        if c.fault == 'kill' and c.label.split('@')[1].lstrip('0123456789')[0] in 'wcnumlt':
            killed = c.steps[0]
            same = dict(killed.env, TT_PID='7')
            again.append(Case('again-' + c.label, c.files, [Cmd(*killed.argv, stdin=killed.stdin, look=['world'], env=same),
                                                            Cmd(*killed.argv, stdin=b'y\n' * 9, look=['world', 'exit', 'asks'], env=dict(same, TT_FAULT=''))], turns=[1, 2]))
    ck.conform(again if ck.thorough or len(again) < 150 else rng.sample(again, 150), module='Trace_Pair')
    # requests that fail by themselves: every file stays as it is
    plain, look = [], ['crash', 'exit', 'world']
    p = any_program(rng, '8xp')
    for label, files, argv, stdin in scenarios:
        src = argv[1]
        if src in files and not isinstance(files[src], Link):
            bad = dict(files, **{src: files[src][:rng.randint(0, 60)]})
            plain.append(Case('cut-' + label, bad, [Cmd(*argv, stdin=b'y\ny\n', look=look)]))
            plain.append(Case('missing-' + label, {k: v for k, v in files.items() if k != src}, [Cmd(*argv, stdin=b'y\ny\n', look=look)]))
        if '-o' in argv or '-f' in argv:
            k = argv.index('-o' if '-o' in argv else '-f') + 1
            if '-m' not in argv:
                for bad in ('out', 'out.bin', 'none/out.8xp', 'd.8xp', 'out.8XP', ''):
                    a = list(argv)
                    a[k] = bad
                    plain.append(Case('output-%s-%s' % (bad.replace('/', '_'), label), dict(files, **{'d.8xp': Dir(), 'out.bin': b'x', 'out': b'y'}), [Cmd(*a, stdin=b'y\ny\n', look=look)]))
            if argv[0] == 'convert':
                for extra in (['-d', 'nope'], ['-e', 'nope'], ['-d', ''], ['-e']):
                    plain.append(Case('option-%s-%s' % ('_'.join(extra), label), files, [Cmd(*(list(argv) + extra), stdin=b'y\ny\n', look=['crash', 'untouched'] if '-m' in argv else look)]))
    for i, (label, files, argv, stdin) in enumerate(permission_cases(ck, n_of(ck, 120, 2000))):
        plain.append(Case('denied-%d-%s' % (i, label), files, [Cmd(*argv, stdin=stdin, look=look)]))
    for label, files, argv, stdin in long_paths(ck, n_of(ck, 80, 1200)):
        plain.append(Case(label, files, [Cmd(*argv, stdin=stdin, look=look)]))
    plain += sessions(ck, n_of(ck, 80, 1500), ['crash', 'exit', 'world'], ('convert', 'edit', 'edit', 'mass'))
    ck.conform(plain)
    return 'fault_enumeration', ASSUME + ['a fault is injected by an LD_PRELOAD library at the C library calls the tool makes on files below the scratch directory; the state of a file after a power loss (no fsync) is outside the model'], \
        {'fault_points': total, 'injected_faults': len(cases) - len(scenarios)}


# ------------------------------------------------------------------- C13 ----
def C13(ck):
    rng, cases = ck.rng, []
    ck.model('MC_Store')
    look = ['crash', 'exit', 'paths', 'kept', 'asks', 'body']
    # (input path, files besides it, new path): every way the two can be related
    ways = [('same', 'p.8xp', {}, 'p.8xp'), ('dot', 'p.8xp', {}, './p.8xp'), ('absolute', 'p.8xp', {}, '{root}/p.8xp'), ('absin', '{root}/p.8xp', {}, 'p.8xp'),
            ('up', 'p.8xp', {'d/x': b'x'}, 'd/../p.8xp'), ('slashes', './/p.8xp', {}, '{root}//p.8xp'), ('link', 'p.8xp', {'l.8xp': Link('p.8xp')}, 'l.8xp'),
            ('linkin', 'l.8xp', {'l.8xp': Link('p.8xp')}, 'p.8xp'), ('linkboth', 'l.8xp', {'l.8xp': Link('p.8xp')}, 'l.8xp'),
            ('twolinks', 'l.8xp', {'l.8xp': Link('p.8xp'), 'm.8xp': Link('p.8xp')}, 'm.8xp'), ('chain', 'p.8xp', {'l.8xp': Link('m.8xp'), 'm.8xp': Link('p.8xp')}, 'l.8xp'),
            ('abslink', 'p.8xp', {'l.8xp': Link('{root}/p.8xp')}, 'l.8xp'), ('dirlink', 'd/p.8xp', {'d/p.8xp': None, 'e': Link('d')}, 'e/p.8xp'),
            ('dirlinkin', 'e/p.8xp', {'d/p.8xp': None, 'e': Link('d')}, 'd/p.8xp'), ('dirlinkboth', 'e/p.8xp', {'d/p.8xp': None, 'e': Link('d')}, 'e/../e/p.8xp'),
            ('new', 'p.8xp', {}, 'n.8xp'), ('newsub', 'p.8xp', {'d': Dir()}, 'd/p.8xp'), ('newlinkdir', 'p.8xp', {'d': Dir(), 'e': Link('d')}, 'e/p.8xp'),
            ('exists', 'p.8xp', {'n.8xp': b'precious'}, 'n.8xp'), ('newfromlink', 'l.8xp', {'l.8xp': Link('p.8xp')}, 'n.8xp'), ('dangling', 'p.8xp', {'n.8xp': Link('none.8xp')}, 'n.8xp'),
            ('dir', 'p.8xp', {'n.8xp': Dir()}, 'n.8xp'), ('nodir', 'p.8xp', {}, 'none/n.8xp'), ('badext', 'p.8xp', {}, 'n.bin'), ('noext', 'p.8xp', {}, 'n'), ('case', 'p.8xp', {}, 'P.8xp'),
            ('txt', 'p.8xp', {}, 'p.txt'), ('json', 'p.8xp', {}, 'p.json'), ('83p', 'p.8xp', {}, 'p.83p'), ('existstxt', 'p.8xp', {'p.txt': b'precious'}, 'p.txt'),
            ('hidden', 'p.8xp', {}, '.p.8xp'), ('space', 'p.8xp', {}, 'p .8xp'), ('updir', 'd/p.8xp', {'d/p.8xp': None}, 'd/../p.8xp'), ('deep', 'd/p.8xp', {'d/p.8xp': None}, 'p.8xp')]
    for label, path, extra, new in ways:
        for op in FIELD_EDITS:
            for a in [b'y\n', b'n\n'] + ([b'', b'Y\n', b'yes\n'] if ck.thorough else [rng.choice([b'', b'Y\n', b'yes\n', b' y\n'])]):
                f = any_program(rng, '8xp')
                files = {k: (f if v is None else v) for k, v in extra.items()}
                if not any(v is None for v in extra.values()):
                    files['p.8xp'] = f
                opts = [['-f', new], [rng.choice(['-d', '--delete-old'])]]
                rng.shuffle(opts)
                cases.append(Case('%s-%s-%s' % (label, op, a.hex()), files, [Cmd(*edit_argv(op, 'NEW', path, *sum(opts, [])), stdin=a, look=look)]))
    for op in FIELD_EDITS:
        f = any_program(rng, '8xp')
        for a in (b'y\n', b'n\n', b''):
            cases.append(Case('refused-%s-%s' % (op, a.hex()), {'p.8xp': f}, [Cmd(*edit_argv(op, 'NEW', 'p.8xp', '-d'), stdin=a, look=look)]))
            cases.append(Case('hard-%s-%s' % (op, a.hex()), {'p.8xp': f, 'n.8xp': Hard('p.8xp')}, [Cmd(*edit_argv(op, 'NEW', 'p.8xp', '-f', 'n.8xp'), stdin=a, look=look)]))
            cases.append(Case('hardplace-%s-%s' % (op, a.hex()), {'p.8xp': f, 'n.8xp': Hard('p.8xp')}, [Cmd(*edit_argv(op, 'NEW', 'p.8xp'), stdin=a, look=look)]))
            cases.append(Case('kept-%s-%s' % (op, a.hex()), {'p.8xp': f, 'n.8xp': b'x'}, [Cmd(*edit_argv(op, 'NEW', 'p.8xp', '-f', 'n.8xp'), stdin=a, look=look)]))
            for odd in (['-f', '-d'], ['-f', 'n.8xp', '-f', 'm.8xp', '-d'], ['-f', '--delete-old', '-d'], ['--new-file', 'n.8xp', '--delete-old'], ['-d', '-f'], ['-d', '-d', '-f', 'n.8xp']):
                cases.append(Case('odd-%s-%s-%s' % (op, '_'.join(odd), a.hex()), {'p.8xp': f}, [Cmd(*edit_argv(op, 'NEW', 'p.8xp', *odd), stdin=a, look=look)]))
        if op in ('rename', 'comment'):
            cases.append(Case('invalid-' + op, {'p.8xp': f}, [Cmd(*edit_argv(op, 'x' * 50, 'p.8xp', '-f', 'n.8xp', '-d'), look=look)]))
            cases.append(Case('value-' + op, {'p.8xp': f}, [Cmd(*edit_argv(op, '-d', 'p.8xp', '-f', 'n.8xp'), look=look)]))
            cases.append(Case('value2-' + op, {'p.8xp': f}, [Cmd(*edit_argv(op, '--delete-old', 'p.8xp', '-f', 'n.8xp'), look=look)]))
        # a chain of moves
        steps, cur = [], 'p.8xp'
        for k in range(4):
            steps.append(Cmd(*edit_argv(rng.choice(FIELD_EDITS), 'NAME', cur, '-d', '-f', 'm%d.8xp' % k), look=look))
            cur = 'm%d.8xp' % k
        cases.append(Case('chain-' + op, {'p.8xp': f}, steps))
    for i, (label, files, argv, stdin) in enumerate(permission_cases(ck, n_of(ck, 150, 2000))):
        if argv[0] in FIELD_EDITS:
            cases.append(Case('denied-%d-%s' % (i, label), files, [Cmd(*argv, stdin=stdin, look=look)]))
    cases += sessions(ck, n_of(ck, 70, 1500), ['crash', 'exit', 'paths', 'kept', 'asks', 'body'], ('edit', 'edit', 'edit', 'edit', 'convert'))
    cases += store_graph(ck, ['crash', 'exit', 'paths', 'kept', 'asks', 'body'], 250)
    ck.conform(cases)
    return LEVEL, ASSUME, {}


# ------------------------------------------------------------- C14, C15 ----
HOSTILE = [b'../X', b'..', b'.', b'', b'/X', b'//', b'a/b', b'a/../b', b'../../X', b'./X', b'X/', b'X/.', b'X/..', b'\\X', b'..\\X', b'~/x', b'C:X', b'.txt', b'.8xp', b'a.8xp', b'a.b.c',
           b'...', b'a..', b'-o', b'--', b'*', b'$HOME', b'`id`', b'a b', b' ', b'a\nb', b'\x01', b'\xff\xfe', b'\xc3\xa9', b'[color:', b'../in', b'../p', b'/tmp/x', b'../out2', b'sub/x', b'sub', b'../in/a']


def json_exports(ck, programs):
    """The JSON exports the tool makes of program files: [(extension, bytes)] -> [bytes].  A tool that makes none is given one."""
    out = ck.run_cases([Case('export', {'in.' + e: f}, [Cmd('convert', 'in.' + e, '-o', 'out.json')]) for e, f in programs])
    with open(os.path.join(os.path.dirname(__file__), 'export.json'), 'rb') as f:
        spare = f.read()
    def made(steps):
        raw = next((x for p, k, x, _ in steps[-1]['after'] if p == b'out.json'), None) if steps else None
        try:
            return raw if raw and isinstance(json.loads(raw)['metadata']['bytes'], list) else spare
        except (ValueError, KeyError, TypeError):
            return spare
    return [made(steps) for steps in out]


def directory_orders(ck, cases, share=0.6):
    """Lets mass conversions read their directory in other orders, or see what they have just saved."""
    rng, shim = ck.rng, ck.shim()
    for c in cases:
        for s in c.steps:
            if s.argv and s.argv[0] == 'convert' and ('-m' in s.argv or '--mass' in s.argv) and not s.env and rng.random() < share:
                s.env = {'LD_PRELOAD': shim, 'TT_READ': rng.choice(['late', 'late', 'reverse', 'shuffle:%d' % rng.randint(1, 99)])}
    return cases


def C14(ck):
    rng, cases = ck.rng, []
    ck.model('MC_Mass', workers=1)
    look = ['crash', 'contained']
    base = json_exports(ck, [('8xp', any_program(rng, '8xp')) for _ in range(8)])
    def hostile_json(name):
        raw = next(b for b in rng.sample(base, len(base)) if b)
        d = json.loads(raw)
        d['metadata']['name'] = name
        return json.dumps(d).encode()
    guards = {'X.txt': b'1', 'X.8xp': b'2', 'out2/X.txt': b'3', 'in2/a.8xp': b'4', 'p.txt': b'5', '.txt': b'6', 'b.txt': b'7', 'out/sub/x.txt': b'8'}
    def mass(label, files, stdin=b'', more=(), out=None, inp='in'):
        out = out or rng.choice(['out', './out', 'out/', '{root}/out', 'in2/../out'])
        kept = {k: v for k, v in guards.items() if not (k.startswith('out/') and 'out' in files and not isinstance(files['out'], Dir))}
        cases.append(Case(label, dict(kept, **files), [Cmd('convert', inp, '-m', '-o', out, *more, stdin=stdin, look=look)]))
    for i, name in enumerate(HOSTILE):
        for src in ('8xp', '83p', '82p', 'json'):
            for a in [b'', b'y\ny\ny\ny\n'] if ck.thorough or src in ('8xp', 'json') else [b'y\ny\ny\n']:
                if src == 'json':
                    f = hostile_json(name.decode('latin-1'))
                elif src == '8xp':
                    f = xp_file(b'\x41', name=name)
                else:
                    f = old_file(b'\x41', name=name)
                files = {'in/a.' + src: f, 'out': Dir()}
                if rng.random() < 0.5:
                    files['in/b.txt'] = text_file(['A'], 'BB')
                mass('name-%d-%s-%s' % (i, src, 'yes' if a else 'no'), files, a)
    for name in ('{root}/X', '{root}/in/a', '{root}/out/../X', '../' * 6 + '{root}/X', '{root}/out/x', 'x' * 300, 'a' * 100, '\u03b8', '../\u03b8', 'a/' * 50 + 'x', '../in/a', '../in2/a', 'X\0Y', '../X\0', '\u2215x', '..\u2215X', 'sub/../../X', 'sub/x', 'out', '../out', 'out/../../X'):
        for a in (b'', b'y\n' * 6):
            mass('json-%s-%s' % (ascii(name)[:30], 'yes' if a else 'no'), {'in/a.json': hostile_json(name), 'in/k.8xp': any_program(rng, '8xp'), 'out': Dir()}, a)
    # names of the files themselves
    for n in (b'a.b.8xp', b'.8xp', b'..8xp', b'...8xp', b' .8xp', b'-o.8xp', b'--.8xp', b'a\nb.8xp', b'\xff\xfe.8xp', b'\xc3\xa9.8xp', b'a.8xp.txt', b'a.txt.8xp', b'*.8xp', b'a\\b.8xp', b'[color:red].8xp', b'~.8xp', b'a..8xp', b'a .8xp', b'.a.8xp'):
        for name in (b'../X', b'OK', b''):
            mass('file-%s-%s' % (n.hex(), name.hex()), {b'in/' + n: xp_file(b'\x41', name=name), 'out': Dir()} if False else {'in/' + n.decode('utf-8', 'surrogateescape'): (text_file(['A'], 'TT') if n.endswith(b'.txt') else xp_file(b'\x41', name=name)), 'out': Dir()}, b'y\ny\n')
    # output and input directories in every relation
    for i in range(n_of(ck, 40, 600)):
        files = {}
        for k in range(rng.randint(1, 4)):
            src = rng.choice(['8xp', '83p', 'txt', 'json'])
            name = rng.choice(HOSTILE + [b'AA', b'BB', b'CC'])
            f = {'8xp': lambda: xp_file(b'\x41', name=name), '83p': lambda: old_file(b'\x41', name=name), 'txt': lambda: text_file(['A'], rng.choice(['AA', 'BB', 'QQ'])),
                 'json': lambda: hostile_json(name.decode('latin-1'))}[src]()
            files['in/%s.%s' % (rng.choice('abcdXp'), src)] = f
        a = b''.join(rng.choice([b'y\n', b'n\n', b'\n']) for _ in range(rng.randint(0, 8)))
        rel = rng.choice(['out', 'same', 'inside', 'above', 'link', 'new', 'none', 'file', 'deep'])
        inp, out = 'in', 'out'
        if rel == 'out':
            files['out'] = Dir()
        elif rel == 'same':
            out = rng.choice(['in', './in', 'in/', '{root}/in'])
        elif rel == 'inside':
            files['in/sub'], out = Dir(), 'in/sub'
        elif rel == 'above':
            out = '.'
        elif rel == 'link':
            files['real'], files['out'] = Dir(), Link('real')
        elif rel == 'file':
            files['out'] = b'a file'
        elif rel == 'deep':
            out = 'x/y/out'
        if rel in ('same', 'above'):
            files = {k: v for k, v in files.items() if not k.endswith('json')}
        if rel == 'none':
            cases.append(Case('tree-%d-none' % i, dict(guards, **files), [Cmd('convert', inp, '-m', rng.choice(['-p', '-c']), stdin=a, look=look)]))
        else:
            mass('tree-%d-%s' % (i, rel), files, a, out=out, inp=inp)
    for i in range(n_of(ck, 45, 600)):       # several outputs exist; every one is asked for
        files, used = {'out': Dir()}, rng.sample(['AA', 'BB', 'CC', 'DD', 'EE', 'FF'], rng.randint(2, 6))
        for name in used:
            src = rng.choice(['8xp', '8xp', '83p', 'txt', 'json'])
            files['in/%s.%s' % (name.lower(), src)] = {'8xp': lambda: xp_file(b'\x41', name=name.encode()), '83p': lambda: old_file(b'\x41', name=name.encode()), 'txt': lambda: text_file(['A'], name),
                                                       'json': lambda: hostile_json(name)}[src]()
            for e in ('txt', '8xp'):
                if rng.random() < 0.8:
                    files['out/%s.%s' % (name, e)] = precious(rng, e, name.encode())
        words = [b'y\n', b'n\n', b'\n', b'Y\n', b'no\n', b'yes\n', b'a\n', b'all\n', b'A\n']
        a = b''.join(rng.choice(words[:2] if rng.random() < 0.6 else words) for _ in range(rng.randint(1, 10)))
        if rng.random() < 0.4:      # one yes, then nothing but going on
            a = b'y\n' + b'n\n' * 12
        mass('several-%d' % i, files, a)
    for i in range(n_of(ck, 20, 200)):       # existing outputs are links that lead elsewhere
        files = {'in/a.8xp': xp_file(b'\x41', name=b'AA'), 'in/b.txt': text_file(['A'], 'BB'),
                 'out/' + rng.choice(['AA.txt', 'BB.8xp']): Link(rng.choice(['../X.txt', '../in/a.8xp', '../gone.txt', '../in', '../out2/X.txt'])), 'out/z': b'z'}
        mass('links-%d' % i, files, rng.choice([b'', b'y\n', b'n\ny\n', b'y\ny\ny\n', b'n\nn\n']))
    cases += sessions(ck, n_of(ck, 70, 1500), ['crash'], ('mass', 'mass', 'convert'), contained=True)
    cases += mass_graph(ck, ['crash', 'contained'], 120)
    ck.conform(directory_orders(ck, cases))
    return LEVEL, ASSUME + ['runs as an unprivileged user: an escape outside the scratch directory is only noticed when it succeeds below it or makes the tool fail'], {}


def C15(ck):
    rng, cases = ck.rng, []
    ck.model('MC_Mass', workers=1)
    look = ['crash', 'exit', 'paths', 'kept', 'asks']
    count = n_of(ck, 150, 1800)
    exports = json_exports(ck, [(e, any_program(rng, e)) for e in rng.choices(['8xp', '8xp', '83p', '82p'], k=n_of(ck, 60, 400))])
    exports = [e for e in exports if e]
    for i in range(count):
        names_ = set()
        while len(names_) < rng.randint(1, n_of(ck, 4, 5)):
            names_.add(rand_name(rng, 1))
        files, plan = {}, []
        mode, enc = rng.choice(MODES + ['accessible']), rng.choice(ENCS)
        opts = []
        if mode != 'accessible' or rng.random() < 0.5:
            opts += [rng.choice(['-d', '--display-mode']), mode]
        if enc != 'smart' or rng.random() < 0.5:
            opts += [rng.choice(['-e', '--encode-mode']), enc]
        if rng.random() < 0.4:      # names no text file may carry
            names_.update(rng.sample(['C.D', 'C.E', 'A B', '9X', '.H', 'T.8XP', 'X.', '\xe9T', '..A', 'T.TXT', 'A.B.C', '-o', "Q'", 'N\n'], rng.randint(1, 2)))
        for n in sorted(names_):
            src = rng.choice(['8xp', '8xp', '83p', '82p', 'txt', 'txt', 'json'] if n.isalpha() and n.isascii() else ['8xp', '83p', '82p', 'json'])
            base = rng.choice(['%s' % n.lower() if n.isalnum() else 'o%d' % len(plan), 'f%d' % len(plan), 'x.y%d' % len(plan), '.h%d' % len(plan), 'sp ace%d' % len(plan), '\u00e9%d' % len(plan)])
            if any(b == base for b, _, _ in plan):
                base += 'q'
            model = rng.choice(list(FILE_MODELS))
            pid, sig = FILE_MODELS[model]
            if src == 'txt':
                tm = rng.choice(MODES)
                f = text_file(dress(rng, text_lines(rng, ORDERS[model], tm, rng.choice([1, 3, 8]))), n, rng.choice(list(FTYPES)), rng.choice(list(DESTS)), tm, model)
            elif src == 'json':
                d = json.loads(rng.choice(exports))
                d['metadata']['name'] = n
                d['metadata']['bytes'][5:13] = list(n.encode('latin-1').ljust(8, b'\0'))
                f = json.dumps(d).encode()
            else:
                body = rand_body(rng, ORDERS[model], rng.choice([0, 2, 20]))
                f = xp_file(body, n.encode('latin-1'), rand_comment(rng).encode(), 5, rng.choice([0, 128]), pid, sig) if src == '8xp' else old_file(body, n.encode('latin-1'), rand_comment(rng).encode(), 5, pid, sig)
            files['in/%s.%s' % (base, src)] = f
            if rng.random() < 0.12:
                files['store/%s' % base], files['in/%s.%s' % (base, src)] = f, Link(rng.choice(['../store/%s', '{root}/store/%s']) % base)
            plan.append((base, src, n))
        for other in rng.sample(['in/readme.md', 'in/noext', 'in/a.8XP', 'in/b.TXT', 'in/.8xp', 'in/c.json5', 'in/d.8xp.bak', 'in/e.xp', 'in/sub/f.8xp', 'in/.txt', 'in/g.83P', 'in/h.xml', 'in/i.8xpp'], rng.randint(0, 4)):
            files[other] = rng.choice([b'', b'junk', xp_file(b'\x41', name=b'JUNK')])
        make = rng.random() < 0.3
        if not make:
            files['out'] = Dir()
            if rng.random() < 0.3:
                files['out/old.bin'] = b'old'
        files['s'] = Dir()
        steps = [Cmd('convert', 'in', *rng.sample([['-m'], ['-o', 'out'], opts], 3)[0:0], *sum(rng.sample([['-m'], ['-o', 'out'], opts], 3), []), stdin=b'y\n' if make else b'', look=look)]
        claims = []
        for base, src, n in plan:
            for e in {'txt': ['8xp'], 'json': ['txt', '8xp']}.get(src, ['txt']):
                steps.append(Cmd('convert', 'in/%s.%s' % (base, src), '-o', 's/%s.%s' % (n, e), *opts, look=['crash']))
                claims.append(claim('same', 1, 'out/%s.%s' % (n, e), len(steps), 's/%s.%s' % (n, e), given=[{'step': len(steps), 'path': cps('s/%s.%s' % (n, e))}]))
        cases.append(Case('mass-%d' % i, files, steps, claims))
    # the output directory is missing
    for a in (b'n\n', b'', b'y\n', b'Y\n', b'yes\n', b'\n', b' y \n', b'no\ny\n'):
        for out in ('out', 'a/b', 'out/'):
            cases.append(Case('create-%s-%s' % (a.hex(), out.replace('/', '_')), {'in/a.8xp': xp_file(b'\x41'), 'in/b.txt': text_file(['A'], 'BB')}, [Cmd('convert', 'in', '-m', '-o', out, stdin=a, look=look)]))
    for more in (['-p'], ['-c'], ['-p', '-c'], []):
        cases.append(Case('nooutput-' + '_'.join(more), {'in/a.8xp': xp_file(b'\x41'), 'in/b.txt': text_file(['A'], 'BB')}, [Cmd('convert', 'in', '-m', *more, look=look)]))
    cases.append(Case('empty', {'in': Dir(), 'out': Dir()}, [Cmd('convert', 'in', '-m', '-o', 'out', look=look)]))
    cases.append(Case('notdir', {'in.8xp': xp_file(b'\x41'), 'out': Dir()}, [Cmd('convert', 'in.8xp', '-m', '-o', 'out', look=look)]))
    cases.append(Case('linked', {'real/a.8xp': xp_file(b'\x41', name=b'AA'), 'in': Link('real'), 'outr': Dir(), 'out': Link('outr')}, [Cmd('convert', 'in', '-m', '-o', 'out', look=look)]))
    cases += sessions(ck, n_of(ck, 70, 1500), ['crash', 'exit', 'world', 'asks'], ('mass', 'mass', 'convert'))
    # many files
    for i, size in enumerate(rng.sample([10, 17, 33, 50, 65], 2) + [270] if not ck.thorough else [10, 17, 33, 50, 65, 101, 129, 257, 520, 1030]):
        files = {} if i == 0 else {'out': Dir()}
        for k, name in enumerate(rng.sample([''.join(x) for x in itertools.product('ABCDEFGHIJK', repeat=3)], size)):
            src = rng.choice(['8xp', '8xp', '83p', '82p', 'txt', 'txt', 'json'])
            body = rand_body(rng, 40, rng.choice([0, 1, 5]))
            if size > 100 and src == 'json':
                src = '8xp'
            files['in/f%d.%s' % (k, src)] = text_file(['Disp %d' % k], name, model='TI-84+') if src == 'txt' else renamed_json(rng.choice(exports), name) if src == 'json' \
                else xp_file(body, name.encode(), pid=10) if src == '8xp' else old_file(body, name.encode(), pid=10)
        cases.append(Case('many-%d' % size, files, [Cmd('convert', 'in', '-m', '-o', 'in' if i % 3 == 2 else 'out', stdin=b'y\n', look=['crash', 'exit', 'world', 'asks', 'message'], straight=True)]))
    # the output directory is the input directory, and what has been saved may be seen while it is read
    for i in range(n_of(ck, 40, 400)):
        files = {}
        for k, name in enumerate(rng.sample(['AA', 'BB', 'CC', 'DD', 'E.F', 'GG'], rng.randint(1, 4))):
            src = rng.choice(['8xp', '8xp', '83p', '82p', 'txt', 'json'])
            base = rng.choice(['f%d', 'x.y%d', name.lower() + '%d']) % k if rng.random() < 0.8 or src == 'json' else name
            if src == 'txt' and not name.isalpha():
                src = '8xp'
            body = rand_body(rng, 40, rng.choice([0, 2, 20]))
            files['in/%s.%s' % (base, src)] = text_file(text_lines(rng, 40, 'accessible', 2), name, model='TI-84+') if src == 'txt' else renamed_json(rng.choice(exports), name) if src == 'json' \
                else xp_file(body, name.encode(), pid=10) if src == '8xp' else old_file(body, name.encode(), pid=10)
        files['l'] = Link('in')
        cases.append(Case('within-%d' % i, files, [Cmd('convert', rng.choice(['in', 'l']), '-m', '-o', rng.choice(['in', './in', 'in/', '{root}/in', 'l']), stdin=rng.choice([b'', b'', b'n\n', b'y\ny\ny\n']), look=['crash', 'exit', 'world', 'asks'])]))
    cases += mass_graph(ck, ['crash', 'exit', 'world', 'asks'], 120)
    ck.conform(directory_orders(ck, cases))
    return LEVEL, ASSUME, {}


# ------------------------------------------------------------------- C16 ----
def mutate_json(rng, raw, ck):
    """(label, bytes, exact): exact when whether the result is a program is beyond doubt"""
    d0 = json.loads(raw)
    def paths(d, p=()):
        for k, v in d.items():
            yield p + (k,)
            if isinstance(v, dict):
                yield from paths(v, p + (k,))
    every = list(paths(d0))
    def at(d, p):
        for k in p[:-1]:
            d = d[k]
        return d
    for p in every:
        d = json.loads(raw)
        del at(d, p)[p[-1]]
        yield 'without-' + '.'.join(p), json.dumps(d).encode(), True
        d = json.loads(raw)
        v = at(d, p)[p[-1]]
        bad = {str: [5, [], {}, True], int: ['x', -1, 70000, [], 1.5], list: ['x', 5, {}, [256], ['a'], [-1], [[]]], dict: [5, 'x']}[type(v)]
        for b in bad if ck.thorough else [rng.choice(bad), None]:
            at(d, p)[p[-1]] = b
            yield 'wrong-%s-%s' % ('.'.join(p), type(b).__name__), json.dumps(d).encode(), True
    for part, n in (('header', 55), ('metadata', 19), ('checksum', 2)):
        for m in sorted({0, 1, n - 1, n + 1, 2 * n, 5, 13, 300}):
            d = json.loads(raw)
            d[part]['bytes'] = [rng.randint(0, 255) for _ in range(m)]
            yield 'length-%s-%d' % (part, m), json.dumps(d).encode(), m != n
    for part, field, values in (('metadata', 'file_type', ['', 'program', 'Locked Program', 'X']), ('metadata', 'destination', ['', 'ram', 'Flash']), (None, 'display_mode', ['', 'pretty', 'Ti'])):
        for v in values:
            d = json.loads(raw)
            (d[part] if part else d)[field] = v
            yield 'value-%s-%s' % (field, v), json.dumps(d).encode(), True
    # consistent in shape, inconsistent in content
    for k in range(6):
        d = json.loads(raw)
        d['header']['bytes'] = [rng.randint(0, 255) for _ in range(55)]
        d['metadata']['bytes'] = [rng.randint(0, 255) for _ in range(19)]
        d['body']['bytes'] = [rng.randint(0, 255) for _ in range(rng.choice([0, 1, 5, 300]))]
        d['metadata']['name'] = rng.choice(['', 'x' * 40, '\u03b8', 'a\nb', '[color:'])
        d['header']['comment'] = rng.choice(['', 'x' * 400, '\u03b8\n\r', '[style:'])
        d['body']['translation'] = rng.choice(['', '\n\n', 'x\r\n'])
        yield 'inconsistent-%d' % k, json.dumps(d).encode(), True
    for label, b in (('big', b'[' * 5000), ('deep', b'{"a":' * 3000), ('null', b'null'), ('num', b'5'), ('list', b'[]'), ('obj', b'{}'), ('str', b'"x"'), ('space', b'  \n'), ('bom', b'\xef\xbb\xbf' + raw),
                     ('trail', raw + b'x'), ('utf', raw.replace(b'"', b'\xff', 1)), ('nan', raw.replace(b'1', b'NaN', 1)), ('uni', raw.replace(b'"comment": "', b'"comment": "\\ud800', 1))):
        yield label, b, False
    for k in range(len(raw)) if ck.thorough else sorted(rng.sample(range(len(raw)), 25)):
        yield 'cut-%d' % k, raw[:k], raw[:k].strip() != raw.strip()
    for k in range(n_of(ck, 25, 400)):
        b = bytearray(raw)
        for _ in range(rng.randint(1, 4)):
            b[rng.randrange(len(b))] = rng.choice([rng.randint(0, 255), ord('"'), ord('{'), ord('9'), ord(',')])
        yield 'flip-%d' % k, bytes(b), False


def C16(ck):
    rng, cases = ck.rng, []
    exact, loose = ['crash', 'exit', 'failure'], ['crash', 'failure']
    def uses(ext):
        out = rng.choice(['8xp', '83p', '82p', 'txt', 'json'])
        f = 'in.' + ext
        u = [lambda: ('convert', f, '-o', 'out.' + out), lambda: ('convert', f, '-p'), lambda: ('convert', f, '-c'), lambda: ('convert', f, '-p', '-c', '-o', 'out.' + out, '-d', rng.choice(MODES), '-e', rng.choice(ENCS))]
        if ext in ('8xp', '83p', '82p'):
            u += [lambda: ('details', f), lambda: edit_argv(rng.choice(FIELD_EDITS), 'NEW', f, '-f', 'out.' + out)] * 2
        return u
    def one(label, ext, f, look=exact, every=False):
        us = uses(ext)
        for k, u in enumerate(us if every else [us[0], rng.choice(us[1:])] if ck.thorough else [rng.choice(us)]):
            cases.append(Case('%s-%d' % (label, k), {'in.' + ext: f}, [Cmd(*u(), look=look)]))
    for ext in ('8xp', '83p', '82p'):
        f = any_program(rng, ext, body=rand_body(rng, 20, 6), model='TI-83')
        for n in range(len(f)):
            one('cut-%s-%d' % (ext, n), ext, f[:n])
        one('empty-' + ext, ext, b'', every=True)
        one('whole-' + ext, ext, f, every=True)
        for pos in range(len(f)):
            for v in [0, 255] if ck.thorough else [rng.choice([0, 1, 127, 128, 255, f[pos] ^ 1])]:
                one('byte-%s-%d-%d' % (ext, pos, v), ext, f[:pos] + bytes([v]) + f[pos + 1:])
        for b in range(256):
            one('pid-%s-%d' % (ext, b), ext, f[:10] + bytes([b]) + f[11:])
            one('type-%s-%d' % (ext, b), ext, f[:59] + bytes([b]) + f[60:])
            if ext == '8xp':
                one('dest-%d' % b, ext, f[:69] + bytes([b]) + f[70:])
        for i in range(n_of(ck, 60, 1500)):
            n = rng.choice([0, 1, 2, 54, 55, 72, 73, 74, 75, 76, 77, 78, 100, 300])
            g = bytearray(rng.randint(0, 255) for _ in range(n))
            if n > 70 and rng.random() < 0.7:
                g[:8], g[10], g[59] = rng.choice([b'**TI82**', b'**TI83**', b'**TI83F*']), rng.choice([0, 4, 10, 11, 15, 19, 27]), rng.choice([5, 6])
                g[69] = rng.choice([0, 128])
            one('random-%s-%d' % (ext, i), ext, bytes(g))
        if ext == '8xp':
            for i in range(n_of(ck, 20, 300)):
                one('lengths-%d' % i, ext, xp_file(rand_body(rng, 40, 4), **{k: rng.choice([0, 1, 65535, 300]) for k in rng.sample(['length', 'l1', 'l2', 'lb', 'check'], 2)}))
    t = text_file(['Disp "HI', '', 'A'], 'PROG', model='TI-84+')
    for n in range(len(t)):
        one('cut-txt-%d' % n, 'txt', t[:n])
    lines = t.split(b'\n')
    for k in range(6):
        for v in (b'', b'x', b' ', b'\xff', b'\xc3', b'\xed\xa0\x80', b'\xf4\x90\x80\x80', b'\xc0\x80', b'x' * 70000, b'\0', '\u03b8'.encode()):
            one('line-%d-%s' % (k, v[:4].hex()), 'txt', b'\n'.join(lines[:k] + [v] + lines[k + 1:]))
        one('drop-%d' % k, 'txt', b'\n'.join(lines[:k] + lines[k + 1:]))
    for i in range(n_of(ck, 120, 3000)):
        g = bytearray(t)
        for _ in range(rng.randint(1, 3)):
            g[rng.randrange(len(g))] = rng.choice([0, 10, 13, 255, 128, 34, rng.randint(0, 255)])
        one('flip-txt-%d' % i, 'txt', bytes(g))
    for n, f in too_big_texts():
        one('big-txt-%d' % n, 'txt', f, exact if ck.thorough or n == 65518 else loose)
    for i in range(n_of(ck, 90, 900)):       # what cannot be encoded: any number of characters of any width, at any place in the line
        odd = [rng.choice(FOREIGN + ['\u4e2d', '\U0001f600', '\u00e9', '\U0010ffff', '\ufffd', '\u0800', '\u07ff']) for _ in range(2)]
        line = rng.choice(['', '', 'A', 'Disp ', '"AB', 'A' * rng.randint(1, 40)]) + odd[0] * rng.choice([1, 2, 5, 11, 17, 33, 100]) + rng.choice(['', 'x', odd[1] * 7])
        model = rng.choice(MODELS)
        f = text_file(rng.choice([[], ['A'], ['', '']]) + [line] + rng.choice([[], ['A'], [line]]), mode=rng.choice(MODES), model=model)
        cases.append(Case('nowords-%d' % i, {'in.txt': f}, [Cmd('convert', 'in.txt', *rng.choice([['-o', 'out.8xp'], ['-p'], ['-c'], ['-o', 'out.json', '-p']]), '-e', rng.choice(ENCS), look=exact)]))
        if rng.random() < 0.3:       # the same in the fields of the header
            bad = odd[0].replace('\n', '') * rng.choice([1, 3, 8, 30, 200])
            cases.append(Case('noheader-%d' % i, {'in.txt': text_file(['A'], **{rng.choice(['name', 'ftype', 'dest', 'mode', 'model', 'comment']): bad})}, [Cmd('convert', 'in.txt', '-o', 'out.8xp', look=exact)]))
    for n in (65536 - 76, 65537 - 76) + ((65535 - 76, 65516, 70000, 131072 - 76) if ck.thorough else ()):
        for ext, f in (('8xp', xp_file(b'\x41' * n)), ('83p', old_file(b'\x41' * n))):
            one('huge-%s-%d' % (ext, n), ext, f, exact if n < 65517 else loose, every=True)
    for e in ('8xp', '83p', '82p', 'txt', 'json'):
        one('bom-' + e, e, b'\xef\xbb\xbf')
        one('newlines-' + e, e, b'\n' * 100)
    raws = json_exports(ck, [('8xp', any_program(rng, '8xp', body=rand_body(rng, 40, 5))) for _ in range(n_of(ck, 1, 4))])
    for j, raw in enumerate(r for r in raws if r):
        one('json-whole-%d' % j, 'json', raw, every=True)
        for label, b, sure in mutate_json(rng, raw, ck):
            one('json-%d-%s' % (j, label), 'json', b, exact if sure else loose)
    # names of files in a directory, and things that are no files
    for n in (b'\xff\xfe.8xp', b'\xff.txt', b'a.\xff', b'\x80', b'.json', b'a.8xp.', b'..8xp', b'a\n.8xp', b'\xed\xa0\x80.json', b'[color:x].8xp', b'[', b'[a:b:c].txt', b':].8xp'):
        name = n.decode('utf-8', 'surrogateescape')
        good = text_file(['A'], 'TT') if n.endswith(b'.txt') else xp_file(b'\x41', name=b'PP')
        for f in (good, b'junk', Dir(), Link('nowhere'), Link('in')):
            for more in (['-o', 'out'], rng.choice([['-p'], ['-c'], ['-p', '-c'], ['-o', 'out', '-p', '-c']])):
                cases.append(Case('entry-%s-%s-%s' % (n.hex(), type(f).__name__, '_'.join(more)), {'d/' + name: f, 'out': Dir()}, [Cmd('convert', 'd', '-m', *more, stdin=b'y\ny\n', look=loose)]))
    for ext in ('8xp', '83p', '82p', 'txt', 'json'):
        for kind, f in (('dir', Dir()), ('loop', Link('in.' + ext)), ('dangling', Link('none')), ('linkdir', Link('.'))):
            one('%s-%s' % (kind, ext), ext, f, every=True)
        cases.append(Case('absent-' + ext, {'x': b''}, [Cmd('convert', 'in.' + ext, '-o', 'out.8xp', look=exact), Cmd('details', 'in.' + ext, look=exact), Cmd('lock', 'in.' + ext, look=exact)]))
    for bad in ('in', 'in.', 'in.8XP', 'in.bin', '.8xp', 'in.8xp.gz', 'in.TXT', 'in.\u00e9'):
        for cmd in (('convert', bad, '-o', 'out.8xp'), ('details', bad), ('lock', bad, '-f', 'out.8xp'), ('rename', bad, '-n', 'A', '-f', 'out.8xp'), ('comment', bad, '-c', 'A', '-f', 'out.8xp'), ('convert', bad, '-p')):
            cases.append(Case('kind-%s-%s' % (cmd[0], bad), {bad: xp_file(b'\x41')}, [Cmd(*cmd, look=exact)]))
    for i, (label, files, argv, stdin) in enumerate(permission_cases(ck, n_of(ck, 80, 1000))):
        cases.append(Case('denied-%d-%s' % (i, label), files, [Cmd(*argv, stdin=stdin, look=exact)]))
    for ext in ('txt', 'json'):
        for cmd in (('details', 'in.' + ext), ('lock', 'in.' + ext, '-f', 'out.8xp'), ('rename', 'in.' + ext, '-n', 'A', '-f', 'out.8xp')):
            cases.append(Case('wrong-%s-%s' % (cmd[0], ext), {'in.' + ext: text_file(['A'])}, [Cmd(*cmd, look=exact)]))
    cases += sessions(ck, n_of(ck, 70, 1500), ['crash', 'exit', 'failure'], ('convert', 'edit', 'details', 'mass'))
    ck.conform(cases)
    return LEVEL, ASSUME, {}


# ------------------------------------------------------------------- C17 ----
def old_programs(rng, count):
    """(label, extension, bytes, model): 82p and 83p files with every field varied"""
    models = itertools.cycle(FILE_MODELS)
    for i in range(count):
        model, ext = next(models), rng.choice(['83p', '82p'])
        pid, sig = FILE_MODELS[model]
        kw = {}
        if rng.random() < 0.4:
            kw['extra'] = bytes([rng.randint(0, 255), rng.randint(0, 255)])
        name, comment = rand_name_raw(rng), rand_comment_raw(rng)
        body = rand_body(rng, ORDERS[model], rng.choice([0, 1, 2, 3, 17, 60, 200]))
        yield '%d-%s-%s' % (i, ext, model), ext, old_file(body, name, comment, rng.choice(list(FTYPES.values())), pid, sig, **kw), model


def C17(ck):
    rng, cases = ck.rng, []
    ck.model('MC_Edit', cfg='MC_Edit_83p.cfg')
    full, look = ['crash', 'exit', 'world'], ['crash', 'exit']
    def through(label, ext, f):
        """to its own type, through 8xp and back, through JSON and back"""
        other = {'83p': '82p', '82p': '83p'}[ext]
        steps = [Cmd('convert', 'in.' + ext, '-o', 'a.' + ext, look=full), Cmd('convert', 'in.' + ext, '-o', 'b.8xp', look=full),
                 Cmd('convert', 'b.8xp', '-o', 'c.' + ext, look=full), Cmd('convert', 'in.' + ext, '-o', 'd.json', look=look),
                 Cmd('convert', 'd.json', '-o', 'e.' + ext, look=full), Cmd('convert', 'in.' + ext, '-o', 'f.' + other, look=full),
                 Cmd('convert', 'd.json', '-o', 'g.8xp', look=full)]
        cases.append(Case('through-' + label, {'in.' + ext: f}, steps,
                          [claim('same', 1, 'in.' + ext, k, p) for k, p in ((1, 'a.' + ext), (3, 'c.' + ext), (5, 'e.' + ext), (6, 'f.' + other))]
                          + [claim('same', 2, 'b.8xp', 7, 'g.8xp')]))
    def edits(label, ext, f):
        steps, path = [], 'in.' + ext
        for k in range(rng.randint(1, 4)):
            op, arg = rand_edit(rng, 0.95)
            if rng.random() < 0.4:
                steps.append(Cmd(*edit_argv(op, arg, path), stdin=b'y\n', look=full))
            else:
                new = 'n%d.%s' % (k, rng.choice([ext, ext, '8xp', '83p', '82p']))
                steps.append(Cmd(*edit_argv(op, arg, path, '-f', new), look=full))
                if EDIT_OK(op, arg) and rng.random() < 0.7:
                    path = new
        steps.append(Cmd('details', path, look=['crash', 'exit', 'shown']))
        steps.append(Cmd('convert', path, '-o', 'end.txt', look=full))
        cases.append(Case('edits-' + label, {'in.' + ext: f}, steps))
    for label, ext, f, model in old_programs(rng, n_of(ck, 120, 1600)):
        through(label, ext, f)
    for label, ext, f, model in old_programs(rng, n_of(ck, 110, 1600)):
        edits(label, ext, f if rng.random() < 0.75 else misstate_old(rng, f))
    for i in range(n_of(ck, 60, 800)):       # programs that never were in that layout
        ext = rng.choice(['83p', '82p'])
        f, model, kw = rand_xp(rng)
        steps = [Cmd('convert', 'in.8xp', '-o', 'a.' + ext, look=full), Cmd('convert', 'a.' + ext, '-o', 'b.' + ext, look=full),
                 Cmd('convert', 'a.' + ext, '-o', 'c.8xp', look=full), Cmd('convert', 'c.8xp', '-o', 'd.' + ext, look=full), Cmd('details', 'a.' + ext, look=['crash', 'exit', 'shown'])]
        cases.append(Case('from-8xp-%d-%s' % (i, model), {'in.8xp': f}, steps, [claim('same', 1, 'a.' + ext, 2, 'b.' + ext), claim('same', 1, 'a.' + ext, 4, 'd.' + ext)]))
    for i, f, model, mode, enc in text_inputs(ck, n_of(ck, 50, 600), 6):
        ext = rng.choice(['83p', '82p'])
        steps = [Cmd('convert', 'in.txt', '-o', 'a.' + ext, '-e', enc, look=full), Cmd('convert', 'in.txt', '-o', 'b.8xp', '-e', enc, look=full),
                 Cmd('convert', 'b.8xp', '-o', 'c.' + ext, look=full)]
        cases.append(Case('from-txt-%d-%s' % (i, model), {'in.txt': f}, steps, [claim('same', 1, 'a.' + ext, 3, 'c.' + ext, given=[{'step': 1, 'path': cps('a.' + ext)}])]))
    for b in range(256):
        through('byte-%02x' % b, '83p', old_file(b'\x41', name=bytes([b or 65, 66]), comment=bytes([b or 1]) * 3, extra=bytes([b, 255 - b])))
    through('zeros', '83p', old_file(b'\x41', name=b'A\0B\0\0\0\0C', comment=b'x\0y' + b'\0' * 10 + b'z'))
    through('full', '82p', old_file(b'\x41', name=b'ABCDEFGH', comment=b'c' * 42))
    for n in (255, 256, 257, 3000) + ((65516,) if ck.thorough else ()):
        through('long-%d' % n, '83p', old_file(b'\x41' * n))
    for name, f in fixtures().items():
        if name.endswith(('82p', '83p')):
            through('fixture-' + name, name[-3:], f)
            edits('fixture-' + name, name[-3:], f)
    cases += sessions(ck, n_of(ck, 70, 1500), ['crash', 'exit', 'world'], ('convert', 'edit', 'edit', 'details'))
    cases += format_graph(ck, ['crash', 'exit', 'world'], 150)
    ck.conform(cases)
    return LEVEL, ASSUME, {}


# ------------------------------------------------------------------- C18 ----
def C18(ck):
    rng, cases = ck.rng, []
    full = ['crash', 'exit', 'world']
    outs = ['8xp', '83p', '82p', 'txt', 'json']
    def one(label, ext, f, opts=(), pre=()):
        """pre: edits made first; every file written from the export equals the file written directly"""
        src, steps = 'in.' + ext, []
        for k, (op, arg) in enumerate(pre):
            steps.append(Cmd(*edit_argv(op, arg, src, '-f', 'e%d.%s' % (k, ext)), look=full))
            if EDIT_OK(op, arg):
                src = 'e%d.%s' % (k, ext)
        steps.append(Cmd('convert', src, '-o', 'x.json', *opts, look=full))
        at, claims = len(steps), []
        for o in outs if ck.thorough else ['8xp', 'json', rng.choice(['83p', '82p']), 'txt']:
            steps.append(Cmd('convert', src, '-o', 'd.' + o, *opts, look=full))
            steps.append(Cmd('convert', 'x.json', '-o', 'j.' + o, *(opts if rng.random() < 0.5 else ['-d', rng.choice(MODES), '-e', rng.choice(ENCS)]), look=full))
            claims.append(claim('same', len(steps) - 1, 'd.' + o, len(steps), 'j.' + o, given=[{'step': at, 'path': cps('x.json')}]))
        claims.append(claim('same', at, 'x.json', len(steps), 'j.json', given=[{'step': at, 'path': cps('x.json')}]))
        cases.append(Case(label, {'in.' + ext: f}, steps, claims))
    for i in range(n_of(ck, 90, 1300)):
        f, model, kw = rand_xp(rng)
        one('8xp-%d-%s' % (i, model), '8xp', f, ['-d', rng.choice(MODES)])
    for label, ext, f, model in old_programs(rng, n_of(ck, 50, 700)):
        one('old-' + label, ext, f, ['-d', rng.choice(MODES)])
    for i, f, model, mode, enc in text_inputs(ck, n_of(ck, 90, 1300), 8):
        one('text-%d-%s-%s-%s' % (i, model, mode, enc), 'txt', f, ['-e', enc])
    for i in range(n_of(ck, 60, 800)):
        ext = rng.choice(['8xp', '8xp', '83p', '82p'])
        one('edited-%d-%s' % (i, ext), ext, any_program(rng, ext), [], [rand_edit(rng, 0.9) for _ in range(rng.randint(1, 3))])
    for m in MODELS:
        one('model-' + m, 'txt', text_file(['Disp "A', '', 'B'], model=m))
    for k, c in enumerate(['a"b', 'a\\b', '\u03b8\u4e2d', '\U0001f600', 'tab\tx', '\x01\x1f', '', '{"a":1}', '\u2028', '\\u0041']):
        one('comment-%d' % k, 'txt', text_file(['A'], comment=c))
        one('edited-comment-%d' % k, '8xp', xp_file(b'\x41'), [], [('comment', c)])
    for b in range(0, 256, 1 if ck.thorough else 7):
        one('byte-%02x' % b, '8xp', xp_file(b'\x41', name=bytes([b or 65, 66]), comment=bytes([b or 1]) * 3, flag=b, unk=255 - b, version=b, extra=bytes([b, 255 - b])))
    for ft in FTYPES.values():
        for d in (0, 128):
            one('field-%d-%d' % (ft, d), '8xp', xp_file(b'\x41', ftype=ft, dest=d))
    one('wrong-check', '8xp', xp_file(b'\x41\x42', check=77))
    for label, f, model, mode in rng.sample(list(big_texts(ck))[:5], 1) + rng.sample(list(big_texts(ck))[5:], 1):
        one('big-' + label, 'txt', f, ['-e', 'max'])
    # JSON that another program wrote: same data, other layout
    raws = [r for r in json_exports(ck, [('8xp', any_program(rng, '8xp')) for _ in range(n_of(ck, 12, 60))]) if r]
    for k, raw in enumerate(raws):
        d = json.loads(raw)
        alt = [json.dumps(d), json.dumps(d, indent=4), json.dumps(d, ensure_ascii=False, separators=(',', ':')),
               json.dumps(dict(reversed([(a, dict(reversed(b.items())) if isinstance(b, dict) else b) for a, b in d.items()]))), json.dumps(dict(d, extra=[1, {'x': None}]))]
        steps = [Cmd('convert', 'in.json', '-o', 'a.8xp', look=full), Cmd('convert', 'alt.json', '-o', 'b.8xp', look=full), Cmd('convert', 'alt.json', '-o', 'c.json', look=full)]
        cases.append(Case('layout-%d' % k, {'in.json': raw, 'alt.json': alt[k % len(alt)].encode()}, steps, [claim('same', 1, 'a.8xp', 2, 'b.8xp'), claim('same', 1, 'in.json', 3, 'c.json')]))
    cases += sessions(ck, n_of(ck, 70, 1500), ['crash', 'exit', 'world'], ('convert', 'convert', 'convert', 'edit', 'mass'))
    cases += format_graph(ck, ['crash', 'exit', 'world'], 150)
    ck.conform(cases)
    return LEVEL, ASSUME + ['JSON is read by the recorder (Python json) into the record the specification compares'], {}


# ------------------------------------------------------------------- C19 ----
def C19(ck):
    rng, cases = ck.rng, []
    full = ['crash', 'exit', 'world']
    ck.model('MC_Sheet', workers=1)
    def back(label, src, f, mode=None, how=None, sure=False):
        """export, read back in every encode mode, export again"""
        opts = ['-d', mode] if mode else []
        steps, claims = [Cmd('convert', src, '-o', 't.txt', *opts, look=full)], []
        given = [{'step': 1, 'path': cps('t.txt')}]
        for enc in ENCS if how is None else [how]:
            steps += [Cmd('convert', 't.txt', '-o', enc + '.8xp', '-e', enc, look=full), Cmd('convert', enc + '.8xp', '-o', enc + '.txt', *opts, look=full),
                      Cmd('convert', 't.txt', '-o', enc + 't.txt', '-e', enc, look=full), Cmd('convert', 't.txt', '-o', enc + '.json', '-e', enc, look=full),
                      Cmd('convert', enc + '.json', '-o', enc + 'j.txt', look=full)]
            n = len(steps)
            read = [] if sure else given + [{'step': n - 4, 'path': cps(enc + '.8xp')}]
            claims += [claim('sametext', 1, 't.txt', n - 1 - 1, enc + 't.txt', given=read), claim('sametext', 1, 't.txt', n, enc + 'j.txt', given=read)]
            if mode != 'ti' and src.endswith('p'):
                claims.append(claim('sametext', 1, 't.txt', n - 3, enc + '.txt', given=read))
        cases.append(Case(label, {src: f}, steps, claims))
    for i in range(n_of(ck, 100, 1500)):
        ext = rng.choice(['8xp', '8xp', '83p', '82p'])
        mode, model = rng.choice(MODES + ['accessible']), rng.choice(list(FILE_MODELS))
        f = any_program(rng, ext, model)
        name = f[60:68].replace(b'\0', b'')
        back('program-%d-%s-%s' % (i, mode, model), 'p.' + ext, f, mode, rng.choice(ENCS) if not ck.thorough else None,
             mode == 'accessible' and ORDERS[model] >= 30 and (name == b'' or name.isalpha()))
    for i, f, model, mode, enc in text_inputs(ck, n_of(ck, 90, 1200), 8):
        back('text-%d-%s-%s' % (i, model, mode), 'p.txt', f, rng.choice([None, mode]), enc)
    # every token of every table, one per line
    for model in FILE_MODELS:
        pid, sig = FILE_MODELS[model]
        for mode in MODES:
            keys = sorted(table(ORDERS[model]))
            rng.shuffle(keys)
            body = b'\x3f'.join(bytes(k) for k in keys if k != (0x3f,))
            back('tokens-%s-%s' % (model, mode), 'p.8xp', xp_file(body, pid=pid, sig=sig), mode, rng.choice(ENCS) if not ck.thorough else None, mode == 'accessible' and ORDERS[model] >= 30)
    for m in MODELS:
        for ft in FTYPES:
            back('field-%s-%s' % (m, ft), 'p.txt', text_file(['A'], 'ABC', ft, rng.choice(list(DESTS)), rng.choice(['pretty', 'accessible']), m), None, rng.choice(ENCS))
    # only the export, for whatever is in the fields
    for i in range(n_of(ck, 120, 1500)):
        f, model, kw = rand_xp(rng)
        cases.append(Case('head-%d-%s' % (i, model), {'p.8xp': f}, [Cmd('convert', 'p.8xp', '-o', 't.txt', '-d', m, look=full) for m in [rng.choice(MODES)]]))
    for k, c in enumerate([b'a\nb', b'\n', b'\r\n', b'a\rb', b'\r', b'a\x0bb', b'a\x85b', b'\xe2\x80\xa8', b'\n\n\n', b'x' * 41 + b'\n', b'a\tb', b'\x0c']):
        back('comment-%d' % k, 'p.8xp', xp_file(b'\x41\x3f\x42', comment=c), 'accessible', 'smart')
    for b in range(1, 256):
        cases.append(Case('commentbyte-%02x' % b, {'p.8xp': xp_file(b'\x41', comment=b'a' + bytes([b]) + b'z')}, [Cmd('convert', 'p.8xp', '-o', 't.txt', look=full)]))
    for k, body in enumerate([b'', b'\x3f', b'\x3f\x3f', b'\x3f\x41', b'\x41\x3f', b'\x3f\x3f\x41\x3f\x3f', b'\x29', b'\x29\x3f\x29']):
        for m in MODES:
            back('edge-%d-%s' % (k, m), 'p.8xp', xp_file(body), m)
    for name, f in fixtures().items():
        for m in MODES if not name.endswith('txt') else [None]:
            back('fixture-%s-%s' % (name, m), name, f, m, rng.choice(ENCS))
    cases += sessions(ck, n_of(ck, 70, 1500), ['crash', 'exit', 'world'], ('convert', 'text', 'edit'))
    cases += format_graph(ck, ['crash', 'exit', 'world'], 150)
    ck.conform(cases)
    return LEVEL, ASSUME, {}


def EDIT_OK(op, arg):
    """Forecast of whether an edit is accepted, to choose the next input; not a verdict."""
    if op == 'rename':
        return len(arg) <= 8 and (arg == '' or (arg.isascii() and arg.isalpha()))
    return op != 'comment' or len(arg.encode()) <= 42


# ------------------------------------------------------------------- C20 ----
SIGS = [b'**TI83F*', b'**TI83**', b'**TI82**', b'**TI85**', b'**TI83f*', b'********', b'\0' * 8, b'**TI83F\0', b'**TI73**', b'*TI83F**']


def C20(ck):
    rng, cases = ck.rng, []
    full, look = ['crash', 'exit', 'world'], ['crash', 'exit', 'shown', 'failure']
    for sig in SIGS[:3] if not ck.thorough else SIGS:
        for pid in range(256):
            f = xp_file(rand_body(rng, 10, 2), name=b'AB', pid=pid, sig=sig) if rng.random() < 0.8 else None
            ext, f = ('8xp', f) if f else (rng.choice(['83p', '82p']), old_file(rand_body(rng, 10, 2), name=b'AB', pid=pid, sig=sig))
            cases.append(Case('file-%s-%d' % (sig.decode('latin-1'), pid), {'in.' + ext: f}, [Cmd('details', 'in.' + ext, look=look), Cmd('convert', 'in.' + ext, '-o', 'out.txt', look=full)]))
    for sig in SIGS:
        for pid in (0, 4, 10, 11, 15, 19, 27, 1, 255):
            f = xp_file(rand_body(rng, 10, 2), name=b'AB', pid=pid, sig=sig)
            cases.append(Case('known-%s-%d' % (sig.decode('latin-1'), pid), {'in.8xp': f}, [Cmd('details', 'in.8xp', look=look), Cmd('convert', 'in.8xp', '-o', 'out.json', look=full), Cmd('convert', 'in.8xp', '-o', 'out.txt', look=full),
                                                                                      Cmd('convert', 'out.json', '-o', 'o2.8xp', look=full)]))
    # the tokens of the body are those of the model the file is for: one that only newer models have
    for model, (pid, sig) in FILE_MODELS.items():
        for k in rng.sample(sorted(table(9999999)), n_of(ck, 12, 80)):
            cases.append(Case('tokens-%s-%s' % (model, bytes(k).hex()), {'in.8xp': xp_file(bytes(k), pid=pid, sig=sig)}, [Cmd('convert', 'in.8xp', '-o', 'out.txt', '-d', rng.choice(MODES), look=full)]))
    # every model by name, and back
    for m in MODELS + ['', 'ti-84+', 'TI-84', 'TI-84+CE ', 'Latest', 'TI84Plus', 'LATEST', 'TI-83PCE2', '\u03b8']:
        for mode in MODES:
            f = text_file([''.join(n[mode] for k, n in rng.sample(sorted(table(10).items()), 3) if k != (0x3f,))] if m in ORDERS else ['A' if mode != 'ti' else '41'], 'AB', mode=mode, model=m)
            steps = [Cmd('convert', 'in.txt', '-o', 'a.8xp', look=full), Cmd('details', 'a.8xp', look=look), Cmd('convert', 'a.8xp', '-o', 'b.txt', look=full), Cmd('convert', 'in.txt', '-o', 'c.txt', look=full),
                     Cmd('convert', 'in.txt', '-o', 'd.json', look=full), Cmd('convert', 'd.json', '-o', 'e.txt', look=full), Cmd('convert', 'd.json', '-o', 'f.8xp', look=full), Cmd('convert', 'in.txt', '-o', 'g.83p', look=full), Cmd('details', 'g.83p', look=look)]
            given = [{'step': 1, 'path': cps('a.8xp')}]
            cases.append(Case('model-%s-%s' % (m, mode), {'in.txt': f}, steps, [claim('same', 4, 'c.txt', 6, 'e.txt', given=given), claim('same', 1, 'a.8xp', 7, 'f.8xp', given=given)]))
    cases.append(Case('list', {'x': b''}, [Cmd('models', look=['crash', 'exit', 'shown', 'untouched'])]))
    cases += sessions(ck, n_of(ck, 70, 1500), ['crash', 'exit', 'world', 'shown'], ('convert', 'text', 'details'))
    cases += format_graph(ck, ['crash', 'exit', 'world'], 100)
    ck.conform(cases)
    if not ck.library():
        return LEVEL, ASSUME, {}
    # the library's tables
    names_ = MODELS + ['', 'TI-84', 'ti-83', 'Latest', 'TI84Plus']
    pids = [(p, s) for s in SIGS for p in range(256)]
    def text_of(d):
        return dict(d, signature=cps(d['signature']), language=cps(d['language']))
    lines = []
    answer = ck.harness([{'do': 'models', 'names': names_, 'files': [[p, s.decode('latin-1')] for p, s in pids]}])[0]
    rec = {'kind': 'models', 'ok': bool(answer.get('ok')), 'names': [cps(n) for n in names_], 'named': [dict(r, name=cps(r['name']), details=text_of(r['details'])) for r in answer.get('named', [])],
           'pids': [{'pid': p, 'sig': list(s)} for p, s in pids], 'files': [dict(r, details=text_of(r['details'])) if r['ok'] else r for r in answer.get('files', [])]}
    fakes = []
    for how in range(3):
        f = json.loads(json.dumps(rec))
        if how == 0:
            rng.choice(f['named'])['order'] += 1
        elif how == 1:
            rng.choice([r for r in f['files'] if r['ok']])['details']['product_id'] ^= 1
        else:
            r = rng.choice(f['files'])
            r['ok'] = not r['ok']
            r.setdefault('details', f['named'][0]['details'])
        fakes.append(f)
    ck.judge_lines('Trace_Sheet', [('library', rec)], [('tables.ndjson', [])], fakes if answer.get('ok') else [])
    return LEVEL, ASSUME, {}


# ------------------------------------------------------------------- C21 ----
def defined_keys():
    """the tokens the token sheet describes"""
    with open(SPEC + '/data/definitions.ndjson') as f:
        keys = [bytes(json.loads(l)['key']).decode() for l in f if l.strip()]
    return {tuple(bytes.fromhex(k[2:])) for k in keys}


def C21(ck):
    rng, cases = ck.rng, []
    look = ['crash', 'exit', 'shown', 'message', 'untouched']
    newest = table(9999999)
    queries = []
    def search(query, by=None, times=1):
        queries.append((query, by, times))
    keys = sorted(newest)
    shared = {m: {} for m in MODES}
    for k, n in newest.items():
        for m in MODES:
            shared[m].setdefault(n[m], []).append(k)
    def pick(l, quick):
        return l if ck.thorough else rng.sample(l, min(quick, len(l)))
    for k in pick(keys, 330):
        search('0x' + bytes(k).hex().upper(), 'byte')
    for k in pick(keys, 330):
        search(newest[k]['accessible'], rng.choice([None, 'accessible']))
    for k in pick(keys, 330):
        search(newest[k]['pretty'], 'pretty')
    for m in ('accessible', 'pretty'):
        for n, ks in sorted(shared[m].items()):
            if len(ks) > 1 and '\0' not in n:
                search(n, m, n_of(ck, 3, 8))
    every = sorted({n[m] for n in newest.values() for m in ('accessible', 'pretty')})
    for i in range(n_of(ck, 250, 4000)):      # names with something after them, parts of names
        n = rng.choice(every)
        r = rng.random()
        q = n + rng.choice(every) if r < 0.3 else n + rng.choice(['x', ' ', '(', '!', '\u03b8', '1']) if r < 0.5 else n[:rng.randint(1, len(n))] if r < 0.8 else n[rng.randint(0, len(n) - 1):] if r < 0.9 else ''.join(rng.choice('ABCabc019 ().,"+-\u03b8\u00e9\u4e2d\u2099') for _ in range(rng.randint(1, 5)))
        search(q, rng.choice([None, 'accessible', 'pretty', 'pretty']))
    for i in range(n_of(ck, 120, 65536 // 8)):      # bytes that may or may not be tokens
        b = '%02X' % rng.randint(0, 255) if rng.random() < 0.4 else '%02X%02X' % (rng.choice([0x5c, 0x5d, 0x5e, 0x60, 0x61, 0x62, 0x63, 0x7e, 0xaa, 0xbb, 0xef, rng.randint(0, 255)]), rng.randint(0, 255))
        search('0x' + b, 'byte')
    for q in ('', '0x', '0', 'x', '0x0', '0x3', '0x3f', '0xde', '0XDE', 'DE', '$DE', '0xDE ', ' 0xDE', '0x00', '0xFF', '0x5D', '0x5D00', '0x5d00', '0x005D', '0x3F', '0x5D0', '0x5D0000', '0xG0', '0x\u03b8', '$5D$00 en', '0xDE en', '0x5D$00'):
        search(q, 'byte')
    for q in ('', ' ', '-', '--', '-t', '\u0398', '\u03f4', '\u1dbf', '\u03b8', '\n', '\t', '\0'[0:0], '\x1b[', '\U0001f600', 'Disp "HI"', 'prgmABC', '"', "'", '\\', 'disp', 'DISP', '\u2265', '\u221a(', 'L1', 'L\u2081', 'sub(', '|E', '~', '^^-1', '[color:red]', '[A]', '['):
        for by in (None, 'pretty', 'accessible'):
            search(q, by)
    for by in ('', 'Byte', 'ti', 'bytes', 'ACCESSIBLE', 'accessible ', '0xDE', 'pretty,byte'):
        search('Disp ', by)
        search('0xDE', by)
    done = set()
    for q, by, times in queries:
        if (q, by) in done or '\0' in q:
            continue
        done.add((q, by))
        argv = ['search', q] + ([] if by is None else [rng.choice(['-t', '--type']), by])
        cases.append(Case('search-%s-%s' % (by, q.encode().hex()), {}, [Cmd(*argv, look=look) for _ in range(times)]))
    ck.conform(cases)
    return LEVEL, ASSUME, {}


# ------------------------------------------------------------------- C22 ----
def spec_argvs(ck):
    """The argument vectors TLC enumerates in MC_Args."""
    r = ck.model('MC_Args', cfg='MC_Args_deep.cfg' if ck.thorough else 'MC_Args.cfg', workers=4)
    found = sorted(set(re.findall(r'<<\s*"ARGV",\s*"(\[\[[^"]*\]\])"\s*>>', r['out'])))
    if len(found) != r['distinct']:
        raise ToolError('MC_Args printed %d of %d argument vectors' % (len(found), r['distinct']))
    return [[''.join(map(chr, a)) for a in json.loads(f)] for f in found]


def C22(ck):
    rng, cases = ck.rng, []
    look = ['crash', 'exit', 'world', 'asks', 'shown']
    base = {'in.txt': text_file(['Disp "ABC', 'sin(X'], 'PTXT'), 'in.8xp': xp_file(b'\xde\x2aABC\x3f\xc2X', name=b'PEXP'), 'in.83p': old_file(b'\xde\x2aABC', name=b'POLD'), 'd/a.8xp': xp_file(b'\x41', name=b'AA'),
            'd/b.txt': text_file(['Disp '], 'BB'), 'od': Dir(), '-o': b'odd', '-f': b'odd'}
    vectors = spec_argvs(ck)
    total = len(vectors)
    by_cmd = {}
    for v in vectors:
        by_cmd.setdefault(v[0], []).append(v)
    chosen = []
    for c, vs in sorted(by_cmd.items()):
        chosen += vs if len(vs) <= n_of(ck, 260, 6000) else rng.sample(vs, n_of(ck, 260, 6000))
    def fits(argv):
        """Questions are declined unless nothing can be lost by a yes."""
        return rng.choice([b'', b'n\n', b'y\n'])
    def mixed(argv):
        mass = '-m' in argv or '--mass' in argv
        return {k: v for k, v in base.items() if not (mass and False)}
    for n, argv in enumerate(chosen):
        cases.append(Case('vector-%d-%s' % (n, '_'.join(argv)[:60]), mixed(argv), [Cmd(*argv, stdin=fits(argv), look=look)]))
    # all options of convert at once, in random orders; with words that are no options, repeated options, missing values, help
    opts = {'convert': [('-o', '--output', ['out.txt', 'out.8xp', 'out.json', 'od']), ('-d', '--display-mode', MODES + ['bad', '']), ('-e', '--encode-mode', ENCS + ['bad', '']), ('-c', '--content', None), ('-p', '--preview', None), ('-m', '--mass', None)],
            'rename': [('-n', '--name', ['NEW', 'new', '']), ('-f', '--new-file', ['new.8xp', 'in.8xp']), ('-d', '--delete-old', None)],
            'comment': [('-c', '--comment', ['hello', '', '-', '--']), ('-f', '--new-file', ['new.8xp', 'new.txt']), ('-d', '--delete-old', None)],
            'search': [('-t', '--type', ['accessible', 'pretty', 'byte', 'x'])]}
    for c in ('lock', 'unlock', 'archive', 'unarchive'):
        opts[c] = [('-f', '--new-file', ['new.8xp', 'new.83p', 'new.json']), ('-d', '--delete-old', None)]
    for i in range(n_of(ck, 500, 8000)):
        c = rng.choice(['convert'] * 4 + list(opts))
        parts = []
        for o in rng.sample(opts[c], rng.randint(0, len(opts[c]))):
            if o[0] == '-m' and rng.random() < 0.6:
                continue
            parts.append([rng.choice(o[:2])] + ([rng.choice(o[2])] if o[2] else []))
        if rng.random() < 0.12:       # one value for everything
            v = rng.choice([x for o in opts[c] if o[2] for x in o[2]] + ['NEW', 'new.8xp', 'in.8xp', c])
            parts = [[p[0], v] if len(p) == 2 else p for p in parts]
        r = rng.random()
        if r < 0.1 and parts:
            parts.append(rng.choice(parts))
        elif r < 0.2:
            parts.insert(rng.randint(0, len(parts)), [rng.choice(['stray', '-x', '--bogus', '-', '--', '', '-op', '--output=z.txt', '-O', '-ox.txt', '--Output', '\u2013o', '-dti'])])
        elif r < 0.25 and parts and len(parts[-1]) == 2 and parts[-1][0] not in ('-f', '--new-file'):
            parts[-1] = parts[-1][:1]
        elif r < 0.3:
            parts.insert(rng.randint(0, len(parts)), [rng.choice(['-h', '--help'])])
        pos = {'convert': ['in.txt', 'in.8xp', 'in.83p', 'd', 'gone.txt', './in.txt', '{root}/in.8xp'], 'search': ['Disp ', '0xDE', 'sin(', '']}.get(c, ['in.8xp', 'in.83p', 'in.txt', 'gone.8xp', 'd'])
        argv = [c, rng.choice(pos)] + sum(parts, [])
        cases.append(Case('random-%d-%s' % (i, c), mixed(argv), [Cmd(*argv, stdin=rng.choice([b'', b'n\n', b'y\n']), look=look)]))
    for op, o, vs in (('rename', '-n', ['NEW', 'new', 'in']), ('comment', '-c', ['NEW', 'new.8xp', 'in.8xp', 'new.txt', '-f', '-d', '-c', '--new-file'])):
        for v in vs:
            for argv in ([op, 'in.8xp', o, v, '-f', v], [op, 'in.8xp', '-f', v, o, v], [op, v, o, v], [op, 'in.8xp', o, v, '-f', 'new.8xp', '-d'], [op, 'in.8xp', '-d', o, v, '-f', v]):
                cases.append(Case('equal-' + '_'.join(argv), dict(base), [Cmd(*argv, stdin=rng.choice([b'y\n', b'n\n', b'']), look=look)]))
    for v in ('pretty', 'smart', 'out.8xp', 'in.txt', 'in.8xp', 'od', '-o', '-m', '-p'):
        for argv in (['convert', 'in.txt', '-o', v, '-d', v], ['convert', 'in.txt', '-e', v, '-o', v], ['convert', v, '-o', v], ['convert', 'in.8xp', '-d', v, '-e', v, '-o', 'out.txt'], ['convert', v, '-o', v, '-d', v, '-e', v, '-p']):
            cases.append(Case('equal-' + '_'.join(argv), dict(base), [Cmd(*argv, stdin=rng.choice([b'y\n', b'n\n', b'']), look=look)]))
    # the same command in every order of its options: the same files
    for i in range(n_of(ck, 40, 300)):
        parts = [['-o', 'X'], ['-d', rng.choice(MODES)], ['-e', rng.choice(ENCS)], ['-p'], ['-c']]
        chosen_ = rng.sample(parts[1:], rng.randint(1, 4)) + parts[:1]
        orders = list(itertools.permutations(chosen_))
        src, out = rng.choice([('in.txt', '8xp'), ('in.8xp', 'txt'), ('in.txt', 'json'), ('in.8xp', 'json')])
        steps = []
        for k, o in enumerate(rng.sample(orders, min(len(orders), 5))):
            long = {'-o': '--output', '-d': '--display-mode', '-e': '--encode-mode', '-p': '--preview', '-c': '--content'}
            argv = sum([[long[p[0]] if rng.random() < 0.5 else p[0]] + p[1:] for p in o], [])
            argv[argv.index('X')] = 'r%d.%s' % (k, out)
            steps.append(Cmd('convert', src, *argv, look=look))
        cases.append(Case('orders-%d' % i, dict(base), steps, [claim('same', 1, 'r0.' + out, k + 1, 'r%d.%s' % (k, out)) for k in range(1, len(steps))]))
    # defaults: absent and spelled out
    for src, out, o in (('in.8xp', 'txt', ['-d', 'accessible']), ('in.txt', '8xp', ['-e', 'smart']), ('in.8xp', 'json', ['-d', 'accessible', '-e', 'smart']), ('in.txt', 'json', ['-e', 'smart'])):
        cases.append(Case('default-%s-%s' % (src, out), dict(base), [Cmd('convert', src, '-o', 'a.' + out, look=look), Cmd('convert', src, '-o', 'b.' + out, *o, look=look)], [claim('same', 1, 'a.' + out, 2, 'b.' + out)]))
    # what never touches a file
    for argv in ([], ['help'], ['version'], ['models'], ['nope'], [''], ['--help'], ['-h'], ['--version'], ['-v'], ['Convert', 'in.8xp', '-o', 'out.txt'], ['help', 'convert'], ['help', 'nope'], ['help', '-h'], ['models', '-o', 'x.txt'], ['version', 'in.8xp'],
                 ['models', 'in.8xp', '-h'], ['convert'], ['rename'], ['rename', 'in.8xp'], ['comment', 'in.8xp'], ['rename', 'in.8xp', '-n'], ['comment', 'in.8xp', '--comment'], ['convert', '--'], ['convert', '--', '-o', 'out.txt'], ['lock', '--'], ['details'], ['details', '--'], ['search'], ['search', '--'],
                 ['rename', '-n', 'NEW', 'in.8xp'], ['lock'], ['unlock', 'in.8xp', '-d'], ['archive', 'in.8xp', '--delete-old'], ['rename', 'in.8xp', '-n', 'NEW', '-d'], ['comment', 'in.8xp', '-d', '-c', 'x'], ['rename', 'in.8xp', '-d'],
                 ['lock', 'in.8xp', '-h'], ['rename', 'in.8xp', '-n', '-h'], ['convert', 'in.8xp', '-o', '--help'], ['convert', 'in.8xp', '-o', 'out.txt', '--help'], ['comment', 'in.8xp', '-c', '--help', '-f', 'new.8xp']):
        cases.append(Case('idle-' + '_'.join(argv), dict(base), [Cmd(*argv, stdin=b'y\ny\n', look=look)]))
    cases += sessions(ck, n_of(ck, 70, 1500), ['crash', 'exit', 'world', 'asks', 'shown'], ('convert', 'edit', 'mass', 'details'))
    ck.conform(cases)
    return LEVEL, ASSUME, {'argument_vectors_enumerated_by_TLC': total, 'argument_vectors_replayed': len(chosen)}


# ------------------------------------------------------------------- C23 ----
def C23(ck):
    rng, cases = ck.rng, []
    look = ['crash', 'exit', 'shown', 'world']
    def views(label, ext, f, every=False):
        src = 'in.' + ext
        steps = [Cmd('details', src, look=look)] if ext in ('8xp', '83p', '82p') else []
        combos = [(['-c'], []), (['-p'], []), (['-c', '-p'], []), (['-c'], ['o']), (['-p'], ['o']), (['--content', '--preview'], ['o'])]
        for flags, o in combos if every or ck.thorough else rng.sample(combos, 2):
            steps.append(Cmd('convert', src, *flags, '-d', rng.choice(MODES), '-e', rng.choice(ENCS), *(['-o', 'o%d.%s' % (len(steps), rng.choice(['8xp', 'txt', 'json', '83p']))] if o else []), look=look))
        cases.append(Case(label, {src: f}, steps))
    for i in range(n_of(ck, 130, 1500)):
        f, model, kw = rand_xp(rng)
        views('8xp-%d-%s' % (i, model), '8xp', f if rng.random() < 0.7 else misstate(rng, f))
    for label, ext, f, model in old_programs(rng, n_of(ck, 40, 500)):
        views('old-' + label, ext, f)
    for i, f, model, mode, enc in text_inputs(ck, n_of(ck, 60, 800), 8):
        views('text-%d-%s-%s' % (i, model, mode), 'txt', f)
    raws = [r for r in json_exports(ck, [('8xp', rand_xp(rng)[0]) for _ in range(n_of(ck, 30, 300))]) if r]
    for k, raw in enumerate(raws):
        views('json-%d' % k, 'json', raw)
    for n in range(0, 40):                      # around the ends of the rows of 16
        views('size-%d' % n, '8xp', xp_file(b'\x41' * n), every=(n % 8 == 0))
        views('osize-%d' % n, '83p', old_file(b'\x41' * n))
    for n in range(0, 36):
        for k, last in enumerate([0, 0x0d, 0xff, 0x10]):
            if ck.thorough or k == n % 4 or k == 0 and n % 16 in (3, 4, 5, 6):
                views('last-%d-%d' % (n, last), '8xp', xp_file(bytes([rng.choice([0x41, 0x3f])]) * n, check=rng.randint(0, 255) + 256 * last), every=True)
    for n in (255, 256, 1000) + ((30000, 65516) if ck.thorough else (6000,)):
        views('long-%d' % n, '8xp', xp_file(b'\x41' * n), every=True)
    for n in (65536 - 76, 65516):
        cases.append(Case('wide-%d' % n, {'in.8xp': xp_file(b'\x41' * n)}, [Cmd('convert', 'in.8xp', '-p', look=look), Cmd('details', 'in.8xp', look=look)]))
    for ft in FTYPES.values():
        for dest in (0, 128):
            views('field-%d-%d' % (ft, dest), '8xp', xp_file(b'\x41', ftype=ft, dest=dest))
    for b in range(0, 256, 1 if ck.thorough else 5):
        views('byte-%02x' % b, '8xp', xp_file(b'\x41', name=bytes([b or 65, 66]), comment=bytes([b or 1]) * 3, flag=b, unk=255 - b, version=b, extra=bytes([b, 255 - b]), check=b * 257))
    for label, body in (('empty', b''), ('newlines', b'\x3f\x3f\x41\x3f\x3f'), ('brackets', b'\x06\x41\x07\x06\x3e\x07')):
        views(label, '8xp', xp_file(body), every=True)
    for m in MODELS:
        views('model-' + m, 'txt', text_file(['A', '', 'B', ''], 'AB', model=m))
    for name, f in fixtures().items():
        views('fixture-' + name, name.rsplit('.', 1)[1], f, every=True)
    # several programs one after the other
    for i in range(n_of(ck, 40, 400)):
        flags = rng.choice([['-c'], ['-p'], ['-c', '-p']])
        files = {'in/z.bin': b'x'}
        for k in range(rng.randint(0, 4)):
            ext = rng.choice(['8xp', '8xp', '83p', '82p', 'txt'] + ([] if '-c' in flags else ['json']))
            files['in/f%d.%s' % (k, ext)] = rng.choice(raws) if ext == 'json' else text_file(['A', 'B'], 'T') if ext == 'txt' else any_program(rng, ext)
        cases.append(Case('several-%d' % i, files, [Cmd('convert', 'in', '-m', *flags, '-d', rng.choice(MODES), look=look)]))
    # after an edit
    for i in range(n_of(ck, 40, 500)):
        ext = rng.choice(['8xp', '83p', '82p'])
        steps = []
        for _ in range(rng.randint(1, 3)):
            steps.append(Cmd(*edit_argv(*rand_edit(rng), 'in.' + ext), stdin=b'y\n', look=['crash', 'exit', 'world']))
        steps += [Cmd('details', 'in.' + ext, look=look), Cmd('convert', 'in.' + ext, '-c', '-p', look=look)]
        cases.append(Case('edited-%d' % i, {'in.' + ext: any_program(rng, ext)}, steps))
    for c in ['help', 'version', 'convert', 'search', 'rename', 'comment', 'lock', 'unlock', 'archive', 'unarchive', 'details', 'models', 'nope', '']:
        cases.append(Case('help-' + c, {'in.8xp': xp_file(b'\x41')}, [Cmd('help', c, look=look), Cmd(c, '--help', look=look if c not in ('nope', '') else ['crash', 'exit', 'world']), Cmd(c, 'in.8xp', '-h', look=['crash', 'exit', 'world', 'shown'] if c not in ('nope', '') else ['crash', 'exit', 'world'])]))
    for argv in ([], ['help'], ['version'], ['models'], ['version', 'x'], ['models', 'x', '-y']):
        cases.append(Case('plain-' + '_'.join(argv), {'in.8xp': xp_file(b'\x41')}, [Cmd(*argv, look=look)]))
    cases += sessions(ck, n_of(ck, 70, 1500), ['crash', 'exit', 'shown', 'world'], ('convert', 'edit', 'details', 'mass'))
    ck.conform(cases)
    return LEVEL, ASSUME + ['colours and the layout of help are not compared'], {}


# ------------------------------------------------------------------- C24 ----
STYLED = ['[', ']', '[]', '][', '[[', ']]', ':', '[:]', '[a:b]', '[a:b:c]', '[color]', '[color:]', '[color:red]', '[color:red', 'color:red]', '[bg:blue]x', '[style:bold]x[style:reset]', '[color:red][x', '[[color:red]]', '[color:[x]]',
          '[x[color:red]y', 'a[b]c', 'a[b:c]d', '[color:red:blue]', '[:color:red]', '[Color:red]', '[color: red]', '[ color:red]', '\u03b8', '[\u03b8]', '[\u03b8:\u00e9]', '[color:\u03b8]', '\u00e9[', '[\u00e9', ']\u00e9[', '\u4e2d[a', '[\U0001f600:', 'e\u0301[x]', '%s', '{}', '{0}', '{{', '\\', '\\n', '\t', '$HOME', '`', "'", '"', '\u200b', '\u202e']


def C24(ck):
    rng, cases = ck.rng, []
    look = ['crash', 'exit', 'message', 'failure']
    def text(n=3):
        return ''.join(rng.choice(STYLED + ['a', 'b ', 'Z', '-']) for _ in range(rng.randint(1, n)))
    def short(s, top):
        while len(s.encode()) > top:
            s = s[:-1]
        return s
    styled = STYLED + [text() for _ in range(n_of(ck, 120, 2500))]
    for i, s in enumerate(styled):
        ext = rng.choice(['8xp', '83p', '82p'])
        src = 'in.' + ext
        p = short(s.replace('/', '_'), 100)
        f = any_program(rng, ext)
        cases.append(Case('comment-%d' % i, {src: f}, [Cmd('comment', src, '-c', short(s, 42), '-f', 'out.' + ext, look=look), Cmd('details', 'out.' + ext, look=look + ['shown']), Cmd('comment', src, '-c', s * 20, '-f', 'out2.' + ext, look=look)]))
        cases.append(Case('rename-%d' % i, {src: f}, [Cmd('rename', src, '-n', s, '-f', 'out.' + ext, look=look)]))
        # paths made of it
        steps = [Cmd('convert', src, '-o', p + '.' + rng.choice(['txt', '8xp', 'json']), '-d', rng.choice(MODES), look=look), Cmd('convert', src, '-o', p, look=look), Cmd('convert', p + 'gone.8xp', '-o', 'x.txt', look=look),
                 Cmd('details', p + '.8xp', look=look), Cmd('lock', src, '-f', p + '/x.8xp', look=look), Cmd('convert', src, '-o', 'o.' + p, look=look)]
        cases.append(Case('path-%d' % i, {src: f}, rng.sample(steps, 3)))
        # names in the file made of it
        raw = short(s, 8).encode()
        g = xp_file(b'\x41', name=raw, comment=short(s, 42).encode())
        cases.append(Case('name-%d' % i, {'in.8xp': g, 'd/in.8xp': g, 'o': Dir()}, [Cmd('convert', 'in.8xp', '-o', 'out.txt', look=look), Cmd('details', 'in.8xp', look=look + ['shown']), Cmd('convert', 'd', '-m', '-o', 'o', look=['crash', 'exit', 'message']), Cmd('archive', 'in.8xp', '-f', 'out.8xp', look=look),
                                                                                    Cmd('convert', 'in.8xp', '-p', look=look + ['shown'])]))
        cases.append(Case('text-%d' % i, {'in.txt': text_file(['A'], 'AB', comment=short(s, 42).replace('\n', ' ')), 'b.txt': text_file([s], 'AB'), 'c.txt': text_file(['A'], s), 'd.txt': text_file(['A'], model=s), 'e.txt': text_file(['A'], dest=s)},
                          [Cmd('convert', rng.choice(['in.txt', 'b.txt', 'c.txt', 'd.txt', 'e.txt']), '-o', 'out.8xp', look=look) for _ in range(2)] + [Cmd('convert', 'in.txt', '-p', '-c', look=look + ['shown'])]))
        cases.append(Case('word-%d' % i, {src: f}, [Cmd(s, src, look=['crash', 'exit', 'untouched']), Cmd('search', s, look=['crash', 'exit', 'message']), Cmd('convert', src, '-o', 'a.txt', '-d', s, look=look), Cmd('search', 'Disp ', '-t', s, look=['crash', 'exit', 'message']),
                                                    Cmd('help', 'x' + s, look=['crash', 'exit', 'untouched'])]))
    # exit statuses over everything a command can meet
    base = {'in.8xp': xp_file(b'\x41', name=b'AA'), 'in.83p': old_file(b'\x41', name=b'AA'), 'in.txt': text_file(['A'], 'AA'), 'bad.8xp': b'junk', 'bad.txt': b'junk', 'bad.json': b'{}', 'there.8xp': b'x', 'there.txt': b'y', 'dir.8xp': Dir(), 'd/a.8xp': xp_file(b'\x41', name=b'AA'), 'od': Dir(), 'odd': b'f'}
    outs = [None, 'new.8xp', 'new.txt', 'new.json', 'new.83p', 'there.8xp', 'there.txt', 'dir.8xp', 'new', 'new.exe', 'no/new.8xp', 'odd/new.8xp', '', 'in.8xp', 'in.txt', '.8xp', 'new.']
    ins = ['in.8xp', 'in.83p', 'in.txt', 'bad.8xp', 'bad.txt', 'bad.json', 'gone.8xp', 'dir.8xp', 'd', 'odd', 'in.8xp/', '', 'gone']
    def answers():
        return rng.choice([b'', b'y\n', b'n\n', b'Y\n', b'yes\n', b' y\n', b'\xff\n'])
    for i in range(n_of(ck, 420, 6000)):
        c = rng.choice(['convert', 'convert', 'convert', 'rename', 'comment', 'lock', 'unlock', 'archive', 'unarchive', 'details', 'search'])
        src, out = rng.choice(ins[:6] * 3 + ins), rng.choice(outs)
        if c == 'convert':
            argv = [c, src] + (['-o', out] if out is not None else []) + rng.sample(['-p', '-c'], rng.randint(0, 1)) + rng.choice([[], [], ['-d', rng.choice(MODES + ['x'])], ['-e', rng.choice(ENCS + ['x'])]]) + (['-m'] if rng.random() < 0.15 else [])
        elif c == 'details':
            argv = [c, src]
        elif c == 'search':
            argv = [c, rng.choice(['Disp ', '0xDE', 'nope', ''])] + rng.choice([[], ['-t', 'byte'], ['-t', 'x']])
        else:
            argv = list(edit_argv(c, {'rename': rng.choice(['AB', 'A1', 'ABCDEFGHI', '']), 'comment': rng.choice(['x', 'x' * 43])}.get(c, ''), src)) + (['-f', out] if out is not None else []) + rng.choice([[], [], ['-d']])
        cases.append(Case('status-%d-%s' % (i, c), dict(base), [Cmd(*argv, stdin=answers(), look=['crash', 'exit', 'message'])]))
    for i, (label, files, argv, stdin) in enumerate(permission_cases(ck, n_of(ck, 160, 2500))):
        cases.append(Case('denied-%d-%s' % (i, label), files, [Cmd(*argv, stdin=stdin, look=['crash', 'exit', 'message'])]))
    for label, files, argv, stdin in long_paths(ck, n_of(ck, 80, 1200)):
        cases.append(Case(label, files, [Cmd(*argv, stdin=stdin, look=['crash', 'exit', 'message'])]))
    newest, defined = table(9999999), defined_keys()
    nameless = sorted(k for k in newest if k not in defined)
    for k in rng.sample(nameless, min(len(nameless), n_of(ck, 100, 10000))) + rng.sample(sorted(newest), n_of(ck, 120, len(newest))):
        by = rng.choice(['byte', 'accessible', 'pretty', None])
        q = '0x' + bytes(k).hex().upper() if by == 'byte' else newest[k]['pretty' if by == 'pretty' else 'accessible']
        cases.append(Case('search-%s-%s' % (bytes(k).hex(), by), {}, [Cmd('search', q, *([] if by is None else ['-t', by]), look=['crash', 'exit', 'message'])]))
    cases += sessions(ck, n_of(ck, 70, 1500), ['crash', 'exit', 'message', 'failure'], ('convert', 'edit', 'mass', 'details'))
    ck.conform(cases)
    return LEVEL, ASSUME + ['messages with raw escape characters in the arguments are not compared'], {}


# ------------------------------------------------------------------- C25 ----
def pairs(ck):
    """[(label, files, first command, second command)]: commands whose files meet"""
    rng = ck.rng
    p = xp_file(rand_body(rng, 40, 30), b'PROG', b'one', pid=10)
    q = xp_file(rand_body(rng, 40, 30), b'QUAD', b'two', pid=10)
    t = text_file(text_lines(rng, 40, 'accessible', 4), 'TEXT', model='TI-84+')
    o = old_file(rand_body(rng, 30, 20), b'OLD')
    j = json_exports(ck, [('8xp', q)])[0]
    base = {'p.8xp': p, 'q.8xp': q, 't.txt': t, 'd': Dir(), 'd/r.8xp': q, 'l.8xp': Link('d/r.8xp')}
    mass = dict(base, **{'in/a.8xp': p, 'in/b.txt': t, 'in/c.83p': old_file(rand_body(rng, 20, 20), b'CC')})
    y = b'y\n'
    def answer():
        return rng.choice([y] * 6 + [b'n\n', b''])
    def edit(op, src, *more):
        return (list(edit_argv(op, rng.choice(['NEW', 'ABCDEFGH', 'x']), src, *more)), answer())
    def conv(src, dst, *more):
        return (['convert', src, '-o', dst, *more], answer())
    def ops():
        return rng.choice(FIELD_EDITS)
    def ext():
        return rng.choice(['8xp', '8xp', '83p', 'txt', 'json'])
    def bulk(src, dst):
        return (['convert', src, '-m', '-o', dst], rng.choice([y * 9, y * 9, b'n\ny\n' * 6, b'n\n', b'']))
    e, old = ext(), b'precious' * 3
    there = lambda path: rng.choice([{}, {path: old}])
    out = []
    add = lambda label, files, a, b: out.append((label, files, a, b))
    add('sameoutput', {**base, **there('o.' + e)}, conv('p.8xp', 'o.' + e), conv('q.8xp', 'o.' + e))
    add('textoutput', {**base, **there('o.8xp')}, conv('p.8xp', 'o.8xp'), conv('t.txt', 'o.8xp'))
    add('edits', base, edit(ops(), 'p.8xp'), edit(ops(), 'p.8xp'))
    add('editconvert', base, edit(ops(), 'p.8xp'), conv('p.8xp', 'o.' + ext()))
    add('convertinto', base, conv('q.8xp', 'p.8xp'), edit(ops(), 'p.8xp'))
    e = ext()
    add('chain', {**base, **rng.choice([{}, {'o.8xp': q}])}, conv('p.8xp', 'o.8xp'), conv('o.8xp', 'z.' + e))
    add('textchain', {**base, **rng.choice([{}, {'o.txt': t}])}, conv('p.8xp', 'o.txt'), conv('o.txt', 'z.8xp'))
    add('jsonchain', base, conv('p.8xp', 'o.json'), conv('o.json', 'z.8xp'))
    add('moveread', base, edit(ops(), 'p.8xp', '-f', 'o.8xp', '-d'), conv('p.8xp', 'z.' + ext()))
    add('moves', base, edit(ops(), 'p.8xp', '-f', 'o.8xp', '-d'), edit(ops(), 'p.8xp', '-f', 'z.8xp', '-d'))
    add('movesame', base, edit(ops(), 'p.8xp', '-f', 'o.8xp', '-d'), edit(ops(), 'q.8xp', '-f', 'o.8xp', '-d'))
    add('swap', base, edit(ops(), 'p.8xp', '-f', 'q.8xp'), edit(ops(), 'q.8xp', '-f', 'p.8xp'))
    add('moveswap', base, edit(ops(), 'p.8xp', '-f', 'q.8xp', '-d'), edit(ops(), 'q.8xp', '-f', 'p.8xp', '-d'))
    add('follow', base, edit(ops(), 'p.8xp', '-f', 'o.8xp', '-d'), edit(ops(), 'o.8xp'))
    add('link', base, edit(ops(), 'l.8xp'), edit(ops(), 'd/r.8xp'))
    add('linkconvert', base, conv('p.8xp', 'l.8xp'), conv('d/r.8xp', 'o.' + ext()))
    add('linkmove', base, edit(ops(), 'd/r.8xp', '-f', 'o.8xp', '-d'), edit(ops(), 'l.8xp', '-f', 'z.8xp'))
    add('reader', base, edit(ops(), 'p.8xp'), (['details', 'p.8xp'], b''))
    add('apart', base, conv('p.8xp', 'o.' + ext()), conv('q.8xp', 'z.' + ext()))
    add('masses', {**mass, 'out': Dir(), **there('out/PROG.txt')}, bulk('in', 'out'), bulk('in', 'out'))
    add('massesnew', mass, bulk('in', 'out'), bulk('in', 'out'))
    add('massedit', {**mass, 'out': Dir()}, bulk('in', 'out'), edit(ops(), 'in/a.8xp'))
    add('massmove', {**mass, 'out': Dir()}, bulk('in', 'out'), edit(ops(), 'in/c.83p', '-f', 'in/d.83p', '-d'))
    add('massone', {**mass, 'out': Dir()}, bulk('in', 'out'), conv('p.8xp', 'out/PROG.txt'))
    # a file is replaced while it is read
    replace = lambda src, dst: (['convert', src, '-o', dst], y)
    for e, content in (('txt', t), ('json', j), ('8xp', q), ('83p', o)):
        add('read' + e, {**base, 'o.' + e: content}, replace('p.8xp', 'o.' + e), conv('o.' + e, 'z.' + ('txt' if e != 'txt' else '8xp')))
    add('readmass', {**mass, 'out': Dir()}, replace('q.8xp', 'in/b.txt'), bulk('in', 'out'))
    add('massback', {**mass, 'out': Dir(), 'out/q.8xp': q}, bulk('in', 'out'), bulk('out', 'in'))
    return out


def long_paths(ck, count):
    """[(label, files, argv, stdin)]: names and paths about as long as the system allows"""
    rng, out, deep = ck.rng, [], 'd/' + 'x' * 255 + '/../../'
    export = json_exports(ck, [('8xp', any_program(rng, '8xp'))])[0]
    for i in range(count):
        def name(ext):
            n = rng.choice([100, 200, 231, 240, 247, 248, 250, 251, 252, 253, 254, 255, 255, 255, 256, 257, 300])
            letter = rng.choice(['a', 'a', 'É', '€'])
            k = n - len(ext) - 1
            return letter * (k // len(letter.encode())) + 'b' * (k % len(letter.encode())) + '.' + ext
        def around(path, longest=deep * 15):
            return rng.choice([''] * 5 + ['./', 'd/../', deep, longest, longest, deep * 17]) + path
        e, f = rng.choice(['8xp', '8xp', '83p', 'txt', 'json']), rng.choice(['8xp', '8xp', '82p', 'txt', 'json'])
        src, dst = 'in.' + e if rng.random() < 0.5 or e == 'json' else name(e), name(f) if rng.random() < 0.8 else 'o.' + f
        content = text_file(['A'], 'TEXT') if e == 'txt' else any_program(rng, e) if e != 'json' else export
        files = {'d': Dir(), 'd/' + 'x' * 255: Dir(), 'o': Dir()}
        if len(src.encode()) <= 255:
            files[src] = content
        if rng.random() < 0.4 and len(dst.encode()) <= 255:
            files[dst] = b'old' if rng.random() < 0.7 else Link('d/' + name(f))
        stdin = rng.choice([b'y\n', b'y\n', b'n\n', b''])
        kind = rng.choice(['convert', 'convert', 'edit', 'move', 'place', 'mass'])
        if kind == 'convert':
            argv = ['convert', around(src), '-o', around(dst)]
        elif kind == 'mass':
            nameless = {'in/' + n: xp_file(b'\x41', name=rng.choice([b'', b'..', b'AB'])) if n.endswith('8xp') else text_file(['A'], 'CD') if n.endswith('txt') else old_file(b'\x42', name=b'')
                        for n in {name(rng.choice(['8xp', '83p', 'txt'])) for _ in range(2)} if len(n.encode()) <= 255}
            files.update(nameless, **{'in/z.exe': b'x'})
            argv, stdin = ['convert', around('in', deep), '-m', '-o', around(rng.choice(['o', 'o', name('dir')]), deep)], b'y\n' * 5
        elif kind == 'place':
            argv = list(edit_argv(rng.choice(FIELD_EDITS), 'XY', around(src)))
        else:
            argv = list(edit_argv(rng.choice(FIELD_EDITS), 'XY', around(src), '-f', around(dst))) + (['-d'] if kind == 'move' else [])
        out.append(('long-%d-%s' % (i, kind), files, argv, stdin))
    return out


def threes(ck):
    """As pairs, with three commands"""
    rng = ck.rng
    p = xp_file(rand_body(rng, 40, 30), b'PROG', b'one', pid=10)
    q = xp_file(rand_body(rng, 40, 30), b'QUAD', b'two', pid=10)
    t = text_file(text_lines(rng, 40, 'accessible', 4), 'TEXT', model='TI-84+')
    files = {'p.8xp': p, 'q.8xp': q, 't.txt': t, 'in/a.8xp': q, 'in/b.txt': t, 'out': Dir()}
    y = b'y\n'
    edit = lambda src, *more: (list(edit_argv(rng.choice(FIELD_EDITS), rng.choice(['NEW', 'x']), src, *more)), y)
    conv = lambda src, dst: (['convert', src, '-o', dst], y)
    bulk = lambda src, dst: (['convert', src, '-m', '-o', dst], y * 9)
    e = rng.choice(['8xp', 'txt', 'json', '83p'])
    return [('three-same', files, conv('p.8xp', 'o.8xp'), conv('q.8xp', 'o.8xp'), conv('t.txt', 'o.8xp')),
            ('three-over', {**files, 'o.' + e: b'old'}, conv('p.8xp', 'o.' + e), conv('q.8xp', 'o.' + e), conv('q.8xp', 'o.' + e)),
            ('three-chain', {**files, 'o.8xp': p}, conv('q.8xp', 'o.8xp'), conv('o.8xp', 'o.txt'), conv('o.txt', 'z.8xp')),
            ('three-edits', files, edit('p.8xp'), edit('p.8xp'), edit('p.8xp', '-f', 'q.8xp', '-d')),
            ('three-moves', files, edit('p.8xp', '-f', 'n.8xp', '-d'), edit('q.8xp', '-f', 'p.8xp', '-d'), edit('n.8xp', '-f', 'q.8xp', '-d')),
            ('three-mass', files, bulk('in', 'out'), edit('in/a.8xp'), conv('p.8xp', 'out/TEXT.8xp')),
            ('three-new', {k: v for k, v in files.items() if k != 'out'}, bulk('in', 'out'), bulk('in', 'out'), conv('p.8xp', 'in/a.8xp'))]


def C25(ck):
    rng = ck.rng
    ck.model('MC_Pair')
    ck.model('MC_Pair', cfg='MC_Pair_three.cfg')
    ck.model('MC_Pair', cfg='MC_Pair_apart.cfg')
    for wrong in ('shared', 'single', 'direct'):
        ck.must_fail('MC_Pair', 'MC_Pair_%s.cfg' % wrong)
    shim = ck.shim()
    cases = []
    for k in range(n_of(ck, 2, 12)):
        found = pairs(ck)
        alone = ck.file_operations([Case(label, files, [Cmd(*argv, stdin=stdin)]) for label, files, *both in found for argv, stdin in both])
        for n, (label, files, a, b) in enumerate(found):
            counts = [len(alone[2 * n]), len(alone[2 * n + 1])]
            for first in (1, 2):
                other = 3 - first
                plans = [({first: [i]}, [first, other]) for i in range(1, counts[first - 1] + 1)]
                if len(plans) > 16 and not ck.thorough:
                    plans = rng.sample(plans, 16)
                for _ in range(n_of(ck, 5, 20)):
                    if counts[0] and counts[1]:
                        i, h = rng.randint(1, counts[first - 1]), rng.randint(1, counts[other - 1])
                        plans.append(({first: [i], other: [h]}, [first, other, first, other]))
                        more = sorted(rng.sample(range(1, counts[first - 1] + 1), min(2, counts[first - 1])))
                        plans.append(({first: more, other: [h]}, [first, other, first, other, first]))
                kills = [rng.choice(['before', 'after', 'mid']) for _ in range(n_of(ck, 2, 8) if min(counts) else 0)]
                for n_plan, (pauses, turns) in enumerate(plans + [({first: [rng.randint(1, counts[first - 1])], other: [rng.randint(1, counts[other - 1])]}, [other, first, other]) for _ in kills]):
                    kill = kills[n_plan - len(plans)] if n_plan >= len(plans) else 'pause'      # the first dies while the other is in the middle
                    # the same process id is possible in different containers
                    same = {'TT_PID': '7'} if rng.random() < 0.5 else {}
                    steps = []
                    for who, (argv, stdin) in ((1, a), (2, b)):
                        env = {'LD_PRELOAD': shim, 'TT_ROOT': '{root}', 'TT_FAULT': ','.join('%s:%d:0' % (kill if who == first else 'pause', i) for i in pauses.get(who, [])), **same}
                        steps.append(Cmd(*argv, stdin=stdin, look=['world', 'exit', 'asks'], env=env))
                    cases.append(Case('%s-%d-%s-%s%s' % (label, k, first, '-'.join('%d.%s' % (w, '+'.join(map(str, l))) for w, l in sorted(pauses.items())) + ('-' + kill) * (kill != 'pause'), '-same' if same else ''), files, steps, turns=turns))
    # three at a time
    trios = []
    for k in range(n_of(ck, 2, 10)):
        for label, files, *three in threes(ck):
            alone = ck.file_operations([Case(label, files, [Cmd(*argv, stdin=stdin)]) for argv, stdin in three])
            for n in range(n_of(ck, 25, 120)):
                same = {'TT_PID': '7'} if rng.random() < 0.5 else {}
                steps = []
                for (argv, stdin), ops in zip(three, alone):
                    at = sorted(rng.sample(range(1, len(ops) + 1), min(len(ops), rng.choice([0, 1, 1, 2]))))
                    kinds = [rng.choice(['pause'] * 12 + ['before', 'after']) for _ in at]
                    steps.append(Cmd(*argv, stdin=stdin, look=['world', 'exit', 'asks'], env={'LD_PRELOAD': shim, 'TT_ROOT': '{root}', 'TT_FAULT': ','.join('%s:%d:0' % x for x in zip(kinds, at)), **same}))
                turns = [1, 2, 3] * 3
                rng.shuffle(turns)
                trios.append(Case('%s-%d-%d' % (label, k, n), files, steps, turns=turns))
    ck.details['schedules'], ck.details['schedules_of_three'] = len(cases), len(trios)
    ck.conform(cases + trios, module='Trace_Pair')
    return LEVEL, ASSUME + ['one of the commands runs at a time, and changes over before a file operation'], {}
