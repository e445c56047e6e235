"""Generators of inputs.  They use the specification's copy of the token sheet; they never decide a verdict."""
import json, os
from tt import SPEC

ORDERS = {'TI-82': 10, 'TI-83': 20, 'TI-82ST': 20, 'TI-82ST.fr': 20, 'TI-76.fr': 20, 'TI-83+': 30, 'TI-83+SE': 30,
          'TI-83+.fr': 30, 'TI-82+': 30, 'TI-84+': 40, 'TI-84+SE': 40, 'TI-83+.fr:USB': 40, 'TI-84P.fr': 40, 'TI-84+PSE': 40,
          'TI-82A': 45, 'TI-84+T': 45, 'TI-84+CSE': 50, 'TI-84+CE': 60, 'TI-84+CET': 60, 'TI-83PCE': 60, 'TI-83PCEEP': 60,
          'TI-84+CEPY': 60, 'TI-84+CETPE': 60, 'TI-82AEP': 60, 'latest': 9999999}
MODELS = list(ORDERS)
# one model per generation, and what identifies it in a program file
FILE_MODELS = {'TI-82': (0, b'**TI82**'), 'TI-83': (0, b'**TI83**'), 'TI-83+': (4, b'**TI83F*'), 'TI-84+': (10, b'**TI83F*'),
               'TI-82A': (11, b'**TI83F*'), 'TI-84+CSE': (15, b'**TI83F*'), 'TI-84+CE': (19, b'**TI83F*'),
               'TI-84+T': (27, b'**TI83F*'), 'latest': (0, b'**TI83F*')}
MODES = ['pretty', 'accessible', 'ti']
ENCS = ['min', 'max', 'smart']
FTYPES = {'Program': 5, 'Locked Program': 6, 'Group': 0x17, 'Flash Application': 0x24}
DESTS = {'RAM': 0, 'Archive': 0x80}

SHEET = [json.loads(l) for l in open(SPEC + '/data/sheet.ndjson')]


def ver(v):
    s = ''.join(map(chr, v))
    return (1, ()) if s == 'latest' else (0, tuple(int(x) if x.isdigit() else 0 for x in s.split('.')))


_tables = {}


def table(order):
    """{key: {mode: name}} of a generation at its latest version"""
    if order not in _tables:
        t, target = {}, (order, (1, ()))
        for e in SHEET:
            since = (ORDERS[e['since']['model']], ver(e['since']['version']))
            until = (ORDERS[e['until']['model']], ver(e['until']['version'])) if e['until']['model'] else None
            if since <= target and (until is None or until >= target):
                t[tuple(e['key'])] = {m: ''.join(map(chr, e[m])) for m in MODES}
        _tables[order] = t
    return _tables[order]


_names = {}


def names(order, mode):
    k = (order, mode)
    if k not in _names:
        d = {}
        for key, n in table(order).items():
            d.setdefault(n[mode][0], []).append(n[mode])
        _names[k] = d
    return _names[k]


def encodable(line, order, mode, longest=True):
    """Rough forecast, to keep most generated files acceptable."""
    d = names(order, mode)
    i = 0
    line = line.replace('\u0398', '\u03b8').replace('\u03f4', '\u03b8').replace('\u1dbf', '\u03b8')
    while i < len(line):
        c = [n for n in d.get(line[i], ()) if line.startswith(n, i)]
        if not c:
            return False
        i += len(max(c, key=len) if longest else min(c, key=len))
    return True


# --------------------------------------------------------------- bodies ----
def rand_keys(rng, order, n, two=0.4):
    t = list(table(order))
    ones, twos = [k for k in t if len(k) == 1], [k for k in t if len(k) == 2]
    return [rng.choice(twos if twos and rng.random() < two else ones) for _ in range(n)]


def body_of(keys):
    return bytes(b for k in keys for b in k)


def rand_body(rng, order, n, two=0.4, newline=0.08):
    return body_of([(0x3f,) if rng.random() < newline else k for k in rand_keys(rng, order, n, two)])


# ---------------------------------------------------------------- texts ----
def rand_line(rng, order, mode, size):
    """A line made of names, pieces of names, letters, quotes and the tokens smart mode cares about."""
    t = table(order)
    keys = list(t)
    special = [k for k in ((0x2a,), (0x2a,), (0x5f,), (0xeb,), (0x04,), (0xe7,), (0x29,), (0x2b,), (0x30,)) if k in t]
    out = []
    for _ in range(size):
        r = rng.random()
        if r < 0.35:
            out.append(t[rng.choice(keys)][mode])
        elif r < 0.6:
            out.append(t[rng.choice(special)][mode])
        elif r < 0.7 and mode != 'ti':
            n = t[rng.choice(keys)][mode]
            out.append(n[:rng.randint(1, len(n))])
        elif mode != 'ti':
            out.append(''.join(rng.choice('ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz') for _ in range(rng.randint(1, 3))))
        else:
            out.append(t[rng.choice([k for k in keys if len(k) == 1])][mode])
    return ''.join(out).replace('\n', '')


def alpha_words(order, mode):
    """Names made of ASCII letters only: they keep a quoted run of shortest matches going."""
    return [n[mode] for n in table(order).values() if n[mode].isascii() and n[mode].isalpha()]


def smart_line(rng, order, mode):
    """A line that exercises the smart mode state machine: quotes, prgm, the small L, store arrows, words."""
    t = table(order)
    words = alpha_words(order, mode)
    multi = [w for w in words if len(w) > 1]
    g = lambda k: t[k][mode] if k in t else ''
    out = []
    for _ in range(rng.randint(2, 10)):
        r = rng.random()
        if r < 0.22:
            out.append(g((0x2a,)))
        elif r < 0.32:
            out.append(g((0x5f,)))
        elif r < 0.40:
            out.append(g((0xeb,)))
        elif r < 0.50:
            out.append(g((0x04,)))
        elif r < 0.56:
            out.append(g((0xe7,)))
        elif r < 0.80:
            out.append(rng.choice(multi or words or ['']))
        elif r < 0.9:
            out.append(t[rng.choice(list(t))][mode])
        else:
            out.append(g(rng.choice([(0x29,), (0x2b,), (0x31,), (0x10,), (0x41,)])))
    return ''.join(out).replace('\n', '')


FOREIGN = ['\t', '\r', '\0', '\x0b', '\x0c', '\x1b', '\x7f', '\x85', '\u00a0', '\u2028', '\u200b', '\ufeff', '\u00e9', '\u4e2d', '\U0001f600', '~', '`', '^^', '|', '#', '@', '$', ';', '_',
           '\uff21', '\u212f', '\u2212', '\u2261', '\u03a3x', 'e\u0301', '\u00b2\u00b2', '\\', '\u2003', '  ', '\t\t', '\u2019', '\u201c', '\u2010']


def foreign(rng, line):
    """The line with something in it that most models have no token for."""
    k = rng.choice([0, len(line), rng.randint(0, len(line))])
    return line[:k] + rng.choice(FOREIGN) * rng.choice([1, 1, 1, 2, 9]) + line[k:]


def recased(rng, line):
    return rng.choice([line.upper(), line.lower(), line.swapcase(), line.title()])


def broken_runs(rng, order, mode, count=None):
    """Quoted runs, calls and list names in which every single character comes between a letter and a longer word."""
    t = table(order)
    words = [w for w in alpha_words(order, mode) if len(w) > 1] + [n[mode] for n in t.values() if len(n[mode]) > 2 and n[mode][-1] == '(' and n[mode][:-1].isascii() and n[mode][:-1].isalpha()]
    chars = sorted({n[mode] for n in t.values() if len(n[mode]) == 1 and n[mode] != '\n'} | {n[mode] for n in t.values() if len(n[mode]) == 2 and not n[mode].isalpha() and '\n' not in n[mode]})
    starts = [''.join(t[k][mode] for k in ks if k in t) for ks in (((0x2a,),), ((0x5f,),), ((0xeb,),), ((0x5f,), (0x2a,)), ((0x04,),))]
    out = []
    for c in chars if count is None else rng.sample(chars, min(count, len(chars))):
        w, v = rng.choice(words), rng.choice(words)
        line = starts[0] + rng.choice(['A', 'A', '', w]) + c + rng.choice(['', 'A']) + v
        if rng.random() < 0.25:
            line = rng.choice(starts) + 'A' + c + w
        if encodable(line, order, mode) and encodable(line, order, mode, False):
            out.append(line)
    return out


def text_lines(rng, order, mode, count, size=8, theta=0.02, keep=True):
    out = []
    while len(out) < count:
        r = rng.random()
        if r < 0.07:
            line = ''
        elif r < 0.45:
            line = smart_line(rng, order, mode)
        elif r < 0.5 and mode != 'ti':
            line = recased(rng, rand_line(rng, order, mode, 2))
        elif r < 0.58 and mode != 'ti':
            line = ''.join(broken_runs(rng, order, mode, 2))
        else:
            line = rand_line(rng, order, mode, rng.randint(1, size))
        if mode != 'ti' and rng.random() < theta:
            line += rng.choice('\u0398\u03f4\u1dbf\u03b8')
        if keep and not (encodable(line, order, mode) and encodable(line, order, mode, False)):
            continue
        out.append(line)
    return out


def text_file(lines, name='PROG', ftype='Program', dest='RAM', mode='accessible', model='latest', comment='c', eol='\n', end=True):
    t = eol.join([name, comment, ftype, dest, mode, model] + list(lines))
    return (t + (eol if end else '')).encode('utf-8', 'surrogateescape')


# -------------------------------------------------------- program files ----
def le(n):
    return bytes([n & 255, (n >> 8) & 255])


def xp_file(body=b'', name=b'PROG', comment=b'comment', ftype=5, dest=0, pid=0, sig=b'**TI83F*', extra=b'\x1a\x0a', flag=0x0d, unk=0,
            version=0, check=None, length=None, l1=None, l2=None, lb=None):
    n = len(body)
    meta = bytes([flag, unk]) + le(n + 2 if l1 is None else l1) + bytes([ftype]) + name[:8].ljust(8, b'\0') + bytes([version, dest]) \
        + le(n + 2 if l2 is None else l2) + le(n if lb is None else lb)
    head = sig + extra + bytes([pid]) + comment[:42].ljust(42, b'\0') + le(n + 19 if length is None else length)
    s = (sum(meta) + sum(body)) & 0xffff if check is None else check
    return head + meta + body + le(s)


def old_file(body=b'', name=b'PROG', comment=b'comment', ftype=5, pid=0, sig=b'**TI83**', extra=b'\x1a\x0a', flag=0x0b, unk=0, check=None):
    n = len(body)
    meta = bytes([flag, unk]) + le(n + 2) + bytes([ftype]) + name[:8].ljust(8, b'\0') + le(n + 2) + le(n)
    head = sig + extra + bytes([pid]) + comment[:42].ljust(42, b'\0') + le(n + 17)
    s = (sum(meta) + sum(body)) & 0xffff if check is None else check
    return head + meta + body + le(s)


def rand_name(rng, lo=0, hi=8):
    return ''.join(rng.choice('ABCDEFGHIJKLMNOPQRSTUVWXYZ') for _ in range(rng.randint(lo, hi)))


def rand_comment(rng, exact=None):
    n = rng.choice([0, 1, 5, 20, 41, 42]) if exact is None else exact
    return ''.join(rng.choice('abcdefghijklmnopqrstuvwxyz ABC0123456789.,:[]-_') for _ in range(n))


def rand_name_raw(rng):
    """A stored name: mostly letters, also with spaces, zero bytes, digits, small letters or anything in it."""
    r = rng.random()
    if r < 0.45:
        return rand_name(rng).encode()
    if r < 0.6:
        n = rand_name(rng, 1, 6).encode()
        return rng.choice([b' ' + n, n + b' ', b' ' + n + b' ', n[:1] + b' ' + n[1:], n + b'\t', b'\n' + n, n + b'.', b'_' + n])
    if r < 0.75:
        n = rand_name(rng, 2, 5).encode()
        return rng.choice([b'\0' + n, n[:1] + b'\0' + n[1:], n + b'\0\0A', n[:1] + b'\0\0\0' + n[1:2] + b'\0A', b'\0\0' + n])
    if r < 0.85:
        return bytes(rng.choice([0x5b, 0x41, 0x5a, 0x30, 0x39, 0xd7, 0x61, 0x20]) for _ in range(rng.randint(1, 8)))
    if r < 0.92:
        return rand_name(rng, 1).lower().encode()
    return bytes(rng.randint(0, 255) for _ in range(rng.randint(0, 8)))


def rand_comment_raw(rng):
    r = rng.random()
    if r < 0.4:
        return rand_comment(rng).encode()
    c = rand_comment(rng, rng.choice([1, 3, 10, 30])).encode()
    if r < 0.6:
        return rng.choice([b' ' + c, c + b' ', b'  ' + c + b'  ', c + b'\n', b'\t' + c, c + b'\r\n', b'"' + c + b'"', c + b'\\'])
    if r < 0.7:
        return c[:2] + b'\0' * rng.randint(1, 4) + c[2:] + rng.choice([b'', b'\0x'])
    if r < 0.8:
        return (rng.choice(['\u00e9', '\u4e2d', '\U0001f600', '\u03b8', '\u00ff']) * rng.randint(1, 14)).encode()[:42]
    if r < 0.9:
        return bytes(rng.choice([0, 0, 0x20, rng.randint(1, 255)]) for _ in range(rng.randint(2, 42)))
    return bytes(rng.randint(1, 255) for _ in range(rng.randint(1, 42)))


def rand_xp(rng, model=None, size=None, odd=True):
    """A well-formed 8xp file: every field varied; returns (bytes, model name, facts)."""
    model = model or rng.choice(list(FILE_MODELS))
    pid, sig = FILE_MODELS[model]
    body = rand_body(rng, ORDERS[model], rng.choice([0, 1, 2, 3, 10, 40, 150]) if size is None else size)
    kw = dict(name=rand_name(rng).encode(), comment=rand_comment(rng).encode(), ftype=rng.choice(list(FTYPES.values())),
              dest=rng.choice([0, 0x80]), pid=pid, sig=sig)
    if odd:      # every byte that means nothing to the tool, one by one
        for field, usual, others in (('flag', 0x0d, [0x0b, 0, 0xff, 0x0c]), ('unk', 0, [1, 0x0d, 255]), ('version', 0, [1, 2, 0x80, 255])):
            if rng.random() < 0.45:
                kw[field] = rng.choice(others + [rng.randint(0, 255)])
        if rng.random() < 0.35:
            kw['extra'] = rng.choice([b'\0\0', b'\x1a\0', b'\x0a\x1a', bytes([rng.randint(0, 255), rng.randint(0, 255)])])
        if rng.random() < 0.6:
            kw['comment'] = rand_comment_raw(rng)
        if rng.random() < 0.6:
            kw['name'] = rand_name_raw(rng)
    return xp_file(body, **kw), model, kw


def misstate(rng, f):
    """An 8xp file whose length fields or checksum do not say the truth."""
    f = bytearray(f)
    for at in rng.sample([53, 57, 70, 72, len(f) - 2], rng.randint(1, 3)):
        f[at:at + 2] = le(rng.choice([0, 1, 2, 255, 65535, len(f), rng.randint(0, 65535), max(0, f[at] + 256 * f[at + 1] + rng.choice([-2, -1, 1, 2, 256])) & 65535]))
    return bytes(f)


def misstate_old(rng, f):
    """As misstate, for an 83p or 82p file: the lengths at 53, 57, 68, 70 and the checksum."""
    f = bytearray(f)
    for at in rng.sample([53, 57, 68, 70, len(f) - 2], rng.randint(1, 3)):
        f[at:at + 2] = le(rng.choice([0, 1, 2, 255, 65535, len(f), rng.randint(0, 65535), max(0, f[at] + 256 * f[at + 1] + rng.choice([-2, -1, 1, 2, 256])) & 65535]))
    return bytes(f)


# ------------------------------------------------------------- anything ----
def wild_body(rng, order):
    """Bytes that may or may not be tokens: zero bytes, cut tokens and foreign bytes at the start, inside and at the end."""
    b = rand_body(rng, order, rng.choice([0, 1, 3, 8]))
    r = rng.random()
    if r < 0.5:
        return b
    ones = {k[0] for k in table(order) if len(k) == 1}
    leads = {k[0] for k in table(order) if len(k) == 2}
    odd = bytes([rng.choice([0, 0, rng.choice([x for x in range(256) if x not in ones and x not in leads] or [0]), rng.choice(sorted(leads)), 255, rng.randint(0, 255)])]) * rng.choice([1, 1, 2, 3, 8])
    return odd + b if r < 0.6 else b + odd if r < 0.85 else b[:len(b) // 2] + odd + b[len(b) // 2:]
