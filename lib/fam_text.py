"""Family B: the text encoding (C08, C09, C10, C25, C26)."""
import random
import core
from model import hx, pid, unpid, word
from textlib import (rand_ops, large_ops, long_run, rand_value, rand_char, rand_id, driver_op, op_cells, ops_of, raw, spell, wid,
                     is_numeric, inc, CHARS)

SEP = ' '


def b2l(b):
    return list(b)


def run(exe, lines, tag):
    return core.run_driver(exe, lines, tag)


class Batch:
    """Collects (line, builder of the event from the answer)."""

    def __init__(self):
        self.lines, self.make = [], []

    def add(self, line, make):
        self.lines.append(line)
        self.make.append(make)

    def events(self, exe, tag):
        ans = core.run_driver(exe, self.lines, tag)
        evs = []
        for l, a, m in zip(self.lines, ans, self.make):
            w = a.split(' ')
            if w[0] == 'CRASH':
                evs.append({'op': l.split(' ')[0], 'st': 'CRASH', 'why': a})
            else:
                evs.append(m(w))
        return evs


def reading(w, src):
    return {'op': 'read', 'src': src, 'ops': ops_of(w[0]), 'st': w[1], 'more': int(w[2])}


def add_read(b, data, cmd='read'):
    src = list(data)
    b.add('%s %s' % (cmd, data.hex() or '-'), lambda w: reading(w, src))


def add_write(b, ops):
    want = [op_cells(o) for o in ops]
    b.add('wr ' + ' '.join(driver_op(o) for o in ops),
          lambda w: {'op': 'wr', 'in': want, 'ops': ops_of(w[0]), 'st': w[1], 'more': int(w[2]), 'out': raw(w[3])})


def add_rt(b, text):
    src = list(text.encode())
    b.add('rt ' + hx(text),
          lambda w: {'op': 'rt', 'st': 'ok', 'src': src, 'ops1': ops_of(w[0]), 'st1': w[1], 'more1': int(w[2]),
                     'one': raw(w[3]), 'ops2': ops_of(w[4]), 'st2': w[5], 'more2': int(w[6]), 'two': raw(w[7])})


def add_amend(b, text, rng, rename):
    src = list(text.encode())
    i, r = rand_id(rng), rand_id(rng)
    line = 'amend %x.%x %x.%x %s' % (i + r + (hx(text),)) if rename else 'reamend ' + hx(text)
    b.add(line, lambda w: {'op': 'amend', 'rename': rename, 'id': wid(*i), 'ref': wid(*r), 'src': src,
                           'ops': ops_of(w[0]), 'st': w[1], 'more': int(w[2]), 'out': raw(w[3])})


def c08(rng, n, b):
    # every pair of neighbouring values of a sample of the value space
    from textlib import INTS, FLOATS
    vals = [('i', i) for i in INTS] + [('f', f) for f in FLOATS] + \
           [('u', word(x), 0) for x in ('0', '1', 'a', '12345', '1e5', '1E5', '5e', 'e5', '0000000001', 'rm')] + \
           [('u', word('1e'), 2 << 60 | word('5')), ('u', word('12'), 3 << 60 | word('3')), ('u', 0, 2 << 60),
            ('u', word('1') | 1 << 60, word('5')), ('u', word('1e5') | 10 << 60, 1 << 60)] + \
           [('s', '')] + [('s', c) for c in CHARS] + [('s', c + d) for c, d in zip(CHARS, CHARS[1:])]
    base = (word('1lD5N'), 2 << 60 | word('A'))
    for k, v in enumerate(vals):
        w = vals[(k * 7 + 3) % len(vals)]
        add_write(b, [(base, (0, 0), [v, w], ','), (inc(base), base, [v], ','), (inc(inc(base)), inc(base), [v], ';')])
    chars = [v for v in vals if v[0] == 's' and len(v[1]) == 1]
    for k, v in enumerate(chars):
        ids = [base]
        for _ in range(4):
            ids.append(inc(ids[-1]))
        w = chars[(k * 5 + 1) % len(chars)]
        seq = [v, w, v, v]
        add_write(b, [(ids[j + 1], ids[j], [seq[j]], ',') for j in range(4)])
    for k in range(n):
        ops = rand_ops(rng, rng.choice([1, 2, 3, 4, 6, 10]))
        r = rng.random()
        if r < .5:
            add_write(b, ops)
        elif r < .75:
            add_rt(b, spell(ops, rng, exotic=rng.random() < .5))
        else:
            add_amend(b, spell(ops, rng, exotic=rng.random() < .5), rng, rng.random() < .6)
    for k in range(n // 80):
        ops = large_ops(rng)
        add_write(b, ops)
        if k % 2:
            add_rt(b, spell(ops, rng, exotic=True))
        else:
            add_amend(b, spell(ops, rng), rng, rng.random() < .6)


def finite(ops):
    return all(v[0] != 'f' or abs(v[1]) != float('inf') for o in ops for v in o[2])


def c09(rng, n, exe, b):
    # (1) readers see the same ops in every spelling
    for k in range(n):
        ops = rand_ops(rng, rng.choice([1, 2, 3, 5, 8])) if k % 60 else large_ops(rng)
        if rng.random() < .5:
            add_read(b, spell(ops, rng, exotic=True).encode())
            continue
        # (2) all spellings serialise to one text, a fixed point
        texts = [spell(ops, rng) for _ in range(3)]
        made = 'rt ' + SEP.join(hx(t) for t in texts)
        b.add('canon ' + SEP.join(hx(t) for t in texts), None)
    # (3) chunks aside: what a list of cursors becomes
    for k in range(n // 4):
        texts = [spell([o for o in (rand_ops(rng, rng.choice([1, 2, 5])) if k % 40 else large_ops(rng))], rng)
                 for _ in range(rng.randrange(1, 4))]
        b.add('reser ' + SEP.join(hx(t) for t in texts), None)


def canon_events(exe, b, tag):
    """canon and reser lines need several driver calls each."""
    lines, plan = [], []
    for l, m in zip(b.lines, b.make):
        w = l.split(' ')
        if w[0] == 'canon':
            plan.append(('canon', len(lines), w[1:]))
            lines += ['rt ' + x for x in w[1:]]
        elif w[0] == 'reser':
            plan.append(('reser', len(lines), w[1:]))
            lines.append(l)
        else:
            plan.append((None, len(lines), m))
            lines.append(l)
    ans = core.run_driver(exe, lines, tag)
    second, where = [], {}
    for kind, at, x in plan:
        if kind == 'reser':
            w = ans[at].split(' ')
            where[at] = len(second)
            second.append('reser ' + ' '.join(w[1:]) if len(w) > 1 else 'reser')
    again = core.run_driver(exe, second, tag + '2') if second else []
    evs, src = [], []
    for kind, at, x in plan:
        if kind is None:
            w = ans[at].split(' ')
            evs.append({'op': 'read', 'st': 'CRASH'} if w[0] == 'CRASH' else x(w))
            src.append(lines[at])
        elif kind == 'canon':
            ws = [ans[at + k].split(' ') for k in range(len(x))]
            src.append('canon ' + ' '.join(x))
            if any(w[0] == 'CRASH' for w in ws):
                evs.append({'op': 'canon', 'st': 'CRASH'})
                continue
            evs.append({'op': 'canon', 'st': 'ok', 'src': [raw(h) for h in x], 'one': [raw(w[3]) for w in ws],
                        'two': [raw(w[7]) for w in ws]})
        else:
            src.append('reser ' + ' '.join(x))
            a, g = ans[at].split(' '), again[where[at]].split(' ')
            if a[0] == 'CRASH' or g[0] == 'CRASH':
                evs.append({'op': 'reser', 'st': 'CRASH'})
                continue
            evs.append({'op': 'reser', 'st': a[0], 'src': [raw(h) for h in x], 'out': [raw(h) for h in a[1:]],
                        'again': [raw(h) for h in g[1:]]})
    return evs, src


GRAMMAR = [b'@', b':', b',', b';', b'!', b'?', b'.', b'.\n', b'\n', b' ', b'\t', b'\r', b"'", b'"', b'\\', b'(', b')',
           b'=', b'>', b'^', b'+', b'-', b'$', b'%', b'/', b'A', b'1', b'0', b'~', b'e', b'E5', b'1.5', b'\\u0041',
           b'\\u00', b'\\n', b'\\x', b'\xc3', b'\xa9', b'\xe2\x82\xac', b'\xf0\x9f\x98\x80', b'\xff', b'\x00', b'(3)',
           b"('ab')", b'(0)', b'(99999999999)', b'12345678901', b'99999999999999999999', b'9223372036854775808',
           b'-9223372036854775808', b'-9223372036854775809', b'9223372036854775807', b'1234567890123456789012345.0',
           b'0.1234567890123456789012', b'0.12345678901234567890123', b'@1+A', b':rga', b'*lww#', b'1e999', b'abc']


def c10_random(rng, n, b):
    for k in range(n):
        r = rng.random()
        if r < .35:     # a valid text cut anywhere, with or without garbage after
            t = spell(rand_ops(rng, rng.choice([1, 2, 3, 5])) if k % 60 else large_ops(rng), rng, exotic=rng.random() < .5).encode()
            t = t[:rng.randrange(len(t) + 1)]
            if rng.random() < .4:
                t += b''.join(rng.choice(GRAMMAR) for _ in range(rng.randrange(1, 4)))
        elif r < .65:   # corrupted
            t = bytearray(spell(rand_ops(rng, rng.choice([1, 2, 3])), rng, exotic=rng.random() < .5).encode())
            for _ in range(rng.choice([1, 1, 2, 3])):
                at = rng.randrange(len(t) + 1)
                x = rng.random()
                if x < .35 and at < len(t):
                    t[at] = rng.choice([rng.randrange(256), rng.choice(rng.choice(GRAMMAR))])
                elif x < .6 and at < len(t):
                    del t[at]
                else:
                    t[at:at] = rng.choice(GRAMMAR)
            t = bytes(t)
        elif r < .9:    # grammar soup
            t = b''.join(rng.choice(GRAMMAR) for _ in range(rng.randrange(1, 12)))
            if rng.random() < .5:
                t = b'@1A+B :2 ' + t
        else:
            t = bytes(rng.randrange(256) for _ in range(rng.randrange(1, 30)))
        if long_span(t):
            continue
        add_read(b, t, 'readslice' if rng.random() < .2 else 'read')
    # every cut of a few frames
    for k in range(n // 150):
        t = spell(rand_ops(rng, 4), rng, exotic=True).encode()
        for c in range(len(t) + 1):
            add_read(b, t[:c])


ATOMS = ([b'1' + b'2' * k for k in (9, 10, 17, 18, 19, 20)] + [b'-9' + b'1' * k for k in (17, 18, 19)] +
         [b'+' + b'9' * k for k in (18, 19, 20)] +
         [b'1.' + b'3' * k for k in (21, 22, 23, 24)] + [b'-1.' + b'3' * k for k in (20, 21, 22, 23)] +
         [b'1' * k + b'e5' for k in (20, 21, 22, 23)] + [b'1.5e' + b'0' * k + b'1' for k in (19, 20, 21)] +
         [b'abcdefghi' + x for x in (b'', b'j', b'jk')] + [b'>abcdefghi' + x for x in (b'', b'j', b'jk')] +
         [b'ab+abcdefghi' + x for x in (b'', b'j', b'jk')] + [b'abcdefghijk+B', b'A/abcdefghijk+abcdefghijk', b'1/2abcdefghij+C',
          b'1/abcdefghij+C', b'abcdefghijk%abcdefghij', b'abcdefghij$abcdefghijk', b'>abcdefghijk+B', b'>ab+abcdefghijk',
          b'(12345678901+B', b'1e5', b'12345678901+A', b'1234567890a', b'12345678901a', b'+abcdefghijk', b'$abcdefghijk'])
AFTER = [b'', b' ', b'\t', b'\n', b'\r', b',', b';', b'!', b'?', b"'a'", b'>a', b'=1', b'^1.5', b'(2)', b'@1+B', b':1+B', b'.', b'+A',
         b'-1', b'$a', b'"', b'\\', b'e1', b'E1', b'/', b'\x00', b'\xc3\xa9', b')', b'%']


def c10_atoms(b, rng, every):
    """Atoms at and beyond the longest legal ones, in every place, before every kind of next character."""
    for a in ATOMS:
        for where in (b'@%s%s', b'@1+A :%s%s', b'@1+A :2 %s%s', b'@1+A :2 =%s%s', b'@1+A :2 ^%s%s', b'@1+A :2 >%s%s',
                      b"@1+A :2 'x' %s%s", b"@1+A :2 1 2%s%s", b"@1+A :2 'x', :%s%s", b"@1+A :2 'x', %s%s", b"%s%s"):
            for f in AFTER:
                if every or rng.random() < .3:
                    t = where % (a, f)
                    for t in (t, t + b" 'z', @2+A 5;") if every else (t if rng.random() < .5 else t + b" 'z', @2+A 5;",):
                        if not long_span(t):
                            add_read(b, t)


def long_span(t):
    """Spans of millions of ops are legal, but no use here."""
    import re
    for m in re.finditer(rb'\(\s*0*(\d+)', t):
        d = m.group(1)
        if 4 <= len(d) <= 10:
            return True
    return False


def c25(rng, n, tier, b):
    def add_enc(cps):
        def make(w):
            p = [x.split(',') for x in w]
            return {'op': 'enc', 'st': 'ok', 'cps': cps, 'u8': [raw(x[0]) for x in p], 'b8': [int(x[1], 16) for x in p],
                    'n8': [int(x[2]) for x in p], 'u16': [[int(u, 16) for u in x[3].split('.')] for x in p],
                    'b16': [int(x[4], 16) for x in p], 'n16': [int(x[5]) for x in p]}
        b.add('enc ' + ' '.join('%x' % c for c in cps), make)
    edges = sorted({c + d for c in (1, 0x80, 0x800, 0xd800, 0xe000, 0x10000, 0x10ffff, 0xfffe, 0xffff, 0x1f600, 0x20000)
                    for d in range(-40, 41)})
    scalars = [c for c in edges if 0 < c <= 0x10ffff and not 0xd800 <= c < 0xe000]
    if tier == 'thorough':
        scalars = [c for c in range(1, 0x110000) if not 0xd800 <= c < 0xe000]
    else:
        scalars += [c for c in range(1, 0x110000, 61) if not 0xd800 <= c < 0xe000]
    for k in range(0, len(scalars), 256):
        add_enc(scalars[k:k + 256])

    def add_utf8(t):
        src = list(t)
        b.add('utf8 ' + (t.hex() or '-'),
              lambda w: {'op': 'utf8', 'st': w[0], 'src': src,
                         'cps': [int(x, 16) for x in w[1].split('.')] if w[1] != '-' else [],
                         'raw': [int(x, 16) if '!' not in x else -1 for x in w[2].split('.')] if w[2] != '-' else []})
    pieces = [c.encode() for c in CHARS] + [b'\x80', b'\xbf', b'\xc3', b'\xe2', b'\xe2\x82', b'\xf0', b'\xf0\x9f',
                                            b'\xf0\x9f\x98', b'\xf8', b'\xff', b'\xfe', b'\xc3A', b'\xe2A\x82']
    for p in pieces:
        add_utf8(p)
        for q in pieces:
            add_utf8(p + q)
    for k in range(n):
        t = b''.join(rng.choice(pieces[:-13] if rng.random() < .8 else pieces) for _ in range(rng.randrange(1, 20)))
        if rng.random() < .3:
            t = t[:rng.randrange(len(t) + 1)]
        add_utf8(t)

    def add_utf16(units):
        b.add('utf16 ' + ' '.join('%x' % u for u in units),
              lambda w: {'op': 'utf16', 'st': 'ok', 'src': cutoff(units), 'in': w[1] == 'IN',
                         'cps': [int(x, 16) for x in w[0].split('.')]})
    U = [0x41, 0xd7ff, 0xd800, 0xd83d, 0xdbff, 0xdc00, 0xde00, 0xdfff, 0xe000, 0xffff]
    for a in U:
        add_utf16([a])
        for c in U:
            add_utf16([a, c])
            for d in U:
                add_utf16([a, c, d])
    for k in range(n):
        vals = [('s', ''.join(rand_char(rng) for _ in range(rng.randrange(0, 12) if k % 50 else
                                                             rng.choice([64, 255, 256, 500])))) for _ in range(2)] + \
               [('s', rand_char(rng))]
        rng.shuffle(vals)
        base = (word('1'), 2 << 60 | word('A'))
        ops, i = [], base
        for v in vals + [('s', rand_char(rng)), ('s', rand_char(rng)), ('s', rand_char(rng))]:
            ops.append((inc(i), i, [v], ','))
            i = inc(i)
        t = spell(ops, rng, exotic=True)
        src = list(t.encode())

        def make(w, src=src):
            p = [] if w[0] == '-' else [x.split('/') for x in w]
            bad = lambda h: [-1] if '!' in h else raw(h)
            return {'op': 'str', 'st': 'ok', 'src': src, 'u8': [bad(x[0]) for x in p],
                    'u16': [[-1] if '!' in x[1] else [] if x[1] == '-' else [int(u, 16) for u in x[1].split('.')]
                            for x in p]}
        b.add('str ' + hx(t), make)


def cutoff(units):
    return units


def mutate(ops, rng, near=0):
    """One change a comparison must see."""
    ops = list(ops)
    k = rng.randrange(max(0, len(ops) - near) if near else 0, len(ops))
    i, r, vals, t = ops[k]
    m = rng.randrange(9)
    if m == 0:
        ops[k] = (inc(i), r, vals, t)
    elif m == 1:
        ops[k] = (i, inc(r), vals, t)
    elif m == 2:
        ops[k] = (i, r, vals + [rand_value(rng)], t)
    elif m == 3 and vals:
        ops[k] = (i, r, vals[:-1], t)
    elif m == 4 and vals:
        j = rng.randrange(len(vals))
        v = vals[j]
        if v[0] == 'i':
            w = ('f', float(v[1])) if rng.random() < .5 and abs(v[1]) < 2 ** 50 else ('i', v[1] ^ 1)
        elif v[0] == 'f':
            w = ('i', int(v[1])) if abs(v[1]) < 1e15 and rng.random() < .5 else ('f', v[1] + 1 if abs(v[1]) < 1e9 else 1.5)
        elif v[0] == 's':
            w = ('s', v[1] + 'x') if rng.random() < .4 else ('s', v[1][::-1]) if rng.random() < .5 else ('u', word('abc'), 0)
        else:
            w = ('u', v[1], v[2] ^ 64) if rng.random() < .5 else ('s', 'abc')
        ops[k] = (i, r, vals[:j] + [w] + vals[j + 1:], t)
    elif m == 5:
        del ops[k]
    elif m == 6:
        ops.insert(k, (rand_id(rng), rand_id(rng), [rand_value(rng)], t))
    elif m == 7 and k:
        ops[k - 1], ops[k] = ops[k], ops[k - 1]
    elif m == 8 and vals:
        ops[k] = (i, r, vals[::-1], t)
    return ops


TILDE = (word('~'), 0)


def simple_value(rng):
    """Values with one decimal each: a comparison has nothing to round."""
    v = rand_value(rng)
    if v[0] == 'f':
        return ('f', rng.choice([0.5, 1.0, -2.25, 1e20, 12345.5, 3.0]))
    return v


def with_comments(ops, rng):
    out = []
    for o in ops:
        if rng.random() < .25:
            out.append((TILDE, rng.choice([(0, 0), rand_id(rng)]), [('s', rng.choice(['note', '', 'a;b']))], rng.choice(',;!')))
        out.append(o)
    if rng.random() < .3:
        out.append((TILDE, (0, 0), [('s', 'end')], ';'))
    return out


def no_comment(ops):
    """Random ops may fall on the comment id: keep that to with_comments."""
    return [o for o in ops if o[0] != TILDE]


def c26(rng, n, b):
    def add_cmp(x, y):
        sx, sy = list(x.encode()), list(y.encode())
        b.add('cmp %s %s' % (hx(x), hx(y)),
              lambda w: {'op': 'cmp', 'a': sx, 'b': sy, 'st': w[0], 'st2': w[1]})
    small = ['', '@~ ;', "@~ 'x';", '@~;@~ 5!', '@1 :2 5;', '@1 :2 5,@~ ;', '@~ ,@1 :2 5;', '@1 :2 =5;', "@1 :2 '5';",
             '@1 :2 5.0;', '@1 :2 5 5;', '@1 :2;', '@1 :2 >5;', '@1 :2 5;@3 :1 6;', '@~ ;@1 :2 5;@~ ;@3 :1 6;', '.\n', ' \n',
             "@1 :2 ('ab');", "@1 :2 'a', @2 :1 'b';", "@1 :2 'a','b';", "@1 :2 'ab';", '@1 :2 x(2);', '@1 :2 x, x;']
    for x in small:
        for y in small:
            add_cmp(x, y)
    for k in range(n):
        ops = [(o[0], o[1], [simple_value(rng) for _ in o[2]], o[3]) 
               for o in (rand_ops(rng, rng.choice([0, 1, 2, 3, 5])) if k % 80 else large_ops(rng))]
        r = rng.random()
        other = ops if r < .45 or not ops else mutate(ops, rng)
        if r > .9:
            other = other[:rng.randrange(len(other) + 1)]
        x = spell(with_comments(ops, rng) if rng.random() < .4 else ops, rng)
        y = spell(with_comments(other, rng) if rng.random() < .4 else other, rng)
        add_cmp(x, y)
    for size in (70, 130, 260, 300, 520, 1100) * (n // 900):      # alike up to the end
        ops = long_run(rng, size) if rng.random() < .5 else [
            (o[0], o[1], [simple_value(rng) for _ in o[2]], o[3]) for o in rand_ops(rng, size)]
        x = spell(with_comments(ops, rng) if rng.random() < .3 else ops, rng)
        add_cmp(x, spell(mutate(ops, rng, 4) if rng.random() < .8 else ops, rng))
    for size in (20, 40, 70, 130, 260, 300) * (n // 900):      # many frames
        t = ''
        for _ in range(size):
            f = spell(rand_ops(rng, rng.choice([0, 1, 1, 2])), rng, exotic=rng.random() < .5)
            t += f if f.endswith('.\n') else f + '.\n'
        src = list(t.encode())
        b.add('split ' + hx(t), lambda w, src=src: {'op': 'split', 'st': w[0], 'src': src, 'parts': [raw(h) for h in w[1:]]})
    for k in range(n // 3):
        t = ''
        for _ in range(rng.randrange(0, 5)):
            f = spell(rand_ops(rng, rng.choice([0, 1, 2, 4])) if rng.random() < .99 else large_ops(rng), rng, exotic=rng.random() < .5)
            if not f.endswith('.\n'):
                f += '.\n'
            t += f + rng.choice(['', '', '\n', ' \t'])
        if rng.random() < .4:
            t += spell(rand_ops(rng, 2), rng)
        src = list(t.encode())
        b.add('split ' + hx(t), lambda w, src=src: {'op': 'split', 'st': w[0], 'src': src, 'parts': [raw(h) for h in w[1:]]})


SCOPES = {'quick': {'C10': ['spec4', 'ids6', 'num4', 'str3', 'span4', 'two4'], 'C09': ['span4', 'two4']},
          'thorough': {'C10': ['spec5', 'ids8', 'num5', 'str4', 'span5', 'two6'], 'C09': ['span5', 'two6']}}


def check(prop, tier, ctx):
    exe = core.build('d_text')
    rng = random.Random(core.SEED * 1000003 + int(prop[1:]))
    deep = tier == 'thorough'
    rounds = 12 if deep else 1

    def scopes():
        for sc in SCOPES[tier].get(prop, []):
            cases, r = core.generate('TextGen', 'TextGen_' + sc)
            ctx.model(r)
            b = Batch()
            for c in cases:
                if not long_span(bytes(c)):
                    add_read(b, bytes(c))
            evs = b.events(exe, prop)
            ctx.judge('TextTrace', evs, b.lines)
    if not SCOPES[tier].get(prop):
        # the reader the verdicts rest on is itself checked
        ctx.model(core.model_check('TextGen', 'TextGen_span4'))
        ctx.model(core.model_check('TextGen', 'TextGen_str3'))
    scopes()
    for k in range(rounds):
        b = Batch()
        if prop == 'C08':
            c08(rng, 4000, b)
        elif prop == 'C10':
            c10_random(rng, 5000, b)
            if k == 0:
                c10_atoms(b, rng, tier == 'thorough')
        elif prop == 'C25':
            c25(rng, 1500, tier if k == 0 else 'quick', b)
        elif prop == 'C26':
            c26(rng, 4000, b)
        if prop == 'C09':
            c09(rng, 3000, exe, b)
            evs, src = canon_events(exe, b, prop)
            ctx.judge('TextTrace', evs, src)
        else:
            ctx.judge('TextTrace', b.events(exe, prop), b.lines)
