"""Family C: ids and their texts, storage keys, timestamps, hashes, op
metadata, id stacks (C11, C12, C23, C24, C27; timestamps for C21)."""
import calendar, datetime, random
import core
from model import ABC, FORMS, MASK60, word, uuid_text, hx, unpid
from textlib import rand_word, rand_id, rand_value, spell, inc, cell, WORDS
import struct


def wd(w):
    return [w >> 60, [w >> (54 - 6 * k) & 63 for k in range(10)]]


def idd(p):
    return [wd(p[0]), wd(p[1])]


def pidd(t):
    return idd(unpid(t))


def raw(h):
    return list(bytes.fromhex(h)) if h != '-' else []


def P(i):
    return '%x.%x' % i


class Batch:
    def __init__(self):
        self.jobs = []

    def add(self, line, make):
        self.jobs.append((line, make))

    def run(self, exe, tag):
        lines = [j[0] for j in self.jobs]
        evs = []
        for (l, make), a in zip(self.jobs, core.run_driver(exe, lines, tag)):
            w = a.split(' ')
            op = l.split(' ')[0]
            if w[0] == 'CRASH' or a == 'BADHISTORY':
                e = {'op': op, 'st': 'CRASH', 'why': a}
            else:
                e = make(w)
                e['op'] = op
                e['st'] = 'ok'
            evs.append(e)
        return evs, lines


def bools(w, n):
    return [x == '1' for x in w[1:n + 1]]


def known_bytes(t):
    n, _, h = t.partition(':')
    return [int(n), raw(h)]


# --------------------------------------------------------------------------
# C11

EDGE = [0, 1, 63, 64, MASK60, MASK60 - 1, MASK60 - 63, word('A'), word('_'), word('a'), word('z'), word('~'),
        word('10'), word('0000000001'), word('000000001'), 1 << 30, (1 << 30) - 1, word('Z'), word('9'), word('lww'),
        word('1lD5N'), word('1lD5N') + 1, word('~~~~~~~~~')]
ORGS = [0, word('A'), word('A1'), word('~'), MASK60, 1, word('gritzko')]


def rnd_id(rng):
    if rng.random() < .5:
        return (rng.choice(EDGE) | rng.choice([0, 0, 0, 1, 9, 10, 15]) << 60,
                rng.choice(ORGS) | rng.randrange(4) << 60)
    return (rand_word(rng) | rng.choice([0, 0, 0, 1, 10, 15, rng.randrange(16)]) << 60, rand_word(rng) | rng.randrange(4) << 60)


def near(i, rng):
    """an id differing in a little"""
    v, o = i
    k = rng.randrange(6)
    if k == 0:
        return v ^ 1 << rng.randrange(64), o
    if k == 1:
        return v, o ^ 1 << rng.randrange(62)
    if k == 2:
        return o & MASK60, v & MASK60
    if k == 3:
        return v, o
    if k == 4:
        return (v + rng.choice([1, 63, 64, -1])) & (1 << 64) - 1, o
    return v & MASK60, o


def c11(rng, n, b, cases):
    def add_parse(t):
        t = bytes(t)
        src = list(t)
        b.add('parse ' + (t.hex() or '-'), lambda w: {'text': src, 'id': pidd(w[0])})
    for c in cases:
        add_parse(c)
    # any byte in any place of a well-formed text
    for base in ('A/lww+gritzko', '1lD5N', '0000000001$~', '1234567890%0123456789'):
        for k in range(len(base) + 1):
            for c in (range(256) if k in (0, 1, 2, len(base)) else range(0, 256, 3)):
                add_parse(base[:k].encode() + bytes([c]) + base[k:].encode())
                if k < len(base):
                    add_parse(base[:k].encode() + bytes([c]) + base[k + 1:].encode())
    for k in range(n):
        i = rnd_id(rng)
        t = uuid_text(*i)
        r = rng.random()
        if r < .3:   # insignificant zeros
            head, sep = t, ''
            for j, c in enumerate(t):
                if c in '$%+-':
                    head, sep = t[:j], t[j:]
            head += '0' * rng.randrange(12 - len(head.split('/')[-1]))
            if sep:
                sep += '0' * rng.randrange(12 - (len(sep) - 1))
            elif rng.random() < .5:
                sep = '$' + '0' * rng.randrange(1, 11)
            if rng.random() < .3 and '/' not in head:
                head = '0/' + head
            t = head + sep
        elif r < .7:
            t = list(t)
            for _ in range(rng.choice([1, 1, 2])):
                at = rng.randrange(len(t) + 1)
                x = rng.random()
                c = rng.choice('0123456789ABCDEFGZ_az~/$+-%. @:\t')
                if x < .4 and at < len(t):
                    t[at] = c
                elif x < .7 and at < len(t):
                    del t[at]
                else:
                    t.insert(at, c)
            t = ''.join(t)
        add_parse(t.encode())

    def add_print(i):
        b.add('print ' + P(i), lambda w: {'id': idd(i), 'text': raw(w[0]), 'text2': raw(w[1]), 'text3': raw(w[2]),
                                          'back': pidd(w[3]), 'back2': pidd(w[4]), 'word': raw(w[5])})

    def add_cmp(x, y):
        b.add('cmp %s %s' % (P(x), P(y)), lambda w: {'a': idd(x), 'b': idd(y), 'r': bools(w, 13)})

    def add_next(x, m):
        b.add('next %s %d' % (P(x), m), lambda w: {'a': idd(x), 'n': m, 'inc': pidd(w[0]), 'incn': pidd(w[1]),
                                                  'plus': pidd(w[2]), 'pp': pidd(w[3]), 'back': pidd(w[4]),
                                                  'wpp': pidd(w[5])})

    def add_vers(x):
        b.add('vers ' + P(x), lambda w: {'a': idd(x), 'ev': pidd(w[0]), 'de': pidd(w[1]), 'ev2': pidd(w[2]),
                                         'de2': pidd(w[3]), 'version': int(w[4]), 'variety': int(w[5]),
                                         'err': w[6] == '1', 'zero': w[7] == '1'})
    for v in EDGE:
        for o in ORGS:
            for f in (0, 2, 3):
                add_print((v, o | f << 60))
        for var in range(16):
            add_print((v | var << 60, word('A') | 2 << 60))
    ids = [(v | f << 60, o | s << 60) for v in EDGE[::2] for f in (0, 1) for o in ORGS[:4] for s in (0, 2)]
    for k in range(n):
        add_cmp(rng.choice(ids), rng.choice(ids))
    add_vers((MASK60, MASK60))
    for k in range(n):
        x = rnd_id(rng)
        add_print(x)
        add_cmp(x, near(x, rng) if rng.random() < .7 else rnd_id(rng))
        add_next(x, rng.choice([1, 2, 63, 64, 4095, 4096, rng.randrange(1 << 20), rng.randrange(1 << 30)]))
        add_vers(x)


# --------------------------------------------------------------------------
# C12

def c12(rng, n, b):
    forms = list(range(20)) + [200, 255]

    def plain(i):
        return i[0] & MASK60, i[1] & MASK60 | 2 << 60

    def add_key(i, f):
        b.add('key %s %d' % (P(i), f), lambda w: {'a': idd(i), 'f': f, 'img': raw(w[0]), 'id': pidd(w[1]),
                                                 'form': int(w[2]), 'nid': pidd(w[3]), 'bid': pidd(w[4]),
                                                 'bform': int(w[5]), 'same': w[6] == '1', 'img2': raw(w[7])})

    def add_cmp(i, f, j, g):
        b.add('keycmp %s %d %s %d' % (P(i), f, P(j), g),
              lambda w: {'a': idd(i), 'f': f, 'b': idd(j), 'g': g, 'r': bools(w, 6)})
    for f in range(256):
        b.add('form %d' % f, lambda w, f=f: {'f': f, 'id': pidd(w[0]), 'back': int(w[1]), 'text': raw(w[2])})
    for k, v in enumerate(EDGE):
        for o in ORGS:
            add_key((v, o | 2 << 60), forms[k % len(forms)])
    for f in forms:
        add_key((word('1lD5N'), word('gritzko') | 2 << 60), f)
    for x in [word(f) for f in FORMS] + [word(f) + d for f in FORMS for d in (1, -1)] + [0, MASK60, word('lw'), word('lwww')]:
        for o in (0, 2 << 60, 1, 1 << 60 | 5, MASK60):
            i = (x & MASK60, o)
            b.add('formof ' + P(i), lambda w, i=i: {'a': idd(i), 'f': int(w[0])})
    small = [(v, o | 2 << 60) for v in (0, 1, word('1'), word('~'), MASK60) for o in (0, 1, word('A'), MASK60)]
    for i in small:
        for j in small:
            add_cmp(i, 13, j, 13)
    for k in range(n):
        i, f = plain(rnd_id(rng)), rng.choice(forms)
        add_key(i, f)
        if rng.random() < .3:
            add_key((i[0] | rng.randrange(16) << 60, i[1] & MASK60 | rng.randrange(4) << 60), f)
        j = plain(near(i, rng)) if rng.random() < .7 else plain(rnd_id(rng))
        g = f if rng.random() < .6 else rng.choice(forms + [max(0, f - 1), min(255, f + 1)])
        add_cmp(i, f, j, g)


# --------------------------------------------------------------------------
# timestamps (C21)

EPOCH = datetime.datetime(1970, 1, 1)


ZONES = ['utc', 'cet', 'nst']      # the hour of a stamp does not depend on the place


def times(rng, n, b):
    def add(days, sec, tick, extra=0):
        b.add('time %d %d %s' % (days * 86400 + sec, tick * 100 + extra, ZONES[len(b.jobs) % 3]),
              lambda w: {'days': days, 'sec': sec, 'tick': tick, 'w': wd(int(w[0], 16))})
    first = (datetime.datetime(2010, 1, 1) - EPOCH).days
    last = (datetime.datetime(2351, 1, 1) - EPOCH).days
    for d in range(first, first + 366 * 5):
        add(d, (d * 7919) % 86400, (d * 104729) % 10 ** 7)
    for y in list(range(2010, 2350, 7)) + [2012, 2016, 2020, 2100, 2200, 2300]:
        for m, d in ((1, 1), (2, 28), (2, 29), (3, 1), (12, 31), (6, 30)):
            if d == 29 and not calendar.isleap(y):
                continue
            days = (datetime.datetime(y, m, d) - EPOCH).days
            for s in (0, 59, 60, 3599, 3600, 86399):
                add(days, s, rng.choice([0, 1, 63, 64, 4095, 4096, 9999999]), rng.choice([0, 99]))
    for k in range(n):
        add(rng.randrange(first, last), rng.randrange(86400), rng.randrange(10 ** 7), rng.randrange(100))


# --------------------------------------------------------------------------
# C23

HEXC = '0123456789abcdefABCDEF'


def c23(rng, n, b, cases):
    def add_hash(how, t):
        src = list(t)

        def make(w):
            k, bits = known_bytes(w[0])
            return {'how': how, 'text': src, 'known': k, 'bytes': bits, 'defined': w[1] == '1', 'hex': raw(w[2]),
                    'b64': raw(w[3]), 'hexback': known_bytes(w[4]), 'b64back': known_bytes(w[5]), 'valid': w[6] == '1'}
        b.add('hash %s %s' % (how, bytes(t).hex() or '-'), make)

    def add_match(h1, t1, h2, t2):
        b.add('match %s %s %s %s' % (h1, t1.encode().hex() or '-', h2, t2.encode().hex() or '-'),
              lambda w: {'how': h1, 'text': list(t1.encode()), 'how2': h2, 'text2': list(t2.encode()), 'r': bools(w[1:], 2)})
    for c in cases:
        add_hash('h', c)
        add_hash('b', c)

    def text(how, bits, n):
        """the first n bits, a whole number of digits"""
        if how == 'h':
            t = '%064x' % bits
            t = t[:n // 4]
            return ''.join(c.upper() if rng.random() < .3 else c for c in t)
        x = bits << 2
        return ''.join(ABC[x >> (252 - 6 * k) & 63] for k in range(43))[:(n + 5) // 6]
    for k in range(n):
        bits = rng.choice([rng.getrandbits(256), rng.getrandbits(256), 0, (1 << 256) - 1, 1 << rng.randrange(256),
                           rng.getrandbits(256) & rng.getrandbits(256) >> rng.randrange(64)])
        how = rng.choice('hb')
        size = rng.choice([256, 256, 4 * rng.randrange(65), 6 * rng.randrange(43), 24, 48])
        size -= size % (4 if how == 'h' else 6) if size != 256 else 0
        t = text(how, bits, size)
        r = rng.random()
        if r < .3 and t:   # a foreign character
            at = rng.randrange(len(t))
            c = rng.choice('gG~_ -+/zZ.\x80\xff\n@' if how == 'h' else ' -+/.\x80\xff\n@=!')
            t = t[:at] + c + t[at + 1:]
        add_hash(how, [min(255, ord(c)) for c in t])
        other = bits
        if rng.random() < .6:
            other ^= 1 << (255 - rng.choice([rng.randrange(256), rng.randrange(max(size, 1)), max(0, size - 1), min(255, size)]))
        how2 = rng.choice('hb')
        size2 = rng.choice([256, size, max(0, size - rng.randrange(9)), min(256, size + rng.randrange(9)), rng.randrange(257)])
        if size2 != 256:
            size2 -= size2 % (4 if how2 == 'h' else 6)
        t1 = text(how, bits, size)
        t2 = text(how2, other, size2)
        add_match(how, t1, how2, t2)


# --------------------------------------------------------------------------
# C24

def vterm(v):
    if v[0] == 'f':
        return ['f', list(struct.pack('>d', v[1]))]
    if v[0] == 'u':
        return ['u', idd((v[1], v[2]))]
    return cell(v)


def history(rng, n):
    """a causally closed history: roots and events of several yarns"""
    ops, yarns = [], [rng.choice([word('A'), word('A1'), word('~'), 1, word('gritzko')]) + k for k in range(rng.choice([1, 2, 3]))]
    clock = rng.choice([word('1lD5N'), word('1'), 0, 1 << 59])
    tips = {}
    while len(ops) < n:
        y = rng.choice(yarns)
        clock += rng.choice([1, 1, 1, 2, 64, 1 << 20])
        if y in tips and rng.random() < .5:
            clock = max(clock, tips[y] + 1)
            i = (tips[y] + 1 if not any(o[0][0] == tips[y] + 1 for o in ops) else clock, y | 2 << 60)
        elif ops and rng.random() < .35:  # the very time of another yarn's event
            i = (rng.choice(ops)[0][0], y | 2 << 60)
        else:
            i = (clock, y | 2 << 60)
        if y in tips and i[0] <= tips[y]:
            continue
        if not ops or rng.random() < .12:
            r = (word(rng.choice(['lww', 'rga', 'mx', 'max', 'yarn', 'abc', '~z'])), 0)
        elif y in tips and rng.random() < .6:
            r = (tips[y], y | 2 << 60)
        else:
            r = rng.choice(ops)[0]
            twins = [o[0] for o in ops if y in tips and o[0][0] == tips[y]]
            if twins and rng.random() < .5:
                r = rng.choice(twins)
        vals = [rand_value(rng) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        vals = [('f', 1.5) if v[0] == 'f' and v[1] == 0 else v for v in vals]
        if rng.random() < .3 and ops and ops[-1][2]:
            vals = list(ops[-1][2])
        if rng.random() < .3:
            vals = [('s', rng.choice('abc'))]
        ops.append((i, r, vals, ','))
        tips[y] = i[0]
        clock = max(clock, i[0])
    ops[-1] = ops[-1][:3] + (';',)
    return ops


def tweak(ops, rng):
    """one change: every later hash that depends on it changes"""
    ops = list(ops)
    k = rng.randrange(len(ops))
    i, r, vals, t = ops[k]
    m = rng.randrange(8)
    vals = list(vals)
    if m == 0 and r[1] != 0:
        r = rng.choice(ops[:k])[0]
    elif m == 1 and r[1] == 0:
        r = (word(rng.choice(['lww', 'rga', 'mx'])), 0)
    elif m == 2 and vals:
        j = rng.randrange(len(vals))
        v = vals[j]
        vals[j] = {'i': lambda: ('f', float(v[1] or 1)), 'f': lambda: ('i', struct.unpack('>q', struct.pack('>d', v[1]))[0]),
                   's': lambda: ('u', word('abc'), 0),
                   'u': lambda: ('i', struct.unpack('>q', struct.pack('>Q', v[1]))[0])}[v[0]]()
    elif m == 3 and vals:
        j = rng.randrange(len(vals))
        v = vals[j]
        vals[j] = {'i': lambda: ('i', v[1] ^ 1), 'f': lambda: ('f', v[1] / 2 + 1), 's': lambda: ('s', v[1] + 'x'),
                   'u': lambda: ('u', v[1] ^ 64, v[2])}[v[0]]()
    elif m == 4:
        vals = vals[::-1]
    elif m == 5:
        vals = vals[:-1]
    elif m == 6:
        j = [x for x in range(len(vals) - 1) if vals[x][0] == 's' and vals[x + 1][0] == 's']
        if j:   # the same characters, cut elsewhere
            j = j[0]
            s = vals[j][1] + vals[j + 1][1]
            c = rng.randrange(len(s) + 1)
            vals[j], vals[j + 1] = ('s', s[:c]), ('s', s[c:])
        else:
            vals = [('s', 'ab'), ('s', 'c')] if rng.random() < .5 else [('s', 'a'), ('s', 'bc')]
    else:
        vals = vals + [('s', '')] if rng.random() < .5 else vals + [('i', 0)]
    ops[k] = (i, r, vals, t)
    return ops


def c24(rng, n, b):
    def add_walk(ops):
        terms = [{'id': idd(o[0]), 'ref': idd(o[1]), 'vals': [vterm(v) for v in o[2]]} for o in ops]
        text = spell(ops, rng, exotic=rng.random() < .5)

        def make(w):
            out = []
            for o in ([] if w[0] == '-' else w[0].split('/')):
                f = o.split('|')
                out.append({'at': pidd(f[0]), 'id': pidd(f[1]), 'object': pidd(f[2]), 'rdt': pidd(f[3]),
                            'prev': wd(int(f[4], 16)), 'chain': wd(int(f[5], 16)), 'head': f[6][0] == '1',
                            'next': f[6][1] == '1', 'check': f[6][2] == '1', 'chainid': pidd(f[7]),
                            'prevhash': f[8], 'refhash': f[9], 'hash': f[10], 'hash2': f[11], 'hash3': '256:' + f[12],
                            'st': f[13]})
            return {'ops': terms, 'out': out}
        b.add('walk ' + hx(text), make)
    for k in range(n):
        ops = history(rng, rng.choice([1, 2, 3, 5, 9, 14]) if k % 60 else rng.choice([40, 80]))
        for _ in range(rng.choice([1, 2, 3])):
            add_walk(ops)
        for _ in range(3):
            ops2 = tweak(ops, rng)
            add_walk(ops2)
    seen = set()
    for k in range(n):
        i = rnd_id(rng)
        b.add('uhash ' + P(i), lambda w, i=i: {'id': idd(i), 'h': w[0]})
        x, y = '%064x' % rng.choice([0, 1, 5]), '%064x' % rng.choice([0, 1, 5])
        b.add('pair %s %s' % (x.encode().hex(), y.encode().hex()), lambda w, x=x, y=y: {'x': x, 'y': y, 'h': w[0]})


def tables(evs):
    """All recorded hashes with what they should depend on, once each."""
    seen, items, crash, rest = {}, [], [], []

    def put(term, h):
        key = (str(term), h)
        if key not in seen:
            seen[key] = 1
            items.append({'k': term, 'h': h})
    for e in evs:
        if e['st'] == 'CRASH':
            rest.append(e)
        elif e['op'] == 'uhash':
            put(['uuid', e['id']], e['h'])
        elif e['op'] == 'pair':
            put(['pair', e['x'], e['y']], e['h'])
        else:
            rest.append(e)
            for t, o in zip(e['ops'], e['out']):
                put(['op', t['id'], t['ref'], t['vals'], o['prevhash'], o['refhash']], o['hash'])
    return rest, {'op': 'table', 'st': 'ok', 'items': items}


# --------------------------------------------------------------------------
# C27

def c27(rng, n, b, cases):
    base = {}

    def tok(kind, e):
        if kind == 'i':
            return str(e[0] * 1000 + e[1])
        return P((word('1lD5N') + e[1], (10 + e[0]) << 54 | 2 << 60))

    def untok(kind, t):
        if kind == 'i':
            return [int(t) // 1000, int(t) % 1000]
        v, o = unpid(t)
        return [(o >> 54 & 63) - 10, v - word('1lD5N')]

    def add(kind, script):
        """script: list of ('push', e) ('pop',) ('look',) ('at', i, j) ('skip', k, m)"""
        line = ['stack', kind]
        for s in script:
            line.append({'push': lambda: '+' + tok(kind, s[1]), 'pop': lambda: '-', 'look': lambda: '?',
                         'run': lambda: '*%s.%d' % (tok(kind, s[1]), s[2]), 'cut': lambda: '~%d' % s[1], 'ends': lambda: '!',
                         'at': lambda: '@%d.%d' % s[1:], 'skip': lambda: '>%d.%d' % s[1:]}[s[0]]())

        def make(w):
            steps = []
            for s, a in zip(script, w):
                if s[0] == 'push':
                    steps.append({'a': 'push', 'v': list(s[1])})
                elif s[0] == 'pop':
                    steps.append({'a': 'pop'})
                elif s[0] == 'run':
                    steps.append({'a': 'run', 'v': list(s[1]), 'n': s[2]})
                elif s[0] == 'cut':
                    steps.append({'a': 'cut', 'n': s[1]})
                elif s[0] in ('look', 'ends'):
                    f = a.split('|')
                    x = {'a': s[0], 'size': int(f[0][:-1]), 'empty': f[0][-1] == 'e', 'front': [], 'back': [], 'all': []}
                    if not x['empty']:
                        x['front'], x['back'] = untok(kind, f[1]), untok(kind, f[2])
                        x['all'] = [untok(kind, t) for t in f[3:]]
                    steps.append(x)
                elif s[0] == 'at':
                    steps.append({'a': 'at', 'k': s[1] + s[2], 'end': a == 'end', 'v': [] if a == 'end' else untok(kind, a)})
                else:
                    f = a.split('|')[1:]
                    steps.append({'a': 'skip', 'k': s[1], 'max': s[2],
                                  'w': [{'v': untok(kind, f[j]), 'n': int(f[j + 1])} for j in range(0, len(f), 2)]})
            return {'kind': kind, 'steps': steps}
        b.add(' '.join(line), make)

    def looks(size):
        out = [('look',)]
        for k in range(size + 1):
            out.append(('at', 0, k))
            for j in range(1, size - k + 1):
                out.append(('at', k, j))
        for k in range(size):
            for m in range(1, size + 2):
                out.append(('skip', k, m))
        return out
    for c in cases:
        script, size = [], 0
        for e in c:
            if e:
                script.append(('push', tuple(e)))
                size += 1
            else:
                script.append(('pop',))
                size -= 1
        kind = 'iu'[len(b.jobs) % 2]
        add(kind, script + looks(size))
    # runs past what a short counter holds
    for k in range(max(5, n // 200)):
        script, size, v = [], 0, rng.randrange(900)
        if rng.random() < .5:
            script, size = [('push', (0, v - 5)), ('push', (1, v))], 2
        m = [66000, 65536, 32767, 32768, 65535][k % 5]
        script += [('run', (2, v), m), ('ends',)]
        size += m
        if k % 2 or rng.random() < .5:     # where a short counter would go on
            for b2 in (15, 16):
                script += [('push', (2, v + m % (1 << b2))), ('ends',), ('at', 0, size)]
                size += 1
            m += 5
        if rng.random() < .7:      # goes on
            x = rng.choice([1, 2, 300])
            script += [('run', (2, v + m), x), ('ends',)]
            size += x
        if rng.random() < .5:      # or elsewhere
            script += [('run', (rng.randrange(3), v + rng.choice([0, 1, 40])), 5), ('ends',)]
            size += 5
        script += [('at', 0, size - 1), ('at', rng.randrange(size // 2), rng.randrange(size // 2)), ('at', size - 2, 2),
                   ('skip', 0, rng.choice([20000, 40000, 65536, 100000])), ('skip', rng.randrange(size), 70000)]
        if rng.random() < .7:
            x = rng.choice([1, 400, size // 2])
            script += [('cut', x), ('ends',), ('push', (2, v + m)), ('ends',)]
        add('u', script)
    for k in range(n):
        script, plain = [], []
        if k % 25 == 0:     # long runs
            for _ in range(rng.choice([1, 2])):
                e = (rng.randrange(3), rng.randrange(400))
                for j in range(rng.choice([64, 255, 256, 257, 520])):
                    plain.append((e[0], e[1] + j))
                    script.append(('push', plain[-1]))
            script.append(('skip', 0, rng.choice([1, 100, 255, 300])))
            script.append(('skip', rng.randrange(len(plain)), rng.choice([1, 100, 256, 1000])))
            script.append(('at', 0, rng.randrange(len(plain) + 1)))
            for _ in range(rng.choice([0, 3, 70])):
                script.append(('pop',))
                plain.pop() if len(plain) > 1 else script.pop()
        for _ in range(rng.choice([5, 20, 60])):
            r = rng.random()
            if r < .75 or not plain:
                e = (plain[-1][0], plain[-1][1] + 1) if plain and rng.random() < .7 else (rng.randrange(3), rng.randrange(900))
                script.append(('push', e))
                plain.append(e)
            else:
                for _ in range(rng.choice([1, 1, 2, 5])):
                    if plain:
                        script.append(('pop',))
                        plain.pop()
            if rng.random() < .1:
                script.append(('look',))
            if plain and rng.random() < .2:
                i = rng.randrange(len(plain) + 1)
                script.append(('at', i, rng.randrange(len(plain) - i + 1)))
                script.append(('skip', rng.randrange(len(plain)), rng.randrange(1, 20)))
        add(rng.choice('iu'), script + [('look',)])


def check(prop, tier, ctx):
    rng = random.Random(core.SEED * 1000003 + int(prop[1:]))
    deep = tier == 'thorough'
    exe = core.build('d_ids')
    k = 12 if deep else 1
    b = Batch()
    if prop in ('C11', 'C12', 'C21'):
        ctx.model(core.model_check('IdsModel', tag=prop))
    if prop == 'C11':
        cases, r = core.generate('IdsGen', 'IdsGen_deep' if deep else 'IdsGen', tag=prop)
        ctx.model(r)
        c11(rng, 1500 * k, b, [[]] + cases)
    elif prop == 'C21':
        times(rng, 2000 * k, b)
    elif prop == 'C12':
        c12(rng, 4000 * k, b)
    elif prop == 'C23':
        cases, r = core.generate('IdsGen', 'IdsGen_deep' if deep else 'IdsGen', tag=prop)
        ctx.model(r)
        c23(rng, 1500 * k, b, [c for c in cases if len(c) < 4 or rng.random() < .1])
    elif prop == 'C24':
        c24(rng, 250 * k, b)
    elif prop == 'C27':
        cases, r = core.generate('StackModel', 'StackModel_deep' if deep else 'StackModel', tag=prop)
        ctx.model(r)
        c27(rng, 300 * k, b, cases if deep else cases[::2] + cases[1::6])
    evs, src = b.run(exe, prop)
    if prop == 'C24':
        rest, table = tables(evs)
        ctx.judge('IdsTrace', rest, None)
        ctx.judge('IdsTrace', [table], None)
        ctx.count('hashes', len(table['items']))
        import fam_replica
        exe = core.build('d_replica')
        hs = [fam_replica.hashes(rng, rng.randrange(5, 25)) for _ in range(120 * k)]
        fam_replica.judge(ctx, hs, exe, prop)
        return
    ctx.judge('IdsTrace', evs, src)
