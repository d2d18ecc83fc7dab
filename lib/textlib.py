"""Text-family projection: driver answers -> terms of spec/Text.tla, and
independent renderers producing every legal spelling of an op sequence."""
import struct
from fractions import Fraction
from model import ABC, uuid_text, str_text, float_text, unpid, word, MASK60

M30 = (1 << 30) - 1
TERMC = {';': 59, ',': 44, '!': 33, '?': 63}


def wid(v, o):
    return [v >> 60, v >> 30 & M30, v & M30, o >> 60, o >> 30 & M30, o & M30]


def digits(n):
    return [int(c) for c in str(n)] if n else []


def decimal(fr, keep=45):
    """positive fraction -> (E, digits) with 0.d1d2.. * 10^E, truncated"""
    if fr == 0:
        return -99999999, []
    e = len(str(fr.numerator)) - len(str(fr.denominator)) + 1
    while fr < Fraction(10) ** (e - 1):
        e -= 1
    while fr >= Fraction(10) ** e:
        e += 1
    n = int(fr * Fraction(10) ** (keep - e))
    return e, digits(n)


_iv = {}


def interval(x):
    """The decimals that round to the double |x|."""
    if x in _iv:
        return _iv[x]
    b = struct.unpack('>Q', struct.pack('>d', x))[0]
    if b == 0:
        r = list(decimal(Fraction(0))) + list(decimal(Fraction(1, 2 ** 1075)))
    else:
        val = lambda w: Fraction(struct.unpack('>d', struct.pack('>Q', w))[0])
        top = Fraction(2 ** 1024)
        prev = val(b - 1)
        this = top if b == 0x7ff0000000000000 else val(b)
        nxt = top if b + 1 >= 0x7ff0000000000000 else val(b + 1)
        lo = list(decimal((prev + this) / 2))
        hi = [99999999, [9]] if b == 0x7ff0000000000000 else list(decimal((this + nxt) / 2))
        r = lo + hi
    _iv[x] = r
    return r


def cell(v):
    """python value -> specification value as the machine reports it"""
    k = v[0]
    if k == 'i':
        return ['i', 1 if v[1] < 0 else 0, digits(abs(v[1]))]
    if k == 'f':
        w = struct.unpack('>Q', struct.pack('>d', v[1]))[0]
        x = abs(v[1])
        if x != x:
            return ['?', 'nan']
        return ['f', w >> 63] + interval(x)
    if k == 'u':
        return ['u', wid(v[1], v[2])]
    if k == 's':
        return ['s', [ord(c) for c in v[1]]]
    return ['?', str(v)]


def vcell(tok):
    k, r = tok[0], tok[1:]
    if k == 'i':
        return cell(('i', int(r)))
    if k == 'f':
        return cell(('f', struct.unpack('>d', struct.pack('>Q', int(r, 16)))[0]))
    if k == 'u':
        return ['u', wid(*unpid(r))]
    if k == 's':
        if '!' in r:
            return ['?', tok]
        return ['s', [int(x, 16) for x in r.split('.')] if r else []]
    return ['?', tok]


def ops_of(tok):
    """driver projection of a reading"""
    if tok == '-':
        return []
    out = []
    for o in tok.split('/'):
        if o == 'LOOP':
            out.append([[0] * 6, [0] * 6, [['?', 'LOOP']], 0])
            continue
        i, r, vs, t = o.split('|')
        out.append([wid(*unpid(i)), wid(*unpid(r)), [vcell(x) for x in vs.split(';')] if vs else [],
                    ord(t)])
    return out


def op_cells(op):
    return [wid(*op[0]), wid(*op[1]), [cell(v) for v in op[2]], TERMC[op[3]]]


def raw(h):
    return list(bytes.fromhex(h)) if h != '-' else []


# --------------------------------------------------------------------------
# op sequences: ops are (id, ref, [values], term) with 64-bit word pairs

WORDS = [0, 1, 63, 64, word('lww'), word('rga'), word('abc'), word('~'), word('a'), word('1lD5N'),
         word('0000000001'), word('1'), word('12345'), word('1e5'), word('1E5'), word('0x1'), word('e1'),
         MASK60, MASK60 - 1, word('A') + 1, word('1111111111'), word('5e'), word('E5'), (1 << 30) - 1, 1 << 30]


def rand_word(rng):
    k = rng.randrange(4)
    if k == 0:
        return rng.choice(WORDS)
    if k == 1:
        return rng.getrandbits(60)
    if k == 2:
        return word(''.join(rng.choice('0159eEaZ_~') for _ in range(rng.randrange(1, 11))))
    return word(''.join(rng.choice(ABC) for _ in range(rng.randrange(1, 6))))


def rand_id(rng):
    v, o = rand_word(rng), rand_word(rng)
    k = rng.randrange(6)
    if k == 0:
        return v, 0
    if k == 1:
        return v | rng.randrange(16) << 60, o | rng.randrange(4) << 60
    if k == 2:
        return v | rng.randrange(16) << 60, rng.randrange(4) << 60
    return v, o | 2 << 60


INTS = [0, 1, -1, 9, 10, 42, 2 ** 31, -2 ** 31, 2 ** 53 + 1, 2 ** 62, 2 ** 63 - 1, -2 ** 63, -2 ** 63 + 1,
        9223372036854775806, 999999999999999999, 1000000000000000000, -1000000000000000000]
FLOATS = [0.0, -0.0, 1.0, -1.0, 0.1, 0.5, 1e5, 1e15, 1e16, 1e17, 1e18, 123456789012345678.0, 3.141592653589793,
          1e100, 1e-7, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308,
          0.30000000000000004, 9007199254740993.0, 1e22, 1e23, -1.5e-300, 100000.0, 4503599627370497.5]
CHARS = 'ab01 ~@:;,!?.()\'"\\/\n\r\t\b\f\x01\x7f\x80\xe9\u0436\u07ff\u0800\u20ac\ud7ff\ue000\uffff\U00010000' \
        '\U0001f600\U0010ffff=>^$%+-_{}[]\x0b\x1f\u2028'


def rand_char(rng):
    k = rng.randrange(5)
    if k < 4:
        return rng.choice(CHARS)
    while True:
        c = rng.choice([rng.randrange(1, 128), rng.randrange(1, 0x800), rng.randrange(1, 0x10000),
                        rng.randrange(1, 0x110000)])
        if not 0xd800 <= c < 0xe000:
            return chr(c)


def rand_float(rng):
    k = rng.randrange(4)
    if k == 0:
        return rng.choice(FLOATS)
    if k == 1:
        return rng.choice([-1, 1]) * float(rng.randrange(10 ** rng.randrange(1, 19)))
    if k == 2:
        return rng.randrange(-10 ** 6, 10 ** 6) / 10 ** rng.randrange(6)
    while True:
        x = struct.unpack('>d', struct.pack('>Q', rng.getrandbits(64)))[0]
        if x == x and abs(x) != float('inf'):
            return x


def rand_value(rng):
    k = rng.randrange(9)
    if k <= 1:
        return ('i', rng.choice(INTS) if rng.random() < .6 else rng.getrandbits(64) - 2 ** 63 >> rng.randrange(63))
    if k <= 3:
        return ('f', rand_float(rng))
    if k <= 5:
        return ('u',) + rand_id(rng)
    if k == 6:
        return ('s', rand_char(rng))
    return ('s', ''.join(rand_char(rng) for _ in range(rng.choice([0, 1, 2, 3, 5, 9, 30]))))


def long_run(rng, n):
    """one chain of n ops: characters, or the same value over and over"""
    i, r = rand_id(rng), rand_id(rng)
    chars = rng.random() < .6
    rest = [rand_value(rng) for _ in range(rng.choice([0, 0, 0, 1]))]
    v = rand_value(rng)
    ops = []
    for k in range(n):
        ops.append((i, r, rest + [('s', rand_char(rng))] if chars else [v], ','))
        i, r = inc(i), i
        if rng.random() < 2 / n:
            i = rand_id(rng)
    return ops[:-1] + [ops[-1][:3] + (';',)]


def large_ops(rng):
    """what is past the usual thresholds"""
    k = rng.randrange(5)
    if k == 0:
        return long_run(rng, rng.choice([65, 130, 256, 257, 300, 520, 1100]))
    if k == 1:
        return rand_ops(rng, 1) + [(rand_id(rng), rand_id(rng), [('s', ''.join(rand_char(rng) for _ in range(
            rng.choice([64, 127, 128, 255, 256, 600, 1100, 2100, 5000]))))], ';')]
    if k == 2:
        return rand_ops(rng, 1) + [(rand_id(rng), rand_id(rng), [rand_value(rng) for _ in range(rng.choice([9, 17, 33, 70]))], ',')] + \
            rand_ops(rng, 2)
    if k == 3:
        return rand_ops(rng, rng.choice([40, 70, 150]))
    return [(rand_id(rng), rand_id(rng), [('s', rand_char(rng) * rng.choice([64, 256, 300])), rand_value(rng)], ';')]


def inc(i):
    return ((i[0] + 1) & (1 << 64) - 1, i[1])


def rand_ops(rng, n, terms=True):
    """Neighbouring ops often continue each other: that is what is compressed."""
    ops = []
    prev = (0, 0)
    while len(ops) < n:
        k = rng.random()
        if k < .45:
            i, r = inc(prev), prev
        elif k < .55:
            i, r = inc(prev), rand_id(rng)
        elif k < .65:
            i, r = rand_id(rng), prev
        elif k < .72:
            i, r = (prev[0] + rng.randrange(3) & (1 << 64) - 1, prev[1]), prev
        else:
            i, r = rand_id(rng), rand_id(rng)
        if ops and ops[-1][2] and rng.random() < .5:
            last = ops[-1][2]
            if rng.random() < .6 and last[0][0] == 's':
                vals = [('s', rand_char(rng))]
            else:
                vals = list(last)
        else:
            vals = [rand_value(rng) for _ in range(rng.choice([0, 1, 1, 1, 1, 2, 3]))]
        t = rng.choice(',,,,,,;!?') if terms else ','
        ops.append((i, r, vals, t))
        prev = i
    if ops and rng.random() < .7:
        ops[-1] = ops[-1][:3] + (rng.choice(';;;!?'),)
    return ops


def driver_op(op):
    def val(v):
        if v[0] == 'i':
            return 'i%d' % v[1]
        if v[0] == 'f':
            return 'f%016x' % struct.unpack('>Q', struct.pack('>d', v[1]))[0]
        if v[0] == 'u':
            return 'u%x.%x' % v[1:]
        return 's' + (v[1].encode().hex() or '-')
    return '%x.%x|%x.%x|%s|%s' % (op[0] + op[1] + (';'.join(val(v) for v in op[2]), op[3]))


# --------------------------------------------------------------------------
# spellings

def id_spell(i, rng, exotic):
    t = uuid_text(*i)
    if exotic and rng.random() < .2:
        # insignificant zeros
        head, sep = t, ''
        for k, c in enumerate(t):
            if c in '$%+-':
                head, sep = t[:k], t[k:]
        body = head.split('/')[-1]
        if len(body) < 10:
            head += '0' * rng.randrange(1, 11 - len(body))
        t = head + sep
    if exotic and rng.random() < .1 and '/' not in t:
        t = '0/' + t
    if exotic and rng.random() < .1 and not any(c in t for c in '$%+-'):
        t += '$0'
    return t


def is_numeric(t):
    import re
    return re.fullmatch(r'[+-]?\d+(\.\d+)?([eE][+-]?\d+)?', t) is not None


def str_spell(s, rng, exotic):
    if not exotic:
        return str_text(s)
    out = ''
    for c in s:
        o = ord(c)
        if rng.random() < .15 and o < 0x10000:
            out += '\\u' + (('%04x' if rng.random() < .5 else '%04X') % o)
        elif c == '/' and rng.random() < .5:
            out += '\\/'
        elif c in '"\b\t' and rng.random() < .5:
            out += c
        else:
            out += str_text(c)
    return out


def val_spell(v, rng, exotic, ws):
    """-> (text, needs whitespace before)"""
    quoted = rng.random() < .4
    gap = ws() if rng.random() < .3 else ''
    if v[0] == 'i':
        t = str(v[1])
        if exotic:
            if v[1] >= 0 and rng.random() < .3:
                t = '+' + t
            if rng.random() < .2:
                t = t.replace('-', '-00') if v[1] < 0 else ('+00' + t[1:] if t[0] == '+' else '00' + t)
        return ('=' + gap + t, False) if quoted else (t, True)
    if v[0] == 'f':
        t = float_text(v[1])
        if exotic and rng.random() < .3:
            t = repr(v[1])
        if exotic and rng.random() < .2:
            t = t.replace('E', 'e')
        return ('^' + gap + t, False) if quoted else (t, True)
    if v[0] == 'u':
        t = id_spell(v[1:], rng, exotic)
        if is_numeric(t) or quoted:
            return '>' + gap + t, False
        return t, True
    return "'" + str_spell(v[1], rng, exotic) + "'", False


def spell(ops, rng, exotic=False, loose=True):
    """A random legal text for the ops. Not exotic: numbers, ids and strings
    are spelled the canonical way; what varies is layout and compression."""
    def ws():
        n = rng.randrange(1, 3) if rng.random() < .999 else rng.choice([20, 70, 260])
        return ''.join(rng.choice(' \n\t\r') for _ in range(n)) if loose else ' '

    def gap():
        return ws() if loose and rng.random() < .4 else ''
    out = ''
    prev = (0, 0)
    k = 0
    compress = rng.choice([0, .5, 1])
    while k < len(ops):
        i, r, vals, t = ops[k]
        out += gap()
        dref = r == prev
        did = i == inc(prev)
        spec = ''
        if not (did and dref and rng.random() < compress):
            spec = '@' + id_spell(i, rng, exotic)
            if not (dref and rng.random() < compress):
                spec += gap() + ':' + id_spell(r, rng, exotic)
        run = 1
        chars = False
        while k + run < len(ops) and rng.random() < compress:
            a, b = ops[k + run - 1], ops[k + run]
            if a[3] != ',' or b[0] != inc(a[0]) or b[1] != a[0] or len(b[2]) != len(vals):
                break
            same = b[2] == vals and str(b[2]) == str(vals)
            ch = bool(vals) and b[2][:-1] == vals[:-1] and str(b[2][:-1]) == str(vals[:-1]) and \
                vals[-1][0] == 's' and len(vals[-1][1]) == 1 and b[2][-1][0] == 's' and len(b[2][-1][1]) == 1
            if run == 1:
                if ch and (not same or rng.random() < .7):
                    chars = True
                elif same:
                    chars = False
                else:
                    break
            elif not (ch if chars else same):
                break
            run += 1
        out += spec
        shown = vals[:-1] if chars else vals
        first = True
        for v in shown:
            x, need = val_spell(v, rng, exotic, ws)
            g = gap()
            # a bare atom may open an op; otherwise it needs a gap before
            if need and not g and not (first and not spec):
                g = ws()
            out += g + x
            first = False
        if chars:
            out += gap() + '(' + gap() + "'" + ''.join(str_spell(o[2][-1][1], rng, exotic) for o in ops[k:k + run]) \
                + "'" + gap() + ')'
        elif run > 1:
            n = str(run)
            if exotic and rng.random() < .2:
                n = '00' + n
            out += gap() + '(' + gap() + n + gap() + ')'
        elif exotic and rng.random() < .1:
            out += gap() + '(1)'
        last = ops[k + run - 1]
        out += gap() + last[3]
        prev = last[0]
        k += run
    out += gap()
    if rng.random() < .2:
        out += '.\n'
    return out
