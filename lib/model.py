"""The projection between model terms (small ids, tagged values) and the real
system's terms (128-bit ids, text frames). Written from the RON text grammar,
independently of /repo's own encoders."""
import hashlib, struct
from fractions import Fraction

ABC = '0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz~'
IDX = {c: i for i, c in enumerate(ABC)}
MASK60 = (1 << 60) - 1
FORMS = ['zero', 'yarn', 'log', 'tail', 'patch', 'span', 'chain', 'graph', 'meta', 'prev',
         'obj', 'sha3', 'vv', 'lww', 'rga', 'mx', 'json', 'csv', 'txt', 'max']


def word(text):
    v = 0
    for c in text:
        v = v << 6 | IDX[c]
    return v << 6 * (10 - len(text))


def unword(v):
    s = ''.join(ABC[v >> (54 - 6 * i) & 63] for i in range(10))
    return s.rstrip('0') or '0'


VBASE = word('1lD5N')          # model event values are small offsets from here
FORMV = {word(n): i for i, n in enumerate(FORMS)}
KINDC = '$%+-'


def origin(o):
    """Model origins 0.. are the words A0.., B0..: order-preserving."""
    return (10 + o) << 54


# Ways to place the model's ids among the real ones; every one keeps the order,
# and runs of up to eight ids: close values and origins that differ on top,
# values that differ on top and origins at the bottom, both in the middle.
PLACES = [(lambda v: VBASE + v, origin),
          (lambda v: (v >> 3 << 40) + 64 + (v & 7), lambda o: o + 1),
          (lambda v: (1 << 59) + (v >> 3 << 30) + (v & 7), lambda o: (o + 1 << 30) + 5)]
PLACE = 0
BACK = {}


def place(n):
    global PLACE
    PLACE = n
    if n not in BACK:
        pv, po = PLACES[n]
        BACK[n] = ({pv(v): v for v in range(1 << 13)}, {po(o): o for o in range(1 << 10)})


def real(mid):
    """model id -> (value word, origin word)"""
    k, v, o = mid
    if k == 0 and o == 0:
        if v == 1000:
            return 0, 0
        return word(FORMS[v]), 0
    pv, po = PLACES[PLACE]
    return pv(v), k << 60 | po(o)


def model(value, org):
    if value == 0 and org == 0:
        return [0, 1000, 0]
    if org == 0 and value in FORMV:
        return [0, FORMV[value], 0]
    k, p = org >> 60, org & MASK60
    if PLACE and k < 4 and value in BACK[PLACE][0] and p in BACK[PLACE][1]:
        return [k, BACK[PLACE][0][value], BACK[PLACE][1][p]]
    if not PLACE and k < 4 and VBASE <= value < VBASE + (1 << 20) and p >> 54 >= 10 and p & ((1 << 54) - 1) == 0:
        return [k, value - VBASE, (p >> 54) - 10]
    h = hashlib.sha256(b'%x.%x' % (value, org)).digest()
    return [9, int.from_bytes(h[:3], 'big'), int.from_bytes(h[3:6], 'big')]


def uuid_text(value, org):
    s = ''
    if value >> 60:
        s = '%X/' % (value >> 60)
    s += unword(value & MASK60)
    if org:
        s += KINDC[org >> 60] + unword(org & MASK60)
    return s


def id_text(mid):
    return uuid_text(*real(mid))


def pid(mid):
    return '%x.%x' % real(mid)


def unpid(t):
    a, b = t.split('.')
    return int(a, 16), int(b, 16)


# --- values -----------------------------------------------------------------
# Python form: ('i', int) ('f', float) ('u', value, origin) ('s', str)

NAMES = ['rm', 'un', 'in', 'eq', 'key', 'abc', 'x', 'y', 'z', 'A', 'B', 'C'] + ['n' + c for c in ABC[10:50]] + FORMS
NAMEV = {word(n): n for n in NAMES}


def name(n):
    return ('u', word(n), 0)


def vtext(v):
    """The tagged string the specification sees."""
    if v[0] == 'i':
        return 'i:%d' % v[1]
    if v[0] == 'f':
        return 'f:%016x' % struct.unpack('>Q', struct.pack('>d', v[1]))[0]
    if v[0] == 's':
        return 's:' + '.'.join('%x' % ord(c) for c in v[1])
    if v[2] == 0 and v[1] in NAMEV:
        return 'u:' + NAMEV[v[1]]
    return 'u:%x.%x' % (v[1], v[2])


def vparse(tok):
    """Driver token -> python value."""
    k, r = tok[0], tok[1:]
    if k == 'i':
        return ('i', int(r))
    if k == 'f':
        return ('f', struct.unpack('>d', struct.pack('>Q', int(r, 16)))[0])
    if k == 'u':
        return ('u',) + unpid(r)
    if k == 's':
        if '!' in r:
            return ('?', tok)
        cps = [int(x, 16) for x in r.split('.')] if r else []
        if any(c > 0x10ffff for c in cps):
            return ('?', tok)
        return ('s', ''.join(map(chr, cps)))
    return ('?', tok)


def limbs(n, count=5, base=1 << 28):
    """Exact integer -> fixed number of limbs, the first one signed."""
    out = []
    for _ in range(count - 1):
        out.append(n % base)
        n //= base
    assert -base < n < base, n
    out.append(n)
    return out[::-1]


def rank(v):
    """Place in the order of values: [class, limbs...]."""
    if v[0] == 'u':
        return [0] + limbs(v[1], 4) + limbs(v[2], 4)
    if v[0] in 'if':
        x = Fraction(v[1]) * 1024
        if x.denominator != 1:
            return [1, 0, 0, 0, 0, 1]   # outside the generators' scope
        if abs(x) >= 1 << 130:
            return [1, (1 << 27) * (1 if x > 0 else -1), 0, 0, 0, 0]
        return [1] + limbs(int(x))
    if v[0] == 's':
        return [2] + [ord(c) for c in v[1]]
    return [9]


def op_model(mid, mref, vals):
    return [list(mid), list(mref), [vtext(v) if v[0] != '?' else '?:' + v[1] for v in vals],
            rank(vals[0]) if vals and vals[0][0] != '?' else [0]]


def parse_ops(tok, terms=False):
    """Driver projection of a frame -> list of model ops."""
    if tok == '-':
        return []
    out = []
    for o in tok.split('/'):
        if o == 'LOOP':
            out.append([[9, 0, 0], [9, 0, 0], ['?:LOOP'], [0]])
            continue
        i, r, vs, t = o.split('|')
        vals = [vparse(x) for x in vs.split(';')] if vs else []
        op = op_model(model(*unpid(i)), model(*unpid(r)), vals)
        if terms:
            op.append(t)
        out.append(op)
    return out


# --- text -------------------------------------------------------------------

ESC = {'"': '\\"', "'": "\\'", '\\': '\\\\', '\b': '\\b', '\n': '\\n', '\r': '\\r', '\t': '\\t'}


def str_text(s):
    return ''.join(ESC.get(c, c) for c in s)


def float_text(f):
    t = '%.17G' % f
    if not any(c in t for c in '.E'):
        t += '.0'
    return t


def val_text(v):
    if v[0] == 'i':
        return '=%d' % v[1]
    if v[0] == 'f':
        return '^' + float_text(v[1])
    if v[0] == 'u':
        return '>' + uuid_text(v[1], v[2])
    return "'" + str_text(v[1]) + "'"


def follows(mid, prev):
    """the next id of the same yarn"""
    a, b = real(prev), real(mid)
    return b == (a[0] + 1, a[1])


def render(ops, compact=False, end=';'):
    """ops: [(mid, mref, [values])] -> text. `compact` drops what the grammar
    implies and folds character and id runs; otherwise all is explicit."""
    if not ops:
        return ''
    parts = []
    prev = None
    k = 0
    while k < len(ops):
        mid, mref, vals = ops[k]
        head = '@%s :%s' % (id_text(mid), id_text(mref))
        seqid = prev is not None and follows(mid, prev)
        seqref = prev is not None and list(mref) == list(prev)
        if compact and seqref:
            head = '' if seqid else '@' + id_text(mid)
        run = 1
        if compact and len(vals) == 1 and (vals[0][0] == 'u' or vals[0][0] == 's' and len(vals[0][1]) == 1):
            while k + run < len(ops):
                a, b = ops[k + run - 1], ops[k + run]
                if not follows(b[0], a[0]) or list(b[1]) != list(a[0]):
                    break
                if len(b[2]) != 1 or b[2][0][0] != vals[0][0]:
                    break
                if vals[0][0] == 'u' and b[2][0] != vals[0]:
                    break
                if vals[0][0] == 's' and len(b[2][0][1]) != 1:
                    break
                run += 1
        if run > 1:
            if vals[0][0] == 'u':
                body = val_text(vals[0]) + '(%d)' % run
            else:
                body = "('%s')" % ''.join(str_text(o[2][0][1]) for o in ops[k:k + run])
        else:
            body = ' '.join(val_text(v) for v in vals)
        parts.append((head + ' ' + body).strip() if head else ' ' + body)
        prev = ops[k + run - 1][0]
        k += run
    return ',\n'.join(parts) + end + '\n'


def hx(text):
    b = text.encode('utf-8', 'surrogatepass') if isinstance(text, str) else text
    return b.hex() or '-'
