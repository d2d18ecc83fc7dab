"""Family A: the replicated data types (C01-C07)."""
import random, struct
import core, model
from model import render, hx, pid, parse_ops, op_model, name, vtext

FLWW, FRGA, FMX, FMAX, FYARN, FMETA, FLOG, FZERO, FERROR = 13, 14, 15, 19, 1, 8, 2, 0, 255

MAXV = [('i', 5), ('i', -3), ('f', 5.0), ('f', 4.5), ('i', 9007199254740993), ('f', 9007199254740992.0),
        ('i', 2 ** 63 - 1), ('f', -0.25), ('i', 0), ('f', 1048576.5), ('i', 10 ** 18 + 7), ('i', -10 ** 17),
        ('s', 'abc'), ('s', 'abd'), ('u', model.word('abc'), 0), ('u', model.VBASE + 3, 2 << 60 | model.origin(1))]


# values that are alike
MAXNEAR = [('s', 'a common prefix A'), ('s', 'a common prefix B'), ('s', 'a common prefix'), ('s', 'a common prefix \u0436'),
           ('s', ''), ('s', '\uffee'), ('s', '\U0001f600'), ('s', "it's"), ('s', 'its'), ('s', 'a'), ('s', 'B'),
           ('u', model.VBASE + 3, 2 << 60 | model.origin(2)), ('u', model.VBASE + 3, 3 << 60 | model.origin(1)),
           ('u', model.VBASE + 3, 1), ('u', model.VBASE + 4, 0), ('u', model.VBASE, 2 << 60 | model.origin(1)),
           ('i', -2 ** 62), ('i', -2 ** 62 + 1), ('i', 2 ** 62), ('i', 2 ** 62 + 1), ('f', 2.0 ** 62), ('f', 0.25), ('f', -0.5),
           ('i', 1), ('f', 1.5), ('i', 2), ('i', 10), ('i', 9), ('s', '10'), ('s', '9')]
KEYS = [name('key'), name('abc'), ('s', 'k1'), ('s', 'k\u0436')]
_BITS = 0x6162636465666768      # as an integer, a float and a string
KEYSNEAR = [('i', _BITS), ('f', struct.unpack('>d', struct.pack('>Q', _BITS))[0]), ('s', 'abcdefgh'), ('s', 'hgfedcba'),
            ('i', 1), ('f', 1.0), ('i', 0x3ff0000000000000), ('i', 0), ('f', 0.0), ('s', ''), ('s', '1'), ('s', 'key'),
            ('u', model.VBASE + 3, 2 << 60 | model.origin(1)), ('u', model.VBASE + 3, 2 << 60 | model.origin(2)),
            ('u', model.VBASE + 3, 0), ('u', model.VBASE + 3, 3 << 60 | model.origin(1)), ('u', model.word('Key'), 0),
            ('i', model.word('key')), ('s', 'k1 '), ('s', "k'1"), ('s', "k\\'1"), ('s', 'K1')]


def pyval(t):
    """specification value string -> python value"""
    k, _, r = t.partition(':')
    if k == 's':
        return ('s', ''.join(chr(int(x, 16)) for x in r.split('.')) if r else '')
    if k == 'i':
        return ('i', int(r))
    if k == 'v':
        return MAXV[int(r) - 1]
    if k == 'u':
        return name(r)
    raise ValueError(t)


def py_ops(ops):
    return [(o[0], o[1], [pyval(v) for v in o[2]]) for o in ops]


def spec_ops(ops):
    return [op_model(*o) for o in ops]


def line_of(c, rng):
    """case -> (script line, intended input frames)"""
    k = c['k']
    compact = rng.random() < 0.5
    if k in ('merge', 'frames', 'mergegc'):
        ins = [py_ops(f) for f in c['in']]
        fr = ' '.join(hx(render(f, compact)) for f in ins)
        if k == 'mergegc':
            return 'mergegc ' + fr, ins
        route = 'frames' if k == 'frames' else rng.choice(['master', 'strings'])
        return 'merge %s - %d %s' % (route, c['form'], fr), ins
    f = py_ops(c['in'])
    if k in ('chains', 'state') and c['cut'] and k == 'chains':
        compact = False        # a chain is a range of the text: no cuts inside a span
    t = hx(render(f, compact))
    if k in ('gc', 'scan'):
        return '%s %s' % (k, t), [f]
    cut = pid(f[c['cut'] - 1][0]) if c['cut'] else '-'
    return '%s %s %s' % (k, cut, t), [f]


def event(line, ans, intended):
    """script line + driver answer -> trace event"""
    w = line.split(' ')
    k = w[0]
    a = ans.split(' ')
    ins = [spec_ops(f) for f in intended] if intended is not None else None
    crash = a[0] in ('CRASH', 'SKIP')
    ev = {'op': k, 'st': 'CRASH' if crash else a[0], 'seen': True, 'in': ins or [], 'out': []}
    if k == 'merge':
        ev['route'], ev['form'] = w[1], int(w[3])
        real = a[3:]
        if not crash:
            ev['out'] = parse_ops(a[1])
    elif k in ('gc', 'mergegc'):
        real = a[2:]
        if not crash:
            ev['out'] = parse_ops(a[1])
    elif k == 'scan':
        real = a[2:]
        ev['tombs'] = [] if crash or a[1] == '-' else [c == '1' for c in a[1]]
    else:
        ev['hascut'] = w[1] != '-'
        ev['cut'] = model.model(*model.unpid(w[1])) if w[1] != '-' else [0, 0, 0]
        if k == 'chains':
            real = a[1:2]
            if not crash:
                ev['out'] = [parse_ops(x) for x in a[2:]]
        else:
            real = a[2:3]
            if not crash:
                ev['out'] = parse_ops(a[1])
    if not crash:
        real = [parse_ops(x) for x in real]
        if ins is None:
            ev['in'] = real
        else:
            ev['seen'] = real == ins
    return ev


# --------------------------------------------------------------------------
# random histories, larger than the exhaustive scope

def rand_value(rng):
    k = rng.randrange(6)
    if k == 0:
        return ('i', rng.choice([0, 1, -1, 42, 2 ** 62, -2 ** 40, 123456789012345678]))
    if k == 1:
        return ('f', rng.choice([0.5, -1.25, 3.141592653589793, 1e100, 1e-7, 12345.678]))
    if k == 2:
        # mostly short; now and then past the usual thresholds
        n = rng.randrange(6) if rng.random() < .97 else rng.choice([30, 64, 127, 128, 255, 256, 300])
        return ('s', ''.join(rng.choice('abXY0 \u0436\u20ac\U0001f600\n\'"\\') for _ in range(n)))
    if k == 3:
        return name(rng.choice(['key', 'abc', 'x', 'y', 'z']))
    if k == 4:
        return ('u', model.VBASE + rng.randrange(50), 2 << 60 | model.origin(rng.randrange(5)))
    return ('s', rng.choice('abcdef\u0436\'\\\n\U0001f600"'))


def history(rng, form, n, yarns=3):
    """A causally valid set of ops, in creation order."""
    root = ([2, rng.randrange(1, 4), 0], [0, form, 0], [])
    ops = [root]
    pool = MAXV if rng.random() < .4 else MAXNEAR
    if rng.random() < .5:      # of one type, or of two
        ts = rng.choice(['u', 's', 'if', 'us', 'ui'])
        pool = [v for v in MAXV + MAXNEAR if v[0] in ts]
    last = {}
    clock = root[0][1]
    cur = None
    while len(ops) < n:
        if cur is None or rng.random() < 0.35:
            cur = rng.randrange(yarns)
            # concurrent yarns reuse clock values
            base = max(last.get(cur, 0), clock - rng.randrange(0, 3))
            par = None
        v = max(last.get(cur, 0) + 1, base + 1)
        if par is None:
            cand = [o for o in ops if o[0][1] < v]
            if not cand:
                cur = None
                continue
            ref = rng.choice(cand)[0] if form == FRGA else cand[0][0]
        else:
            ref = par
        mid = [2, v, cur]
        if form == FRGA:
            vals = [('s', chr(97 + rng.randrange(26)))] if rng.random() < 0.7 else \
                   rng.choice([[name('rm')]] * 4 + [[name('un')]] * 2 + [[('i', 7)], [name('abc')], [name('r')],
                               [name('rn')], [], [name('rm'), ('i', 1)], [('s', 'r'), name('un')], [('s', 'rm')]])
        elif form == FMAX:
            vals = [rng.choice(pool)]
        elif form in (FLWW,):
            vals = [rng.choice(KEYS if rng.random() < .8 else KEYSNEAR)]
            # mostly one value; none is a deletion
            vals += [rand_value(rng) for _ in range(rng.choice([0, 1, 1, 1, 1, 1, 2, 3]))]
            if rng.random() < .03:
                vals = []
        elif form == FMX:
            vals = [('i', rng.randrange(3)), ('i', rng.randrange(3)), rand_value(rng)]
        else:
            vals = [rand_value(rng) for _ in range(rng.randrange(4))]
        ops.append((mid, list(ref), vals))
        last[cur] = v
        clock = max(clock, v)
        base = v
        par = mid if (form == FRGA or rng.random() < 0.3) and rng.random() < 0.8 else None
        if form != FRGA:
            par = mid if form == FYARN else None
    return ops


def key(mid):
    return (mid[1], mid[0], mid[2])


def tree_frame(ops):
    """ops of a causal tree (or a piece of it) -> reading order"""
    ids = {tuple(o[0]) for o in ops}
    kids = {}
    for o in ops:
        kids.setdefault(tuple(o[1]), []).append(o)
    heads = [o for o in ops if tuple(o[1]) not in ids]
    out = []

    def walk(o):
        st = [o]
        while st:
            x = st.pop()
            out.append(x)
            st.extend(sorted(kids.get(tuple(x[0]), []), key=lambda q: key(q[0])))
    assert len(heads) == 1, heads
    walk(heads[0])
    return out


def pieces(rng, ops, form, crowd=False):
    """Splits a history into frames (states / patches)."""
    if form != FRGA:
        out = []
        n, dense = rng.randrange(2, 7), 0.5
        if rng.random() < 0.06:       # many small frames
            n, dense = rng.choice([9, 17, 33, 40]), 0.15
        if crowd or rng.random() < 0.003:      # or a crowd of them
            n = rng.choice([65, 70, 130])
            dense = 1.2 / n
        for _ in range(n):
            sub = [o for o in ops if rng.random() < dense]
            if sub:
                out.append(sorted(sub, key=lambda o: key(o[0])))
        got = {tuple(o[0]) for f in out for o in f}
        rest = sorted([o for o in ops if tuple(o[0]) not in got], key=lambda o: key(o[0]))
        return out + ([rest] if rest else [])
    dense = 0.3 if not crowd and rng.random() < 0.9 else 0.9
    cut = {tuple(o[0]) for o in ops[1:] if rng.random() < dense}
    par = {tuple(o[0]): tuple(o[1]) for o in ops}
    rootid = tuple(ops[0][0])

    def top(i):
        while i != rootid and i not in cut:
            i = par[i]
        return i
    grp = {}
    for o in ops:
        grp.setdefault(top(tuple(o[0])), []).append(o)
    out = [tree_frame(g) for g in grp.values()]
    if rng.random() < 0.5:     # repeat some knowledge
        out.append(tree_frame(rng.choice(list(grp.values()))))
    return out


def route_script(rng, form, n, crowd=False):
    """One history merged by two different routes. -> lines, [(regA, regB)]"""
    ops = history(rng, form, n)
    ps = pieces(rng, ops, form, crowd)
    lines = ['reset']
    meta = [None]

    def lit():
        f = rng.choice(ps)
        return f
    sides = []
    for side in 'ab':
        order = ps[:]
        rng.shuffle(order)
        regs = []
        k = 0

        def emit(inputs, dst):
            route = rng.choice(['master', 'strings'])
            lines.append('merge %s %s %d %s' % (route, dst, form, ' '.join(inputs)))
            meta.append(None)
        if side == 'a' or form != FRGA and rng.random() < 0.3:
            emit([hx(render(f, rng.random() < 0.5)) for f in order], '$a' if side == 'a' else '$b')
            continue
        if form == FRGA:
            # deliver in causal order, a few at a time, sometimes repeating
            have = None
            known = set()
            todo = order[:]
            while todo:
                ready = [f for f in todo if tuple(f[0][1]) in known or f[0][1][0] == 0]
                take = ready[:rng.randrange(1, 4)]
                for f in take:
                    todo.remove(f)
                    known |= {tuple(o[0]) for o in f}
                ins = [hx(render(f, rng.random() < 0.5)) for f in take]
                if have:
                    ins.insert(rng.randrange(len(ins) + 1), have)
                    if rng.random() < 0.3:
                        ins.append(have)
                have = '$b' if not todo else '$t%d' % k
                k += 1
                emit(ins, have)
        else:
            pool = [hx(render(f, rng.random() < 0.5)) for f in order]
            while len(pool) > 1:
                m = min(len(pool), rng.randrange(2, 5))
                ins = [pool.pop(rng.randrange(len(pool))) for _ in range(m)]
                if rng.random() < 0.3:
                    ins.append(ins[0])
                dst = '$t%d' % k
                k += 1
                emit(ins, dst)
                pool.append(dst)
            emit([pool[0], pool[0]], '$b')
    return lines


def piles(rng, size):
    """Inputs of no order of their own: logs, and what has no type."""
    form = rng.choice([FLOG, FLOG, FZERO, FERROR])
    ins = []
    for _ in range(size):
        i = [2, rng.randrange(1, 60), rng.randrange(4)]
        f = [(i, [0, FLOG, 0] if form == FLOG and rng.random() < .4 else [2, rng.randrange(1, 60), 1],
              [rand_value(rng) for _ in range(rng.choice([0, 1, 1, 2]))])]
        for _ in range(rng.choice([0, 0, 1, 3])):
            i = [2, rng.randrange(1, 60), rng.randrange(4)] if rng.random() < .5 else [2, i[1] + 1, i[2]]
            f.append((i, f[-1][0], [rand_value(rng) for _ in range(rng.choice([0, 1, 1, 2]))]))
        ins.append(f)
        if rng.random() < .1:
            ins.append(rng.choice(ins))
    route = rng.choice(['master', 'strings'])
    return 'merge %s - %d %s' % (route, form, ' '.join(hx(render(f, rng.random() < .5)) for f in ins)), ins


def route_events(lines, answers):
    evs, keep = [], {}
    src = []
    for l, a in zip(lines, answers):
        w = l.split(' ')
        if w[0] == 'reset':
            keep = {}
            if a.split(' ')[0] != 'OK':
                raise core.ToolError('reset failed: ' + a)
            continue
        ev = event(l, a, None)
        evs.append(ev)
        src.append(l)
        if ev['st'] == 'OK':
            keep[w[2]] = (ev['out'], a.split(' ')[2])
        if w[2] == '$b' and '$a' in keep and '$b' in keep:
            x, y = keep['$a'], keep['$b']
            evs.append({'op': 'same', 'st': 'OK', 'seen': True, 'a': x[0], 'b': y[0], 'ta': x[1], 'tb': y[1]})
            src.append(l)
    return evs, src


def spoiled(rng, f):
    """the shape of a tree, but ..."""
    i, j = rng.randrange(len(f)), rng.randrange(len(f))
    k = rng.randrange(5)
    if k < 2:      # an op older than what it hangs on
        a, b = f[i][0], f[j][0]
        m = {tuple(a): b, tuple(b): a}
        if k and i + 1 < len(f):      # of two neighbours
            b = f[i + 1][0]
            m = {tuple(a): b, tuple(b): a}
        return [(m.get(tuple(o[0]), o[0]), m.get(tuple(o[1]), o[1]), o[2]) for o in f]
    f = list(f)
    o = f[i]
    if k == 2:     # an id that is no event
        n = [0, rng.choice([FLWW, FRGA, 1000]), 0]
        f = [(n if x[0] == o[0] else x[0], n if x[1] == o[0] else x[1], x[2]) for x in f]
    elif k == 3:   # hangs on nothing
        f[i] = (o[0], rng.choice([[0, FLWW, 0], [0, FRGA, 0], [0, 1000, 0], [2, 1, 5], f[j][0], o[0]]), o[2])
    else:          # not from the root on
        f = f[i:]
    return f


def rand_scans(rng, count, size):
    out = []
    for _ in range(count):
        n = rng.randrange(2, size)
        ops = history(rng, FRGA, n, yarns=rng.randrange(1, 4))
        if rng.random() < 0.5:     # deep removal and undo chains
            p = {tuple(o[0]): o for o in ops}
            ops = [(o[0], o[1], o[2]) for o in ops]
            nm = 'rm'
            for k in range(1, len(ops)):
                if rng.random() < 0.3:
                    nm = rng.choice(['rm', 'rm', 'un', 'c'])
                if k > len(ops) // 3:
                    ops[k] = (ops[k][0], ops[k][1], [name(nm)] if nm != 'c' else [('s', 'q')])
        f = tree_frame(ops)
        if rng.random() < 0.15 and len(f) > 3:
            i, j = rng.randrange(1, len(f)), rng.randrange(1, len(f))
            f[i], f[j] = f[j], f[i]
        elif rng.random() < 0.15:
            f = spoiled(rng, f)
        out.append(('scan %s' % hx(render(f, rng.random() < 0.5)), [f]))
    return out


def deep_scans(rng, sizes):
    """A text typed in one go, then a long chain of removals and undos; letters
    of somebody else in between, which are read after all of that."""
    out = []
    for n in sizes:
        ops = [([2, 1, 0], [0, FRGA, 0], [])]
        jump = rng.choice([0, 0, .003, .03])
        for v in range(2, n + 2):
            ref = ops[-1][0] if rng.random() >= jump else rng.choice(ops)[0]
            ops.append(([2, v, 1], ref, [('s', 'q')]))
        at = ops[-1][0]
        for v in range(n + 2, n + 2 + rng.choice([1, 2, 7, n // 2, n // 2 + 1])):
            ops.append(([2, v, 1], at, [name('rm' if rng.random() < .5 else 'un')]))
            at = ops[-1][0]
        for o in rng.sample(ops, rng.choice([0, 1, 3, 12])):
            if o[1][0] == 2 and o[1][1] + 1 < o[0][1] or rng.random() < .7 and o[1][0] == 2:
                new = ([2, o[1][1] + 1, 0], o[1], [rng.choice([('s', 'z'), ('s', 'z'), name('rm')])])
                if tuple(new[0]) not in {tuple(x[0]) for x in ops}:
                    ops.append(new)
        f = tree_frame(ops)
        out.append(('scan %s' % hx(render(f, rng.random() < 0.5)), [f]))
    return out


def rand_logs(rng, count, size):
    out = []
    for _ in range(count):
        form = rng.choice([FRGA, FRGA, FLWW, FMX])
        ops = history(rng, form, rng.randrange(2, size))
        if form == FRGA:
            cut = rng.choice(ops)[0] if rng.random() < 0.7 else None
        else:
            cut = rng.choice(ops)[0] if rng.random() < 0.7 else None
        k = rng.choice(['state', 'state', 'chains'])
        compact = rng.random() < 0.6 and not (k == 'chains' and cut)
        if form == FRGA:
            ops = [(o[0], o[1], o[2] if o[2] and o[2][0][0] != 'i' else ([('s', 'q')] if o[2] else [])) for o in ops]
        out.append(('%s %s %s' % (k, pid(cut) if cut else '-', hx(render(ops, compact))), [ops]))
    return out


def rand_gcs(rng, count, size, keys=0):
    out = []
    for _ in range(count):
        ops = sorted(history(rng, FLWW, rng.randrange(2, size)), key=lambda o: key(o[0]))
        if keys:
            ops = many_keys(rng, ops, rng.randrange(10, keys))
        if rng.random() < 0.5:
            if rng.random() < .2:      # as they came
                rng.shuffle(ops)
            out.append(('gc %s' % hx(render(ops, rng.random() < 0.5)), [ops]))
        else:
            ps = pieces(rng, ops, FLWW)
            out.append(('mergegc ' + ' '.join(hx(render(f)) for f in ps), ps))
    return out


def types(f):
    return [[v[0] for v in o[2]] for o in f]


def view_job(rng, ops):
    """One view over a state and what came later, in any order and cuts, read and written through."""
    ops = [o for o in ops]
    if rng.random() < .3:
        rng.shuffle(ops)
    frames = []
    while ops:
        n = rng.randrange(1, len(ops) + 1) if frames or rng.random() < .6 else len(ops)
        frames.append(ops[:n])
        ops = ops[n:]
    if len(frames) > 1 and rng.random() < .3:
        frames.append(rng.choice(frames))      # again
    if rng.random() < .3:
        rng.shuffle(frames)
    keys = {o[2][0][1:] for f in frames for o in f if o[2] and o[2][0][0] == 'u'}
    keys = sorted(keys | {(model.word('abc'), 0), (model.word('nokey'), 0)})
    top = max((o[0] for f in frames for o in f), key=key)
    texts = [hx(render(f, rng.random() < .5)) for f in frames]
    line, steps = ['view', texts[0]], [('sees', frames[0])]
    if rng.random() < .04:
        line[1], steps = hx(''), [('sees', [])]

    def ask(n):
        for k in rng.sample(keys, min(n, len(keys))):
            line.append('k:%x.%x' % k)
            steps.append(('reads', k))
    for f, t in list(zip(frames, texts))[1:]:
        if rng.random() < .5:
            ask(2)
        line.append('%s:%s' % (rng.choice('uuo'), t))
        steps.append(('sees', f))
    ask(99)
    if steps[0][1] and rng.random() < .5:
        v = top[1]
        for _ in range(rng.randrange(1, 4)):
            v += 1
            i, k = [2, v, rng.randrange(3)], rng.choice(keys)
            x = rng.choice([('i', rng.choice([0, -5, 2 ** 62])), ('u', model.word('abc'), 0),
                            ('u', model.VBASE + 3, 2 << 60 | model.origin(1)), ('s', ''), ('s', 'q'), ('s', "it's \u0436")])
            w = {'i': lambda: str(x[1]), 'u': lambda: '%x.%x' % x[1:], 's': lambda: hx(x[1])}[x[0]]()
            noted = rng.random() < .6
            line.append('%s:%s:%x.%x:%s:%s' % ('W' if noted else 'w', pid(i), *k, x[0], w))
            steps.append(('writes', i, k, x, noted))
            ask(2)
        ask(99)
    return ' '.join(line), steps


def view_event(line, ans, steps):
    a = ans.split(' ')
    if a[0] in ('CRASH', 'SKIP'):
        return {'op': 'view', 'st': 'CRASH', 'seen': True}
    out, seen = [], True
    for s, x in zip(steps, a[1:]):
        if s[0] == 'sees':
            f = parse_ops(x)
            seen = seen and f == spec_ops(s[1])
            out.append({'k': 'sees', 'f': f, 'types': types(s[1])})
        elif s[0] == 'reads':
            u, n, t = x.split(',')
            try:
                t = vtext(('s', bytes.fromhex('' if t == 'x-' else t[1:]).decode('utf-8', 'surrogatepass')))
            except UnicodeDecodeError:
                t = '?'
            out.append({'k': 'reads', 'key': vtext(('u',) + s[1]),
                        'got': {'u': vtext(('u',) + model.unpid(u)), 'f': n if n == 'nan' else 'f:' + n, 's': t}})
        else:
            out.append({'k': 'writes', 'id': s[1], 'key': vtext(('u',) + s[2]), 'val': vtext(s[3]), 'type': s[3][0],
                        'noted': s[4], 'out': parse_ops(x)})
    return {'op': 'view', 'st': a[0] if len(a) == len(steps) + 1 else 'CRASH', 'seen': seen, 'steps': out}


def many_keys(rng, ops, n):
    """The same writes under n keys, some of them read alike."""
    ks = [('u', model.word('k') + (k << 24), 0) for k in range(n)] + KEYSNEAR + KEYS
    rng.shuffle(ks)
    out = []
    for o in ops:
        if o[2]:
            k = ks.pop() if ks and rng.random() < .8 else rng.choice([x[2][0] for x in out if x[2]] or KEYS)
            o = (o[0], o[1], [k] + o[2][1:])
        out.append(o)
    return out


def view_ops(rng, size):
    """Writes of all types under few keys."""
    ops = sorted(history(rng, FLWW, rng.randrange(2, size)), key=lambda o: key(o[0]))
    near = rng.random() < .3
    ks = [k for k in (KEYSNEAR if near else KEYS + [name('x'), ('u', model.VBASE + 3, 2 << 60 | model.origin(1))])]
    ks = rng.sample(ks, min(len(ks), rng.randrange(1, 7)))
    return [ops[0]] + [(o[0], o[1], ([rng.choice(ks)] + o[2][1:]) if o[2] else o[2]) for o in ops[1:]]


# --------------------------------------------------------------------------

PLAN = {
    # property: (models, quick generators, thorough generators, random kinds)
    'C01': (['Lww', 'Rga', 'Max'], ['states4', 'sorted3', 'max4'], ['states5', 'weave5', 'sorted4', 'max6'], ['route']),
    'C02': (['Lww'], ['sorted3', 'declared3'], ['sorted4', 'declared3'], ['route_sorted', 'piles']),
    'C03': (['Rga'], ['weave5', 'states4'], ['weave5', 'states5'], ['route_rga']),
    'C04': ([], ['scan5', 'broken5'], ['scan6', 'broken5'], ['scan']),
    'C05': (['Max'], ['max4'], ['max6', 'max8'], ['route_max']),
    'C06': (['Lww'], ['gc5'], ['gc5', 'gc6'], ['gc']),
    'C30': (['Lww'], ['gc5'], ['gc5', 'gc6'], ['view']),
    'C07': (['Rga'], ['logs5', 'lwwlogs4'], ['logs5', 'lwwlogs5', 'logs6'], ['logs']),
}


def check(prop, tier, ctx):
    models, quick, deep, rnd = PLAN[prop]
    rng = random.Random(core.SEED * 1000 + int(prop[1:]))
    exe = core.build('d_rdt')
    for m in models:
        r = core.model_check('RdtModel', 'RdtModel_' + m + ('' if tier == 'thorough' else '_q'))
        ctx.model(r)
    cases = []
    for g in (deep if tier == 'thorough' else quick):
        cs, r = core.generate('RdtGen', 'RdtGen_' + g)
        ctx.model(r)
        cases += cs
    # every third case at another place among the ids
    evs, src = [], []
    for p in range(len(model.PLACES)):
        model.place(p)
        e, s = one_place(exe, rng, cases[p::len(model.PLACES)], rnd, (4000 if tier == 'thorough' else 500) // len(model.PLACES), prop)
        evs += e
        src += s
    model.place(0)
    ctx.judge('RdtTrace', evs, src, exe)


def one_place(exe, rng, cases, rnd, n, prop):
    jobs = [view_job(rng, py_ops(c['in'])) for c in cases if c['k'] == 'gc'] if 'view' in rnd else [line_of(c, rng) for c in cases]
    routes = []
    forms = {'route': [FLWW, FRGA, FMX, FMAX, FYARN, FMETA], 'route_sorted': [FLWW, FMX, FYARN, FMETA],
             'route_rga': [FRGA], 'route_max': [FMAX]}
    for k in rnd:
        if k in forms:
            for _ in range(n):
                routes += route_script(rng, rng.choice(forms[k]), rng.randrange(3, 24))
            for size in (40, 70, 130) * (n // 100):
                routes += route_script(rng, rng.choice(forms[k]), size)
            for _ in range(n // 80):      # a crowd of inputs
                routes += route_script(rng, rng.choice(forms[k]), 150, crowd=True)
        elif k == 'piles':
            jobs += [piles(rng, rng.randrange(1, 9)) for _ in range(n)]
            jobs += [piles(rng, size) for size in (33, 65, 70, 130) * (n // 80)]
        elif k == 'scan':
            jobs += rand_scans(rng, n * 2, 40) + rand_scans(rng, n // 20, 300)
            jobs += deep_scans(rng, (100, 140, 260, 300) * 3 * (n // 100) + (530,))
        elif k == 'logs':
            jobs += rand_logs(rng, n * 2, 24) + rand_logs(rng, n // 20, 140)
        elif k == 'view':
            jobs += [view_job(rng, view_ops(rng, 24)) for _ in range(n * 4)]
            jobs += [view_job(rng, view_ops(rng, 140)) for _ in range(n // 10)]
            jobs += [view_job(rng, many_keys(rng, view_ops(rng, 200), size)) for size in (20, 70, 140, 300) * (n // 60)]
        elif k == 'gc':
            jobs += rand_gcs(rng, n * 2, 24) + rand_gcs(rng, n // 20, 140)
            jobs += rand_gcs(rng, n // 10, 240, 300)
    ans = core.run_driver(exe, [j[0] for j in jobs], prop)
    evs = [(view_event if j[0].startswith('view ') else event)(j[0], a, j[1]) for j, a in zip(jobs, ans)]
    src = [j[0] for j in jobs]
    if routes:
        ra = core.run_driver(exe, routes, prop + 'r', stateful=True)
        e2, s2 = route_events(routes, ra)
        evs += e2
        src += s2
    return evs, src
