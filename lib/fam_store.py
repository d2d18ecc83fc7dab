"""Family D: the stores (C13-C18): durable, in-memory, joined; branches,
iteration, crashes."""
import random
import core, model
from model import MASK60, hx, render, parse_ops, op_model, unpid, pid
import fam_rdt
from fam_rdt import FLWW, FRGA, FMX, FMAX, FYARN, FMETA, FLOG

FZERO = 0
END, ZERO = 'END', 'ZERO'
LIM = (1 << 30) - 1
SORTED = [FLWW, FMX, FYARN, FMETA]


# --------------------------------------------------------------------------
# keys: (form, value, origin), all payload bits; or END / ZERO

def key_spec(k):
    if k == END:
        return [255, LIM, LIM, LIM, LIM]
    if k == ZERO:
        return [0, 0, 0, 0, 0]
    f, v, o = k
    return [f, o >> 30, o & LIM, v >> 30, v & LIM]


def key_tok(k):
    return k if k in (END, ZERO) else '%d:%x.%x' % (k[0], k[1], k[2] | 2 << 60)


def key_back(h):
    b = bytes.fromhex(h)
    hi, lo = int.from_bytes(b[:8], 'big'), int.from_bytes(b[8:], 'big')
    o = (hi & (1 << 56) - 1) << 4 | lo >> 60
    v = lo & MASK60
    return [hi >> 56, o >> 30, o & LIM, v >> 30, v & LIM]


def near_key(k, d):
    """the key d places further in the order of one form"""
    f, v, o = k
    n = (o << 60 | v) + d
    n = max(0, min((1 << 120) - 1, n))
    return f, n & MASK60, n >> 60


# --------------------------------------------------------------------------
# one recorded history

class Hist:
    def __init__(self, note=''):
        self.jobs = [('reset', None)]
        self.note = note

    def add(self, line, op, parse=None, **kw):
        self.jobs.append((line, (op, kw, parse)))

    # commands
    def create(self, slot, b, frm=''):
        self.add('create %s %s%s' % (slot, b, ' ' + frm if frm else ''), 'create', slot=slot, b=b, **{'from': frm})

    def open(self, slot, b='0'):
        self.add('open %s %s' % (slot, b), 'open', slot=slot, b=b)

    def openall(self):
        self.add('openall', 'openall', lambda w: {'ids': w[1:]})

    def close(self, slot):
        self.add('close ' + slot, 'close', slot=slot)

    def drop(self, slot):
        self.add('drop ' + slot, 'drop', slot=slot)

    def mem(self, slot):
        self.add('mem ' + slot, 'mem', slot=slot)

    def memopen(self, slot, mid):
        self.add('memopen %s %s' % (slot, pid(mid)), 'memopen', slot=slot, f=[op_model(mid, [0, 1, 0], [])])

    def join(self, slot, a, b):
        self.add('join %s %s %s' % (slot, a, b), 'join', slot=slot, a=a, b=b)

    def write(self, slot, k, text, ops):
        self.add('write %s %s %s' % (slot, key_tok(k), hx(text)), 'write', slot=slot, k=key_spec(k), f=ops)

    def batch(self, slot, recs):
        self.add('batch %s %s' % (slot, ' '.join('%s %s' % (key_tok(k), hx(t)) for k, t, _ in recs)), 'batch',
                 slot=slot, recs=[[key_spec(k), o] for k, _, o in recs])

    def release(self, slot, to):
        self.add('release %s %s' % (slot, to), 'release', slot=slot, to=to)

    def read(self, slot, k):
        self.add('read %s %s' % (slot, key_tok(k)), 'read', lambda w: {'out': parse_ops(w[1])}, slot=slot, k=key_spec(k))

    def dump(self, slot):
        self.add('dump ' + slot, 'dump', lambda w: {'recs': dumped(w[1:])}, slot=slot)

    def iter(self, it, slot):
        self.add('iter %s %s' % (it, slot), 'iter', it=it, slot=slot)

    def seek(self, it, k, prev):
        self.add('seek %s %s %d' % (it, key_tok(k), prev), 'seek', stand, it=it, k=key_spec(k), prev=bool(prev))

    def next(self, it):
        self.add('next ' + it, 'next', stand, it=it)

    def istop(self, it):
        self.add('istop ' + it, 'istop', it=it)

    def iclose(self, it):
        self.add('iclose ' + it, 'iclose', it=it)

    def upkeep(self, what, slot=''):
        self.add((what + ' ' + slot).strip(), what, slot=slot)

    def crash(self, n, mode, sub):
        """sub: a Hist whose commands run in a process that is killed"""
        cmds = '^'.join(l.replace(' ', ',') for l, _ in sub.jobs[1:])

        def parse(w):
            got = ' '.join(w[2:])
            got = [] if got == '-' else got.split('^')
            subs = [make_event(sub.jobs[1 + i][1], a) for i, a in enumerate(got)]
            cur = []
            if w[0] == 'killed' and len(got) < len(sub.jobs) - 1:
                op, kw, _ = sub.jobs[1 + len(got)][1]
                cur = [dict(kw, op=op, ok=False)]
            return {'subs': subs, 'cur': cur, 'made': w[1]}
        self.add('crash %d %d %s' % (n, mode, cmds), 'crash', parse)


def make_event(job, answer):
    op, kw, parse = job
    w = answer.split(' ')
    e = dict(kw, op=op)
    if w[0] == 'CRASH':
        return {'op': op, 'st': 'CRASH', 'why': answer}
    if w[0] in ('TIDYOPEN', 'TOOL'):
        raise core.ToolError('harness: %s %s' % (op, answer))
    e['st'] = 'ok'
    e['ok'] = w[0] == 'OK'
    if parse:
        e.update(parse(w))
    return e


def stand(w):
    return {'key': key_back(w[1]), 'val': parse_ops(w[2])}


def dumped(ws):
    out = []
    for x in ws:
        if x == 'LOOP':
            out.append([[256], []])
            continue
        k, _, v = x.partition('=')
        out.append([key_back(k), parse_ops(v)])
    return out


def run(ctx, hists, exe, tag, batch=4000):
    """Runs histories, returns trace lines."""
    out = []
    for off in range(0, len(hists), batch):
        part = hists[off:off + batch]
        lines = [l for h in part for l, _ in h.jobs]
        ans = core.run_driver(exe, lines, tag, stateful=True)
        at = 0
        for h in part:
            evs = []
            for (l, job), a in zip(h.jobs, ans[at:at + len(h.jobs)]):
                if job is None:
                    if a != 'OK':
                        raise core.ToolError('reset: ' + a)
                    continue
                if a.split(' ')[0] == 'SKIP':
                    break
                evs.append(make_event(job, a))
            at += len(h.jobs)
            out.append({'op': h.note or 'history', 'ev': evs})
    return out


def judge(ctx, hists, exe, tag):
    traces = run(ctx, hists, exe, tag)
    src = ['\n'.join(l for l, _ in h.jobs) for h in hists]
    n = sum(len(t['ev']) for t in traces)
    keep = [(t, s) for t, s in zip(traces, src) if t['ev']]
    ctx.count('calls', n)
    for t, _ in keep:
        for e in t['ev']:
            ctx.count('call ' + e['op'])
    ctx.judge('StoreTrace', [t for t, _ in keep], [s for _, s in keep])
    return traces


# --------------------------------------------------------------------------
# what gets written: objects with their frames in an order that makes sense

FORMS_ALL = [FLWW, FRGA, FMX, FMAX, FYARN, FMETA, FLOG, FZERO]


class Obj:
    """A record: its key and the frames to write to it, the causal order first
    (whole: any of the frames can be merged with no others)."""

    def __init__(self, rng, form=None, size=None, key=None, whole=False, fine=False):
        self.form = rng.choice(FORMS_ALL) if form is None else form
        size = size or rng.randrange(2, 10)
        hf = self.form if self.form not in (FLOG, FZERO) else rng.choice([FLWW, FRGA, FMX])
        ops = fam_rdt.history(rng, hf, size)
        root = ops[0]
        if self.form == FRGA:
            ps = fam_rdt.pieces(rng, ops, FRGA)
            done, known, todo = [], set(), ps[:]
            while todo:
                ready = [f for f in todo if tuple(f[0][1]) in known or f[0][1][0] == 0]
                f = rng.choice(ready)
                todo.remove(f)
                known |= {tuple(o[0]) for o in f}
                done.append(f)
            ps = done
            if whole:
                ps = [fam_rdt.tree_frame([o for o in ops if any(o in f for f in done[:i + 1])])
                      for i in range(len(done))]
        elif self.form == FZERO or fine:
            ps = [[o] for o in ops]
        else:
            ps = fam_rdt.pieces(rng, ops, hf if hf != FRGA else FLWW)
            rng.shuffle(ps)
        if rng.random() < .2:      # knowledge repeats
            ps.append(rng.choice(ps))
        if rng.random() < .15 and self.form != FRGA:
            ps.insert(rng.randrange(len(ps) + 1), [])
        self.frames = [(render(f, rng.random() < .5) if f else '', [op_model(*o) for o in f]) for f in ps]
        if key is None:
            v, o = model.real(root[0])
            key = (self.form, v & MASK60, o & MASK60)
        self.key = key


SPREAD = [0, 1, 15, 16, 255, 256, 1 << 30, (1 << 30) - 1, 1 << 56, 1 << 59, MASK60, MASK60 - 1, model.VBASE, model.VBASE + 1]


def rand_key(rng, form):
    return form, rng.choice(SPREAD), rng.choice(SPREAD[:-2] + [model.origin(0), model.origin(1)])


def world(rng, n, forms=None, size=None, whole=False):
    objs, used = [], set()
    while len(objs) < n:
        f = rng.choice(forms or FORMS_ALL)
        k = rand_key(rng, f) if rng.random() < .7 else None
        o = Obj(rng, f, size, k, whole)
        if tuple(o.key) in used or key_spec(o.key) in (key_spec(ZERO), key_spec(END)):
            continue
        used.add(tuple(o.key))
        objs.append(o)
    return objs


class Progress:
    """How far each object of a world has been written, per branch."""

    def __init__(self, objs):
        self.objs, self.n = objs, [0] * len(objs)

    def copy(self):
        p = Progress(self.objs)
        p.n = self.n[:]
        return p

    def take(self, rng):
        c = [i for i, o in enumerate(self.objs) if self.n[i] < len(o.frames)]
        if not c:
            return None
        i = rng.choice(c)
        o = self.objs[i]
        t, ops = o.frames[self.n[i]]
        self.n[i] += 1
        return o.key, t, ops


SMALL = [FLWW, FMX, FYARN, FMETA, FLOG, FZERO]


def big_world(rng):
    """many small records, or a few long ones"""
    if rng.random() < .75:
        return world(rng, rng.choice([35, 70, 150]), SMALL, 3)
    return world(rng, 2, size=rng.choice([70, 140]))


def some_batch(rng, p, n):
    if len(p.objs) > 20:
        n = rng.choice([20, 40, 65, 130, 260])
    return [x for x in (p.take(rng) for _ in range(n)) if x]


def bad_batch(rng, p, n):
    """a batch that gets refused, and nothing of it is done"""
    recs = some_batch(rng, p.copy(), n)
    ok = [r for r in recs if r[2]]
    if not ok:
        return []
    t, ops = ok[0][1:]
    recs.insert(len(recs) if rng.random() < .6 else rng.randrange(len(recs)), (END, t, ops))
    return recs


BRANCH = ['3fffffffffffffff.%x' % (2 << 60 | model.word(t)) for t in ('alice', 'bob', 'carol', 'dave')]
BRANCH = [x.replace('3fffffffffffffff', '%x' % model.word('~')) for x in BRANCH]
BRANCH += ['%x.%x' % (model.word('1lD5N2'), 2 << 60 | model.word('alice')), '%x.0' % model.word('name')]
MORE = BRANCH + ['%x.%x' % (model.word('1lD5N3'), 2 << 60 | model.word('alice')),
                 '%x.%x' % (model.word('1lD5N2'), 2 << 60 | model.word('bob')),
                 '%x.%x' % (model.word('1lD5N2'), 3 << 60 | model.word('alice')),
                 '%x.%x' % (1 | model.word('1lD5N2'), 2 << 60 | model.word('alice')),
                 '%x.%x' % (model.word('1lD5N2'), 2 << 60 | 1 | model.word('alice')),
                 '%x.0' % model.word('namf'), '%x.0' % (1 | model.word('name'))] + \
       ['%x.%x' % (model.word('~'), 2 << 60 | model.word('br%d' % i)) for i in range(9)]


def observe(rng, h, slot, objs, reads=2):
    h.dump(slot)
    for o in rng.sample(objs, min(reads, len(objs))):
        h.read(slot, o.key)


# --------------------------------------------------------------------------
# histories generated by the specification, made concrete

def concrete(rng, case, objs, extra=None):
    """StoreGen history -> Hist. Key n of the small world is objs[n-1]."""
    h = Hist('covering history')
    name = {'0': '0', 'b1': BRANCH[0], 'b2': BRANCH[1], 'm': 'm', 'j': 'j', '': ''}
    frames = lambda n, j: objs[n - 1].frames[(j - 1) % len(objs[n - 1].frames)]
    for e in case:
        op, x = e['op'], name.get(e.get('slot', ''), '')
        if op == 'create':
            h.create(x, name[e['b']], name[e['from']])
        elif op == 'openall':
            h.openall()
        elif op == 'open':
            h.open(x)
        elif op == 'close':
            h.close(x)
        elif op == 'drop':
            h.drop(x)
        elif op == 'write':
            t, ops = frames(e['n'], e['j'])
            h.write(x, objs[e['n'] - 1].key, t, ops)
        elif op == 'batch':
            recs = []
            for n, j in zip(e['ns'], e['js']):
                t, ops = frames(n, j)
                recs.append((objs[n - 1].key, t, ops))
            h.batch(x, recs)
        elif op == 'mem':
            h.mem('m')
        elif op == 'join':
            h.join('j', name[e['a']], 'm')
        elif op == 'release':
            if extra:
                extra(h)
            h.dump('j')
            h.release('m', name[e['to']])
            h.dump(name[e['to']])
            if e['ok']:
                h.close('m')
    return h


def tail_checks(rng, h, case, objs):
    """After a generated history: everything that can be seen."""
    held = {}
    for e in case:
        x = e.get('slot')
        if e['op'] == 'mem':
            held['m'] = 1
        if e['op'] == 'join':
            held['j'] = 1
        if e['op'] == 'release' and e['ok']:
            held.pop('m', 0), held.pop('j', 0)
    name = {'0': '0', 'b1': BRANCH[0], 'b2': BRANCH[1]}
    if 'j' in held:
        observe(rng, h, 'j', objs)
        h.dump('m')
    for x in name.values():
        h.dump(x)
        h.read(x, rng.choice(objs).key)
    for x in name.values():
        h.close(x)
    h.openall()
    for x in name.values():
        h.dump(x)


def covering(ctx, rng, cfg, prop, limit):
    cases, r = core.generate('StoreGen', 'StoreGen_' + cfg, tag=prop)
    ctx.model(r)
    if len(cases) > limit:
        long = max(len(c) for c in cases)
        # the longest are the most telling: shorter ones are their beginnings
        w = sorted(cases, key=lambda c: -len(c) - 2 * rng.random())
        cases = w[:limit]
    out = []
    for c in cases:
        objs = world(rng, 4, [FLWW, FRGA, FMX, FMAX, FYARN, FMETA, FLOG, FZERO], rng.randrange(5, 9), True)
        h = concrete(rng, c, objs)
        tail_checks(rng, h, c, objs)
        out.append(h)
    return out


# --------------------------------------------------------------------------
# C13: reads are merges, whatever happens underneath

def rocks_history(rng, steps, upkeep=True):
    h = Hist('durable')
    h.create('0', '0')
    n = rng.choice([1, 1, 2, 3])
    slots = ['0']
    for b in BRANCH[:n - 1]:
        h.create(b, b, '0')
        slots.append(b)
    big = rng.random() < .04
    objs = big_world(rng) if big else world(rng, rng.randrange(2, 7), size=rng.choice([4, 8, 16]))
    prog = {s: Progress(objs) for s in slots}
    for _ in range(steps):
        s = rng.choice(slots)
        r = rng.random()
        if r < .45:
            w = prog[s].take(rng)
            if w:
                h.write(s, *w)
        elif r < .6:
            recs = (bad_batch if rng.random() < .15 else some_batch)(rng, prog[s], rng.randrange(1, 5))
            if recs:
                h.batch(s, recs)
        elif r < .75:
            h.read(s, rng.choice(objs).key)
        elif r < .8:
            h.read(s, rand_key(rng, rng.choice(FORMS_ALL)))
        elif r < .84:
            h.dump(s)
        elif not upkeep:
            continue
        elif r < .93:
            h.upkeep(rng.choice(['flush', 'flush', 'compact']), '0')
        else:
            for x in slots:
                h.close(x)
            if rng.random() < .5:
                h.upkeep('tidy')
            elif n == 1 and rng.random() < .4:
                h.upkeep('repair')
            h.openall()
    for s in slots:
        observe(rng, h, s, objs)
    return h


def hot_history(rng):
    """one record written over and over, between the store's own upkeep"""
    h = Hist('hot')
    h.create('0', '0')
    o = Obj(rng, rng.choice([FLWW, FLWW, FRGA, FMX, FMAX, FYARN, FLOG]), rng.choice([40, 90, 160, 320]), rand_key(rng, FLWW), fine=True)
    o.key = (o.form,) + tuple(o.key[1:])
    objs = [o, Obj(rng, FLWW)]
    prog = Progress(objs)
    while prog.n[0] < len(o.frames):
        for _ in range(rng.choice([1, 2, 4, 8, 9, 16, 17, 33] + [70, 140, 280] * (len(o.frames) > 200))):
            i = 1 if rng.random() < .1 and prog.n[1] < len(objs[1].frames) else 0
            if prog.n[i] < len(objs[i].frames):
                h.write('0', objs[i].key, *objs[i].frames[prog.n[i]])
                prog.n[i] += 1
        r = rng.random()
        if r < .5:
            h.upkeep(rng.choice(['flush', 'compact']), '0')
        elif r < .6:
            h.close('0')
            if rng.random() < .5:
                h.upkeep('tidy')
            h.openall()
        if rng.random() < .7:
            h.read('0', o.key)
    observe(rng, h, '0', objs)
    return h


def hot_memory(rng, joined):
    """the same in memory: alone, or over what the durable store has"""
    h = Hist('hot in memory')
    h.create('0', '0')
    h.mem('m')
    if joined:
        h.join('j', '0', 'm')
    n = rng.choice([20, 70, 140, 270])
    o = Obj(rng, rng.choice([FLWW, FLWW, FRGA, FMX, FMAX, FYARN, FLOG]), n, rand_key(rng, FLWW), fine=True)
    o.key = (o.form,) + tuple(o.key[1:])
    objs = [o, Obj(rng, FLWW)]
    base = rng.randrange(len(o.frames)) if joined and rng.random() < .5 else 0
    ahead = rng.randrange(len(o.frames))
    for i, (t, ops) in enumerate(o.frames):
        if joined:
            h.write('0' if i < base else 'j', o.key, t, ops)
        else:
            h.write('m', o.key, t, ops)
            if i >= ahead:
                h.write('0', o.key, t, ops)
        if i % 50 == 7 and objs[1].frames and rng.random() < .5:
            h.write('j' if joined else 'm', objs[1].key, *objs[1].frames[0])
        if i > 100 and rng.random() < .01:
            h.read('j' if joined else 'm', o.key)
    for x in (('j', 'm', '0') if joined else ('m', '0')):
        h.read(x, o.key)
    h.release('m', '0')
    h.read('0', o.key)
    for x in ('m', '0'):
        h.dump(x)
    return h


# --------------------------------------------------------------------------
# C15: branches

def branch_history(rng, steps):
    h = Hist('branches')
    objs = world(rng, 3, size=5)
    live = {}          # branch -> progress, as far as the history went well
    opened = set()     # slots believed open
    many = rng.random() < .06
    names = ['0'] + rng.sample(MORE, 13 if many else 3)
    if many:
        steps *= 2
    for _ in range(steps):
        r = rng.random()
        b = rng.choice(names)
        if r < .25:
            frm = rng.choice([x for x in opened] or ['']) if rng.random() < .8 else ''
            if b in opened and rng.random() < .8:
                continue
            h.create(b, b, frm)
            if (not opened and set(live) <= {'0'}) or (frm in opened or b in opened):
                if b == '0' or b not in live:
                    live.setdefault('0', Progress(objs))
                    live.setdefault(b, Progress(objs))
                    opened.add(b)
        elif r < .5:
            if b in opened:
                w = live[b].take(rng)
                if w:
                    h.write(b, *w)
            else:
                o = rng.choice(objs)
                h.write(b, o.key, *o.frames[0])
        elif r < .6:
            if b in opened:
                recs = (bad_batch if rng.random() < .25 else some_batch)(rng, live[b], 3)
                if recs:
                    h.batch(b, recs)
            else:
                o = rng.choice(objs)
                h.batch(b, [(o.key,) + o.frames[0]])
        elif r < .66:
            h.drop(b)
            if b in opened and b != '0':
                opened.discard(b)
                live.pop(b)
        elif r < .73:
            h.close(b)
            opened.discard(b)
        elif r < .8:
            for x in sorted(opened):
                h.close(x)
            opened.clear()
        elif r < .9:
            h.openall()
            if not opened and live:
                opened = set(live)
        elif r < .93:
            h.open(b, rng.choice(['0', b]))
            if not opened and set(live) == {'0'} and b == '0':
                opened.add(b)
            elif not opened and set(live) == {'0'}:
                # may have opened the main branch in another slot
                h.close(b)
        else:
            h.dump(b)
            h.read(b, rng.choice(objs).key)
    for x in names:
        h.dump(x)
    for x in names:
        h.close(x)
    h.openall()
    for x in names:
        h.dump(x)
    return h


def branch_crowd(rng, n):
    """a tree of n branches, taken down and put up again"""
    h = Hist('a crowd of branches')
    objs = world(rng, 3, size=4)
    names = ['0'] + ['%x.%x' % (model.word('~'), 2 << 60 | model.word('c%s' % i)) for i in range(n)]
    live = {'0': Progress(objs)}
    h.create('0', '0')
    for b in names[1:]:
        frm = rng.choice(sorted(live)) if rng.random() < .6 else ''
        h.create(b, b, frm)
        live[b] = live[frm].copy() if frm else Progress(objs)
        for x in {b, rng.choice(sorted(live))}:
            w = live[x].take(rng)
            if w:
                h.write(x, *w)
    for turn in range(rng.choice([1, 2, 2])):
        for x in sorted(live):
            h.close(x)
        h.openall()
        for x in rng.sample(sorted(live), len(live)):
            h.dump(x)
            w = live[x].take(rng)
            if w and rng.random() < .4:
                h.write(x, *w)
        for x in rng.sample(names[1:], rng.choice([0, 1, 3])):
            h.drop(x)
            live.pop(x, None)
        for x in rng.sample(sorted(live), 4):
            h.dump(x)
            h.read(x, rng.choice(objs).key)
    for x in names:
        h.dump(x)
    return h


# --------------------------------------------------------------------------
# C16: iteration

def iter_walk(rng, kind, objs, where, steps):
    """where[i]: 0 absent, 1 in the base, 2 in the overlay, 3 in both"""
    h = Hist('iteration over ' + kind)
    over = 'm'
    if kind in ('rocks', 'joined'):
        h.create('0', '0') if rng.random() < .5 else (h.create('0', '0'), h.create(BRANCH[0], BRANCH[0], '0'))
        base = '0' if len(h.jobs) == 2 else BRANCH[0]
    else:
        base = 'm0'
        h.mem('m0')
    if kind in ('joined', 'memjoined'):
        h.mem('m')
        h.join('j', base, 'm')
    host = {'rocks': base, 'mem': base}.get(kind, 'j')
    order = list(range(len(objs)))
    rng.shuffle(order)
    for i in order:
        o, w = objs[i], where[i]
        n = len(o.frames)
        cut = n if w == 1 else 0 if w == 2 else rng.randrange(1, n) if n > 1 else 1
        if not w:
            continue
        for j, (t, ops) in enumerate(o.frames):
            h.write(base if j < cut else 'j', o.key, t, ops)
        if w == 3 and n == 1:
            h.write('j', o.key, *o.frames[0])
    if kind == 'rocks' and rng.random() < .3:
        h.upkeep('flush', '0')
    targets = [ZERO, END]
    for o in objs:
        targets += [o.key, near_key(o.key, 1), near_key(o.key, -1)]
    targets += [(f, v, o) for f in (0, 13, 254, 255) for v, o in ((0, 0), (MASK60, MASK60))]
    h.iter('i', host)
    h.seek('i', ZERO, False)
    for _ in range(len(objs) + 2):
        h.next('i')
    for k in range(steps):
        r = rng.random()
        if r < .5:
            h.next('i')
        else:
            h.seek('i', rng.choice(targets), rng.random() < .5)
        if kind != 'rocks' and r < .02:
            h.read(host, rng.choice(objs).key)
        if kind in ('rocks', 'mem') and r > .985:
            h.istop('i')
            h.next('i')
            if rng.random() < .5:
                h.seek('i', rng.choice(targets), rng.random() < .5)
                h.next('i')
                h.istop('i')
            h.iter('i', host)
            h.seek('i', ZERO, False)
    h.iclose('i')
    h.dump(host)
    return h


def iter_snap(rng, kind):
    """iterators over a store that changes"""
    h = Hist('iteration over changing ' + kind)
    objs = world(rng, 5, size=6)
    p = Progress(objs)
    h.create('0', '0')
    if kind == 'rocks':
        host = '0'
    elif kind == 'mem':
        h.mem('m')
        host = 'm'
    else:
        h.mem('m')
        h.join('j', '0', 'm')
        host = 'j'
    its = []
    base = set()
    for k in range(40):
        r = rng.random()
        if r < .3:
            w = p.take(rng)
            if w:
                h.write(host, *w)
        elif r < .4 and len(its) < 3:
            its.append('i%d' % k)
            h.iter(its[-1], host)
        elif its and r < .6:
            h.seek(rng.choice(its), rng.choice(objs).key if rng.random() < .7 else rng.choice([ZERO, END]), rng.random() < .5)
        elif its and r < .9:
            h.next(rng.choice(its))
        elif r < .95:
            h.read(host, rng.choice(objs).key)
        elif kind != 'mem':
            h.upkeep('flush', '0')
    for i in its:
        h.iclose(i)
    h.dump(host)
    return h


# --------------------------------------------------------------------------
# C17: the in-memory store as the durable one

def mirrored(rng, steps, release=True):
    h = Hist('mirrored')
    objs = big_world(rng) if rng.random() < .04 else world(rng, rng.randrange(1, 6), size=rng.choice([3, 6, 12]))
    h.create('0', '0')
    h.mem('m')
    if rng.random() < .3:
        h.memopen('m', [2, rng.randrange(50), 1])
    p = Progress(objs)
    have = False
    for _ in range(steps):
        r = rng.random()
        both = []
        if r < .4:
            w = p.take(rng)
            if w:
                h.write('0', *w)
                h.write('m', *w)
        elif r < .55:
            recs = some_batch(rng, p, rng.randrange(1, 4))
            if recs:
                h.batch('0', recs)
                h.batch('m', recs)
        elif r < .6:
            o = rng.choice(objs)
            t, ops = o.frames[0]
            if not ops:
                continue
            if rng.random() < .5:
                h.write('0', END, t, ops)
                h.write('m', END, t, ops)
            else:   # refused, and nothing of it is done
                recs = [(o.key, t, ops), (END, t, ops)]
                rng.shuffle(recs)
                if len(objs) > 20:
                    recs = some_batch(rng, p.copy(), 0) + recs
                h.batch('0', recs)
                h.batch('m', recs)
        elif r < .8:
            k = rng.choice(objs).key if rng.random() < .8 else rand_key(rng, rng.choice(FORMS_ALL))
            h.read('0', k)
            h.read('m', k)
        else:
            h.iter('a', '0')
            h.iter('b', 'm')
            k = rng.choice([ZERO, END] + [near_key(o.key, rng.choice([-1, 0, 0, 1])) for o in objs])
            prev = rng.random() < .5
            h.seek('a', k, prev)
            h.seek('b', k, prev)
            for _ in range(rng.randrange(3)):
                h.next('a')
                h.next('b')
            h.iclose('a')
            h.iclose('b')
    h.dump('0')
    h.dump('m')
    if release:
        h.create(BRANCH[0], BRANCH[0], '0')
        h.release('m', BRANCH[0])
        for o in objs:
            h.read('m', o.key)
            h.read(BRANCH[0], o.key)
        h.dump(BRANCH[0])
        h.release('m', '0')      # everything is known there already (but for logs)
        h.dump('0')
    h.close('m')
    h.dump('m')
    return h


def loose(rng, steps):
    """pieces out of order in memory: reads fail until the rest comes"""
    h = Hist('memory, any order')
    objs = world(rng, 3, [FRGA, FRGA, FLWW], 8)
    h.mem('m')
    todo = [(o.key,) + f for o in objs for f in o.frames]
    rng.shuffle(todo)
    h.iter('i', 'm')
    for w in todo:
        h.write('m', *w)
        for o in objs:
            h.read('m', o.key)
        if rng.random() < .5:
            h.seek('i', ZERO, False)
            for _ in range(4):
                h.next('i')
    h.dump('m')
    return h


# --------------------------------------------------------------------------
# C18: transactions

def transaction(rng, steps):
    h = Hist('transaction')
    objs = big_world(rng) if rng.random() < .04 else world(rng, rng.randrange(1, 6), size=rng.choice([3, 6, 12]))
    h.create('0', '0')
    h.create(BRANCH[0], BRANCH[0], '0')
    base = rng.choice(['0', BRANCH[0]])
    memory = rng.random() < .2
    if memory:
        base = 'm0'
        h.mem(base)
    p = Progress(objs)
    for _ in range(rng.randrange(0, steps)):
        recs = some_batch(rng, p, rng.randrange(1, 4))
        if recs:
            h.batch(base, recs)
    for _ in range(rng.randrange(1, 3)):
        h.mem('m')
        h.join('j', base, 'm')
        before = p.copy()
        for _ in range(steps):
            r = rng.random()
            if r < .4:
                w = p.take(rng)
                if w:
                    h.write('j', *w)
            elif r < .5:
                recs = some_batch(rng, p, rng.randrange(1, 4))
                if recs:
                    h.batch('j', recs)
            elif r < .7:
                h.read('j', rng.choice(objs).key if rng.random() < .9 else rand_key(rng, FLWW))
            elif r < .75:
                h.read(base, rng.choice(objs).key)
            elif r < .8:
                h.read('m', rng.choice(objs).key)
            else:
                h.iter('i', 'j')
                for _ in range(rng.randrange(1, 6)):
                    if rng.random() < .5:
                        h.seek('i', rng.choice([ZERO, END] + [near_key(o.key, rng.choice([-1, 0, 0, 1])) for o in objs]),
                               rng.random() < .5)
                    else:
                        h.next('i')
                h.iclose('i')
        h.dump(base)
        h.dump('j')
        if memory:
            continue
        if rng.random() < .7:
            h.release('m', base)
            for o in objs:
                h.read(base, o.key)
            h.dump(base)
        else:
            p = before       # abandoned
            h.dump(base)
    if not memory:
        h.close('0')
        h.close(BRANCH[0])
        h.openall()
        h.dump(base)
    return h


# --------------------------------------------------------------------------
# C14: killed processes

def big_crash_plan(rng):
    """one large batch, or one large transaction, at the end"""
    objs = world(rng, rng.choice([70, 140, 300, 520]), SMALL, 3)
    pre, sub = Hist(), Hist()
    p = Progress(objs)
    pre.create('0', '0')
    pre.batch('0', [x for x in (p.take(rng) for _ in range(5)) if x])
    pre.close('0')
    sub.openall()
    recs = [x for x in (p.take(rng) for _ in range(len(objs))) if x]
    if rng.random() < .6:
        sub.batch('0', recs)
    else:
        sub.mem('m')
        sub.batch('m', recs)
        sub.release('m', '0')
    return pre, sub, ['0'], objs


def crash_plan(rng):
    """-> (prepare, doomed, slots, objs): commands before, commands killed"""
    objs = world(rng, rng.randrange(2, 6), size=rng.choice([4, 8]))
    pre, sub = Hist(), Hist()
    slots = ['0']
    fresh = rng.random() < .2
    prog = {'0': Progress(objs)}
    if not fresh:
        pre.create('0', '0')
        for b in BRANCH[:rng.randrange(0, 3)]:
            pre.create(b, b, '0')
            slots.append(b)
            prog[b] = Progress(objs)
        for _ in range(rng.randrange(6)):
            s = rng.choice(slots)
            recs = some_batch(rng, prog[s], rng.randrange(1, 4))
            if recs:
                pre.batch(s, recs)
            if rng.random() < .15:
                pre.upkeep('flush', '0')
        for s in slots:
            pre.close(s)
        sub.openall()
    else:
        sub.create('0', '0')
    live = slots[:]
    for _ in range(rng.randrange(2, 9)):
        s = rng.choice(live)
        r = rng.random()
        if r < .35:
            recs = (bad_batch if rng.random() < .15 else some_batch)(rng, prog[s], rng.randrange(2, 6))
            if recs:
                sub.batch(s, recs)
        elif r < .6:
            w = prog[s].take(rng)
            if w:
                sub.write(s, *w)
        elif r < .75:
            if rng.random() < .5:
                sub.mem('m')
                recs = some_batch(rng, prog[s], 4)
                for w in recs:
                    sub.write('m', *w)
                if rng.random() < .2:
                    bad = bad_batch(rng, prog[s], 2)
                    if bad:
                        sub.batch('m', bad)
                if recs:
                    sub.release('m', s)
            else:
                sub.read(s, rng.choice(objs).key)
        elif r < .82:
            sub.upkeep(rng.choice(['flush', 'compact']), '0')
        elif r < .9:
            b = rng.choice(BRANCH)
            if b not in live and b not in prog:
                sub.create(b, b, '0')
                prog[b] = Progress(objs)
                live.append(b)
                slots.append(b)
        elif r < .94 and s != '0':
            sub.drop(s)
            live.remove(s)
        else:
            for x in live:
                sub.close(x)
            sub.openall()
    return pre, sub, slots, objs


def crash_history(plan, n, mode, again=None):
    pre, sub, slots, objs = plan
    h = Hist('killed')
    h.jobs += pre.jobs[1:]
    h.crash(n, mode, sub)
    if again:      # the recovery itself is killed, too
        rec = Hist()
        rec.openall()
        for s in slots[:1]:
            rec.dump(s)
        h.crash(again, mode, rec)
    h.openall()
    for s in slots:
        h.dump(s)
        h.read(s, objs[0].key)
    for s in slots:
        h.close(s)
    h.openall()
    for s in slots:
        h.dump(s)
    return h


def crashes(ctx, rng, exe, prop, plans, kills):
    ps = [crash_plan(rng) for _ in range(plans)] + [big_crash_plan(rng) for _ in range(max(2, plans // 10))]
    hs = [crash_history(p, 0, 0) for p in ps]
    traces = judge(ctx, hs, exe, prop)
    out = []
    for p, t in zip(ps, traces):
        made = [e['made'] for e in t['ev'] if e['op'] == 'crash' and e.get('made', '-') != '-']
        total = int(made[0]) if made else 0
        ctx.count('crash points', total)
        pts = list(range(1, total + 1))
        if len(pts) > kills:
            # the last calls are those of the commands, the first of the opening
            pts = sorted(rng.sample(pts, kills // 2) + pts[-(kills - kills // 2):])
        for n in pts:
            out.append(crash_history(p, n, rng.choice([0, 1, 1, 2]), rng.randrange(1, 60) if rng.random() < .15 else None))
    judge(ctx, out, exe, prop)


# --------------------------------------------------------------------------

def check(prop, tier, ctx):
    rng = random.Random(core.SEED * 7919 + int(prop[1:]))
    deep = tier == 'thorough'
    exe = core.build('d_store')
    ctx.model(core.model_check('StoreModel', 'StoreModel_deep' if deep else 'StoreModel', tag=prop))
    k = 10 if deep else 1
    hs = []
    sfx = '_deep' if deep else ''
    if prop == 'C13':
        hs = covering(ctx, rng, 'plain' + sfx, prop, 300 * k)
        hs += [rocks_history(rng, rng.randrange(10, 60)) for _ in range(250 * k)]
        hs += [hot_history(rng) for _ in range(20 * k)]
    elif prop == 'C14':
        crashes(ctx, rng, exe, prop, 28 * k, 60 if deep else 30)
        return
    elif prop == 'C15':
        hs = covering(ctx, rng, 'branches' + sfx, prop, 400 * k)
        hs += [branch_history(rng, rng.randrange(8, 40)) for _ in range(300 * k)]
        hs += [branch_crowd(rng, n) for n in (18, 34, 40) * (2 * k)] + [branch_crowd(rng, 68) for _ in range(k)]
    elif prop == 'C16':
        for kind in ('rocks', 'mem', 'joined', 'memjoined'):
            base = 4 if kind in ('joined', 'memjoined') else 2
            for _ in range(1 if not deep else 6):
                objs = world(rng, 3, size=5)
                for w in range(base ** 3):
                    where = [w % base, w // base % base, w // base ** 2]
                    hs.append(iter_walk(rng, kind, objs, where, 120))
            hs.append(iter_walk(rng, kind, world(rng, 150, SMALL, 2), [rng.randrange(base) for _ in range(150)], 300))
            for _ in range(15 * k):
                n = rng.randrange(2, 12)
                hs.append(iter_walk(rng, kind, world(rng, n, size=4), [rng.randrange(base) for _ in range(n)], 150))
            if kind != 'memjoined':
                hs += [iter_snap(rng, kind) for _ in range(20 * k)]
    elif prop == 'C17':
        hs = [mirrored(rng, rng.randrange(3, 40)) for _ in range(300 * k)]
        hs += [loose(rng, 10) for _ in range(60 * k)]
        hs += [hot_memory(rng, False) for _ in range(8 * k)]
    elif prop == 'C18':
        hs = covering(ctx, rng, 'joined' + sfx, prop, 300 * k)
        hs += [transaction(rng, rng.randrange(2, 25)) for _ in range(250 * k)]
        hs += [hot_memory(rng, True) for _ in range(8 * k)]
    judge(ctx, hs, exe, prop)
