"""Family E: the replica (C19-C22): causality, all-or-nothing frames, the
clock, branches and forks; crashes in the middle of it."""
import calendar, copy, datetime, hashlib, random
import core, model
from model import ABC, MASK60, VBASE, hx, name, vtext, val_text, rank, unpid, vparse
import fam_rdt, fam_ids
from fam_rdt import FLWW, FRGA, FMX, FMAX, FYARN, FMETA, FLOG

FTXT, FZERO = 18, 0
NEVER, NEVER_WORD = 2147483647, 63 << 54
T0 = calendar.timegm((2019, 5, 14, 5, 23, 0))     # stamped 1lD5N
UNSTAMPED = 4
LOST = (model.word('zz'), 2 << 60 | model.word('zz'))
NIL = [0, 1000, 0]


# --------------------------------------------------------------------------
# ids: [kind, value, origin]; ('k', n) is the n-th id the replica has made up

def real(mid):
    k, v, o = mid
    if k == 0:
        return model.real(mid)
    w = 0 if v == -1 else NEVER_WORD if v == NEVER else VBASE + v
    return w, k << 60 | (0 if o == -1 else model.origin(o))


def rmodel(value, org):
    k, p = org >> 60, org & MASK60
    if k in (0, 1):
        return model.model(value, org)
    v = -1 if value == 0 else NEVER if value == NEVER_WORD else value - VBASE
    if -1 <= v <= NEVER and (v >= 0 or value == 0) and (value < VBASE + NEVER or value == NEVER_WORD) \
            and (p == 0 or p >> 54 >= 10 and p & (1 << 54) - 1 == 0):
        return [k, v, (p >> 54) - 10 if p else -1]
    h = hashlib.sha256(b'%x.%x' % (value, org)).digest()
    return [9, int.from_bytes(h[:3], 'big'), int.from_bytes(h[3:6], 'big')]


def pmodel(t):
    return rmodel(*unpid(t))


def text(mid):
    if mid[0] == 'k':
        return '$%d$' % mid[1]
    if mid[0] == 'kd':
        return '$%d-$' % mid[1]
    if mid[0] == UNSTAMPED:
        return model.unword(mid[1]) + '+0' if mid[1] else '0+0'
    if mid[0] == 'raw':
        return mid[1]
    return model.uuid_text(*real(mid))


def token(mid):
    if mid[0] == 'k':
        return '$%d' % mid[1]
    return '%x.%x' % real(mid)


def yarn(o):
    return '%x' % model.origin(o)


def store(o):
    return '0.0' if o == -1 else '%x.%x' % (NEVER_WORD, 2 << 60 | model.origin(o))


def unstore(t):
    if t == '0.0':
        return -1
    m = pmodel(t)
    return m[2] if m[0] == 2 and m[1] == NEVER else -2


def stamp(sec):
    """the clock's reading at T0 + sec, as a model value"""
    t = datetime.datetime.utcfromtimestamp(T0 + sec)
    w = ((t.year - 2010) * 12 + t.month - 1)
    for x in (t.day - 1, t.hour, t.minute, t.second):
        w = w << 6 | x
    return (w << 24) - VBASE


def ops_of(tok):
    if tok == '-':
        return []
    out = []
    for o in tok.split('/'):
        if o == 'LOOP':
            out.append([[9, 0, 0], [9, 0, 0], ['?:LOOP'], [0]])
            continue
        i, r, vs, _ = o.split('|')
        vals = [vparse(x) for x in vs.split(';')] if vs else []
        i, r = pmodel(i), pmodel(r)
        if r == [0, FTXT, 0] and len(vals) == 1 and vals[0][0] == 's':
            out.append([i, r, [ord(c) for c in vals[0][1]], [0]])
        else:
            out.append([i, r, [vtext(v) if v[0] != '?' else '?:' + v[1] for v in vals],
                        rank(vals[0]) if vals and vals[0][0] != '?' else [0]])
    return out


ACTIVE_KEY = None


def key_of(h):
    b = bytes.fromhex(h)
    hi, lo = int.from_bytes(b[:8], 'big'), int.from_bytes(b[8:], 'big')
    o = (hi & (1 << 56) - 1) << 4 | lo >> 60
    return b[0], rmodel(lo & MASK60, 2 << 60 | o), (lo & MASK60, o)


def records(ws):
    out = []
    for x in ws:
        if x == 'LOOP':
            out.append([256, NIL, []])
            continue
        k, _, v = x.partition('=')
        form, kid, (kv, ko) = key_of(k)
        if form == FZERO and kv and not ko:
            form = 999          # the active branch is on record here
            out.append([form, kid, []])
        elif form == FMETA:
            o = v.split('|')
            atoms = o[2].split(';') if len(o) == 4 else []
            if len(o) == 4 and len(atoms) >= 3 and atoms[0][0] == atoms[1][0] == 'u':
                out.append([form, kid, [pmodel(o[0]), pmodel(atoms[0][1:]), pmodel(atoms[1][1:]), ';'.join(atoms[2:])]])
            else:
                out.append([form, kid, [[9, 0, 0], [9, 0, 0], [9, 0, 0], v]])
        else:
            out.append([form, kid, ops_of(v)])
    return out


def idlist(t):
    return [] if t == '-' else [pmodel(x) for x in t.split(',')]


# --------------------------------------------------------------------------
# one recorded history

class Hist:
    def __init__(self, note=''):
        self.jobs = [('reset', None)]
        self.note = note

    def add(self, line, op, parse=None, **kw):
        self.jobs.append((line, (op, kw, parse)))

    def clock(self, sec):
        self.add('clock %d 0' % (T0 + sec), 'clock', v=stamp(sec))

    def close(self, new=False):
        self.add('close new' if new else 'close', 'close')

    def create(self):
        self.add('create', 'create', ids=[])

    def open(self):
        self.add('open', 'open')

    def branch(self, y, tr=False):
        self.add('branch %s %d' % (yarn(y), tr), 'branch', lambda w: {'ids': idlist(w[1])}, y=y, tr=tr)

    def fork(self, y, frm):
        self.add('fork %s %s' % (yarn(y), yarn(frm)), 'fork', lambda w: {'ids': idlist(w[1])}, y=y, **{'from': frm})

    def drop(self, y):
        self.add('drop ' + store(y), 'drop', y=y)

    def activate(self, y):
        self.add('activate ' + store(y), 'activate', y=y)

    def recv(self, y, entries, syntax='ok', tail='', seps=None):
        t = ''.join(e[0] for e in entries) + tail
        self.add('recv %s %s' % (yarn(y) if y != -1 else '0', hx(t)), 'recv',
                 lambda w: {'resp': ops_of(w[1]) if len(w) > 1 else [], 'ids': idlist(w[2]) if len(w) > 2 else []},
                 y=y, frame=[s for e in entries for s in e[1]], syntax=syntax, text=t)

    def sync(self, y, z, mid):
        """z is sent what y says of the object"""
        self.add('sync %s %s %s' % (yarn(y), yarn(z), token(mid)), 'sync', y=y, z=z, id=mid)

    def new(self, y, rdt):
        self.add('new %s %s' % (yarn(y), token(rdt)), 'new', lambda w: {'ids': idlist(w[1]) if len(w) > 1 else []}, y=y, rdt=rdt)

    def now(self, y=-1):
        self.add('now ' + yarn(y) if y != -1 else 'now', 'now', lambda w: {'id': pmodel(w[1])}, y=y)

    def see(self, mid):
        self.add('see ' + token(mid), 'see', id=mid)

    def stores(self):
        self.add('stores', 'stores', lambda w: {'active': unstore(w[1]), 'stores': [unstore(x) for x in w[2:]]} if w[0] == 'OK' else {})

    def dump(self, y):
        self.add('dump ' + (yarn(y) if y != -1 else '0'), 'dump', lambda w: {'recs': records(w[1:])}, y=y)

    def tip(self, y):
        self.add('tip ' + yarn(y), 'tip', lambda w: {'id': pmodel(w[1])} if w[0] == 'OK' else {}, y=y)

    def meta(self, y, mid):
        self.add('meta %s %s' % (yarn(y), token(mid)), 'meta',
                 lambda w: {'object': pmodel(w[2]), 'rdt': pmodel(w[3])} if w[0] == 'OK' else {}, y=y, id=mid)

    def metas(self, y):
        def parse(w):
            out = []
            for x in w[1:]:
                f = x.split(',')
                out.append([pmodel(f[0]), pmodel(f[1]), pmodel(f[2]), f[3]] if len(f) == 4 else
                           [pmodel(f[0]), [9, 0, 0], [9, 0, 0], '-'])
            return {'metas': out}
        self.add('metas ' + yarn(y), 'metas', parse, y=y)

    def _state(self, op, y, mid, extra='', **kw):
        self.add('%s %s %s%s' % (op, yarn(y), token(mid), extra), op,
                 lambda w: {'out': ops_of(w[1]) if len(w) > 1 else []}, y=y, id=mid, **kw)

    def object(self, y, mid, form):
        self._state('object', y, mid, ' ' + token([0, form, 0]), form=form)

    def log(self, y, mid):
        self._state('log', y, mid)

    def version(self, y, mid, ver):
        self._state('version', y, mid, ' ' + token(ver), ver=ver)

    def abandon(self, y, entries):
        self.add('abandon %s %s' % (yarn(y), hx(''.join(e[0] for e in entries))), 'abandon', y=y)

    def name(self, y, key, value):
        self.add('name %s %x.0 %s' % (yarn(y), model.word(key), token(value)), 'name', y=y, key=key, value=value)

    def names(self, y):
        def parse(w):
            out = []
            for x in w[1:]:
                k, _, v = x.partition('=')
                kv, ko = unpid(k)
                out.append([model.unword(kv) if ko == 0 else k, pmodel(v)])
            return {'names': out}
        self.add('names ' + yarn(y), 'names', parse, y=y)

    def upkeep(self, what):
        self.add(what, what)

    def crash(self, n, mode, sub):
        """sub: a Hist whose commands run in a process that is killed"""
        cmds = '^'.join(['known'] + [l.replace(' ', ',') for l, _ in sub.jobs[1:]])
        self.jobs.append(('crash %d %d %s' % (n, mode, cmds), ('crash', {'sub': sub}, None)))


class Follow:
    """Turns the jobs of one history and their answers into events."""

    def __init__(self):
        self.known, self.own = [], {}

    def copy(self):
        f = Follow()
        f.known, f.own = self.known[:], {k: set(v) for k, v in self.own.items()}
        return f

    def resolve(self, x):
        if isinstance(x, tuple) and x and x[0] in ('k', 'kd'):
            i = self.known[x[1]] if x[1] < len(self.known) else rmodel(*LOST)
            return list(i) if x[0] == 'k' else [3] + list(i[1:])
        if isinstance(x, tuple) and x and x[0] == 'raw':
            return x[2]
        if isinstance(x, (list, tuple)):
            return [self.resolve(y) for y in x]
        if isinstance(x, dict):
            return {k: self.resolve(v) for k, v in x.items()}
        return x

    def event(self, job, answer):
        op, kw, parse = job
        w = answer.split(' ')
        if w[0] == 'CRASH':
            return {'op': op, 'st': 'CRASH', 'why': answer}
        if w[0] in ('TOOL', '?'):
            raise core.ToolError('harness: %s %s' % (op, answer))
        if op == 'crash':
            return self.crash(kw['sub'], w)
        if op == 'sync':
            return self.sync(self.resolve(kw), w)
        e = dict(self.resolve(kw), op=op, st='ok', ok=w[0] == 'OK', says=w[0])
        if parse and (e['ok'] or op in ('recv', 'new', 'branch', 'fork') and len(w) > 1):
            e.update(parse(w))
        for f in ('ids',):
            if op in ('recv', 'new', 'branch', 'fork'):
                e.setdefault(f, [])
        self.note(e)
        return e

    def sync(self, kw, w):
        def recv(y, frame, w):
            e = {'op': 'recv', 'st': 'ok', 'ok': w[0] == 'OK', 'says': w[0], 'y': y, 'syntax': 'ok', 'frame': frame,
                 'resp': ops_of(w[1]), 'ids': idlist(w[2])}
            self.note(e)
            return e
        es = [recv(kw['y'], [{'k': 'query', 'id': kw['id'], 'form': FLOG, 'texts': {}}], w[:2] + ['-'])]
        if len(w) > 2:
            if not es[0]['resp']:
                return es
            es.append(recv(kw['z'], [{'k': 'event', 'op': o} for o in es[0]['resp']], w[2:]))
        return es

    def note(self, e):
        if e['op'] in ('recv', 'new', 'branch', 'fork') and e['ok']:
            self.known += e['ids']
            if e['op'] in ('branch', 'fork'):
                self.own[e['y']] = set()
            for i in e['ids']:
                self.own.setdefault(i[2], set()).add(tuple(i))
        if e['op'] == 'drop' and e['ok']:
            self.own.pop(e['y'], None)
        if e['op'] == 'dump' and e['ok']:
            self.own[e['y']] = set(self.dumped(e))

    @staticmethod
    def dumped(e):
        return [tuple(o[0]) for r in e.get('recs', ()) if r[0] == FLOG for o in r[2] if o[0][2] == e['y'] and o[0][0] == 2]

    def crash(self, sub, w):
        got = ' '.join(w[2:])
        got = [] if got == '-' else got.split('^')
        f = self.copy()
        subs = []
        for (l, job), a in zip(sub.jobs[1:], got[1:]):
            subs.append(f.event(job, a))
        cur = []
        if w[0] == 'killed' and got and len(got) - 1 < len(sub.jobs) - 1:
            op, kw, _ = sub.jobs[len(got)][1]
            cur = [dict(f.resolve(kw), op=op, ok=False, st='ok', ids=[])]
        self.own = f.own
        return {'op': 'crash', 'st': 'ok', 'ok': True, 'subs': subs, 'cur': cur, 'made': w[1]}


def lookahead(evs, owns):
    """Ids that only later dumps show: the replica's own first event, events
    made by a call during which the process was killed."""
    for k, e in enumerate(evs):
        if e['op'] == 'create' and e.get('ok'):
            show_first(e, evs[k + 1:])
        if e['op'] == 'crash':
            for j, s in enumerate(e['subs']):
                if s['op'] == 'create' and s.get('ok'):
                    show_first(s, e['subs'][j + 1:] + evs[k + 1:])
            for c in e['cur']:
                if c['op'] == 'create':
                    show_first(c, evs[k + 1:])
                elif c['op'] in ('branch', 'fork', 'recv', 'new'):
                    y = c['y']
                    if y == -1:
                        y = acting(evs[:k], e['subs'])
                    had = owns[k].get(y, set()) if c['op'] in ('recv', 'new') else set()
                    for d in evs[k + 1:]:
                        if d['op'] == 'dump' and d['y'] == y:
                            c['ids'] = [list(i) for i in sorted(set(Follow.dumped(d)) - had)]
                            break


def acting(evs, subs):
    a = -1
    for e in evs + subs:
        for s in e.get('subs', []) + [e]:
            if s['op'] == 'activate' and s.get('ok'):
                a = s['y']
    return a


def show_first(e, later):
    for d in later:
        if d['op'] == 'dump' and d.get('y') == -1 and d.get('ok'):
            ids = [o[0] for r in d['recs'] if r[0] == FLOG for o in r[2]]
            if ids:
                e['ids'] = [ids[0]]
            return


def follow(h, answers):
    f = Follow()
    evs, owns = [], []
    for (l, job), a in zip(h.jobs, answers):
        if job is None:
            if a != 'OK':
                raise core.ToolError('reset: ' + a)
            continue
        if a.split(' ')[0] == 'SKIP':
            break
        es = f.event(job, a)
        for e in es if isinstance(es, list) else [es]:
            evs.append(e)
            owns.append({k: set(v) for k, v in f.own.items()})
    lookahead(evs, owns)
    for e in evs:
        e.pop('text', None)
        for s in e.get('subs', []) + e.get('cur', []):
            s.pop('text', None)
    return evs


def run(ctx, hists, exe, tag, batch=4000):
    out = []
    for off in range(0, len(hists), batch):
        part = hists[off:off + batch]
        ans = core.run_driver(exe, [l for h in part for l, _ in h.jobs], tag, stateful=True)
        at = 0
        for h in part:
            evs = follow(h, ans[at:at + len(h.jobs)])
            at += len(h.jobs)
            out.append({'op': h.note or 'history', 'ev': evs})
    return out


def judge(ctx, hists, exe, tag):
    traces = run(ctx, hists, exe, tag)
    src = ['\n'.join(l for l, _ in h.jobs) for h in hists]
    keep = [(t, s) for t, s in zip(traces, src) if t['ev']]
    for t, _ in keep:
        for e in t['ev']:
            ctx.count('call ' + e['op'])
            for s in e.get('subs', ()):
                ctx.count('killed ' + s['op'])
            if e['op'] in ('recv', 'branch', 'fork', 'new'):
                ctx.count('%s %s' % (e['op'], 'taken' if e.get('ok') else 'refused'))
    ctx.judge('ReplicaTrace', [t for t, _ in keep], [s for _, s in keep])
    return traces


# --------------------------------------------------------------------------
# What a history is made of. The generator follows along, roughly, so that it
# knows which events there are; it judges nothing.

class Branch:
    def __init__(self, own):
        self.own, self.evs, self.objs, self.last, self.names = own, [], [], {}, 0

    def copy(self, own=None):
        b = copy.deepcopy(self)
        if own is not None:
            b.own = own
        return b


class Ob:
    def __init__(self, form, mid, at):
        self.form, self.evs = form, [(mid, at)]      # (id, not later than)


CHARS = 'abcdef\u0436\u20ac'


class Gen:
    def __init__(self, rng, note='', others=4):
        self.rng, self.h = rng, Hist(note)
        self.br, self.made, self.est, self.sec = {}, 0, 0, 0
        self.others = others
        self.texts = {'s:zz': [122, 122]}
        self.active = -1
        self.floor = None      # ids made up from here on are not known yet
        self.big = rng.random() < .05     # frames and runs past the usual thresholds
        self.labels = ['abc', 'x', 'key', 'y'] + (['n' + c for c in ABC[10:50]] if self.big else [])

    # ids
    def madeid(self):
        self.made += 1
        return ('k', self.made - 1)

    def stamped(self, n=1):
        self.est = max(self.est, stamp(self.sec)) + n
        return self.est

    def tick(self, sec):
        self.sec = min(sec, 118)          # later ones have no name in the specification
        self.h.clock(self.sec)

    # lifecycle
    def start(self, branches=1, tr=.3):
        self.tick(self.rng.choice([0, 0, 3, 30]))
        self.h.create()
        self.h.open()
        self.h.dump(-1)
        self.stamped()
        for y in range(branches):
            self.branch(y, self.rng.random() < tr)

    def branch(self, y, tr=False, frm=None):
        if frm is None:
            self.h.branch(y, tr)
        else:
            self.h.fork(y, frm)
        if y in self.br or frm is not None and (frm not in self.br or y in self.br[frm].last):
            self.stamped()
            return
        b = Branch(y) if frm is None else self.br[frm].copy(y)
        at = self.stamped() if not tr or frm is not None else -1
        mid = self.madeid()
        b.last[y] = at
        b.objs.append(Ob(FYARN, mid, at))
        self.br[y] = b

    def drop(self, y):
        self.h.drop(y)
        self.br.pop(y, None)
        if self.active == y:
            self.active = -1

    def activate(self, y):
        self.h.activate(y)
        self.stamped()
        if y in self.br or y == -1:
            self.active = y

    def reopen(self, new=True):
        self.h.close(new)
        self.h.open()
        self.h.stores()

    # values
    def values(self, form):
        rng = self.rng
        if form == FRGA:
            r = rng.random()
            v = [('s', rng.choice(CHARS))] if r < .7 else [name('rm')] if r < .85 else \
                [name('un')] if r < .9 else [('s', rng.choice(['ab', '', 'x\u20acy']))] if r < .96 else [('i', 7)]
        elif form == FLWW:
            v = [rng.choice([name('key'), name('abc'), ('s', 'k1'), ('s', 'k\u0436')]), fam_rdt.rand_value(rng)]
        elif form == FMX:
            v = [('i', rng.randrange(3)), ('i', rng.randrange(3)), fam_rdt.rand_value(rng)]
        elif form == FMAX:
            v = [rng.choice(fam_rdt.MAXV)]
        else:
            v = [fam_rdt.rand_value(rng) for _ in range(rng.randrange(3))]
        if v and v[0][0] == 's':
            self.texts[vtext(v[0])] = [ord(c) for c in v[0][1]]
        return v

    @staticmethod
    def op(mid, ref, vals):
        return [mid, ref, [vtext(v) for v in vals], rank(vals[0]) if vals else [0]]

    @staticmethod
    def spell(mid, ref, vals, end=';', head=True):
        t = '@%s :%s ' % (text(mid), text(ref)) if head else ' '
        return t + ' '.join(val_text(v) for v in vals) + end + ('\n' if end == ';' else '')

    # entries: (text, [spec entries])
    def event(self, mid, ref, vals, end=';'):
        return self.spell(mid, ref, vals, end), [{'k': 'event', 'op': self.op(mid, ref, vals)}]

    # what may be referred to: not what the frame at hand makes up
    def named(self, i):
        return self.floor is None or i[0] != 'k' or i[1] < self.floor

    def some(self, b):
        c = [o for o in b.objs if self.named(o.evs[0][0])]
        return self.rng.choice(c if c and self.rng.random() < .999 else b.objs)

    def evs(self, o):
        return [e for e in o.evs if self.named(e[0])] or o.evs

    def ref_in(self, o):
        evs = self.evs(o)
        if o.form == FRGA and self.rng.random() < .8:
            return self.rng.choice(evs)
        return evs[0] if o.form != FYARN else self.rng.choice([evs[0], evs[-1]])

    def foreign(self, b, y=None):
        """a valid piece of another writer's log; changes b"""
        rng = self.rng
        own = rng.random() < .06
        ys = [b.own] if own else [o for o in range(8 - self.others, 8) if o != b.own]
        y = rng.choice(ys) if y is None else y
        jump = rng.choice([1, 1, 1, 2, 7, 1000] + ([1 << 24] if rng.random() < .2 else []))
        if y not in b.last:
            v = rng.choice([rng.randrange(3), max(0, self.est + jump)])
            v = self.cap(v)
            mid = [2, v, y]
            b.last[y] = v
            self.est = max(self.est, v)
            b.objs.append(Ob(FYARN, mid, v))
            return self.event(mid, [0, FYARN, 0], self.values(FYARN) if rng.random() < .3 else [])
        last = b.last[y]
        if not b.objs or rng.random() < .3:
            v = self.cap(max(last, -1) + jump)
            if v <= last:
                return None
            form = rng.choice([FLWW, FRGA, FRGA, FMX, FMAX])
            mid = [2, v, y]
            b.last[y] = v
            self.est = max(self.est, v)
            b.objs.append(Ob(form, mid, v))
            return self.event(mid, [0, form, 0], [])
        o = self.some(b)
        ref, at = self.ref_in(o)
        v = max(last, at) + jump
        n = rng.choice([1, 1, 2, 3, 5]) if not self.big or rng.random() < .8 else rng.choice([20, 40, 70, 20, 40, 70, 160])
        if v + 4 * n > NEVER - (1 << 24):
            return None
        t, spec, head = '', [], True
        dense = rng.random() < .6
        for k in range(n):
            mid = [2, v, y]
            vals = self.values(o.form)
            # a bare op with no values does not read back as one
            short = dense and k and vals and rng.random() < .7
            t += self.spell(mid, ref, vals, ';' if k == n - 1 else rng.choice(',;') if not dense else ',', not short)
            spec.append({'k': 'event', 'op': self.op(mid, ref, vals)})
            o.evs.append((mid, v))
            b.last[y] = v
            if o.form == FRGA or rng.random() < .3 or dense:
                ref = mid
            self.est = max(self.est, v)
            v += 1 if dense else rng.choice([1, 2, 9])
        return t, spec

    def cap(self, v):
        return min(v, NEVER - (1 << 24))

    def local(self, b, n=None):
        """a run of local writes; changes b. Knows how many ids will be made."""
        rng = self.rng
        n = n or (rng.choice([1, 1, 2, 3, 5]) if not self.big or rng.random() < .8 else rng.choice([20, 40, 70, 20, 40, 70, 160]))
        t, spec, cur, obj = '', [], None, None
        at = self.stamped(n + 1)
        for k in range(n):
            ph = [UNSTAMPED, k, 0]
            mid = self.madeid()
            if obj is None and (not b.objs or rng.random() < .4) or cur is not None and rng.random() < .15:
                form = rng.choice([FLWW, FRGA, FRGA, FMX])
                ref, vals = [0, form, 0], []
                obj = Ob(form, mid, at)
                b.objs.append(obj)
            else:
                if obj is None:
                    obj = self.some(b)
                    ref = self.ref_in(obj)[0]
                else:
                    ref = cur
                vals = self.values(obj.form)
                obj.evs.append((mid, at))
            spec.append({'k': 'local', 'op': self.op(ph, ref, vals)})
            t += self.spell(ph, ref, vals, ';' if k == n - 1 else rng.choice(',;'))
            cur = ph
        b.last[b.own] = at
        return t, spec

    def query(self, b, kind=None):
        rng = self.rng
        if kind is None and rng.random() < .05:      # views asked for in one chunk
            (t1, s1), (t2, s2) = self.query(b, 'text'), self.query(b, 'text')
            return t1.replace(' ?\n', ',\n') + t2, s1 + s2
        kind = kind or rng.choice(['state', 'state', 'log', 'text', 'odd'])
        o = self.some(b) if b.objs else Ob(FLWW, [2, 1, 5], 1)
        mid, form = o.evs[0][0], o.form
        if kind == 'odd':
            mid = rng.choice([rng.choice(self.evs(o))[0], [2, 999, 6], [2, 5, 9]])
            form = rng.choice([FLWW, FRGA, FMX, FYARN])
        elif kind == 'log':
            form = FLOG
            mid = rng.choice(self.evs(o))[0] if rng.random() < .9 else [2, 999, 6]
        elif kind == 'text':
            form = FTXT
            if o.form != FRGA and rng.random() < .9:
                rg = [x for x in b.objs if x.form == FRGA and self.named(x.evs[0][0])]
                o = rng.choice(rg) if rg else o
            m = o.evs[0][0]
            mid = ('kd', m[1]) if m[0] == 'k' else [3] + m[1:]
        elif form == FMAX:
            form = FLOG
        return ('@%s :%s ?\n' % (text(mid), text([0, form, 0])),
                [{'k': 'query', 'id': mid, 'form': form, 'texts': dict(self.texts)}])

    def crowd(self, y, frames=5):
        """many objects, with many records"""
        for _ in range(frames):
            self.frame(y, self.rng.choice([20, 35]), bad=0, ask=.03, local=.8)

    def naming(self, b, k=None):
        k = k or self.rng.choice(self.labels)
        b.names += 1
        self.stamped()
        return '@name :0 >%s!\n' % k, [{'k': 'name', 'key': k}]

    def note(self):
        return self.rng.choice(["@~ 'hey' !\n", "@~ 'a \\'b\\'' ;\n"]), [{'k': 'note'}]

    # what no frame may have
    def bad(self, b, kind=None):
        rng = self.rng
        known = [e for o in b.objs for e in o.evs]
        ab = [e for e in known if e[0][0] == 2]
        yarns = [y for y in b.last if b.last[y] >= 0]
        y = rng.choice(yarns) if yarns else None
        fresh = (max(b.last.values()) if b.last else 0) + self.est % 1000 + 10
        fresh = self.cap(max(fresh, self.est + 10))
        o = rng.choice(b.objs)
        kinds = ['repeat', 'old', 'dangling', 'future', 'unstarted', 'restart', 'badform', 'never', 'name', 'hash', 'later',
                 'derived', 'localdangling', 'refhash', 'refnever', 'badname', 'viewwrite']
        kind = kind or rng.choice(kinds)
        R = [0, rng.choice([FLWW, FRGA]), 0]
        if kind == 'repeat' and ab:
            mid = rng.choice(ab)[0]
            return self.event(mid, rng.choice([R, o.evs[0][0]]), self.values(o.form))
        if kind == 'old' and y is not None and b.last[y] > 1 and (y != b.own):
            return self.event([2, rng.randrange(b.last[y] + 1), y], R, [])
        if kind == 'future' and y is not None:
            # refers to something newer than itself
            ref, at = max(known, key=lambda e: e[1])
            lo = b.last[y] + 1
            if y != b.own and ref[0] == 2 and lo <= ref[1]:
                return self.event([2, rng.randrange(lo, ref[1] + 1), y], ref, self.values(FLWW))
        if kind == 'unstarted':
            for u in (8, 9, 10):
                if u not in b.last:
                    return self.event([2, fresh, u], rng.choice([R, o.evs[0][0]]), self.values(o.form))
        if kind == 'restart' and y is not None:
            return self.event([2, rng.choice([fresh, 0, max(0, b.last[y])]), y], [0, FYARN, 0], [])
        y = b.own if y is None else y
        if kind == 'badform':
            form = rng.choice([[0, FLOG, 0], [0, FMETA, 0], [0, FZERO, 0], [0, FTXT, 0], [0, 5, 0],
                               ('raw', 'lwww', [9, 1, 1]), ('raw', 'foo', [9, 1, 2]), [0, 16, 0]])
            return self.event([2, fresh, y], form, [])
        if kind == 'never':
            return self.event([2, NEVER, y], rng.choice([R, o.evs[0][0]]), [])
        if kind == 'name':
            return '@%s :lww;\n' % rng.choice(['abc', 'x', 'lww']), [{'k': 'no'}]
        if kind == 'badname':
            return rng.choice(["@name :0 !\n", "@name :0 'abc'!\n", "@name :0 =1!\n", "@name :0 >1lD5N00002+A!\n"]), [{'k': 'no'}]
        if kind == 'hash':
            return '@%s%%%s :lww;\n' % (rng.choice(['abc', 'x']), 'A'), [{'k': 'no'}]
        if kind == 'derived':
            return '@1lD5N-A :lww;\n', [{'k': 'any'}]
        if kind == 'viewwrite':      # views are read only
            m = o.evs[0][0]
            return '@%s :txt%s\n' % (text(('kd', m[1]) if m[0] == 'k' else [3] + m[1:]),
                                     rng.choice([" 'new text'!", " 'new text';", ';', '!', " >since!", " 5!"])), [{'k': 'no'}]
        if kind == 'later':
            # a chain with a bad op in the middle: not newer than the one before
            if y != b.own:
                a, z = [2, fresh + 5, y], [2, fresh + rng.choice([0, 4, 5]), y]
                t1, s1 = self.event(a, R, [])
                t2, s2 = self.event(z, a, self.values(R[1]))
                return t1 + t2, s1 + s2
        if kind == 'refhash':
            return self.event([2, fresh, y], ('raw', rng.choice(['1lD5N%A', '1lD5N-A0']), [1, 5, 5]), [])
        if kind == 'refnever':
            return self.event([2, fresh, y], [2, NEVER, rng.choice(list(b.last))], [])
        if kind == 'localdangling':
            ph = [UNSTAMPED, 0, 0]
            self.stamped(3)
            ref = [2, fresh + 77, 6]
            return self.spell(ph, ref, [('i', 1)]), [{'k': 'local', 'op': self.op(ph, ref, [('i', 1)])}]
        # dangling
        ref = rng.choice([[2, fresh - 1, y], [2, 1 << 29, 6], [2, 0, 9], [2, -1, 9]])
        return self.event([2, fresh, y], ref, self.values(o.form))

    def frame(self, y, n=None, bad=.3, ask=.2, local=.35, to=None, only=None):
        """sends a frame to branch y; keeps its effect only if it's good"""
        rng, b = self.rng, self.br[y]
        n = n or rng.choice([1, 1, 2, 3, 4])
        if self.big and rng.random() < .2:
            n = rng.choice([12, 20, 35])
        before, made = b.copy(), self.made
        self.floor = made
        es, ok = [], True
        spoil = rng.randrange(n) if rng.random() < bad else -1
        prev_local = False
        for k in range(n):
            if k == spoil:
                e, ok = self.bad(b), False
            else:
                r = rng.random()
                if r < ask:
                    e = self.query(b)
                    if self.hopeless(b, e):
                        ok = False
                elif r < ask + local and not prev_local:
                    e = self.local(b)
                elif r < ask + local + .06:
                    e = self.naming(b)
                elif r < ask + local + .12:
                    e = self.note()
                else:
                    e = self.foreign(b)
                    if e is None:
                        e = self.note()
            prev_local = e[1][0]['k'] == 'local'
            if rng.random() < .05:
                es.append(self.note())
                prev_local = False
            es.append(e)
        self.floor = None
        syntax, tail = 'ok', ''
        r = rng.random()
        if r < bad * .25:
            syntax, ok = 'bad', False
            tail = rng.choice(['@@@', "@1lD5N+A 'abc", '%%', "@1lD5N+A :lww &;"])
        elif r < .5:
            tail = rng.choice(['', '\n', ' \n\n', '.\n', '\n.\n'])
        self.h.recv(y if to is None else to, es, syntax, tail)
        self.sum_stamps(es)
        if not ok:
            self.br[y], self.made = before, made
        else:
            # ids of own yarn are made up in the order of their values
            self.number(b, made, es)
        return ok

    def hopeless(self, b, e):
        q = e[1][-1]
        if q['form'] == FLOG:
            return q['id'] not in [x[0] for o in b.objs for x in o.evs]
        return False

    def number(self, b, made, es):
        own = [s for e in es for s in e[1] if s['k'] == 'event' and s['op'][0][0] == 2 and s['op'][0][2] == b.own]
        if not own:
            return
        # foreign events of the own yarn are listed among the made up ones
        order, k = [], made
        ren = {}
        n = 0
        for e in es:
            for s in e[1]:
                if s['k'] == 'local':
                    ren[made + n] = k
                    n += 1
                    k += 1
                elif s in own:
                    k += 1
        for o in b.objs:
            o.evs = [(('k', ren.get(i[1], i[1])) if i[0] == 'k' else i, at) for i, at in o.evs]
        self.made = k

    def sum_stamps(self, es):
        for e in es:
            for s in e[1]:
                if s['k'] == 'event' and s['op'][0][0] == 2 and isinstance(s['op'][0][1], int) and s['op'][0][1] < NEVER:
                    self.est = max(self.est, s['op'][0][1])
        self.stamped(1)

    def look(self, y, every=False):
        rng, b = self.rng, self.br.get(y)
        self.h.dump(y)
        if b is None:
            return
        if every or rng.random() < .3:
            self.h.tip(y)
        for _ in range(rng.randrange(3)):
            o = rng.choice(b.objs)
            r = rng.random()
            if r < .3:
                self.h.meta(y, rng.choice(o.evs)[0] if rng.random() < .8 else [2, 77, 6])
            elif r < .5:
                self.h.object(y, o.evs[0][0], o.form if rng.random() < .9 else FLWW)
            elif r < .7:
                self.h.log(y, o.evs[0][0])
            elif r < .9:
                self.h.version(y, o.evs[0][0], rng.choice(o.evs)[0])
            elif b.names:
                self.h.names(y)

    def lookall(self):
        self.h.stores()
        for y in list(self.br):
            self.look(y, True)
        self.h.dump(-1)


# --------------------------------------------------------------------------
# histories

def causal(rng, steps, note='causal'):
    """C19: writers' logs, in and out of order"""
    g = Gen(rng, note)
    g.start(rng.choice([1, 1, 2]))
    for _ in range(steps):
        y = rng.choice(list(g.br))
        if rng.random() < .1:
            g.tick(g.sec + rng.randrange(3))
        g.frame(y, rng.choice([1, 1, 1, 2, 3]), bad=.45, ask=.05, local=.2)
        if rng.random() < .6:
            g.look(y)
        if rng.random() < .04:
            g.reopen(rng.random() < .7)
    g.lookall()
    g.reopen()
    g.lookall()
    return g.h


def mixed(rng, steps, note='frames'):
    """C20: whole frames of everything, good and bad"""
    g = Gen(rng, note)
    g.start(rng.choice([1, 1, 2]))
    if rng.random() < .6:
        g.activate(rng.choice(list(g.br)))
    for _ in range(steps):
        y = rng.choice(list(g.br))
        r = rng.random()
        if r < .08:
            g.tick(g.sec + rng.randrange(3))
        if r < .78:
            to = -1 if y == g.active and rng.random() < .5 else None
            g.frame(y, rng.choice([1, 2, 3, 4, 6]), bad=.3, ask=.25, local=.3, to=to)
        elif r < .82:
            b = g.br[y].copy()
            es = [e for e in (g.foreign(b) for _ in range(3)) if e]
            g.h.abandon(y, es + ([g.bad(b)] if rng.random() < .3 else []))
            g.sum_stamps(es)
        elif r < .86:
            b = g.br[y]
            o = rng.choice(b.objs)
            g.h.name(y, rng.choice(['abc', 'x', 'key', 'y']), rng.choice(o.evs)[0])
            g.stamped()
            g.h.names(y)
        elif r < .9:
            form = rng.choice([FLWW, FRGA, FMX])
            g.h.new(y, [0, form, 0])
            at = g.stamped(2)
            g.br[y].objs.append(Ob(form, g.madeid(), at))
            g.br[y].last[y] = at
        elif r < .94:
            g.h.upkeep(rng.choice(['flush', 'compact']))
        else:
            g.reopen(rng.random() < .7)
            if g.active != -1 and g.active not in g.br:
                g.active = -1
        g.look(y)
        if rng.random() < .1:
            g.h.names(y)
    g.lookall()
    g.reopen()
    g.lookall()
    return g.h


def hashes(rng, steps, note='hashes'):
    """C24: the hashes kept by a replica, of the same events spelled and cut
    in different ways on several branches"""
    g = Gen(rng, note)
    g.start(2)
    for _ in range(steps):
        y = rng.choice(list(g.br))
        g.frame(y, rng.choice([1, 2, 3]), bad=.05, ask=0, local=.2)
        if rng.random() < .5:
            g.h.metas(y)
    # what one branch has, another gets cut in other places
    g.branch(2)
    y = rng.choice([0, 1])
    sent = [kw for _, (op, kw, _) in g.h.jobs[1:] if op == 'recv' and kw['y'] == y and kw['syntax'] == 'ok'
            and all(e['k'] == 'event' for e in kw['frame'])]
    while sent:
        n = rng.choice([1, 1, 2, 3])
        g.h.recv(2, [(kw['text'].replace('.\n', '\n') + '\n', kw['frame']) for kw in sent[:n]])
        sent = sent[n:]
    for y in list(g.br):
        g.h.metas(y)
    g.reopen()
    for y in list(g.br):
        g.h.metas(y)
    g.lookall()
    return g.h


def clocks(rng, steps, note='clock'):
    """C21: stamps against clocks, other writers and restarts"""
    g = Gen(rng, note)
    g.h.jobs[0] = ('reset ' + rng.choice(fam_ids.ZONES), None)
    g.start(rng.choice([1, 2]))
    for _ in range(steps):
        y = rng.choice(list(g.br))
        r = rng.random()
        if r < .2:
            g.tick(rng.choice([g.sec, g.sec + 1, g.sec + 5, max(0, g.sec - rng.randrange(60)), rng.randrange(119), 59, 60]))
        elif r < .4:
            g.h.now(rng.choice([y, y, -1, 9]))
            g.stamped()
        elif r < .5:
            v = g.cap(max(0, rng.choice([g.est + 1, g.est, g.est + (1 << 24) * rng.randrange(1, 5) + 7, g.est - 1, 5])))
            mid = rng.choice([[2, v, 6], [2, v, y], [2, v, 6], [2, NEVER, 6], [0, 13, 0], [3, v, 6], [1, v, 6]])
            g.h.see(mid)
            if mid[0] == 2 and mid[1] < NEVER:
                g.est = max(g.est, v)
        elif r < .7:
            g.frame(y, rng.choice([1, 2]), bad=.1, ask=0, local=.6)
        elif r < .78:
            g.frame(y, rng.choice([1, 2]), bad=.2, ask=0, local=0)
        elif r < .82:
            form = rng.choice([FLWW, FRGA])
            g.h.new(y, [0, form, 0])
            at = g.stamped(2)
            g.br[y].objs.append(Ob(form, g.madeid(), at))
            g.br[y].last[y] = at
        elif r < .86:
            g.activate(rng.choice(list(g.br)))
        elif r < .9:
            z = rng.choice([x for x in range(4) if x not in g.br] or [0])
            g.branch(z, False, rng.choice([None, y]))
        else:
            if rng.random() < .5:
                g.tick(max(0, g.sec - rng.randrange(40)))
            g.reopen(rng.random() < .8)
            g.h.now(y)
            g.stamped()
    g.lookall()
    return g.h


def forks(rng, steps, note='branches'):
    """C22: branches made, forked, dropped, chosen, reopened"""
    g = Gen(rng, note)
    g.start(1)
    pool = list(range(4))
    if g.big:        # a dozen branches
        pool += list(range(8, 20))
        for z in rng.sample(pool[1:], 9):
            g.branch(z, False, rng.choice([None, rng.choice(list(g.br))]))
        if rng.random() < .6:      # and one with a lot in it
            y = rng.choice(list(g.br))
            g.crowd(y)
            z = rng.choice(pool)
            g.branch(z, False, y)
            for x in {z, y} & set(g.br):
                g.look(x, True)
    for _ in range(steps):
        r = rng.random()
        ys = list(g.br)
        y = rng.choice(ys) if ys else 0
        z = rng.choice(pool)
        if r < .1:
            g.branch(z, rng.random() < .3)
        elif r < .3:
            g.branch(z, False, y if rng.random() < .9 else rng.randrange(5))
            for x in {z, y} & set(g.br):
                g.look(x, True)
        elif r < .7 and ys:
            g.frame(y, rng.choice([1, 1, 2, 3]), bad=.15, ask=.15, local=.4)
            if rng.random() < .3:
                for x in g.br:
                    g.h.dump(x)
        elif r < .76:
            g.drop(rng.choice([y, y, z, -1]))
            g.h.stores()
        elif r < .82:
            g.activate(rng.choice([y, y, z, -1]))
            g.h.stores()
        elif r < .86:
            g.h.recv(-1, [g.note()])
        elif r < .9:
            k = rng.randrange(4)
            if k == 0:
                g.h.create()
                g.stamped()
            elif k == 1:
                g.h.open()
            elif k == 2:
                g.h.close()
                x = rng.randrange(5)
                [lambda: g.h.branch(z), lambda: g.h.fork(z, y), lambda: g.h.recv(y, [g.note()]), lambda: g.h.dump(y),
                 lambda: g.h.drop(y)][x]()
                g.h.open()
                g.active = g.active if g.active in g.br else -1
            else:
                g.h.upkeep(rng.choice(['flush', 'compact']))
        else:
            g.reopen(rng.random() < .7)
            g.active = g.active if g.active in g.br else -1
            for x in g.br:
                g.h.dump(x)
    g.lookall()
    g.reopen()
    g.lookall()
    return g.h


def flock(rng, n):
    """a tree of n branches, put up again"""
    g = Gen(rng, 'many branches')
    g.start(1)
    for z in rng.sample(range(3, 50), n):
        ys = [y for y in g.br]
        y = rng.choice(ys) if ys and rng.random() < .6 else None
        g.branch(z, False, y)
        if rng.random() < .3:
            g.frame(rng.choice([z, rng.choice(list(g.br))]), 1, bad=.1, ask=.1, local=.6)
    for turn in range(2):
        g.reopen(rng.random() < .7)
        g.active = g.active if g.active in g.br else -1
        for y in rng.sample(list(g.br), 4):
            g.look(y)
            g.frame(y, 1, bad=.1, ask=.1, local=.6)
        for y in rng.sample(list(g.br), rng.choice([0, 1, 2])):
            g.drop(y)
        g.activate(rng.choice(list(g.br)))
    g.lookall()
    return g.h


def names(rng, steps, note='names'):
    """C29: names given by calls and in frames, in several branches"""
    g = Gen(rng, note)
    g.start(rng.choice([1, 2]))
    if g.big:      # a long table of names, given over several frames
        y = rng.choice(list(g.br))
        todo = rng.sample(g.labels, rng.randrange(25, len(g.labels)))
        while todo:
            n = rng.choice([1, 3, 10, 30])
            es = [g.naming(g.br[y], k) for k in todo[:n]]
            todo = todo[n:]
            g.h.recv(y, es)
            g.sum_stamps(es)
            g.number(g.br[y], g.made, es)
            g.h.names(y)
    for _ in range(steps):
        y = rng.choice(list(g.br))
        b = g.br[y]
        r = rng.random()
        if r < .08:
            g.tick(g.sec + rng.randrange(3))
        if r < .35:
            g.h.name(y, rng.choice(g.labels + ['name']), rng.choice(rng.choice(b.objs).evs)[0] if rng.random() < .9 else
                     rng.choice([[0, 13, 0], [2, 77, 6], [0, 1000, 0]]))
            g.stamped()
        elif r < .8:
            # a few entries with namings in between
            before, made, ok, es = b.copy(), g.made, True, []
            g.floor = made
            for _ in range(rng.randrange(1, 6)):
                q = rng.random()
                if q < .45:
                    es.append(g.naming(b))
                elif q < .7:
                    es.append(g.local(b) if not es or es[-1][1][0]['k'] != 'local' else g.note())
                elif q < .9:
                    es.append(g.foreign(b) or g.note())
                elif q < .97:
                    es.append(g.note())
                else:
                    es.append(g.bad(b))
                    ok = False
            g.floor = None
            bad = rng.random() < .1
            g.h.recv(y, es, 'bad' if bad else 'ok', '%%' if bad else '')
            g.sum_stamps(es)
            if ok and not bad:
                g.number(b, made, es)
            else:
                g.br[y], g.made = before, made
        elif r < .87:
            z = rng.choice([x for x in range(4) if x not in g.br] or [0])
            g.branch(z, rng.random() < .2, y if rng.random() < .8 else None)
            g.h.names(z)
        elif r < .9:
            g.h.abandon(y, [g.naming(b.copy()), g.note()])
        elif r < .93:
            g.h.upkeep(rng.choice(['flush', 'compact']))
        else:
            g.reopen(rng.random() < .7)
            g.active = g.active if g.active in g.br else -1
        if rng.random() < .8:
            g.h.names(y)
        if rng.random() < .1:
            for x in g.br:
                g.h.names(x)
    for x in g.br:
        g.h.names(x)
    g.reopen()
    for x in g.br:
        g.h.names(x)
    g.lookall()
    return g.h


# --------------------------------------------------------------------------
# C28: documents edited in several places

class Copy:
    """What one branch has: events in the order they came."""

    def __init__(self):
        self.order, self.have = [], {}

    def put(self, mid, ref, vals, at):
        self.order.append((mid, ref, vals))
        self.have[key(mid)] = at


def key(mid):
    return tuple(mid)


def texts(rng, steps, note='text'):
    g = Gen(rng, note)
    ys = list(range(rng.choice([1, 2, 2, 3])))
    g.start(len(ys), 0)
    cp = {y: Copy() for y in ys}
    for y in ys:
        cp[y].put(('k', y), [0, FYARN, 0], [], g.est)
    big = [rng.choice([140, 270, 400])] if rng.random() < .04 else []     # one long run
    home = {w: rng.choice(ys) for w in (5, 6, 7)}        # where a writer's events come first
    last = {}
    g.h.recv(0, [(g.spell([UNSTAMPED, 0, 0], [0, FRGA, 0], []), [{'k': 'local', 'op': g.op([UNSTAMPED, 0, 0], [0, FRGA, 0], [])}])])
    doc = g.madeid()
    cp[0].put(doc, [0, FRGA, 0], [], g.stamped(2))
    ask = [('kd', doc[1]), FTXT], [doc, FRGA], [doc, FLOG]

    def char():
        v = ('s', rng.choice(CHARS))
        g.texts[vtext(v)] = [ord(v[1])]
        return [v]

    def values():
        r = rng.random()
        v = ('s', rng.choice(CHARS)) if r < .62 else name('rm') if r < .8 else name('un') if r < .88 else \
            ('s', rng.choice(['ab', '', 'x\u20acy', '"', "it's"])) if r < .94 else ('i', 7) if r < .97 else None
        if v and v[0] == 's':
            g.texts[vtext(v)] = [ord(c) for c in v[1]]
        return [v] if v else []

    def question():
        mid, form = rng.choice(ask[:1] * 3 + ask[1:])
        return ('@%s :%s ?\n' % (text(mid), text([0, form, 0])),
                [{'k': 'query', 'id': mid, 'form': form, 'texts': dict(g.texts)}])

    def spots(c):
        return [(m, c.have[key(m)]) for m, r, v in c.order if r != [0, FYARN, 0]]

    def typing(c, w=None):
        """a run of edits, of the branch itself or of another writer"""
        out, n = [], rng.choice([1, 1, 2, 3, 4])
        if big and rng.random() < .3:
            n = big.pop()
        ref, at = rng.choice(spots(c)[-6:] if rng.random() < .7 else spots(c))
        if w is not None and w not in last:
            v = g.cap(rng.randrange(3))
            c.put([2, v, w], [0, FYARN, 0], [], v)
            last[w] = v
            out.append(g.event([2, v, w], [0, FYARN, 0], []))
        if w is None:
            at = g.stamped(n + 1)
        t, spec = '', []
        for k in range(n):
            vals = values() if n < 50 or k > n - 3 else char()
            if w is None:
                ph, mid = [UNSTAMPED, k, 0], g.madeid()
                r = [UNSTAMPED, k - 1, 0] if k else ref
                spec.append({'k': 'local', 'op': g.op(ph, r, vals)})
                t += g.spell(ph, r, vals, ';' if k == n - 1 else ',')
            else:
                v = max(last[w], at) + rng.choice([1, 1, 1, 2, 50])
                if v > NEVER - (1 << 24):
                    break
                mid, last[w], at = [2, v, w], v, v
                spec.append({'k': 'event', 'op': g.op(mid, ref, vals)})
                t += g.spell(mid, ref, vals, rng.choice(';,'))
            c.put(mid, ref, vals, at)
            ref = mid
        if w is not None:
            g.est = max(g.est, last[w])
        return out + ([(t + ('' if t.endswith(';\n') else ';\n'), spec)] if spec and w is None else
                      [(t, spec)] if spec else [])

    def pull(y, z, n=None):
        """what y has, z takes"""
        a, b = cp[y], cp[z]
        lack = [o for o in a.order if key(o[0]) not in b.have][:n]
        es = []
        for m, r, v in lack:
            es.append(g.event(m, r, v, rng.choice(';;,')))
            b.put(m, r, v, a.have[key(m)])
            if rng.random() < .05:
                es.append(question())
            if rng.random() < .1:
                g.h.recv(z, es)
                es = []
        if es:
            g.h.recv(z, es)
        g.stamped()

    def has(c):
        return key(doc) in c.have
    for _ in range(steps):
        y = rng.choice(ys)
        r = rng.random()
        if rng.random() < .08:
            g.tick(g.sec + rng.randrange(3))
        if not has(cp[y]):
            pull(0, y)
        elif r < .4:
            es = typing(cp[y])
            if rng.random() < .5:
                es.append(question())
            g.h.recv(y, es)
        elif r < .65:
            es = []
            for w in home:
                if home[w] == y and rng.random() < .6:
                    es += typing(cp[y], w)
            if rng.random() < .5:
                es.append(question())
            if es:
                g.h.recv(y, es)
        elif r < .85 and len(ys) > 1:
            pull(rng.choice([z for z in ys if z != y]), y, rng.choice([1, 3, 10, None]))
        elif r < .9:
            g.h.version(y, doc, rng.choice(spots(cp[y]))[0])
        elif r < .93:
            g.reopen()
        else:
            g.h.recv(y, [question()])
    for _ in range(2):
        for y in ys:
            for z in ys:
                if y != z:
                    pull(y, z)
    g.h.clock(g.sec)
    for y in ys:
        g.h.recv(y, [('@%s :%s ?\n' % (text(m), text([0, f, 0])),
                      [{'k': 'query', 'id': m, 'form': f, 'texts': dict(g.texts)}]) for m, f in ask])
        g.h.dump(y)
    # a new branch is told of the document by another one
    y = rng.choice(ys)
    g.h.branch(4)
    for m, r, v in cp[y].order:
        if r == [0, FYARN, 0]:
            g.h.sync(y, 4, m)
    g.h.sync(y, 4, doc)
    for m, f in ask:
        g.h.recv(4, [('@%s :%s ?\n' % (text(m), text([0, f, 0])),
                      [{'k': 'query', 'id': m, 'form': f, 'texts': dict(g.texts)}])])
    g.h.dump(4)
    return g.h


# --------------------------------------------------------------------------
# killed processes

def crash_plan(rng, only=None):
    """-> (before, doomed, branches)"""
    g = Gen(rng, 'killed')
    fresh = rng.random() < .15
    ys = set()
    if not fresh:
        g.start(rng.choice([1, 1, 2]))
        for _ in range(rng.randrange(4)):
            g.frame(rng.choice(list(g.br)), rng.choice([1, 2, 3]), bad=0, ask=0)
        if rng.random() < .3:
            g.activate(rng.choice(list(g.br)))
        g.h.close(True)
    else:
        g.tick(0)
    ys |= set(g.br)
    pre, g.h = g.h, Hist()
    g.tick(g.sec + rng.randrange(4))
    if fresh:
        g.h.create()
        g.stamped()
    g.h.open()
    if fresh and rng.random() < .7:
        g.branch(0)
        ys.add(0)
    kinds = only or ['frame'] * 6 + ['branch', 'fork', 'fork', 'drop', 'activate', 'name', 'new', 'reopen', 'upkeep']
    for _ in range(rng.randrange(2, 7)):
        k = rng.choice(kinds)
        z = rng.randrange(4)
        if not g.br:
            k = 'branch'
        y = rng.choice(list(g.br)) if g.br else z
        ys |= {z} if k in ('branch', 'fork') else set()
        if k == 'frame':
            to = -1 if y == g.active and rng.random() < .5 else None
            g.frame(y, rng.choice([1, 2, 3, 4]), bad=.1, ask=.05, to=to)
        elif k == 'branch':
            g.branch(z, rng.random() < .2)
        elif k == 'fork':
            g.branch(z, False, y)
        elif k == 'drop':
            g.drop(y)
        elif k == 'activate':
            g.activate(y)
        elif k == 'name':
            g.h.name(y, rng.choice(['abc', 'x']), rng.choice(g.br[y].objs).evs[0][0])
            g.stamped()
        elif k == 'new':
            form = rng.choice([FLWW, FRGA, FMX])
            g.h.new(y, [0, form, 0])
            at = g.stamped(2)
            g.br[y].objs.append(Ob(form, g.madeid(), at))
            g.br[y].last[y] = at
        elif k == 'reopen':
            g.h.close(rng.random() < .6)
            g.h.open()
            g.active = g.active if g.active in g.br else -1
        elif k == 'upkeep':
            g.h.upkeep(rng.choice(['flush', 'compact']))
    return pre, g.h, sorted(ys)


def crash_history(rng, plan, n, mode, again=None):
    pre, sub, ys = plan
    h = Hist('killed')
    h.jobs += pre.jobs[1:]
    h.crash(n, mode, sub)
    h.clock(5)
    if again:
        rec = Hist()
        rec.clock(5)
        rec.open()
        for y in ys[:2]:
            rec.dump(y)
            rec.new(y, [0, FLWW, 0])
        h.crash(again, mode, rec)
        h.clock(5)
    h.open()
    if rng.random() < .5 or not pre.jobs[2:]:
        h.close(True)
        h.create()
        h.open()
    h.dump(-1)
    h.stores()
    for y in ys:
        h.dump(y)
        h.names(y)
        h.tip(y)
    h.now(ys[0] if ys else 0)
    g = Gen(rng)
    for y in ys:
        k = rng.randrange(5)
        if k == 0:
            h.branch(y)
        elif k == 1:
            h.new(y, [0, FRGA, 0])
        elif k == 2:
            a, o = [2, NEVER - (1 << 22) + y, 11], [2, NEVER - (1 << 22) + 40 + y, 11]
            h.recv(y, [g.event(a, [0, FYARN, 0], []), g.event(o, [0, FLWW, 0], [])])
        elif k == 3:
            h.drop(y)
        h.dump(y)
    h.close(True)
    h.open()
    h.stores()
    for y in ys:
        h.dump(y)
    return h


def crashes(ctx, rng, exe, prop, plans, kills, only=None):
    ps = [crash_plan(rng, only) for _ in range(plans)]
    hs = [crash_history(rng, p, 0, 0) for p in ps]
    traces = judge(ctx, hs, exe, prop)
    out = []
    for p, t in zip(ps, traces):
        made = [e['made'] for e in t['ev'] if e['op'] == 'crash' and e.get('made', '-') != '-']
        total = int(made[0]) if made else 0
        ctx.count('crash points', total)
        pts = list(range(1, total + 1))
        if len(pts) > kills:
            pts = sorted(rng.sample(pts, kills // 2) + pts[-(kills - kills // 2):])
        for n in pts:
            out.append(crash_history(rng, p, n, rng.choice([0, 1, 1, 2]), rng.randrange(1, 80) if rng.random() < .15 else None))
    judge(ctx, out, exe, prop)


# --------------------------------------------------------------------------
# histories that the specification generates

def unvalue(t):
    k, _, v = t.partition(':')
    return ('i', int(v)) if k == 'i' else name(v) if k == 'u' else ('s', bytes.fromhex(v).decode())


def concrete(rng, case, yarns, note='generated'):
    """A history of ReplicaGen in the real world: an event of value v is v
    seconds late, the clock is set so that own stamps come in the same order."""
    h = Hist(note)
    made = {}

    def sub(i, own=False):
        if i[0] == 2 and tuple(i) in made:
            return ('k', made[tuple(i)])
        return [2, i[1] << 24, i[2]] if i[0] == 2 else i

    def make(v, y):
        made[(2, v, y)] = len(made)
    h.clock(0)
    h.create()
    h.open()
    h.clock(1)
    h.branch(0)
    make(1, 0)
    for c in case:
        op, now = c['op'], c['was']
        h.clock(now + 1)
        if op == 'recv':
            es, new, was, ph = [], [], None, 0
            for e in c['frame']:
                i, ref, vals, _ = e['op']
                vals = [unvalue(v) for v in vals]
                if e['k'] == 'event':
                    now = max(now, i[1])
                    i, ref = sub(i), sub(ref)
                else:
                    now += 1
                    new.append(now)
                    if was == 'local' and i[1] <= ph:
                        i = [UNSTAMPED, ph + 1, 0]
                    ph = i[1]
                    ref = sub(ref)
                was = e['k']
                es.append((Gen.spell(i, ref, vals), [{'k': e['k'], 'op': Gen.op(i, ref, vals)}]))
            h.recv(c['y'], es)
            if c['ok']:
                for v in new:
                    make(v, c['y'])
        elif op == 'branch':
            h.branch(c['y'])
            if c['ok']:
                make(now + 1, c['y'])
        elif op == 'fork':
            h.fork(c['y'], c['from'])
            if c['ok']:
                make(now + 1, c['y'])
        elif op == 'close':
            h.close(rng.random() < .5)
        else:
            getattr(h, op)(*([c['y']] if 'y' in c else []))
    if case[-1]['op'] == 'close':
        h.open()

    def look():
        h.stores()
        for y in yarns:
            h.dump(y)
            h.tip(y)
    look()
    h.close(True)
    h.open()
    look()
    return h


def covering(ctx, rng, cfg, prop, limit, yarns=(0, 1)):
    cases, r = core.generate('ReplicaGen', 'ReplicaGen_' + cfg, tag=prop)
    ctx.model(r)
    if len(cases) > limit:
        # the longest are the most telling: shorter ones are their beginnings
        cases = sorted(cases, key=lambda c: -len(c) - 2 * rng.random())[:limit]
    return [concrete(rng, c, yarns) for c in cases]


def check(prop, tier, ctx):
    rng = random.Random(core.SEED * 7919 + int(prop[1:]))
    deep = tier == 'thorough'
    exe = core.build('d_replica')
    sfx = '_deep' if deep else ''
    ctx.model(core.model_check('ReplicaModel', 'ReplicaModel' + sfx, tag=prop))
    if prop == 'C20':
        ctx.model(core.model_check('ReplicaModel', 'ReplicaModel_pairs' + sfx, tag=prop))
    k = 10 if deep else 1
    if prop == 'C19':
        hs = covering(ctx, rng, 'causal' + sfx, prop, 500 * k, [0])
        hs += [causal(rng, rng.randrange(6, 25)) for _ in range(350 * k)]
    elif prop == 'C20':
        hs = covering(ctx, rng, 'frames' + sfx, prop, 500 * k, [0])
        hs += [mixed(rng, rng.randrange(6, 25)) for _ in range(300 * k)]
    elif prop == 'C21':
        hs = [clocks(rng, rng.randrange(8, 40)) for _ in range(500 * k)]
        fam_ids.check(prop, tier, ctx)
    elif prop == 'C22':
        hs = covering(ctx, rng, 'forks' + sfx, prop, 600 * k)
        hs += [forks(rng, rng.randrange(6, 30)) for _ in range(300 * k)]
        hs += [flock(rng, n) for n in (18, 34, 40) * k]
    elif prop == 'C28':
        hs = [texts(rng, rng.randrange(6, 40)) for _ in range(250 * k)]
    elif prop == 'C29':
        hs = [names(rng, rng.randrange(6, 30)) for _ in range(300 * k)]
    judge(ctx, hs, exe, prop)
    if prop == 'C20':
        crashes(ctx, rng, exe, prop, 20 * k, 30)
    elif prop == 'C22':
        crashes(ctx, rng, exe, prop, 20 * k, 30, ['branch', 'fork', 'fork', 'drop', 'activate', 'reopen', 'frame'])
    elif prop == 'C29':
        crashes(ctx, rng, exe, prop, 10 * k, 30, ['name', 'name', 'name', 'frame', 'fork', 'reopen'])
