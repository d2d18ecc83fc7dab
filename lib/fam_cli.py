"""Family F: the command line tool (C31): sessions of commands, each run as a
process of its own would run it, and all that they print."""
import random
import core, model
from model import hx, unpid
import fam_replica
from fam_replica import (Gen, Hist, Follow, Branch, Ob, FLOG, FLWW, FRGA, FMX, FMAX, FYARN, LOST, pmodel, text, ops_of,
                         records, yarn)

CAMEL = ['Foo', 'Bar', 'Main1', 'MyBranch', 'fooBar', 'A1b']
SNAKE = ['thing', 'a', 'readme', 'x1', 'doc', 'note']
CAPS = ['V1', 'TAG', 'X', 'ABC']
DIGITS = ['123', '7']
CASES = {t: c for c, ts in (('camel', CAMEL), ('snake', SNAKE), ('caps', CAPS), ('num', DIGITS)) for t in ts}
KIND = {'': '', 'things': '', 'yarns': 'camel', 'objects': 'snake', 'versions': 'caps', 'stuff': ''}
FORMS = {FLWW: 'lww', FRGA: 'rga', FMX: 'mx', FMAX: 'max', FYARN: 'yarn', FLOG: 'log'}
NONE = {'k': 'none'}


FAR = [2, 2147483000, 7]


def far(x):
    """an id nobody has made, as one of an event far away"""
    if isinstance(x, list):
        return FAR if x == fam_replica.rmodel(*LOST) else [far(y) for y in x]
    return {k: far(v) for k, v in x.items()} if isinstance(x, dict) else x


def case_of(t):
    """what a label may stand for: digits and signs, and small or big letters"""
    up, low = any('A' <= c <= 'Z' or c == '~' for c in t), any('a' <= c <= 'z' or c == '_' for c in t)
    return 'camel' if up and low else 'caps' if up else 'snake' if low else 'num'


def label(t):
    return {'k': 'label', 't': t, 'case': CASES[t]}


def said(f):
    """an id that was printed; an empty one or a bare name is given as text"""
    if f.startswith('?'):
        return [9, 9, 9]
    v, o = unpid(f)
    return pmodel(f) if o else [2, -1, -1] if not v else ['', model.unword(v)]


class Session(Hist):
    """What Gen would do to a replica, said on the command line."""

    def __init__(self, rng, note):
        Hist.__init__(self, note)
        self.rng = rng
        self.made_labels = []
        self.labels = []

    def cli(self, kind, verb, words, draw=None, file=None, **kw):
        e = {'verb': verb, 'extra': False, 'on': NONE, 'as': NONE, 'of': NONE, 'what': '', 'out': [9, 0, 0], 'lines': [],
             'ops': [], 'recs': [], 'label': '', 'y': -1, 'nofile': False, 'kinds': []}
        e.update(kw)

        def parse(w):
            d = {'ids': fam_replica.idlist(w[1]) if len(w) > 1 else []}
            d['says'] = w[0]
            d['ok'] = w[0] == 'OK'
            if w[0] != 'OK':
                return d
            got = w[2:] if w[2:] != ['-'] else []
            if kind == 'frame':
                d['ops'] = ops_of(got[0]) if got else []
            elif kind == 'records':
                d['recs'] = [['bad', got, []]] if any(x[0] == '?' for x in got) else records(got)
            elif verb == 'on':
                x = [said(l) for l in got]
                if len(x) == 1 and x[0][0] == '':
                    d['label'] = x[0][1]
                else:
                    d['lines'] = x
            elif verb in ('list', 'named'):
                d['lines'] = []
                for l in got:
                    a, _, b = l.partition(',')
                    b = said(b) if b else [9, 0, 0]
                    d['lines'].append([said(a), b[1] if b[0] == '' else '' if b == [2, -1, -1] else '?%s' % b])
            elif got:
                d['out'] = said(got[0])
                if d['out'][0] == '':
                    d['out'] = [9, 1, 1]
            return d
        self.add('cli %s %s %s %s' % (kind, yarn(draw) if draw is not None else '-', hx(file) if file is not None else '-',
                                      ' '.join(hx(w) for w in words)), 'cli', parse, **e)

    # arguments: (words, meaning)
    def branch_arg(self, y):
        """some way to name the branch, right or wrong"""
        r = self.rng.random()
        if y is None:
            return [], NONE
        if r > .95 and self.labels:
            l = self.rng.choice(self.labels)
            return [l], label(l)
        if y == -1:
            return ['0'], {'k': 'yarn', 'y': -1}
        ls = [l for l, z in self.made_labels if z == y]
        if ls and r < .6:
            l = self.rng.choice(ls)
            return [l], label(l)
        return [text([2, fam_replica.NEVER, y])], {'k': 'yarn', 'y': y}

    def more(self):
        """words too many, now and then"""
        return [self.rng.choice(CAMEL + SNAKE + ['0', '~+A'])] if self.rng.random() < .04 else []

    def on(self, y):
        w, a = self.branch_arg(y)
        return (['on'] + w if w else []), a

    # the calls of a replica
    def create(self):
        self.cli('ids', 'init', ['init'])

    def open(self):
        pass

    def close(self, new=False):
        pass

    def stores(self):
        self.listing()

    def tag(self, good):
        r = self.rng.random()
        if r < .35:
            return [], NONE
        t = self.rng.choice(good if r < .9 else CAMEL + SNAKE + CAPS + DIGITS)
        return ['as', t], label(t)

    def branch(self, y, tr=False, verb='create', **kw):
        w, a = self.tag(CAMEL)
        m = self.more()
        extra = bool(m)
        self.cli('ids', verb, [verb] + m + w, draw=y, y=y, extra=extra, **{'as': a})
        if a['k'] == 'label' and a['case'] == 'camel' and not extra:
            self.made_labels = [x for x in self.made_labels if x[0] != a['t']] + [(a['t'], y)]
        return a

    def fork(self, y, frm):
        self.activate(frm)
        return self.branch(y, verb='fork')

    def drop(self, y):
        w, a = self.branch_arg(y if y != -1 or self.rng.random() < .5 else None)
        more = self.more() if w else []
        self.cli('ids', 'drop', ['drop'] + w + more, on=a, extra=bool(more))

    def activate(self, y):
        w, a = self.on(y)
        more = self.more()
        self.cli('ids', 'hop', ['hop'] + w + more if self.rng.random() < .5 else ['hop'] + more + w, on=a, extra=bool(more))

    def recv(self, y, entries, syntax='ok', tail='', seps=None, on=None):
        t = ''.join(e[0] for e in entries) + tail
        w, a = ([], NONE) if on == 'active' else self.on(y)
        m = self.more() if self.rng.random() < .25 else []
        self.cli('ids', 'write', ['write', 'FILE'] + m + w, file=t, on=a, extra=bool(m), frame=[s for e in entries for s in e[1]], syntax=syntax)

    def dump(self, y):
        w, a = self.branch_arg(y)
        self.cli('records', 'dump', ['dump'] + w, on=a)

    def listing(self, what=''):
        self.cli('ids', 'list', ['list'] + ([what] if what else []), what=what)

    def where(self):
        self.cli('ids', 'on', ['on'])

    def clock_now(self):
        self.cli('ids', 'now', ['now'])

    def names(self, y, what=None):
        what = self.rng.choice(list(KIND)) if what is None else what
        w, a = self.on(y)
        self.cli('ids', 'named', ['named'] + ([what] if what else []) + w, on=a, what=what)

    def give(self, y, mid, t=None):
        t = t or self.rng.choice(list(CASES))
        w, a = self.on(y)
        bad = self.rng.random()
        words, lab = (['as', t], label(t)) if bad > .04 else ([], NONE)
        if words:
            self.labels.append(t)
        m = self.more()
        self.cli('ids', 'name', ['name', text(mid)] + m + words + w, id=mid, on=a, extra=bool(m), **{'as': lab})

    def fresh(self, y, form):
        """new: an object and perhaps its name"""
        w, a = self.on(y)
        n, lab = self.tag(SNAKE)
        extra = self.rng.random() < .03
        f = FORMS.get(form, 'foo')
        self.cli('ids', 'new', ['new', f] + (['more'] if extra else []) + n + w, on=a, rdt=[0, form, 0], extra=extra, **{'as': lab})
        return lab

    def object_arg(self, mid):
        if isinstance(mid, str):
            return ['of', mid], label(mid)
        if mid is None:
            return [], NONE
        return ['of', text(mid)], {'k': 'id', 'id': mid}

    def get(self, mid, form):
        w, a = self.object_arg(mid)
        self.cli('frame', 'get', ['get', FORMS[form]] + w, of=a, form=form)

    def recall(self, mid, ver):
        w, a = self.object_arg(mid)
        self.cli('frame', 'recall', ['recall', text(ver)] + w, of=a, id=ver)

    def noise(self):
        verb = self.rng.choice(['lost', 'branch', 'names', 'undo', 'list everything', 'write nowhere'])
        if verb == 'list everything':
            self.listing('everything')
        elif verb == 'write nowhere':
            self.cli('ids', 'write', ['write', '/nonexistent/file.ron'], nofile=True, frame=[], syntax='ok')
        else:
            self.cli('ids', verb, [verb])


class Talk(Gen):
    def __init__(self, rng, note):
        Gen.__init__(self, rng, note)
        self.h = Session(rng, note)
        self.objnames = {}
        self.big = False

    def note_active(self, y):
        if y in self.br:
            self.active = y


def session(rng, steps):
    g = Talk(rng, 'session')
    s = g.h
    g.tick(rng.choice([0, 0, 3, 30]))
    if rng.random() < .1:      # nothing there yet
        rng.choice([s.where, s.listing, lambda: s.dump(-1), lambda: s.branch(0)])()
    s.create()
    if rng.random() < .1:
        s.create()
    g.stamped()
    pool = list(range(4))

    def start(y, frm=None):
        if frm is None:
            a = s.branch(y)
        else:
            a = s.fork(y, frm)
        bad = s.jobs[-1][1][1]['extra'] or a['k'] == 'label' and a['case'] != 'camel'
        if bad or y in g.br or frm is not None and (frm not in g.br or y in g.br[frm].last):
            if frm in g.br:
                g.active = frm
            return
        b = Branch(y) if frm is None else g.br[frm].copy(y)
        at = g.stamped()
        b.last[y] = at
        b.objs.append(Ob(FYARN, g.madeid(), at))
        g.br[y] = b
        g.active = y
        g.stamped(3)
    start(0)
    for _ in range(steps):
        r = rng.random()
        ys = list(g.br)
        y = rng.choice(ys) if ys else 0
        if g.active in g.br and rng.random() < .5:
            y = g.active
        b = g.br.get(y)
        if r < .08:
            start(rng.choice(pool))
        elif r < .16:
            start(rng.choice(pool), y)
        elif r < .21:
            z = rng.choice([y, y, rng.choice(pool), -1])
            s.drop(z)
            if z in g.br and not s.jobs[-1][1][1]['extra']:
                g.br.pop(z)
                if g.active == z:
                    g.active = -1
        elif r < .29:
            z = rng.choice([y, y, y, rng.choice(pool), -1])
            s.activate(z)
            if (z in g.br or z == -1) and not s.jobs[-1][1][1]['extra']:
                g.active = z
        elif r < .42 and b:
            form = rng.choice([FLWW, FRGA, FRGA, FMX, FMAX, FYARN, 99])
            lab = s.fresh(y, form)
            bad = s.jobs[-1][1][1]['extra']
            if form in (FLWW, FRGA, FMX, FMAX) and not bad and (lab['k'] == 'none' or lab['case'] == 'snake'):
                at = g.stamped(2)
                mid = g.madeid()
                b.objs.append(Ob(form, mid, at))
                b.last[y] = at
                if lab['k'] == 'label':
                    g.objnames.setdefault(y, {})[lab['t']] = mid
        elif r < .62 and b:
            g.frame(y, rng.choice([1, 1, 2, 3]), bad=.12, ask=.1, local=.5)
        elif r < .7 and b:
            o = rng.choice(b.objs)
            z = rng.choice([y, y, y, -1])
            mid = rng.choice(rng.choice([o.evs, o.evs[:1]]))[0] if rng.random() < .9 else [2, 7, 7]
            s.give(z, mid)
            g.stamped(2)
            if rng.random() < .4:      # a label for a branch, in whatever case
                x = rng.choice(ys + pool)
                t = rng.choice(SNAKE + CAMEL)
                s.give(-1, [2, fam_replica.NEVER, x], t)
                s.cli('ids', 'hop', ['hop', 'on', t], on=label(t))
                if x in g.br and CASES[t] == 'camel':
                    g.active = x
        elif r < .75:
            s.names(rng.choice([y, -1, rng.choice(pool)]))
        elif r < .8:
            rng.choice([s.where, s.listing, s.clock_now, lambda: s.listing(rng.choice(['stores', 'branches'])), s.noise])()
        elif r < .84:
            g.tick(g.sec + rng.choice([0, 1, 3]))
        elif r < .97 and b:
            if g.active != y:
                s.activate(y)
                if s.jobs[-1][1][1]['extra']:
                    continue
                g.active = y
            for _ in range(rng.choice([1, 2, 3])):
                o = rng.choice(b.objs)
                mid = rng.choice([o.evs[0][0]] * 6 + [rng.choice(o.evs)[0], [2, 7, 7], None, rng.choice(SNAKE)])
                if s.labels and rng.random() < .15:
                    mid = rng.choice(s.labels)
                if g.objnames.get(y) and rng.random() < .3:
                    mid = rng.choice(list(g.objnames[y]))
                if rng.random() < .6:
                    form = rng.choice([o.form, o.form, o.form, FLOG, FLOG, FLWW, FRGA])
                    s.get(mid, form if form != FMAX else FLOG)
                else:
                    s.recall(mid, rng.choice(o.evs)[0] if rng.random() < .9 else [2, 0, 7])
        else:
            s.dump(rng.choice([y, -1]))
    s.listing()
    s.where()
    for y in list(g.br) + [-1]:
        s.dump(y)
        s.names(y, '')
    return s


class Heard(Follow):
    def __init__(self):
        Follow.__init__(self)
        self.keys = set(CASES)

    def event(self, job, answer):
        op, kw, parse = job
        w = answer.split(' ')
        e = Follow.event(self, job, answer)
        if op == 'cli' and e['st'] != 'CRASH':
            e.update(parse(w))
            if e['verb'] != 'write':
                e.pop('frame', None)
            for x in e.get('frame', ()):
                if x['k'] == 'name':
                    self.keys.add(x['key'])
            if e['verb'] == 'named':
                e['kinds'] = [k for k in {l[1] for l in e['lines']} | self.keys if
                              case_of(k) == KIND[e['what']]]
            e = far(e)
            self.known += [i for i in e['ids'] if i[2] != -1]
        return e


def check(prop, tier, ctx):
    rng = random.Random(core.SEED * 7919 + int(prop[1:]))
    deep = tier == 'thorough'
    ctx.model(core.model_check('CliModel', 'CliModel' + ('_deep' if deep else ''), tag=prop))
    exe = core.build('d_cli')
    k = 10 if deep else 1
    s = Session(rng, 'draws')
    g = Talk(rng, 'draws')
    g.tick(rng.choice([0, 3, 30]))
    s.jobs = g.h.jobs[:]
    s.add('draws %d' % (12 * k), 'draws', lambda w: {'all': [f for f in w[1:]]})
    hs = [s] + [session(rng, rng.randrange(8, 35)) for _ in range(300 * k)]
    judge(ctx, hs, exe, prop)


def judge(ctx, hists, exe, tag, batch=2000):
    traces = []
    for off in range(0, len(hists), batch):
        part = hists[off:off + batch]
        ans = core.run_driver(exe, [l for h in part for l, _ in h.jobs], tag, stateful=True)
        at = 0
        for h in part:
            f, evs = Heard(), []
            for (l, job), a in zip(h.jobs, ans[at:at + len(h.jobs)]):
                if job is None:
                    continue
                if a.split(' ')[0] == 'SKIP':
                    break
                evs.append(f.event(job, a))
            at += len(h.jobs)
            traces.append({'op': h.note, 'ev': evs})
    for t in traces:
        for e in t['ev']:
            ctx.count('%s %s' % (e.get('verb', e['op']), 'done' if e.get('ok') else 'refused'))
    ctx.judge('CliTrace', traces, ['\n'.join(l for l, _ in h.jobs) for h in hists])
