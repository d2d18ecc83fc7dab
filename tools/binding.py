#!/usr/bin/env python3
"""binding.py PROP [N]: demonstrates that the trace specifications bind. Runs the
quick check of a property, corrupts one field of each of N recorded events and
has TLC judge those: prints, for every kind of call and field, how many of the
corrupted events were rejected. A field that never matters shows as 0."""
import collections, copy, os, random, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, 'lib')]
import check, core
prop, n = sys.argv[1], int(sys.argv[2]) if len(sys.argv) > 2 else 1500
rng = random.Random(7)
table = collections.defaultdict(lambda: [0, 0])


def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        if x:
            yield path
        for k, v in enumerate(x):
            yield from leaves(v, path + (k,))
    else:
        yield path


def get(x, path):
    for p in path:
        x = x[p]
    return x


def spoil(e):
    ls = [l for l in leaves(e) if l and l[-1] not in ('op', 'k', 'st', 'says', 'note', 'how', 'kind', 'a')]
    if not ls:
        return None, None
    # fields first, then places within: long ones must not take it all
    by = collections.defaultdict(list)
    for l in ls:
        by[tuple(x for x in l if isinstance(x, str))].append(l)
    f = rng.choice(sorted(by))
    l = rng.choice(by[f])
    e = copy.deepcopy(e)
    at, v = get(e, l[:-1]), get(e, l)
    if isinstance(v, bool):
        at[l[-1]] = not v
    elif isinstance(v, int):
        at[l[-1]] = v + rng.choice([1, -1]) if v > 0 else v + 1
    elif isinstance(v, str):
        at[l[-1]] = v + '0'
    elif isinstance(v, list):
        at[l[-1]] = v[:-1]
    else:
        return None, None
    name = e.get('op', '?')
    if f and f[0] == 'ev' and len(l) > 1 and isinstance(l[1], int):
        name = 'in a history: ' + e['ev'][l[1]]['op']
        f = f[1:]
    return e, name + ' .' + '.'.join(f)


def judge(self, module, events, sources, exe=None, cfg=None, describe=None):
    if len(events) > n:
        events = rng.sample(events, n)
    bad, names = [], []
    for e in events * (1 if len(events) > n // 4 else 4):
        b, f = spoil(e)
        if b:
            bad.append(b)
            names.append(f)
    try:
        rej = set(core.validate(module, bad, cfg, tag=self.prop)[0])
    except core.ToolError:
        # some are beyond what TLC can evaluate at all: one by one
        rej = set()
        for k, b in enumerate(bad[:150]):
            try:
                if core.validate(module, [b], cfg, tag=self.prop)[0]:
                    rej.add(k)
            except core.ToolError:
                rej.add(k)
        names = names[:150]
    for k, f in enumerate(names):
        table[module + ' ' + f][0] += 1
        table[module + ' ' + f][1] += k in rej


check.Ctx.judge = judge
ctx = check.Ctx(prop, 'quick')
__import__(check.FAMILY[prop]).check(prop, 'quick', ctx)
for k in sorted(table):
    print('%5d of %5d  %s' % (table[k][1], table[k][0], k))
