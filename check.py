#!/usr/bin/env python3
"""check.py <property> <quick|thorough>"""
import glob, json, os, sys, time, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import core

FAMILY = {}
for _p in list(range(1, 8)) + [30]:
    FAMILY['C%02d' % _p] = 'fam_rdt'
for _p in (8, 9, 10, 25, 26):
    FAMILY['C%02d' % _p] = 'fam_text'
for _p in (11, 12, 23, 24, 27):
    FAMILY['C%02d' % _p] = 'fam_ids'
for _p in range(13, 19):
    FAMILY['C%02d' % _p] = 'fam_store'
for _p in list(range(19, 23)) + [28, 29]:
    FAMILY['C%02d' % _p] = 'fam_replica'
FAMILY['C31'] = 'fam_cli'


def known_findings():
    path = os.path.join(core.VERIF, 'known-findings.json')
    return json.load(open(path)) if os.path.exists(path) else []


class Ctx:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples = {}
        self.cases = []
        self.seen_ops = {}
        self.violations = []
        self.known = []
        self.notes = []

    def model(self, r):
        self.states += r.distinct
        self.transitions += r.generated

    def count(self, what, n=1):
        self.samples[what] = self.samples.get(what, 0) + n

    def judge(self, module, events, sources, exe=None, cfg=None, describe=None):
        """Has TLC judge every recorded event. Rejections are repeated before
        they are believed, then compared with the known findings."""
        bad, st, tr = core.validate(module, events, cfg, tag=self.prop)
        self.states += st
        self.transitions += tr
        self.traces += len(events)
        for k, e in enumerate(events):
            op = e.get('op', '?')
            self.count(op)
            if self.seen_ops.setdefault(op, 0) < 2 and (k % 7 == 3 or len(events) < 50):
                self.seen_ops[op] += 1
                self.cases.append({'call': (sources[k] if sources else '')[:1500], 'event': clip(e)})
        if not bad:
            return
        again, _, _ = core.validate(module, [events[b] for b in bad[:2000]], cfg, tag=self.prop)
        for k in again[:200]:
            b = bad[k]
            self.violation(events[b], sources[b] if sources else None, module, cfg)

    def violation(self, event, source, module, cfg=None):
        for f in known_findings():
            if f.get('property') == self.prop and 'match' in f and matches(f['match'], event, source):
                if f['what'] not in self.known:
                    self.known.append(f['what'])
                return
        d = os.path.join(core.WORK, 'replay')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%d.json' % (self.prop, len(self.violations)))
        json.dump({'property': self.prop, 'spec': module, 'cfg': cfg, 'seed': core.SEED,
                   'script': source, 'event': event}, open(path, 'w'), indent=1)
        self.violations.append(path)

    def finish(self):
        for w in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.prop, w))
        for p in self.violations[:10]:
            print('VIOLATION property=%s replay=%s' % (self.prop, p))
        ev = {'property': self.prop, 'tier': self.tier, 'seed': core.SEED, 'level': 'model_checking',
              'coverage': {'states': self.states, 'transitions': self.transitions,
                           'traces_validated_against_impl': self.traces,
                           'calls_by_kind': self.samples,
                           'samples': self.cases[:24]},
              'wall_s': round(time.time() - self.t0, 1),
              'violations': len(self.violations)}
        if self.notes:
            ev['assumptions'] = self.notes
        d = os.path.join(core.VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        json.dump(ev, open(os.path.join(d, self.prop + '.json'), 'w'), indent=1)
        print('%s %s: %d states, %d events validated, %d violations, %.1fs' % (
            self.prop, self.tier, self.states, self.traces, len(self.violations), time.time() - self.t0))
        return 1 if self.violations else 0


def clip(e):
    t = json.dumps(e)
    return e if len(t) < 3000 else t[:3000]


def matches(pat, event, source):
    for k, v in pat.items():
        if k == 'script':
            if source != v:
                return False
        elif event.get(k) != v:
            return False
    return True


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    fam = __import__(FAMILY[prop])
    ctx = Ctx(prop, tier)
    for old in glob.glob(os.path.join(core.WORK, 'replay', prop + '-*.json')):
        os.unlink(old)
    try:
        fam.check(prop, tier, ctx)
    except core.ToolError as e:
        print('ERROR %s: %s' % (prop, e))
        return 3
    return ctx.finish()


if __name__ == '__main__':
    sys.exit(main())
