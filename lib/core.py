"""Shared machinery: building the drivers from /repo's working tree, running
scripts through them, running TLC, reporting."""
import json, os, re, subprocess, sys, time, shutil, hashlib, random
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
WORK = os.environ.get('VERIF_WORK', os.path.join(VERIF, '.work'))
BUILD = os.path.join(WORK, 'build')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
CORES = 8
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class ToolError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          universal_newlines=True, **kw)


# --------------------------------------------------------------------------
# building

ASAN = ['-fsanitize=address', '-fno-omit-frame-pointer']
BASE = ['-std=c++17', '-g', '-O1', '-w', '-D_GLIBCXX_ASSERTIONS',
        '-I' + os.path.join(HARNESS, 'shim'), '-I' + HARNESS, '-I' + REPO,
        '-I' + os.path.join(REPO, 'ron'), '-I/usr/include/botan-2']

DRIVERS = {
    # name: (driver sources, repo db sources, asan, libs)
    'd_rdt': (['d_rdt.cc'], [], True, ['-lbotan-2']),
    'd_text': (['d_text.cc'], [], True, ['-lbotan-2']),
    'd_ids': (['d_ids.cc'], ['db/key.cc'], True, ['-lbotan-2']),
    'd_store': (['d_store.cc'], ['db/key.cc', 'db/rocks_store.cc'], False,
                ['-lrocksdb', '-lbotan-2', '-lpthread']),
    'd_replica': (['d_replica.cc'],
                  ['db/key.cc', 'db/rocks_store.cc', 'db/replica.cc'], False,
                  ['-lrocksdb', '-lbotan-2', '-lpthread']),
    'd_cli': (['d_cli.cc', 'cli_main.cc'],
              ['db/key.cc', 'db/rocks_store.cc', 'db/replica.cc'], False,
              ['-lrocksdb', '-lbotan-2', '-lpthread']),
}


def ron_sources():
    d = os.path.join(REPO, 'ron')
    cm = open(os.path.join(REPO, 'CMakeLists.txt')).read()
    out = []
    for f in sorted(os.listdir(d)):
        if not f.endswith('.cc'):
            continue
        # a generated leftover that the project's own build does not compile
        if f == 'string-parser.cc' and 'string-parser.cc' not in cm:
            continue
        out.append(os.path.join(d, f))
    return out


def compile_one(job):
    src, obj, flags = job
    env = dict(os.environ)
    env.setdefault('CCACHE_DIR', os.path.join(WORK, 'ccache'))
    cc = ['g++']
    if shutil.which('ccache'):
        cc = ['ccache', 'g++']
    r = sh(cc + flags + ['-c', src, '-o', obj], env=env)
    return src, r.returncode, r.stdout


def build(name):
    srcs, dbsrcs, asan, libs = DRIVERS[name]
    out = os.path.join(BUILD, name)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    flags = BASE + (ASAN if asan else [])
    jobs = []
    for s in [os.path.join(HARNESS, x) for x in srcs] + \
             [os.path.join(REPO, x) for x in dbsrcs] + ron_sources():
        o = os.path.join(out, s.strip('/').replace('/', '_') + '.o')
        jobs.append((s, o, flags))
    with ThreadPoolExecutor(CORES) as ex:
        for src, rc, log in ex.map(compile_one, jobs):
            if rc:
                raise ToolError('cannot compile %s:\n%s' % (src, log[-3000:]))
    exe = os.path.join(out, name)
    r = sh(['g++'] + (ASAN if asan else []) + [j[1] for j in jobs] + ['-o', exe] + libs)
    if r.returncode:
        raise ToolError('cannot link %s:\n%s' % (name, r.stdout[-3000:]))
    return exe


# --------------------------------------------------------------------------
# running drivers

def run_driver(exe, script_lines, tag, stateful=False, timeout=600, jobs=CORES, env=None):
    """script_lines: list of command strings (no sequence numbers). Returns the
    list of answers. Stateful scripts are cut only at 'reset' lines."""
    d = os.path.join(WORK, 'run', tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    if stateful:
        groups, cur = [], []
        for k, l in enumerate(script_lines):
            if l.startswith('reset') and cur:
                groups.append(cur)
                cur = []
            cur.append((k, l))
        if cur:
            groups.append(cur)
    else:
        groups = [[(k, l)] for k, l in enumerate(script_lines)]
    n = max(1, min(jobs, len(groups)))
    parts = [[] for _ in range(n)]
    for g, grp in enumerate(groups):
        parts[g % n].extend(grp)
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=99:allocator_may_return_null=1'
    e.update(env or {})

    def one(k):
        wd = os.path.join(d, 'w%d' % k)
        os.makedirs(wd)
        sp, op = os.path.join(wd, 'script'), os.path.join(wd, 'out')
        with open(sp, 'w') as f:
            for s, l in parts[k]:
                f.write('%d %s\n' % (s, l))
        with open(os.path.join(wd, 'err'), 'w') as er:
            p = subprocess.run([exe, sp, op], stdout=er, stderr=er, cwd=wd, env=e,
                               timeout=timeout)
        if p.returncode:
            raise ToolError('driver %s exited with %d: %s' % (
                exe, p.returncode, open(os.path.join(wd, 'err')).read()[-2000:]))
        res = {}
        for l in open(op, errors='replace'):
            s, _, a = l.rstrip('\n').partition(' ')
            res[int(s)] = a
        return res
    ans = {}
    with ThreadPoolExecutor(n) as ex:
        for r in ex.map(one, range(n)):
            ans.update(r)
    if len(ans) != len(script_lines):
        raise ToolError('driver answered %d of %d lines' % (len(ans), len(script_lines)))
    shutil.rmtree(d, ignore_errors=True)
    return [ans[k] for k in range(len(script_lines))]


# --------------------------------------------------------------------------
# TLC

class TlcResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        self.generated = int(m[-1][0]) if m else 0
        self.distinct = int(m[-1][1]) if m else 0
        self.rejected = sorted({int(x) for x in re.findall(r'<<"REJECTED", (\d+)', out)})
        self.violated = re.findall(r'(?:Invariant|property|Action property) (\S+) is violated', out)
        self.ok = 'Model checking completed. No error has been found' in out or \
                  ('Finished in' in out and 'Error:' not in out and rc == 0)


def tlc(module, cfg=None, env=None, workers=CORES, timeout=800, extra=(), heap='6g', tag=None):
    tag = tag or module
    meta = os.path.join(WORK, 'tlc', tag + '-' + str(os.getpid()))
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-cp', JAR, 'tlc2.TLC',
           '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE',
           '-config', (cfg or module) + '.cfg'] + list(extra) + [module + '.tla']
    try:
        r = sh(cmd, cwd=SPEC, env=e, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC timed out on %s' % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return TlcResult(r.returncode, r.stdout)


def model_check(module, cfg=None, **kw):
    """Exhaustive check of the specification itself."""
    r = tlc(module, cfg, **kw)
    if not r.ok:
        raise ToolError('TLC rejects the specification %s/%s:\n%s' % (module, cfg, r.out[-4000:]))
    return r


def generate(module, cfg=None, **kw):
    """Runs a generator spec; collects the JSON values it prints as CASE lines."""
    r = tlc(module, cfg, **kw)
    if not r.ok:
        raise ToolError('TLC generator %s/%s failed:\n%s' % (module, cfg, r.out[-3000:]))
    cases = []
    # workers print in any order
    for m in sorted(re.findall(r'<<"CASE", "(.*)">>', r.out)):
        cases.append(json.loads(m.replace('\\"', '"').replace('\\\\', '\\')))
    return cases, r


CHUNK_BYTES = 40 << 20


def validate(module, events, cfg=None, tag=None, chunk=200000, **kw):
    """Validates stateless trace events; returns (indices rejected, states)."""
    bad, states, trans = [], 0, 0
    d = os.path.join(WORK, 'trace')
    os.makedirs(d, exist_ok=True)
    def judge(off, lines):
        nonlocal states, trans
        path = os.path.join(d, '%s-%d.ndjson' % (tag or module, os.getpid()))
        with open(path, 'w') as f:
            f.write(''.join(lines))
        env = dict(kw.get('env') or {}, TRACE=path)
        r = tlc(module, cfg, env=env, tag=tag, **{k: v for k, v in kw.items() if k != 'env'})
        if not r.ok:
            raise ToolError('TLC could not evaluate the trace with %s:\n%s' % (module, r.out[-4000:]))
        os.unlink(path)
        bad.extend(off + b - 1 for b in r.rejected)
        states += r.distinct
        trans += r.generated
    # TLC keeps the whole trace as values: not too much at once
    lines, off, size = [], 0, 0
    for ev in events:
        l = json.dumps(ev, separators=(',', ':')) + '\n'
        if lines and (len(lines) >= chunk or size + len(l) > CHUNK_BYTES):
            judge(off, lines)
            off, lines, size = off + len(lines), [], 0
        lines.append(l)
        size += len(l)
    if lines:
        judge(off, lines)
    return bad, states, trans
