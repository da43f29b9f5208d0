#!/usr/bin/env python3
"""Build and run the monitors of one property against /repo's working tree.

  run_check.py <property>        run the check (VERIF_SEED, VERIF_TIER from the environment)
  run_check.py --setup           compile everything once (fills the compile cache)
  run_check.py --replay FILE     run the single case recorded in a replay file
  run_check.py --build DRIVER    build one driver, print its path
"""
import concurrent.futures as cf
import fnmatch, glob, json, os, re, shutil, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
HARN = os.path.join(VERIF, 'harness')
sys.path.insert(0, HARN)
from checks import CHECKS, DRIVERS  # noqa: E402

JOBS = os.cpu_count() or 4
COMMON = ['-std=c++17', '-w', '-pthread', '-O1', '-g1', '-fno-omit-frame-pointer', '-ftemplate-depth=2000',
          '-I' + os.path.join(HARN, 'common'), '-I' + os.path.join(HARN, 'ref')]
FLAVORS = {
    'asan': ['-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_SANITIZE_VECTOR'],
    'tsan': ['-fsanitize=thread', '-DTHREAD_SAFE'],
    'cocoa': ['-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_SANITIZE_VECTOR',
              '-DUSE_COCOA', '-I' + os.path.join(HARN, 'cocoa')],
}
LINK = {
    'asan': ['-fsanitize=address,undefined'],
    'tsan': ['-fsanitize=thread'],
    'cocoa': ['-fsanitize=address,undefined'],
}
LIBS = ['-lgmpxx', '-lgmp', '-lboost_program_options', '-lboost_filesystem', '-lboost_system', '-pthread']
NEEDS_COCOA = {'carl/util/CheckpointVerifier.cpp', 'carl-io/OPBImporter.cpp', 'carl-io/carl-io.cpp', 'carl-model/carl-model.cpp',
               'carl-extpolys/carl-extpolys.cpp', 'carl-model/uninterpreted/UFModel.cpp'}
ENV = dict(os.environ, CCACHE_DIR=os.path.join(BUILD, 'ccache'), CCACHE_NOHASHDIR='1', CCACHE_MAXSIZE='6G', LC_ALL='C.UTF-8')
CXX = (['ccache'] if shutil.which('ccache') else []) + ['g++']


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


def configure():
    """carl's build generates git-ignored config headers next to the sources; create them if they are missing."""
    need = [f[:-3] for f in glob.glob(REPO + '/src/**/config.h.in', recursive=True)]
    if all(os.path.exists(f) for f in need):
        return
    r = sh(['cmake', '-S', REPO, '-B', os.path.join(BUILD, 'cmake'), '-G', 'Ninja', '-Wno-dev', '-DCMAKE_CXX_COMPILER=/usr/bin/g++',
            '-DCMAKE_BUILD_TYPE=DEBUG', '-DCMAKE_CXX_FLAGS=-w', '-DCMAKE_CXX_FLAGS_DEBUG=', '-DCMAKE_POLICY_VERSION_MINIMUM=3.5',
            '-DUSE_COCOA:BOOL=OFF', '-DUSE_BLISS:BOOL=ON', '-DEXPORT_TO_CMAKE:BOOL=OFF',
            '-DCMAKE_PROJECT_carl_INCLUDE=/opt/vp/carl-offline.cmake'])
    if r.returncode != 0:
        raise BuildError('configuration failed\n' + r.stdout[-3000:])


def lib_sources(flavor):
    out = []
    for f in sorted(glob.glob(REPO + '/src/carl/**/*.cpp', recursive=True) + glob.glob(REPO + '/src/carl-*/**/*.cpp', recursive=True)):
        rel = os.path.relpath(f, REPO + '/src')
        if rel == 'carl/util/CompileInfo.cpp' or '/z3/' in rel or 'adaption_cln' in rel or 'GinacConverter' in rel or 'Z3Converter' in rel:
            continue
        if flavor != 'cocoa' and rel in NEEDS_COCOA:
            continue
        out.append(f)
    return out


def compile_one(flavor, src, obj, extra=()):
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    cmd = CXX + COMMON + FLAVORS[flavor] + list(extra) + ['-isystem', REPO + '/src', '-isystem', '/usr/include/eigen3', '-c', src, '-o', obj]
    r = sh(cmd)
    if r.returncode != 0:
        raise BuildError('compiling %s failed\n%s' % (src, '\n'.join(l for l in r.stdout.splitlines() if 'error' in l)[:3000] or r.stdout[-3000:]))
    return obj


def build(drivers):
    """drivers: list of driver names. Returns {driver: executable}."""
    os.makedirs(BUILD, exist_ok=True)
    configure()
    flavors = sorted({DRIVERS[d]['flavor'] for d in drivers})
    jobs, libobjs, drvobjs = [], {f: [] for f in flavors}, {d: [] for d in drivers}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for d in drivers:
            dd = DRIVERS[d]
            for s in dd['sources']:
                obj = os.path.join(BUILD, dd['flavor'], 'drv', d + '--' + os.path.basename(s) + '.o')
                drvobjs[d].append(obj)
                jobs.append(ex.submit(compile_one, dd['flavor'], os.path.join(HARN, 'drivers', s), obj, dd.get('flags', [])))
        for f in flavors:
            for s in lib_sources(f):
                obj = os.path.join(BUILD, f, 'lib', os.path.relpath(s, REPO + '/src').replace('/', '__') + '.o')
                libobjs[f].append(obj)
                jobs.append(ex.submit(compile_one, f, s, obj))
            if f == 'cocoa':
                for s in sorted(glob.glob(HARN + '/cocoa/*.cpp')):
                    obj = os.path.join(BUILD, f, 'lib', 'shim__' + os.path.basename(s) + '.o')
                    libobjs[f].append(obj)
                    jobs.append(ex.submit(compile_one, f, s, obj))
        errs = []
        for j in jobs:
            try:
                j.result()
            except BuildError as e:
                errs.append(str(e))
        if errs:
            raise BuildError('\n'.join(errs))
    exes = {}

    def link(d):
        dd = DRIVERS[d]
        exe = os.path.join(BUILD, dd['flavor'], 'bin', d)
        os.makedirs(os.path.dirname(exe), exist_ok=True)
        r = sh(['g++', '-o', exe] + LINK[dd['flavor']] + drvobjs[d] + [os.path.join(BUILD, dd['flavor'], 'libcarl.a')] + dd.get('libs', []) + LIBS)
        if r.returncode != 0:
            raise BuildError('linking %s failed\n%s' % (d, r.stdout[-3000:]))
        return d, exe
    for f in flavors:
        a = os.path.join(BUILD, f, 'libcarl.a')
        if os.path.exists(a):
            os.unlink(a)
        r = sh(['ar', 'rcs', a] + libobjs[f])
        if r.returncode != 0:
            raise BuildError(r.stdout)
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for d, exe in ex.map(link, drivers):
            exes[d] = exe
    return exes


def san_env(extra=None):
    e = dict(ENV)
    e['ASAN_OPTIONS'] = 'abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=0'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1'
    e['TSAN_OPTIONS'] = 'halt_on_error=0:exitcode=66:report_signal_unsafe=0:history_size=4'
    for k, v in (extra or {}).items():
        e[k] = e.get(k, '') + ':' + v
    return e


def signature(err):
    """Classify a crash from the sanitizer / assertion output: (kind, where)."""
    frames = re.findall(r'#\d+ (?:0x[0-9a-f]+ in )?(.+?) (?:/repo|' + re.escape(REPO) + r')/src/([^\s:]+)', err)
    where = frames[0][1] if frames else '?'
    m = re.search(r"([\w./-]+):(\d+): (.*?): Assertion [`'](.*?)' failed", err, re.S)
    if m:
        return 'assert', os.path.basename(m.group(1)) + ':' + re.sub(r'\s+', ' ', m.group(4))[:80]
    m = re.search(r'ERROR: AddressSanitizer: (\S+)', err)
    if m:
        return 'asan-' + m.group(1), where
    m = re.search(r'ERROR: ThreadSanitizer: (\S+)', err)
    if m:
        return 'tsan-' + m.group(1), where
    m = re.search(r'ERROR: LeakSanitizer', err)
    if m:
        return 'leak', where
    m = re.search(r'([\w./-]+):(\d+):\d+: runtime error: (.*)', err)
    if m:
        return 'ubsan', os.path.basename(m.group(1)) + ':' + re.sub(r'0x[0-9a-f]+|-?\d+', 'N', m.group(3))[:70]
    m = re.search(r'WARNING: ThreadSanitizer: ([\w -]+)', err)
    if m:
        return 'tsan-' + m.group(1).strip().replace(' ', '-'), where
    m = re.search(r"terminate called after throwing an instance of '(.*?)'", err)
    if m:
        return 'terminate', m.group(1)
    return 'crash', where


class Shard:
    def __init__(self, drv, exe, shard, shards, seed, tier, rundir, args=()):
        self.args = list(args)
        self.drv, self.exe, self.shard, self.shards, self.seed, self.tier = drv, exe, shard, shards, seed, tier
        self.out = os.path.join(rundir, '%s.%d.jsonl' % (drv, shard))
        self.prog = os.path.join(rundir, '%s.%d.prog' % (drv, shard))
        self.viol, self.inconclusive = [], []
        self.restarts = self.hangs = 0
        self.stderr_tail = ''

    def base(self):
        return [self.exe, '--seed', str(self.seed), '--tier', self.tier, '--cpu', str(DRIVERS[self.drv].get('cpu', 20))] + self.args

    def progress(self):
        try:
            b = open(self.prog, 'rb').read()
            head = b[:256].split(b'\0')[0].decode(errors='replace').rsplit(' ', 1)
            note = b[256:].split(b'\0')[0].decode(errors='replace')
            return head[0], int(head[1]), note
        except Exception:
            return None, None, ''

    def run(self, deadline):
        args, env = [], san_env(DRIVERS[self.drv].get('env'))
        while True:
            open(self.prog, 'wb').close()
            left = deadline - time.time()
            if left <= 5:
                self.inconclusive.append('%s shard %d: out of time' % (self.drv, self.shard))
                return self
            errf = self.out + '.err'
            with open(errf, 'wb') as ef:
                try:
                    rc = subprocess.run(self.base() + ['--shard', str(self.shard), '--shards', str(self.shards), '--out', self.out, '--prog', self.prog] + args,
                                        env=env, stdout=subprocess.DEVNULL, stderr=ef, timeout=left, cwd=os.path.dirname(self.out)).returncode
                except subprocess.TimeoutExpired:
                    self.inconclusive.append('%s shard %d: wall-clock watchdog in %s' % (self.drv, self.shard, self.progress()[:2]))
                    return self
            err = open(errf, 'rb').read().decode(errors='replace')
            if 'WARNING: ThreadSanitizer' in err:
                seen = {}
                for blk in err.split('==================')[0:]:
                    if 'WARNING: ThreadSanitizer' in blk:
                        k, w = signature(blk)
                        seen.setdefault((k, w), blk)
                for (k, w), blk in seen.items():
                    self.viol.append(dict(mem=True, key='%s:%s:%s' % (self.drv, k, w), group='', case=-1, detail=blk[:3000]))
            if rc == 0 or (rc == 66 and 'ERROR: ThreadSanitizer' not in err):
                if rc == 66 and 'WARNING: ThreadSanitizer' not in err:
                    self.inconclusive.append('%s shard %d: exit 66' % (self.drv, self.shard))
                return self
            g, c, note = self.progress()
            if g is None or c is None:
                if 'LeakSanitizer' in err or g == 'done':
                    k, w = signature(err)
                    self.viol.append(dict(mem=True, key='%s:%s:%s' % (self.drv, k, w), group='', case=-1, detail=err[:3500]))
                else:
                    self.inconclusive.append('%s shard %d: exit %d before any case\n%s' % (self.drv, self.shard, rc, err[-500:]))
                return self
            if rc == 77:
                self.hangs += 1
                r2 = None
                try:
                    r2 = subprocess.run(self.base() + ['--cpu', str(2 * DRIVERS[self.drv].get('cpu', 20)), '--group', g, '--case', str(c), '--out', self.out + '.re', '--prog', self.prog],
                                        env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=max(10, deadline - time.time())).returncode
                except subprocess.TimeoutExpired:
                    pass
                if r2 == 77:
                    self.viol.append(dict(mem=True, key='%s:hang' % g, group=g, case=c, detail='no result within the CPU budget, twice; doing: ' + note))
                else:
                    self.inconclusive.append('%s: case %s/%d slow once' % (self.drv, g, c))
                if self.hangs >= 2:
                    return self
            else:
                k, w = signature(err)
                i = err.find('ERROR: AddressSanitizer')
                self.viol.append(dict(mem=True, key='%s:%s:%s' % (g, k, w), group=g, case=c, detail='doing: %s\n%s' % (note, err[max(0, i):][:2500])))
                self.restarts += 1
                if self.restarts >= 8:
                    return self
            args = ['--start-group', g, '--start-case', str(c + 1)]


def known_findings(prop):
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    if len(sys.argv) < 2:
        sys.exit(2)
    if sys.argv[1] == '--setup':
        try:
            build(sorted({d for c in CHECKS.values() for d in c['drivers']}))
        except BuildError as e:
            print(e)
            sys.exit(2)
        return
    if sys.argv[1] == '--build':
        try:
            for d, e in build(sys.argv[2:]).items():
                print(e)
        except BuildError as e:
            print(e)
            sys.exit(2)
        return
    if sys.argv[1] == '--replay':
        r = json.load(open(sys.argv[2]))
        exe = build([r['driver']])[r['driver']]
        sys.exit(subprocess.run([exe, '--seed', str(r['seed'] + CHECKS[r['property']].get('seed_offset', 0)), '--tier', r['tier'], '--group', r['group'], '--case', str(r['case'])]
                                + CHECKS[r['property']].get('args', []),
                                env=san_env(DRIVERS[r['driver']].get('env'))).returncode)
    prop = sys.argv[1]
    chk = CHECKS[prop]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    t0 = time.time()
    limit = 820 if tier == 'quick' else 11000
    try:
        exes = build(chk['drivers'])
    except BuildError as e:
        print(e)
        print('ERROR: could not build the monitors of %s' % prop)
        sys.exit(2)
    tb = time.time() - t0
    rundir = os.path.join(BUILD, 'run', prop)
    shutil.rmtree(rundir, ignore_errors=True)
    os.makedirs(rundir)
    shards = []
    for d in chk['drivers']:
        n = DRIVERS[d].get('shards', JOBS)
        shards += [Shard(d, exes[d], i, n, seed + chk.get('seed_offset', 0), tier, rundir, chk.get('args', [])) for i in range(n)]
    deadline = t0 + limit
    with cf.ThreadPoolExecutor(max(1, JOBS // chk.get('weight', 1))) as ex:
        list(ex.map(lambda s: s.run(deadline), shards))

    evals = cases = nontriv = 0
    ops, samples, viol, hashes, inconc = {}, {}, [], set(), []
    for s in shards:
        inconc += s.inconclusive
        for v in s.viol:
            if chk.get('memory') and not v.pop('mem', False):
                continue
            v.pop('mem', None)
            viol.append(dict(v, driver=s.drv))
        if os.path.exists(s.out):
            for line in open(s.out, errors='replace'):
                try:
                    o = json.loads(line)
                except ValueError:
                    continue
                if o['t'] == 'fail':
                    if chk.get('memory') and not re.search(r'^life\.|:(leak|held:\w+)$', o['key']):
                        continue
                    viol.append(dict(key=o['key'], group=o['group'], case=o['case'], detail=o['detail'], driver=s.drv))
                elif o['t'] == 'end':
                    evals += o['evals']
                    cases += o['cases']
                    nontriv += o['nontrivial']
                    for k, v in o['ops'].items():
                        ops[k] = ops.get(k, 0) + v
                    for k, v in o['samples'].items():
                        if len(samples.setdefault(k, [])) < 2:
                            samples[k] += v[:2 - len(samples[k])]
        if os.path.exists(s.out + '.h'):
            b = open(s.out + '.h', 'rb').read()
            hashes.update(struct.unpack('<%dQ' % (len(b) // 8), b[:len(b) // 8 * 8]))
    if chk.get('memory'):  # the verdicts of the memory monitors, not those of the value oracles
        evals = cases + ops.get('memory.leak-decisions', 0) + ops.get('memory.pool-decisions', 0)
    known = known_findings(prop)
    unlisted, listed = {}, {}
    for v in viol:
        k = next((kk for kk, _ in known if fnmatch.fnmatchcase(v['key'].replace(' ', '_'), kk)), None)
        (listed if k else unlisted).setdefault(k or v['key'], []).append(v)
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=evals, distinct_nontrivial=len(hashes), rule=chk['rule'],
                            samples=[{'group': k, 'case': x} for k, v in sorted(samples.items()) for x in v][:40],
                            cases=cases, nontrivial_cases=nontriv, operations=dict(sorted(ops.items())),
                            processes=len(shards), process_restarts=sum(s.restarts for s in shards),
                            inconclusive=inconc, known_findings_observed=sorted(listed)),
              assumptions=chk.get('assumptions', []), wall_s=round(time.time() - t0, 2), build_s=round(tb, 2), violations=len(unlisted))
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    for kk, what in known:
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    for i, (k, vs) in enumerate(sorted(unlisted.items())):
        if i >= 12:
            print('... %d more' % (len(unlisted) - i))
            break
        rp = os.path.join(VERIF, 'evidence', 'replay', '%s-%d.json' % (prop, i))
        json.dump(dict(property=prop, seed=seed, tier=tier, **vs[0]), open(rp, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        print('  %s (%d seen): %s' % (k, len(vs), vs[0]['detail'][:600].replace('\n', ' | ')))
    print('%s: %d cases, %d oracle decisions, %d distinct non-trivial, %d violation keys, build %.0fs, total %.0fs'
          % (prop, cases, evals, len(hashes), len(unlisted), tb, time.time() - t0))
    if unlisted:
        sys.exit(1)
    if inconc:
        print('INCONCLUSIVE: ' + '; '.join(inconc)[:2000])
        if any('slow once' not in x for x in inconc):
            sys.exit(2)
    if evals == 0 or not hashes:
        print('ERROR: nothing observed')
        sys.exit(2)
    for o in chk.get('must_observe', []):
        if ops.get(o, 0) == 0:
            print('ERROR: operation %s never observed' % o)
            sys.exit(2)


main()
