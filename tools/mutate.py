#!/usr/bin/env python3
"""Mutation run: small edits of the library, each judged by the drivers responsible for the file.

  mutate.py WORKERS COUNT SEED OUT [FILE-REGEX]

Works on clones below /tmp/mw; never touches /repo. Survivors are listed in OUT for triage.
"""
import concurrent.futures as cf, glob, json, os, queue, random, re, shutil, subprocess, sys
VERIF = '/verif'
sys.path.insert(0, VERIF + '/harness')
from checks import DRIVERS

MAP = [  # first match wins
    (r'numbers/(GFNumber|GaloisField|PrimeFactory)|adaption_native/EEA|FactorizationFactory', ['gf', 'num']),
    (r'numbers/', ['num', 'gf']),
    (r'core/(Monomial|MonomialPool|MonomialOrdering|CompareResult)|GCD_Monomial', ['mono', 'monopool', 'mpoly']),
    (r'core/(Term|MultivariatePolynomial)|TermAdditionManager', ['mpoly', 'cmp', 'div', 'subst', 'mono']),
    (r'core/MultivariateHorner', ['subst']),
    (r'core/UnivariatePolynomial', ['upoly', 'div', 'ugcd', 'cmp', 'resultant']),
    (r'polynomialfunctions/(Division|Quotient|Remainder|Content|PrimitivePart)', ['div', 'ugcd']),
    (r'polynomialfunctions/(GCD|SquareFree|Factorization|PrimitiveEuclid)', ['ugcd']),
    (r'polynomialfunctions/(Resultant)', ['resultant']),
    (r'polynomialfunctions/(Root|Sturm|SignVar)', ['roots']),
    (r'polynomialfunctions/(Substitution|Evaluation|Derivative|Power)', ['subst', 'mpoly']),
    (r'polynomialfunctions/(SPoly)', ['groebner', 'div']),
    (r'polynomialfunctions/', ['upoly', 'mpoly', 'subst', 'div', 'constraint', 'ugcd', 'roots', 'cmp']),
    (r'core/Variable(s|Pool)?\.', ['sorts', 'mono']),
    (r'core/Variable.*Info', ['constraint', 'mpoly', 'subst']),
    (r'core/(Relation|Sign|DiophantineEquation|SimpleConstraint)', ['constraint', 'roots', 'cmp']),
    (r'interval/(Contract|IntervalEval|evaluate)', ['ival_eval']),
    (r'interval/(set_theory|sampling)', ['ival_sets', 'ival_arith']),
    (r'interval/', ['ival_arith', 'ival_sets', 'ival_eval']),
    (r'groebner/', ['groebner']),
    (r'formula/Constraint', ['constraint']),
    (r'formula/bitvector', ['bvvalue', 'bvterm']),
    (r'formula/(Sort|uninterpreted)', ['sorts']),
    (r'util/(Bitset|BitVector|Heap|CompactTree|carlTree|IDPool|IDGenerator|Cache)', ['util']),
    (r'util/(pointerOperations)', ['cmp', 'mono']),
    (r'util/Covering|carl-covering', ['covering']),
    (r'carl-settings|carl-statistics', ['settings']),
]
SKIP = re.compile(r'ran/|/vs/|converter|/z3|cln|mpfr|parser/|config\.h|CompileInfo|float/|float_t|Formula|benchmarks|symmetry|helpers/|model/|io/|logging|debug|Hensel|EZGCD|stringparser|CheckpointVerifier|Condition|VariableComparison|VariableAssignment|BuchbergerStats|typetraits|interval/rounding')


def files():
    out = []
    for f in glob.glob('/repo/src/carl/**/*', recursive=True) + glob.glob('/repo/src/carl-*/**/*', recursive=True):
        if not re.search(r'\.(h|tpp|cpp)$', f) or SKIP.search(f):
            continue
        for rx, d in MAP:
            if re.search(rx, f):
                out.append((os.path.relpath(f, '/repo'), d))
                break
    return out


OPS = [
    (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' < ', ' > '),
    (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' + '), (r' / ', ' * '), (r'\+= ', '-= '), (r'-= ', '+= '),
    (r'\+\+', '--'), (r'(?<![\w.])0(?![\w.])', '1'), (r'(?<![\w.<])1(?![\w.])', '2'), (r'(?<![\w.<])1(?![\w.])', '0'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
    (r'\bif \((.*)\) ?\{$', r'if (!(\1)) {'), (r'\bif \((.*)\) ?\{$', r'if (true) {'), (r'\bif \((.*)\) ?\{$', r'if (false) {'),
    (r'\bif \((.*)\) (return|continue|break)', r'if (false) \2'),
    (r'\bmin\(', 'max('), (r'\bmax\(', 'min('), (r'\.front\(\)', '.back()'), (r'\.back\(\)', '.front()'), (r'lower\(', 'upper('), (r'upper\(', 'lower('),
    (r'BoundType::STRICT', 'BoundType::WEAK'), (r'BoundType::WEAK', 'BoundType::STRICT'), (r'Relation::LESS', 'Relation::LEQ'), (r'Relation::GEQ', 'Relation::GREATER'), (r'Relation::EQ', 'Relation::NEQ'),
    (r'!(\w)', r'\1'), (r'\bfirst\b', 'second'), (r'\blhs\b', 'rhs'), (r'\brhs\b', 'lhs'), (r'%', '/'), (r' & ', ' | '), (r' \| ', ' & '), (r'<<', '>>'), (r'isZero\(', 'isOne('),
    (r'^(\s*)([\w.\->\[\]\(\)]+ ?(=|\+=|-=|\*=|/=|\|=|&=) ?[^=].*;)$', r'\1;'), (r'^(\s*)([\w.\->]+\(.*\);)$', r'\1;'), (r'\bbreak;', ';'), (r'\bcontinue;', ';'),
]


def sites(path):
    out = []
    block = False
    for i, l in enumerate(open('/repo/' + path, errors='replace').read().split('\n')):
        s = l.strip()
        if s.startswith('/*'):
            block = True
        if block:
            if '*/' in s:
                block = False
            continue
        if not s or s.startswith(('//', '*', '#', 'template', 'using', 'typedef', 'namespace', 'friend', 'class', 'struct')) or re.search(r'CARL_LOG|LOG\w*\(|assert|static_assert|LOGMSG|throw|std::cerr|std::cout|operator<<|os <<|out <<|stream', s):
            continue
        code = l.split('//')[0].rstrip()
        for a, b in OPS:
            for m in re.finditer(a, code):
                n = code[:m.start()] + m.expand(b) + code[m.end():]
                if n != code:
                    out.append((i, l, n))
    return out


def run(w, mut):
    path, i, old, new, drivers = mut
    root = '/tmp/mw/%d' % w
    f = os.path.join(root, path)
    orig = open('/repo/' + path, errors='replace').read()
    lines = orig.split('\n')
    assert lines[i] == old
    lines[i] = new
    open(f, 'w').write('\n'.join(lines))
    res = dict(file=path, line=i + 1, old=old.strip(), new=new.strip(), drivers=drivers)
    try:
        base = ['g++', '-std=c++17', '-w', '-pthread', '-O1', '-g0', '-ftemplate-depth=2000', '-I' + VERIF + '/harness/common', '-I' + VERIF + '/harness/ref', '-fsanitize=address,undefined,float-cast-overflow',
                '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_SANITIZE_VECTOR', '-isystem', root + '/src', '-isystem', '/usr/include/eigen3']
        extra = []
        if path.endswith('.cpp'):
            r = subprocess.run(base + ['-c', f, '-o', root + '/m.o'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=600)
            if r.returncode:
                res['r'] = 'invalid'
                return res
            extra = [root + '/m.o']
        compiled = 0
        for d in drivers:
            r = subprocess.run(base + [os.path.join(VERIF, 'harness/drivers', s) for s in DRIVERS[d]['sources']] + extra + [VERIF + '/build/asan/libcarl.a', '-lgmpxx', '-lgmp', '-lboost_program_options', '-lboost_filesystem', '-lboost_system', '-pthread', '-o', root + '/drv'],
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=900)
            if r.returncode:
                continue
            compiled += 1
            for k in range(0, 4):
                out = root + '/out'
                if os.path.exists(out):
                    os.unlink(out)
                env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1', LC_ALL='C.UTF-8')
                try:
                    r = subprocess.run([root + '/drv', '--seed', '1', '--tier', 'quick', '--cpu', '20', '--shard', str(k), '--shards', '4', '--out', out], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=900, env=env, cwd=root)
                except subprocess.TimeoutExpired:
                    res['r'] = 'killed'
                    res['by'] = d + ':timeout'
                    return res
                keys = []
                if os.path.exists(out):
                    for l in open(out, errors='replace'):
                        try:
                            o = json.loads(l)
                        except ValueError:
                            continue
                        if o['t'] == 'fail' and not o['key'].startswith('cmp.up-cross') and o['key'] != 'mono.order.lex:multiplicative-lex':
                            keys.append(o['key'])
                if r.returncode or keys:
                    res['r'] = 'killed'
                    res['by'] = d + ':' + (keys[0] if keys else 'rc%d %s' % (r.returncode, (re.findall(rb'(ERROR: .{0,60}|runtime error.{0,60}|Assertion.{0,60})', r.stderr) or [b''])[0].decode(errors='replace')))
                    return res
        res['r'] = 'survived' if compiled == len(drivers) else 'invalid' if compiled == 0 else 'survived-partly'
        return res
    except Exception as e:
        res['r'] = 'error'
        res['e'] = str(e)[:200]
        return res
    finally:
        open(f, 'w').write(orig)


def main():
    workers, count, seed, out = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    rx = re.compile(sys.argv[5] if len(sys.argv) > 5 else '.')
    rng = random.Random(seed)
    muts = []
    for f, d in files():
        if rx.search(f):
            muts += [(f, i, a, b, d) for i, a, b in sites(f)]
    rng.shuffle(muts)
    print(len(muts), 'sites')
    # at most one mutation per line
    seen, sel = set(), []
    for m in muts:
        if (m[0], m[1]) in seen:
            continue
        seen.add((m[0], m[1]))
        sel.append(m)
    sel = sel[:count]
    os.makedirs('/tmp/mw', exist_ok=True)
    q = queue.Queue()
    for w in range(workers):
        root = '/tmp/mw/%d' % w
        if not os.path.exists(root):
            os.makedirs(root)
            shutil.copytree('/repo/src', root + '/src')
        q.put(w)

    def job(m):
        w = q.get()
        try:
            r = run(w, m)
        finally:
            q.put(w)
        with open(out, 'a') as o:
            o.write(json.dumps(r) + '\n')
        return r['r']
    with cf.ThreadPoolExecutor(workers) as ex:
        res = list(ex.map(job, sel))
    print({k: res.count(k) for k in set(res)})


main()
