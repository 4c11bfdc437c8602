#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N] [--replay FILE]

Builds the property's harness from /repo's working tree, searches generated inputs for a
violation and writes evidence/<property>.json. Exit 0: none found. Exit 1 with a line
VIOLATION property=<id> replay=<path>: found and confirmed. Exit 2: error of the check."""
import argparse, concurrent.futures, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('PBT_REPO', '/repo')  # the override is for experiments only
BUILD = os.environ.get('PBT_BUILD', os.path.join(VERIF, 'build'))
EVIDENCE = os.environ.get('PBT_EVIDENCE', os.path.join(VERIF, 'evidence'))
REPLAYS = os.path.join(BUILD, 'replays')
JOBS = int(os.environ.get('PBT_JOBS', '8'))

SAN = ['-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer',
       '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_SANITIZE_VECTOR', '-ftrivial-auto-var-init=pattern']
SAN_ENV = {'ASAN_OPTIONS': 'detect_leaks=0:hard_rss_limit_mb=2500:detect_stack_use_after_return=1:detect_invalid_pointer_pairs=0',
           'UBSAN_OPTIONS': 'print_stacktrace=0',
           'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66'}


def cxx():
    for c in ('g++-14', 'g++'):
        if shutil.which(c):
            return c
    sys.exit('no compiler')


ESCAPES = re.compile(r'\\(.)', re.S)
ESCAPED = {'n': '\n', 't': '\t', 'r': '\r', 'v': '\v', 'f': '\f', '0': '\0', 'a': '\a', 'b': '\b'}


def hints(path):
    """Integer, character and string literals of the sources under test: a fuzzing dictionary."""
    ints, strs = set(), set()
    src = os.path.join(REPO, 'sources')
    for f in sorted(os.listdir(src)):
        if not f.endswith(('.hpp', '.h', '.cpp', '.ipp', '.inl')):
            continue
        s = open(os.path.join(src, f), errors='replace').read()
        s = re.sub(r'//[^\n]*', '', re.sub(r'/\*.*?\*/', '', s, flags=re.S))
        for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', s):
            if 0 < len(m.group(1)) <= 12 and not m.group(1).startswith('Error') and not m.group(1).endswith('.hpp'):
                strs.add(ESCAPES.sub(lambda e: ESCAPED.get(e.group(1), e.group(1)), m.group(1)))
        s = re.sub(r'"(?:[^"\\\n]|\\.)*"', '""', s)
        for m in re.finditer(r"(?<![0-9a-fA-F])'((?:[^'\\\n]|\\.))'", s):
            strs.add(ESCAPES.sub(lambda e: ESCAPED.get(e.group(1), e.group(1)), m.group(1)))
        for m in re.finditer(r"(?<![\w.])(0[xX][0-9a-fA-F']+|0[bB][01']+|\d[\d']*)(?:[uUlLzZ]*)(?![\w.])", s):
            try:
                v = int(m.group(1).replace("'", ''), 0) if not re.fullmatch(r"0[0-7']+", m.group(1)) else int(m.group(1).replace("'", ''), 8)
            except ValueError:
                continue
            if 2 <= v < 2 ** 62:
                ints.add(v)
        # products, shifts and powers written out as expressions, and integers written as floating-point numbers
        for m in re.finditer(r"(?<![\w.])(\d[\d']*)[uUlL]*\s*(<<|\*|\+|-)\s*(\d[\d']*)[uUlL]*(?![\w.])", s):
            a, b = (int(x.replace("'", '')) for x in (m.group(1), m.group(3)))
            v = a << b if m.group(2) == '<<' and b < 62 else a * b if m.group(2) == '*' else a + b if m.group(2) == '+' else a - b
            if 2 <= v < 2 ** 62:
                ints.add(v)
        for m in re.finditer(r"(?<![\w.])(\d+(?:\.\d*)?(?:[eE]\+?\d{1,2})?)[fFlL]?(?![\w.])", s):
            v = float(m.group(1))
            if v == int(v) and 2 <= v < 2 ** 62:
                ints.add(int(v))
    with open(path, 'w') as o:
        for v in sorted(ints):
            o.write('i %d\n' % v)
        for v in sorted(strs):
            o.write('s %s\n' % v.encode().hex())
    return len(ints) + len(strs)


# Other builds of a harness, for the property that results do not depend on the build.
VARIANTS = {'clang': ['clang++', '-std=c++20', '-Wno-everything', '-Wno-c++11-narrowing', '-O2', '-ftrivial-auto-var-init=pattern'],
            'g++-O0': ['g++', '-std=c++20', '-w', '-O0', '-funsigned-char', '-ftrivial-auto-var-init=pattern'],
            'g++-O3': ['g++', '-std=c++23', '-w', '-O3', '-DNDEBUG', '-fno-strict-aliasing']}


def compile_one(args):
    cmd, log, parts, pool = args
    if parts == 1:
        r = subprocess.run(cmd, stdout=open(log, 'w'), stderr=subprocess.STDOUT)
        return r.returncode, log
    i, out = cmd.index('-o'), cmd[cmd.index('-o') + 1]  # a large harness: several objects of the same source, each with its part of it

    def part(k):
        c = cmd[:i - 1] + ['-DPBT_PART=%d' % k, '-c', cmd[i - 1], '-o', '%s.%d.o' % (out, k)]
        return subprocess.run(c, stdout=open('%s.%d' % (log, k), 'w'), stderr=subprocess.STDOUT).returncode
    rcs = list(pool.map(part, range(parts)))
    bad = [k for k in range(parts) if rcs[k] != 0]
    if bad:
        return rcs[bad[0]], '%s.%d' % (log, bad[0])
    r = subprocess.run(cmd[:i - 1] + ['%s.%d.o' % (out, k) for k in range(parts)] + cmd[i:], stdout=open(log, 'w'), stderr=subprocess.STDOUT)
    return r.returncode, log


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.src = os.path.join(VERIF, 'props', pid + '.cpp')
        if not os.path.exists(self.src):
            sys.exit('no harness for ' + pid)
        text = open(self.src).read()
        self.opts = {m.group(1): m.group(2).strip() for m in re.finditer(r'^// @(\w+):(.*)$', text, re.M)}
        self.dir = os.path.join(BUILD, pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        os.makedirs(REPLAYS, exist_ok=True)
        os.makedirs(EVIDENCE, exist_ok=True)
        self.ev = os.path.join(EVIDENCE, pid + '.json')
        if os.path.exists(self.ev):
            os.remove(self.ev)
        self.nhints = hints(os.path.join(self.dir, 'hints'))
        self.inc = ['-I' + os.path.join(REPO, 'sources'), '-I' + os.path.join(VERIF, 'engine')]
        self.stats, self.notes = [], []
        self.variants = self.opts.get('variants', '').split()
        self.t0 = time.time()
        os.environ['PBT_CXX'] = cxx()  # for the property whose cases are programs to build
        os.environ['PBT_SOURCES'] = os.path.join(REPO, 'sources')

    def compile_cmd(self, build):
        out = os.path.join(self.dir, build)
        base = ['-std=c++20', '-w'] + self.inc
        extra = self.opts.get('flags', '').split()
        if build in VARIANTS:
            v = VARIANTS[build]
            cmd = [cxx() if v[0] == 'g++' else v[0]] + v[1:] + self.inc + extra
        elif build == 'plain':
            cmd = [cxx()] + base + ['-O2', '-ftrivial-auto-var-init=zero'] + extra
        elif build == 'san':
            cmd = [cxx()] + base + SAN + extra
        elif build == 'tsan':
            cmd = [cxx()] + base + ['-O1', '-g', '-fsanitize=thread', '-DPBT_TSAN'] + extra
        elif build == 'fuzz':
            cmd = ['clang++'] + base + ['-Wno-everything', '-Wno-c++11-narrowing', '-O1', '-g', '-DPBT_LIBFUZZER',
                                        '-fsanitize=fuzzer,address,undefined', '-fno-sanitize-recover=undefined'] + extra
        return cmd + [self.src, '-o', out] + (['-pthread'] if build == 'tsan' or 'threads' in self.opts else [])

    def start_compile(self, builds):
        self.pool = concurrent.futures.ThreadPoolExecutor(6)
        parts, workers = int(self.opts.get('parts', '1')), concurrent.futures.ThreadPoolExecutor(JOBS)
        self.fut = {b: self.pool.submit(compile_one, (self.compile_cmd(b), os.path.join(self.dir, b + '.log'), parts, workers)) for b in builds + self.variants}

    def built_variants(self):
        """A build that another compiler or standard refuses is left out: that it compiles is not claimed."""
        paths = []
        for b in self.variants:
            if self.fut[b].result()[0] == 0:
                paths.append(os.path.join(self.dir, b))
            else:
                self.notes.append('build %s failed and was left out' % b)
        os.environ['PBT_VARIANTS'] = ' '.join(paths)

    def built(self, b):
        rc, log = self.fut[b].result()
        if rc != 0:
            sys.stderr.write(open(log, errors='replace').read()[-6000:])
            if b == 'fuzz':
                self.notes.append('libFuzzer build failed')
                return False
            print('build failed: ' + b)
            sys.exit(2)
        return True

    def run(self, b, scale, wall, extra=()):
        out = os.path.join(self.dir, b + '.json')
        env = dict(os.environ, **SAN_ENV)
        env.pop('VERIF_SEED', None)
        if b == 'plain':
            env['MALLOC_PERTURB_'] = '165'
        cmd = [os.path.join(self.dir, b), 'run', '--seed', str(self.seed), '--scale', str(scale), '--wall', str(wall), '--jobs', str(JOBS),
               '--build', b, '--out', out, '--dir', REPLAYS, '--hints', os.path.join(self.dir, 'hints')] + list(extra) + (['--cpu', self.opts['cpu']] if 'cpu' in self.opts else [])
        r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        sys.stderr.write(r.stdout[-3000:])
        if not os.path.exists(out) or r.returncode not in (0, 1):
            print('harness %s ended with %d' % (b, r.returncode))
            sys.exit(2)
        s = json.load(open(out))
        self.stats.append(s)
        if r.returncode == 1:
            self.violation(s['violation'], s['message'])

    def violation(self, path, message):
        self.finish(violations=1, message=message)
        print('%s: %s' % (self.pid, message.split('\n')[0][:1500]))
        print('VIOLATION property=%s replay=%s' % (self.pid, path))
        sys.stdout.flush()
        sys.exit(1)

    def fuzz(self, seconds):
        """Coverage-guided search over the choices of the same properties."""
        corpus = os.path.join(self.dir, 'corpus')
        os.makedirs(corpus)
        art = os.path.join(self.dir, 'art') + '/'
        os.makedirs(art)
        env = dict(os.environ, PBT_HINTS=os.path.join(self.dir, 'hints'), ASAN_OPTIONS='detect_leaks=0')
        procs = []
        end = time.time() + seconds
        execs = 0
        for i in range(JOBS):
            log = open(os.path.join(self.dir, 'fuzz%d.log' % i), 'w')
            procs.append(subprocess.Popen([os.path.join(self.dir, 'fuzz'), corpus, '-seed=%d' % (self.seed * 100 + i + 1), '-max_total_time=%d' % seconds,
                                           '-rss_limit_mb=3000', '-timeout=100', '-max_len=2000', '-reload=1', '-print_final_stats=1',
                                           '-artifact_prefix=' + art], env=env, stdout=log, stderr=log))
        while any(p.poll() is None for p in procs) and time.time() < end + 130:
            time.sleep(1)
            if os.listdir(art):
                break
        for p in procs:
            if p.poll() is None:
                p.terminate()
        for p in procs:
            try:
                p.wait(20)
            except subprocess.TimeoutExpired:
                p.kill()
        cov = 0
        for i in range(JOBS):
            t = open(os.path.join(self.dir, 'fuzz%d.log' % i), errors='replace').read()
            m = re.findall(r'stat::number_of_executed_units: (\d+)', t) or re.findall(r'^#(\d+)', t, re.M)
            execs += int(m[-1]) if m else 0
            m = re.findall(r'cov: (\d+)', t)
            cov = max([cov] + [int(x) for x in m])
        self.fuzz_stats = {'executions': execs, 'edges_covered': cov, 'corpus': len(os.listdir(corpus)), 'seconds': seconds}
        for a in sorted(os.listdir(art)):
            for b in ('plain', 'san'):
                out = os.path.join(self.dir, 'fuzzfile.json')
                r = subprocess.run([os.path.join(self.dir, b), 'fuzzfile', '--file', art + a, '--build', b, '--out', out, '--dir', REPLAYS,
                                    '--jobs', '1', '--hints', os.path.join(self.dir, 'hints')], env=dict(os.environ, **SAN_ENV), text=True, errors='replace')
                if r.returncode == 1:
                    s = json.load(open(out))
                    self.violation(s['violation'], s['message'])
            self.notes.append('libFuzzer artifact %s did not reproduce' % a)

    def known(self):
        """Known findings: specific inputs, evaluated on every run."""
        listed = {}
        for line in open(os.path.join(VERIF, 'known_findings.txt')):
            m = re.match(r'known: property=(\S+) key=(\S+)\s+(.*)', line)
            if m:
                listed[m.group(2)] = m.group(1)
        r = subprocess.run([os.path.join(self.dir, 'plain'), 'known', '--jobs', '1'], stdout=subprocess.PIPE, text=True, errors='replace')
        self.nknown = 0
        for line in r.stdout.splitlines():
            key, what = line.split('\t', 1)
            if listed.get(key) == self.pid:
                self.nknown += 1
                print('KNOWN-FINDING: property=%s %s' % (self.pid, what))
            else:
                path = os.path.join(REPLAYS, '%s-%s.txt' % (self.pid, key))
                open(path, 'w').write(what + '\n')
                self.violation(path, what)

    def finish(self, violations, message=''):
        main = self.stats
        labels = {}
        for s in main:
            for k, v in s['labels'].items():
                labels[k] = labels.get(k, 0) + v
        samples = []
        for s in main:
            samples += s['samples']
        cov = {
            'evaluations': sum(s['cases'] for s in main),
            'distinct_nontrivial': max([s['distinct_nontrivial'] for s in main] or [0]),
            'rule': (main[0]['rule'] if main else '') + ' (distinct_nontrivial: distinct choice sequences of non-trivial cases, of the build with most)',
            'samples': samples[:14],
            'nontrivial_cases': sum(s['nontrivial'] for s in main),
            'oracle_checks': sum(s['checks'] for s in main),
            'discarded': sum(s['discarded'] for s in main),
            'case_classes': labels,
            'builds': [{k: s[k] for k in ('build', 'cases', 'planned', 'nontrivial', 'distinct_nontrivial', 'discarded', 'checks', 'slowest_case_us',
                                          'stopped_early', 'unreproduced', 'wall_s')} for s in main],
            'hints_from_sources': self.nhints,
        }
        if hasattr(self, 'fuzz_stats'):
            cov['coverage_guided'] = self.fuzz_stats
        if getattr(self, 'nknown', 0):
            cov['known_findings'] = self.nknown
        if self.notes:
            cov['notes'] = self.notes
        if message:
            cov['violation'] = message
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'exploration', 'coverage': cov,
              'assumptions': ['the oracle and the compiler, standard library and sanitizers are right', 'generated search: absence of violations outside the explored cases is not shown'],
              'wall_s': round(time.time() - self.t0, 2), 'violations': violations}
        with open(self.ev, 'w') as f:
            json.dump(ev, f, indent=1)

    def main(self):
        thorough = self.tier == 'thorough'
        builds = ['plain', 'san'] + (['tsan'] if 'tsan' in self.opts else []) + (['fuzz'] if thorough and 'nofuzz' not in self.opts else [])
        self.start_compile(builds)
        scale = float(self.opts.get('thorough_scale', 25)) if thorough else 1
        wall = 2400 if thorough else 240
        self.built_variants()
        for b in builds:
            if b == 'fuzz':
                continue
            self.built(b)
            if b == 'plain':
                self.known()
            self.run(b, scale, wall)
        if 'fuzz' in builds and self.built('fuzz'):
            self.fuzz(int(self.opts.get('fuzz_seconds', 240)))
        self.finish(0)
        n = sum(s['cases'] for s in self.stats)
        print('%s: held on %d generated cases (%d non-trivial), %.0f s' % (self.pid, n, sum(s['nontrivial'] for s in self.stats), time.time() - self.t0))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    a = ap.parse_args()
    c = Check(a.property, a.tier, a.seed)
    if a.replay:
        m = re.search(r'^build (\w+)', open(a.replay).read(), re.M)
        b = m.group(1) if m else 'plain'
        c.start_compile([b])
        c.built(b)
        c.built_variants()
        r = subprocess.run([os.path.join(c.dir, b), 'replay', '--file', os.path.abspath(a.replay), '--dir', REPLAYS, '--jobs', '1'], env=dict(os.environ, **SAN_ENV))
        sys.exit(r.returncode)
    c.main()


if __name__ == '__main__':
    main()
