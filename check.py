#!/usr/bin/env python3
"""Solver-based check of one property.

  check.py ID [--tier quick|thorough] [--only TARGET] [--keep]
  check.py --replay FILE

Builds (from /repo's working tree) the sources the harness names, once
instrumented for symbolic execution and once plainly, explores every target of
the harness, replays each counterexample on the plain build, writes
evidence/ID.json.  Exit 0: held; 1: VIOLATION; 2: no verdict.
"""
import argparse, concurrent.futures as cf, fnmatch, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = REPO + '/src'
ENG = V + '/engine'
CACHE = os.environ.get('VERIF_CACHE')
JOBS = os.cpu_count() or 4
# fresh and freed heap memory holds a fixed pattern: reads of it behave the same in every run
os.environ['GLIBC_TUNABLES'] = 'glibc.malloc.tcache_count=0:glibc.malloc.perturb=165'
DIRS = ['utils', 'value', 'expr', 'intfc', 'exec', 'xml-parser', 'app-framework', 'interfaces/Sockets',
        'interfaces/UdpAdapter', 'interfaces/LuvListener', 'interfaces/Launcher', 'interfaces/PlanDebugListener', 'interfaces/IpcUtils', 'third-party/ipc']

def log(*a):
    print(*a, flush=True)

class BuildError(Exception):
    pass

def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout[-6000:])
    return p.stdout

def meta_of(pid):
    f = f'{V}/harness/{pid}.cc'
    s = open(f).read()
    m = re.search(r'/\*META(.*?)META\*/', s, re.S)
    d = eval(m.group(1).strip(), {})
    d['file'] = f
    return d

def sources(pats):
    out, excl = [], [p[1:] for p in pats if p.startswith('!')]
    for p in pats:
        if p.startswith('!'):
            continue
        for f in sorted(glob.glob(f'{SRC}/{p}')):
            r = os.path.relpath(f, SRC)
            if not any(fnmatch.fnmatch(r, e) for e in excl) and r not in out:
                out.append(r)
    return out

_hdr = None
def headers_hash():
    global _hdr
    if _hdr is None:
        h = hashlib.sha256()
        fs = [f for d in DIRS for f in glob.glob(f'{SRC}/{d}/*.h') + glob.glob(f'{SRC}/{d}/*.hh') + glob.glob(f'{SRC}/{d}/*.gperf')]
        fs += glob.glob(f'{SRC}/apps/*/*.hh') + glob.glob(f'{SRC}/apps/*/*.h')
        fs += glob.glob(f'{ENG}/*.h') + glob.glob(f'{ENG}/config/*')
        for f in sorted(fs):
            h.update(f.encode()); h.update(open(f, 'rb').read())
        _hdr = h.hexdigest()
    return _hdr

def src_text(f):
    t = open(f).read()
    for i in re.findall(r'#include "(\w+\.cc?)"', t):   # sources which include sources
        g = os.path.join(os.path.dirname(f), i)
        if os.path.exists(g):
            t += open(g).read()
    return t

def hh_hash():
    return ''.join(hashlib.sha256(open(f, 'rb').read()).hexdigest() for f in sorted(glob.glob(f'{V}/harness/*.hh')))

class Build:
    def __init__(self, work, meta, defs):
        self.work, self.meta, self.defs = work, meta, defs
        os.makedirs(work, exist_ok=True)
        self.gen = work + '/gen'
        os.makedirs(self.gen, exist_ok=True)
        self.cachedir = CACHE
        if CACHE:
            os.makedirs(CACHE, exist_ok=True)

    def cached(self, key, out, fn):
        if self.cachedir:
            c = f'{self.cachedir}/{hashlib.sha256(key.encode()).hexdigest()}'
            if os.path.exists(c):
                shutil.copy(c, out)
                return
            fn()
            t = c + f'.{os.getpid()}.{hash(out)}'
            shutil.copy(out, t); os.replace(t, c)
        else:
            fn()

    def incs(self):
        i = ['-I' + V + '/engine', '-I' + V + '/harness', '-I' + ENG + '/config', '-I' + self.gen]
        i += ['-I' + SRC] + [f'-I{SRC}/{d}' for d in DIRS]
        i += self.meta.get('incs', [])
        return i

    def engine(self):
        w = self.work
        def plugin():
            fl = sh(['llvm-config-18', '--cxxflags']).split()
            sh(['clang++', '-O1', '-fPIC', '-shared', *fl, '-w', '-o', w + '/SymPass.so', ENG + '/pass.cc'])
        def rt():
            open(w + '/rt.map', 'w').write('{global: __sy_*; sym_*; main; _Znwm; local: *;};')
            sh(['g++', '-std=c++17', '-O2', '-fPIC', '-shared', ENG + '/rt.cc', '-o', w + '/libsyrt.so', '-lz3', '-Wl,--version-script=' + w + '/rt.map'])
        hp = hashlib.sha256(open(ENG + '/pass.cc', 'rb').read()).hexdigest()
        self.ph = hp
        hr = hashlib.sha256(open(ENG + '/rt.cc', 'rb').read() + open(ENG + '/sym.h', 'rb').read()).hexdigest()
        def rrt():
            sh(['g++', '-std=c++17', '-O1', '-c', ENG + '/replay_rt.cc', '-o', w + '/replay_rt.o'])
        hrr = hashlib.sha256(open(ENG + '/replay_rt.cc', 'rb').read() + open(ENG + '/sym.h', 'rb').read()).hexdigest()
        # gperf-generated header of the XML parser, as in the real build
        g = f'{SRC}/xml-parser/ExpressionMap.gperf'
        if os.path.exists(g):
            sh(['gperf', '-m', '8', '--output-file=' + self.gen + '/ExpressionMap.hh', g])
        with cf.ThreadPoolExecutor(3) as ex:
            fs = [ex.submit(self.cached, 'plugin' + hp, w + '/SymPass.so', plugin), ex.submit(self.cached, 'rt' + hr, w + '/libsyrt.so', rt),
                  ex.submit(self.cached, 'rrt' + hrr, w + '/replay_rt.o', rrt)]
            for f in fs: f.result()

    def compile(self, f, kind, defs):
        """kind: sym | nat"""
        isC = f.endswith('.c')
        rel = os.path.relpath(f, SRC) if f.startswith(SRC) else os.path.basename(f)
        o = f'{self.work}/{kind}-{rel.replace("/", "_")}.o'
        common = ['-g', '-DNDEBUG', '-DHAVE_CONFIG_H', '-pthread', *self.incs(), *defs, *self.meta.get('cflags', [])]
        std = [] if isC else ['-std=gnu++17' if not f.startswith(SRC) else self.meta.get('std', '-std=gnu++17')]
        pre = [] if isC else ['-include', 'cstdint', '-include', 'cstring']
        if kind == 'sym':
            cmd = ['clang' if isC else 'clang++', *std, *([] if isC else ['-include', ENG + '/symstd.h']), *pre, '-w', '-O1', '-fPIC', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops',
                   '-U_FORTIFY_SOURCE', '-fpass-plugin=' + self.work + '/SymPass.so', *common]
            if f.endswith('symlibc.c'):
                cmd.append('-fno-builtin')
        else:
            cmd = ['gcc' if isC else 'g++', *std, *pre, '-w', '-O2', '-fPIC', *common]
        cmd = [c for c in cmd if c != '-g']
        key = ' '.join(c for c in cmd).replace(self.work, 'W') + headers_hash() + (hh_hash() if not f.startswith(SRC) else '') + src_text(f) + (self.ph if kind == 'sym' else '') + f
        self.cached(key, o, lambda: sh(cmd + ['-c', f, '-o', o]))
        return o

    def build(self, kinds=('sym', 'nat')):
        self.engine()
        srcs = [f'{SRC}/{s}' for s in sources(self.meta['srcs'])]
        own = [self.meta['file']] + [f'{V}/harness/{x}' for x in self.meta.get('extra', [])]
        objs = {k: [] for k in kinds}
        tasks = []
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for k in kinds:
                if k == 'sym':
                    tasks.append((k, ex.submit(self.compile, ENG + '/symlibc.c', k, [])))
                for f in own:
                    tasks.append((k, ex.submit(self.compile, f, k, self.defs)))
            for f in sorted(srcs, key=lambda x: -os.path.getsize(x)):
                for k in kinds:
                    tasks.append((k, ex.submit(self.compile, f, k, [])))
            for k, t in tasks:
                objs[k].append(t.result())
        open(self.work + '/local.map', 'w').write('{local: *;};')
        libs = self.meta.get('libs', ['-lpthread', '-ldl'])
        for k in kinds:
            if k == 'sym':
                sh(['clang++', '-fuse-ld=lld', '-pthread', *objs[k], '-o', self.work + '/sym', self.work + '/libsyrt.so', '-Wl,-rpath,' + self.work,
                    '-Wl,--version-script=' + self.work + '/local.map', *libs])
            else:
                sh(['g++', '-pthread', *objs[k], self.work + '/replay_rt.o', '-o', self.work + '/nat', *libs])
        return srcs

def demangle(names):
    try:
        p = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
        return p.stdout.split('\n')
    except OSError:
        return names

def inputs_line(d):
    return ' '.join(f'{k}={v}' for k, v in d.items())

def run_nat(work, target, inputs, hang=20):
    f = tempfile.NamedTemporaryFile('w', suffix='.in', dir=work, delete=False)
    f.write(inputs_line(inputs) + '\n'); f.close()
    try:
        p = subprocess.run([work + '/nat', '--target', target, '--input', f.name, '--hang', str(hang)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=hang + 20, errors='replace', text=True)
        out = p.stdout
    except subprocess.TimeoutExpired:
        return 'hang', 'timeout', ''
    m = re.findall(r'RESULT (\S+)\t(.*)', out)
    if not m:
        return 'crash', 'no result', out
    return m[-1][0], m[-1][1], out

def batch_nat(work, target, samples):
    if not samples:
        return []
    f = tempfile.NamedTemporaryFile('w', suffix='.in', dir=work, delete=False)
    for s in samples:
        f.write(inputs_line(s) + ' \n')
    f.close()
    p = subprocess.run([work + '/nat', '--target', target, '--batch', f.name], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors='replace', timeout=600)
    return re.findall(r'RESULT (\S+)\t(.*)', p.stdout)

def known_entries(pid):
    out = []
    f = V + '/known_findings.txt'
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip()))
    return out

def check(pid, tier, only=None, keep=False):
    t0 = time.time()
    meta = meta_of(pid)
    base = tempfile.mkdtemp(prefix='verif-')
    evid = f'{V}/evidence/{pid}.json'
    os.makedirs(V + '/evidence', exist_ok=True)
    for f in glob.glob(f'{V}/evidence/{pid}-replay-*'):
        os.unlink(f)
    defs = ['-DTIER_' + tier.upper()] + meta.get('defs_' + tier, [])
    rc, viols, incon, runs, known_seen = 0, [], [], [], []
    validated = mismatched = 0
    fnames = set()
    try:
        b = Build(base, meta, defs)
        try:
            srcs = b.build()
        except BuildError as e:
            log('BUILD-ERROR', e)
            return 2
        tb = time.time()
        log(f'[{pid}] built {len(srcs)} sources in {tb - t0:.1f} s')
        names = sh([base + '/sym', '--list']).split()
        known = dict(known_entries(pid))
        conf = meta.get('targets', {})
        for tn in names:
            if only and tn not in only.split(','):
                continue
            c = dict(conf.get(tn, {}))
            c.update(c.get(tier, {}))
            if c.get('tier') and c['tier'] != tier:
                continue
            res = f'{base}/{tn}.json'
            cmd = [base + '/sym', '--target', tn, '--jobs', str(JOBS), '--out', res, '--time', str(c.get('time', 300 if tier == 'quick' else 3000)),
                   '--max-paths', str(c.get('paths', 400000 if tier == 'quick' else 4000000)), '--query-timeout', str(c.get('qt', 120)), '--hang', str(c.get('hang', 20)),
                   '--samples', '48' if tier == 'quick' else '400']
            if meta.get('fork'):   # a process per path: the code under test keeps state in singletons
                cmd += ['--batch', '1']
            for attempt in (1, 2):   # once more if the engine itself was killed (out of memory, say)
                if os.path.exists(res):
                    os.unlink(res)
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
                if p.returncode >= 0:
                    break
                log(f'[{pid}] {tn}: engine exit {p.returncode} (attempt {attempt})')
            if p.returncode or not os.path.exists(res):
                incon.append(f'{tn}: engine exit {p.returncode}: {p.stdout[-500:]}')
                continue
            r = json.load(open(res))
            runs.append(r)
            fnames.update(r['functions'])
            log(f"[{pid}] {tn}: paths {r['paths']} (ok {r['ok']}) queries {r['queries']} (unsat {r['unsat']}) solver {r['solver_s']:.1f}s wall {r['wall_s']:.1f}s violations {len(r['violations'])}"
                + (f" INC {r['inconclusive']}" if r['inconclusive'] else '') + (f" UNMOD {list(r['unmodelled'])[:4]}" if r['unmodelled'] else '') + (f" MISSING {r['missing']}" if r['missing'] else ''))
            iskf = tn.startswith('KF_')
            for v in r['violations']:
                st, det, out = run_nat(base, tn, v['inputs'])
                ok = st == v['kind'] and (st != 'assert' or det == v['detail'])
                if not ok and st in ('assert', 'crash', 'exception', 'hang'):
                    ok = True  # breaks on the real build, with another symptom
                if not ok:
                    incon.append(f"{tn}: counterexample ({v['kind']} {v['detail']}) did not reproduce on the plain build (got {st} {det}): {inputs_line(v['inputs'])}")
                    continue
                key = f"{tn}/{v['kind']}:{v['detail']}".replace(' ', '_')
                if iskf and key in known:
                    if key not in known_seen:
                        known_seen.append(key)
                    continue
                viols.append((tn, v, st, det))
            if not iskf:
                # vacuity and coverage: the engine must have reached what the harness says it reaches
                if r['missing'] and not r['violations'] and not r['inconclusive']:
                    incon.append(f"{tn}: never reached {r['missing']}")
                if not r['violations'] and r['unmodelled']:
                    incon.append(f"{tn}: unmodelled {list(r['unmodelled'])[:6]}")
                if r['inconclusive']:
                    incon.append(f"{tn}: {r['inconclusive']}")
            # path witnesses on the plain build
            bn = batch_nat(base, tn, r['samples'])
            for s, (st, det) in zip(r['samples'], bn):
                if st == 'ok' or iskf:
                    validated += 1
                else:
                    mismatched += 1
                    if st in ('assert', 'crash', 'exception', 'hang'):
                        viols.append((tn, {'kind': st, 'detail': det, 'inputs': s}, st, det))
                    else:
                        incon.append(f'{tn}: witness {inputs_line(s)} gives {st} {det} on the plain build')
        n = 0
        for (tn, v, st, det) in viols:
            n += 1
            rp = f'{V}/evidence/{pid}-replay-{n}.json'
            json.dump({'property': pid, 'tier': tier, 'target': tn, 'kind': v['kind'], 'detail': v['detail'], 'observed': [st, det], 'inputs': v['inputs']}, open(rp, 'w'), indent=1)
            if n <= 6:
                log(f"  counterexample in {tn}: {v['kind']} '{v['detail']}' inputs: {inputs_line(v['inputs'])[:600]}")
                log(f"VIOLATION property={pid} replay={rp}")
        for k in known_seen:
            log(f"KNOWN-FINDING: property={pid} {known[k]}")
        dm = sorted(set(x for x in demangle(sorted(fnames)) if 'PLEXIL' in x or '::' not in x))
        lib = [x for x in dm if not x.startswith('target_')]
        samples = []
        for r in runs:
            for s in r['samples'][:2]:
                samples.append({'target': r['target'], 'inputs': s})
        cov = {
            'states': sum(r['paths'] for r in runs), 'transitions': sum(r['path_events'] for r in runs),
            'traces_validated_against_impl': validated, 'samples': samples[:12] or [{'none': True}],
            'explanation': 'states = symbolic paths of the real code (each a set of inputs given by its path condition); transitions = symbolic decisions on them; '
                           'traces_validated = path witnesses whose run on the plain -O2 build gave the same outcome',
            'exhaustive': rc == 0 and not incon,
            'paths_completed': sum(r['ok'] for r in runs), 'paths_outside_assumptions': sum(r['infeasible'] for r in runs),
            'queries': sum(r['queries'] for r in runs), 'queries_sat': sum(r['sat'] for r in runs), 'queries_unsat': sum(r['unsat'] for r in runs),
            'queries_unknown': sum(r['unknown'] for r in runs), 'property_queries': sum(r['assert_queries'] for r in runs),
            'property_assertions_evaluated': sum(sum(r['asserted'].values()) for r in runs),
            'solver_s': round(sum(r['solver_s'] for r in runs), 2), 'symbolic_operations': sum(r['sym_ops'] for r in runs),
            'functions_encoded_count': len(lib), 'functions_encoded': lib[:400],
            'sources': [os.path.relpath(s, SRC) for s in srcs],
            'bounds': meta.get('bounds', {}).get(tier) if isinstance(meta.get('bounds'), dict) else meta.get('bounds', ''),
            'targets': {r['target']: {k: r[k] for k in ('paths', 'ok', 'infeasible', 'queries', 'unsat', 'assert_queries', 'solver_s', 'wall_s', 'max_path_events', 'concretizations', 'format_dropped', 'asserted', 'reached')} for r in runs},
            'known_findings_reproduced': known_seen, 'inconclusive': incon,
        }
        if viols:
            rc = 1
        elif incon or not runs:
            for i in incon:
                log(f'INCONCLUSIVE: property={pid} {i}'[:1500])
            rc = 2
        cov['exhaustive'] = rc == 0
        json.dump({'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking', 'coverage': cov,
                   'assumptions': meta.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(viols)}, open(evid, 'w'), indent=1)
        log(f'[{pid}] {"HELD within bounds" if rc == 0 else "VIOLATED" if rc == 1 else "NO VERDICT"} tier={tier} wall {time.time() - t0:.1f}s '
            f'paths {cov["states"]} queries {cov["queries"]} property queries {cov["property_queries"]}')
        return rc
    finally:
        if keep:
            log('kept', base)
        else:
            shutil.rmtree(base, ignore_errors=True)

def replay(f):
    d = json.load(open(f))
    meta = meta_of(d['property'])
    base = tempfile.mkdtemp(prefix='verif-')
    try:
        b = Build(base, meta, ['-DTIER_' + d['tier'].upper()] + meta.get('defs_' + d['tier'], []))
        b.build(('nat',))
        st, det, out = run_nat(base, d['target'], d['inputs'])
        print(out)
        print('replay:', st, det)
        return 1 if st in ('assert', 'crash', 'exception', 'hang') else 0
    finally:
        shutil.rmtree(base, ignore_errors=True)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--keep', action='store_true')
    ap.add_argument('--replay')
    a = ap.parse_args()
    if a.replay:
        sys.exit(replay(a.replay))
    sys.exit(check(a.id, a.tier, a.only, a.keep))

if __name__ == '__main__':
    main()
