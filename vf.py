#!/usr/bin/env python3
"""Driver: builds the working tree of /repo under the instrumentation a property needs, runs the
property's harness over several processes, merges what its monitors observed and gives the verdict.

  python3 vf.py C04                 run the check of C04 (VERIF_TIER, VERIF_SEED from the environment)
  python3 vf.py --build             build everything (setup)
  python3 vf.py C04 --replay FILE   run the single case named in a replay file
exit 0: held on everything observed; 1: VIOLATION printed; 2: the check itself failed or is inconclusive
"""
import concurrent.futures as cf
import glob, hashlib, json, mmap, os, re, resource, shutil, signal, struct, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(V, 'build')
EVID = os.path.join(V, 'evidence')
SRC = os.path.join(REPO, 'src')
NCPU = os.cpu_count() or 4
sys.path.insert(0, V)
sys.stdout.reconfigure(encoding='ascii', errors='backslashreplace')

VARIANTS = {
    'plain': ('g++', '-O3 -g -fno-omit-frame-pointer'),
    'asan': ('clang++', '-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize-recover=all'),
    'tsan': ('clang++', '-O1 -g -fno-omit-frame-pointer -fsanitize=thread'),
    'vg': ('g++', '-O1 -g -fno-omit-frame-pointer'),
}
# key generation, replaced while a harness plants a tall tree (harness/tall.h)
WRAPPED = ['_Z19xmssfast_Genkeypair13eHashFunctionP11xmss_paramsPhS2_P9bds_stateS2_',
           '_Z10wots_pkgen13eHashFunctionPhPKhPK11wots_paramsS2_Pj', '_Z6l_tree13eHashFunctionPK11wots_paramsPhS3_PKhPj']
COMMON = '-std=c++17 -fPIC -pthread -w'
INCS = [V + '/shim', SRC, SRC + '/api', SRC + '/qrl', SRC + '/xmss-alt', SRC + '/shasha', SRC + '/dilithium', SRC + '/kyber', V + '/ref', V + '/harness']
ENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=77:detect_leaks=0:halt_on_error=1:detect_stack_use_after_return=1:'
                    'strict_string_checks=1:check_initialization_order=1:allocator_may_return_null=0:handle_abort=1',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=77',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=77:second_deadlock_stack=1',
}


class Broken(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def tree_hash(root, exts):
    h = hashlib.sha256()
    for d, dn, fn in sorted(os.walk(root)):
        dn.sort()
        for f in sorted(fn):
            if f.endswith(exts):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b'\0' + read(p) + b'\0')
    return h.hexdigest()


_hdr = None


def header_hash():
    global _hdr
    if _hdr is None:
        _hdr = sha(tree_hash(SRC, ('.h', '.hpp', '.i')), tree_hash(V + '/shim', ('.h',)),
                   tree_hash(V + '/ref', ('.h',)), tree_hash(V + '/harness', ('.h',)))
    return _hdr


def lib_sources(groups):
    r = []
    for g in groups:
        if g == 'core':
            r += sorted(glob.glob(SRC + '/xmss-alt/*.c') + glob.glob(SRC + '/xmss-alt/*.cpp') +
                        glob.glob(SRC + '/qrl/*.cpp') + glob.glob(SRC + '/shasha/*.cpp'))
        elif g == 'pq':
            r += sorted(glob.glob(SRC + '/dilithium/*.cpp') + glob.glob(SRC + '/kyber/*.cpp'))
        elif g == 'js':
            r += [SRC + '/jswrapper/jsqrlwrapper.cpp']
        elif g == 'jspq':
            r += [SRC + '/jswrapper/jsdilwrapper.cpp', SRC + '/jswrapper/jskybwrapper.cpp']
    return r


def compile_one(cc, flags, src, lang='c++'):
    base = '%s %s -x %s %s %s' % (cc, COMMON, lang, flags, ' '.join('-I' + i for i in INCS))
    key = sha(base, read(src), header_hash(), os.path.basename(src))
    d = os.path.join(BUILD, 'obj')
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, os.path.basename(src).replace('.', '_') + '-' + key + '.o')
    if os.path.exists(out):
        return out
    tmp = out + '.%d.tmp' % os.getpid()
    p = subprocess.run(base.split() + ['-c', src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise Broken('cannot compile %s:\n%s' % (src, p.stdout.decode(errors='replace')[-4000:]))
    os.rename(tmp, out)
    return out


def compile_harness(cc, flags, src):
    """Workloads that plant internal state are used as long as the internals have the names they know;
    otherwise the harness is built without them (its counters then show it)."""
    if uses_internals(src):
        try:
            return compile_one(cc, flags + ' -DVERIF_INTERNALS', src)
        except Broken:
            print('note: %s is built without its planted states (internals differ)' % os.path.basename(src))
    return compile_one(cc, flags, src)


def uses_internals(src):
    t = read(src)
    return b'VERIF_INTERNALS' in t or b'"tall.h"' in t


def build_rust():
    """The whole Rust port plus our C interface as a static library (dev assertions and overflow checks on)."""
    proj = os.path.join(V, 'rust')
    files = {}
    for d, dn, fn in os.walk(SRC + '/rust_wrapper'):
        for f in fn:
            if f.endswith('.rs'):
                p = os.path.join(d, f)
                files['port/rust_wrapper/' + os.path.relpath(p, SRC + '/rust_wrapper')] = read(p)
    for d, dn, fn in os.walk(proj):
        dn[:] = [x for x in dn if x != 'target']
        for f in fn:
            p = os.path.join(d, f)
            files[os.path.relpath(p, proj)] = read(p)
    for f, extra in (('xmss_alt/algsxmss_fast.rs', 'plant_fast.rs'), ('qrl/xmss_fast.rs', 'plant_key.rs')):
        if 'port/rust_wrapper/' + f in files:
            files['port/rust_wrapper/' + f] += files[extra]
    # with planted keys and one-time signatures when the port's internals have the names known here
    tries = (['--features', 'plant,wots'], ['--features', 'plant'], ['--features', 'wots'], [])
    key = sha(repr(tries).encode(), *[k.encode() + b'\0' + files[k] for k in sorted(files)])
    out = os.path.join(BUILD, 'obj', 'librustport-%s.a' % key)
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    work = os.path.join(BUILD, 'rust')
    os.makedirs(work, exist_ok=True)
    import fcntl
    with open(os.path.join(BUILD, 'rust.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        have = set()
        for d, dn, fn in os.walk(work):
            dn[:] = [x for x in dn if x != 'target']
            for f in fn:
                have.add(os.path.relpath(os.path.join(d, f), work))
        for f in have - set(files) - {'Cargo.lock'}:
            os.unlink(os.path.join(work, f))
        for f, c in files.items():
            p = os.path.join(work, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if not os.path.exists(p) or read(p) != c:
                with open(p, 'wb') as o:
                    o.write(c)
        env = dict(os.environ, CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='0', RUSTFLAGS='-Awarnings')
        env.setdefault('HOME', '/root')
        for features in tries:
            p = subprocess.run(['cargo', 'build', '--offline', '--release', '--target-dir', os.path.join(work, 'target')] + features,
                               cwd=work, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode == 0:
                break
        if p.returncode != 0:
            raise Broken('cannot build the Rust port:\n' + p.stdout.decode(errors='replace')[-4000:])
        shutil.copy(os.path.join(work, 'target/release/librustport.a'), out + '.tmp')
        os.rename(out + '.tmp', out)
    return out


def build_harness(pool, spec, variant):
    """-> future-like callable giving the path of the linked harness"""
    cc, vflags = VARIANTS[variant]
    flags = vflags + ' ' + spec.get('flags', '')
    jobs = []
    hsrc = [V + '/harness/common.cpp', V + '/harness/' + spec['harness']] + [V + '/harness/' + x for x in spec.get('extra', [])]
    wraps = ['-Wl,--wrap=' + x for x in WRAPPED] if any(b'"tall.h"' in read(x) for x in hsrc) else []
    for s in lib_sources(spec.get('lib', ['core'])):
        jobs.append(pool.submit(compile_one, cc, flags, s))
    jobs.append(pool.submit(compile_one, 'g++', '-O3 -g', V + '/ref/ref.cpp'))
    for s in hsrc:
        jobs.append(pool.submit(compile_harness, cc, flags, s))
    rust = pool.submit(build_rust) if spec.get('rust') else None

    def link(objs, wraps=wraps):
        libs = [rust.result()] if rust else []
        cmd = [cc] + vflags.split() + ['-pthread'] + objs + libs + spec.get('link', '-ldl').split() + wraps
        key = sha(*[os.path.basename(o) for o in objs + libs], *cmd)
        out = os.path.join(BUILD, 'bin', '%s-%s-%s' % (spec['harness'].split('.')[0], variant, key))
        os.makedirs(os.path.dirname(out), exist_ok=True)
        if not os.path.exists(out):
            tmp = out + '.%d.tmp' % os.getpid()
            p = subprocess.run(cmd + ['-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if p.returncode != 0:
                raise Broken('cannot link %s:\n%s' % (out, p.stdout.decode(errors='replace')[-3000:]))
            os.rename(tmp, out)
        return out

    def finish():
        objs = [j.result() for j in jobs]
        try:
            return link(objs)
        except Broken:
            if not any(uses_internals(x) for x in hsrc):
                raise
            return link(objs[:-len(hsrc)] + [compile_one(cc, flags, x) for x in hsrc], [])
    return finish


class Proc:
    """One harness process over one shard, watched for progress."""
    def __init__(self, run, exe, shard, shards, ctx, only=None):
        self.run, self.exe, self.shard, self.shards, self.ctx, self.only = run, exe, shard, shards, ctx, only
        self.tag = '%s-%s-%d%s' % (run['variant'], run.get('part', '') or 'main', shard, '' if only is None else '-only%d' % only)
        self.out = os.path.join(ctx['tmp'], self.tag + '.out')
        self.log = os.path.join(ctx['tmp'], self.tag + '.log')
        self.beat = os.path.join(ctx['tmp'], self.tag + '.beat')
        self.p = None

    def argv(self):
        a = [self.exe, '--property', self.ctx['id'], '--tier', self.ctx['tier'], '--seed', str(self.ctx['seed']),
             '--shard', str(self.shard), '--shards', str(self.shards), '--out', self.out, '--beat', self.beat]
        if self.run.get('part'):
            a += ['--part', self.run['part']]
        if self.only is not None:
            a += ['--only', str(self.only)]
        if self.run['variant'] == 'vg':
            a = ['valgrind', '--error-exitcode=77', '--exit-on-first-error=yes', '--leak-check=no', '--track-origins=no',
                 '-q'] + a
        return self.run.get('wrap', '').split() + a

    def start(self):
        for f in (self.out, self.log, self.beat):
            if os.path.exists(f):
                os.unlink(f)
        env = dict(os.environ, **ENV)
        env['VERIF_SCRATCH'] = self.ctx['tmp']
        env['VERIF_DIR'] = V
        self.p = subprocess.Popen(self.argv(), stdout=open(self.log, 'wb'), stderr=subprocess.STDOUT,
                                  stdin=subprocess.DEVNULL, env=env, cwd=self.ctx['tmp'], start_new_session=True)
        self.last, self.t_last, self.t0, self.hung = None, time.time(), time.time(), False

    def state(self):
        try:
            b = read(self.beat)
            n = struct.unpack('<Q', b[:8])[0]
            return n, b[64:1600].split(b'\0')[0].decode(errors='replace')
        except Exception:
            return 0, ''

    def poll(self, stall):
        if self.p.poll() is not None:
            return True
        n, _ = self.state()
        if n != self.last:
            self.last, self.t_last = n, time.time()
        elif time.time() - self.t_last > stall:
            self.hung = True
            self.kill()
            return True
        return False

    def seen_violation(self):
        """A violation reported so far, or an abnormal end."""
        if self.p is None:
            return False
        if self.hung or self.p.poll() not in (None, 0):
            return True
        try:
            return b'V {' in read(self.out)[:4096]
        except OSError:
            return False

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except Exception:
            pass
        self.p.wait()


def summarise_crash(log, rc):
    """A stable class for a crash: sanitizer kind and the innermost frame in the code under test."""
    kind = 'signal%d' % -rc if rc < 0 else 'exit%d' % rc
    m = re.search(r'SUMMARY: (\w+): ([\w-]+)', log)
    if m:
        kind = m.group(1) + ':' + m.group(2)
    m2 = re.search(r'([\w./-]+):\d+:\d+: runtime error: ([^\n]*)', log)
    if m2:
        kind = 'UBSan:' + re.sub(r"[-+]?\b\d[\w]*|0x[0-9a-f]+|'[^']*'", '#', m2.group(2))[:60].strip()
    m3 = re.search(r'panicked at ([^\n]*)', log)
    if m3 and not m:
        kind = 'panic'
    if rc == 77 and not m and not m2:
        m4 = re.search(r'==\d+== (\S[^\n]*)', log)
        if m4:
            kind = 'memcheck:' + re.sub(r'\d+', '#', m4.group(1))[:50].strip()
    where = ''
    for fr in re.finditer(r'(?:#\d+ 0x[0-9a-f]+ in |#\d+ |0x[0-9A-F]+: )([^\n]*)', log):
        t = fr.group(1)
        if '/repo/src' in t or re.search(r'\((\w+)\.(c|cpp|h):\d+\)', t):
            where = re.split(r'[ (]', t.strip())[0]
            break
    return kind + ('@' + where if where else '')


def known_findings():
    r = {}
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'finding: property=(\S+) class=(\S+) (.*)', l)
            if m:
                r[(m.group(1), m.group(2))] = m.group(3)
    return r


def run_check(cid, spec, tier, seed, replay=None):
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='vf-%s-' % cid, dir=BUILD)
    os.chmod(tmp, 0o755)
    ctx = dict(id=cid, tier=tier, seed=seed, tmp=tmp)
    try:
        return run_check2(cid, spec, tier, seed, replay, t0, ctx)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_check2(cid, spec, tier, seed, replay, t0, ctx):
    runs = [dict(r) for r in spec['runs'] if tier == 'thorough' or not r.get('thorough_only')]
    with cf.ThreadPoolExecutor(NCPU) as pool:
        fin = {}
        for r in runs:
            sub = dict(spec, **{k: r[k] for k in ('harness', 'lib', 'rust', 'extra', 'flags', 'link') if k in r})
            key = (sub['harness'], r['variant'], json.dumps([sub.get(k) for k in ('lib', 'rust', 'extra', 'flags', 'link')]))
            if key not in fin:
                fin[key] = build_harness(pool, sub, r['variant'])
            r['key'] = key
        exes = {k: f() for k, f in fin.items()}
    t_build = time.time() - t0
    budget = float(os.environ.get('VERIF_BUDGET', 780 if tier == 'quick' else 3 * 3600))
    stall = float(os.environ.get('VERIF_STALL', spec.get('stall', 90)))
    procs = []
    for r in runs:
        n = r.get('shards', 3 * NCPU)
        for i in range(n):
            procs.append(Proc(r, exes[r['key']], i, n, ctx))
    if replay:
        rp = json.load(open(replay))
        procs = [Proc(r, exes[r['key']], 0, 1, ctx, only=rp['n']) for r in runs
                 if r['variant'] == rp['variant'] and r.get('part', '') == rp.get('part', '')]
    pending, live, done = list(procs), [], []
    slots = max(NCPU, 4)
    weight = lambda p: p.run.get('weight', 1)
    retried = set()
    has_known = any(k[0] == cid for k in known_findings())
    caught, last_look, cut = 0, time.time(), []
    while pending or live:
        while pending and (not live or sum(weight(p) for p in live) + weight(pending[0]) <= slots):
            p = pending.pop(0)
            p.start()
            live.append(p)
        time.sleep(0.02)
        for p in list(live):
            if p.poll(stall):
                live.remove(p)
                if p.hung and p.tag not in retried:
                    retried.add(p.tag)       # a stall is judged only when it repeats
                    p.hung_note = p.state()[1]
                    pending.insert(0, p)
                    p.hung, p.p = False, None
                else:
                    p.t_end = time.time()
                    done.append(p)
        if time.time() - last_look > 2:
            last_look = time.time()
            if not caught and not has_known and any(p.seen_violation() for p in procs):
                caught = time.time()
        if caught and time.time() - caught > 60 and not replay:   # enough to report; no need to finish
            for p in live:
                p.kill()
            cut, live, pending = live, [], []
            break
        if time.time() - t0 > budget:
            for p in live:
                p.kill()
            if caught:
                cut, live, pending = live, [], []
                break
            print('inconclusive: the workload did not finish within %d s; running: %s'
                  % (budget, '; '.join(p.tag + ' ' + p.state()[1] for p in live)))
            return 2
    if os.environ.get('VERIF_PROF'):
        for p in sorted(done, key=lambda p: p.t0):
            print('%-24s started %6.1f ran %6.1f' % (p.tag, p.t0 - t0, p.t_end - p.t0))
    viol, counters, samples, distinct, evals, cases = [], {}, [], set(), 0, 0
    errors = []
    per_run = {}
    for p in done + cut:
        log = read(p.log).decode(errors='replace')
        ended = False
        if os.path.exists(p.out):
            for l in open(p.out, errors='replace'):
                if l.startswith('V '):
                    v = json.loads(l[2:])
                    v.update(variant=p.run['variant'], part=p.run.get('part', ''), argv=p.argv())
                    viol.append(v)
                elif l.startswith('E '):
                    e = json.loads(l[2:])
                    ended = True
                    evals += e['evaluations']
                    cases += e['cases']
                    distinct.update(e['distinct'])
                    samples += e['samples']
                    for k, n in e['counters'].items():
                        counters[k] = max(counters.get(k, 0), n) if k.startswith('max_') else counters.get(k, 0) + n
                    k = p.run['variant'] + ('/' + p.run['part'] if p.run.get('part') else '')
                    per_run[k] = per_run.get(k, 0) + e['evaluations']
        if p.hung:
            note = p.state()[1]
            viol.append({'class': 'hang:' + re.sub(r'^case \d+ ', '', note).split(' ')[0], 'case': note, 'n': casenum(note),
                         'detail': 'no progress for %d s, twice' % stall, 'variant': p.run['variant'],
                         'part': p.run.get('part', ''), 'argv': p.argv()})
        elif p in cut:
            pass
        elif not ended or p.p.returncode != 0:
            rc = p.p.returncode
            if rc == -signal.SIGKILL and p.run.get('part') == 'huge':   # memory ran out: that part goes without an answer
                counters['huge_killed'] = counters.get('huge_killed', 0) + 1
            elif rc == 3 or rc == -signal.SIGKILL or rc in (126, 127):
                errors.append('%s ended with %d: %s' % (p.tag, rc, log[-800:]))
            else:
                note = p.state()[1]
                viol.append({'class': 'crash:%s:%s' % (re.sub(r'^case \d+ ', '', note).split(' ')[0], summarise_crash(log, rc)),
                             'case': note, 'n': casenum(note), 'detail': log[-6000:], 'variant': p.run['variant'],
                             'part': p.run.get('part', ''), 'argv': p.argv()})
    known = known_findings()
    rep = os.path.join(EVID, 'replays')
    os.makedirs(rep, exist_ok=True)
    for f in glob.glob(os.path.join(rep, cid + '-*.json')):
        if not replay:
            os.unlink(f)
    new, seen_known = [], set()
    for v in viol:
        k = (cid, v['class'])
        if k in known:
            seen_known.add(k)
        else:
            new.append(v)
    for k in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s' % (cid, known[k]))
    printed = set()
    for v in new:
        if v['class'] in printed:
            continue
        printed.add(v['class'])
        f = os.path.join(rep, '%s-%d.json' % (cid, len(printed)))
        if not replay:
            v2 = dict(v, property=cid, seed=seed, tier=tier,
                      rerun='VERIF_SEED=%d VERIF_TIER=%s python3 vf.py %s --replay %s' % (seed, tier, cid, f))
            json.dump(v2, open(f, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (cid, replay or f))
        print('  class: %s\n  case: %s\n  %s' % (v['class'], v.get('case', ''), v['detail'][-1500:].replace('\n', '\n  ')))
        if len(printed) >= 12:
            break
    if cut and not printed:
        errors.append('stopped early without a violation')
    floor = spec.get('floor', 1)
    if not replay:
        ev = {'property': cid, 'tier': tier, 'seed': seed, 'level': spec['level'],
              'coverage': {'evaluations': evals, 'distinct_nontrivial': len(distinct), 'rule': spec['rule'],
                           'samples': dedupe(samples)[:12] or ['none'], 'cases': cases, 'observed': counters,
                           'evaluations_by_build': per_run, 'build_s': round(t_build, 1)},
              'assumptions': spec.get('assumptions', []),
              'wall_s': round(time.time() - t0, 2), 'violations': len(printed)}
        with open(os.path.join(EVID, cid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    if printed:
        return 1
    if errors:
        print('check error:\n' + '\n'.join(errors))
        return 2
    gate = {'?': 'with_internals', '~': 'with_grown'}   # required only where the internals they use have the shape known here
    missing = [c for c in spec.get('must', []) if not counters.get(c.lstrip('?~')) and (c[0] not in gate or counters.get(gate[c[0]]))]
    if any(c[0] == '?' for c in spec.get('must', [])) and not counters.get('with_internals'):
        floor //= 10
    if not replay and (evals < floor or len(distinct) < 1 or missing):
        print('inconclusive: only %d observations judged; never observed: %s' % (evals, missing))
        return 2
    print('%s held: %d observations judged (%d distinct), %d cases, %.1f s (build %.1f s)'
          % (cid, evals, len(distinct), cases, time.time() - t0, t_build))
    return 0


def dedupe(xs):
    r = []
    for x in xs:
        if x not in r:
            r.append(x)
    return r


def casenum(note):
    m = re.match(r'case (\d+)', note)
    return int(m.group(1)) if m else -1


def main():
    from specs import SPECS
    a = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        if a and a[0] == '--build':
            os.makedirs(BUILD, exist_ok=True)
            for cid in (a[1:] or sorted(SPECS)):
                spec = SPECS[cid]
                with cf.ThreadPoolExecutor(NCPU) as pool:
                    for r in spec['runs']:
                        sub = dict(spec, **{k: r[k] for k in ('harness', 'lib', 'rust', 'extra', 'flags', 'link') if k in r})
                        build_harness(pool, sub, r['variant'])()
            return 0
        cid = a[0]
        replay = a[a.index('--replay') + 1] if '--replay' in a else None
        return run_check(cid, SPECS[cid], tier, seed, replay)
    except Broken as e:
        print('check error: %s' % e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
