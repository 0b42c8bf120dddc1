#!/usr/bin/env python3
"""Runs the runtime-monitoring check of one property.

  check.py ID [--tier quick|thorough] [--seed N]     decide property ID
  check.py --replay FILE                             re-run a recorded violation
  check.py --build                                   pre-build every flavour

Exit 0: the property held on everything explored (known findings are printed).
Exit 1: VIOLATION line(s).  Exit 2: the check itself could not run.
"""
import argparse, array, concurrent.futures as cf, hashlib, importlib, json, os, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
REPLAY = os.path.join(VERIF, 'replay')
NCPU = min(8, os.cpu_count() or 8)
sys.path.insert(0, VERIF)
from checks import CHECKS, FLAVOURS  # noqa: E402

os.environ['PATH'] = '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
os.environ['LC_ALL'] = 'C.UTF-8'
os.environ.pop('TZ', None)
# The results must not depend on the machine's time zone.
ZONES = ['UTC', 'America/New_York', 'Asia/Kolkata', 'Pacific/Kiritimati', 'Australia/Lord_Howe', 'Europe/Prague', 'America/St_Johns', '']


class CheckError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


# ------------------------------------------------------------------ building

def read(p):
    with open(p, 'rb') as f:
        return f.read()


class Builder:
    def __init__(self):
        self.sources, self.mains, headers, self.protos = [], {}, [], []
        for d, dirs, files in os.walk(REPO):
            rel = os.path.relpath(d, REPO)
            dirs[:] = sorted(x for x in dirs if not x.startswith(('.', '_', 'bazel-')))
            for f in sorted(files):
                p = os.path.normpath(os.path.join(rel, f))
                if f.endswith('.proto'):
                    if f != 'example.proto':
                        self.protos.append(p)
                    headers.append(p)
                elif f.endswith('.h'):
                    headers.append(p)
                elif f.endswith('.cc') and not f.endswith('_test.cc') and f != 'test_util.cc':
                    if p in ('convert.cc', 'trader.cc'):
                        self.mains[p] = p
                    else:
                        self.sources.append(p)
        h = hashlib.sha256()
        for p in sorted(headers):
            h.update(p.encode() + b'\0' + read(os.path.join(REPO, p)) + b'\0')
        self.repo_h = h.hexdigest()
        h = hashlib.sha256()
        hd = os.path.join(VERIF, 'harness')
        for f in sorted(os.listdir(hd)):
            if f.endswith('.h'):
                h.update(f.encode() + b'\0' + read(os.path.join(hd, f)) + b'\0')
        self.harness_h = h.hexdigest()
        pk = sh(['pkg-config', '--libs', 'absl_flags', 'absl_flags_parse', 'absl_memory', 'absl_status', 'absl_statusor',
                 'absl_strings', 'absl_str_format', 'absl_time', 'protobuf', 'zlib'])
        if pk.returncode:
            raise CheckError('pkg-config: ' + pk.stdout)
        self.libs = pk.stdout.split()
        self.gen = None
        self.pool = cf.ThreadPoolExecutor(NCPU)

    def protoc(self):
        if self.gen:
            return
        h = hashlib.sha256(self.repo_h.encode()).hexdigest()[:16]
        gen = os.path.join(BUILD, 'gen-' + h)
        if not os.path.isdir(gen):
            tmp = gen + '.%d' % os.getpid()
            os.makedirs(tmp)
            r = sh(['protoc', '-I' + REPO, '--cpp_out=' + tmp] + self.protos, cwd=REPO)
            if r.returncode:
                raise CheckError('protoc failed:\n' + r.stdout)
            try:
                os.rename(tmp, gen)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)
        self.gen = gen

    def obj(self, flavour, src, extra_h=''):
        fl = FLAVOURS[flavour]
        cmd = [fl.get('cxx', 'g++')] + fl['flags'] + ['-I' + REPO, '-I' + self.gen, '-I' + os.path.join(VERIF, 'harness')]
        k = hashlib.sha256('\0'.join([' '.join(cmd), src, self.repo_h, extra_h]).encode() + read(src)).hexdigest()[:24]
        d = os.path.join(BUILD, flavour)
        os.makedirs(d, exist_ok=True)
        o = os.path.join(d, os.path.basename(src).replace('.', '_') + '-' + k + '.o')
        if not os.path.exists(o):
            tmp = '%s.%d.tmp' % (o, os.getpid())
            r = sh(cmd + ['-c', src, '-o', tmp])
            if r.returncode:
                raise CheckError('compilation of %s failed:\n%s' % (src, r.stdout[-4000:]))
            os.rename(tmp, o)
        return o

    def build(self, wanted):
        """wanted: list of (program, flavour); returns {(program, flavour): path}."""
        self.protoc()
        fut = {}

        def want(fl, src, eh=''):
            if (fl, src) not in fut:
                fut[(fl, src)] = self.pool.submit(self.obj, fl, src, eh)
            return fut[(fl, src)]

        plan = {}
        # Longest compilations first.
        for prog, fl in wanted:
            mains = [os.path.join(REPO, prog + '.cc')] if prog + '.cc' in self.mains else [os.path.join(VERIF, 'harness', prog + '.cc')]
            eh = '' if mains[0].startswith(REPO + '/') else self.harness_h
            plan[(prog, fl)] = [want(fl, m, eh) for m in mains]
        for prog, fl in wanted:
            for p in self.protos:
                plan[(prog, fl)].append(want(fl, os.path.join(self.gen, p[:-6] + '.pb.cc')))
            for s in sorted(self.sources, key=lambda p: not p.startswith('eval')):
                plan[(prog, fl)].append(want(fl, os.path.join(REPO, s)))
        out = {}

        def link(prog, fl, objs):
            k = hashlib.sha256(' '.join(objs + FLAVOURS[fl]['flags']).encode()).hexdigest()[:24]
            b = os.path.join(BUILD, fl, prog + '-' + k)
            if not os.path.exists(b):
                tmp = '%s.%d.tmp' % (b, os.getpid())
                r = sh([FLAVOURS[fl].get('cxx', 'g++')] + FLAVOURS[fl]['flags'] + objs + ['-o', tmp] + self.libs + ['-lz', '-lpthread'])
                if r.returncode:
                    raise CheckError('linking %s failed:\n%s' % (prog, r.stdout[-4000:]))
                os.rename(tmp, b)
            return b

        links = {}
        for (prog, fl), fs in plan.items():
            links[(prog, fl)] = cf.ThreadPoolExecutor(1).submit(lambda p=prog, f=fl, x=fs: link(p, f, [y.result() for y in x]))
        for k, f in links.items():
            out[k] = f.result()
        return out


# ------------------------------------------------------------------- running

SAN_ENV = {
    'ASAN_OPTIONS': 'detect_leaks=1:abort_on_error=0:exitcode=99:detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=1:allocator_may_return_null=0:max_allocation_size_mb=8000',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1',
    'TSAN_OPTIONS': 'exitcode=98:halt_on_error=0:history_size=4:second_deadlock_stack=1',
    'MALLOC_PERTURB_': '165',
}


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.setpgid(0, 0)


def memory_limits():
    limits()
    resource.setrlimit(resource.RLIMIT_DATA, (3 << 30, 3 << 30))


class Result:
    def __init__(self):
        self.evaluations = 0
        self.events = {}
        self.samples = []
        self.violations = []   # dict(key, msg, replay=dict)
        self.hashes = set()
        self.notes = []
        self.runs = []
        self.truncated = False

    def add(self, d, replay_of):
        self.evaluations += d['evaluations']
        self.truncated |= d.get('truncated', False)
        for k, v in d['events'].items():
            self.events[k] = max(self.events.get(k, 0), v) if k.startswith('max_') else self.events.get(k, 0) + v
        for s in d['samples']:
            if len(self.samples) < 8 and s not in self.samples:
                self.samples.append(s)
        for v in d['violations']:
            self.violations.append(dict(key=v['key'], msg=v['msg'], replay=replay_of(v)))


def run_proc(cmd, env, timeout, cwd, errfile, limits=limits):
    with open(errfile, 'wb') as ef:
        p = subprocess.Popen(cmd, env=env, stdin=subprocess.DEVNULL, stdout=ef, stderr=ef, cwd=cwd, preexec_fn=limits)
        try:
            return p.wait(timeout)
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
            return 'timeout'


def tail(path, n=6000):
    try:
        b = read(path)
    except OSError:
        return ''
    if len(b) > 2 * n:
        b = b[:n] + b'\n...\n' + b[-n:]
    return b.decode('utf-8', 'replace')


def headline(text):
    for l in text.splitlines():
        if any(x in l for x in ('ERROR: ', 'runtime error:', 'WARNING: ThreadSanitizer', 'Assertion', 'SUMMARY:', 'HARNESS-HANG', 'terminate called', 'definitely lost', 'Invalid read', 'Invalid write', 'uninitialised')):
            return l.strip()[:300]
    return (text.strip().splitlines() or [''])[-1][:300]


def run_shards(run, binary, prop, tier, seed, scratch, res):
    n = run[tier]
    nsh = run.get('shards', NCPU)
    nsh = max(1, min(nsh, n))
    budget = run.get('budget', {}).get(tier, 80 if tier == 'quick' else 500)
    env = dict(os.environ, **SAN_ENV)
    work, label = run.get('work', prop), prop
    wrap = run.get('wrap', [])
    case_timeout = run.get('case_timeout', 20) * (10 if wrap else 1)
    lim = memory_limits if run['flavour'] in ('plain', 'work') and not wrap else limits   # (sanitizers reserve much more)
    base = wrap + [binary, '--prop', work, '--label', label, '--seed', str(seed)] + (['--thorough'] if tier == 'thorough' else [])

    def replay_of(case, shard):
        return dict(tz=ZONES[shard % len(ZONES)], kind='harness', program=run['prog'], flavour=run['flavour'], work=work, label=label, seed=seed, tier=tier, case=str(case), wrap=wrap)

    def one(i, attempt=0):
        tag = '%s-%s-%s-%d-%d' % (run['prog'], run['flavour'], work, i, attempt)
        d = os.path.join(scratch, tag)
        os.makedirs(d, exist_ok=True)
        out, prog, err = d + '.json', d + '.progress', d + '.err'
        rc = run_proc(base + ['--cases', str(n), '--shard', str(i), '--nshards', str(nsh), '--budget', str(budget),
                              '--case-timeout', str(case_timeout), '--out', out, '--progress', prog, '--tmpdir', d],
                      dict(env, TZ=ZONES[i % len(ZONES)]), budget + case_timeout + 120, scratch, err, lim)
        case = 0
        try:
            a = array.array('Q'); a.frombytes(read(prog)[:24]); case = a[0]
        except (OSError, ValueError):
            pass
        return i, rc, out, err, case, d

    with cf.ThreadPoolExecutor(NCPU) as ex:
        done = list(ex.map(one, range(nsh)))
    for i, rc, out, err, case, d in done:
        if rc == -signal.SIGKILL:   # memory pressure, not the code under test
            i, rc, out, err, case, d = one(i, 1)
            if rc == -signal.SIGKILL:
                rc2 = run_proc(base + ['--case', str(case), '--case-timeout', str(3 * case_timeout), '--tmpdir', d],
                               dict(env, TZ=ZONES[i % len(ZONES)]), 3 * case_timeout + 60, scratch, d + '.memory.err', lim)
                if rc2 != -signal.SIGKILL:
                    raise CheckError('shard killed twice (out of memory?)')
                res.violations.append(dict(key='memory', msg='execution needs more memory than there is (case %d)' % case, replay=replay_of(case, i)))
                continue
        if os.path.exists(out):
            j = json.load(open(out))
            res.add(j, lambda v: replay_of(v['case'], i))
            try:
                a = array.array('Q'); a.frombytes(read(out + '.hash')); res.hashes.update(a)
            except OSError:
                pass
        text = tail(err)
        if rc in (0, 1) and os.path.exists(out):
            continue
        if os.path.exists(out + '.early'):   # found before the process hung or died
            for l in read(out + '.early').decode('utf-8', 'replace').splitlines():
                try:
                    v = json.loads(l)
                except ValueError:
                    continue
                res.violations.append(dict(key=v['key'], msg=v['msg'], replay=replay_of(v['case'], i)))
        if rc == 2:
            raise CheckError('harness error: ' + text[-2000:])
        if rc in (97, 'timeout'):
            # A hang must happen again, alone and with more time, before it is believed.
            e2 = d + '.hang.err'
            rc2 = run_proc(base + ['--case', str(case), '--case-timeout', str(3 * case_timeout), '--tmpdir', d],
                           dict(env, TZ=ZONES[i % len(ZONES)]), 3 * case_timeout + 60, scratch, e2, lim)
            if rc2 in (97, 'timeout'):
                res.violations.append(dict(key='hang', msg='execution does not terminate (case %d, %d s)' % (case, 3 * case_timeout), replay=replay_of(case, i)))
            elif rc2 != 0:
                t2 = tail(e2)
                res.violations.append(dict(key='slow' if rc2 == 1 else 'crash', msg='exit %s: %s\n%s' % (rc2, headline(t2), t2), replay=replay_of(case, i)))
            else:
                res.notes.append('one shard timed out but its case finished when re-run alone')
                res.truncated = True
            continue
        res.violations.append(dict(key='crash', msg='exit %s: %s\n%s' % (rc, headline(text), text), replay=replay_of(case, i)))
    res.runs.append(dict(program=run['prog'], workload=work, flavour=run['flavour'], cases=n, shards=nsh, wrap=' '.join(wrap)))


def cli_case(args):
    mod, prop, case_seed, env = args
    m = importlib.import_module('cli.' + mod)
    return m.case(prop, case_seed, env)


def run_cli(run, bins, prop, tier, seed, scratch, res):
    n = run[tier]
    env = dict(bins={k[0] + '/' + k[1]: v for k, v in bins.items()}, scratch=scratch, tier=tier, san=dict(os.environ, **SAN_ENV), zones=ZONES,
               work=run.get('work', prop))
    m = importlib.import_module('cli.' + run['cli'])
    seeds = [('directed', i) for i in range(m.directed(prop, env))] + \
            [('random', int.from_bytes(hashlib.sha256(('%s %s %d' % (env['work'], seed, i)).encode()).digest()[:6], 'big')) for i in range(n)]
    t0 = time.time()
    budget = run.get('budget', {}).get(tier, 90 if tier == 'quick' else 500)
    with cf.ProcessPoolExecutor(NCPU) as ex:
        block = 16 * NCPU
        for k in range(0, len(seeds), block):
            if time.time() - t0 > budget:
                res.truncated = True
                break
            chunk = seeds[k:k + block]
            for s, (ev, h, sample, viol) in zip(chunk, ex.map(cli_case, [(run['cli'], prop, s, env) for s in chunk], chunksize=2)):
                res.evaluations += 1
                for a, b in ev.items():
                    res.events[a] = res.events.get(a, 0) + b
                if h is not None:
                    res.hashes.add(h)
                if sample and len(res.samples) < 8:
                    res.samples.append(sample[:1500])
                for key, msg in viol:
                    res.violations.append(dict(key=key, msg=msg[:4000], replay=dict(kind='cli', module=run['cli'], prop=prop, work=env['work'], case=list(s), tier=tier)))
            if len(res.violations) > 20:
                break
    res.runs.append(dict(program=run['cli'], workload=env['work'], cases=len(seeds)))


def known_findings():
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding:'):
                f = dict(x.split('=', 1) for x in l.split()[1:3])
                out.append((f['property'], f['key'], l.split(None, 3)[3].strip()))
    return out


def wanted_of(runs):
    w = []
    for r in runs:
        if 'cli' in r:
            w += [tuple(x) for x in r['needs']]
        else:
            w.append((r['prog'], r['flavour']))
    return sorted(set(w), key=w.index)


def decide(prop, tier, seed):
    t0 = time.time()
    spec = CHECKS[prop]
    runs = [r for r in spec['runs'] if r.get(tier, 0)]
    b = Builder()
    bins = b.build(wanted_of(runs))
    tb = time.time() - t0
    os.makedirs(BUILD, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='run-%s-' % prop, dir=BUILD)
    res = Result()
    try:
        for r in runs:
            if 'cli' in r:
                run_cli(r, bins, prop, tier, seed, scratch, res)
            else:
                run_shards(r, bins[(r['prog'], r['flavour'])], prop, tier, seed, scratch, res)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    known = known_findings()
    real, seen = [], set()
    for v in res.violations:
        k = next((x for x in known if x[0] == prop and x[1] == v['key']), None)
        if k:
            seen.add(k)
        else:
            real.append(v)
    for k in seen:
        print('KNOWN-FINDING: property=%s %s: %s' % k)
    paths = {}
    os.makedirs(REPLAY, exist_ok=True)
    for v in real:
        if v['key'] in paths:
            continue
        path = os.path.join(REPLAY, '%s-%s.json' % (prop, hashlib.sha256((v['key'] + v['msg'][:200]).encode()).hexdigest()[:10]))
        json.dump(dict(property=prop, key=v['key'], msg=v['msg'], replay=v['replay']), open(path, 'w'), indent=1)
        paths[v['key']] = path
        print('# %s: %s' % (v['key'], v['msg'][:1500]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    ev = dict(property=prop, tier=tier, seed=seed, level=spec.get('level', 'exploration'),
              coverage=dict(evaluations=res.evaluations, distinct_nontrivial=len(res.hashes), rule=spec['rule'],
                            samples=res.samples or ['(no sample)'], observed_events=dict(sorted(res.events.items())),
                            runs=res.runs, stopped_by_time_budget=res.truncated, notes=res.notes,
                            known_findings_seen=[k[1] for k in sorted(seen)], build_s=round(tb, 1)),
              assumptions=spec.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(real))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', '.%s.%d' % (prop, os.getpid()))
    json.dump(ev, open(tmp, 'w'), indent=1)
    os.rename(tmp, os.path.join(VERIF, 'evidence', prop + '.json'))
    print('%s %s: %d evaluations, %d distinct non-trivial, %d violation(s), %.1f s (build %.1f s)' %
          (prop, tier, res.evaluations, len(res.hashes), len(real), time.time() - t0, tb))
    if not real and not seen and res.evaluations == 0:
        raise CheckError('nothing was evaluated: %s' % '; '.join(res.notes))
    return 1 if real else 0


def replay(path):
    r = json.load(open(path))
    rp = r['replay']
    b = Builder()
    scratch = tempfile.mkdtemp(prefix='replay-', dir=BUILD)
    try:
        if rp['kind'] == 'harness':
            bins = b.build([(rp['program'], rp['flavour'])])
            cmd = rp['wrap'] + [bins[(rp['program'], rp['flavour'])], '--prop', rp['work'], '--label', rp['label'], '--seed', str(rp['seed']),
                                '--case', rp['case'], '--case-timeout', '60', '--tmpdir', scratch] + (['--thorough'] if rp['tier'] == 'thorough' else [])
            return subprocess.run(cmd, env=dict(os.environ, TZ=rp.get('tz', 'UTC'), **SAN_ENV)).returncode
        run = next(x for x in CHECKS[rp['prop']]['runs'] if x.get('cli') == rp['module'] and x.get('work', rp['prop']) == rp['work'])
        bins = b.build([tuple(x) for x in run['needs']])
        env = dict(bins={k[0] + '/' + k[1]: v for k, v in bins.items()}, scratch=scratch, tier=rp['tier'], san=dict(os.environ, **SAN_ENV), zones=ZONES, work=rp['work'])
        viol = cli_case((rp['module'], rp['prop'], tuple(rp['case']), env))[3]
        for k, m in viol:
            print(k, m)
        return 1 if viol else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--build', action='store_true')
    a = ap.parse_args()
    os.makedirs(BUILD, exist_ok=True)
    try:
        if a.replay:
            return replay(a.replay)
        if a.build:
            Builder().build(sorted({w for c in CHECKS.values() for w in wanted_of(c['runs'])}))
            print('built')
            return 0
        return decide(a.id, a.tier, a.seed)
    except CheckError as e:
        print('CHECK-ERROR %s' % e)
        return 2


if __name__ == '__main__':
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
