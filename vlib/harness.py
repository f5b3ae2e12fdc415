"""Case runner: jobs, workers, verdicts, replays, evidence."""
import contextlib
import gc
import faulthandler
import hashlib
import importlib
import io
import json
import os
import random
import re
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
OUT = os.environ.get('VERIF_OUT', os.path.join(VERIF, '.work'))


class Violation(Exception):
    """key: stable mechanism name; msg: what happened."""

    def __init__(self, key, msg, **data):
        super().__init__(msg)
        self.key, self.msg, self.data = key, msg, data


class Skip(Exception):
    """This case is outside the domain (counted, not evaluated)."""


SLOW = 200      # seconds a quick worker may take at most if it was planned to take less


class CaseTimeout(BaseException):
    pass


class Job:
    def __init__(self, fn, quick, thorough=None, variant=None, shards=4, env=None, time_quick=60, time_thorough=None,
                 case_timeout=90, preload=None, catch=True, variants=()):
        self.fn, self.quick = fn, quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.variant, self.shards, self.env = variant, shards, env or {}
        self.time_quick = time_quick
        self.time_thorough = time_thorough if time_thorough is not None else 700
        self.case_timeout = case_timeout
        self.preload = preload
        self.catch = catch


class Ctx:
    """What a case function gets."""

    def __init__(self, tier, seed, job, shard):
        self.tier, self.seed, self.job, self.shard = tier, seed, job, shard
        self.counts = {}
        self.sigs = set()
        self.samples = []
        self.viol = []
        self.cur = None
        self.desc = None

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sig(self, *parts):
        """Record a signature of a non-trivial observation."""
        self.sigs.add(hashlib.sha256(repr(parts).encode()).hexdigest()[:16])

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj)

    def describe(self, obj):
        self.desc = obj

    def violation(self, key, msg, **data):
        if len(self.viol) < 200:
            self.viol.append(dict(key=key, msg=str(msg)[:3000], case=self.cur, desc=self.desc, data=_jsonable(data)))
        self.count('violations_seen')

    def check(self, cond, key, msg, **data):
        self.count('oracle_checks')
        if not cond:
            raise Violation(key, msg() if callable(msg) else msg, **data)


def _jsonable(x):
    try:
        json.dumps(x)
        return x
    except TypeError:
        return repr(x)[:4000]


def case_rng(seed, prop, job, shard, idx):
    return random.Random('%s/%s/%s/%s/%s' % (seed, prop, job, shard, idx))


def _from_repo(tb):
    """Does the traceback pass through the code under test?"""
    last = None
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if os.path.abspath(fn).startswith(os.path.join(os.path.abspath(REPO), 'projectq')):
            last = '%s:%s' % (os.path.basename(fn), tb.tb_frame.f_code.co_name)
        tb = tb.tb_next
    return last


# ----------------------------------------------------------------------------------------------------------- worker
def worker(argv):
    a = json.loads(argv[0])
    prop, jobname, shard, nshards, tier, seed = a['prop'], a['job'], a['shard'], a['nshards'], a['tier'], a['seed']
    outdir = a['out']
    sys.setrecursionlimit(3000)
    from . import boot

    boot.boot(a.get('so'))
    scratch = os.path.join(outdir, 'cwd-%s-%s' % (jobname, shard))
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    mod = importlib.import_module('checks.' + prop.lower())
    job = mod.JOBS[jobname]
    ctx = Ctx(tier, seed, jobname, shard)
    n = job.quick if tier == 'quick' else job.thorough
    limit = job.time_quick if tier == 'quick' else job.time_thorough
    curf = open(os.path.join(outdir, 'cur-%s-%s' % (jobname, shard)), 'w')
    harness_errors = []
    done = skipped = 0
    t0 = time.monotonic()

    def on_alarm(sig, frm):
        raise CaseTimeout()

    signal.signal(signal.SIGALRM, on_alarm)
    only = a.get('only')
    idxs = [only] if only is not None else range(shard, n, nshards)
    for idx in idxs:
        if only is None and time.monotonic() - t0 > limit:
            # a slow or busy machine gets more time, as long as the whole check stays within its own
            if tier != 'quick' or time.monotonic() - t0 > SLOW or time.time() > a.get('deadline', 0):
                break
        ctx.cur, ctx.desc = idx, None
        curf.seek(0)
        curf.write('%s %.3f\n' % (idx, time.time()))
        curf.flush()
        rng = case_rng(seed, prop, jobname, 0, idx)
        signal.alarm(job.case_timeout)
        buf = io.StringIO()
        try:
            with contextlib.redirect_stdout(buf):
                job.fn(ctx, rng, idx)
            done += 1
        except Skip:
            skipped += 1
        except Violation as v:
            done += 1
            ctx.violation(v.key, v.msg, **v.data)
        except CaseTimeout:
            done += 1
            tb = traceback.format_exc()
            ctx.violation('no-progress', 'the case did not finish within %d s (cases normally take well under a second)\n%s'
                          % (job.case_timeout, tb[-1500:]))
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:
            done += 1
            where = _from_repo(e.__traceback__)
            tb = traceback.format_exc()
            if where and job.catch:
                ctx.violation('unexpected-%s@%s' % (type(e).__name__, where),
                              'valid use raised %s: %s' % (type(e).__name__, e), tb=tb[-2500:])
            else:
                harness_errors.append('case %s: %s' % (idx, tb[-2500:]))
                if len(harness_errors) > 5:
                    break
        finally:
            signal.alarm(0)
        # engines a case leaves behind flush themselves when they are collected: let that happen now and not inside of a later case
        with contextlib.redirect_stdout(buf):
            gc.collect()
        if done + skipped in (3, 30):
            gc.freeze()
    if hasattr(mod, 'finish') and only is None:
        mod.finish(ctx)
    res = dict(done=done, skipped=skipped, counts=ctx.counts, sigs=sorted(ctx.sigs), samples=_jsonable(ctx.samples),
               viol=ctx.viol, harness_errors=harness_errors, wall=time.monotonic() - t0, planned=len(list(idxs)))
    with open(os.path.join(outdir, 'res-%s-%s.json' % (jobname, shard)), 'w') as f:
        json.dump(res, f, default=str)
    curf.close()
    sys.stdout.flush()
    # skip interpreter teardown: exit hooks of half-finished engines are not part of any property here
    os._exit(0)


# ----------------------------------------------------------------------------------------------------------- parent
def known_findings(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['known'] if k['property'] == prop]


def load_static(prop):
    """Job table without importing projectq in the parent: checks modules keep imports inside functions or are
    imported in a child that prints the table."""
    code = ("import sys,json;sys.path.insert(0,%r)\nfrom vlib import boot\nboot.boot(None)\nimport importlib\n"
            "m=importlib.import_module('checks.%s')\n"
            "print('@@'+json.dumps(dict(jobs={k:dict(quick=j.quick,thorough=j.thorough,variant=j.variant,shards=j.shards,"
            "env=j.env,tq=j.time_quick,tt=j.time_thorough,ct=j.case_timeout,preload=j.preload) for k,j in m.JOBS.items()},"
            "min=getattr(m,'MIN',{}),rule=m.RULE,level=getattr(m,'LEVEL','exploration'),"
            "assumptions=getattr(m,'ASSUMPTIONS',[]),log=bool(getattr(m,'classify_log',None)))))" % (VERIF, prop.lower()))
    r = subprocess.run([PY, '-c', code], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=base_env())
    for line in r.stdout.splitlines():
        if line.startswith('@@'):
            return json.loads(line[2:]), None
    return None, r.stdout[-2000:] + r.stderr[-4000:]


def base_env(extra=None):
    e = dict(os.environ)
    e.update(OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
             PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore', MPLCONFIGDIR=os.path.join(OUT, 'mpl'))
    e['PYTHONPATH'] = VERIF
    e.pop('LD_PRELOAD', None)
    e.update(extra or {})
    return e


def case_started(outdir, name, s):
    """(number, time) of the case a worker is busy with"""
    try:
        with open(os.path.join(outdir, 'cur-%s-%s' % (name, s))) as f:
            a, b = f.read().split()[:2]
            return int(a), float(b)
    except (OSError, ValueError):
        return None


CRASH_SIGNALS = {signal.SIGSEGV, signal.SIGABRT, signal.SIGILL, signal.SIGFPE, signal.SIGBUS}


def run_check(prop, replay=None):
    t0 = time.monotonic()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    import shutil

    outdir = os.path.join(OUT, '%s-%s-%d' % (prop, tier, os.getpid()))
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    evdir = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
    os.makedirs(evdir, exist_ok=True)
    rpdir = os.path.join(OUT, 'replays')
    os.makedirs(rpdir, exist_ok=True)
    try:
        return _run_check(prop, replay, tier, seed, outdir, evdir, rpdir, t0)
    finally:
        shutil.rmtree(outdir, ignore_errors=True)


def _run_check(prop, replay, tier, seed, outdir, evdir, rpdir, t0):
    from . import native

    meta, err = load_static(prop)
    if meta is None:
        # the code under test cannot even be imported, or the harness is broken
        print('ERROR: cannot load check %s\n%s' % (prop, err))
        return 3
    only = None
    jobs = meta['jobs']
    if replay:
        rp = json.load(open(replay))
        seed, tier, only = rp['seed'], rp['tier'], rp['case']
        jobs = {rp['job']: jobs[rp['job']]}
    jobsel = os.environ.get('VERIF_JOBS')
    if jobsel:
        jobs = {k: v for k, v in jobs.items() if k in jobsel.split(',')}
    # build
    variants = sorted({j['variant'] for j in jobs.values() if j['variant']})
    sos = {None: None}
    if variants:
        from concurrent.futures import ThreadPoolExecutor

        try:
            with ThreadPoolExecutor(4) as ex:
                for v, so in zip(variants, ex.map(native.ensure, variants)):
                    sos[v] = so
        except native.BuildError as e:
            print('ERROR: native build failed\n%s' % e)
            return 3
        native.prune()
    tb = time.monotonic() - t0
    # launch
    todo = []
    for name, j in jobs.items():
        ns = 1 if only is not None else max(1, j['shards'])
        for s in range(ns):
            todo.append((name, s, ns))
    running, results, problems, crashes = [], {}, [], []
    deadline = time.time() - (time.monotonic() - t0) + 500
    maxpar = int(os.environ.get('VERIF_PAR', '8'))
    todo_q = list(todo)
    while todo_q or running:
        while todo_q and len(running) < maxpar:
            name, s, ns = todo_q.pop(0)
            j = jobs[name]
            a = dict(prop=prop, job=name, shard=s, nshards=ns, tier=tier, seed=seed, out=outdir, so=sos[j['variant']], only=only, deadline=deadline)
            env = base_env(j['env'])
            logp = os.path.join(outdir, 'san-%s-%s' % (name, s))
            if j['preload']:
                pre = j['preload']
                cxx = 'clang++' if 'clang_rt' in pre else 'g++'
                libs = [subprocess.run([cxx, '-print-file-name=' + p], stdout=subprocess.PIPE, text=True).stdout.strip() for p in pre.split(',')]
                env['LD_PRELOAD'] = ' '.join(os.path.realpath(p) for p in libs)
                env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:log_path=%s:handle_segv=1:detect_odr_violation=0' % logp
                env['ASAN_OPTIONS'] += (':' + env['EXTRA_ASAN']) if env.get('EXTRA_ASAN') else ''
                env['UBSAN_OPTIONS'] = 'print_stacktrace=1:halt_on_error=1:exitcode=66:log_path=%s' % logp
                env['TSAN_OPTIONS'] = 'halt_on_error=0:exitcode=66:report_bugs=1:ignore_noninstrumented_modules=0:log_path=%s' % logp
                env['PYTHONMALLOC'] = 'malloc'
            o = open(os.path.join(outdir, 'log-%s-%s' % (name, s)), 'w')
            p = subprocess.Popen([PY, '-X', 'faulthandler', '-m', 'vlib.worker', json.dumps(a)], stdout=o, stderr=subprocess.STDOUT, env=env, cwd=VERIF)
            running.append((p, name, s, time.monotonic()))
        time.sleep(0.05)
        still = []
        for p, name, s, st in running:
            rc = p.poll()
            if rc is None:
                j = jobs[name]
                cap = (max(SLOW, j['tq']) if tier == 'quick' else j['tt']) + j['ct'] + 120
                since = case_started(outdir, name, s)
                if since and time.time() - since[1] > j['ct'] + 40:
                    # the alarm inside of the worker (after ct seconds) had no effect: it does not return from native code
                    p.send_signal(signal.SIGABRT)
                    try:
                        p.wait(5)
                    except subprocess.TimeoutExpired:
                        p.kill()
                        p.wait()
                    log = open(os.path.join(outdir, 'log-%s-%s' % (name, s))).read()
                    crashes.append(dict(key='no-progress-native', msg='case %d did not return from native code within %d s (cases normally take well under a second)\n%s'
                                        % (since[0], j['ct'] + 40, log[-1500:]), case=since[0], job=name, desc=None, data={}))
                    todo_q = []
                elif time.monotonic() - st > cap:
                    p.kill()
                    p.wait()
                    problems.append('worker %s/%s exceeded its wall clock (%d s)' % (name, s, cap))
                else:
                    still.append((p, name, s, st))
                continue
            rf = os.path.join(outdir, 'res-%s-%s.json' % (name, s))
            log = open(os.path.join(outdir, 'log-%s-%s' % (name, s))).read()
            if rc == 0 and os.path.exists(rf):
                results[(name, s)] = json.load(open(rf))
            else:
                cur = open(os.path.join(outdir, 'cur-%s-%s' % (name, s))).read().split() if os.path.exists(os.path.join(outdir, 'cur-%s-%s' % (name, s))) else []
                case = int(cur[0]) if cur else None
                san = sanitizer_logs(outdir, name, s)
                if rc < 0 and -rc in CRASH_SIGNALS or rc == 66 or san:
                    crashes.append(dict(key=crash_key(rc, san, log), msg='worker died (exit %s) in case %s\n%s' % (rc, case, (san or log)[-3500:]), case=case, job=name, desc=None, data={}))
                    # continue the shard past the crashing case
                    done = load_partial(outdir, name, s)
                    if only is None and case is not None and len(crashes) < 12:
                        pass
                else:
                    problems.append('worker %s/%s failed (exit %s)\n%s' % (name, s, rc, log[-3000:]))
        running = still
    # races found without dying
    for name, s, ns in todo:
        if (name, s) in results:
            san = sanitizer_logs(outdir, name, s)
            if san:
                for rep in split_reports(san):
                    crashes.append(dict(key=crash_key(66, rep, ''), msg=rep[:3500], case=None, job=name, desc=None, data={}))
    # aggregate
    counts, sigs, samples, viol, done, skipped, herr = {}, set(), [], [], 0, 0, []
    for (name, s), r in results.items():
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
        sigs |= {name + x for x in r['sigs']}
        samples += r['samples'][:2] if len(samples) < 8 else []
        for v in r['viol']:
            v['job'] = name
            viol.append(v)
        done += r['done']
        skipped += r['skipped']
        herr += r['harness_errors']
    viol += crashes
    kf = known_findings(prop)
    new, known = [], {}
    for v in viol:
        m = next((k for k in kf if re.fullmatch(k['key'], v['key'])), None)
        if m:
            known.setdefault(m['key'], (m, v))
        else:
            new.append(v)
    wall = time.monotonic() - t0
    inconclusive = []
    if only is None:
        for k, n in meta['min'].items():
            if counts.get(k, 0) < n and not jobsel:
                inconclusive.append('%s observed only %d times (needs %d)' % (k, counts.get(k, 0), n))
        if done == 0:
            inconclusive.append('no case ran')
    cov = dict(evaluations=done, distinct_nontrivial=len(sigs), rule=meta['rule'], samples=samples[:8] or ['none'],
               monitors=counts, skipped_cases=skipped, build_s=round(tb, 1), jobs={'%s/%s' % k: r['done'] for k, r in results.items()},
               known_findings_seen=sorted(known), problems=problems[:5])
    ev = dict(property=prop, tier=tier, seed=seed, level=meta['level'], coverage=cov, assumptions=meta['assumptions'],
              wall_s=round(wall, 2), violations=len(new))
    if only is None:
        with open(os.path.join(evdir, prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s tier=%s seed=%d: %d cases, %d distinct non-trivial, %.1f s (build %.1f s)' % (prop, tier, seed, done, len(sigs), wall, tb))
    print('  observed: ' + ', '.join('%s=%d' % kv for kv in sorted(counts.items())))
    for key, (m, v) in sorted(known.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, m['what']))
    if new:
        bykey = {}
        for v in new:
            bykey.setdefault(v['key'], []).append(v)
        for key, vs in sorted(bykey.items()):
            v = vs[0]
            name = re.sub(r'[^A-Za-z0-9_.-]+', '_', key)[:60]
            path = os.path.join(rpdir, '%s-%s.json' % (prop, name))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, job=v['job'], case=v['case'], seed=seed, tier=tier, key=key, msg=v['msg'], desc=_jsonable(v['desc']),
                               data=v['data'], times=len(vs)), f, indent=1)
            print('--- %s (%d times): %s' % (key, len(vs), v['msg'][:1500]))
            if v['desc'] is not None:
                print('    case: %s' % (str(v['desc'])[:1500]))
            if v['data']:
                print('    data: %s' % (str(v['data'])[:1800]))
            print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if problems or herr or inconclusive:
        for x in (problems + herr + inconclusive)[:8]:
            print('INCONCLUSIVE: ' + x)
        return 3
    return 0


def load_partial(outdir, name, s):
    return None


def sanitizer_logs(outdir, name, s):
    out = ''
    pre = 'san-%s-%s.' % (name, s)
    for f in sorted(os.listdir(outdir)):
        if f.startswith(pre):
            out += open(os.path.join(outdir, f), errors='replace').read()
    return out


def split_reports(text):
    parts = re.split(r'={18,}\n', text)
    return [p for p in parts if 'WARNING: ThreadSanitizer' in p or 'ERROR: ' in p or 'runtime error' in p]


def crash_key(rc, san, log):
    m = re.search(r'SUMMARY: (\w+Sanitizer): (\S+) .*? in (?:void |bool )?([A-Za-z_:~]+)', san or '')
    if m:
        return 'sanitizer-%s-%s' % (m.group(2), m.group(3).split('::')[-1])
    m = re.search(r'SUMMARY: (\w+Sanitizer): (.{0,60})', san or '')
    if m:
        return 'sanitizer-' + re.sub(r'\W+', '-', m.group(2))[:50]
    m = re.search(r'(\w+\.hpp):\d+:\d+: runtime error: (.{0,40})', san or '')
    if m:
        return 'ub-%s-%s' % (m.group(1), re.sub(r'[\d\W]+', '-', m.group(2)))
    return 'crash-signal-%s' % (-rc)


def main(argv):
    prop = argv[0]
    replay = argv[argv.index('--replay') + 1] if '--replay' in argv else None
    if replay:
        return run_check(prop, replay)
    return run_check(prop)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
