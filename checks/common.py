"""Shared machinery of the checks: running TLC (exhaustive, simulation, trace validation), running the drivers,
reporting and evidence."""
import json, os, re, subprocess, sys, tempfile, time, shutil, random, hashlib, signal
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, 'spec')
sys.path.insert(0, os.path.join(VERIF, 'harness'))
import build
from build import BuildError

TLA = '/opt/veriftools/tla'
NCPU = min(8, os.cpu_count() or 1)

class CheckError(Exception):
    """Something is wrong with the check itself: neither a pass nor a violation."""

def log(*a):
    print(*a, flush=True)

def tlaval(v):
    """Python value as a TLA+ constant in a cfg file."""
    if isinstance(v, bool): return 'TRUE' if v else 'FALSE'
    if isinstance(v, int): return str(v)
    if isinstance(v, str): return '"%s"' % v
    if isinstance(v, (set, frozenset)): return '{' + ', '.join(tlaval(x) for x in sorted(v, key=str)) + '}'
    raise ValueError(v)

def cfg_text(spec, consts=None, subst=None, invariants=(), properties=(), constraint=(), action_constraint=(), view=None,
             post=None, deadlock=False):
    t = ['SPECIFICATION ' + spec]
    if consts or subst:
        t.append('CONSTANTS')
        for k, v in (consts or {}).items(): t.append('  %s = %s' % (k, tlaval(v)))
        for k, v in (subst or {}).items(): t.append('  %s <- %s' % (k, v))
    for i in invariants: t.append('INVARIANT ' + i)
    for i in properties: t.append('PROPERTY ' + i)
    for i in constraint: t.append('CONSTRAINT ' + i)
    for i in action_constraint: t.append('ACTION_CONSTRAINT ' + i)
    if view: t.append('VIEW ' + view)
    if post: t.append('POSTCONDITION ' + post)
    t.append('CHECK_DEADLOCK ' + ('TRUE' if deadlock else 'FALSE'))
    return '\n'.join(t) + '\n'

class TLC:
    def __init__(self, rc, out, wall):
        self.rc, self.out, self.wall = rc, out, wall
        m = re.findall(r'^(\d[\d,]*) states generated, (\d[\d,]*) distinct states found', out, re.M)
        n = lambda s: int(s.replace(',', ''))
        self.generated, self.distinct = (n(m[-1][0]), n(m[-1][1])) if m else (0, 0)
        if not m:
            m = re.findall(r'number of states generated: ([\d,]+)', out)
            if m: self.generated = n(m[-1])
        self.scripts = re.findall(r'^"SCRIPT (.*)"$', out, re.M)
        self.rejects = re.findall(r'^"REJECT line (\d+) (.*)"$', out, re.M)

def unescape(s):
    """A string as TLC prints it -> the string."""
    return re.sub(r'\\(.)', lambda m: {'n': '\n', 't': '\t', 'r': '\r', 'f': '\f'}.get(m[1], m[1]), s)

def tlc(ctx, module, cfg, args=(), env=None, workers=1, heap='2g', timeout=600, tag=None):
    d = tempfile.mkdtemp(prefix='tlc-', dir=ctx.work)
    cfgp = os.path.join(d, module + '.cfg')
    open(cfgp, 'w').write(cfg)
    cmd = ['java', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2', '-XX:TieredStopAtLevel=%d' % (4 if heap != '1g' else 4), '-Xmx' + heap, '-Xss64m',
           '-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet' if False else '-Dx=1',
           '-cp', TLA + '/tla2tools.jar:' + TLA + '/CommunityModules-deps.jar', 'tlc2.TLC',
           '-noGenerateSpecTE', '-metadir', os.path.join(d, 'states'), '-workers', str(workers), '-config', cfgp] + list(args) + [os.path.join(SPEC, module + '.tla')]
    e = dict(os.environ); e.update(env or {}); e.pop('JAVA_TOOL_OPTIONS', None)
    t0 = time.time()
    outp = os.path.join(d, 'out')
    with open(outp, 'w') as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=d, env=e, start_new_session=True)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); p.wait()
            raise CheckError('TLC did not finish in %d s: %s %s' % (timeout, module, tag))
    out = open(outp, errors='replace').read()
    shutil.rmtree(d, ignore_errors=True)
    return TLC(rc, out, time.time() - t0)

class Ctx:
    def __init__(self, prop, level='model_checking'):
        self.prop = prop
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'): self.tier = 'quick'
        try: self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError: self.seed = 1
        self.rng = random.Random('%s-%d' % (prop, self.seed))
        self.t0 = time.time()
        os.makedirs(build.BUILD, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix='work-%s-' % prop, dir=build.BUILD)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], models={}, events=0)
        self.assumptions = []
        self.violations = []
        self.known = []
        self.level = level
        self.exhaustive = None

    @property
    def quick(self): return self.tier == 'quick'

    def sub(self, n):
        """A seed for a part of the run."""
        return int(hashlib.sha256(('%s-%d-%s' % (self.prop, self.seed, n)).encode()).hexdigest()[:8], 16) % (2 ** 31 - 1)

    def violation(self, data):
        """data: what to replay."""
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%d.json' % (self.prop, len(self.violations) + 1))
        json.dump(data, open(p, 'w'), indent=1)
        self.violations.append(p)
        log('VIOLATION property=%s replay=%s' % (self.prop, p))

    def finish(self):
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov,
                  wall_s=round(time.time() - self.t0, 2), violations=len(self.violations), assumptions=self.assumptions)
        if self.exhaustive is not None: ev['coverage']['exhaustive'] = self.exhaustive
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, '.%s.tmp' % self.prop)
        json.dump(ev, open(tmp, 'w'), indent=1)
        os.rename(tmp, os.path.join(d, self.prop + '.json'))
        shutil.rmtree(self.work, ignore_errors=True)

# ---------------------------------------------------------------- models

def model_check(ctx, name, module, cfg, workers=2, timeout=600, heap='3g', args=()):
    """Exhaustive check of a bounded model; the model does not depend on the code, so a failure is an error of the check."""
    r = tlc(ctx, module, cfg, workers=workers, timeout=timeout, heap=heap, tag=name, args=args)
    if 'No error has been found' not in r.out:
        i = max(0, r.out.find('Error:'))
        raise CheckError('model %s fails its own properties:\n%s' % (name, '\n'.join(x for x in r.out[i:].splitlines() if not x.startswith('"SCRIPT'))[:5000]))
    return name, r

def must_fail(ctx, name, module, cfg):
    """A control: a model that is known to be wrong."""
    r = tlc(ctx, module, cfg, workers=2, timeout=600, tag=name)
    if 'is violated' not in r.out:
        raise CheckError('control %s is not found to be wrong:\n%s' % (name, r.out[-3000:]))
    ctx.cov['models'][name] = dict(control='violated, as it should be', wall_s=round(r.wall, 1))

def collect(ctx, results):
    """Account for finished models; returns their scripts (lists of operations) by name."""
    out = {}
    for name, r in results:
        ctx.cov['states'] += r.distinct
        ctx.cov['transitions'] += r.generated
        ctx.cov['models'][name] = dict(distinct=r.distinct, generated=r.generated, wall_s=round(r.wall, 1))
        out[name] = [json.loads(unescape(s)) for s in r.scripts]
    return out

def simulate(ctx, name, module, cfg, num, depth, seed, timeout=600, heap='2g'):
    """Random behaviours of the model; scripts are printed by the model when they have their full length."""
    r = tlc(ctx, module, cfg, args=['-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(seed)], timeout=timeout, heap=heap, tag=name)
    if r.rc != 0 and 'Error:' in r.out:
        i = r.out.find('Error:')
        i = max(0, i - 1500)
        raise CheckError('simulation %s fails:\n%s' % (name, '\n'.join(x for x in r.out[i:].splitlines() if not x.startswith('"SCRIPT'))[:5000]))
    return name, r

def maximal(scripts):
    """Drop scripts that are a proper prefix of another one (and duplicates)."""
    keys = sorted(set(json.dumps(s, sort_keys=True)[:-1] for s in scripts))     # without the closing bracket
    out = []
    for i, k in enumerate(keys):
        j = i + 1
        if j < len(keys) and (keys[j].startswith(k + ',') ):
            continue
        out.append(json.loads(k + ']'))
    return out

def parallel(jobs, n=NCPU):
    """Run thunks, keep order; the first exception is raised."""
    with ThreadPoolExecutor(n) as ex:
        fs = [ex.submit(j) for j in jobs]
        return [f.result() for f in fs]

# ---------------------------------------------------------------- traces

def run_driver(ctx, exe, scripts, tag, timeout=10, env=None, wrap=(), limit=1500, cwd=None):
    """Run the driver on these scripts; returns the path of the trace."""
    d = tempfile.mkdtemp(prefix='run-', dir=ctx.work)
    sp, tp = os.path.join(d, 'scripts'), os.path.join(d, 'trace')
    with open(sp, 'w') as f:
        for s in scripts: f.write(json.dumps(s) + '\n')
    e = dict(os.environ)
    for k in list(e):
        if k.startswith('LIBCWD'): e.pop(k)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=55:allocator_may_return_null=1:detect_stack_use_after_return=0'
    e['TSAN_OPTIONS'] = 'exitcode=66:halt_on_error=1:report_signal_unsafe=0'
    e['HOME'] = d
    e.update(env or {})
    with open(os.path.join(d, 'err'), 'w') as err:
        p = subprocess.Popen(list(wrap) + [exe, sp, tp, str(timeout)], stdout=err, stderr=err, stdin=subprocess.DEVNULL, cwd=cwd or d, env=e, start_new_session=True)
        try:
            rc = p.wait(limit)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); p.wait()
            raise CheckError('driver did not finish: ' + tag)
    if rc != 0:
        raise CheckError('driver failed (%d): %s\n%s' % (rc, exe, open(os.path.join(d, 'err'), errors='replace').read()[-2000:]))
    return tp, open(os.path.join(d, 'err'), errors='replace').read()

def split_runs(path):
    """The runs in a trace: list of lists of lines."""
    runs = []
    for line in open(path, errors='replace'):
        if line.startswith('{"e":"Reset"'): runs.append([])
        if runs: runs[-1].append(line)
    return runs

def validate(ctx, module, cfg, trace, timeout=600, heap='2g'):
    """None if the trace is accepted, else (line number, explanation)."""
    n = sum(1 for _ in open(trace))
    if n == 0: raise CheckError('empty trace')
    r = tlc(ctx, module, cfg, env={'TRACE': trace}, timeout=timeout, heap=heap, tag='trace')
    if 'No error has been found' in r.out:
        m = re.search(r'The depth of the complete state graph search is (\d+)', r.out)
        return None
    if r.rejects:
        line, why = max(r.rejects, key=lambda x: int(x[0]))
        return int(line), unescape(why)
    m = re.search(r'The depth of the complete state graph search is (\d+)', r.out)
    if m and 'POSTCONDITION' in r.out.upper():
        return int(m[1]), 'no action of the specification matches'
    raise CheckError('TLC failed on a trace:\n' + r.out[-4000:])

def replay(ctx, exe, scripts, module, cfg, timeout=10, shards=NCPU, env=None, chunk=400, tag='', wrap=(), max_report=3, per_run=None, info=None, retries=3):
    """Run scripts on the implementation and validate the traces against the specification.
    Each chunk is one driver process and one TLC process."""
    for i, s in enumerate(scripts): s['id'] = i
    size = max(1, min(chunk, (len(scripts) + shards - 1) // shards))
    parts = [scripts[i:i + size] for i in range(0, len(scripts), size)]
    bad = []
    def one(part):
        if len(bad) >= max_report: return
        trace, err = run_driver(ctx, exe, part, tag, timeout=timeout, env=env, wrap=wrap)
        todo = part
        first = True
        while todo and len(bad) < max_report:
            rej = validate(ctx, module, cfg, trace)
            runs = split_runs(trace)
            if first:
                ctx.cov['events'] += sum(len(r) for r in runs)
                ctx.cov['traces_validated_against_impl'] += len(runs)
                first = False
            if rej is None:
                if len(runs) < len(todo):
                    raise CheckError('the driver ran %d of %d scripts' % (len(runs), len(todo)))
                return
            line, why = rej
            k, at = 0, 0
            for k, r in enumerate(runs):
                if line <= at + len(r): break
                at += len(r)
            script = todo[k]
            # Only report what repeats.
            for _ in range(retries):
                again = run_driver(ctx, exe, [script], tag, timeout=timeout, env=env, wrap=wrap)
                rej2 = validate(ctx, module, cfg, again[0])
                if rej2 is not None: break
            if rej2 is None:
                log('NOTE: script %s was rejected once (%s) but not when it was repeated' % (script['id'], why))
            else:
                lines = split_runs(again[0])[0]
                bad.append(dict(property=ctx.prop, module=module, driver=os.path.basename(exe), script=script, line=rej2[0], why=rej2[1],
                                first_why=why, event=(lines[rej2[0] - 1] if rej2[0] - 1 < len(lines) else None), trace=lines, stderr=again[1][-3000:], env=env or {}))
            todo = todo[k + 1:]
            rest = runs[k + 1:]
            if not rest: return
            with open(trace, 'w') as f:
                for r in rest: f.writelines(r)
    parallel([lambda p=p: one(p) for p in parts], shards)
    for b in bad[:max_report]:
        ctx.violation(b)
        log('  ' + (b['why'] or '')[:600])
        log('  event: ' + (b['event'] or '')[:600].strip())
    if scripts and len(ctx.cov['samples']) < 3:
        ctx.cov['samples'].append(json.dumps(scripts[len(scripts) // 2])[:1500])
    return not bad

def main(prop, fn):
    ctx = Ctx(prop)
    try:
        fn(ctx)
        # Also with the consistency checks of the library itself compiled in (debug objects must be global then).
        if not ctx.quick and not ctx.violations and prop != 'C11':
            kept = {k: ctx.cov[k] for k in ('states', 'transitions')}
            models = dict(ctx.cov['models'])
            tier, ctx.tier, build.PLAIN = ctx.tier, 'quick', 'checked'
            fn(ctx)
            ctx.tier, build.PLAIN = tier, 'plain'
            ctx.cov.update(kept, models=models)
    except BuildError as e:
        log('BUILD FAILED\n' + str(e)); shutil.rmtree(ctx.work, ignore_errors=True); sys.exit(3)
    except CheckError as e:
        log('CHECK ERROR: ' + str(e)); shutil.rmtree(ctx.work, ignore_errors=True); sys.exit(2)
    except BaseException:
        shutil.rmtree(ctx.work, ignore_errors=True)
        raise
    for k in ctx.known: log('KNOWN-FINDING: property=%s %s' % (prop, k))
    ctx.finish()
    c = ctx.cov
    log('%s: %s, %s states, %s transitions, %s runs validated, %.1f s' % (prop, 'VIOLATED' if ctx.violations else 'held', c.get('states'), c.get('transitions'), c.get('traces_validated_against_impl'), time.time() - ctx.t0))
    sys.exit(1 if ctx.violations else 0)
