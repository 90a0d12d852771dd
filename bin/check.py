#!/usr/bin/env python3
"""check.py PROPERTY: builds the harness against /repo's working tree, runs the
property's workloads under their monitors and decides.

Exit 0: held on everything observed. Exit 1 with a VIOLATION line: broken.
Exit 2: no verdict (does not build, machine trouble)."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
GO = '/opt/veriftools/go1.27.3/bin/go'
sys.path.insert(0, os.path.join(VERIF, 'bin'))
from plan import PLAN  # noqa: E402

T0 = time.time()
prop = sys.argv[1]
tier = os.environ.get('VERIF_TIER', 'quick')
if tier not in ('quick', 'thorough'):
    tier = 'quick'
try:
    seed = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    seed = 1
plan = PLAN[prop]
EVID = os.path.join(VERIF, 'evidence')
os.makedirs(EVID, exist_ok=True)
scratch = tempfile.mkdtemp(prefix='vh-%s-' % prop)
TIMEOUT = 420 if tier == 'quick' else 3000


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def env():
    e = {k: v for k, v in os.environ.items() if not k.startswith('GO')}
    gp = os.path.join(scratch, 'gp')
    e.update(PATH=os.path.dirname(GO) + ':/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin',
             HOME=os.environ.get('HOME', '/root'), GOTOOLCHAIN='local', GO111MODULE='off', GOPROXY='off',
             GOFLAGS='', GOWORK='off', GOENV='off', GOPATH=gp + ':' + os.path.join(VERIF, 'harness'),
             GOCACHE=cache, TZ='UTC')
    return e


# Build products go to a cache of our own, outside /repo and /opt/vp. It is only
# a cache: when it is not there it is filled again.
cache = os.environ.get('VERIF_GOCACHE') or os.path.join(VERIF, '.cache', 'gocache')


def prepare():
    src = os.path.join(scratch, 'gp', 'src', 'github.com', 'Symantec')
    os.makedirs(src)
    os.symlink(REPO, os.path.join(src, 'tricorder'))
    if not os.path.isdir(cache):
        os.makedirs(os.path.dirname(cache), exist_ok=True)
        tmp = tempfile.mkdtemp(dir=os.path.dirname(cache))
        if os.path.isdir('/opt/vp/gocache'):
            subprocess.run(['cp', '-a', '/opt/vp/gocache/.', tmp])
        try:
            os.rename(tmp, cache)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)


def build(kind):
    out = os.path.join(scratch, 'vh-' + kind)
    cmd = [GO, 'build', '-o', out]
    if kind == 'race':
        cmd.append('-race')
        base = os.path.join(scratch, 'gp', 'src', 'github.com', 'Symantec', 'tricorder', 'go')
        odir = os.path.join(scratch, 'instr')
        os.makedirs(odir)
        tool = os.path.join(scratch, 'vinstr')
        overlay = os.path.join(scratch, 'overlay.json')
        r = subprocess.run([GO, 'build', '-o', tool, 'vinstr'], env=env(), capture_output=True, text=True, cwd=scratch)
        if r.returncode == 0:
            with open(overlay, 'w') as f:
                r = subprocess.run([tool, odir, base + '/tricorder', base + '/healthserver'], stdout=f, env=env())
        if r.returncode == 0:
            r = subprocess.run(cmd + ['-overlay', overlay, 'vharness'], env=env(), capture_output=True, text=True, cwd=scratch)
            if r.returncode == 0:
                return out, None, True
        log('instrumented build failed, building without injected yields:\n' + (r.stderr or ''))
    r = subprocess.run(cmd + ['vharness'], env=env(), capture_output=True, text=True, cwd=scratch)
    if r.returncode != 0:
        return None, r.stderr, False
    return out, None, False


def build_commands(kind):
    """Builds the programs of the repository themselves."""
    out = os.path.join(scratch, 'cmds-' + kind)
    os.makedirs(out)
    for name in plan['commands']:
        r = subprocess.run([GO, 'build', '-o', os.path.join(out, name)] + (['-race'] if kind == 'race' else []) +
                           ['github.com/Symantec/tricorder/go/' + name], env=env(), capture_output=True, text=True, cwd=scratch)
        if r.returncode != 0:
            return r.stderr
    return None


# The programs use a fixed port: each runs in a network of its own where the
# machine allows that, and one after another where it does not.
UNSHARE = ['unshare', '-Urn']
netns = False


def known_signatures():
    res = {}
    try:
        for line in open(os.path.join(VERIF, 'known_findings.txt')):
            m = re.match(r'finding: property=(\S+) sig=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3).strip()
    except OSError:
        pass
    return res


KNOWN = known_signatures()


def run_one(job):
    kind, shard, nsh, cpus, yrate, srate = job
    name = '%s-%d' % (kind, shard)
    out = os.path.join(scratch, name + '.json')
    e = env()
    e['GOMAXPROCS'] = str(cpus)
    e['VERIF_SCRATCH'] = scratch
    e['VERIF_BINARY'] = binaries[kind]
    # programs run in any time zone
    e['TZ'] = ['UTC', 'America/St_Johns', 'Asia/Kathmandu', 'Europe/Berlin'][shard % 4]
    racelog = os.path.join(scratch, name + '.race')
    if kind == 'race':
        e['GORACE'] = 'halt_on_error=1 exitcode=66 history_size=3 log_path=' + racelog
        e['VERIF_YIELD'] = str(yrate)
        e['VERIF_SLEEP'] = str(srate)
    cmd = [binaries[kind], '-prop', prop, '-phase', kind, '-seed', str(seed), '-shard', str(shard),
           '-shards', str(nsh), '-tier', tier, '-out', out, '-known', ','.join(KNOWN)]
    if plan.get('commands'):
        e['VERIF_CMDS'] = os.path.join(scratch, 'cmds-' + kind)
        if netns:
            e['VERIF_NETNS'] = '1'
            cmd = UNSHARE + cmd
    errp = os.path.join(scratch, name + '.err')
    wd = os.path.join(scratch, 'wd-' + name)
    os.makedirs(wd, exist_ok=True)
    with open(errp, 'w') as ef:
        p = subprocess.Popen(cmd, env=e, stdout=subprocess.DEVNULL, stderr=ef, cwd=wd, start_new_session=True)
        try:
            rc = p.wait(timeout=TIMEOUT)
            timed = False
        except subprocess.TimeoutExpired:
            timed = True
            p.send_signal(signal.SIGQUIT)
            try:
                rc = p.wait(timeout=30)
            except subprocess.TimeoutExpired:
                rc = None
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    res = None
    if os.path.exists(out):
        try:
            res = json.load(open(out))
        except ValueError:
            res = None
    err = open(errp, errors='replace').read()
    races = ''
    for f in sorted(os.listdir(scratch)):
        if f.startswith(name + '.race'):
            races += open(os.path.join(scratch, f), errors='replace').read()
    keys = b''
    if os.path.exists(out + '.keys'):
        keys = open(out + '.keys', 'rb').read()
    return dict(name=name, kind=kind, cmd=cmd[1:], rc=rc, timed=timed, res=res, err=err, races=races, keys=keys,
                env={k: e.get(k) for k in ('GOMAXPROCS', 'TZ', 'GORACE', 'VERIF_YIELD', 'VERIF_SLEEP') if e.get(k)})


def stuck_in_tricorder(dump):
    """Goroutines of the workload blocked for minutes in code under test."""
    hits = []
    for g in dump.split('\n\n'):
        m = re.match(r'goroutine \d+.*\[([^\]]*)\]', g.strip())
        if m and 'minutes' in m.group(1) and 'Symantec/tricorder' in g and 'vharness' in g.replace('vharness/vyield', ''):
            hits.append(g)
    return hits


def verdict(r):
    """Returns None (held), ('violation', sig, text) or ('error', text)."""
    if r['races'] and 'DATA RACE' in r['races']:
        return ('violation', 'data-race', r['races'])
    if r['res'] and r['res'].get('violation'):
        v = r['res']['violation']
        return ('violation', v.get('sig', '?'), v.get('what', ''))
    if r['timed']:
        s = stuck_in_tricorder(r['err'])
        if s:
            return ('violation', 'hang', '\n\n'.join(s[:5]))
        return ('error', 'timed out without a verdict')
    if r['rc'] == 0 and r['res'] and r['res']['evals'] > 0:
        return None
    if r['rc'] == 3:
        return ('error', r['err'][-2000:])
    if re.search(r'^(panic:|fatal error:|unexpected fault|SIGSEGV)', r['err'], re.M) and 'out of memory' not in r['err'] \
            and 'cannot allocate' not in r['err']:
        return ('violation', 'crash', r['err'][:6000])
    return ('error', 'exit %s: %s' % (r['rc'], r['err'][-2000:]))


def finish(code):
    shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


prepare()
kinds = [k for k in ('plain', 'race') if plan.get(k)]
binaries, instrumented = {}, False
with ThreadPoolExecutor(2) as ex:
    for kind, (out, err, ins) in zip(kinds, ex.map(build, kinds)):
        if out is None:
            log('build failed:\n' + err)
            finish(2)
        binaries[kind] = out
        instrumented = instrumented or ins
if plan.get('commands'):
    for kind in kinds:
        err = build_commands(kind)
        if err:
            log('build failed:\n' + err)
            finish(2)
    netns = subprocess.run(UNSHARE + ['unshare', '-n', 'ip', 'link', 'set', 'lo', 'up'], capture_output=True).returncode == 0
t_build = time.time() - T0
jobs = []
for kind in kinds:
    nsh = plan[kind]
    for s in range(nsh):
        # vary the parallelism, and under the race detector the yield rates
        cpus = [4, 2, 8, 3][s % 4] if kind == 'race' else 4
        yrate, srate = [(16, 4000), (4, 1500), (64, 20000), (2, 6000)][s % 4]
        jobs.append((kind, s, nsh, cpus, yrate, srate))
with ThreadPoolExecutor(plan.get('parallel', 6) if netns or not plan.get('commands') else 1) as ex:
    results = list(ex.map(run_one, jobs))

violations, errors = [], []
for r in results:
    v = verdict(r)
    if v and v[0] == 'violation':
        violations.append((r, v))
    elif v:
        errors.append((r, v))
if errors and not violations:
    # once more for those that gave no verdict
    again = [run_one(next(j for j in jobs if '%s-%d' % (j[0], j[1]) == r['name'])) for r, _ in errors]
    results = [r for r in results if r['name'] not in {a['name'] for a in again}] + again
    errors = []
    for r in again:
        v = verdict(r)
        if v and v[0] == 'violation':
            violations.append((r, v))
        elif v:
            errors.append((r, v))

keys, counters, samples, evals, rule, known = set(), {}, [], 0, '', {}
sites = pairs = 0
procs = []
for r in sorted(results, key=lambda r: r['name']):
    k = r['keys']
    for i in range(0, len(k), 8):
        keys.add(k[i:i + 8])
    x = r['res']
    if not x:
        continue
    evals += x['evals']
    rule = x.get('rule') or rule
    for s in (x.get('samples') or []):
        if len(samples) < 4:
            samples.append(s)
    for c, n in (x.get('counters') or {}).items():
        counters[c] = counters.get(c, 0) + n
    known.update(x.get('known') or {})
    sites = max(sites, x.get('sites', 0))
    pairs = max(pairs, x.get('pairs', 0))
    procs.append({'process': r['name'], 'evaluations': x['evals'], 'gomaxprocs': x['gomaxprocs'],
                  'yield_hits': x.get('siteHits', 0), 'interleaved_site_pairs': x.get('pairs', 0)})
cov = {'evaluations': evals, 'distinct_nontrivial': len(keys), 'rule': rule, 'samples': samples,
       'observed': counters, 'processes': procs, 'build_s': round(t_build, 1)}
if 'race' in kinds:
    cov['race_detector'] = {'processes': sum(1 for r in results if r['kind'] == 'race'),
                            'reports': sum(r['races'].count('DATA RACE') for r in results),
                            'injected_yields': instrumented, 'statements_reached': sites,
                            'interleaved_statement_pairs_best_process': pairs}
evidence = {'property': prop, 'tier': tier, 'seed': seed, 'level': plan.get('level', 'exploration'), 'coverage': cov,
            'assumptions': plan.get('assumptions', []), 'wall_s': round(time.time() - T0, 1),
            'violations': len(violations)}
with open(os.path.join(EVID, prop + '.json'), 'w') as f:
    json.dump(evidence, f, indent=1)
    f.write('\n')
for sig in sorted(known):
    print('KNOWN-FINDING: property=%s %s' % (prop, KNOWN.get(sig, known[sig])))
if violations:
    r, v = violations[0]
    rdir = os.path.join(EVID, 'replay')
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, '%s-seed%d-%s.json' % (prop, seed, r['name']))
    with open(path, 'w') as f:
        json.dump({'property': prop, 'signature': v[1], 'what': v[2], 'process': r['name'],
                   'harness_args': r['cmd'], 'environment': r['env'],
                   'replay': 'VERIF_SEED=%d VERIF_TIER=%s python3 bin/check.py %s' % (seed, tier, prop),
                   'violation': (r['res'] or {}).get('violation'), 'stderr': r['err'][-20000:]}, f, indent=1)
    log(v[2][:3000])
    print('VIOLATION property=%s replay=%s' % (prop, path))
    finish(1)
if errors:
    for r, v in errors:
        log(r['name'], v[1])
    finish(2)
print('HELD property=%s evaluations=%d distinct=%d wall=%.1fs' % (prop, evals, len(keys), time.time() - T0))
finish(0)
