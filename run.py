#!/usr/bin/env python3
"""Entry point of every check:  run.py <ID> <quick|thorough>   |   run.py --replay <file>   |  run.py --build <ID>

Builds the harness of a property together with the needed sources of /repo's working tree, runs the
exhaustive exploration, confirms every failing case by running it again on its own, sorts failures into
listed findings and violations, and rewrites evidence/<ID>.json.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(ROOT, '.build'))
sys.path.insert(0, ROOT)
from registry import CHECKS, FLAVOURS  # noqa: E402

NCPU = os.cpu_count() or 8


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()


_filehash = {}


def filehash(path):
    if path not in _filehash:
        try:
            with open(path, 'rb') as f:
                _filehash[path] = sha(f.read())
        except OSError:
            _filehash[path] = 'missing'
    return _filehash[path]


def compile_one(src, flags):
    """Compile src; cached by command line and by the content of every file it includes."""
    base = sha(src, ' '.join(flags))[:32]
    odir = os.path.join(BUILD, 'obj')
    os.makedirs(odir, exist_ok=True)
    obj, dep = os.path.join(odir, base + '.o'), os.path.join(odir, base + '.json')
    if os.path.exists(dep) and os.path.exists(obj):
        try:
            deps = json.load(open(dep))
            if all(filehash(p) == h for p, h in deps.items()):
                return obj
        except ValueError:
            pass
    tmpo, tmpd = obj + '.%d.tmp' % os.getpid(), obj + '.%d.d' % os.getpid()
    cmd = flags[:1] + ['-c', src, '-o', tmpo, '-MD', '-MF', tmpd] + flags[1:]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError('compiling %s failed:\n%s' % (src, r.stdout[-6000:]))
    text = open(tmpd).read().replace('\\\n', ' ')
    files = [f for f in text.split(':', 1)[1].split() if f]
    files = [f for f in files if not f.startswith('/usr/')]
    json.dump({f: filehash(f) for f in files}, open(dep + '.tmp%d' % os.getpid(), 'w'))
    os.replace(tmpo, obj)
    os.replace(dep + '.tmp%d' % os.getpid(), dep)
    os.unlink(tmpd)
    return obj


def fly_all():
    out = []
    for p in glob.glob(os.path.join(REPO, 'fly', '**', '*.cpp'), recursive=True):
        rel = os.path.relpath(p, REPO)
        if '/mac/' in rel or '/win/' in rel:
            continue
        out.append(p)
    return sorted(out)


def fly_select(pats):
    allf = fly_all()
    out = []
    for pat in pats:
        rx = re.compile('^' + re.escape(os.path.join(REPO, 'fly')) + '/' + pat + '$')
        out += [f for f in allf if rx.match(f) and f not in out]
    return out


def build(part):
    fl = FLAVOURS[part.get('flavour', 'seq')]
    sub = lambda l: [x.replace('@ROOT@', ROOT).replace('@REPO@', REPO) for x in l]
    common = sub(fl['cc'])
    hflags = common + sub(fl.get('harness_flags', [])) + sub(part.get('flags', [])) + sub(part.get('harness_flags', []))
    fflags = common + sub(fl.get('fly_flags', [])) + sub(part.get('flags', [])) + sub(part.get('fly_flags', []))
    rtflags = sub(fl.get('rt_cc', common))
    jobs = [(os.path.join(ROOT, 'harness', h), hflags) for h in part['harness']]
    jobs += [(os.path.join(ROOT, 'lib', h), rtflags) for h in fl['rt']]
    fly = fly_select(part.get('fly', []))
    jobs += [(f, fflags) for f in fly]
    # longest first is not known; harness first
    with cf.ThreadPoolExecutor(NCPU) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), jobs))

    def link(objs, extra):
        key = sha(*[open(o, 'rb').read() for o in objs], ' '.join(common + sub(fl.get('ld', []))))[:32]
        bdir = os.path.join(BUILD, 'bin')
        os.makedirs(bdir, exist_ok=True)
        exe = os.path.join(bdir, key)
        if os.path.exists(exe):
            return exe, ''
        tmp = exe + '.%d' % os.getpid()
        r = subprocess.run(sub(fl['cc'][:1]) + objs + extra + ['-o', tmp] + sub(fl.get('ld', [])) + sub(part.get('ld', [])),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return None, r.stdout
        os.replace(tmp, exe)
        return exe, ''

    exe, err = link(objs, [])
    if exe is None and 'undefined reference' in err:
        # the listed sources moved something elsewhere: take every source of the library
        rest = [f for f in fly_all() if f not in fly]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            more = list(ex.map(lambda f: compile_one(f, fflags), rest))
        ar = os.path.join(BUILD, 'rest-%d.a' % os.getpid())
        if os.path.exists(ar):
            os.unlink(ar)
        subprocess.check_call(['ar', 'rcs', ar] + more)
        exe, err = link(objs, ['-Wl,--start-group', ar, '-Wl,--end-group'])
        os.unlink(ar)
    if exe is None:
        raise BuildError('link failed:\n' + err[-6000:])
    return exe


def known_for(pid):
    """key -> description of the listed findings of this property"""
    out = {}
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3).strip()
    return out


def run_env(work, pid):
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=66:detect_stack_use_after_return=0:allocator_may_return_null=1:max_allocation_size_mb=2048:hard_rss_limit_mb=2500:handle_abort=0'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=0:halt_on_error=1'
    env['MC_WORK'] = work
    env['LC_ALL'] = 'C.UTF-8'
    kf = os.path.join(work, 'known.txt')
    with open(kf, 'w') as f:
        for k in known_for(pid):
            f.write(k + '\n')
    env['MC_KNOWN'] = kf
    return env


def run_part(pid, part, tier, work, budget):
    exe = build(part)
    out = os.path.join(work, 'out.json')
    if os.path.exists(out):
        os.unlink(out)
    args = [exe, '--out', out, '--log', os.path.join(work, 'log'), '--shards', str(NCPU)] + part.get('args', [])
    if tier == 'thorough':
        args += ['--thorough'] + part.get('thorough_args', [])
    t0 = time.time()
    proc = subprocess.Popen(args, env=run_env(work, pid), cwd=work, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                            start_new_session=True)
    try:
        txt, _ = proc.communicate(timeout=budget)
        txt = txt.decode('utf-8', 'replace')
        rc = proc.returncode
    except subprocess.TimeoutExpired:
        os.killpg(proc.pid, signal.SIGKILL)
        proc.communicate()
        raise RuntimeError('exploration of %s exceeded its time budget of %ds' % (pid, budget))
    if txt.strip():
        sys.stdout.write(txt[-3000:] if rc not in (0, 1) else txt[-1500:])
        if not txt.endswith('\n'):
            print()
    if not os.path.exists(out):
        raise RuntimeError('harness wrote no result (exit %s)' % rc)
    res = json.load(open(out))
    res['run_s'] = time.time() - t0
    res['exe'] = exe
    res['part'] = part
    return res


def replay_args(f):
    if 'replay' in f:
        return list(f['replay'])
    return ['--only', str(f['ordinal'])]


def confirm(pid, res, f, tier, work):
    """Run the failing case again on its own, twice; it must fail both times."""
    args = [res['exe'], '--log', os.path.join(work, 'again')] + res['part'].get('args', [])
    if tier == 'thorough':
        args += ['--thorough'] + res['part'].get('thorough_args', [])
    args += replay_args(f)
    for _ in range(1 if f['key'].startswith('hang') else 2):
        try:
            r = subprocess.run(args, env=run_env(work, pid), cwd=work, timeout=240, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
        except subprocess.TimeoutExpired:
            continue
        if r.returncode != 1:
            return False
    return True


def main():
    if sys.argv[1] == '--replay':
        d = json.load(open(sys.argv[2]))
        part = CHECKS[d['property']]['parts'][d['part']]
        exe = build(part)
        work = tempfile.mkdtemp(prefix='verif-replay-')
        try:
            args = [exe] + part.get('args', [])
            if d['tier'] == 'thorough':
                args += ['--thorough'] + part.get('thorough_args', [])
            args += d['args'] + ['--verbose']
            rc = subprocess.run(args, env=run_env(work, d['property']), cwd=work).returncode
        finally:
            shutil.rmtree(work, ignore_errors=True)
        sys.exit(rc)
    if sys.argv[1] == '--selftest':
        # setup: the toolchain works and the framework itself compiles
        for fl in FLAVOURS.values():
            for h in fl['rt']:
                compile_one(os.path.join(ROOT, 'lib', h), [x.replace('@ROOT@', ROOT).replace('@REPO@', REPO) for x in fl.get('rt_cc', fl['cc'])])
        return
    if sys.argv[1] == '--build':
        for p in CHECKS[sys.argv[2]]['parts']:
            print(build(p))
        return
    pid, tier = sys.argv[1], sys.argv[2]
    chk = CHECKS[pid]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    evdir = os.path.join(ROOT, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    violations, known_hit, unconfirmed, infra = [], {}, [], False
    agg = dict(evaluations=0, distinct_nontrivial=0, states=0, transitions=0, traces=0)
    samples, parts_ev = [], []
    known = known_for(pid)
    total_budget = 840 if tier == 'quick' else 3 * 3600
    try:
        for i, part in enumerate(chk['parts']):
            budget = max(30, total_budget - (time.time() - t0))
            res = run_part(pid, part, tier, work, budget)
            for k in agg:
                agg[k] += int(res.get(k, 0))
            samples += res.get('samples', [])[:6]
            infra = infra or res.get('infra', False)
            pe = dict(name=part.get('name', part['harness'][0]), run_s=round(res['run_s'], 1))
            for k in ('evaluations', 'distinct_nontrivial', 'states', 'transitions', 'traces', 'space', 'programs', 'complete', 'bounds', 'pruned', 'schedules', 'max_depth'):
                if k in res:
                    pe[k] = res[k]
                    if isinstance(pe[k], str) and len(pe[k]) > 2500:
                        pe[k] = pe[k][:2500] + ' ... (%d more programs)' % pe[k][2500:].count(';')
            parts_ev.append(pe)
            for k in res.get('known_hits', []):
                known_hit[k] = known.get(k, '')
            for f in res['failures']:
                f['part'] = i
                if f['key'] in known:
                    known_hit[f['key']] = known[f['key']]
                    continue
                if len(violations) < 6 and sum(v['key'] == f['key'] for v in violations) < 2:
                    if confirm(pid, res, f, tier, work):
                        violations.append(f)
                    else:
                        unconfirmed.append(f)
    finally:
        shutil.rmtree(work, ignore_errors=True)

    cov = dict(rule=chk['rule'], samples=samples[:12], parts=parts_ev)
    if chk['level'] == 'model_checking':
        cov.update(states=agg['states'], transitions=agg['transitions'], traces_validated_against_impl=agg['traces'],
                   evaluations=agg['evaluations'], distinct_nontrivial=agg['distinct_nontrivial'])
    else:
        cov.update(evaluations=agg['evaluations'], distinct_nontrivial=agg['distinct_nontrivial'])
        if agg['states']:
            cov.update(states=agg['states'], transitions=agg['transitions'])
    cov['exhaustive'] = not infra and all(p.get('complete', True) for p in parts_ev)
    if known_hit:
        cov['known_findings'] = sorted(known_hit)
    ev = dict(property=pid, tier=tier, seed=seed, level=chk['level'], coverage=cov, assumptions=chk.get('assumptions', []),
              wall_s=round(time.time() - t0, 2), violations=len(violations))
    with open(os.path.join(evdir, pid + '.json.tmp'), 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(os.path.join(evdir, pid + '.json.tmp'), os.path.join(evdir, pid + '.json'))

    for k in sorted(known_hit):
        print('KNOWN-FINDING: property=%s %s' % (pid, known_hit[k]))
    rdir = os.path.join(evdir, 'replay')
    shutil.rmtree(rdir + '/' + pid, ignore_errors=True)
    for n, f in enumerate(violations):
        os.makedirs(rdir + '/' + pid, exist_ok=True)
        path = os.path.join(rdir, pid, '%d.json' % n)
        json.dump(dict(property=pid, part=f['part'], tier=tier, args=replay_args(f), key=f['key'], message=f['msg']),
                  open(path, 'w'), indent=1)
        print('  %s: %s' % (f['key'], f['msg']))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    for f in unconfirmed:
        print('  not reproduced, not reported: %s: %s' % (f['key'], f['msg']))
    print('%s %s: %d evaluations, %d states, %d transitions, %d violations, %.1f s' % (
        pid, tier, agg['evaluations'], agg['states'], agg['transitions'], len(violations), time.time() - t0))
    if violations:
        sys.exit(1)
    if infra or unconfirmed:
        sys.exit(3)


if __name__ == '__main__':
    try:
        main()
    except BuildError as e:
        print(str(e))
        sys.exit(4)
    except RuntimeError as e:
        print(str(e))
        sys.exit(5)
