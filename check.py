#!/usr/bin/env python3
"""check.py <property-id> [--tier quick|thorough] : builds the harness of one property from /repo's
working tree, runs it under the monitors, compares what they report with known_findings.json, writes
evidence/<id>.json and prints VIOLATION / KNOWN-FINDING lines.

Exit status: 0 held on everything explored, 1 violation, 2 no answer (build or harness failure)."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

BUILD = os.path.join(VERIF, 'build')
CXX = 'g++'
BASE = ['-std=c++20', '-fcoroutines', '-isystem', f'{BUILD}/fixinc', '-I', f'{REPO}/include', '-I', f'{VERIF}/vrt', '-I', f'{VERIF}/harness',
        '-D_GLIBCXX_ASSERTIONS', '-Wno-tsan', '-w', '-fno-omit-frame-pointer', '-fconcepts-diagnostics-depth=1']
MODES = {
    # controlled executions (vrt)
    'vrt': dict(cxx=['-O1', '-g1', '-fsanitize=thread', '-U__SANITIZE_THREAD__', '-ftrivial-auto-var-init=pattern'],
                link=['-no-pie', '-g1'], libs=['-ltbb', '-lpthread', '-ldl'], rt=['vrt.cpp', 'vrt_throw.cpp']),
    # free-running, address + undefined-behaviour sanitizers
    'asan': dict(cxx=['-O0', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr', '-DVRT_NATIVE'],
                 link=['-fsanitize=address,undefined', '-g1'], libs=['-ltbb', '-lpthread', '-ldl'], rt=['native.cpp']),
    # free-running, address sanitizer only (cheaper to compile)
    'asanlite': dict(cxx=['-O0', '-g1', '-fsanitize=address', '-DVRT_NATIVE'],
                     link=['-fsanitize=address', '-g1'], libs=['-ltbb', '-lpthread', '-ldl'], rt=['native.cpp']),
    # free-running ThreadSanitizer
    'tsan': dict(cxx=['-O1', '-g1', '-fsanitize=thread', '-DVRT_NATIVE'], link=['-fsanitize=thread', '-g1'],
                 libs=['-ltbb', '-lpthread', '-ldl'], rt=['native.cpp']),
    # free-running, uninstrumented, optimised or not
    'plain': dict(cxx=['-O2', '-g1', '-DVRT_NATIVE'], link=['-g1'], libs=['-ltbb', '-lpthread', '-ldl'], rt=['native.cpp']),
    'debug': dict(cxx=['-O0', '-g1', '-DVRT_NATIVE'], link=['-g1'], libs=['-ltbb', '-lpthread', '-ldl'], rt=['native.cpp']),
}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)


_tree_hash = None


def tree_hash():
    global _tree_hash
    if _tree_hash is None:
        h = hashlib.sha256()
        for top in (f'{REPO}/include', f'{REPO}/src', f'{VERIF}/vrt', f'{VERIF}/harness'):
            for d, _, fs in sorted(os.walk(top)):
                for f in sorted(fs):
                    if f.endswith(('.hpp', '.cpp', '.h', '.in')):
                        p = os.path.join(d, f)
                        h.update(p.encode())
                        h.update(open(p, 'rb').read())
        _tree_hash = h.hexdigest()
    return _tree_hash


class BuildError(Exception):
    pass


def compile_one(job):
    src, obj, flags, post = job
    if os.path.exists(obj):
        return None
    tmp = f'{obj}.{os.getpid()}.tmp.o'
    r = sh([CXX, *flags, '-c', src, '-o', tmp])
    if r.returncode:
        return f'compiling {src} failed:\n{r.stdout[-6000:]}'
    if post:
        r = sh(post + [tmp])
        if r.returncode:
            return r.stdout
    os.replace(tmp, obj)
    return None


def fix_libstdcxx():
    """libstdc++ 13's atomic<shared_ptr>::load unlocks with relaxed order, a data race of the library's own (fixed in later
    releases), not of the code under test: build against a copy of that one header with the unlock strengthened."""
    src, dst = '/usr/include/c++/13/bits/shared_ptr_atomic.h', f'{BUILD}/fixinc/bits/shared_ptr_atomic.h'
    if os.path.exists(src) and not os.path.exists(dst):
        os.makedirs(os.path.dirname(dst), exist_ok=True)
        t = open(src).read()
        t = re.sub(r'_M_refcount\.unlock\(\w+\)', '_M_refcount.unlock(memory_order_release)', t)
        tmp = f'{dst}.{os.getpid()}'
        open(tmp, 'w').write(t)
        os.replace(tmp, dst)


def asio_config():
    """what CMake generates for the Asio adaptors when they are enabled (with Boost's Asio)"""
    src, dst = f'{REPO}/include/exec/asio/asio_config.hpp.in', f'{BUILD}/fixinc/exec/asio/asio_config.hpp'
    if os.path.exists(src):
        t = re.sub(r'#cmakedefine01 (\w+)', lambda m: f'#define {m[1]} {int(m[1].endswith("BOOST"))}', open(src).read())
        if not os.path.exists(dst) or open(dst).read() != t:
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            tmp = f'{dst}.{os.getpid()}'
            open(tmp, 'w').write(t)
            os.replace(tmp, dst)


def build(cid, engines):
    """compile everything all engines of a check need, in parallel; returns engine name -> executable"""
    os.makedirs(BUILD, exist_ok=True)
    fix_libstdcxx()
    asio_config()
    jobs, links = {}, []
    for en, e in engines.items():
        m = MODES[e['mode']]
        objs = []
        for s in e['src']:
            src = s.replace('$REPO', REPO) if s.startswith('$REPO') else os.path.join(VERIF, 'harness', s)
            flags = BASE + m['cxx'] + e.get('flags', [])
            key = hashlib.sha256((tree_hash() + src + ' '.join(flags)).encode()).hexdigest()[:20]
            obj = os.path.join(BUILD, f'{os.path.basename(s)}-{e["mode"]}-{key}.o')
            post = ['objcopy', '--redefine-sym', 'memcpy=__wrap_memcpy', '--redefine-sym', 'memmove=__wrap_memmove',
                    '--redefine-sym', 'memset=__wrap_memset'] if e['mode'] == 'vrt' else None
            jobs[obj] = (src, obj, flags, post)
            objs.append(obj)
        for s in m['rt']:
            src = os.path.join(VERIF, 'vrt', s)
            flags = (['-std=c++20', '-O2', '-g1', '-fno-omit-frame-pointer', '-fno-builtin-malloc', '-w'] if e['mode'] == 'vrt' else
                     ['-std=c++20', '-O1', '-g1', '-w'] + [f for f in m['cxx'] if f.startswith('-fsanitize') or f.startswith('-D')])
            key = hashlib.sha256((open(src).read() + open(f'{VERIF}/vrt/vrt.hpp').read() + ' '.join(flags)).encode()).hexdigest()[:20]
            obj = os.path.join(BUILD, f'{s}-{e["mode"]}-{key}.o')
            jobs[obj] = (src, obj, flags, None)
            objs.append(obj)
        exe = os.path.join(BUILD, f'{cid}-{en}')
        links.append((en, [CXX, *m['link'], *objs, '-o', exe + '.new', *m['libs'], *e.get('libs', [])], exe))
    # heavy (big) sources first
    js = sorted(jobs.values(), key=lambda j: -os.path.getsize(j[0]))
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        errs = [x for x in ex.map(compile_one, js) if x]
    exes = {}
    for en, cmd, exe in links:
        if errs:
            # scenarios that do not compile against this tree are left out: what the others observe is still worth having,
            # but the check gives no verdict of "held" then (main returns 2)
            gone = [o for o in cmd if o in jobs and not os.path.exists(o)]
            if any(jobs[o][0].startswith((os.path.join(VERIF, 'vrt'), REPO)) for o in gone) or not any(o in jobs and os.path.exists(o) and jobs[o][0].startswith(os.path.join(VERIF, 'harness')) for o in cmd):
                raise BuildError('\n'.join(errs))
            cmd = [o for o in cmd if o not in gone]
        r = sh(cmd)
        if r.returncode:
            raise BuildError('\n'.join(errs) or 'link failed:\n' + r.stdout[-6000:])
        os.replace(exe + '.new', exe)
        exes[en] = exe
    return exes, errs


def symbolize(exe, text):
    pcs = list(dict.fromkeys(re.findall(r'\b0x4[0-9a-f]{5}\b', text)))
    if not pcs:
        return {}
    # return addresses: look up the call instruction
    args = [hex(int(p, 16) - 1) for p in pcs]
    r = sh(['addr2line', '-e', exe, '-afCi', *args])
    out, cur = {}, None
    lines = r.stdout.splitlines()
    i = 0
    while i < len(lines):
        ln = lines[i]
        if ln.startswith('0x') and ' ' not in ln:
            cur = hex(int(ln, 16) + 1)
            out[cur] = []
            i += 1
        else:
            fn = ln
            loc = lines[i + 1] if i + 1 < len(lines) else '?'
            if cur:
                out[cur].append((fn, re.sub(r' \(discriminator \d+\)', '', loc)))
            i += 2
    return out


def short(fn):
    fn = re.sub(r'<[^<>]*>', '', fn)
    for _ in range(12):
        n = re.sub(r'<[^<>]*>', '', fn)
        if n == fn:
            break
        fn = n
    return fn[:160]


def pretty(exe, rep):
    sym = symbolize(exe, rep)

    def frame(pc):
        return [f'{pc} {short(f)} at {l}' for f, l in sym.get(pc, [])] or [pc]
    out = []
    for ln in rep.splitlines():
        m = re.match(r'(PC2?) (0x[0-9a-f]+)$', ln)
        if m:
            out.append(ln + '  ' + ' <- '.join(frame(m.group(2))))
        elif ln.startswith('  stack T'):
            head, *pcs = ln.split(' 0x')
            out.append(head)
            for p in pcs:
                out += ['      ' + x for x in frame('0x' + p.strip())]
        else:
            out.append(ln)
    return '\n'.join(out)


def run_vrt(exe, e, tier, seed, cid):
    q = e[tier]
    out = os.path.join(BUILD, f'{cid}-{os.path.basename(exe)}-{os.getpid()}.json')
    res = dict(violations=[], scenarios=[], coverage={}, samples=[], errors=[], engine='vrt')
    workers = os.cpu_count() or 8
    cmd = [exe, '--seed', str(seed), '--execs', str(q['execs']), '--workers', str(workers), '--budget-ms', str(q['budget'] * 1000), '--exec-timeout-ms', str(e.get('exec_timeout', 90) * 1000), '--out', out]
    try:
        r = sh(cmd, timeout=q['budget'] + 400)
    except subprocess.TimeoutExpired:
        res['errors'].append('run exceeded its wall-clock guard')
        return res
    try:
        d = json.load(open(out))
    except Exception as ex:  # noqa: BLE001
        res['errors'].append(f'no result from harness (exit {r.returncode}): {ex}\n{r.stdout[-3000:]}')
        return res
    finally:
        if os.path.exists(out):
            os.unlink(out)
    for v in d['violations']:
        rep = v['report']
        f = {k: (re.search(rf'^{k} (.*)$', rep, re.M) or [None, ''])[1] for k in ('KIND', 'SCENARIO', 'INDEX', 'MSG')}
        text = pretty(exe, rep)
        res['violations'].append(dict(kind=f['KIND'], scenario=f['SCENARIO'], index=f['INDEX'], msg=f['MSG'], text=text,
                                      replay=f"VRT_EST={v.get('estimate', 0)} VRT_TRACE=1 {os.path.basename(exe)} --scenario {f['SCENARIO']} --seed {seed} --index {f['INDEX']}"))
    if d['harness_errors']:
        res['errors'].append(f"{d['harness_errors']} harness errors\n{r.stdout[-3000:]}")
    if d['inconclusive'] and not d['violations']:
        # wall-clock watchdog fired: re-run those executions once
        for m in re.finditer(r'watchdog: scenario (\S+) index (\d+)', r.stdout):
            try:
                r2 = sh([exe, '--seed', str(seed), '--scenario', m[1], '--index', m[2]], timeout=120)
                if r2.returncode not in (0, 1):
                    res['errors'].append(f'watchdog re-run exit {r2.returncode}')
            except subprocess.TimeoutExpired:
                res['violations'].append(dict(kind='hang', scenario=m[1], index=m[2], msg='execution does not terminate and performs no monitored operation', text='', replay=f'--scenario {m[1]} --seed {seed} --index {m[2]}'))
                break
    res['scenarios'] = d['scenarios']
    res['coverage'] = d['coverage']
    res['samples'] = d['samples']
    execs = sum(s['execs'] for s in d['scenarios'])
    if not d['violations'] and not execs:
        res['errors'].append('no execution was completed')
    if not d['violations'] and execs and not sum(s['observed'] for s in d['scenarios']):
        res['errors'].append('monitors observed nothing')
    return res


def run_native(exe, e, tier, seed, cid):
    q = e[tier]
    res = dict(violations=[], scenarios=[], coverage={}, samples=[], errors=[], engine=e['mode'])
    env = dict(os.environ, ASAN_OPTIONS='abort_on_error=0:exitcode=77:detect_leaks=%d:detect_stack_use_after_return=1:alloc_dealloc_mismatch=1' % (0 if e.get('noleak') else 1),
               UBSAN_OPTIONS='print_stacktrace=1:exitcode=77', TSAN_OPTIONS='halt_on_error=1:exitcode=77:second_deadlock_stack=1')
    procs = []
    n = q.get('procs', 4)
    for w in range(n):
        out = os.path.join(BUILD, f'{cid}-{os.path.basename(exe)}-{os.getpid()}-{w}')
        procs.append((w, out, subprocess.Popen([exe, '--seed', str(seed), '--execs', str(q['execs']), '--shard', str(w), str(n), '--budget-ms', str(q['budget'] * 1000), '--out', out + '.json'],
                                               stdout=open(out + '.log', 'w'), stderr=subprocess.STDOUT, env=env)))
    for w, out, p in procs:
        hung = False
        try:
            rc = p.wait(timeout=q['budget'] + 180)
        except subprocess.TimeoutExpired:
            hung = True
            p.kill()
            p.wait()
            rc = -1
        log = open(out + '.log', errors='replace').read()
        d = None
        if os.path.exists(out + '.json'):
            try:
                d = json.load(open(out + '.json'))
            except Exception:  # noqa: BLE001
                d = None
            os.unlink(out + '.json')
        os.unlink(out + '.log')
        if hung:
            m = re.findall(r'^VRTRUN (\S+) (\d+)', log, re.M)
            res['errors'].append(f'native run {w} hung (last scenario {m[-1] if m else "?"}): inconclusive')
            continue
        if rc == 0 and d:
            for s in d['scenarios']:
                o = next((x for x in res['scenarios'] if x['name'] == s['name']), None)
                if o:
                    for k in ('execs', 'observed', 'distinct'):
                        o[k] += s[k]
                    for k, v in s['outcomes'].items():
                        o['outcomes'][k] = o['outcomes'].get(k, 0) + v
                else:
                    res['scenarios'].append(s)
            for k, v in d['coverage'].items():
                res['coverage'][k] = res['coverage'].get(k, 0) + v
            res['samples'] += d['samples'][:2]
            continue
        m = re.findall(r'^VRTRUN (\S+) (\d+)', log, re.M)
        sc, idx = m[-1] if m else ('?', '?')
        f = re.search(r'^VRTFAIL (.*)$', log, re.M)
        a = re.search(r'ERROR: (AddressSanitizer|LeakSanitizer): ([\w-]+)', log)
        u = re.search(r'^(.*runtime error: .*)$', log, re.M)
        t = re.search(r'WARNING: ThreadSanitizer: ([^\n(]+)', log)
        if f:
            kind, msg = 'oracle', f[1]
        elif a:
            kind, msg = 'asan-' + a[2], a[0]
        elif u:
            kind, msg = 'ubsan', u[1]
        elif t:
            kind, msg = 'tsan-' + t[1].strip(), t[0]
        elif rc < 0 and -rc in (4, 6, 7, 8, 11):
            kind, msg = 'crash', f'signal {-rc}'
        else:
            res['errors'].append(f'native run {w} exit {rc}\n{log[-1500:]}')
            continue
        res['violations'].append(dict(kind=kind, scenario=sc, index=idx, msg=msg, text=log[-12000:], replay=f'{os.path.basename(exe)} --scenario {sc} --seed {seed} --index {idx}'))
    return res


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': []}


def match_known(cid, v, known):
    for k in known['findings']:
        if k.get('status') != 'known' or cid not in k['properties']:
            continue
        if not k.get('match'):
            continue  # the harness itself steps over it (KNOWN_FINDING); anything it reports is something else
        if k.get('kind') and not re.fullmatch(k['kind'], v['kind']):
            continue
        if k.get('scenario') and not re.fullmatch(k['scenario'], v['scenario']):
            continue
        if k.get('match') and not re.search(k['match'], v['msg'] + '\n' + v['text'], re.S):
            continue
        return k
    return None


def main():
    cid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    c = CHECKS[cid]
    engines = {n: e for n, e in c['engines'].items() if tier in e}
    try:
        exes, partial = build(cid, engines)
    except BuildError as ex:
        print(f'{cid}: build failed\n{ex}')
        return 2
    tb = time.time() - t0
    known = load_known()
    # findings a harness can step over by itself (it reports them as coverage and goes on)
    os.environ['VERIF_KNOWN'] = ',' + ','.join(k['id'] for k in known['findings'] if k.get('status') == 'known') + ','
    results, errors, viol, seen_known = [], ['build failed in part: ' + x for x in partial], [], {}
    for en, e in engines.items():
        r = (run_vrt if e['mode'] == 'vrt' else run_native)(exes[en], e, tier, seed, f'{cid}-{en}')
        results.append((en, e, r))
        errors += [f'{en}: {x}' for x in r['errors']]
        only = c.get('kinds')
        for v in r['violations']:
            if only and not re.fullmatch(only, v['kind']):
                continue
            k = match_known(cid, v, known)
            if k:
                seen_known.setdefault(k['id'], (k, v))
            else:
                viol.append((en, v))
        for kf in known['findings']:
            if r['coverage'].get('known finding: ' + kf['id']):
                seen_known.setdefault(kf['id'], (kf, None))
    rdir = os.path.join(VERIF, 'replay')
    for kf in known['findings']:
        if kf.get('status') == 'known' and cid in kf['properties']:
            print(f"KNOWN-FINDING: property={cid} {kf['what']}" + ('' if kf['id'] in seen_known else ' (not reached by this run)'))
    lines = []
    if viol:
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        for en, v in viol:
            key = (en, v['kind'], v['scenario'])
            if key in seen:
                continue
            seen.add(key)
            p = os.path.join(rdir, f"{cid}-{en}-{v['scenario']}-{v['kind']}.txt".replace('/', '_').replace(' ', '_'))
            with open(p, 'w') as f:
                f.write(f"property {cid}\nengine {en}\nreplay: build/{v['replay']}\n\n{v['text']}\n")
            print(f"  [{en}] {v['kind']} in scenario {v['scenario']} #{v['index']}: {v['msg'][:300]}")
            lines.append(f'VIOLATION property={cid} replay={p}')
    # evidence
    evals = distinct = 0
    per = {}
    samples = []
    cov = {}
    tot = {}
    for en, e, r in results:
        for s in r['scenarios']:
            evals += s['execs']
            distinct += s['distinct']
            per[f'{en}:{s["name"]}'] = {k: v for k, v in s.items() if k != 'name' and v not in (0, {})}
            for k in ('steps', 'accesses', 'atomics', 'switches', 'stale_reads', 'spurious', 'allocs', 'alloc_faults', 'race_checks', 'observed', 'skipped'):
                tot[k] = tot.get(k, 0) + s.get(k, 0)
        samples += r['samples'][:4]
        for k, v in r['coverage'].items():
            cov[k] = cov.get(k, 0) + v
    ev = dict(property=cid, tier=tier, seed=seed, level=c.get('level', 'exploration'),
              coverage=dict(evaluations=evals, distinct_nontrivial=distinct,
                            rule=c.get('rule', 'each evaluation is one controlled execution of a scenario whose workload, schedule, weak-memory choices and faults are drawn from the seed; distinct = different hash over the sequence of scheduling decisions, accessed atomic locations, read-from choices and workload choices'),
                            samples=samples or ['(no completed execution)'], totals=tot, scenarios=per, observed_labels=cov,
                            engines={en: dict(mode=e['mode'], src=e['src']) for en, e, _ in results}),
              assumptions=c.get('assumptions', []) + ['judges only the executions produced; schedules are sampled, not enumerated'],
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{cid}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{cid} tier={tier} seed={seed}: {evals} executions, {distinct} distinct, {tot.get("observed", 0)} monitored events, build {tb:.1f}s, total {time.time() - t0:.1f}s')
    for ln in lines:
        print(ln)
    if lines:
        return 1
    if errors:
        print('\n'.join(errors))
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
