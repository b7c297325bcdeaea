#!/usr/bin/env python3
"""Driver: build the monitors of one property from /repo's working tree, run the
workloads under instrumentation, judge the observations, write evidence.

  run.py <PROPERTY> [quick|thorough]      decide a property
  run.py --replay FILE                    re-run one recorded violation
"""
import sys, os, json, subprocess, time, shutil, re, mmap, struct, hashlib, signal
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS, VARIANTS, combos_for
REPO = os.environ.get('VK_REPO', '/repo')
HAR = os.path.join(HERE, 'harness')
JOBS = int(os.environ.get('VK_JOBS', '8'))

def log(*a):
    print(*a, file=sys.stderr, flush=True)

def build_cmd(mod, ti, li, variant, out, extra):
    v = VARIANTS[variant]
    cc = v['cxx']
    src = os.path.join(HAR, 'm_%s.cpp' % mod)
    flags = ['-std=c++20', '-I', REPO + '/include', '-I', HAR, '-w',
             '-DVK_TI=%d' % ti, '-DVK_LI=%d' % li, '-DVK_REPO="%s"' % REPO] + v['cflags'] + extra.get('cflags', [])
    return cc, src, flags, v['ldflags'] + extra.get('ldflags', [])

def build_unit(u, bdir):
    """u: dict(mod, ti, li, variant, extra) -> (exe|None, log)"""
    name = '%s%s_%d%d_%s' % (u['mod'], u.get('tag', ''), u['ti'], u['li'], u['variant'])
    exe = os.path.join(bdir, name)
    cc, src, flags, ld = build_cmd(u['mod'], u['ti'], u['li'], u['variant'], exe, u.get('extra', {}))
    env = dict(os.environ)
    wrap = []
    if shutil.which('ccache') and os.environ.get('VK_CCACHE', '1') == '1':
        env['CCACHE_DIR'] = os.path.join(HERE, '.cache')
        env.setdefault('CCACHE_MAXSIZE', '4G')
        wrap = ['ccache']
    t0 = time.time()
    p = subprocess.run(wrap + [cc] + flags + ['-c', src, '-o', exe + '.o'], capture_output=True, text=True, env=env)
    if p.returncode == 0:
        p = subprocess.run([cc] + ld[:1] + [exe + '.o'] + ['-o', exe] + ld[1:], capture_output=True, text=True, env=env)
    try:
        os.remove(exe + '.o')
    except OSError:
        pass
    return (exe if p.returncode == 0 else None), p.stdout + p.stderr, time.time() - t0

STF = struct.Struct('<64s1400sqqq')
def read_status(path):
    try:
        with open(path, 'rb') as f:
            b = f.read(STF.size)
        fam, desc, idx, cnt, hang = STF.unpack(b)
        z = lambda s: s.split(b'\0')[0].decode('latin1')
        return dict(fam=z(fam), desc=z(desc), idx=idx, counter=cnt, hang=hang)
    except Exception:
        return None

SANENV = {
    'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=98:allocator_may_return_null=1:detect_stack_use_after_return=0',
    'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=98',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=98:report_signal_unsafe=0',
    'MSAN_OPTIONS': 'exitcode=98',
}

def classify(logtxt, rc, st):
    if st and st.get('hang'):
        return 'HANG'
    if 'AddressSanitizer' in logtxt: return 'MEM'
    if 'MemorySanitizer' in logtxt: return 'UNINIT'
    if 'ThreadSanitizer' in logtxt: return 'RACE'
    if 'runtime error:' in logtxt: return 'UB'
    if 'vk: write to a read-only operand' in logtxt: return 'ROWRITE'
    if 'Assertion' in logtxt or rc == -6: return 'ASSERT'
    return 'CRASH'

def crash_key(kind, logtxt, fam):
    loc = ''
    m = re.search(r'include/tlapack/([\w/]+\.hpp):(\d+)', logtxt)
    if m: loc = m.group(1)
    return '%s:%s:%s' % (kind.lower(), fam, loc)

def run_shard(exe, unit, seed, tier, shard, nsh, rdir, opts):
    """Run one shard to completion, restarting after crashes. Returns dict."""
    tag = os.path.basename(exe) + '_s%d' % shard
    out, stf, lg = [os.path.join(rdir, tag + e) for e in ('.out', '.st', '.log')]
    for p in (out, stf, lg):
        if os.path.exists(p): os.remove(p)
    env = dict(os.environ); env.update(SANENV); env.update(opts.get('env', {}))
    base = [exe, '--out', out, '--status', stf, '--seed', str(seed), '--tier', tier,
            '--shard', str(shard), '--nshards', str(nsh), '--mult', str(opts.get('mult', 1))]
    if opts.get('famprefix'): base += ['--famprefix', opts['famprefix']]
    vios, stats, err, notes = [], [], None, []
    resume = []
    wall = opts.get('wall', 600 if tier == 'quick' else 14000)
    deadline = time.time() + wall
    for attempt in range(7):
        rc = None
        with open(lg, 'w') as lf:
            try:
                p = subprocess.Popen(base + resume, stdout=lf, stderr=subprocess.STDOUT, env=env)
                rc = p.wait(timeout=max(5, deadline - time.time()))
            except subprocess.TimeoutExpired:
                p.kill(); p.wait()
                err = 'shard wall-clock limit (inconclusive)'
        lines = []
        if os.path.exists(out):
            for l in open(out):
                try: lines.append(json.loads(l))
                except Exception: pass
            os.remove(out)
        for l in lines:
            if l['t'] == 'vio': vios.append(dict(l, unit=unit))
            elif l['t'] == 'stats': stats.append(l)
        if err: break
        if rc == 0 and any(l['t'] == 'stats' for l in lines):
            break
        st = read_status(stf)
        logtxt = open(lg, errors='replace').read()
        if rc in (2, 3) or not st or not st['fam']:
            err = 'harness failure rc=%s: %s' % (rc, logtxt[-800:])
            break
        kind = classify(logtxt, rc, st)
        if kind == 'CRASH' and rc == -9:
            err = 'killed (memory?) in %s[%d]' % (st['fam'], st['idx'])
            break
        if kind == 'HANG':
            r = subprocess.run([exe, '--out', out, '--status', stf + 'h', '--seed', str(seed), '--tier', tier,
                                '--fam', st['fam'], '--case', str(st['idx']), '--cpu', '160'],
                               capture_output=True, text=True, env=env)
            sh = read_status(stf + 'h')
            if os.path.exists(out): os.remove(out)
            if not (sh and sh.get('hang')):
                notes.append('slow case %s[%d] finished on re-run' % (st['fam'], st['idx']))
                kind = None
        if kind:
            ml = re.findall(r'(?:ERROR: \w+Sanitizer.*|runtime error:.*|.*Assertion.*)', logtxt)
            vios.append(dict(t='vio', kind=kind, key=crash_key(kind, logtxt, st['fam']), fam=st['fam'], idx=st['idx'],
                             msg=(ml[0][:400] if ml else 'rc=%s' % rc), desc=st['desc'], unit=unit, log=logtxt[:6000]))
        resume = ['--fromfam', st['fam'], '--from', str(st['idx'] + 1)]
    for p in (stf, stf + 'h', lg):
        if os.path.exists(p): os.remove(p)
    return dict(vios=vios, stats=stats, err=err, notes=notes, unit=unit)

def load_known():
    try:
        return json.load(open(os.path.join(HERE, 'known_findings.json')))['findings']
    except FileNotFoundError:
        return []

def match_known(prop, v, known):
    for k in known:
        if k.get('status') != 'known' or k['property'] != prop: continue
        m = k['match']
        if m.get('fam') and m['fam'] != v['fam']: continue
        if m.get('kind') and v['kind'] not in m['kind']: continue
        if m.get('key') and not re.fullmatch(m['key'], v['key']): continue
        if m.get('desc') and not re.search(m['desc'], v['desc']): continue
        if m.get('mod') and m['mod'] != v['unit']['mod']: continue
        return k
    return None

def main():
    if sys.argv[1] == '--replay':
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    spec = CHECKS[prop]
    bdir = os.path.join(HERE, 'build', '%s_%s_%d' % (prop, tier, os.getpid()))
    os.makedirs(bdir, exist_ok=True)
    try:
        return decide(prop, tier, seed, spec, bdir, t0)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)

def decide(prop, tier, seed, spec, bdir, t0):
    units = []
    for u in spec['units']:
        for (ti, li) in combos_for(u, tier):
            units.append(dict(mod=u['mod'], tag=u.get('tag', ''), ti=ti, li=li, variant=u.get('variant', 'asan'),
                              extra=u.get('extra', {}), famprefix=u.get('fam'), mult=u.get('mult', 1) if tier == 'quick' else u.get('tmult', u.get('mult', 1)), shards=u.get('shards'), env=u.get('env', {}), kinds=u.get('kinds')))
    if spec.get('prebuild'):
        spec['prebuild'](REPO, bdir)
    for u in units:
        ex = u['extra']
        if callable(ex): u['extra'] = ex(REPO, bdir)
    # heavier modules first, build and run pipelined
    results, errs, notes, build_s = [], [], [], 0.0
    nsh = max(1, min(8, (JOBS + len(units) - 1) // max(1, len(units))))
    # the workload is short compared with compilation: shard only when few units
    def work(u):
        exe, blog, bt = build_unit(u, bdir)
        if not exe:
            m = re.search(r'include/tlapack/([\w/]+\.hpp):\d+:\d+: (?:fatal )?error: (.*)', blog)
            if m and spec.get('compile_is_property'):
                v = dict(t='vio', kind='COMPILE', key='compile:' + m.group(1), fam=u['mod'], idx=0, msg='does not compile for this scalar/matrix type: ' + m.group(2)[:300],
                         desc='instantiation of the routines of module %s' % u['mod'], unit={k: u[k] for k in ('mod', 'tag', 'ti', 'li', 'variant', 'mult')}, log=blog[:6000])
                return [dict(vios=[v], stats=[], err=None, notes=[], unit=u)], bt
            return [dict(vios=[], stats=[], err='BUILD FAILED %s %d%d: %s' % (u['mod'], u['ti'], u['li'], blog[-1500:]), notes=[], unit=u)], bt
        return exe, bt
    with ThreadPoolExecutor(JOBS) as ex:
        futs = [(u, ex.submit(work, u)) for u in units]
        runs = []
        for u, f in futs:
            r, bt = f.result()
            build_s += bt
            if isinstance(r, list):
                results += r
                continue
            opts = dict(famprefix=u['famprefix'], mult=u['mult'] * spec.get('mult', {}).get(tier, 1), env=dict(spec.get('env', {}), **u['env']))
            uu = {k: u[k] for k in ('mod', 'tag', 'ti', 'li', 'variant', 'mult', 'env', 'kinds')}
            n = u['shards'] or (nsh if not spec.get('noshard') else 1)
            for s in range(n):
                runs.append(ex.submit(run_shard, r, uu, seed, tier, s, n, bdir, opts))
        for f in runs:
            results.append(f.result())
    evals = nontriv = events = checks = 0
    ratios, fams, counts, samples, vios = {}, {}, {}, [], []
    for r in results:
        if r['err']: errs.append(r['err'])
        notes += r['notes']
        for s in r['stats']:
            evals += s['evals']; nontriv += s['nontriv']; events += s['events']; checks += s['checks']
            for k, (n, m) in s['ratios'].items():
                a = ratios.setdefault(k, [0, 0.0]); a[0] += n; a[1] = max(a[1], m)
            for k, n in s['fams'].items(): fams[k] = fams.get(k, 0) + n
            for k, n in s['counts'].items(): counts[k] = counts.get(k, 0) + n
            if len(samples) < 24: samples += ['%s/%s%d%d %s' % (r['unit']['mod'], r['unit']['variant'], r['unit']['ti'], r['unit']['li'], x) for x in s['samples'][:4]]
        kinds = None
        for v in r['vios']:
            kinds = v['unit'].get('kinds') or spec.get('kinds')
            if kinds and v['kind'] not in kinds: continue
            vios.append(v)
    known = load_known()
    kn, new = {}, []
    for v in vios:
        k = match_known(prop, v, known)
        if k: kn.setdefault(k['id'], (k, v))
        else: new.append(v)
    for kid, (k, v) in sorted(kn.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for k in known:
        if k.get('status') == 'known' and k['property'] == prop and k['id'] not in kn:
            print('note: listed finding %s did not show in this run' % k['id'])
    rdir = os.path.join(HERE, 'replays'); os.makedirs(rdir, exist_ok=True)
    shown = {}
    for v in new:
        sig = (v['kind'], v['fam'], v['key'])
        if sig in shown:
            shown[sig] += 1
            continue
        shown[sig] = 1
        if len(shown) > 12: continue
        h = hashlib.sha1(json.dumps([prop, sig]).encode()).hexdigest()[:10]
        path = os.path.join(rdir, '%s_%s.json' % (prop, h))
        json.dump(dict(property=prop, seed=seed, tier=tier, violation=v), open(path, 'w'), indent=1)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  %s %s[%d] key=%s (%s T%d L%d): %s' % (v['kind'], v['fam'], v['idx'], v['key'], v['unit']['mod'], v['unit']['ti'], v['unit']['li'], v['msg'][:500]))
        print('  case: %s' % v['desc'][:400])
    if evals == 0 and not errs and not new:
        errs.append('nothing was observed')
    if spec.get('min_events') and events < spec['min_events'] and not new:
        errs.append('too few monitored events: %d' % events)
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=evals, distinct_nontrivial=nontriv,
                            rule=spec.get('rule', 'one case = one generated call sequence of a real routine judged by the oracle; distinct = distinct (family, option/shape/data description) hash with non-empty operands, counted per built configuration'),
                            samples=samples or ['(none)'], monitored_events=events, oracle_checks=checks,
                            families=fams, counters=counts,
                            oracle_worst_ratio_to_limit={k: v for k, v in sorted(ratios.items())},
                            configurations=['%s:%s:T%d:L%d' % (u['mod'] + u['tag'], u['variant'], u['ti'], u['li']) for u in units],
                            build_cpu_s=round(build_s, 1), notes=notes, errors=errs,
                            known_findings_seen=sorted(kn)),
              assumptions=spec.get('assumptions', ['held on the executions listed; nothing is claimed about inputs that were not generated']),
              wall_s=round(time.time() - t0, 2), violations=len(shown))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s seed=%d: %d cases (%d distinct non-trivial), %d oracle checks, %d monitored events, %d configurations, %.1fs' %
          (prop, tier, seed, evals, nontriv, checks, events, len(units), time.time() - t0))
    for n in notes: print('note:', n)
    if new: return 1
    if errs:
        for e in errs: print('ERROR:', e)
        return 2
    return 0

def replay(path):
    d = json.load(open(path))
    v, u = d['violation'], d['violation']['unit']
    spec = CHECKS[d['property']]
    extra = {}
    for su in spec['units']:
        if su['mod'] == u['mod'] and su.get('tag', '') == u.get('tag', ''): extra = su.get('extra', {})
    bdir = os.path.join(HERE, 'build', 'replay_%d' % os.getpid())
    os.makedirs(bdir, exist_ok=True)
    try:
        if callable(extra): extra = extra(REPO, bdir)
        exe, blog, _ = build_unit(dict(u, extra=extra), bdir)
        if not exe:
            print(blog); return 2
        env = dict(os.environ); env.update(SANENV); env.update(spec.get('env', {})); env.update(u.get('env') or {})
        r = subprocess.run([exe, '--seed', str(d['seed']), '--tier', d['tier'], '--fam', v['fam'], '--case', str(v['idx']), '--replay'], env=env)
        print('exit', r.returncode)
        return r.returncode
    finally:
        shutil.rmtree(bdir, ignore_errors=True)

if __name__ == '__main__':
    sys.exit(main())
