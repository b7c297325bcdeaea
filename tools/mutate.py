#!/usr/bin/env python3
"""mutate.py OUT NPERFILE [file-regex]: mutation campaign. Plants small random faults into the headers (in scratch copies), runs the check of the
property the header belongs to and reports the mutants it did not notice."""
import os, re, random, subprocess, sys, shutil, json, time
from concurrent.futures import ThreadPoolExecutor
import threading
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/mut'
PROP = [
 (r'legacy_api/blas', 'C25'),
 (r'blas/(asum|axpy|copy|dot|dotu|iamax|nrm2|rot|rotm|scal|swap)\.hpp', 'C01'),
 (r'(blas/(lartg|rotg|rotmg)|lapack/(lapy2|lapy3|ladiv|lassq|rscl|lascl))\.hpp', 'C02'),
 (r'blas/(gemv|ger|geru|hemv|symv|her|her2|syr|syr2|trmv|trsv)\.hpp', 'C03'),
 (r'blas/', 'C04'),
 (r'lapack/(lauum_recursive|lu_mult|ul_mult|mult_|gemmtr|trmm_out|trmm_blocked|trsm_tri|hemm2|trtri)', 'C05'),
 (r'lapack/(lacpy|laset|conjugate|transpose|rot_sequence|larnv|lasrt|lamrg)', 'C06'),
 (r'lapack/(lan..|hasnan|hasinf|infnorm.*)\.hpp', 'C07'),
 (r'lapack/(larf|larfg|larft|larfb|inv_house3)\.hpp', 'C08'),
 (r'lapack/(ge(qr|lq|ql|rq)|trge|householder|gen_house|ungq|ungl|ungr|ung2|unmq|unml|unmr|unm2)', 'C09'),
 (r'lapack/(getrf|getri)', 'C10'),
 (r'lapack/(potf|potr|potri|potrs|pbtrf|pttrf)', 'C11'),
 (r'lapack/(gehd2|gehrd|lahr2|hessenberg|unghr|unmhr|gghrd|gghd3|hessenberg_rq)', 'C12'),
 (r'lapack/(generalized_)', 'C16'),
 (r'lapack/(lahqz|multishift_qz|aggressive_early_deflation_gen)', 'C15'),
 (r'lapack/(schur_swap|schur_move|lasy2|lahqr_schur22)', 'C14'),
 (r'lapack/(lahqr|multishift_qr|qr_iter|aggressive|move_bulge)', 'C13'),
 (r'lapack/trevc', 'C17'),
 (r'lapack/(gebd2|gebrd|labrd|bidiag|ungbr|svd_qr|gesvd|svd22|singularvalues22)', 'C18'),
 (r'lapack/(hetd2|ungtr|steqr|lae2|laev2)', 'C19'),
 (r'lapack/laed[456]', 'C20'),
 (r'lapack/(tik|tkh)', 'C21'),
 (r'lapack/(hetrf|hetf3)', 'C31'),
 (r'base/workspace', 'C23'),
 (r'(plugins/legacyArray|base/arrayTraits|Legacy.*\.hpp|plugins/stdvector)', 'C30'),
 (r'base/(utils|scalar|constants|types)', 'C30'),
 (r'base/StrongZero', 'C29'),
 (r'legacy_api/blas', 'C25'),
]
def prop(f):
    for r, p in PROP:
        if re.search(r, f): return p
OPS = [
 (r'(?<=[\w\)\]]) < (?=[\w\(])', ' <= '), (r'(?<=[\w\)\]]) <= (?=[\w\(])', ' < '),
 (r'(?<=[\w\)\]]) > (?=[\w\(])', ' >= '), (r'(?<=[\w\)\]]) >= (?=[\w\(])', ' > '),
 (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '),
 (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \+ 1\b', ' + 2'), (r' \+ (?=[a-zA-Z])', ' - '), (r' - (?=[a-zA-Z])', ' + '),
 (r' \* (?=[a-zA-Z(])', ' / '), (r'\bconj\(', '('), (r'\bmin\b', 'max'), (r'\bmax\b', 'min'), (r'\bmin<idx_t>', 'max<idx_t>'),
 (r'Uplo::Upper', 'Uplo::Lower'), (r'Uplo::Lower', 'Uplo::Upper'), (r'UPPER_TRIANGLE', 'LOWER_TRIANGLE'), (r'LOWER_TRIANGLE', 'UPPER_TRIANGLE'),
 (r'LEFT_SIDE', 'RIGHT_SIDE'), (r'RIGHT_SIDE', 'LEFT_SIDE'), (r'CONJ_TRANS', 'NO_TRANS'), (r'\bNO_TRANS', 'CONJ_TRANS'), (r'CONJ_TRANS', 'TRANSPOSE'),
 (r'UNIT_DIAG\b', 'NON_UNIT_DIAG'), (r'NON_UNIT_DIAG', 'UNIT_DIAG'), (r'Op::Trans\b', 'Op::ConjTrans'), (r'Op::ConjTrans', 'Op::Trans'),
 (r'(?<=[\(\s])0(?=[;,\)])', '1'), (r'(?<=[\(\s])1(?=[;,\)])', '0'), (r'\bone\b', 'zero'), (r'\bzero\b', 'one'), (r' = -', ' = '), (r'\+=', '-='), (r'-=', '+='), (r'\bi\b', 'j'), (r'\bj\b', 'i'),
 (r'\*=', '='), (r'\breal\(', '('), (r'abs1\(', 'real('), (r'\+\+', '--') ,
]
SKIP = re.compile(r'^\s*(//|\*|/\*|#|template|using|typename|TLAPACK|tlapack_check|static|namespace|@|class|struct|constexpr|inline|const auto&|tlapack_error)|tlapack_check|worksize|throw|static_assert|assert|if constexpr|enable_if|tlapack_error')
def mutants(f, text, rnd, n):
    L = text.split('\n')
    depth_ok = []
    body = False
    cand = []
    incomment = False
    for i, l in enumerate(L):
        if '/*' in l: incomment = True
        if incomment:
            if '*/' in l: incomment = False
            continue
        code = l.split('//')[0]
        if SKIP.search(code) or not code.strip(): continue
        if not code.startswith('    '): continue
        for r, s in OPS:
            for m in re.finditer(r, code):
                cand.append((i, code[:m.start()] + s + code[m.end():]))
        if re.match(r'^\s+[\w\(\)\[\], \.]+ [-+*]?= .*;$', code) and not re.match(r'^\s+(const|auto|idx_t|real_t|TA|int|T|using)\b', code): cand.append((i, ''))
        if re.match(r'^\s+\w+\(.*\);$', code): cand.append((i, ''))
        m = re.match(r'^(\s*(?:else )?if \()(.*)(\)( \{)?)$', code)
        if m:
            cand.append((i, m.group(1) + 'true' + m.group(3)))
            cand.append((i, m.group(1) + 'false' + m.group(3)))
    rnd.shuffle(cand)
    # at most 2 per line
    out, seen = [], {}
    for i, new in cand:
        if seen.get(i, 0) >= 1: continue
        if new == L[i]: continue
        seen[i] = 1
        out.append((i, L[i], new))
        if len(out) >= n * 3: break
    return out
def main():
    out, n = sys.argv[1], int(sys.argv[2])
    rx = re.compile(sys.argv[3] if len(sys.argv) > 3 else '.')
    seed = int(os.environ.get('MSEED', '1'))
    NW = int(os.environ.get('MW', '4'))
    files = subprocess.run('cd /repo && git ls-files include', shell=True, capture_output=True, text=True).stdout.split()
    jobs = []
    for f in files:
        p = prop(f)
        if not p or not rx.search(f) or 'laed2' in f or 'legacy_api/lapack' in f or 'api/blas/types' in f or 'starpu' in f: continue
        t = open('/repo/' + f).read()
        rnd = random.Random(f + str(seed))
        jobs.append((f, p, t, mutants(f, t, rnd, n)))
    random.Random(seed).shuffle(jobs)
    lock = threading.Lock()
    free = list(range(NW))
    for k in free:
        shutil.rmtree('%s/w%d' % (W, k), ignore_errors=True)
        os.makedirs('%s/w%d' % (W, k))
        subprocess.run(['cp', '-a', '/repo/include', '/repo/src', '%s/w%d/' % (W, k)])
        shutil.rmtree('%s/v%d' % (W, k), ignore_errors=True)
        os.makedirs('%s/v%d' % (W, k))
        for x in ('run.py', 'checks.py', 'known_findings.json', 'harness'):
            subprocess.run(['cp', '-a', HERE + '/' + x, '%s/v%d/' % (W, k)])
    res = open(out, 'a')
    def one(job):
        f, p, t, ms = job
        with lock: k = free.pop()
        done = 0
        try:
            for i, old, new in ms:
                if done >= n: break
                L = t.split('\n'); L[i] = new
                open('%s/w%d/%s' % (W, k, f), 'w').write('\n'.join(L))
                env = dict(os.environ, VK_REPO='%s/w%d' % (W, k), VK_JOBS='2', VK_CCACHE='0', VK_COMBOS=os.environ.get('MCOMBOS', {'C20': '10', 'C30': '10,30', 'C25': '10,20'}.get(p, '11,20')), VK_O0='1')
                t0 = time.time()
                try:
                    r = subprocess.run(['timeout', '-k', '5', '240', 'python3', '%s/v%d/run.py' % (W, k), p, 'quick'], capture_output=True, text=True, env=env)
                    o, rc = r.stdout, r.returncode
                except Exception as e:
                    o, rc = str(e), -1
                if 'BUILD FAILED' in o: continue
                st = 'caught' if 'VIOLATION' in o else 'hang' if rc in (124, 137) else 'err' if rc == 2 else 'SURVIVED' if rc == 0 else 'rc%d' % rc
                done += 1
                with lock:
                    res.write(json.dumps(dict(f=f, p=p, line=i + 1, old=old.strip(), new=new.strip(), st=st, s=round(time.time() - t0, 1), o=o[-300:] if st in ('err',) else '')) + '\n'); res.flush()
        finally:
            open('%s/w%d/%s' % (W, k, f), 'w').write(t)
            with lock: free.append(k)
    with ThreadPoolExecutor(NW) as ex:
        list(ex.map(one, jobs))
main()
