"""Entry point: extract the type-checked program from /repo's working tree, analyse it, report."""
import sys, os, json, subprocess, tempfile, shutil, time, traceback, hashlib
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REPO = os.environ.get('LFA_REPO', '/repo')
T0 = time.time()

def sh(cmd, **kw): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def sysroot(): return sh(['rustc', '+nightly', '--print', 'sysroot']).stdout.strip()

def build_extractor(scratch=None):
    src = os.path.join(ROOT, 'extract', 'main.rs')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    for d in (os.path.join(ROOT, '.work'), scratch):
        if d is None: continue
        try: os.makedirs(d, exist_ok=True)
        except OSError: continue
        out = os.path.join(d, 'extract-' + h)
        if os.path.exists(out): return out
        tmp = out + '.%d' % os.getpid()
        p = sh(['rustc', '+nightly', '-O', '--edition', '2021', src, '-o', tmp])
        if p.returncode == 0: os.replace(tmp, out); return out
        if d is scratch or scratch is None: sys.stderr.write(p.stdout); return None
    return None

def feature_branches():
    "does the source choose between behaviours by cargo feature, beyond items that only exist with one?"
    import re
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in fs:
            if not f.endswith('.rs'): continue
            try: t = open(os.path.join(d, f), errors='replace').read()
            except OSError: continue
            if re.search(r'\bcfg\s*!\s*\([^;{}]*\bfeature\b', t) or re.search(r'\bnot\s*\([^)]*\bfeature\s*=', t): return True
            for m in re.finditer(r'#\s*\[\s*cfg\s*\([^\]]*\bfeature\s*=[^\]]*\]\s*(\S+)', t):
                if re.split('[(<!]', m.group(1))[0] not in ('pub', 'extern', 'use', 'mod', 'impl', 'struct', 'enum', 'fn', 'trait', 'macro_use', '#[macro_use]', '#[derive', '#[serde'): return True
    return False

REJECTED = {}
def extract(tool, scratch, features):
    out = os.path.join(scratch, 'dump-%s.json' % (features or 'default'))
    env = dict(os.environ)
    env['LD_LIBRARY_PATH'] = sysroot() + '/lib'
    env['RUSTC_WORKSPACE_WRAPPER'] = tool; env['EXTRACT_CRATE'] = 'lfa'; env['EXTRACT_OUT'] = out
    env['CARGO_NET_OFFLINE'] = 'true'; env['CARGO_TERM_COLOR'] = 'never'
    man = os.path.join(REPO, 'Cargo.toml')
    if not os.path.exists(os.path.join(REPO, 'Cargo.lock')):
        # no lock file in the tree: analyse the same files from a scratch directory, so that cargo writes nothing in /repo
        cp = os.path.join(scratch, 'tree')
        if not os.path.exists(cp):
            shutil.copytree(REPO, cp, ignore=shutil.ignore_patterns('.git', 'target'))
            shutil.copy(os.path.join(ROOT, 'extract', 'Cargo.lock.fallback'), os.path.join(cp, 'Cargo.lock'))
        man = os.path.join(cp, 'Cargo.toml')
    cmd = ['cargo', '+nightly', 'check', '--offline', '--lib', '--manifest-path', man,
           '--target-dir', os.path.join(scratch, 'target-%s' % (features or 'default'))]
    if features: cmd += ['--features', features]
    p = sh(cmd, env=env)
    if p.returncode != 0 or not os.path.exists(out):
        sys.stderr.write(p.stdout[-4000:])
        errs = [l for l in p.stdout.split('\n') if l.startswith('error')]
        if any('could not compile `lfa`' in l for l in errs): REJECTED[features or 'default'] = (errs, [l.strip() for l in p.stdout.split('\n') if l.strip().startswith('--> src')])
        return None
    with open(out) as f: d = json.load(f)
    if os.path.exists(out + '.nodebug'):
        with open(out + '.nodebug') as f: r = json.load(f)
        if any(d.get(k) != r.get(k) for k in ('fns', 'adts', 'impls', 'traits', 'statics', 'types')): RELEASE[features or 'default'] = r
    else: RELEASE[features or 'default'] = None
    return d
RELEASE = {}   # the crate without debug assertions, where that is a different program (None: it does not compile)

LEVEL = 'other'
def known():
    p = os.path.join(ROOT, 'known-findings.json')
    return json.load(open(p)).get('findings', []) if os.path.exists(p) else []

def report(pid, tier, S, extra_assume=()):
    from collections import Counter
    import registry
    info = registry.CHECKS[pid]
    kf = {(k['property'], k['rule'], k['fn']): k for k in known()}
    viol, found = [], []
    for o in S.obs:
        if o.status == 'violated':
            k = kf.get((pid, o.rule, o.fn))
            (found if k else viol).append(o)
    cnt = Counter(o.status for o in S.obs)
    floor = info.get('floor', 1)
    proved = [o for o in S.obs if o.status == 'proved']; other = [o for o in S.obs if o.status not in ('proved', 'agree')]
    sample = [{'rule': o.rule, 'where': o.fn, 'site': o.site, 'status': o.status} for o in proved[:12]]
    rest = [{'rule': o.rule, 'where': o.fn, 'site': o.site, 'status': o.status, 'detail': o.detail[:400]} for o in other[:60]]
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': LEVEL,
          'coverage': {
              'explanation': info['explain'],
              'functions_analysed': len(S.analysed), 'call_sites_analysed': S.sites,
              'obligations': len(S.obs), 'discharged': cnt['proved'] + cnt['agree'],
              'discharged_by_normal_form': cnt['proved'], 'discharged_by_evaluation_only': cnt['agree'],
              'undecided': cnt['undecided'], 'violated': cnt['violated'], 'known_findings': len(found),
              'obligations_by_rule': dict(Counter(o.rule.split(':')[0] for o in S.obs).most_common(60)),
              'functions': sorted(S.analysed)[:120], 'samples': sample, 'not_discharged': rest},
          'assumptions': registry.ASSUME + list(info.get('assume', ())),
          'wall_s': round(time.time() - T0, 2), 'violations': len(viol)}
    EV = os.path.join(ROOT, 'evidence') if not os.environ.get('LFA_NOEV') else tempfile.mkdtemp(prefix='lfa-ev-')
    os.makedirs(EV, exist_ok=True)
    path = os.path.join(EV, pid + '.json')
    with open(path, 'w') as f: json.dump(ev, f, indent=1)
    for o in found:
        k = kf[(pid, o.rule, o.fn)]
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for o in S.obs:
        if o.status == 'undecided': print('undecided: %s [%s] %s' % (o.rule, o.fn, o.detail[:200]))
    print('%s: %d obligations over %d functions: %s' % (pid, len(S.obs), len(S.analysed), dict(cnt)))
    if viol:
        rp = os.path.join(EV, pid + '.violation.json')
        with open(rp, 'w') as f:
            json.dump({'property': pid, 'violations': [{'rule': o.rule, 'function': o.fn, 'site': o.site, 'detail': o.detail[:1500]} for o in viol[:40]],
                       'reproduce': './check.sh %s' % pid}, f, indent=1)
        for o in viol[:10]: print('  %s [%s] %s: %s' % (o.rule, o.fn, o.site, o.detail[:500]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0

def main(argv):
    if argv and argv[0] == '--setup': return 0 if build_extractor() else 2
    import registry
    pid = argv[0]; tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    info = registry.CHECKS[pid]
    scratch = tempfile.mkdtemp(prefix='lfa-check-')
    try:
        tool = build_extractor(scratch)
        if not tool: return 2
        dumps = {}
        for feat in info.get('needs', ('',)):
            d = extract(tool, scratch, feat)
            if d is None and feat and feat in REJECTED:
                # the configuration this property is about no longer type-checks; the default one must, or nothing can be said
                d = dumps.get('default') or extract(tool, scratch, '')
                if d is None: print('extraction failed'); return 2
                import core
                S = core.Session(d, tier); errs, at = REJECTED[feat]
                S.put('the crate type-checks with the %s feature enabled' % feat, {'path': 'crate', 'sp': (at or [''])[-1].replace('--> ', '')}, 'violated', '; '.join(errs)[:600])
                return report(pid, tier, S)
            if d is None: print('extraction failed'); return 2
            dumps[feat or 'default'] = d
        import core, importlib, terms
        if tier == 'thorough': terms.more_lanes(4)
        d = dumps.get('default') or dumps['serde']
        S = core.Session(d, tier); S.dumps = dumps
        m = importlib.import_module(info['module'])
        S.guard(pid, lambda: getattr(m, pid)(S))
        if RELEASE:
            # some code is compiled only with, or only without, debug assertions: both programs must satisfy the property
            if any(r is None for r in RELEASE.values()): S.put('the crate type-checks without debug assertions', {'path': 'crate', 'sp': ''}, 'undecided', 'it does not')
            else:
                dr = {k: RELEASE.get(k, v) for k, v in dumps.items()}
                R = core.Session(dr.get('default') or dr['serde'], tier); R.dumps = dr
                R.guard(pid, lambda: getattr(m, pid)(R))
                have = {(o.rule, o.fn, o.status) for o in S.obs}
                S.obs += [o for o in R.obs if (o.rule, o.fn, o.status) not in have]
        if 'serde' not in dumps and feature_branches():
            # code that asks which features are on: the property must hold with them as well
            d = extract(tool, scratch, 'serde,blas') or extract(tool, scratch, 'serde')
            if d is None: S.put('the crate type-checks with the serde feature enabled', {'path': 'crate', 'sp': ''}, 'undecided', 'it does not')
            else:
                R = core.Session(d, tier); R.dumps = dict(dumps, serde=d)
                R.guard(pid, lambda: getattr(m, pid)(R))
                have = {(o.rule, o.fn, o.status) for o in S.obs}
                S.obs += [o for o in R.obs if (o.rule, o.fn, o.status) not in have]
        return report(pid, tier, S)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = [2]
    def go():
        try: rc[0] = main(sys.argv[1:])
        except Exception: traceback.print_exc()
    t = threading.Thread(target=go); t.start(); t.join()
    sys.stdout.flush()
    os._exit(rc[0])
