"""Writes and verifies planted bugs: python3 tools/plant.py FILE...  Each FILE defines BUGS = [dict(id, prop, needs, breaks, edits=[(file, old, new)], demo=rust main body, dev='')].
Verification happens in a scratch copy of /repo."""
import sys, os, subprocess, json, shutil, runpy, tempfile
ROOT = '/verif'
DEMO = '''#!/bin/bash
# exit 0: behaves as the property says; nonzero: broken. Run with the repository as working directory.
export HOME=${HOME:-/root} PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTC_WRAPPER RUSTFLAGS
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
w=$(mktemp -d /tmp/lfa-demo-XXXXXX) || exit 99
trap 'cd /; rm -rf "$w"' EXIT
mkdir -p "$w/src"
cat > "$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2018"
[workspace]
[dependencies]
lfa = { path = "$repo"%(feat)s }
ndarray = "0.15"
spaces = "5.0"
itertools = "0.10"
%(dev)s
EOF
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$w/Cargo.lock"
cp "$here/demo.rs" "$w/src/main.rs"
cd "$w" || exit 99
cargo +stable run --offline -q --target-dir "$w/target" 2>&1
'''
def sh(c, cwd=None, **k): return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def tests(repo):
    o = sh('RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true cargo test --workspace --no-fail-fast --offline 2>&1', repo).stdout
    import re
    o = re.sub(r' \(line \d+\)', '', o)
    return {l.split()[1] + ' ' + l.split('...')[0] for l in o.splitlines() if l.startswith('test ') and l.rstrip().endswith('... ok')}, o
def main(files, only=None):
    w = tempfile.mkdtemp(prefix='plant-'); repo = w + '/repo'
    sh('cp -a /repo %s' % repo)
    base, _ = tests(repo)
    print('baseline ok tests', len(base))
    try:
        for fl in files:
            for b in runpy.run_path(fl)['BUGS']:
                if only and b['id'] not in only: continue
                sh('git checkout -q -- .', repo)
                bad = None
                for f, old, new in b['edits']:
                    p = repo + '/' + f; t = open(p).read()
                    if t.count(old) != 1: bad = '%s: %d matches of %r' % (f, t.count(old), old[:60]); break
                    open(p, 'w').write(t.replace(old, new))
                if bad: print(b['id'], 'EDIT FAILS', bad); continue
                diff = sh('git diff', repo).stdout
                d = ROOT + '/seeded/' + b['id']; os.makedirs(d, exist_ok=True)
                open(d + '/patch.diff', 'w').write(diff)
                open(d + '/demo.sh', 'w').write(DEMO % dict(dev=b.get('dev', ''), feat=b.get('feat', ''))); os.chmod(d + '/demo.sh', 0o755)
                open(d + '/demo.rs', 'w').write(b['demo'])
                json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
                got, o = tests(repo)
                bt = sh('cargo +stable build --lib --features serde --offline -q', repo)
                r1 = sh('bash %s/demo.sh' % d, repo)
                sh('git checkout -q -- .', repo)
                r0 = sh('bash %s/demo.sh' % d, repo)
                ok = base <= got and r0.returncode == 0 and r1.returncode not in (0, 99) and bt.returncode == 0 and 'could not compile' not in r1.stdout
                print(b['id'], 'OK' if ok else 'REJECTED', 'lost tests: %s' % sorted(base - got) if not base <= got else '', 'clean rc', r0.returncode, 'bug rc', r1.returncode, 'build', bt.returncode)
                if not ok:
                    print(o[-1500:] if not got else '', bt.stdout[-1500:], r0.stdout[-1500:] if r0.returncode else '', r1.stdout[-1500:]); shutil.rmtree(d)
    finally: shutil.rmtree(w)
if __name__ == '__main__':
    a = sys.argv[1:]; only = None
    if '--only' in a: i = a.index('--only'); only = a[i+1].split(','); a = a[:i]
    main(a, only)
