"""Writes /verif/seeded/<id>/ from edits + a demonstration program."""
import os, subprocess, json, tempfile, shutil
SEED = '/verif/seeded'
DEMO = '''#!/bin/bash
# builds and runs main.rs against the crates below the current directory
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-2026-04-01 CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
tmp="$(mktemp -d)"; trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"; cp "$here/main.rs" "$tmp/src/main.rs"; cp "$repo/Cargo.lock" "$tmp/Cargo.lock"
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$tmp/Cargo.toml"
cd "$tmp" && export CARGO_TARGET_DIR="$tmp/target" TMPDIR="$tmp" && cargo build -q --offline >/dev/null 2>"$tmp/log" || { tail -20 "$tmp/log"; exit 3; }
timeout 120 "$tmp/target/debug/demo"
'''
def bug(id, prop, deps, edits, main, needs, breaks, extra_deps='', pre='', files={}):
    d = f'{SEED}/{id}'
    os.makedirs(d, exist_ok=True)
    patch = ''
    byfile = {}
    for f, old, new in edits:
        byfile.setdefault(f, []).append((old, new))
    for f, es in byfile.items():
        src = subprocess.check_output(['git', '-C', '/repo', 'show', f'HEAD:{f}']).decode()
        out = src
        for old, new in es:
            assert out.count(old) == 1, (id, f, out.count(old), old)
            out = out.replace(old, new)
        with tempfile.TemporaryDirectory() as t:
            for side, txt in (('a', src), ('b', out)):
                p = f'{t}/{side}/{f}'
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, 'w', newline='').write(txt)
            r = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', f'a/{f}', f'b/{f}'], cwd=t, capture_output=True)
            patch += r.stdout.decode()
    open(f'{d}/patch.diff', 'w', newline='').write(patch)
    subprocess.check_call(['git', '-C', '/repo', 'apply', '--check', f'{d}/patch.diff'])
    open(f'{d}/main.rs', 'w').write(main.strip() + '\n')
    lines = '\n'.join(f'{x.split("+")[0]} = {{ path = "@REPO@/crates/{x.split("+")[0]}"' + (', features = ["std"]' if '+' in x else '') + ' }' for x in deps)
    open(f'{d}/Cargo.toml.in', 'w').write(f'[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2024"\n[dependencies]\n{lines}\n{extra_deps}\n[profile.dev]\ndebug = false\n[workspace]\n')
    open(f'{d}/demo.sh', 'w').write(DEMO.replace('cd "$tmp" && export', pre + 'cd "$tmp" && export'))
    for n, t in files.items(): open(f'{d}/{n}', 'w').write(t)
    os.chmod(f'{d}/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(f'{d}/meta.json', 'w'), indent=1)
