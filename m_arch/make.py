#!/usr/bin/env python3
"""Writes the builds explored by M08 below OUT: copies of /repo's aether_core in which the target questions (target_arch,
target_feature, is_x86_feature_detected!) are answered as on the machine of that build, and the NEON intrinsics are those
of neon.rs. Nothing else of the source is touched."""
import os, re, sys
repo, out = sys.argv[1:3]
here = os.path.dirname(os.path.abspath(__file__))
core = f'{repo}/crates/aether_core/src'
X = ['sse', 'sse2']
# name, features, architecture, target features fixed at compile time, CPU features detected at run time
BUILDS = [
    ('std simd fma, AVX and FMA', 'std simd fma', 'x86_64', X, X + ['avx', 'fma']),
    ('std simd fma, AVX only', 'std simd fma', 'x86_64', X, X + ['avx']),
    ('std simd fma, FMA without AVX', 'std simd fma', 'x86_64', X, X + ['fma']),
    ('std simd fma, SSE2 only', 'std simd fma', 'x86_64', X, X),
    ('std simd fma, SSE only, 32 bit', 'std simd fma', 'x86', ['sse'], ['sse']),
    ('std simd fma, plain 32 bit', 'std simd fma', 'x86', [], []),
    ('std simd, AVX and FMA', 'std simd', 'x86_64', X, X + ['avx', 'fma']),
    ('std simd, SSE2 only', 'std simd', 'x86_64', X, X),
    ('std fma, AVX and FMA', 'std fma', 'x86_64', X, X + ['avx', 'fma']),
    ('no_std simd fma, built for AVX and FMA', 'no_std simd fma', 'x86_64', X + ['avx', 'fma'], []),
    ('no_std simd fma, built for AVX', 'no_std simd fma', 'x86_64', X + ['avx'], []),
    ('no_std simd fma, built for FMA without AVX', 'no_std simd fma', 'x86_64', X + ['fma'], []),
    ('no_std simd fma, built for SSE2', 'no_std simd fma', 'x86_64', X, []),
    ('no_std simd fma, built for SSE, 32 bit', 'no_std simd fma', 'x86', ['sse'], []),
    ('no_std simd fma, plain 32 bit', 'no_std simd fma', 'x86', [], []),
    ('no_std simd, built for AVX and FMA', 'no_std simd', 'x86_64', X + ['avx', 'fma'], []),
    ('no_std simd, built for SSE2', 'no_std simd', 'x86_64', X, []),
    ('no_std', 'no_std', 'x86_64', X, []),
    ('AArch64 std simd fma', 'std simd fma', 'aarch64', ['neon'], ['neon']),
    ('AArch64 no_std simd', 'no_std simd', 'aarch64', ['neon'], []),
    ('AArch64 no_std', 'no_std', 'aarch64', ['neon'], []),
    ('ARM no_std simd fma with DSP', 'no_std simd fma', 'arm', ['dsp'], []),
    ('ARM no_std simd without DSP', 'no_std simd', 'arm', [], []),
    ('ARM std simd with DSP', 'std simd', 'arm', ['dsp'], []),
]
def put(p, s):
    p = f'{out}/{p}'
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or open(p).read() != s:
        open(p, 'w').write(s)
def arch_only(s, arch):
    return re.sub(r'target_arch\s*=\s*"(\w+)"', lambda m: 'all()' if m[1] == arch else 'any()', s)
def answer(s, arch, fixed):
    s = arch_only(s, arch)
    s = re.sub(r'target_feature\s*=\s*"([\w.]+)"', lambda m: 'all()' if m[1] in fixed else 'any()', s)
    s = re.sub(r'((core|std)::(arch::)?)?is_(x86|aarch64)_feature_detected!', 'crate::cpu_has!', s)
    s = re.sub(r'(core|std)::arch::aarch64', 'crate::neon_standin', s)
    s = re.sub(r'(core|std)::arch::x86\b', r'\1::arch::x86_64', s)
    s = re.sub(r'(core|std)::arch::x86\b', r'\1::arch::x86_64', s)
    s = demand(s)
    return re.sub(r'#\[target_feature\(enable\s*=\s*"[^"]*neon[^"]*"\)\]', '', s)
def demand(s):
    """a function made for a processor feature says so when it is entered"""
    out, at = '', 0
    for m in re.finditer(r'#\[target_feature\(enable\s*=\s*"([^"]+)"\)\]', s):
        # the body is the first brace outside brackets and parentheses
        depth, i = 0, m.end()
        while i < len(s) and not (s[i] == '{' and depth == 0) and s[i] != ';':
            depth += {'[': 1, '(': 1, ']': -1, ')': -1}.get(s[i], 0)
            i += 1
        if i >= len(s) or s[i] == ';' or m.end() < at: continue
        out += s[at:i + 1] + ''.join(f' crate::demand_cpu!("{x.strip()}");' for x in m[1].split(','))
        at = i + 1
    return out + s[at:]
neon = open(f'{here}/neon.rs').read()
for i, (name, feats, arch, fixed, found) in enumerate(BUILDS):
    for d, _, fs in os.walk(core):
        if '/tests' in d: continue
        for f in fs:
            p = f'{d}/{f}'
            if not f.endswith('.rs') or p == f'{core}/main.rs': continue
            s = answer(open(p).read(), arch, fixed)
            if p == f'{core}/lib.rs':
                s += '\n#[doc(hidden)]\npub mod neon_standin;\n#[doc(hidden)]\n#[macro_export]\nmacro_rules! cpu_has {\n'
                s += ''.join(f'    ("{f}") => {{ true }};\n' for f in found) + '    ($x:literal) => { false };\n}\n'
                s += '#[doc(hidden)]\n#[macro_export]\nmacro_rules! demand_cpu {\n'
                s += ''.join(f'    ("{f}") => {{ }};\n' for f in sorted(set(found) | set(fixed)))
                s += '    ($x:literal) => { panic!("code for a processor with {} entered on one without", $x) };\n}\n'
            put(f'core{i}/src/{os.path.relpath(p, core)}', s)
    put(f'core{i}/src/neon_standin.rs', neon)
    put(f'core{i}/Cargo.toml', f'''[package]
name = "core{i}"
version = "0.1.0"
edition = "2021"
[features]
default = [{', '.join(f'"{x}"' for x in feats.split())}]
std = []
no_std = []
simd = []
fma = []
[dependencies]
libm = "0.2"
''')
    put(f'h{i}/Cargo.toml', f'''[package]
name = "h{i}"
version = "0.1.0"
edition = "2024"
[dependencies]
mckit = {{ path = "{here}/../kit" }}
aether_core = {{ path = "../core{i}", package = "core{i}" }}
''')
    put(f'h{i}/src/lib.rs', '#[allow(unused_macros)]\nmacro_rules! printed { ($x:expr, $want:expr) => { $want.len() > 0 } }\nmod att { #[allow(unused_imports)] pub use core::primitive::u8 as numbers; }\npub mod mat;\n')
    put(f'h{i}/src/mat.rs', arch_only(open(f'{here}/../m_core/src/mat.rs').read(), arch))
n = len(BUILDS)
put('main/Cargo.toml', '[package]\nname = "m_arch"\nversion = "0.1.0"\nedition = "2024"\n[dependencies]\n' + f'mckit = {{ path = "{here}/../kit" }}\n' + ''.join(f'h{i} = {{ path = "../h{i}" }}\n' for i in range(n)))
put('main/src/main.rs', f'''fn m08(r: &mut mckit::Run) {{
''' + ''.join(f'    r.build("{b[0]}", |r| h{i}::mat::m08(r));\n' for i, b in enumerate(BUILDS)) + f'''    r.bounds.push("{n} builds: x86 with every useful subset of SSE, SSE2, AVX and FMA found at run time (std) or fixed at compile time (no_std), AArch64, ARM with and without DSP; in each the spaces of M01 and of the entry points of M02".into());
    r.assumptions.push("operands are small integers; the machine of each build is stood in for by answering its target questions in a copy of the source, NEON intrinsics by scalar definitions".into());
}}
fn main() {{
    mckit::main(&[("M08", m08)])
}}
''')
put('Cargo.toml', '[workspace]\nresolver = "2"\nmembers = [' + ', '.join(f'"core{i}", "h{i}"' for i in range(n)) + ', "main"]\n[profile.release]\nopt-level = 0\ndebug-assertions = true\noverflow-checks = true\npanic = "unwind"\n')
if os.path.exists(f'{here}/Cargo.lock'): put('Cargo.lock', open(f'{here}/Cargo.lock').read())
