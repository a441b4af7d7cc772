"""mutate.py WORKER NWORKERS OUT [CAP] [FILE...] -- run inside `unshare -m` with scratch copies bound over
/repo and /verif (see mutate.sh).  Applies single-token mutants to the files properties are anchored in and
runs the quick checks of those properties; writes one json line per mutant."""
import json, re, subprocess, sys, os
from collections import defaultdict
W, N, OUT, CAP = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], int(sys.argv[4])
only = sys.argv[5:]
props = defaultdict(list)
for l in open('/verif/properties.jsonl'):
    d = json.loads(l)
    for f in d['anchors']['files']:
        props[f].append(d['id'])
for f, ps in json.load(open('/verif/tools/extra_files.json')).items():
    props[f] += [p for p in ps if p not in props[f]]
REPL = [(r' \+ ', ' - '), (r' - ', ' + '), (r' \* ', ' / '), (r' / ', ' * '), (r' \+= ', ' -= '), (r' -= ', ' += '),
 (r' \*= ', ' /= '), (r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '),
 (r' && ', ' || '), (r' \|\| ', ' && '), (r'\.\.=', '..'), (r'(?<=\d)\.\.(?=[\w(])', '..='), (r' % ', ' / '),
 (r'\bsin\(', 'cos('), (r'\bcos\(', 'sin('), (r'\.min\(', '.max('), (r'\.max\(', '.min('), (r'\.abs\(\)', ''), (r'\.sqrt\(\)', ''),
 (r'\.floor\(\)', '.ceil()'), (r'\bONE\b', 'ZERO'), (r'\bZERO\b', 'ONE'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
 (r'\[0\]', '[1]'), (r'\[1\]', '[2]'), (r'\[1\]', '[0]'), (r'\[2\]', '[1]'), (r'\(-(?=[\w(])', '('), (r'(?<=[(\s])!(?=[\w(])', ''),
 (r'\bSome\((\w+)\)(?= =>)', None), (r'\brem_euclid\(', 'div_euclid('), (r'\bdiv_euclid\(', 'rem_euclid('),
 (r'\bfirst\(', 'last('), (r'\blast\(', 'first('), (r'\bis_some\(', 'is_none('), (r'\bis_none\(', 'is_some('),
 (r'\bx\(\)', 'y()'), (r'\by\(\)', 'z()'), (r'\bz\(\)', 'x()'), (r'saturating_sub\(', 'saturating_add('), (r'saturating_add\(', 'saturating_sub('), (r'checked_add\(', 'checked_sub('), (r'checked_sub\(', 'checked_add(')]
def mutants(src):
    lines = src.split('\n')
    depth = None
    out = []
    block = False
    for i, l in enumerate(lines):
        if '#[cfg(test)]' in l or l.strip().startswith('mod tests {'):
            break
        s = l.strip()
        if not s or s.startswith(('//', '#[', 'use ', 'pub use', 'mod ', 'pub mod', '*', '/*', 'extern')):
            continue
        code = l.split('//')[0]
        strs = [(m.start(), m.end()) for m in re.finditer(r'"(?:[^"\\]|\\.)*"', code)]
        inside = lambda p: any(a <= p < b for a, b in strs)
        for pat, rep in REPL:
            if rep is None:
                continue
            for m in re.finditer(pat, code):
                if not inside(m.start()):
                    out.append((i, code[:m.start()] + rep + code[m.end():]))
        for m in re.finditer(r'(?<![\w.\[])(\d+(?:_\d+)*)(\.\d+(?:[\d_]*)?)?(e-?\d+)?(?![\w.]*\()', code):
            if inside(m.start()):
                continue
            t = m.group(0)
            try:
                v = float(t.replace('_', ''))
            except ValueError:
                continue
            if m.group(2) or m.group(3):
                new = repr(v * 1.01) if v else '0.01'
                if '.' not in new and 'e' not in new: new += '.0'
            else:
                new = str(int(v) + 1)
            out.append((i, code[:m.start()] + new + code[m.end():]))
        if s.endswith(';') and not s.startswith(('let ', 'return', 'pub ', 'const ', 'type ', '}', 'static', 'fn ')):
            out.append((i, re.match(r'\s*', l).group(0) + '{}'))
    return lines, out
def crate(p):
    return subprocess.check_output(['bash', '-c', f'cd /verif; . ./env.sh; crate_of {p}'], text=True).strip()
done = set()
if os.path.exists("/tmp/mut/done"):
    for l in open("/tmp/mut/done"):
        d = json.loads(l); done.add((d["file"], d["line"], d["new"]))
if os.path.exists(OUT):
    for l in open(OUT):
        d = json.loads(l); done.add((d['file'], d['line'], d['new']))
out = open(OUT, 'a')
jobs = []
for f in sorted(props):
    if only and not any(o in f for o in only):
        continue
    lines, ms = mutants(open('/repo/' + f).read())
    step = max(1, -(-len(ms) // CAP))
    jobs += [(f, m) for m in ms[::step]]
mine = [j for k, j in enumerate(jobs) if k % N == W]
print(f'worker {W}: {len(mine)} of {len(jobs)}', flush=True)
for f, (i, new) in mine:
    if (f, i + 1, new.strip()) in done:
        continue
    p = '/repo/' + f
    src = open(p).read()
    lines = src.split('\n')
    old = lines[i]
    lines[i] = new
    open(p, 'w').write('\n'.join(lines))
    res = 'survived'; by = ''
    try:
        built = {}
        for q in props[f]:
            c = crate(q)
            if c not in built:
                built[c] = subprocess.run(['bash', '-c', f'cd /verif; . ./env.sh; build_crate {c}'], capture_output=True).returncode == 0
            if not built[c]:
                res = 'nocompile'; break
            try:
                r = subprocess.run(['timeout', '-k', '5', '240', './check.sh', q, 'quick'], cwd='/verif', capture_output=True, text=True)
                if r.returncode == 1 and f'VIOLATION property={q}' in r.stdout:
                    res = 'killed'; by = q; break
                if r.returncode not in (0, 1):
                    res = 'noanswer'; by = f'{q}:{r.returncode}'
            except Exception as e:
                res = 'error'; by = str(e)
    finally:
        open(p, 'w').write(src)
    out.write(json.dumps({'file': f, 'line': i + 1, 'old': old.strip(), 'new': new.strip(), 'res': res, 'by': by}) + '\n'); out.flush()
