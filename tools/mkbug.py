#!/usr/bin/env python3
"""mkbug.py SPEC.py: plant a bug in /repo, confirm it, record it, undo it.
SPEC defines id, property, needs, breaks, edits=[(file, old, new)], demo (text), files={name: text}"""
import sys, os, subprocess, json, re
spec = {}
exec(open(sys.argv[1]).read(), spec)
R = '/repo'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
assert sh('git -C /repo status --porcelain').stdout == '', 'dirty'
d = f'/verif/seeded/{spec["id"]}'
os.makedirs(d, exist_ok=True)
open(d + '/demo.sh', 'w').write(spec['demo'])
for n, t in spec.get('files', {}).items(): open(f'{d}/{n}', 'w').write(t)
json.dump({'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(d + '/meta.json', 'w'), indent=1)
checks = spec.get('checks', [spec['property']])
ok = True
try:
    if not os.environ.get('SKIPCLEAN'):
        b = sh('bash /opt/vp/build.sh')
        c = sh(f'bash {d}/demo.sh', cwd=R)
        print('demo clean:', c.returncode, (c.stdout + c.stderr)[-500:] if c.returncode else '')
        ok &= c.returncode == 0
    for f, old, new in spec['edits']:
        p = f'{R}/{f}'
        s = open(p).read()
        assert s.count(old) >= 1, ('not found', f, old)
        assert s.count(old) == 1, ('ambiguous', f, old)
        open(p, 'w').write(s.replace(old, new))
    open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
    base = sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.split()[-1]
    for f, old, new in spec['edits']:
        first = open(f'{R}/{f}').read().split(new)[0].count('\n') if new else 0
        text = sh(f'git -C /repo show HEAD:{f}').stdout
        a = text[:text.index(old)].count('\n') + 1; b = a + old.rstrip('\n').count('\n')
        for l in sh(f'git -C /repo blame -s -L {a},{b} HEAD -- {f}').stdout.splitlines():
            if not l.lstrip('^').startswith(base[:7]): print('MINE:', l)
    b = sh('bash /opt/vp/build.sh')
    if b.returncode: print(b.stderr[-3000:])
    ok &= b.returncode == 0
    t = sh('bash /opt/vp/test.sh /tmp/t_bug.json')
    base = json.load(open('/opt/vp/BASELINE.json')); res = json.load(open('/tmp/t_bug.json'))
    m = re.findall(r'(\d+) passed, (\d+) failed', t.stdout + t.stderr)
    print('tests:', m[-1:] )
    ok &= bool(m) and m[-1][1] == '0'
    c = sh(f'bash {d}/demo.sh', cwd=R)
    print('demo bug:', c.returncode, (c.stdout + c.stderr)[-400:])
    ok &= c.returncode != 0
    for ch in checks:
        r = sh(f'VERIF_SEED=1 /verif/run.sh check {ch} quick')
        print('check', ch, r.returncode, [l for l in r.stdout.splitlines() if l.startswith(('VIOLATION', '-->'))], r.stderr[-300:] if r.returncode not in (0, 1) else '')
finally:
    sh('git -C /repo checkout -- .')
print('OK' if ok else 'NOT CONFIRMED', spec['id'])
