#!/usr/bin/env python3
"""mkseed.py SPEC...  makes /verif/seeded/NAME from a spec file:
property: ID / needs: .. / breaks: .. / file: PATH, then <<<<, old text, ====, new text, >>>>
(repeatable, with an optional count of the occurrence after <<<<), then 'main:' and the program."""
import sys, re, os, json, subprocess, shutil, tempfile
lib = '/verif/tools/seedkit'
for f in sys.argv[1:]:
    name = os.path.basename(f).rsplit('.', 1)[0]
    head, _, main = open(f).read().partition('\nmain:\n')
    meta, edits, path = {}, [], None
    it = iter(head.split('\n'))
    for l in it:
        m = re.match(r'(property|needs|breaks|file): *(.*)', l)
        if m and m[1] == 'file': path = m[2]
        elif m: meta[m[1]] = m[2]
        elif l.startswith('<<<<'):
            nth = int(l[4:].strip() or 0); old, new, cur = [], [], None
            cur = old
            for l in it:
                if l == '====': cur = new
                elif l == '>>>>': break
                else: cur.append(l)
            edits.append((path, '\n'.join(old), '\n'.join(new), nth))
    tmp = tempfile.mkdtemp(prefix='mk.', dir='/tmp')
    subprocess.run(['git', '-C', '/repo', 'worktree', 'prune'])
    subprocess.run(f'git -C /repo archive HEAD | tar x -C {tmp}', shell=True, check=True)
    subprocess.run('git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x', shell=True, cwd=tmp, check=True)
    for p, old, new, nth in edits:
        s = open(f'{tmp}/{p}').read()
        n = s.count(old)
        if n == 0 or (n > 1 and not nth): sys.exit(f'{name}: {p}: found {n} times: {old!r}')
        i = -1
        for _ in range(max(nth, 1)): i = s.index(old, i + 1)
        open(f'{tmp}/{p}', 'w').write(s[:i] + new + s[i + len(old):])
    for p in {e[0] for e in edits}:
        if p.endswith('.go') and 'parse.go' not in p: subprocess.run(['gofmt', '-w', p], cwd=tmp)
    diff = subprocess.run(['git', 'diff'], cwd=tmp, capture_output=True, text=True).stdout
    shutil.rmtree(tmp)
    d = f'/verif/seeded/{name}'
    os.makedirs(d, exist_ok=True)
    open(f'{d}/patch.diff', 'w').write(diff)
    open(f'{d}/main.go', 'w').write(main)
    shutil.copy(f'{lib}/demo.sh', f'{d}/demo.sh'); os.chmod(f'{d}/demo.sh', 0o755)
    if re.search(r'\b(newPeer|die|must|newCall)\(', main): shutil.copy(f'{lib}/lib.go', f'{d}/lib.go')
    if re.search(r'\bservers\(', main): shutil.copy(f'{lib}/dns.go', f'{d}/dns.go')
    if re.search(r'\bfone\(', main): shutil.copy(f'{lib}/fone.go', f'{d}/fone.go'); shutil.copy(f'{lib}/stage.c', f'{d}/stage.c')
    orig = False # does it touch lines of the original repository?
    path, n = None, 0
    for l in diff.split('\n'):
        if l.startswith('--- a/'): path = l[6:]
        elif l.startswith('@@'): n = int(re.match(r'@@ -(\d+)', l)[1])
        elif l.startswith('-') and not l.startswith('---'):
            b = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-L', f'{n},{n}', path], capture_output=True, text=True).stdout
            orig |= b.startswith('^9c4e297'); n += 1
        elif l.startswith(' '): n += 1
    if not orig: print(name, 'WARNING: changes no original line')
    json.dump({'property': meta['property'], 'needs': meta['needs'], 'what_it_breaks': meta['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
    print('made', name)
