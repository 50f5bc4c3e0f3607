"""make seeded/<id> from an edit list: used while developing; seed('id','PROP',[(path,a,b)],needs,breaks,demo_cpp,extra={file:text}, link='', sh=None)"""
import os, subprocess, json, shutil, tempfile
BASE = subprocess.run(['git','-C','/repo','rev-list','--max-parents=0','HEAD'],capture_output=True,text=True).stdout.strip()
SH = '''#!/bin/bash
# exit 0 when the behaviour is right, non-zero when it is not
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
g++ -std=c++14 -O0 %s -I/repo/include -I/repo/_build/arabica/include "$here/demo.cpp" /repo/_build/arabica/libarabica.a -lexpat %s -o "$work/demo" || exit 2
cd "$work" && timeout 120 ./demo
'''
def seed(id, prop, edits, needs, breaks, demo, extra={}, flags='', link='', sh=None):
    d = os.environ.get('V', '/verif') + '/seeded/' + id
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    t = tempfile.mkdtemp(prefix='mks')
    subprocess.run('git -C /repo archive HEAD include src | tar -x -C %s && cd %s && git init -q && git add -A && git -c user.email=a@b -c user.name=a commit -qm x' % (t, t), shell=True, check=True)
    for path, a, b in edits:
        p = os.path.join(t, path)
        s = open(p, newline='').read()
        crlf = '\r\n' in s
        if a not in s and crlf:
            a, b = a.replace('\n', '\r\n'), b.replace('\n', '\r\n')
        assert s.count(a) == 1, (id, path, s.count(a), a)
        open(p, 'w', newline='').write(s.replace(a, b))
    diff = subprocess.run(['git', '-C', t, 'diff'], capture_output=True).stdout
    # every removed/changed line must be an original one
    for path, a, b in edits:
        r = subprocess.run(['git', '-C', '/repo', 'show', BASE + ':' + path], capture_output=True)
        base = set(x.strip() for x in r.stdout.decode('latin-1').splitlines())
    bad = []
    cur = None
    for l in diff.decode('latin-1').splitlines():
        if l.startswith('+++ b/'): cur = l[6:]
        if l.startswith('-') and not l.startswith('---'):
            r = subprocess.run(['git', '-C', '/repo', 'show', BASE + ':' + cur], capture_output=True).stdout.decode('latin-1')
            if l[1:].strip() not in [x.strip() for x in r.splitlines()]: bad.append(l)
    if bad: print(id, 'WARNING: not original:', bad)
    open(d + '/patch.diff', 'wb').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    if demo is not None: open(d + '/demo.cpp', 'w').write(demo)
    for f, x in extra.items(): open(d + '/' + f, 'w').write(x)
    open(d + '/demo.sh', 'w').write(sh if sh else SH % (flags, link))
    os.chmod(d + '/demo.sh', 0o755)
    shutil.rmtree(t)
