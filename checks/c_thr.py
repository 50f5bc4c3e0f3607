"""R01: threads with objects of their own neither race nor influence each other.

The drivers are built with ThreadSanitizer and a threaded main: every thread runs the same case scripts (half the threads in
step, so that each library function's first use in the process happens concurrently, the others starting elsewhere), with its
own objects. ThreadSanitizer watches for races; every thread's log must be the one a single thread gives."""
import os
import random
import re
import subprocess
import shutil
from concurrent.futures import ThreadPoolExecutor
import vlib
from vlib import Check, n_cases
from c_gen import capture, SCRATCH

XS = re.compile('/tmp/vxslt.[A-Za-z0-9]{6}')
GROUPS = [  # driver, backend, string type, [(property whose workload is used, module, cases per process)], processes quick / thorough
    ('sax', 'expat', 'n', [('C01', 'c_sax', 3), ('C02', 'c_sax', 3), ('C03', 'c_sax', 3), ('C04', 'c_sax', 4), ('C05', 'c_sax', 3), ('C06', 'c_sax', 4), ('C07', 'c_sax', 3)], 10, 200),
    ('sax', 'expat', 'w', [('C01', 'c_sax', 3), ('C02', 'c_sax', 3), ('C03', 'c_sax', 3), ('C04', 'c_sax', 4), ('C05', 'c_sax', 3), ('C06', 'c_sax', 4), ('C07', 'c_sax', 3)], 6, 100),
    ('sax', 'libxml2', 'n', [('C02', 'c_sax', 3), ('C05', 'c_sax', 3), ('C06', 'c_sax', 3)], 6, 60),
    ('sax', 'xerces', 'n', [('C02', 'c_sax', 3), ('C05', 'c_sax', 3), ('C06', 'c_sax', 3)], 6, 60),
    ('html', 'expat', 'n', [('H01', 'c_html', 4), ('H02', 'c_html', 6)], 10, 200),
    ('html', 'expat', 'w', [('H01', 'c_html', 4), ('H02', 'c_html', 6)], 6, 100),
    ('dom', 'expat', 'n', [('D01', 'c_dom', 2), ('D02', 'c_dom', 2), ('D04', 'c_dom', 2), ('D05', 'c_dom', 2), ('D07', 'c_dom', 2), ('D08', 'c_dom', 4), ('D09', 'c_dom', 2)], 8, 160),
    ('xpath', 'expat', 'n', [('X01', 'c_xpath', 2), ('X02', 'c_xpath', 2), ('X03', 'c_xpath', 2), ('X04', 'c_xpath', 2)], 8, 160),
    ('xslt', 'expat', 'n', [('T01', 'c_xslt', 2), ('T02', 'c_xslt', 2), ('T03', 'c_xslt', 2), ('T04', 'c_xslt', 2), ('T05', 'c_xslt', 1), ('T06', 'c_xslt', 2)], 10, 200)]
T = 4


def execute(exe, text, threads, rot, tag):
    d = os.path.join(vlib.BUILD, 'thr-%d-%s' % (os.getpid(), tag))
    os.makedirs(d, exist_ok=True)
    try:
        with open(os.path.join(d, 'in'), 'w', encoding='utf-8', errors='surrogateescape', newline='') as f:
            f.write(text)
        env = dict(os.environ, LC_ALL='C.UTF-8', TSAN_OPTIONS='halt_on_error=1:exitcode=99:second_deadlock_stack=1:history_size=4:suppressions=' + os.path.join(d, 'supp'))
        # the parsers' own libraries are not instrumented: what they do among themselves is not Arabica's
        open(os.path.join(d, 'supp'), 'w').write('')
        with open(os.path.join(d, 'err'), 'wb') as fe:
            try:
                p = subprocess.run(['setarch', '-R', exe, os.path.join(d, 'in'), str(threads), str(rot)], stdout=subprocess.PIPE, stderr=fe, stdin=subprocess.DEVNULL, env=env, cwd=d, timeout=240)
                rc, out = p.returncode, p.stdout.decode('utf-8', 'surrogateescape')
            except subprocess.TimeoutExpired:
                rc, out = 'timeout', ''
        return rc, out, open(os.path.join(d, 'err'), errors='replace').read()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def logs(out):
    """[{case: log}] per thread"""
    r, cur = [], None
    for l in out.split('\n'):
        l = XS.sub('$DIR', SCRATCH.sub('/tmp/vdrv', l))
        if l.startswith('THREAD\t'):
            r.append({})
        elif l.startswith('C\t'):
            cur = l[2:]
            r[-1][cur] = []
        elif l.startswith('E\t') and l[2:] == cur:
            cur = None
        elif cur is not None:
            r[-1][cur].append(l)
    return r


def check_R01():
    chk = Check('R01', 'exploration', 'no ThreadSanitizer report, and every thread\'s event log equals the log of a single thread running the same scripts',
                ['every thread has its own readers, documents, expressions and stylesheets', 'the XML parser libraries themselves are not instrumented'])
    specs = {}
    for drv, be, kind, _, _, _ in GROUPS:
        name = 'thr-%s-%s' % (drv, be[3:])
        specs[name] = dict(name=name, srcs=[drv + '.cpp'], backend=be, san='tsan', defs=['-DVDRV_THREADS'])
    exe = vlib.build(sorted(specs.values(), key=lambda d: ['xslt', 'xpath', 'sax', 'html', 'dom'].index(d['name'].split('-')[1])))
    jobs = []
    for drv, be, kind, work, q, t in GROUPS:
        P = n_cases(q, t)
        r = random.Random('%d %s %s %s' % (vlib.SEED, drv, be, kind))
        pool = {}
        for pid, mod, k in work:
            cs = [c for c in capture(pid, mod, k * P * (2 if drv == 'sax' else 1)) if sum(len(f) for l in c.lines for f in l) < 60000]
            if drv == 'sax':    # each backend's own workload comes from the same generators; keep those meant for this string type
                cs = [c for c in cs if not any('0x' == f[:2] for l in c.lines for f in l)]
                for c in cs:
                    c.head = [kind]
            if drv == 'html':
                for c in cs:
                    c.head = [kind]
            pool[pid] = cs
        for p in range(P):
            cs = []
            for pid, mod, k in work:
                cs += pool[pid][p * k:(p + 1) * k] if len(pool[pid]) >= (p + 1) * k else r.sample(pool[pid], min(k, len(pool[pid])))
            for i, c in enumerate(cs):
                c.id = '%d.%s' % (i, c.id.split('.', 1)[-1])
            r.shuffle(cs)
            jobs.append((drv, be, kind, exe['thr-%s-%s' % (drv, be[3:])], ''.join(c.text() for c in cs), p, len(cs)))

    def one(j):
        i, (drv, be, kind, e, text, p, n) = j
        return execute(e, text, 1, 0, '%ds' % i), execute(e, text, T, p, '%dt' % i)
    with ThreadPoolExecutor(max(2, vlib.NCPU // 2)) as ex:
        results = list(ex.map(one, enumerate(jobs)))
    for (drv, be, kind, e, text, p, n), (alone, many) in zip(jobs, results):
        what = '%s on %s%s' % (drv, be, ', wide strings' if kind == 'w' else '')
        if alone[0] != 0:
            chk.violation('%s: a single thread fails: rc=%s %s\n%s' % (what, alone[0], vlib.sig(alone[2]), alone[2][:3000]), text)
            continue
        if many[0] != 0:
            chk.violation('%s: %d threads: rc=%s %s\n%s' % (what, T, many[0], vlib.sig(many[2]), many[2][:6000]), text)
            continue
        a, m = logs(alone[1]), logs(many[1])
        if len(a) != 1 or len(m) != T or len(a[0]) != n:
            raise vlib.HarnessError('thread logs: %d %d %d %d' % (len(a), len(m), len(a[0]) if a else 0, n))
        bad = next(((t, c) for t in range(T) for c in a[0] if m[t].get(c) != a[0][c]), None)
        if bad:
            t, c = bad
            x, y = a[0][c], m[t].get(c) or []
            j = next((j for j, (u, v) in enumerate(zip(x, y)) if u != v), min(len(x), len(y)))
            chk.violation('%s: thread %d of %d gets another result than a thread alone in case %s\n alone: %r\n threads: %r' % (what, t, T, c, x[j:j + 2], y[j:j + 2]), text)
            continue
        chk.ok(text)
        chk.count('processes, ' + what)
        chk.count('thread logs compared', T * n)
        chk.count('events compared', sum(len(v) for v in a[0].values()) * T)
    chk.sample(jobs[0][4][:1500])
    chk.finish()
