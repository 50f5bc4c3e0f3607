"""G01: the same calls give the same results on std::string, std::wstring and a string class of our own.

The workloads are those the other checks generate (their case scripts are captured before they are run); every script is
then run by drivers instantiated on the three string types and the event logs, all transcoded to UTF-8, must be equal."""
import importlib
import re
import sys
import time
import vlib
from vlib import Case, Check, Crash, n_cases

SOURCES = [  # property whose workload is used, module, driver, quick, thorough
    ('C01', 'c_sax', 'sax', 160, 3000), ('C02', 'c_sax', 'sax', 160, 3000), ('C03', 'c_sax', 'sax', 160, 3000), ('C04', 'c_sax', 'sax', 220, 4000),
    ('C05', 'c_sax', 'sax', 160, 3000), ('C06', 'c_sax', 'sax', 200, 4000), ('C07', 'c_sax', 'sax', 300, 8000),
    ('D01', 'c_dom', 'dom', 60, 1500), ('D02', 'c_dom', 'dom', 60, 1500), ('D03', 'c_dom', 'dom', 80, 1500), ('D04', 'c_dom', 'dom', 60, 1500),
    ('D05', 'c_dom', 'dom', 60, 1500), ('D07', 'c_dom', 'dom', 50, 1200), ('D08', 'c_dom', 'dom', 150, 3000), ('D09', 'c_dom', 'dom', 60, 1500),
    ('X01', 'c_xpath', 'xpath', 60, 1500), ('X02', 'c_xpath', 'xpath', 60, 1500), ('X03', 'c_xpath', 'xpath', 50, 1500), ('X04', 'c_xpath', 'xpath', 50, 1500),
    ('T01', 'c_xslt', 'xslt', 180, 4000), ('T02', 'c_xslt', 'xslt', 150, 4000), ('T03', 'c_xslt', 'xslt', 150, 4000), ('T04', 'c_xslt', 'xslt', 180, 4000),
    ('T05', 'c_xslt', 'xslt', 30, 1200), ('T06', 'c_xslt', 'xslt', 40, 3000),
    ('H01', 'c_html', 'html', 150, 4000), ('H02', 'c_html', 'html', 250, 6000)]


class Captured(Exception):
    pass


def capture(pid, mod, n):
    """the cases property pid's check would run"""
    m = importlib.import_module(mod)
    got = []

    class Any(dict):
        def __missing__(self, k):
            return k

    def fake_run(exe, cases, **kw):
        got.extend(cases)
        raise Captured()
    saved = [(o, k, getattr(o, k)) for o in (vlib, m) for k in ('build', 'run', 'n_cases') if hasattr(o, k)]
    for o, k, _ in saved:
        setattr(o, k, {'build': lambda specs: Any(), 'run': fake_run, 'n_cases': lambda q, t=None: n}[k])
    try:
        getattr(m, 'check_' + pid)()
    except Captured:
        pass
    finally:
        for o, k, v in saved:
            setattr(o, k, v)
    got = got[:n]
    for c in got:       # which of several elements claiming one ID is found is not specified
        c.lines = [l for l in c.lines if l[0] != 'byid']
    return got


SCRATCH = re.compile('/tmp/vdrv[A-Za-z0-9]{6}')
COUNTS = re.compile(r'string-length|substring\(|substring\b|translate|string-length')


def comparable(pid, driver, c, kind):
    """strings count in their own units: positions and lengths in non-ASCII text are compared for no two string types"""
    t = c.text()
    if driver == 'html':        # bytes which are not UTF-8 are passed through by the narrow strings and can not be represented in the wide ones
        if kind == 'w':
            for l in c.lines:
                if l[0] == 'DOC':
                    try:
                        bytes.fromhex(l[2]).decode()
                    except UnicodeDecodeError:
                        return False
        return kind == 'w' or not any('write' in l for l in c.lines)
    if driver == 'sax':
        # our string has no iterators of its own, which the Writer uses
        return kind == 'w' or not any(l[0] == 'FILTERS' and any(f[:1] == 'W' for f in l[1:]) for l in c.lines)
    if t.isascii() or kind == 'o':
        return True
    if driver == 'dom':
        return pid not in ('D03', 'D06') and not any(l[0] in ('sub', 'insd', 'deld', 'repd', 'split') for l in c.lines)
    return not COUNTS.search(t)


def norm(driver, ev):
    if isinstance(ev, Crash):
        return ['CRASH', str(ev)[:400]]
    if driver == 'html':
        return [e for e in ev if e[0] != 'RES']
    return [[SCRATCH.sub('/tmp/vdrv', f) for f in e] for e in ev]


def check_G01():
    chk = Check('G01', 'exploration', 'every case script is run on std::string, std::wstring and a string class of our own; the event logs, transcoded to UTF-8, must be equal',
                ['positions and lengths in non-ASCII text count the units of the string type, so scripts using them on such text are not compared between narrow and wide strings',
                 'SAX::Writer is written for standard strings, so it is not compared on the string class of our own'])
    D = [dict(name='sax-o', srcs=['sax.cpp'], defs=['-DOWN_STRING']), dict(name='html-o', srcs=['html.cpp'], defs=['-DOWN_STRING'])]
    for d in ('xslt', 'xpath', 'dom'):
        D = [dict(name=d + '-n', srcs=[d + '.cpp']), dict(name=d + '-w', srcs=[d + '.cpp'], defs=['-DSTR=std::wstring']),
             dict(name=d + '-o', srcs=[d + '.cpp'], defs=['-DOWN_STRING', '-DSTR=Own'])] + D
    # the biggest translation units first
    D = sorted(D, key=lambda d: ['xslt', 'xpath', 'sax', 'html', 'dom'].index(d['name'][:-2]))
    kinds = 'nwo'
    try:
        exe = vlib.build(D)
    except vlib.HarnessError:
        # the interface a string class must have is not documented: code which asks for more of it than our string has is
        # not wrong, so the comparison then is between the standard strings
        exe = vlib.build([{**d, 'defs': [f for f in d.get('defs', []) if f != '-DOWN_STRING']} for d in D if '-DSTR=Own' not in d.get('defs', [])])
        kinds = 'nw'
        chk.count('runs without the string class of our own, which did not compile')
    for pid, mod, driver, q, t in SOURCES:
        t0 = time.time()
        cases = capture(pid, mod, n_cases(q, t))
        two = driver in ('sax', 'html')
        jobs = {}
        for kind in kinds:
            cs = [Case(c.id, c.lines, [kind] if two else c.head, c) for c in cases]
            jobs[kind] = cs if kind == 'n' else [c for c in cs if comparable(pid, driver, c, kind)]
        res = {k: vlib.run(exe[driver + '-o' if two else driver + '-' + k], v, leak=40) for k, v in jobs.items()}
        byid = {c.id: c for c in jobs['n']}
        for kind, name in (('w', 'std::wstring'), ('o', 'the string class of our own')):
            for c in jobs.get(kind, []):
                a, b = norm(driver, res['n'][c.id]), norm(driver, res[kind][c.id])
                if a != b:
                    j = next((j for j, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                    chk.violation('%s: %s and std::string differ (workload of %s)\n event %d: %r\n std::string: %r' % (driver, name, pid, j, b[j:j + 2], a[j:j + 2]), c.text())
                    continue
                chk.ok((pid, kind, c.text()))
                chk.count('%s events equal on %s' % (driver, name), len(a))
        chk.count('scripts from the workload of ' + pid, len(cases))
        if len(sys.argv) > 3: print(pid, len(cases), '%.1f' % (time.time() - t0))
        chk.sample(cases[0].text()[:1500] if cases else '', 8)
    chk.finish()
