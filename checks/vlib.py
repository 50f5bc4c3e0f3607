"""Infrastructure shared by all checks: build, run drivers, verdicts, evidence, known findings."""
import os, sys, json, time, hashlib, subprocess, random, re, fcntl, shutil, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
DRIVERS = os.path.join(VERIF, 'drivers')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
NCPU = min(8, os.cpu_count() or 8)
REPLAY = os.path.join(VERIF, 'replay')

LIBSRC = ['arabica.cpp', 'XML/XMLCharacterClasses.cpp', 'SAX/helpers/InputSourceResolver.cpp', 'io/uri.cpp',
          'convert/base64codecvt.cpp', 'convert/iso88591utf8codecvt.cpp', 'convert/rot13codecvt.cpp',
          'convert/ucs2utf8codecvt.cpp', 'convert/utf16beucs2codecvt.cpp', 'convert/utf16leucs2codecvt.cpp',
          'convert/utf16utf8codecvt.cpp', 'convert/utf8iso88591codecvt.cpp', 'convert/utf8ucs2codecvt.cpp',
          'convert/impl/iso88591_utf8.cpp', 'convert/impl/ucs2_utf16.cpp', 'convert/impl/ucs2_utf8.cpp',
          'taggle/Schema.cpp']
# a source the library gains later belongs to it too; the parsers' wrappers are chosen below
LIBSRC += sorted(p for d, _, fs in os.walk(os.path.join(REPO, 'src')) for f in fs
                 for p in [os.path.relpath(os.path.join(d, f), os.path.join(REPO, 'src'))]
                 if f.endswith('.cpp') and p not in LIBSRC + ['convert/impl/codecvt_specialisations.cpp'] and not p.startswith('SAX/wrappers'))
BACKENDS = {'expat': ('ARABICA_USE_EXPAT', 'SAX/wrappers/saxexpat.cpp', [], ['-lexpat']),
            'libxml2': ('ARABICA_USE_LIBXML2', 'SAX/wrappers/saxlibxml2.cpp', ['-I/usr/include/libxml2'], ['-lxml2']),
            'xerces': ('ARABICA_USE_XERCES', 'SAX/wrappers/saxxerces.cpp', [], ['-lxerces-c'])}
SAN = {'asan': ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr'],
       'tsan': ['-fsanitize=thread'],
       'fuzz': ['-fsanitize=fuzzer-no-link,address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr'],
       'none': []}


SCALE = 1       # of the quick counts, by what a case of the property costs (main.py)


def n_cases(quick, thorough=None):
    return (thorough if thorough is not None else quick * 10) if THOROUGH else round(quick * SCALE)


class HarnessError(Exception):
    pass


def _tree_hash():
    h = hashlib.sha256()
    for top in ('include', 'src'):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith(('.hpp', '.h', '.cpp', '.cxx', '.in', '.inc', '.c')):
                    p = os.path.join(d, f)
                    h.update(os.path.relpath(p, REPO).encode() + b'\0')
                    h.update(open(p, 'rb').read())
    for f in sorted(os.listdir(DRIVERS)):
        if f.endswith('.hpp'):
            h.update(open(os.path.join(DRIVERS, f), 'rb').read())
    return h.hexdigest()


_th = None


def tree_hash():
    global _th
    if _th is None:
        _th = _tree_hash()
    return _th


def _prune():
    """keep the object cache small (disk is limited)"""
    try:
        fs = [(os.stat(os.path.join(BUILD, f)).st_mtime, os.path.join(BUILD, f)) for f in os.listdir(BUILD)]
    except OSError:
        return
    total = sum(os.path.getsize(p) for _, p in fs if os.path.isfile(p))
    now = time.time()
    for m, p in sorted(fs):
        if total < 6e9:
            break
        if now - m > 1800 and os.path.isfile(p):
            total -= os.path.getsize(p)
            os.unlink(p)


def _compile(job):
    src, out, flags, cxx = job
    if os.path.exists(out):
        return None
    tmp = out + '.%d.tmp' % os.getpid()
    for comp in cxx:
        r = subprocess.run([comp] + flags + ['-c', src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           env=dict(os.environ, LC_ALL='C.UTF-8'))
        if r.returncode == 0:
            os.replace(tmp, out)
            return None
    return src + '\n' + r.stdout.decode(errors='replace')[:3000]


def config_dir(backend):
    d = os.path.join(BUILD, 'cfg-' + backend)
    os.makedirs(os.path.join(d, 'SAX'), exist_ok=True)
    p = os.path.join(d, 'SAX', 'ArabicaConfig.hpp')
    text = ('#ifndef ARABICA_ARABICA_CONFIG_H\n#define ARABICA_ARABICA_CONFIG_H\n'
            '#define ARABICA_HAVE_BOOST 1\n#define %s 1\n#endif\n' % BACKENDS[backend][0])
    if not os.path.exists(p) or open(p).read() != text:
        tmp = p + '.%d' % os.getpid()
        open(tmp, 'w').write(text)
        os.replace(tmp, p)
    return d


def build(specs):
    """specs: list of dict(name, srcs=[driver cpp], backend, san, defs=[], opt='-O0'); returns {name: exe}.
    Always compiles /repo's current working tree (object cache keyed by the content of every source)."""
    os.makedirs(BUILD, exist_ok=True)
    _prune()
    jobs, links, exes = [], [], {}
    cxx = ['clang++', 'g++'] if all(s.get('san') != 'fuzz' for s in specs) else ['clang++']
    seen = set()
    for s in specs:
        backend, san = s.get('backend', 'expat'), s.get('san', 'asan')
        cfg = config_dir(backend)
        base = ['-std=c++14', '-w', '-g1', s.get('opt', '-O0'), '-fno-omit-frame-pointer', '-I' + cfg,
                '-I' + REPO + '/include', '-I' + REPO + '/src', '-I' + DRIVERS] + SAN[san] + BACKENDS[backend][2]
        objs = []
        # driver sources first: they take longest
        for src in [os.path.join(DRIVERS, x) for x in s['srcs']] + \
                   [os.path.join(REPO, 'src', x) for x in LIBSRC]:
            fl = base + (s.get('defs', []) if src.startswith(DRIVERS) else [])
            key = hashlib.sha256((tree_hash() + src + ' '.join(fl)).encode() + open(src, 'rb').read()).hexdigest()[:24]
            o = os.path.join(BUILD, os.path.basename(src)[:-4] + '-' + key + '.o')
            if o not in seen:
                seen.add(o)
                jobs.append((src, o, fl, cxx))
            objs.append(o)
        exe = os.path.join(BUILD, s['name'] + '-' + hashlib.sha256(' '.join(objs).encode()).hexdigest()[:16])
        exes[s['name']] = exe
        links.append((exe, objs, [f.replace('fuzzer-no-link', 'fuzzer') for f in SAN[san]], BACKENDS[backend][3], san))
    jobs.sort(key=lambda j: not j[0].startswith(DRIVERS))
    with ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e in ex.map(_compile, jobs) if e]
    if errs:
        raise HarnessError('compile failed:\n' + '\n'.join(errs))

    def link(l):
        exe, objs, sf, libs, san = l
        if os.path.exists(exe):
            os.utime(exe)
            return None
        tmp = exe + '.%d' % os.getpid()
        for comp in cxx:
            r = subprocess.run([comp] + sf + ['-g1'] + objs + ['-o', tmp] + libs + ['-lpthread'],
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode == 0:
                os.replace(tmp, exe)
                return None
        return r.stdout.decode(errors='replace')[-3000:]
    with ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e in ex.map(link, links) if e]
    if errs:
        raise HarnessError('link failed:\n' + '\n'.join(errs))
    return exes


def esc(s):
    if isinstance(s, int):
        return str(s)
    return s.replace('\\', '\\\\').replace('\t', '\\t').replace('\n', '\\n').replace('\r', '\\r').replace('\0', '\\0')


_un = re.compile(r'\\(.)')


def unesc(s):
    if '\\' not in s:
        return s
    return _un.sub(lambda m: {'t': '\t', 'n': '\n', 'r': '\r', '0': '\0'}.get(m.group(1), m.group(1)), s)


class Case:
    __slots__ = ('id', 'head', 'lines', 'meta')

    def __init__(self, id, lines, head=(), meta=None):
        self.id, self.lines, self.head, self.meta = str(id), lines, head, meta

    def text(self):
        return '\n'.join(['\t'.join(['CASE', self.id] + [esc(h) for h in self.head])] +
                         ['\t'.join(esc(f) for f in l) for l in self.lines] + ['END', ''])


class Crash:
    """the driver died (sanitizer report, signal) or hung while running this case"""

    def __init__(self, kind, detail, partial):
        self.kind, self.detail, self.partial = kind, detail, partial

    def __repr__(self):
        return 'CRASH[%s] %s' % (self.kind, self.detail[:1500])


SANENV = {'ASAN_OPTIONS': 'abort_on_error=0:exitcode=99:detect_leaks=1:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=12:max_allocation_size_mb=4000',
          'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=99',
          'LSAN_OPTIONS': 'exitcode=0:max_leaks=3:report_objects=0',
          'TSAN_OPTIONS': 'halt_on_error=1:exitcode=99:second_deadlock_stack=1'}


def sig(stderr):
    """short signature of a sanitizer report"""
    m = re.search(r'(ERROR: \w+Sanitizer[^\n]*|runtime error: [^\n]*|WARNING: ThreadSanitizer[^\n]*)', stderr)
    head = m.group(1) if m else stderr.strip().split('\n')[-1][:200]
    head = re.sub(r'0x[0-9a-f]+', '0x', re.sub(r'==\d+==', '', head))
    fr = re.findall(r'#\d+ 0x[0-9a-f]+ in ([^\n]*)', stderr)
    fr = [f for f in fr if REPO + '/' in f][:3]
    return head + ' | ' + ' <- '.join(re.sub(r'.*?(/repo/\S+).*', r'\1', f) for f in fr)


MAXOUT = 1 << 30     # a driver that writes this much is not going to stop


class Results(dict):
    """results by case id; cases left out because others hang count as hanging"""

    def __missing__(self, k):
        return Crash('hang', 'not run: other cases hang', [])


def _cpu(pid):
    """processor seconds used so far: what a loaded machine does not change"""
    try:
        f = open('/proc/%d/stat' % pid).read().rsplit(')', 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError, ValueError):
        return 0.


def _run_shard(args):
    exe, cases, leak, timeout, tag, rlimit = args
    res = {}
    leaks = []
    todo = list(cases)
    hangs = 0
    tmpd = os.path.join(BUILD, 'run-%d-%s' % (os.getpid(), tag))
    os.makedirs(tmpd, exist_ok=True)
    try:
        while todo:
            inp = os.path.join(tmpd, 'in')
            with open(inp, 'w', encoding='utf-8', errors='surrogateescape', newline='') as f:
                for c in todo:
                    f.write(c.text())
            outp, errp = os.path.join(tmpd, 'out'), os.path.join(tmpd, 'err')
            with open(outp, 'wb') as fo, open(errp, 'wb') as fe:
                env = dict(os.environ, LC_ALL='C.UTF-8', **SANENV)
                p = subprocess.Popen([exe, inp, str(leak)], stdout=fo, stderr=fe, stdin=subprocess.DEVNULL, env=env,
                                     cwd=tmpd, start_new_session=True)
                # watchdog: no completed case for `timeout` seconds
                hung = False
                lastsz, lastt, lastcpu = -1, time.time(), 0.
                while True:
                    try:
                        p.wait(0.05 if time.time() - lastt < 1 else 0.5)
                        break
                    except subprocess.TimeoutExpired:
                        sz = os.path.getsize(outp)
                        if sz != lastsz and sz < MAXOUT:
                            lastsz, lastt, lastcpu = sz, time.time(), _cpu(p.pid)
                        elif sz >= MAXOUT or time.time() - lastt > 4 * timeout or (time.time() - lastt > timeout and _cpu(p.pid) - lastcpu > .8 * timeout):
                            hung = True
                            os.killpg(p.pid, signal.SIGKILL)
                            p.wait()
                            break
            cur, curl, done, fin = None, None, 0, False
            with open(outp, encoding='utf-8', errors='surrogateescape', newline='\n') as f:
                for line in f:
                    if not line.endswith('\n'):
                        break
                    fl = [unesc(x) for x in line[:-1].split('\t')]
                    if fl[0] == 'C':
                        cur, curl = fl[1], []
                    elif fl[0] == 'E' and cur is not None and fl[1] == cur:
                        res[cur] = curl
                        cur = None
                        done += 1
                    elif fl[0] == 'LEAK' and cur is None:
                        leaks.append((fl[1], fl[2]))
                    elif fl[0] == 'DONE' and cur is None:
                        fin = True
                    elif curl is not None:
                        curl.append(fl)
            if fin:
                break
            err = open(errp, encoding='utf-8', errors='replace').read()
            if cur is None:
                if done == 0:
                    raise HarnessError('driver %s failed to start: rc=%s %s' % (exe, p.returncode, err[-2000:]))
                # died between cases (e.g. leak checker): continue after the last one
                i = done
            else:
                k = 'hang' if hung else ('oom' if p.returncode in (-9,) else 'crash')
                res[cur] = Crash(k, 'rc=%s %s\n%s' % (p.returncode, sig(err) if err else '', err[-6000:]), curl)
                i = done + 1
                hangs += hung
                if hangs >= 2:  # do not burn the budget: the remaining cases of this shard stay unexplored
                    break
            todo = todo[i:]
    finally:
        shutil.rmtree(tmpd, ignore_errors=True)
    return res, leaks


_runctr = [0]


def run(exe, cases, leak=200, timeout=20, shards=None):
    """run cases; returns {id: list of event lines | Crash}. Leaks are localised to single cases
    and appear as a ('LEAK',) event at the end of that case's log."""
    shards = shards or min(NCPU, max(1, len(cases) // 4 + 1))
    parts = [cases[i::shards] for i in range(shards)]
    args = []
    for p in parts:
        if p:
            _runctr[0] += 1
            args.append((exe, p, leak, timeout, str(_runctr[0]), None))
    res = Results()
    byid = {c.id: c for c in cases}
    assert len(byid) == len(cases), 'duplicate case ids'
    suspects = []
    with ThreadPoolExecutor(NCPU) as ex:
        for part, (r, leaks) in zip(parts, ex.map(_run_shard, args)):
            res.update(r)
            if leaks:
                ids = [c.id for c in part]
                a, b = leaks[0]
                suspects.append([byid[i] for i in ids[ids.index(a):ids.index(b) + 1]])
    # hangs: re-run some alone before believing
    hung = [cid for cid, r in res.items() if isinstance(r, Crash) and r.kind in ('hang', 'oom')]
    if hung:
        again = []
        for cid in hung[:4]:
            _runctr[0] += 1
            again.append((exe, [byid[cid]], leak, timeout * 6, str(_runctr[0]), None))
        with ThreadPoolExecutor(4) as ex:
            for r2, _ in ex.map(_run_shard, again):
                res.update(r2)
        if not any(isinstance(res[cid], Crash) and res[cid].kind in ('hang', 'oom') for cid in hung[:4]):
            # a slow machine, nothing else
            rest = hung[4:] + [c.id for c in cases if c.id not in res]
            if rest:
                res.update(run(exe, [byid[i] for i in rest], leak, timeout * 2, shards))
    # leaks: localise
    for s in suspects:
        _runctr[0] += 1
        for c in s:
            if isinstance(res.get(c.id), Crash):
                continue
            _runctr[0] += 1
            r2, l2 = _run_shard((exe, [c], 1, timeout, str(_runctr[0]), None))
            if l2:
                if not isinstance(res[c.id], Crash):
                    res[c.id] = res[c.id] + [['LEAK']]
                break
    missing = [c.id for c in cases if c.id not in res]
    if missing and not any(isinstance(r, Crash) and r.kind == 'hang' for r in res.values()):
        raise HarnessError('no result for cases %s of %s' % (missing[:5], exe))
    return res


def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings'] if k.get('status', 'known') == 'known']


class Check:
    def __init__(self, pid, level='exploration', rule='', assumptions=()):
        self.pid, self.level, self.rule = pid, level, rule
        self.t0 = time.time()
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.viol = []
        self.extra = {}
        self.assumptions = list(assumptions)
        self.known = {k['key']: k for k in load_known() if k['property'] == pid}
        self.known_hit = {}
        self.inconclusive = []
        self.rng = random.Random('%s-%d' % (pid, SEED))

    def count(self, k, n=1):
        self.extra[k] = self.extra.get(k, 0) + n

    def ok(self, nontrivial_key=None, n=1):
        self.evals += n
        if nontrivial_key is not None:
            self.distinct.add(hash(nontrivial_key))

    def sample(self, s, maxn=4):
        if len(self.samples) < maxn:
            self.samples.append(s)

    def violation(self, what, replay, key=None):
        """key: identifies a listed known finding (a specific input); anything else is reported"""
        if key is not None and key in self.known:
            self.known_hit[key] = self.known_hit.get(key, 0) + 1
            return
        self.viol.append((what, replay))

    def finish(self):
        wall = time.time() - self.t0
        for k, kf in sorted(self.known.items()):
            if k in self.known_hit:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, kf['what'].replace('\n', ' ')))
        nv = len(self.viol)
        paths = []
        if nv:
            d = os.path.join(REPLAY, self.pid)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d, exist_ok=True)
            for i, (what, replay) in enumerate(self.viol[:10]):
                p = os.path.join(d, 'v%d.txt' % i)
                with open(p, 'w', encoding='utf-8', errors='surrogateescape') as f:
                    f.write('property %s seed %d tier %s\n%s\n--- replay ---\n%s\n' % (self.pid, SEED, TIER, what, replay))
                paths.append(p)
        cov = dict(self.extra)
        cov.update(evaluations=self.evals, distinct_nontrivial=len(self.distinct), rule=self.rule,
                   samples=self.samples or ['none'])
        if self.inconclusive:
            cov['inconclusive'] = self.inconclusive[:20]
        ev = dict(property=self.pid, tier='thorough' if THOROUGH else 'quick', seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(wall, 2), violations=nv)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=True)
        print('%s: %d evaluations, %d distinct non-trivial, %d violations, %.1fs' %
              (self.pid, self.evals, len(self.distinct), nv, wall))
        if nv:
            for (what, _), p in zip(self.viol[:5], paths):
                print('--', what[:600].replace('\n', '\n   '))
            print('VIOLATION property=%s replay=%s' % (self.pid, paths[0]))
            sys.exit(1)
        if not self.evals or not self.distinct:
            print('check observed nothing', file=sys.stderr)
            sys.exit(2)
        sys.exit(0)
