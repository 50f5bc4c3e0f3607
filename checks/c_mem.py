"""M01: no bytes make the library misbehave.

Coverage-guided fuzzing (libFuzzer) of the real code under AddressSanitizer, UndefinedBehaviorSanitizer and LeakSanitizer, starting
from inputs the other checks generate; the targets carry monitors of their own (balanced events, consistent trees, sets without
duplicates, only documented exceptions escape) and libFuzzer's watchdog bounds time and memory. Uninitialised reads, which these
sanitizers do not see, are looked for by running scripts of the other checks under valgrind memcheck."""
import os
import random
import re
import resource
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor
import vlib
from vlib import Check, HarnessError, n_cases, SEED, THOROUGH
from c_gen import capture

XML = ['<!DOCTYPE ', '<!ENTITY ', '<!ENTITY % ', '<!ELEMENT ', '<!ATTLIST ', '<!NOTATION ', ' SYSTEM "', ' PUBLIC "', 'NDATA ', '<![CDATA[', ']]>', '<!--', '-->', '<?', '?>', '&#x', '&#', '&a;', '%p;', 'xmlns="',
       'xmlns:a="', 'xml:base="', 'xml:lang="', '#PCDATA', '#IMPLIED', '#FIXED ', '#REQUIRED', 'EMPTY', 'ANY', 'CDATA', 'NMTOKENS', 'ID', 'IDREFS', 'ENTITY', '(a|b)*', '(a,b)', '<?xml version="1.0"?>',
       'encoding="UTF-16"', 'encoding="ISO-8859-1"', 'standalone="yes"', '\xff\xfe', '\xfe\xff', '\xef\xbb\xbf', '\xf0\x9f\x98\x80', '<a/>', '</a>', '<a:b ', '<![INCLUDE[', '<![IGNORE[']
HTML = ['<html>', '<head>', '<body>', '<table>', '<tr>', '<td>', '<p>', '<b>', '<i>', '<li>', '<ul>', '<form>', '<select>', '<option>', '<script>', '</script>', '<style>', '<!--', '-->', '<![CDATA[', ']]>', '<!DOCTYPE ',
        'PUBLIC "', '<?', '>', '</', '/>', '&amp;', '&#', '&#x', '&nbsp;', '&copy', ' xmlns="', ' xml:a="', ' a:b="', ' class=', '<frameset>', '<noframes>', '<br', '<img ', '<pre>', '<textarea>', '<x:y>', "='", '="', '\x80', '\xc3\xa9']
XPATH = ['ancestor::', 'ancestor-or-self::', 'attribute::', 'child::', 'descendant::', 'descendant-or-self::', 'following::', 'following-sibling::', 'namespace::', 'parent::', 'preceding::', 'preceding-sibling::', 'self::', '//',
         '..', '.', '@', '*', 'node()', 'text()', 'comment()', 'processing-instruction("p")', ' and ', ' or ', ' div ', ' mod ', '!=', '<=', '>=', '$n', '$s', '$b', '$ns', 'n:', 'last()', 'position()', 'count(', 'local-name(',
         'namespace-uri(', 'name(', 'string(', 'concat(', 'starts-with(', 'contains(', 'substring-before(', 'substring-after(', 'substring(', 'string-length(', 'normalize-space(', 'translate(', 'boolean(', 'not(', 'true()', 'false()',
         'number(', 'sum(', 'floor(', 'ceiling(', 'round(', 'id(', 'lang(', '[1]', '[last()]', '(', ')', ',', '|', '"', "'", '{', '}', '{{', '1e', '.5', '-', '99999999999999999999']
XSLT = ['<xsl:' + n for n in ('template match="', 'template name="', 'value-of select="', 'for-each select="', 'if test="', 'choose>', 'when test="', 'otherwise>', 'text>', 'element name="', 'attribute name="', 'comment>',
        'processing-instruction name="', 'copy>', 'copy-of select="', 'variable name="', 'param name="', 'with-param name="', 'call-template name="', 'apply-templates', 'apply-imports/>', 'sort select="', 'key name="k" match="',
        'output method="', 'message>', 'import href="', 'include href="', 'namespace-alias ', 'decimal-format ', 'strip-space elements="', 'number ', 'attribute-set name="', 'fallback>')] + \
       ['</xsl:' + n + '>' for n in ('template', 'for-each', 'if', 'choose', 'when', 'otherwise', 'element', 'attribute', 'variable', 'copy')] + \
       [' use="', ' mode="', ' priority="', ' namespace="', ' order="descending"', ' data-type="number"', ' cdata-section-elements="', ' indent="yes"', ' xsl:use-attribute-sets="', ' exclude-result-prefixes="', ' disable-output-escaping="yes"',
        ' xmlns:p="urn:p"', '{', '}', "key('k',", 'current()', 'generate-id(', 'system-property(', 'element-available(', 'position()', 'last()', '$v', '"/>', '">']


def payload(doc):
    return bytes.fromhex(doc[2])


def seeds_xml(r, n):
    for pid in ('C01', 'C02', 'C04', 'C05', 'C03'):
        for c in capture(pid, 'c_sax', n):
            for l in c.lines:
                if l[0] == 'DOC':
                    yield bytes([r.choice([0x40, 0x42, 0x47, 0xc0, 0x60, 0x00]), r.randrange(40), r.choice([0, 0x40, 0xc0, 0xc8, 0x10, 0x20, 0x1c, 0xe0, 0xd0])]) + payload(l)


def seeds_html(r, n):
    for pid in ('H01', 'H02'):
        for c in capture(pid, 'c_html', n):
            for l in c.lines:
                if l[0] == 'DOC':
                    yield bytes([r.choice([0, 1, 7, 0x40, 0x80, 0x20]), r.randrange(40), r.randrange(256)]) + payload(l)


def seeds_xpath(r, n):
    for pid in ('X01', 'X02', 'X03', 'X04'):
        for c in capture(pid, 'c_xpath', n):
            for l in c.lines:
                if l[0] in ('ev', 'comp'):
                    yield bytes([{'path': 9, 'expr': 1, 'avt': 4, 'match': 2}[l[1]] + 16 * r.randrange(5)]) + l[2].encode('utf-8', 'surrogateescape')
                elif l[0] == 'match':
                    yield b'\2' + l[1].encode('utf-8', 'surrogateescape')


def seeds_xslt(r, n):
    for pid in ('T01', 'T02', 'T03', 'T04', 'T06'):
        for c in capture(pid, 'c_xslt', n):
            for l in c.lines:
                if l[0] in ('file', 'mem') and 'href' not in l[2]:
                    yield b'x' + l[2].encode('utf-8', 'surrogateescape')


def seeds_util(r, n):
    for i in range(n * 4):
        w = i % 10
        if w == 8:
            b = r.choice(['http://a.b:80/c/d;p?q#f', 'file:///a/b', 'a/../b', '//h/p', '', 'http://h', 'x:', '/a/./b/..']) + r.choice(['../x', 'y?z', '#f', '//k', 'urn:x', '', '.', '/..'])
            yield bytes([w, r.randrange(256)]) + b.encode()
        else:
            yield bytes([w, r.randrange(256)]) + (''.join(chr(r.choice([65, 0xe9, 0x20ac, 0x1f600, 10, 61])) for _ in range(r.randint(0, 40))).encode() if w in (3, 4, 7, 9) else bytes(r.randrange(256) for _ in range(r.randint(0, 60))))


TARGETS = [  # target, seeds, corpus cases, dictionary, longest input, processes, executions each (quick, thorough)
    ('xslt', seeds_xslt, 40, XSLT + XPATH, 3000, 2, 3000, 60000),
    ('xpath', seeds_xpath, 40, XPATH, 300, 2, 10000, 300000),
    ('xml', seeds_xml, 60, XML, 2500, 2, 10000, 400000),
    ('html', seeds_html, 60, HTML, 1500, 2, 10000, 400000),
    ('util', seeds_util, 60, [], 200, 1, 30000, 1000000)]


def quote(s):
    return '"' + ''.join(c if 32 <= ord(c) < 127 and c not in '"\\' else '\\x%02x' % ord(c) for c in s) + '"\n'


def limits():
    resource.setrlimit(resource.RLIMIT_STACK, (1 << 29, resource.getrlimit(resource.RLIMIT_STACK)[1]))


def fuzz(job):
    name, exe, corpus, maxlen, runs, k, words = job
    d = os.path.join(vlib.BUILD, 'fuzz-%d-%s-%d' % (os.getpid(), name, k))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, 'corpus'))
    try:
        for i, b in enumerate(corpus):
            open(os.path.join(d, 'corpus', 'seed%05d' % i), 'wb').write(b)
        open(os.path.join(d, 'dict'), 'w').write(''.join(quote(w) for w in words))
        cmd = [exe, os.path.join(d, 'corpus'), '-seed=%d' % (SEED * 1000 + k + 1), '-runs=%d' % runs, '-max_len=%d' % maxlen, '-len_control=0', '-timeout=60', '-rss_limit_mb=3500',
               '-detect_leaks=1', '-print_final_stats=1', '-artifact_prefix=' + d + '/crash-'] + (['-dict=' + os.path.join(d, 'dict')] if words else [])
        env = dict(os.environ, LC_ALL='C.UTF-8', ASAN_OPTIONS='allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=12:handle_abort=1', UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1')
        env.pop('LSAN_OPTIONS', None)
        p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=env, cwd=d, preexec_fn=limits)
        err = p.stderr.decode('utf-8', 'replace')
        bad = [f for f in sorted(os.listdir(d)) if f.startswith('crash-')]
        return p.returncode, err, open(os.path.join(d, bad[0]), 'rb').read() if bad else None
    finally:
        shutil.rmtree(d, ignore_errors=True)


GRIND = [('sax', 'c_sax', ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07')), ('dom', 'c_dom', ('D01', 'D02', 'D03', 'D04', 'D05', 'D07', 'D08', 'D09')),
         ('xpath', 'c_xpath', ('X01', 'X02', 'X03', 'X04')), ('xslt', 'c_xslt', ('T01', 'T02', 'T03', 'T04', 'T06')), ('html', 'c_html', ('H01', 'H02')), ('util', 'c_util', ('U01', 'U02', 'U03'))]


def grind(job):
    exe, pid, cases = job
    d = os.path.join(vlib.BUILD, 'grind-%d-%s' % (os.getpid(), pid))
    os.makedirs(d, exist_ok=True)
    try:
        with open(os.path.join(d, 'in'), 'w', encoding='utf-8', errors='surrogateescape', newline='') as f:
            f.write(''.join(c.text() for c in cases))
        p = subprocess.run(['valgrind', '-q', '--error-exitcode=97', '--leak-check=no', '--num-callers=12', '--exit-on-first-error=yes', exe, os.path.join(d, 'in'), '0'], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           stdin=subprocess.DEVNULL, env=dict(os.environ, LC_ALL='C.UTF-8'), cwd=d)
        out = p.stdout.decode('utf-8', 'surrogateescape').split('\n')
        return p.returncode, [l[2:] for l in out if l[:2] == 'E\t'], len(out), p.stderr.decode('utf-8', 'replace')
    finally:
        shutil.rmtree(d, ignore_errors=True)


def check_M01():
    chk = Check('M01', 'exploration', 'coverage-guided executions of the parsing, compiling and evaluating entry points under AddressSanitizer, UndefinedBehaviorSanitizer and LeakSanitizer with monitors in the targets, '
                'and scripts of the other checks under memcheck',
                ['inputs are bounded in size (up to 3000 bytes) and the stack is 512 MB',
                 'stylesheets which could run for ever by their own logic (recursive templates) are compiled but not executed',
                 'references to files and hosts are resolved by handlers, never by opening them'])
    r = chk.rng
    specs = [dict(name='fz-' + t[0], srcs=['fz_%s.cpp' % t[0]], san='fuzz', opt='-O1') for t in TARGETS]
    exe = vlib.build(specs)
    exe.update(vlib.build([dict(name='mc-' + d, srcs=[d + '.cpp'], san='none', opt='-O1') for d, _, _ in sorted(GRIND, key=lambda g: ['xslt', 'xpath', 'sax', 'dom', 'html', 'util'].index(g[0]))]))
    jobs = []
    for name, gen, n, words, maxlen, procs, q, t in TARGETS:
        corpus = [b for b in gen(r, n) if len(b) <= maxlen]
        for k in range(procs * (2 if THOROUGH else 1)):
            jobs.append((name, exe['fz-' + name], corpus if k == 0 else r.sample(corpus, len(corpus) // 2), maxlen, n_cases(q, t), k, words))
    def task(j):
        return fuzz(j) if isinstance(j[0], str) and len(j) == 7 else grind(j)
    gj = []
    for d, mod, pids in GRIND:
        for pid in pids:
            cs = capture(pid, mod, n_cases(6, 60))
            gj.append((exe['mc-' + d], pid, cs))
    with ThreadPoolExecutor(vlib.NCPU) as ex:
        res = list(ex.map(task, jobs + gj))
    for (name, _, corpus, maxlen, runs, k, _), (rc, err, bad) in zip(jobs, res):
        if bad is not None or rc:
            if bad is None and 'ERROR: ' not in err and 'libFuzzer' not in err and 'runtime error' not in err:
                raise HarnessError('fuzz target %s: rc %s %s' % (name, rc, err[-1500:]))
            chk.violation('%s, %s\n%s' % (name, vlib.sig(err), err[-6000:]), 'fuzz target fz_%s.cpp, input (hex): %s\n%r' % (name, bad.hex() if bad else '-', bad))
            continue
        m = re.search(r'stat::number_of_executed_units:\s*(\d+)', err)
        n = int(m.group(1)) if m else 0
        f = re.findall(r'cov: (\d+) ft: (\d+) corp: (\d+)', err)
        if not f or n < runs // 2:
            raise HarnessError('fuzz target %s: %d executions, %s' % (name, n, err[-500:]))
        chk.ok(('fuzz', name, k, f[-1]), n)
        chk.count('%s executions' % name, n)
        for j in range(int(f[-1][2])):
            chk.distinct.add(hash((name, k, j)))
        chk.extra['%s edges covered' % name] = max(chk.extra.get('%s edges covered' % name, 0), int(f[-1][0]))
        chk.count('%s inputs with coverage of their own' % name, int(f[-1][2]))
        for w, c in re.findall(r'^COUNT\t([^\t]*)\t(\d+)$', err, re.M):
            chk.count('%s: %s' % (name, w), int(c))
        if k == 0:
            chk.sample('%s: %r' % (name, corpus[0][:200]), 8)
    for (_, pid, cs), (rc, done, events, err) in zip(gj, res[len(jobs):]):
        if rc == 97 or (rc and '== ' in err and 'Invalid' in err):
            cur = cs[len(done)] if len(done) < len(cs) else cs[-1]
            chk.violation('memcheck, workload of %s: %s' % (pid, err[:3000]), cur.text())
            continue
        if rc or len(done) != len(cs):
            raise HarnessError('memcheck run of %s: rc %s, %d of %d cases, %s' % (pid, rc, len(done), len(cs), err[-800:]))
        chk.ok(('memcheck', pid), len(cs))
        chk.count('scripts under memcheck', len(cs))
        chk.count('events under memcheck', events)
    chk.finish()
