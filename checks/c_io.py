"""I01: documents are read from exactly the place their identifier names, byte for byte.

A server on the loopback interface hands out the documents in fragments of arbitrary size, with delays, behind arbitrary
headers, and records what it was asked; the reader's events must be those it reports for the same bytes given as a stream."""
import os
import random
import shutil
import socket
import struct
import threading
import time
import vlib
from vlib import Case, Check, Crash, n_cases
from c_sax import segments
import xmlgen as xg


class Server:
    """one thread per connection; `pages` maps paths to (bytes, [pause or fragment length...]); other connections start with
    a line naming a script"""

    def __init__(self):
        self.s = socket.socket()
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        self.s.bind(('127.0.0.1', 0))
        self.s.listen(256)
        self.port = self.s.getsockname()[1]
        self.pages, self.scripts, self.log = {}, {}, []
        self.lock = threading.Lock()
        threading.Thread(target=self.accept, daemon=True).start()

    def accept(self):
        while True:
            try:
                c, _ = self.s.accept()
            except OSError:
                return
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()

    def serve(self, c):
        try:
            c.settimeout(60)
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            got = b''
            while b'\n' not in got:
                x = c.recv(1)
                if not x:
                    break
                got += x
            if got.startswith(b'SCRIPT '):
                self.script(c, got[7:-1].decode())
                return
            while not (got.endswith(b'\n\n') or got.endswith(b'\r\n\r\n')):
                x = c.recv(1)
                if not x:
                    break
                got += x
            path = got.split(b' ')[1].decode('utf-8', 'replace') if got.count(b' ') > 1 else None
            page = self.pages.get(path)
            with self.lock:
                self.log.append((path, got))
            if page is None:
                c.sendall(b'HTTP/1.0 404 Not Found\r\n\r\n')
            else:
                self.send(c, *page)
        except OSError:
            pass
        finally:
            try:
                c.shutdown(socket.SHUT_WR)
                while c.recv(4096):
                    pass
            except OSError:
                pass
            c.close()

    def send(self, c, data, plan):
        for p in plan:
            if not data:
                return
            if p < 0:
                time.sleep(-p / 1000)
            else:
                c.sendall(data[:p])
                data = data[p:]
        c.sendall(data)

    def script(self, c, name):
        steps, rec = self.scripts[name]
        for s in steps:
            if s[0] == 'expect':
                n = s[1]
                b = b''
                while len(b) < n:
                    x = c.recv(min(n - len(b), s[2]))
                    if not x:
                        break
                    b += x
                rec.append(b)
            elif s[0] == 'abort':
                c.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
                c.close()
                break
            elif s[0] == 'send':
                self.send(c, s[1], s[2])
            elif s[0] == 'rest':        # what else comes until the client is gone
                b = b''
                while True:
                    x = c.recv(65536)
                    if not x:
                        break
                    b += x
                rec.append(b)
        rec.append(None)


def fragments(r, n, quick=False):
    """how a stretch of n bytes is cut up and delayed"""
    k = r.random()
    if k < .25:
        plan = []
    elif k < .5:
        plan = [r.choice([1, 2, 3, 7]) for _ in range(min(n, r.choice([20, 60, 300])))]
    elif k < .8:
        plan = [r.choice([1, 100, 1019, 1020, 1023, 1024, 1025, 1028, 4096]) for _ in range(r.randint(1, 12))]
    else:
        plan = [r.randint(1, max(1, n)) for _ in range(3)]
    for _ in range(r.choice([0, 0, 1, 2, 4])):
        plan.insert(r.randint(0, len(plan)), -r.choice([1, 2, 5]))
    return plan


def headers(r):
    eol = b'\r\n' if r.random() < .8 else b'\n'
    hs = [r.choice([b'HTTP/1.0 200 OK', b'HTTP/1.1 200 OK', b'HTTP/1.0 200 '])]
    for k in range(r.choice([0, 1, 3, 8, 40])):
        hs.append(b'X-%d: ' % k + bytes(r.choice(b'abcdefg <>&"=;,') for _ in range(r.choice([0, 1, 20, 200, 1030]))))
    return eol.join(hs) + eol + eol


NAMES = ['a', 'b', 'r', 'x1', 'long-name', '\u00e9l\u00e9ment', '\u65e5\u672c']


def text(r, n=None):
    n = r.choice([0, 1, 5, 40, 400, 2500]) if n is None else n
    return ''.join(r.choice(['abc', 'x', ' ', '\n', '\u00e9', '\u20ac', '\U00010400', '.', '0123456789']) for _ in range(n))


def content(r, refs, depth=0):
    o = [text(r)]
    for _ in range(r.choice([0, 1, 2, 4])):
        k = r.random()
        if k < .45 and depth < 4:
            q = r.choice(NAMES)
            o.append('<%s%s>%s</%s>' % (q, ''.join(' %s="%s"' % (a, text(r, 3)) for a in r.sample(['i', 'j', 'k'], r.randint(0, 3))), content(r, refs, depth + 1), q))
        elif k < .65 and refs:
            o.append('&%s;' % r.choice(refs))
        elif k < .75:
            o.append('<!--%s-->' % text(r, 9))
        elif k < .85:
            o.append('<?p %s?>' % text(r, 2))
        else:
            o.append('<![CDATA[%s]]>' % text(r, 7))
        o.append(text(r))
    return ''.join(o)


def encode(r, t, decl):
    enc = r.choice(['utf-8', 'utf-8', 'utf-8', 'utf-16', 'utf-16-be'])
    if enc == 'utf-16-be':
        return b'\xfe\xff' + t.encode('utf-16-be')
    if enc == 'utf-16':
        return b'\xff\xfe' + t.encode('utf-16-le')
    return t.encode()


def plain(p):
    """what is left of the events when the question is what was read: text joined, positions and resolver calls aside"""
    out = []
    for e in p[1]:
        if e[0] == 'RES' or e[0] == 'LOC':
            continue
        if e[0] in ('FATAL', 'ERR', 'WARN'):
            e = [e[0], e[1], e[2]]
        if e[0] == 'CH' and out and out[-1][0] == 'CH':
            out[-1] = ['CH', out[-1][1] + e[1]]
        else:
            out.append(list(e))
    return out + [p[2]]


def relative(r, frm, to):
    """a reference to path `to` from a document at path `frm`"""
    a, b = frm.split('/')[1:-1], to.split('/')[1:]
    k = r.random()
    if k < .2:
        return to
    i = 0
    while i < len(a) and i < len(b) - 1 and a[i] == b[i]:
        i += 1
    rel = '/'.join(['..'] * (len(a) - i) + b[i:])
    return ('./' + rel) if k < .4 else rel


def world(r, n, tag):
    """documents which refer to each other: {path: text}, the first is the main one"""
    dirs = ['/%s' % tag, '/%s/d' % tag, '/%s/d/e' % tag, '/%s/f' % tag]
    paths = ['%s/%s%d.xml' % (r.choice(dirs), r.choice(['doc', 'a-b', 'x_y', 'p.q']), k) for k in range(n + 1)]
    return paths


def check_I01():
    chk = Check('I01', 'exploration', 'documents fetched from files, file: and http: URIs and registered resolvers, with the entities they refer to, give the events the same bytes give as streams; '
                'bytes sent and received through socket streams are the bytes written and read; every resource is asked for as it was named; nothing stays open',
                ['the server is on the loopback interface; responses are not chunked or compressed (requests are HTTP/1.0)', 'only successful responses carry a document; redirections are not followed'])
    r = chk.rng
    exe = vlib.build([dict(name='sax-expat', srcs=['sax.cpp']), dict(name='sax-libxml2', srcs=['sax.cpp'], backend='libxml2'), dict(name='html', srcs=['html.cpp']), dict(name='io', srcs=['io.cpp'])])
    srv = Server()
    base = os.path.join(vlib.BUILD, 'io-%d' % os.getpid())
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    host = ['127.0.0.1', 'localhost']
    try:
        socket.gethostbyname('localhost')
    except OSError:
        host = ['127.0.0.1']
    dead = socket.socket()
    dead.bind(('127.0.0.1', 0))     # nothing listens there
    try:
        readers(chk, r, exe, srv, base, host, dead.getsockname()[1])
        sockets(chk, r, exe, srv, host, dead.getsockname()[1])
        resolvers(chk, r, exe)
    finally:
        shutil.rmtree(base, ignore_errors=True)
        srv.s.close()
    chk.finish()


def readers(chk, r, exe, srv, base, host, dead):
    for drv, n in (('sax-expat', n_cases(500, 8000)), ('sax-libxml2', n_cases(100, 1500)), ('html', n_cases(120, 2500))):
        cases = []
        for i in range(n):
            tag = '%s%d' % (drv[-1] if drv != 'html' else 'h', i)
            nents = r.choice([0, 1, 2, 4]) if drv == 'sax-expat' else 0
            paths = world(r, nents, tag)
            where = r.choice(['http', 'http', 'http', 'file', 'uri', 'uri3'])
            if drv == 'html':
                where = r.choice(['http', 'http', 'file', 'uri'])
            h = r.choice(host)
            # http paths may carry a query
            q = ['?q=%d&x=/../y' % k if where == 'http' and r.random() < .15 else '' for k in range(len(paths))]
            main = paths[0]
            frag = '#f-%d' % i if where == 'http' and r.random() < .1 else ''
            slash = True
            if where == 'http' and not nents and r.random() < .1:
                # nothing but a host, and a query
                paths, q, slash = ['/'], ['?only=%s' % tag], r.random() < .5
            main = paths[0]
            # entity k may refer to later ones
            docs = {}
            for k in range(len(paths) - 1, -1, -1):
                refs = ['e%d' % j for j in range(k + 1, len(paths))]
                body = content(r, refs if len(refs) < 3 or k else refs)
                if drv == 'html':
                    t = '<html><body><p>%s</p></body></html>' % text(r, r.choice([3, 60, 900]))
                    docs[paths[k]] = t.encode()
                    continue
                if k:
                    docs[paths[k]] = encode(r, (r.choice(['', '<?xml version="1.0" encoding="UTF-8"?>']) if r.random() < .0 else '') + body, False)
                    continue
                decls = ''.join('<!ENTITY e%d SYSTEM "%s">' % (j, relative(r, main, paths[j]) + q[j]) for j in range(1, len(paths)))
                t = ('<!DOCTYPE r [%s]>' % decls if decls else '') + '<r>%s</r>' % body
                b = encode(r, t, True)
                if r.random() < .1:
                    b = b[:r.randint(0, len(b))]
                if r.random() < .03:
                    b = b''
                docs[main] = b
            root = dict(http='http://%s:%d' % (h, srv.port), file=base, uri='file://' + base, uri3='file://' + base)[where]
            url = lambda p: root + (p if slash else '') + q[paths.index(p)] + (frag if p == main else '')
            missing = r.random() < .06
            if missing and drv == 'sax-expat':
                what = r.choice(['dead port', 'no file', 'no host', 'unknown scheme', 'dead port, a file there', 'unknown scheme, a file there', 'error page', 'error page', 'error page, a file there'])
                if 'there' in what:
                    local = base + main
                    os.makedirs(os.path.dirname(local), exist_ok=True)
                    if main != '/':
                        open(local, 'wb').write(docs[main])
                if what.startswith('error page'):
                    p = base + main if 'there' in what else main
                    b = r.choice([b'HTTP/1.0', b'HTTP/1.1']) + b' ' + r.choice([b'404 Not Found', b'500 Internal Server Error', b'403 Forbidden', b'503 ', b'301 Moved Permanently', b'400']) + b'\r\nContent-Type: text/xml\r\n\r\n' + r.choice([docs[main], b'<html><body>sorry</body></html>', b''])
                    srv.pages[p + q[0]] = (b, fragments(r, len(b)))
                sysid = {'dead port, a file there': 'http://127.0.0.1:%d%s' % (dead, base + main), 'unknown scheme, a file there': r.choice(['nosuch:%s', 'nosuch://127.0.0.1%s', 'https://127.0.0.1%s', 'ftp://localhost%s']) % (base + main),
                         'error page': 'http://%s:%d%s' % (h, srv.port, main + q[0]), 'error page, a file there': 'http://%s:%d%s' % (h, srv.port, base + main + q[0]), 'dead port': 'http://127.0.0.1:%d%s' % (dead, main), 'no file': root + '/nosuch' + main if where != 'http' else 'file:///nosuch' + main, 'no host': 'http:///x', 'unknown scheme': 'nosuch:abc'}[what]
                cases.append(Case(tag, [['FDS'], ['PARSE', 'missing', '-', sysid], ['FDS']], ['n'], ('missing', what, sysid)))
                continue
            for k, p in enumerate(paths):
                if where == 'http':
                    b = headers(r) + docs[p]
                    srv.pages[p + q[k]] = (b, fragments(r, len(b)))
                else:
                    f = base + p
                    os.makedirs(os.path.dirname(f), exist_ok=True)
                    open(f, 'wb').write(docs[p])
            kind = 'w' if r.random() < .2 else 'n'
            if drv == 'html':
                lines = [['FDS'], ['PARSE', 'named', '-', '0', url(main)], ['FDS'], ['FRESH'], ['DOC', 'd', docs[main].hex()], ['PARSE', 'stream', 'd', '0', url(main)], ['FDS']]
                cases.append(Case(tag, lines, [kind], ('html', paths[:1], q, where, '%s:%d' % (h, srv.port))))
                continue
            ge = r.random() < .85
            lines = [['FDS']] + ([['FEAT', 'ge', '1' if ge else '0']] if drv == 'sax-expat' else []) + [['PARSE', 'missing', '-', url(main)], ['FDS']]
            if r.random() < .4:    # a stream is preferred to the name
                lines += [['DOC', 'd', docs[main].hex()], ['PARSE', 'both', 'd', root + '/nosuch' if not nents else url(main)], ['FDS']]
            # the same given as streams
            lines += [['DOC', 'd', docs[main].hex()]] + [['DOC', url(p), docs[p].hex()] for p in paths[1:]] + [['RESOLVER'], ['PARSE', 'stream', 'd', url(main)], ['FDS']]
            cases.append(Case(tag, lines, [kind], ('xml', paths, q, where, '%s:%d' % (h, srv.port), ge, any(l[:2] == ['PARSE', 'both'] for l in lines))))
        srv.log.clear()
        res = vlib.run(exe[drv], cases, leak=25, timeout=60)
        asked = {}
        for p, got in srv.log:
            asked.setdefault(p[7:] if p and p.startswith('/?only=') else (p or '').split('/')[1] if p and p.count('/') > 1 else p, []).append((p, got))
        for c in cases:
            ev = res[c.id]
            show = c.text()[:6000]
            if isinstance(ev, Crash):
                chk.violation('%s: %r' % (drv, ev), show)
                continue
            if ['LEAK'] in ev:
                chk.violation('%s: memory leaked' % drv, show)
                continue
            fd = [e[1] for e in ev if e[0] == 'FDS']
            if len(set(fd)) != 1:
                chk.violation('%s: files or sockets left open: %r' % (drv, fd), show)
                continue
            segs = segments(ev)
            m = c.meta
            if m[0] == 'missing':
                got = segs[0][1]
                if sum(e[0] == 'FATAL' for e in got) != 1 or any(e[0] in ('SE', 'CH') for e in got) or segs[0][2][0] != 'RET':
                    chk.violation('%s: reading %s (%s) must be one fatal error: %r %r' % (drv, m[2], m[1], got[:5], segs[0][2]), show)
                else:
                    chk.ok(('missing', m[1], m[2]))
                    chk.count('unreadable sources reported')
                continue
            want = plain(segs[-1])
            bad = None
            for s in segs[:-1]:
                got = plain(s)
                if got != want:
                    j = next((j for j, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
                    bad = '%s: %s (%s)\n event %d, read from there: %.600r\n read from a stream: %.600r' % (drv, m[3], s[0][1], j, got[j:j + 2], want[j:j + 2])
                    break
            if bad:
                chk.violation(bad, show)
                continue
            if m[3] == 'http':
                reqs = asked.get(c.id, [])
                for p, got in reqs:
                    ls = got.decode('latin-1').split('\r\n')
                    if ls[0] != 'GET %s HTTP/1.0' % p or [l[6:].strip() for l in ls if l.lower().startswith('host: ')] != [m[4]] or not got.endswith(b'\r\n\r\n') or '\n' in ''.join(ls):
                        bad = 'the request was %r' % got
                    if p not in [x + y for x, y in zip(m[1], m[2])]:
                        bad = '%s asked for' % p
                if not bad and [p for p, _ in reqs].count(m[1][0] + m[2][0]) != 1:
                    bad = 'the document was asked for %d times' % [p for p, _ in reqs].count(m[1][0] + m[2][0])
                if not bad and m[0] == 'xml' and drv == 'sax-expat':
                    # every external entity the stream reading resolved was asked for, that often, and nothing else
                    res_ = [e[2] for e in segs[-1][1] if e[0] == 'RES']
                    pre = 'http://%s' % m[4]
                    x = sorted(u[len(pre):] for u in res_ if u.startswith(pre)) * (2 if m[6] else 1)
                    y = sorted(p for p, _ in reqs if p != m[1][0] + m[2][0])
                    if sorted(x) != y:
                        bad = 'entities asked for: %r, resolved when reading streams: %r' % (y, x)
                if bad:
                    chk.violation('%s: %s' % (drv, bad), show)
                    continue
                chk.count('requests served', len(reqs))
            chk.ok((drv, m[3], c.text()))
            chk.count('%s documents read by %s' % (drv, m[3]))
            chk.count('events compared', len(want))
            chk.sample('%s: %s, %d resources, %d events' % (drv, m[3], len(m[1]), len(want)), 6)
        srv.pages.clear()


def sockets(chk, r, exe, srv, host, dead):
    cases = []
    for i in range(n_cases(150, 3000)):
        name = 's%d' % i
        lines, want, steps, rec, stream = [], [], [], [], []
        if r.random() < .06:
            h, p = r.choice([('127.0.0.1', dead), ('', 1)])
            how = r.choice(['ctor', 'open'])
            lines = [['open', h, str(p), how], ['drop']]
            cases.append(Case(name, lines, [], ([['OPEN', '0', '0'], ['DROP'], ['FDS', '0']], None, None)))
            continue
        for session in range(r.choice([1, 1, 1, 2])):
            sn = '%s-%d' % (name, session)
            steps, rec = [], []
            srv.scripts[sn] = (steps, rec)
            stream.append((rec, []))
            exp = stream[-1][1]
            if session:
                lines.append(['close'])
                want.append(['CLOSE', '0'])
            lines.append(['open', r.choice(host), str(srv.port), 'again' if session else r.choice(['ctor', 'open'])])
            want.append(['OPEN', '1', '1'])
            hello = ('SCRIPT %s\n' % sn).encode()
            lines += [['w', 'str', hello.hex()]]
            want += [['W', '1']]
            for _ in range(r.choice([1, 2, 4])):
                k = r.random()
                if k < .5:
                    # the client writes
                    parts = [bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 5, 500, 1023, 1024, 1025, 2048, 5000, 30000]))) for _ in range(r.choice([1, 1, 2, 5]))]
                    for b in parts:
                        lines.append(['w', r.choice(['put', 'write', 'str']), b.hex()])
                        want.append(['W', '1'])
                        if r.random() < .2:
                            lines.append(['flush'])
                            want.append(['FLUSH', '1'])
                    lines.append(['flush'])
                    want.append(['FLUSH', '1'])
                    b = b''.join(parts)
                    steps.append(('expect', len(b), r.choice([1, 100, 65536]) if len(b) < 3000 else 65536))
                    exp.append(b)
                else:
                    lines.append(['flush'])
                    want.append(['FLUSH', '1'])
                    # the server writes
                    b = bytes(r.choice(b'abc\n\r\0\xff\x80') for _ in range(r.choice([1, 4, 100, 1019, 1020, 1024, 1025, 3000, 20000])))
                    steps.append(('send', b, fragments(r, len(b))))
                    left = b
                    while left:
                        how = r.choice(['get', 'read', 'line', 'peek'])
                        if how == 'peek':
                            lines.append(['peek'])
                            want.append(['PEEK', str(left[0])])
                            how = 'get'
                        if how == 'line' and b'\n' not in left:
                            how = 'read'
                        if how == 'line':
                            j = left.index(b'\n') + 1
                            lines.append(['r', 'line', '0'])
                        else:
                            j = r.choice([1, 3, 50, 1023, 1024, len(left)])
                            j = min(j, len(left))
                            lines.append(['r', how, str(j)])
                        want.append(['R', left[:j].hex(), ''])
                        taken, left = left[:j], left[j:]
                        if r.random() < .25:
                            # the buffer keeps four characters to be put back
                            for back in range(r.choice([1, 1, 2, 3, 4])):
                                if back >= len(taken):
                                    break
                                last = taken[len(taken) - 1 - back:][:1]
                                if r.random() < .6:
                                    lines.append(['unget'])
                                    want.append(['UNGET', '1'])
                                    left = last + left
                                else:
                                    x = bytes([r.choice(b'xyz')]) if r.random() < .5 else last
                                    lines.append(['putback', x.hex()])
                                    want.append(['PUTBACK', '1'])
                                    left = x + left
            end = r.random()
            if end < .1:
                # the server goes away while it is being written to: nothing but this stream suffers
                # (once the client has read everything: a reset may lose what it has not)
                lines += [['w', 'str', b'.'.hex()], ['flush']]
                want += [['W', '1'], ['FLUSH', '1']]
                exp.append(b'.')
                steps += [('expect', 1, 1), ('abort',)]
                lines.append(['gone', str(r.choice([1, 1500, 100000])), str(r.choice([1, 1, 2]))])
                want.append(['GONE', '0'])
            elif end < .4:
                # the server goes away: the rest and then the end of the stream
                lines.append(['flush'])
                want.append(['FLUSH', '1'])
                b = bytes(r.choice(b'abc\n') for _ in range(r.choice([0, 1, 1500, 9000])))
                steps.append(('send', b, fragments(r, len(b))))
                steps.append(('end',))
                lines += [['r', 'all', '0'], ['r', 'get', '1']]
                want += [['R', b.hex(), ''], ['R', '', 'eof']]
            else:
                b = bytes(r.getrandbits(8) for _ in range(r.choice([0, 1, 800, 4000])))
                lines.append(['w', 'write', b.hex()])
                want.append(['W', '1'])
                steps.append(('rest',))
                exp.append(b)       # whatever has been written has been sent when the stream is closed or gone
        if r.random() < .5:
            lines.append(['close'])
            want.append(['CLOSE', '0'])
        lines.append(['drop'])
        want.append(['DROP'])
        want.append(['FDS', '0'])
        cases.append(Case(name, lines, [], (want, stream, None)))
    res = vlib.run(exe['io'], cases, leak=20, timeout=60)
    for c in cases:
        ev = res[c.id]
        want, stream, _ = c.meta
        show = c.text()[:8000]
        if isinstance(ev, Crash):
            chk.violation('socket stream: %r' % ev, show)
            continue
        if ev != want:
            j = next((j for j, (x, y) in enumerate(zip(ev, want)) if x != y), min(len(ev), len(want)))
            chk.violation('socket stream, step %d: %.300r expected %.300r' % (j, ev[j:j + 1], want[j:j + 1]), show)
            continue
        bad = None
        for rec, exp in stream or []:
            t0 = time.time()
            while (not rec or rec[-1] is not None) and time.time() - t0 < 30:
                time.sleep(.01)
            got = [b for b in rec if b is not None]
            if got != exp:
                j = next((j for j, (x, y) in enumerate(zip(got, exp)) if x != y), min(len(got), len(exp)))
                bad = 'bytes the server received (%d): %d, written: %d' % (j, len(got[j]) if j < len(got) else -1, len(exp[j]) if j < len(exp) else -1)
            else:
                chk.count('bytes sent through sockets', sum(map(len, exp)))
        if bad:
            chk.violation('socket stream: ' + bad, show)
            continue
        chk.ok(('socket', c.text()))
        chk.count('socket sessions')
        chk.count('socket reads compared', sum(e[0] == 'R' for e in ev))


def resolvers(chk, r, exe):
    cases = []
    for i in range(n_cases(60, 1000)):
        lines, want, reg, store = [], [], {}, {}
        schemes = ['mem%d' % i, 'x-y.z%d' % i, 'data']
        for _ in range(r.randint(4, 14)):
            k = r.random()
            s = r.choice(schemes)
            if k < .25:
                reg[s] = r.choice('12')
                lines.append(['register', s, reg[s]])
                want.append(['REG', '1'])
            elif k < .35:
                reg.pop(s, None)
                lines.append(['unregister', s])
                want.append(['UNREG', '1'])
            elif k < .6:
                u, b = '%s:%s' % (s, r.choice(['a', '//h/a', 'a/b?c'])), text(r, 5).encode()
                store[u] = b
                lines.append(['content', u, b.hex()])
            else:
                u = r.choice(list(store) + ['%s:nothing' % s])
                b = text(r, 4).encode()
                mode = r.choice(['', '', '', 'stream', 'owned'])
                lines.append(['resolve', u, b.hex()] + ([mode] if mode else []))
                sch = u.split(':')[0]
                if mode:
                    want.append(['GOT', b.hex()])
                    want.append(['STREAMS', '1' if mode == 'owned' else '0', '0'])
                elif sch in reg:
                    want.append(['ASKED', reg[sch], u])
                    if u in store:
                        want += [['GOT', ((b'2:' if reg[sch] == '2' else b'') + store[u]).hex()], ['STREAMS', '1', '0']]
                    else:
                        want += [['GOT-NOTHING'], ['STREAMS', '0', '0']]
                else:
                    want += [['GOT-NOTHING'], ['STREAMS', '0', '0']]
        for s in list(reg):
            lines.append(['unregister', s])
            want.append(['UNREG', '1'])
        want.append(['FDS', '0'])
        cases.append(Case('u%d' % i, lines, [], want))
    res = vlib.run(exe['io'], cases, leak=20)
    for c in cases:
        ev = res[c.id]
        if isinstance(ev, Crash) or ev != c.meta:
            j = 0 if isinstance(ev, Crash) else next((j for j, (x, y) in enumerate(zip(ev, c.meta)) if x != y), min(len(ev), len(c.meta)))
            chk.violation('resolvers: %r' % ev if isinstance(ev, Crash) else 'resolvers, step %d: %r expected %r' % (j, ev[j:j + 1], c.meta[j:j + 1]), c.text())
            continue
        chk.ok(('resolver', c.text()))
        chk.count('resolver sessions')
