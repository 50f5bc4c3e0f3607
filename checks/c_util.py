"""U01 transcoding, U02 URIs, U03 character classes and names."""
import base64, html
from vlib import *
import xmlchars as xc

BIN = lambda: build([dict(name='util', srcs=['util.cpp'])])['util']


# ---------------------------------------------------------------- U01
def hx(b):
    return b.hex()


def hxw(s):
    """wide: 8 hex digits per code point (a list of ints or a str)"""
    return ''.join('%08x' % (c if isinstance(c, int) else ord(c)) for c in s)


ROT = bytes.maketrans(b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz', b'NOPQRSTUVWXYZABCDEFGHIJKLMnopqrstuvwxyzabcdefghijklm')
BOUND = [0, 1, 9, 0x41, 0x7e, 0x7f, 0x80, 0x81, 0xa9, 0xbf, 0xc0, 0xff, 0x100, 0x3ff, 0x400, 0x7fe, 0x7ff, 0x800, 0x801, 0xfff,
         0x1000, 0x20ac, 0xd7fe, 0xd7ff, 0xe000, 0xe001, 0xfdd0, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10001, 0x103ff, 0x10400,
         0x1f600, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10fffe, 0x10ffff]


def rtext(r, n, top=0x110000):
    out = []
    for _ in range(n):
        k = r.random()
        c = r.choice(BOUND) if k < .4 else r.randrange(0x20, 0x7f) if k < .7 else r.randrange(min(top, 0x800)) if k < .8 \
            else r.randrange(min(top, 0x10000)) if k < .9 else r.randrange(top)
        if 0xd800 <= c <= 0xdfff or c >= top:
            c = 0x41 + c % 26
        out.append(chr(c))
    return ''.join(out)


def steps(r):
    return ' '.join(str(r.choice([1, 1, 1, 2, 2, 3, 4, 5, 7, 16])) for _ in range(r.randint(1, 5)))


def u8prefix(b):
    """(decoded valid prefix, its byte length, 'ok'|'partial'|'error'): an independent strict UTF-8 decoder"""
    i, out = 0, []
    while i < len(b):
        c = b[i]
        if c < 0x80:
            n, v, lo = 0, c, 0
        elif 0xc0 <= c < 0xe0:
            n, v, lo = 1, c & 0x1f, 0x80
        elif 0xe0 <= c < 0xf0:
            n, v, lo = 2, c & 0xf, 0x800
        elif 0xf0 <= c < 0xf8:
            n, v, lo = 3, c & 7, 0x10000
        else:
            return out, i, 'error'
        for k in range(1, n + 1):
            if i + k >= len(b):
                return out, i, 'partial'
            if b[i + k] & 0xc0 != 0x80:
                return out, i, 'error'
            v = v << 6 | b[i + k] & 0x3f
        if v < lo or v > 0x10ffff or 0xd800 <= v < 0xe000:
            return out, i, 'error'
        out.append(v)
        i += n + 1
    return out, i, 'ok'


def malformed8(r):
    b = rtext(r, r.randint(0, 6)).encode()
    bad = r.choice([b'\x80', b'\xbf', b'\xc0\xaf', b'\xc1\xbf', b'\xe0\x80\xaf', b'\xe0\x9f\xbf', b'\xf0\x80\x80\xaf', b'\xf0\x8f\xbf\xbf',
                    b'\xed\xa0\x80', b'\xed\xbf\xbf', b'\xf4\x90\x80\x80', b'\xf7\xbf\xbf\xbf', b'\xf8\x88\x80\x80\x80', b'\xfe', b'\xff',
                    b'\xc3A', b'\xe2\x82A', b'\xf0\x9f\x98A', b'\xe2A', b'\xf0\x9fA', b'\xc3\xc3\xa9', b'\xe2\x82\xe2\x82\xac',
                    b'\xc3', b'\xe2', b'\xe2\x82', b'\xf0', b'\xf0\x9f', b'\xf0\x9f\x98', bytes([r.randrange(256) for _ in range(r.randint(1, 5))])])
    return b + bad + (rtext(r, r.randint(0, 4)).encode() if r.random() < .6 else b'')


def check_U01():
    c = Check('U01', rule='input length >= 2 units converted over at least 3 calls, or malformed input, or a stream with > 1 read/write')
    exe = BIN()
    r = c.rng
    cases, N = [], n_cases(12000, 80000)
    WIDECAPS = [1, 1, 2, 3, 5, 64]
    for i in range(N):
        L, exp = [], []

        def F(name, d, src, out, status='ok', used=None, caps=None, st=None):
            """one facet call sequence; src/out hex strings"""
            L.append(['F', name, d, steps(r) if st is None else st, r.choice(caps), src])
            exp.append(['R', status, out, used])
        t = rtext(r, r.randint(1, 24) if r.random() < .97 else r.randint(200, 3000))
        u8 = t.encode()
        lat = rtext(r, r.randint(1, 24), 0x100)
        raw = bytes(r.randrange(256) for _ in range(r.randint(1, 40)))
        n16 = {'be': t.encode('utf-16-be'), 'le': t.encode('utf-16-le')}
        c8 = [4, 4, 5, 7, 64]
        kind = i % 8
        if kind == 0:  # UTF-8 <-> wide, all three facets
            F('utf8ucs2', 'in', hx(u8), hxw(t), used=len(u8), caps=WIDECAPS)
            F('utf8ucs2', 'out', hxw(t), hx(u8), used=len(t), caps=c8)
            for f in ('ucs2utf8', 'utf16utf8'):
                F(f, 'in', hxw(t), hx(u8), used=len(t), caps=c8)
                F(f, 'out', hx(u8), hxw(t), used=len(u8), caps=WIDECAPS)
        elif kind == 1:
            for e in 'be', 'le':
                F('utf16' + e, 'in', hx(n16[e]), hxw(t), used=len(n16[e]), caps=WIDECAPS)
                F('utf16' + e, 'out', hxw(t), hx(n16[e]), used=len(t), caps=[4, 5, 6, 7, 64])
        elif kind == 2:
            l1, l8 = lat.encode('latin-1'), lat.encode()
            for f, a, b in (('iso88591utf8', 'in', 'out'), ('utf8iso88591', 'out', 'in')):
                F(f, a, hx(l1), hx(l8), used=len(l1), caps=[2, 2, 3, 5, 64])
                F(f, b, hx(l8), hx(l1), used=len(l8), caps=[1, 1, 2, 3, 64])
            # characters ISO-8859-1 does not have become '?', one per character
            q = hx(bytes(min(ord(x), 256) if ord(x) < 256 else 63 for x in t))
            F('utf8iso88591', 'in', hx(u8), q, used=len(u8), caps=[1, 1, 2, 3, 64])
        elif kind == 3:
            b64 = base64.b64encode(raw)
            F('base64', 'out', hx(raw), hx(b64), used=len(raw), caps=[1, 1, 2, 3, 4, 5, 64], st=r.choice(['3', '6', '3 9', '1000']))
            F('base64', 'in', hx(b64), hx(raw), used=len(b64), caps=[1, 1, 2, 3, 64])
            j = b''.join(bytes([x]) + r.choice([b'', b'', b'', b'\n', b' ', b'\r\n']) for x in b64)
            F('base64', 'in', hx(j), hx(raw), used=len(j), caps=[64, 1, 2, 5])
            raw2 = raw.translate(ROT)
            F('rot13', 'in', hx(raw), hx(raw2), used=len(raw), caps=[1, 2, 3, 64])
            F('rot13', 'out', hx(raw), hx(raw2), used=len(raw), caps=[1, 2, 3, 64])
        elif kind == 4:  # malformed
            b = malformed8(r)
            out, used, stt = u8prefix(b)
            F('utf8ucs2', 'in', hx(b), hxw(out), stt, used, WIDECAPS)
            F('ucs2utf8', 'out', hx(b), hxw(out), stt, used, WIDECAPS)
            F('utf16utf8', 'out', hx(b), hxw(out), stt, used, WIDECAPS)
            F('utf8iso88591', 'in', hx(b), hx(bytes(x if x < 256 else 63 for x in out)), stt, used, [1, 2, 3, 64])
            w = [ord(x) for x in t[:r.randint(0, 6)]]
            wb = w + [r.choice([0xd800, 0xdbff, 0xdc00, 0xdfff, 0x110000, 0x7fffffff, 0xffffffff, 0x80000000])] + [0x41]
            e8 = ''.join(map(chr, w))
            F('utf8ucs2', 'out', hxw(wb), hx(e8.encode()), 'error', len(w), c8)
            F('utf16utf8', 'in', hxw(wb), hx(e8.encode()), 'error', len(w), c8)
            F('utf16be', 'out', hxw(wb), hx(e8.encode('utf-16-be')), 'error', len(w), [4, 5, 64])
            good = e8.encode('utf-16-be')
            tail = r.choice([(b'\xd8', 'partial'), (b'\xd8\x00', 'partial'), (b'\xd8\x00\xdc', 'partial'), (b'\xdc\x00', 'error'),
                             (b'\xdc\x00\x00A', 'error'), (b'\xd8\x00\x00A', 'error'), (b'\xd8\x00\xd8\x00', 'error'), (b'\x00', 'partial')])
            F('utf16be', 'in', hx(good + tail[0]), hxw(w), tail[1], len(good), WIDECAPS)
        else:  # streams
            plan = ' '.join(str(r.choice([0, 1, 1, 2, 3, 7, 64, 500])) for _ in range(r.randint(1, 6))) + ' 2'
            if r.random() < .25:  # around the 1024-unit internal buffers
                k = r.choice([1, 2, 3, 509, 510, 511, 512, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 1027, 2047, 2048, 2049, 4100])
                t = (rtext(r, 13) * (k // 13 + 1))[:k]
                u8 = t.encode()
            which = r.choice(['utf8ucs2', 'utf16be', 'utf16le', 'latin-out', 'latin-in', 'rot13', 'base64'])
            if which == 'utf8ucs2':
                f, ext, inn = which, hx(u8), hxw(t)
            elif which.startswith('utf16'):
                f, ext, inn = which, hx(t.encode('utf-16-' + which[-2:])), hxw(t)
            elif which == 'latin-out':
                lat = rtext(r, len(t), 0x100)
                f, ext, inn = 'iso88591utf8', hx(lat.encode('latin-1')), hx(lat.encode())
            elif which == 'latin-in':
                lat = rtext(r, len(t), 0x100)
                f, ext, inn = 'utf8iso88591', hx(lat.encode()), hx(lat.encode('latin-1'))
            elif which == 'rot13':
                f, inn, ext = which, hx(u8), hx(u8.translate(ROT))
            else:
                f, inn, ext = which, hx(u8), hx(base64.b64encode(u8))
            for k in (['SI', 'AI'] if f == 'base64' else ['SI', 'SO', 'AI', 'AO']):
                L.append([k, f, plan, ext if k[1] == 'I' else inn])
                w = inn if k[1] == 'I' else ext
                exp.append(['S', w, w])
                if k == 'SO':
                    exp[-1] = ['S', None, w]  # operator<< pieces: see below
            if f == 'base64':
                L.append(['SO', f, '', inn])
                exp.append(['S', None, ext])
                L.append(['AO', f, '', inn])
                exp.append(['S', ext, ext])
            a = t.replace('\0', '')
            L.append(['SA', hx(a.encode()), hxw(a)])
            exp.append(['SA', hxw(a), hx(a.encode()), hx(a.encode()), hxw(a), hxw(a), hx(a.encode())])
        cases.append(Case('u%d' % i, L, meta=(exp, kind)))
    res = run(exe, cases)
    for cs in cases:
        ev = res.get(cs.id)
        exp, kind = cs.meta
        if ev is None:
            continue
        if isinstance(ev, Crash):
            c.violation('%r' % ev, cs.text())
            continue
        for l, e, g in zip(cs.lines, exp, ev + [['MISSING']] * len(exp)):
            if e[0] == 'R':
                bad = g[:3] != e[:3] or g[3] != str(e[3])
                c.ok((l[1], l[2], l[3], l[4], l[5][:64]) if bad or int(g[4]) >= 3 or e[1] != 'ok' else None)
                c.count('facet_calls', int(g[4]) if g[0] == 'R' else 0)
                c.count('status_' + e[1])
            elif l[0] == 'SO':
                bad = g[0] != 'S' or g[2] != e[2]
                c.ok((l[0], l[1], l[2], l[3][:64]))
                c.count('stream_' + l[0])
            else:
                bad = g != [str(x) for x in e]
                c.ok((l[0], l[1], l[2][:64], l[-1][:64]))
                c.count('stream_' + l[0])
            if bad:
                c.violation('%s: expected %s, got %s' % (l, e, g), cs.text())
        if len(ev) != len(exp):
            c.violation('%d results for %d calls: %s' % (len(ev), len(exp), ev[-1:]), cs.text())
    c.sample(cases[0].text()[:400])
    c.sample(cases[4].text()[:400])
    c.finish()


# ---------------------------------------------------------------- U02: RFC 3986 section 5, written from the RFC
def parse_uri(s):
    scheme = auth = None
    m = re.match(r'^([A-Za-z][A-Za-z0-9+.-]*):', s)
    if m:
        scheme, s = m.group(1), s[m.end():]
    frag = query = None
    if '#' in s:
        s, frag = s.split('#', 1)
    if '?' in s:
        s, query = s.split('?', 1)
    if s.startswith('//'):
        k = s.find('/', 2)
        k = len(s) if k < 0 else k
        auth, s = s[2:k], s[k:]
    return scheme, auth, s, query, frag


def remove_dots(inp):
    out = ''
    while inp:
        if inp.startswith('../'):
            inp = inp[3:]
        elif inp.startswith('./'):
            inp = inp[2:]
        elif inp.startswith('/./'):
            inp = inp[2:]
        elif inp == '/.':
            inp = '/'
        elif inp.startswith('/../'):
            inp = inp[3:]
            out = out[:out.rfind('/')] if '/' in out else ''
        elif inp == '/..':
            inp = '/'
            out = out[:out.rfind('/')] if '/' in out else ''
        elif inp in ('.', '..'):
            inp = ''
        else:
            k = inp.find('/', 1)
            k = len(inp) if k < 0 else k
            out += inp[:k]
            inp = inp[k:]
    return out


def resolve(base, ref):
    bs, ba, bp, bq, bf = parse_uri(base)
    s, a, p, q, f = parse_uri(ref)
    if s is not None and s == bs and a is None and s == 'file' and not p.startswith('/'):
        s = None  # section 5.2.2, non-strict: the scheme of a relative file: reference is ignored
    if s is not None:
        if s != 'file' or a or p.startswith('/'):
            p = p  # dot segments of a reference with its own scheme are left as they were written
        return s, a or '', p, q, f
    s = bs
    if a is not None:
        p = remove_dots(p)
    else:
        a = ba
        if p == '':
            p = bp
            q = bq if q is None else q
        elif p.startswith('/'):
            p = remove_dots(p)
        else:
            p = remove_dots('/' + p if (ba and not bp) else bp[:bp.rfind('/') + 1] + p)
    return s, a or '', p, q, f


DEFPORT = {'http': '80', 'https': '443'}


def present(s, a, p, q, f):
    """what the URI accessors must show"""
    host, port = a, ''
    i = a.rfind('@')
    j = a.find(']', i + 1)
    k = a.find(':', (j if j >= 0 else i) + 1)
    if k >= 0:
        host, port = a[:k], a[k + 1:]
    path = p + ('' if q is None else '?' + q) + ('' if f is None else '#' + f)
    absolute = bool(s and host) or (s == 'file' and path.startswith('/'))
    text = (s + ':' if s else '') + ('//' if absolute or host else '') + (host + (':' + port if port else '') if host else '') + path
    return ['URI', s or '', host, port or DEFPORT.get(s, '0'), path, '1' if absolute else '0', text]


def rseg(r):
    return r.choice(['a', 'b', 'news', 'x.xml', '..', '.', '', 'c:d', 'e;p=1', '...', '.x', '..y', 'z~', '%41', 'g@h', 'a b', '\u00e9', 'x.', 'y..'])


def rpath(r, absolute):
    segs = [rseg(r) for _ in range(r.randint(0, 5))]
    p = '/'.join(segs)
    if absolute:
        p = '/' + p
        while p.startswith('//'):
            p = p[1:]
    return p


def rtail(r):
    t = ''
    if r.random() < .25:
        t += '?' + r.choice(['', 'q', 'a=b&c=../d', 'x:y', '/../z', 'http://u/v'])
    if r.random() < .2:
        t += '#' + r.choice(['', 'f', 'a/../b', 's:t', 'u?v'])
    return t


def rbase(r):
    k = r.random()
    if k < .7:
        auth = r.choice(['h', 'www.jezuk.co.uk', 'localhost', '127.0.0.1', 'user@h', '[::1]', 'user:pw@h']) + r.choice(['', '', ':80', ':8080', ':1'])
        p = rpath(r, True) if r.random() < .9 else ''
        return r.choice(['http', 'https', 'ftp', 'x-y.z+1']) + '://' + auth + p + rtail(r)
    return 'file:' + r.choice(['//', '', '//localhost']) + rpath(r, True) + rtail(r)


def rref(r):
    k = r.random()
    if k < .08:
        return rbase(r)
    if k < .12:
        return r.choice(['mailto:a@b', 'urn:x:y', 'data:,x/../y', 'news:c.l.x'])
    if k < .2:
        return '//' + r.choice(['h', 'h2:99', 'www.x']) + (rpath(r, True) if r.random() < .8 else '') + rtail(r)
    if k < .4:
        return rpath(r, True) + rtail(r)
    if k < .5:
        return rtail(r)
    p = rpath(r, False)
    while p.startswith('/'):
        p = p[1:]
    f = p.split('/')[0]
    if ':' in f:
        p = './' + p
    return p + rtail(r)


def check_U02():
    c = Check('U02', rule='a base/reference pair whose reference is not a full URI, or a structured URI')
    exe, r = BIN(), c.rng
    cases = []
    for i in range(n_cases(30000, 200000)):
        L, exp = [], []
        k = i % 10
        if k < 7:
            for _ in range(4):
                b, f = rbase(r), rref(r)
                s = resolve(b, f)
                L.append(['R', b, f])
                p = present(*s)
                exp += [p, present(s[0], s[1], s[2], s[3], None), ['EQ', '1']]
                u = parse_uri(b)
                L.append(['U', b])
                exp.append(present(u[0], u[1] or '', *u[2:]))
        elif k < 9:  # xml:base scoping
            depth, stack = 0, []
            loc = rbase(r)
            L.append(['XLOC', loc])
            cur = present(*resolve(loc, ''))[6] if False else loc
            stack = [cur]
            for _ in range(r.randint(1, 14)):
                if depth and r.random() < .45:
                    L.append(['XE'])
                    stack.pop()
                    depth -= 1
                    exp.append(['B', stack[-1], present(*resolve(stack[-1], '../z'))[6]])
                else:
                    if r.random() < .5:
                        f = ''
                        while not f:
                            f = rref(r)
                            if re.match('(mailto|urn|data|news):', f):
                                f = ''
                        nb = present(*resolve(stack[-1], f))[6]
                        L.append(['XS', f])
                    else:
                        nb = stack[-1]
                        L.append(['XS'])
                    stack.append(nb)
                    depth += 1
                    exp.append(['B', nb, present(*resolve(nb, 'x/y'))[6]])
        else:  # arbitrary strings: no failure, no memory error
            for _ in range(6):
                g = ''.join(r.choice(['/', ':', '?', '#', '\\', '.', '..', '//', 'a', 'file', 'http', '@', '[', ']', '%', ' ', '\u00e9', 'c:', '\x01'])
                            for _ in range(r.randint(0, 8)))
                h = ''.join(r.choice(['/', ':', '?', '#', '\\', '.', '..', '//', 'a', 'file:', 'http:', 'x']) for _ in range(r.randint(0, 6)))
                L += [['U', g], ['R', g, h]]
                exp += [None] * 4
        cases.append(Case('r%d' % i, L, meta=exp))
    res = run(exe, cases)
    for cs in cases:
        ev, exp = res.get(cs.id), cs.meta
        if ev is None:
            continue
        if isinstance(ev, Crash):
            c.violation('%r' % ev, cs.text())
            continue
        for g, e in zip(ev + [['MISSING']] * len(exp), exp):
            if e is None:
                c.ok()
                if g[0] not in ('URI', 'EQ'):
                    c.violation('resolution failed: %s' % g, cs.text())
                c.count('arbitrary')
                continue
            c.ok(tuple(g))
            c.count(e[0])
            if g != e:
                c.violation('expected %s\n     got %s' % (e, g), cs.text())
        if len(ev) != len(exp):
            c.violation('%d results for %d calls: %s' % (len(ev), len(exp), ev[-1:]), cs.text())
    c.sample(cases[0].text()[:600])
    c.sample(cases[7].text()[:600])
    c.finish()


# ---------------------------------------------------------------- U03
def inr(c, rs):
    return any(a <= c <= b for a, b in rs)


def runs(pred, lo, hi):
    out, s = [], None
    for x in range(lo, hi + 2):
        b = x <= hi and pred(x)
        if b and s is None:
            s = x
        if not b and s is not None:
            out.append('%d-%d' % (s, x - 1))
            s = None
    return out


def expand(*tables):
    s = set()
    for t in tables:
        for a, b in t:
            if b < 0x20000:
                s.update(range(a, b + 1))
    return s


LETTER = expand(xc.BASECHAR, xc.IDEOGRAPHIC)
DIGIT, COMB, EXT = expand(xc.DIGIT), expand(xc.COMBINING), expand(xc.EXTENDER)
NAMECHAR = LETTER | DIGIT | COMB | EXT | set(map(ord, '.-_:'))
NCNAMECHAR = NAMECHAR - {ord(':')}


def is_ncname(s):
    return bool(s) and (ord(s[0]) in LETTER or s[0] == '_') and all(ord(x) in NCNAMECHAR for x in s)


def is_qname(s):
    p = s.split(':')
    return len(p) <= 2 and all(is_ncname(x) for x in p)


def esc_text(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('\r', '&#xD;')


def check_U03():
    c = Check('U03', rule='a code point compared with the table, or a non-empty string')
    exe, r = BIN(), c.rng
    TOP = 0x1ffff if not THOROUGH else 0x10ffff
    preds = {'char': lambda x: inr(x, xc.CHAR), 'space': lambda x: x in (9, 10, 13, 32), 'name_char': NAMECHAR.__contains__,
             'ncname_char': NCNAMECHAR.__contains__, 'letter': LETTER.__contains__, 'base_char': expand(xc.BASECHAR).__contains__,
             'ideographic': expand(xc.IDEOGRAPHIC).__contains__, 'digit': DIGIT.__contains__, 'combining_char': COMB.__contains__,
             'extender': EXT.__contains__, 'letter_or_digit': (LETTER | DIGIT).__contains__}
    cases = []
    step = 0x2000
    for lo in range(0, TOP, step):
        hi = min(lo + step - 1, TOP)
        cases.append(Case('c%x' % lo, [['CLS', lo, hi]], meta=[['CLS', n] + runs(p, lo, hi) for n, p in preds.items()]))
    cases.append(Case('cneg', [['CLS', -130, -1]], meta=[['CLS', n] for n in preds]))
    edge = sorted(set(x for t in (xc.BASECHAR, xc.IDEOGRAPHIC, xc.DIGIT, xc.COMBINING, xc.EXTENDER) for a, b in t for x in (a - 1, a, b, b + 1)
                      if 0x20 <= x < 0xd800))
    pool = 'aZ_x9.-:: \t\n\r&<>"\'\u00b7'

    def rstr():
        return ''.join(r.choice(pool) if r.random() < .6 else chr(r.choice(edge)) if r.random() < .8 else chr(r.choice([0x10000, 0x1f600, 0xfffd, 0x3007]))
                       for _ in range(r.randint(0, 9)))
    for i in range(n_cases(12000, 80000)):
        L, exp = [], []
        for _ in range(6):
            s = rstr()
            k = r.random()
            if k < .3:  # bias to valid names
                s = ''.join(x for x in s if ord(x) in NAMECHAR)
                s = 'a' + s if k < .15 else s
            L.append(['N', s])
            q = '-'
            for a in (0, 1):
                if not is_qname(s):
                    q += 'bad-'
                elif ':' in s:
                    p, l = s.split(':')
                    ns = 'urn:p' if p == 'p' else ''
                    q += '%s|%s|%s|%s|%s-' % (p, l, ns, s, '{%s}%s' % (ns, l) if ns else l)
                else:
                    ns = '' if a else 'urn:d'
                    q += '|%s|%s|%s|%s-' % (s, ns, s, '{%s}%s' % (ns, s) if ns else s)
            norm = ' '.join(x for x in re.split('[ \t\r\n]+', s) if x)
            e = ['1' if is_ncname(s) else '0', '1' if is_qname(s) else '0', q, norm, esc_text(s)]
            exp += [['NN'] + e, ['NW'] + e]
        cases.append(Case('n%d' % i, L, meta=exp))
    res = run(exe, cases)
    for cs in cases:
        ev, exp = res.get(cs.id), cs.meta
        if ev is None:
            continue
        if isinstance(ev, Crash):
            c.violation('%r' % ev, cs.text())
            continue
        for g, e in zip(ev + [['MISSING']] * len(exp), exp):
            if e[0] == 'CLS':
                c.ok((cs.id, e[1]), n=int(cs.lines[0][2]) - int(cs.lines[0][1]) + 1)
            else:
                # the attribute escaper may escape more, but must be exactly undone by a parser
                a = g[6] if len(g) > 6 else ''
                s = cs.lines[exp.index(e) // 2][1] if False else None
                if len(g) > 6 and (html.unescape(a) != html.unescape(g[5]) or any(x in a for x in '<"\n\t\r')):
                    c.violation('attribute escaping %r of %r' % (a, g[5]), cs.text())
                g = g[:6]
                c.ok(tuple(e))
            c.count(e[0])
            if g != e:
                c.violation('expected %s\n     got %s' % (e, g), cs.text())
    c.sample(cases[-1].text()[:600])
    c.finish()
