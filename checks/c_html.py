"""H01 any HTML gives a well-formed event stream, H02 HTML content survives parsing."""
import html.entities, random, re
from urllib.parse import urljoin
import xml.parsers.expat as expat
from vlib import *
from htmldata import ELEMENTS, ATTRS, MORE_ENTITIES

XHTML = 'http://www.w3.org/1999/xhtml'
XMLNS = 'http://www.w3.org/XML/1998/namespace'
ENT = dict(html.entities.name2codepoint); ENT.update(MORE_ENTITIES)
BIN = lambda: build([dict(name='html', srcs=['html.cpp'])])['html']
TS = 'http://www.ccil.org/~cowan/tagsoup/features/'
FEATS = {'namespaces': 'http://xml.org/sax/features/namespaces', **{f: TS + f for f in (
    'ignore-bogons', 'bogons-empty', 'root-bogons', 'default-attributes', 'translate-colons', 'restart-elements', 'ignorable-whitespace',
    'cdata-elements')}}
DEFAULTS = {'namespaces': True, 'ignore-bogons': False, 'bogons-empty': False, 'root-bogons': True, 'default-attributes': True,
            'translate-colons': False, 'restart-elements': True, 'ignorable-whitespace': False, 'cdata-elements': True}
WORDS = ['alpha', 'beta', 'gamma', 'x', 'Lorem ipsum', '42', 'née', 'ĦļľĢ', 'Ċčı', '日本', 'ß', '\U0001F600', 'a\nb', 'tab\there', '\u00a0', 'Ω', 'semi;colon', '#1', 'q?a=1']


def rng_of(r, i):
    return random.Random(r.getrandbits(60) + i)


# ------------------------------------------------------------------ what the documents are made of
def words(r, n=4):
    return ' '.join(r.choice(WORDS) for _ in range(r.randint(1, n)))


class Text:
    """a run of text: pieces are literal strings or ('ref', source, decoded)"""
    def __init__(s, pieces):
        s.pieces = pieces

    def source(s):
        return ''.join(p if isinstance(p, str) else p[1] for p in s.pieces)

    def chunks(s):
        """text is reported piecewise, a new piece starting with every ampersand"""
        out = ['']
        for p in s.pieces:
            if isinstance(p, str):
                first, *rest = p.split('&')
                out[-1] += first
                out += ['&' + x for x in rest]
            else:
                out.append(p[2])
        return [c for c in out if c]


def ref_of(r, c):
    n = ord(c)
    named = [k for k, v in ENT.items() if v == n] if n < 0x10000 and r.random() < .6 else []
    if named:
        return '&%s;' % r.choice(named)
    return r.choice(['&#%d;' % n, '&#x%x;' % n, '&#X%X;' % n, '&#%05d;' % n])


SPECIAL = ['<', '>', '&', '"', "'", '\u00e9', '\u00a0', '\u2014', '\u20ac', '\u03c6', '\u2665', '\u0152', '\U0001d49c', '\u00ff', '\u0100', 'A', '~', '\t', '\n']


def gen_text(r):
    ps = []
    for _ in range(r.randint(1, 4)):
        k = r.random()
        if k < .55:
            ps.append(words(r))
        elif k < .65:
            ps.append(r.choice([' ', '\n', '  \t ', '\n\n']))
        elif k < .85:
            c = chr(ENT[r.choice(list(ENT))]) if r.random() < .4 else r.choice(SPECIAL)
            ps.append(('ref', ref_of(r, c), c))
        elif k < .9:
            n = r.choice(['amp', 'lt', 'gt', 'eacute', 'copy', 'nbsp', 'mdash'])      # no semicolon: known and delimited all the same
            c = chr(ENT[n])
            ps.append(('ref', '&' + n, c)); ps.append(r.choice([' x', '.', ' ', ', y']))
        elif k < .95:
            ps.append(r.choice(['& ', '&nosuch; ', 'AT&T ', 'a && b ', '&; ', ' > ', ' ]]> ']))
        else:
            ps.append('z' * r.choice([150, 178, 179, 180, 181, 199, 400, 3000]) + r.choice(['é', '', '日']) * r.choice([1, 120]))
    out = []                      # keep a reference from running into what follows it
    for p in ps:
        if out and not isinstance(p, str) and isinstance(out[-1], str) and re.search(r'&#?\w*$', out[-1]):
            out.append(' ')
        out.append(p)
    return Text(out)


def gen_value(r):
    """(decoded value, source pieces) of an attribute"""
    ps = []
    for _ in range(r.randint(0, 3)):
        k = r.random()
        if k < .6:
            w = words(r, 2); ps.append((re.sub(r'[\t\n]', ' ', w), w))
        elif k < .85:
            c = chr(ENT[r.choice(list(ENT))]) if r.random() < .4 else r.choice(SPECIAL)
            ps.append((c, ref_of(r, c)))
        else:
            v = r.choice(['a=1&b=2', '&nosuch;', '& ', 'R&D& ', '&copy ', 'x&y ']); ps.append((v, v))
    return ''.join(p[0] for p in ps), ''.join(p[1] for p in ps)


NAMES = [n for n in ELEMENTS if n[0] != '<']
RAW = ('script', 'style')
BOGONS = ['foo', 'Bar', 'x-y', 'blurb', 'o:p', 'svg:g', 'v:shape', 'xml:thing', 'h7', 'article']
ANAMES = ['class', 'id', 'name', 'href', 'title', 'data-x', 'xml:lang', 'o:x', 'o:y', 'v:ext', 'lang', 'align', 'style', 'xmlns', 'xmlns:o', 'alt', 'value', 'onclick', 'checked', 'colspan', 'shape', '_u']


def gen_atts(r, name, n=3):
    out = []
    for _ in range(r.choice([0, 0, 0, 1, 1, 2, n])):
        k = [a[0] for a in ATTRS.get(name, [])]
        a = r.choice(k) if k and r.random() < .35 else r.choice(ANAMES)
        style = r.choice(['"', '"', '"', "'", "'", 'none', 'mini'])
        v, src = gen_value(r)
        if style == 'none' and (not src or re.search(r'[\s"\'<>=&]', src)):
            style = '"'
        if style in '"\'' and style in src:
            style = '"' if style == "'" else "'"
            if style in src:
                v = src = 'both'
        out.append((a, v, src, style))
    return out


def case(r, s):
    k = r.random()
    return s if k < .6 else s.upper() if k < .8 else ''.join(c.upper() if r.random() < .5 else c for c in s)


def ws(r, least=1):
    return r.choice([' ', ' ', ' ', '\n', '\t', '  ', ' \n\t'])[:max(least, 1) if r.random() < .7 else 3]


def render_start(r, name, atts, empty):
    s = '<' + (case(r, name) if name in ELEMENTS else name)
    for a, v, src, style in atts:
        s += ws(r) + case(r, a)
        eq = r.choice(['=', '=', '=', ' =', '= ', ' = '])
        if style == 'mini':
            continue
        s += eq + (src if style == 'none' else style + src + style)
    if empty:
        s += ' />' if not atts or atts[-1][3] in ('none', 'mini') else r.choice(['/>', ' />'])
        return s
    return s + r.choice(['', '', '', ws(r)]) + '>'


def raw_text(r, name):
    ps = [r.choice(['a < b && c > d;', 'document.write("<b>x<\\/b>");', 'x = "</" + "b>";', '<!-- hide -->', '&amp; &eacute; &#65;', 'p { color: red }', '\n', '  ', 'é 日本', 'if(a<',
                    '</b >', '</a href="x">', '<p class=x>', '</' + name + 'x>', '<![CDATA[ y ]]>', '</ b\n c>', "'\"", 'z' * 190, '<<', '</>', '</p>']) for _ in range(r.randint(0, 4))]
    return ''.join(ps)


def render(r, toks):
    out = []
    for t in toks:
        k = t[0]
        if k == 'start':
            out.append(render_start(r, t[1], t[2], False))
        elif k == 'empty':
            out.append(render_start(r, t[1], t[2], True))
        elif k == 'end':
            out.append('</' + case(r, t[1]) + r.choice(['', '', '', ' ', '\n']) + '>')
        elif k == 'text':
            out.append(t[1].source())
        elif k == 'comment':
            out.append('<!--' + t[1] + '-->')
        elif k == 'pi':
            out.append('<?' + t[1] + (' ' + t[2] if t[2] else '') + r.choice(['?>', '>']))
        elif k == 'cdata':
            out.append('<![CDATA[' + t[1] + ']]>')
        elif k == 'raw':
            out.append(render_start(r, t[1], t[2], False) + t[3] + '</' + case(r, t[1]) + r.choice(['', '', ' ']) + '>')
        elif k == 'doctype':
            n, p, s = t[1:]
            q = r.choice(['"', "'"]) if "'" not in (p or '') else '"'
            out.append('<!DOCTYPE' + ws(r) + n + (ws(r) + 'PUBLIC' + ws(r) + q + p + q + (ws(r) + q + s + q if s else '') if p is not None else
                                                 ws(r) + 'SYSTEM' + ws(r) + q + s + q if s is not None else '') + r.choice(['', ' ']) + '>')
    return ''.join(out)


def comment_text(c):
    """hyphens which may not be next to each other in XML are kept apart; '-->' ends the comment wherever it stands"""
    out, n = '', 0
    for ch in c + '-->':
        if n == 0:
            if ch == '-':
                n = 1
            else:
                out += ch
        elif n == 1:
            if ch == '-':
                n = 2
            else:
                out += '-' + ch
                n = 0
        elif ch == '-':
            out += '- '
        elif ch == '>':
            break
        else:
            out += '- -' + ch
            n = 0
    return out


def merge(toks):
    out = []
    for t in toks:
        if t[0] == 'text' and out and out[-1][0] == 'text':
            out[-1] = ('text', Text(out[-1][1].pieces + [' '] + t[1].pieces))
        else:
            out.append(t)
    return out


def gen_pubid(r):
    """public identifiers, some with characters that are not allowed in one: each run of them becomes a space"""
    if r.random() < .4:
        return r.choice(['-//W3C//DTD HTML 4.01//EN', '-//X', 'a b'])
    return ''.join(r.choice(r.choice([PUBCHARS, 'ab-/', '  {}|~^&[]`', '\n\t é&|'])) for _ in range(r.randint(0, 24))) + r.choice('aZ09-+,./:=?;!*#@$_%()')


PUBCHARS = "abcxyzABCXYZ0129-'()+,./:=?;!*#@$_%"


def gen_doctype(r):
    k = r.random()
    if k < .3:
        return ('doctype', r.choice(['html', 'HTML', 'foo']), None, None)
    sysid = r.choice(['http://www.w3.org/TR/html4/strict.dtd', 'x.dtd', 'a b.dtd', '../d/e.dtd'])
    if k < .5:
        return ('doctype', 'html', None, sysid)
    return ('doctype', r.choice(['html', 'HTML']), gen_pubid(r), r.choice([sysid, sysid, None]))


def gen_soup(r, feats):
    toks, openn = [], []
    pool = r.sample(NAMES, r.randint(4, 14)) + r.sample(['p', 'b', 'i', 'table', 'tr', 'td', 'ul', 'li', 'form', 'div', 'a', 'h1', 'select', 'option', 'em', 'font'], 8)
    if r.random() < .4:
        pool += r.sample(BOGONS, 3)
    if r.random() < .3:
        toks.append(gen_doctype(r))
    if r.random() < .3:
        toks += [('start', 'html', [])] + ([('start', r.choice(['head', 'body']), [])] if r.random() < .6 else [])
    for _ in range(r.choice([3, 8, 15, 15, 30, 60])):
        k = r.random()
        if k < .42:
            n = r.choice(pool)
            if n in RAW and feats['cdata-elements']:
                toks.append(('raw', n, gen_atts(r, n), raw_text(r, n)))
            elif r.random() < .08:
                toks.append(('empty', n, gen_atts(r, n)))
            else:
                toks.append(('start', n, gen_atts(r, n))); openn.append(n)
        elif k < .62:
            if openn and r.random() < .7:
                toks.append(('end', openn.pop(-1 if r.random() < .6 else r.randrange(len(openn)))))
            else:
                toks.append(('end', r.choice(pool + ['html', 'body', 'p', 'table', 'nosuch'])))
        elif k < .85:
            toks.append(('text', gen_text(r)))
        elif k < .9:
            toks.append(('comment', r.choice([' c ', '', 'x - y', ' <b> & ', ' é ', ' > ', 'a\nb', 'a--b', ' -- ', '-a', 'a-', '----', 'a---b', '->', ''.join(r.choice('--a >') for _ in range(8)).replace('-->', '- >')])))
        elif k < .94:
            toks.append(('pi', r.choice(['php', 'target', 'x-y']), r.choice(['', 'echo 1 ', 'a="b"', 'é'])))
        elif k < .96:
            toks.append(('cdata', r.choice(['x', ' a<b&c ', ']', 'é&amp;', '<p>', 'a]b', 'a]]b', ']]', ']]]x', 'x] ]>y', 'a[0]]] > b', 'z' * 250])))
        else:
            toks.append(('text', Text([r.choice([' ', '\n', '  \n '])])))
    return merge([t for t in toks if not (t[0] in ('start', 'empty') and t[1] in RAW and feats['cdata-elements'] and t[0] == 'start')])


# ------------------------------------------------------------------ the rectification model
class Type:
    def __init__(s, name, model, member, flags, any_=False):
        s.name, s.model, s.member, s.flags, s.parent, s.atts = name, model, member, flags, None, []


ALL = frozenset('AREA BLOCK BLOCKINLINE BODY CELL COL DEF FORM FRAME HEAD HTML INLINE LEGEND LI NOLINK OPTION OPTIONS P PARAM TABLE TABULAR TR PCDATA ROOT ?'.split())


def bits(s):
    return ALL if s == 'ANY' else ALL - {'ROOT'} if s == 'ANY-ROOT' else frozenset(s.split())


def isspace(s):
    return all(c in ' \t\n\r' for c in s)


class El:
    def __init__(s, t, atts):
        s.t, s.atts, s.preclosed = t, atts, False


class Model:
    def __init__(m, feats, sysid=''):
        m.f, m.sys = feats, sysid
        m.types = {n: Type(n, bits(a), bits(b), set(c.split())) for n, (a, b, c, p) in ELEMENTS.items()}
        for n, (a, b, c, p) in ELEMENTS.items():
            if p:
                m.types[n].parent = m.types[p]
        for n, l in ATTRS.items():
            m.types[n].atts = l
        m.stack, m.saved, m.ev, m.doctype = [m.el(m.types['<root>'])], [], [['SD'], ['SP', 'html', XHTML]], None
        m.pcdata = m.el(m.types['<pcdata>'])

    def el(m, t):
        return El(t, {a: (ty, v) for a, ty, v in t.atts} if m.f['default-attributes'] else {})

    def can(m, a, b):
        return bool(a.t.model & b.t.member)

    def name(m, n):
        return n.replace(':', '_') if m.f['translate-colons'] else n

    def ns(m, q, att):
        p, c, l = q.partition(':')
        if not c:
            return ('' if att else XHTML), q
        return prefix_ns(p), l

    def push(m, e):
        uri, local = m.ns(e.t.name, False)
        foreign = []
        if ':' in e.t.name:
            foreign.append((e.t.name.split(':')[0], uri))
        atts = []
        for q, (ty, v) in e.atts.items():
            if v is None or v == '' and (q not in getattr(e, 'given', ())):
                continue
            u, l = m.ns(q, True)
            if ':' in q and (q.split(':')[0], u) not in foreign:
                foreign.append((q.split(':')[0], u))
            atts.append((u, l, q, ty, v))
        e.foreign = foreign
        first = len(m.stack) == 1 and not any(x[0] == 'SE' for x in m.ev)
        if first and m.doctype and m.doctype[2] and m.f['namespaces'] and local.lower() == m.doctype[0].lower():
            m.ev.append(['RES', m.doctype[1], m.doctype[2]])
        m.ev += [['SP', p, u] for p, u in sorted(foreign)]
        m.ev.append(['SE'] + ([uri, local] if m.f['namespaces'] else ['', '']) + [e.t.name] + sorted(atts))
        m.stack.append(e)

    def pop(m):
        e = m.stack.pop()
        uri, local = m.ns(e.t.name, False)
        m.ev.append(['EE'] + ([uri, local] if m.f['namespaces'] else ['', '']) + [e.t.name])
        m.ev += [['EP', p] for p, u in sorted(e.foreign)]

    def rpop(m):
        e = m.stack[-1]
        m.pop()
        if m.f['restart-elements'] and 'RESTART' in e.t.flags:
            e.atts = {q: (ty, v) for q, (ty, v) in e.atts.items() if ty != 'ID' and q != 'name'}
            m.saved.insert(0, e)

    def restart(m, e):
        while m.saved and m.can(m.stack[-1], m.saved[0]) and (e is None or m.can(m.saved[0], e)):
            m.push(m.saved.pop(0))

    def rectify(m, e):
        chain = [e]
        while not any(m.can(x, chain[0]) for x in m.stack):
            chain.insert(0, m.el(chain[0].t.parent))
        sp = [x for x in m.stack if m.can(x, chain[0])][-1]
        while m.stack[-1] is not sp and len(m.stack) > 2:
            m.rpop()
        for i, x in enumerate(chain):
            if x.t.name != '<pcdata>':
                m.push(x)
            m.restart(chain[i + 1] if i + 1 < len(chain) else None)

    def start(m, name, atts):
        name = m.name(name)
        t = m.types.get(name.lower())
        if t is None:
            if m.f['ignore-bogons']:
                return None
            t = Type(name, bits('') if m.f['bogons-empty'] else ALL, ALL if m.f['root-bogons'] else ALL - {'ROOT'}, set())
            t.parent = None if m.f['root-bogons'] else m.types['html']
            m.types[name.lower()] = t
        e = m.el(t)
        e.given = set()
        for a, v, src, style in atts:
            q = m.name(a).lower()
            if q == 'xmlns' or q.startswith('xmlns:'):
                continue
            v = q if style == 'mini' else v
            ty = e.atts.get(q, ('CDATA',))[0]
            if ty != 'CDATA':
                v = ' '.join(re.split(r'[ \t\n\r]+', v.strip(' \t\n\r')))
            e.atts[q] = (ty, v); e.given.add(q)
        m.rectify(e)
        return e

    def end(m, name):
        t = m.types.get(m.name(name).lower())
        if t is None:
            return
        m.close(t.name)

    def close(m, name):
        noforce = False
        for i in range(len(m.stack) - 1, -1, -1):
            if m.stack[i].t.name == name:
                break
            noforce = noforce or 'NOFORCE' in m.stack[i].t.flags
        else:
            return
        if i < 2:
            return
        sp = m.stack[i]
        if noforce:
            sp.preclosed = True
        else:
            while m.stack[-1] is not sp:
                m.rpop()
            m.pop()
        while m.stack[-1].preclosed:
            m.pop()
        m.restart(None)

    def chars(m, s):
        m.ev.append(['CH', s])

    def text(m, c):
        if isspace(c) and not m.can(m.stack[-1], m.pcdata):
            if m.f['ignorable-whitespace'] and any(x[0] == 'SE' for x in m.ev):
                m.ev.append(['IW', c])
            return
        m.rectify(m.pcdata)
        m.chars(c)

    def run(m, toks):
        for t in toks:
            k = t[0]
            if k == 'start':
                if m.start(t[1], t[2]) and not m.stack[-1].t.model:
                    m.close(m.stack[-1].t.name)
            elif k == 'empty':
                if m.start(t[1], t[2]):
                    m.close(m.stack[-1].t.name)
            elif k == 'raw':
                m.start(t[1], t[2])
                if t[3]:
                    m.chars(t[3])
                m.end(t[1])
            elif k == 'end':
                m.end(t[1])
            elif k == 'text':
                for c in t[1].chunks():
                    m.text(c)
            elif k == 'cdata':
                m.text(t[1])
            elif k == 'comment':
                m.ev.append(['CO', comment_text(t[1])])
            elif k == 'pi':
                m.ev.append(['PI', t[1], t[2]])
            elif k == 'doctype' and not m.doctype:
                pub = re.sub(r"[^-A-Za-z0-9'()+,./:=?;!*#@$_%]+", ' ', t[2] or '').lstrip(' ')
                m.doctype = [t[1], pub, urljoin(m.sys, t[3]) if t[3] else None]
                m.ev += [['SDTD', t[1], pub, t[3] or ''], ['EDTD']]
        if not any(x[0] == 'SE' for x in m.ev):
            m.rectify(m.pcdata)
        while len(m.stack) > 1:
            m.pop()
        m.ev += [['EP', 'html'], ['ED']]
        return m.ev


# ------------------------------------------------------------------ observed events
def norm(ev, keep=()):
    """events of one parse, text merged, attributes and simultaneous prefix mappings sorted"""
    out = []
    for e in ev:
        e = list(e)
        if e[0] in ('P', 'PEND', 'RET') or e[0] == 'RES' and 'RES' not in keep:
            continue
        if e[0] == 'SE':
            e = e[:4] + sorted(tuple(e[i:i + 5]) for i in range(4, len(e), 5))
        if e[0] in ('CH', 'IW'):
            if not e[1]:
                continue
            if out and out[-1][0] == e[0]:
                out[-1] = [e[0], out[-1][1] + e[1]]
                continue
        out.append(e)
    i = 0
    while i < len(out):
        for k in ('SP', 'EP'):
            j = i
            while j < len(out) and out[j][0] == k and out[j][1] != 'html':
                j += 1
            if j > i:
                out[i:j] = sorted(out[i:j]); i = j - 1
        i += 1
    return out


def parses(ev):
    """split a case's events into its parses"""
    cur = None
    for e in ev:
        if e[0] == 'P':
            cur = [e]
        elif cur is not None:
            cur.append(e)
            if e[0] == 'PEND':
                yield cur
                cur = None
    if cur:
        yield cur


NAME = re.compile(r'[A-Za-z_][-A-Za-z0-9._]*(:[A-Za-z_][-A-Za-z0-9._]*)?$')


def invariants(ev, utf8=True):
    """what is wrong with one parse's event stream, or None"""
    depth, roots, state, maps, ended, dtd = [], 0, 'before', [], False, 0
    body = [e for e in ev if e[0] not in ('P', 'RET', 'PEND', 'RES')]
    if not body or body[0] != ['SD'] or body[-1] != ['ED'] or sum(e[0] in ('SD', 'ED') for e in body) != 2:
        return 'the document is not delimited by startDocument and endDocument: %s .. %s' % (body[:1], body[-1:])
    for e in body[1:-1]:
        k = e[0]
        if k == 'ATTBAD':
            return 'attribute lookup disagrees with the list: %s' % e
        if k in ('EXC', 'FATAL', 'ERR', 'WARN'):
            return 'unexpected %s' % e
        if k == 'SE':
            if not depth:
                roots += 1
                if roots > 1:
                    return 'second root element %s' % e[3]
            if not NAME.match(e[3]):
                return 'illegal element name %r' % e[3]
            if e[2] and e[2] != e[3].split(':')[-1]:
                return 'local name %r of %r' % (e[2], e[3])
            at = [tuple(e[i:i + 5]) for i in range(4, len(e), 5)]
            for a in at:
                if not NAME.match(a[2]) or a[1] != a[2].split(':')[-1]:
                    return 'illegal attribute name %r %r' % (a[1], a[2])
                if a[2] == 'xmlns' or a[2].startswith('xmlns:'):
                    return 'namespace declaration reported as attribute %r' % a[2]
                if any(ord(c) < 32 and c not in '\t\n\r' for c in a[4]):
                    return 'attribute value with a character XML has no room for: %r' % a[4]
            if len({a[2] for a in at}) < len(at) or len({a[:2] for a in at}) < len(at):
                return 'attribute reported twice on %s: %s' % (e[3], at)
            for q in [e[3]] + [a[2] for a in at]:
                if ':' in q and not any(m[0] == q.split(':')[0] for m in maps) and not q.startswith('xml:'):
                    return 'prefix of %r not mapped' % q
            depth.append(e[:4])
        elif k == 'EE':
            if not depth or depth[-1][1:] != e[1:]:
                return 'end of %s inside %s' % (e, depth[-1:] or 'nothing')
            depth.pop()
        elif k in ('CH', 'IW'):
            if not depth:
                return 'text outside the root element: %r' % e[1]
            if any(ord(c) < 32 and c not in '\t\n\r' for c in e[1]):
                return 'text with a control character: %r' % e[1]
        elif k == 'SP':
            maps.append((e[1], e[2], len(depth)))
        elif k == 'EP':
            m = [x for x in maps if x[0] == e[1] and x[2] == len(depth)]
            if not m:
                return 'prefix %r ends but never started here' % e[1]
            maps.remove(m[-1])
        elif k == 'CO':
            if utf8 and ('--' in e[1] or e[1].endswith('-')):
                return 'comment %r cannot be written in XML' % e[1]
        elif k == 'PI':
            if not NAME.match(e[1]) or ':' in e[1] or e[1].lower() == 'xml' or '?>' in e[2]:
                return 'processing instruction %r %r cannot be written in XML' % (e[1], e[2])
        elif k == 'SDTD':
            dtd += 1
            if roots or dtd > 1:
                return 'document type declaration inside the document'
            if not NAME.match(e[1]):
                return 'illegal document type name %r' % e[1]
    if depth or roots != 1 or maps:
        return 'unbalanced: open %s, %d roots, prefixes %s' % (depth[-3:], roots, maps)
    return None


def prefix_ns(p):
    return {'xml': XMLNS, 'html': XHTML}.get(p, 'urn:x-prefix:' + p)


def reparse(xml):
    """(events, error) of the written document, read by expat"""
    ev = []
    p = expat.ParserCreate(namespace_separator='\x01')
    p.ordered_attributes = True
    p.buffer_text = True
    p.StartElementHandler = lambda n, a: ev.append(('SE', n, tuple(sorted((a[i], a[i + 1]) for i in range(0, len(a), 2)))))
    p.EndElementHandler = lambda n: ev.append(('EE', n))
    p.CharacterDataHandler = lambda d: ev.append(('CH', d))
    p.CommentHandler = lambda d: ev.append(('CO', d))
    p.ProcessingInstructionHandler = lambda t, d: ev.append(('PI', t, d))
    p.UseForeignDTD(False)
    try:
        p.Parse(xml.encode('utf-8', 'surrogatepass'), True)
    except expat.ExpatError as e:
        return None, str(e)
    return ev, None


def as_written(nv):
    """the events a reader of the written document should see (elements have no prefix on the page, so no namespace either)"""
    out = []
    for e in nv:
        if e[0] == 'SE':
            j = lambda u, q: u + '\x01' + q.split(':')[-1] if ':' in q else q
            pref = lambda q: prefix_ns(q.split(':')[0]) if ':' in q else ''
            out.append(('SE', j(pref(e[3]), e[3]), tuple(sorted((j(pref(a[2]), a[2]), a[4]) for a in e[4:]))))
        elif e[0] == 'EE':
            pref = prefix_ns(e[3].split(':')[0]) if ':' in e[3] else ''
            out.append(('EE', pref + '\x01' + e[3].split(':')[-1] if pref else e[3]))
        elif e[0] in ('CH', 'IW'):
            t = e[1].replace('\r\n', '\n').replace('\r', '\n')
            if out and out[-1][0] == 'CH':
                out[-1] = ('CH', out[-1][1] + t)
            else:
                out.append(('CH', t))
        elif e[0] == 'CO':
            out.append(('CO', e[1]))
        elif e[0] == 'PI':
            out.append(('PI', e[1], e[2].lstrip(' \t\n')))
    return out


def valid_utf8(b):
    try:
        b.decode('utf-8')
    except UnicodeDecodeError:
        return False
    return True


def xmlchars(b):
    try:
        s = b.decode('utf-8')
    except UnicodeDecodeError:
        return False
    return not re.search('[\ufffe\uffff]', s)


# ------------------------------------------------------------------ H01
FRAG = [b'<', b'>', b'</', b'/>', b'<!', b'<!--', b'-->', b'--', b'<!DOCTYPE', b'<![CDATA[', b']]>', b'<?', b'?>', b'<p', b'<b>', b'</b>', b'<script>', b'</script', b'<table', b'<td',
        b'<o:p ', b'<xmlns:q>', b' xmlns:a="b"', b' o:a="1" o:b=2', b'&', b'&#', b'&#x', b'&amp', b'&#65;', b'&#128512;', b'&#xD800;', b'&#99999999999;', b'&#1;', b'&#0;', b'&#xFFFF;', b';', b'=', b'"', b"'",
        b' ', b'\n', b'\r', b'\r\n', b'\t', b'\0', b'\x01', b'\x7f', 'é'.encode(), '日'.encode(), b'\xff', b'\xc3', b' href=', b' class="a', b'a', b'Z', b'1', b':', b'-', b'_', b'.', b'/', b'html', b' PUBLIC "x" "y"',
        b' SYSTEM \'z', b'<frameset>', b'<form>', b'</form>', b'<html', b'<head>', b'<body', b'</body>', b'</html>', b'<option>', b'<title>', b'<a:b:c>', b'<1x>', b'<:>', b'<style>', b'<br', b'#', b'x', b'\\', b'[', b']', b'<i', b'<li>', b'<noframes>']


def gen_bytes(r):
    k = r.random()
    feats = dict(DEFAULTS)
    if k < .3:
        return b''.join(r.choice(FRAG) for _ in range(r.choice([1, 2, 4, 8, 16, 40])))
    if k < .38:
        return bytes(r.randrange(256) for _ in range(r.choice([0, 1, 3, 10, 60, 300])))
    b = bytearray(render(r, gen_soup(r, feats)).encode())
    if k < .6:
        return bytes(b)
    for _ in range(r.choice([1, 1, 2, 4, 8])):
        i = r.randrange(len(b) + 1)
        m = r.random()
        if m < .35:
            b[i:i] = r.choice(FRAG)
        elif m < .6:
            del b[i:i + r.choice([1, 1, 2, 5, 20])]
        elif m < .75 and b:
            b[min(i, len(b) - 1)] = r.randrange(256)
        elif m < .9:
            j = r.randrange(len(b) + 1)
            b[i:i] = b[min(i, j):min(max(i, j), min(i, j) + 60)]
        else:
            del b[i:]
    return bytes(b)


def feat_lines(r, p=.35):
    f = {}
    for k in DEFAULTS:
        if r.random() < p / 2:
            f[k] = r.random() < .5
    return f, [['FEAT', FEATS[k], '1' if v else '0'] for k, v in f.items()]


def check_H01():
    chk = Check('H01', 'exploration', 'one root, balanced, legal names, unique attributes, mapped prefixes, text inside the root; same through chunks, files and reused parsers; written out, expat reads the same document',
                ['HTML input is UTF-8 for the written-out comparison', 'the invariants on event streams are checked on arbitrary bytes'])
    r, exe = chk.rng, BIN()
    cases = []
    for i in range(n_cases(1500, 40000)):
        rr = rng_of(r, i)
        wide = rr.random() < .3
        docs = [gen_bytes(rr) for _ in range(rr.choice([1, 1, 2, 3]))]
        f, lines = feat_lines(rr) if rr.random() < .5 else ({}, [])
        plan = []
        for n, d in enumerate(docs):
            lines.append(['DOC', str(n), d.hex()])
        for n in range(len(docs)):
            plan.append(('stream', n, 0)); 
        for _ in range(rr.randint(1, 3)):
            n = rr.randrange(len(docs)); k = rr.choice(['slow', 'slow', 'file', 'write', 'throw', 'stream'])
            plan.append((k, n, rr.choice([1, 1, 2, 3, 7, 64]) if k == 'slow' else 0))
        n = rr.randrange(len(docs)); plan.append(('write', n, 0)); plan.append(('stream', n, 0)); 
        body = list(lines)
        for k, n, c in plan:
            if k == 'throw':
                body += [['THROW', str(rr.choice([0, 1, 2, 5, 9]))], ['PARSE', 'stream', str(n), '0']]
            else:
                body.append(['PARSE', k, str(n), str(c), 'http://example.org/d/doc.html'])
        cases.append(Case('h%d' % i, body, head=['w'] if wide else [], meta=(docs, plan, f)))
    res = run(exe, cases)
    chk.sample(cases[0].text())
    for c in cases:
        ev = res[c.id]
        if isinstance(ev, Crash):
            chk.violation('crash: %s' % ev, c.text()); continue
        if any(e[0] == 'LEAK' for e in ev):
            chk.violation('leak', c.text()); continue
        docs, plan, f = c.meta
        bad, seen = None, {}
        got = list(parses(ev))
        if len(got) != len(plan):
            bad = 'number of parses'
        for (k, n, _), g in zip(plan, got):
            if bad:
                break
            if k == 'throw':
                if any(e[0] == 'THROW' for e in g) != any(e[:2] == ['EXC', 'Boom'] for e in g):
                    bad = 'exception thrown by a handler did not come out'
                chk.ok(); chk.count('handler exceptions' if any(e[0] == 'THROW' for e in g) else 'exceptions armed beyond the last event')
                continue
            if k == 'write':
                out = [e for e in g if e[0] == 'OUT']
                if not out:
                    bad = 'writing failed: %s' % g[1:3]; break
                if not xmlchars(docs[n]) or f.get('namespaces') is False:
                    continue
                if n not in seen and '<!doctype' in docs[n].decode().lower() or any('"' in x and "'" in x for e in seen.get(n, []) if e[0] == 'SDTD' for x in e[1:]):
                    continue    # an identifier holding both kinds of quote can not be written
                back, err = reparse(out[0][1])
                if err:
                    bad = 'the written document is not well-formed: %s\n%s' % (err, out[0][1]); break
                # a carriage return made by a reference may be written as a reference again
                back = [(e[0], e[1].replace('\r\n', '\n').replace('\r', '\n')) if e[0] == 'CH' else e for e in back or []]
                if n in seen and as_written(seen[n]) != back:
                    a, b = as_written(seen[n]), back
                    j = next((j for j, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                    bad = 'the written document says %s where the parser reported %s\n%s' % (b[j:j + 1], a[j:j + 1], out[0][1]); break
                chk.ok(); chk.count('documents written and read back')
                continue
            bad = invariants(g, 'w' not in c.head or valid_utf8(docs[n]))
            if bad:
                bad = '%s (parse %s of document %d)' % (bad, k, n); break
            nv = norm(g)
            if n in seen and seen[n] != nv:
                j = next((j for j, (x, y) in enumerate(zip(seen[n], nv)) if x != y), min(len(seen[n]), len(nv)))
                bad = 'a %s parse reports %s where the first parse reported %s' % (k, nv[j:j + 1], seen[n][j:j + 1]); break
            chk.ok(docs[n]); chk.count('%s parses' % k)
            if n not in seen:
                chk.count('events', len(nv)); chk.count('elements', sum(e[0] == 'SE' for e in nv)); chk.count('bytes', len(docs[n]))
            seen[n] = nv
        if bad:
            chk.violation(bad + '\n' + '\n'.join(repr(d) for d in docs), c.text())
    chk.finish()


# ------------------------------------------------------------------ H02
def gen_valid(r, m, t, depth):
    """tokens and expected events of a valid tree below an element of type t"""
    toks = []
    n = 0 if depth > 6 else r.choice([0, 1, 2, 3, 4])
    last = None
    for _ in range(n):
        if 'PCDATA' in t.model and r.random() < .45:
            if last != 'text':
                toks.append(('text', gen_text(r))); last = 'text'
            continue
        kids = [k for k in m.types.values() if k.name[0] != '<' and t.model & k.member and k.name != 'html']
        if not kids:
            break
        k = r.choice(kids); last = 'el'
        if k.name in RAW:
            toks.append(('raw', k.name, gen_atts(r, k.name), raw_text(r, k.name)))
        elif not k.model:
            toks.append((r.choice(['start', 'empty']), k.name, gen_atts(r, k.name)))
        else:
            toks.append(('start', k.name, gen_atts(r, k.name)))
            toks += gen_valid(r, m, k, depth + 1)
            toks.append(('end', k.name))
    return toks


def straight(m, toks):
    """what a valid document's tokens mean, with no rectification at all"""
    for t in toks:
        k = t[0]
        if k in ('start', 'empty', 'raw'):
            ty = m.types[t[1]]
            e = m.el(ty); e.given = set()
            for a, v, src, style in t[2]:
                q = a.lower()
                if q == 'xmlns' or q.startswith('xmlns:'):
                    continue
                v = q if style == 'mini' else v
                kind = e.atts.get(q, ('CDATA',))[0]
                if kind != 'CDATA':
                    v = ' '.join(re.split(r'[ \t\n\r]+', v.strip(' \t\n\r')))
                e.atts[q] = (kind, v); e.given.add(q)
            m.push(e)
            if k == 'raw' and t[3]:
                m.chars(t[3])
            if k == 'raw' or k == 'empty' or not ty.model:
                m.pop()
        elif k == 'end':
            m.pop()
        elif k == 'text':
            m.chars(''.join(t[1].chunks()))
        elif k == 'comment':
            m.ev.append(['CO', t[1]])
    m.ev += [['EP', 'html'], ['ED']]
    return m.ev


def mark(ev):
    return [['SP', *e[1:]] if e[0] == 'SP' else e for e in ev]


def text_of(ev):
    return re.sub(r'[ \t\n]+', '', ''.join(e[1] for e in ev if e[0] in ('CH', 'IW')))


def check_H02():
    chk = Check('H02', 'exploration', 'events equal to a model of the HTML content model and rectification rules; all text kept in order; valid documents pass unchanged',
                ['documents are written from the HTML vocabulary (and unknown elements); the tokens are well-formed, their nesting is not', 'UTF-8'])
    r, exe = chk.rng, BIN()
    cases = []
    for i in range(n_cases(2600, 80000)):
        rr = rng_of(r, i)
        f, lines = feat_lines(rr, .25) if rr.random() < .5 else ({}, [])
        feats = {**DEFAULTS, **f}
        kind = rr.choice(['soup', 'soup', 'soup', 'valid', 'vocab'])
        if kind == 'valid':
            feats = dict(DEFAULTS); lines = []
            m = Model(feats)
            toks = [('start', 'html', gen_atts(rr, 'html')), ('start', 'head', []), ('start', 'title', []), ('text', Text([words(rr)])), ('end', 'title'), ('end', 'head'), ('start', 'body', gen_atts(rr, 'body'))] \
                + gen_valid(rr, m, m.types['body'], 0) + [('end', 'body'), ('end', 'html')]
            exp = straight(m, toks)
        elif kind == 'vocab':        # every entity and element gets its turn
            feats = dict(DEFAULTS); lines = []
            names = list(ENT)
            toks = [('start', 'p', [])]
            for k in range(12):
                n = names[(i * 12 + k) % len(names)]
                toks.append(('text', Text([('ref', '&%s;' % n, chr(ENT[n])), ' '])))
            toks += [('start', 'div', [('title', ''.join(chr(ENT[n]) for n in names[i * 7 % len(names):][:7]), ''.join('&%s;' % n for n in names[i * 7 % len(names):][:7]), '"')])]
            for k in range(3):
                n = NAMES[(i * 3 + k) % len(NAMES)]
                toks += [('raw', n, gen_atts(rr, n), 'x')] if n in RAW else [('start', n, gen_atts(rr, n)), ('text', Text(['t']))]
            toks = merge(toks)
            exp = Model(feats, 'http://example.org/d/doc.html').run(toks)
        else:
            toks = gen_soup(rr, feats)
            exp = Model(feats, 'http://example.org/d/doc.html').run(toks)
        src = render(rr, toks)
        if rr.random() < .1:
            src = src.replace('\n', '\r\n')
        wide = rr.random() < .35
        how = rr.choice([['stream', 'x', '0'], ['stream', 'x', '0'], ['slow', 'x', rr.choice('1239')], ['file', 'x', '0']])
        if wide and how[0] == 'file':
            how = ['stream', 'x', '0']
        body = lines + [['DOC', 'x', src.encode().hex()], ['PARSE', *how, 'http://example.org/d/doc.html']]
        cases.append(Case('k%d' % i, body, head=['w'] if wide else [], meta=(toks, exp, src, kind, how[0], wide)))
    res = run(exe, cases)
    chk.sample(cases[0].text())
    for c in cases:
        ev = res[c.id]
        if isinstance(ev, Crash):
            chk.violation('crash: %s' % ev, c.text()); continue
        if any(e[0] == 'LEAK' for e in ev):
            chk.violation('leak', c.text()); continue
        toks, exp, src, kind, how, wide = c.meta
        g = next(parses(ev), [])
        keep = ('RES',) if how != 'file' and not wide else ()
        a = norm([e[:4] + [x for t in e[4:] for x in t] if e[0] == 'SE' else e for e in exp], keep)
        b = norm(g, keep)
        # an entity resolver is only promised to be asked when there is something to resolve
        if not any(e[0] == 'RES' for e in a):
            b = [e for e in b if e[0] != 'RES']
        if a != b:
            j = next((j for j, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            chk.violation('%s document: expected %s, reported %s (event %d) after %s\n%s' % (kind, a[j:j + 2], b[j:j + 2], j, b[max(0, j - 3):j], src), c.text())
            continue
        if kind != 'valid':
            want = re.sub(r'[ \t\n]+', '', ''.join(''.join(t[1].chunks()) if t[0] == 'text' else t[1] if t[0] == 'cdata' else t[3] if t[0] == 'raw' else '' for t in toks))
            if text_of(b) != want and not any(t[0] == 'raw' for t in toks):
                chk.violation('text lost or reordered: %r became %r' % (want, text_of(b)), c.text()); continue
        chk.ok(src); chk.count(kind + ' documents'); chk.count(how + ' parses'); chk.count('events', len(b)); chk.count('elements', sum(e[0] == 'SE' for e in b))
        for e in b:
            if e[0] == 'SE':
                chk.count('elements <%s>' % e[3] if e[3] in ELEMENTS else 'unknown elements')
    chk.finish()
