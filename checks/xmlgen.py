"""Random XML documents: an abstract document, one of its many concrete spellings, and the SAX events it must
produce.  The document is generated first and the text is derived from it, so the expectation never depends on a parser."""
import random, re

XML = 'http://www.w3.org/XML/1998/namespace'
NAMES = ['a', 'b', 'c', 'item', 'x-1', 'xmlnsish', 'Long.name_with-all', '_u', 'é', 'λόγος', '名前', 'xslt']
ANAMES = ['a', 'b', 'id', 'k-1', 'xmlnsfoo', 'Value', '_z', 'ñ', '値', 'href', 'lang2']
PREFIXES = ['p', 'q', 'ns1', 'xmlnsx', 'é', 'P']
URIS = ['urn:a', 'urn:b', 'http://example.org/x?y=1&z=2', 'urn:ü', 'A', 'urn:a#', 'urn:with space']
TEXTCH = list('abcdefghijklmnop   \n\n\t.,:;!\'"<>&]]-?=/0123456789%') + ['é', 'ß', 'Ħ', 'ļ', 'Ġ', 'λ', '€', '名', '\U0001F600', '\U00010000', '\U0010FFFD', '\uFFFD', '\u0085', '\u2028', '\x7f', '\u00a0', '\ud7ff', '\ue000']


class El:
    __slots__ = ('q', 'items', 'kids', 'line0', 'line1', 'end1')

    def __init__(self, q, items=None, kids=None):
        self.q = q; self.items = items or []; self.kids = kids or []; self.line0 = self.line1 = self.end1 = 0


class Text:
    def __init__(self, t): self.t = t


class CData:
    def __init__(self, t): self.t = t


class Comment:
    def __init__(self, t): self.t = t


class PI:
    def __init__(self, target, data): self.target = target; self.data = data


class Ref:
    def __init__(self, name): self.name = name


class Raw:
    """ill-formed text; nothing after it may be reported; `ok` is the list of events which may be reported for it"""
    def __init__(self, text, ok=()): self.text = text; self.ok = list(ok); self.line = 0


class Ent:
    def __init__(self, kind, name, value=None, nodes=None, pub='', sys='', notation='', textonly=False):
        self.kind = kind; self.name = name; self.value = value; self.nodes = nodes; self.pub = pub; self.sys = sys
        self.notation = notation; self.textonly = textonly; self.text = None; self.elements = False


class Doc:
    def __init__(self):
        self.prolog = []; self.dtd = None; self.prolog2 = []; self.root = None; self.epilog = []; self.enc = 'utf-8'; self.decl = None


class Dtd:
    def __init__(self, name):
        self.name = name; self.pub = ''; self.sys = ''; self.subset = []; self.has_subset = True; self.external = None
        self.ents = {}; self.atts = {}     # qname -> [(attname, type, deftype, value)]


def nsplit(q):
    return q.split(':', 1) if ':' in q else ('', q)


class Gen:
    def __init__(self, r, names=NAMES, dtd=0.3, ns=0.7, external=False, maxels=None, textch=TEXTCH, enc=True, comments=True, cdata=True,
                 anames=ANAMES, uris=URIS, prefixes=PREFIXES, pis=True, xmlatts=True, undeclare=True, cr=True, dtd_refs=True, pe=False, ge=False, xmlxml=True):
        self.xmlxml = xmlxml
        self.r = r; self.names = names; self.anames = anames; self.uris = uris; self.prefixes = prefixes
        self.p_dtd = dtd; self.p_ns = ns; self.external = external; self.textch = textch; self.enc = enc
        self.comments = comments; self.cdata = cdata; self.pis = pis; self.xmlatts = xmlatts; self.undeclare = undeclare; self.cr = cr
        self.dtd_refs = dtd_refs; self.pe = pe; self.ge = ge
        self.maxels = maxels if maxels is not None else r.choice([1, 3, 8, 20, 40])

    # ---- values
    def text(self, lo=1, hi=14):
        r = self.r
        n = r.randint(lo, hi)
        s = ''.join(r.choice(self.textch) for _ in range(n))
        if self.cr and r.random() < 0.04:
            s += '\r'
        return s

    def value(self):
        r = self.r
        if r.random() < 0.15:
            return ''
        s = self.text(1, 10)
        if r.random() < 0.2:
            s = ' ' + s + '  '
        if r.random() < 0.1:
            s += r.choice(['\t', '\n', '\r', ' \n ']) if self.cr else '\t'
        return s

    def comment(self):
        s = self.text(0, 10).replace('\r', '').replace('--', '- -').replace('--', '-.')
        if s.endswith('-'):
            s += ' '
        return Comment(s)

    def pi(self):
        r = self.r
        d = self.text(0, 10).replace('\r', '').replace('?>', '? >').lstrip(' \t\n')
        return PI(r.choice(['pi', 'target', 'xml-stylesheet', 'xmlish', 'é']), d)

    def cd(self):
        s = self.text(0, 12).replace('\r', '').replace(']]>', ']] >')
        if s.endswith(']'):
            s += '.'   # keep away from ]]]>
        return CData(s)

    # ---- elements
    def element(self, ctx, depth, dtd):
        r = self.r
        self.left -= 1
        e = El('')
        ctx = dict(ctx)
        declared = {}
        if r.random() < self.p_ns * 0.5:
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                p = r.choice(self.prefixes + ['', ''])
                if p in declared:
                    continue
                u = r.choice(self.uris)
                if p == '' and self.undeclare and r.random() < 0.3:
                    u = ''
                declared[p] = u
                e.items.append(('ns', p, u))
        if self.xmlatts and self.xmlxml and r.random() < 0.01:
            e.items.append(('ns', 'xml', XML))
        ctx2 = dict(ctx); ctx2.update(declared)
        pfx = [p for p, u in ctx2.items() if p and u]
        e.q = (r.choice(pfx) + ':' if pfx and r.random() < 0.4 else '') + r.choice(self.names)
        seen = set(); seenq = set()
        # defaulted attributes of this element name
        dflt = dtd.atts.get(e.q, []) if dtd else []
        for an, ty, dt, v in dflt:
            p, l = nsplit(an)
            if an == 'xmlns' or p == 'xmlns':
                key = '' if an == 'xmlns' else l
                if key not in declared and v:
                    declared[key] = v; ctx2[key] = v
                    e.items.append(('dns', key, v))
        pfx = [p for p, u in ctx2.items() if p and u]
        types = {an: ty for an, ty, dt, v in dflt}
        for an, ty, dt, v in dflt:
            p, l = nsplit(an)
            if p == 'xmlns' or an == 'xmlns':
                continue
            if v is not None and dt != '#FIXED' and r.random() < 0.4 or v is None and r.random() < 0.5:
                nv = self.attvalue(ty, an, dtd)
                e.items.append(('a', an, nv, ty))
                seenq.add(an); seen.add(('', an))
        for _ in range(r.choice([0, 0, 1, 1, 2, 3, 5])):
            q = (r.choice(pfx) + ':' if pfx and r.random() < 0.4 else '') + r.choice(self.anames)
            p, l = nsplit(q)
            key = (ctx2[p] if p else '', l)
            if key in seen or q in seenq or q in types:
                continue
            seen.add(key); seenq.add(q)
            e.items.append(('a', q, self.value(), 'CDATA'))
        if self.xmlatts and r.random() < 0.08:
            q, v = r.choice([('xml:lang', 'en'), ('xml:space', 'preserve'), ('xml:base', 'sub/'), ('xml:id', 'i')])
            if (XML, nsplit(q)[1]) not in seen and q not in types:
                e.items.append(('a', q, v, 'CDATA'))
        for an, ty, dt, v in dflt:
            p, l = nsplit(an)
            if p == 'xmlns' or an == 'xmlns' or v is None or an in seenq:
                continue
            e.items.append(('da', an, v, ty))
        # mix declarations and attributes up
        spec = [i for i in e.items if i[0] in ('ns', 'a')]
        r.shuffle(spec)
        e.items = spec + [i for i in e.items if i[0] in ('dns', 'da')]
        n = r.choice([0, 0, 1, 2, 3, 4, 6]) if depth < 12 else 0
        e.kids = self.content(ctx2, depth, dtd, n)
        return e

    def attvalue(self, ty, an, dtd):
        r = self.r
        if ty == 'CDATA':
            return self.value()
        if ty.startswith('('):
            return r.choice(ty[1:-1].split('|'))
        if ty == 'NMTOKENS':
            return ' '.join(r.choice(['a', 'b1', '.c', '-d']) for _ in range(r.randint(1, 3)))
        if ty == 'ID':
            self.ids = getattr(self, 'ids', 0) + 1
            return 'id%d' % self.ids
        return r.choice(['tok', 'tik', '1.2'] if ty == 'NMTOKEN' else ['tok', 'tik'])

    def content(self, ctx, depth, dtd, n):
        r = self.r
        out = []
        for _ in range(n):
            k = r.random()
            if k < 0.4 and self.left > 0:
                out.append(self.element(ctx, depth + 1, dtd))
            elif k < 0.72:
                if out and isinstance(out[-1], Text):
                    out[-1].t += self.text()
                else:
                    out.append(Text(self.text()))
            elif k < 0.8 and self.comments:
                out.append(self.comment())
            elif k < 0.86 and self.pis:
                out.append(self.pi())
            elif k < 0.93 and self.cdata:
                out.append(self.cd())
            elif dtd and self.dtd_refs:
                names = [e.name for e in dtd.ents.values() if e.kind in ('int', 'ext')]
                if names:
                    out.append(Ref(r.choice(names)))
        return out

    def misc(self, n):
        out = []
        for _ in range(n):
            if self.comments and self.r.random() < 0.5:
                out.append(self.comment())
            elif self.pis:
                out.append(self.pi())
        return out

    # ---- DTD
    def model(self, depth=0):
        r = self.r
        k = r.random()
        if depth == 0:
            if k < 0.15: return 'EMPTY'
            if k < 0.3: return 'ANY'
            if k < 0.4: return '(#PCDATA)'
            if k < 0.55: return '(#PCDATA|' + '|'.join(r.sample(['a', 'b', 'item', 'p:q', 'é'], r.randint(1, 3))) + ')*'
        if depth > 2 or (depth and k < 0.5):
            return r.choice(['a', 'b', 'item', 'p:q', 'x-1']) + r.choice(['', '', '?', '*', '+'])
        sep = r.choice([',', '|'])
        n = r.randint(1, 3)
        if sep == '|' and n == 1:
            n = 2
        return '(' + sep.join(self.model(depth + 1) for _ in range(n)) + ')' + r.choice(['', '', '?', '*', '+'])

    def publit(self):
        return self.r.choice(['-//X//Y 1.0//EN', 'pub id', "it's", 'p-1'])

    def syslit(self, tag):
        return self.r.choice(['', 'dir/', 'http://h/']) + tag + self.r.choice(['', '?a=b&c', "it's", '"q"'])

    def make_dtd(self, rootq, where='internal'):
        r = self.r
        d = Dtd(rootq)
        d.has_subset = r.random() < 0.9
        self.declare(d, d.subset, r.randint(0, 9) if d.has_subset else 0, 'i')
        if self.external and not self.ge and r.random() < 0.3:
            d.sys = self.syslit('ext.dtd')      # never read
        if self.external and self.ge and r.random() < 0.5:
            d.sys = self.syslit('ext.dtd')
            d.pub = self.publit() if r.random() < 0.4 else ''
            d.external = []
            self.declare(d, d.external, r.randint(0, 5), 'e')
        return d

    def inner(self, d, n):
        """content for an entity"""
        left, names = self.left, self.names
        self.left = self.r.choice([0, 0, 2]); self.names = ['ea', 'eb', 'é-e']
        sub = Dtd('x'); sub.ents = {k: v for k, v in d.ents.items() if v.kind == 'int'}
        nodes = self.content({}, 10, sub, n)
        self.left, self.names = left, names
        strip_ns(nodes)
        return nodes

    def declare(self, d, out, n, tag):
        r = self.r
        declared_els = set(x[1] for x in d.subset + (d.external or []) if x[0] == 'el')
        for i in range(n):
            k = r.random()
            if k < 0.2:
                nm = r.choice(self.names + ['p:q', 'zz%d' % i])
                if nm not in declared_els:
                    declared_els.add(nm)
                    out.append(('el', nm, self.model()))
            elif k < 0.45:
                el = r.choice(self.names + self.names[:3] + ['p:a'])
                atts = []
                have = {a[0] for a in d.atts.get(el, [])}
                for _ in range(r.randint(1, 3)):
                    an = r.choice(['d1', 'd2', 'd3', 'xmlns:dz', 'xml:space', 'é2'] if self.p_ns else ['d1', 'd2', 'd3', 'é2'])
                    if an in have:
                        continue
                    have.add(an)
                    if an.startswith('xmlns'):
                        a = (an, 'CDATA', r.choice(['', '#FIXED']), r.choice(['urn:dz', 'urn:a']))
                    else:
                        ty = r.choice(['CDATA', 'CDATA', 'CDATA', 'NMTOKENS', '(x|y|z)', 'NMTOKEN', 'ID', 'IDREF'])
                        if an == 'xml:space':
                            ty = '(default|preserve)'
                        if ty == 'ID' and any(a2[1] == 'ID' for a2 in d.atts.get(el, []) + atts):
                            ty = 'CDATA'
                        dt = r.choice(['#IMPLIED', '#REQUIRED', '', '', '#FIXED']) if ty != 'ID' else '#IMPLIED'
                        v = self.attvalue(ty, an, d) if dt in ('', '#FIXED') else None
                        a = (an, ty, dt, v)
                    atts.append(a)
                if atts:
                    d.atts.setdefault(el, []).extend(atts)
                    out.append(('at', el, atts))
            elif k < 0.65:
                nm = '%s%d' % (r.choice(['e', 'ent', 'é']), i) + tag
                if r.random() < 0.5:
                    nodes = [Text(self.text(0, 8).replace('\r', ''))]
                    textonly = True
                else:
                    nodes = self.inner(d, r.randint(0, 4))
                    textonly = False
                e = Ent('int', nm, nodes=nodes, textonly=textonly)
                d.ents[nm] = e
                out.append(('ent', e))
                if r.random() < 0.1:
                    out.append(('dupent', nm))
            elif k < 0.73:
                out.append(('not', 'n%d' % i + tag, *r.choice([('', self.syslit('n%d' % i)), (self.publit(), ''), (self.publit(), self.syslit('n'))])))
            elif k < 0.8:
                e = Ent('unp', 'u%d' % i + tag, pub=r.choice(['', self.publit()]), sys=self.syslit('u%d%s' % (i, tag)), notation='gif')
                d.ents[e.name] = e
                out.append(('ent', e))
            elif k < 0.86 and self.external:
                e = Ent('ext', 'x%d' % i + tag, pub=r.choice(['', self.publit()]), sys=self.syslit('x%d%s' % (i, tag)))
                e.nodes = self.inner(d, r.randint(0, 4))
                d.ents[e.name] = e
                out.append(('ent', e))
            elif k < 0.9 and self.pe:
                nm = 'pe%d' % i + tag
                inner = []
                self.declare(d, inner, r.randint(0, 2), tag + 'p%d' % i) if not tag.endswith('p') and len(tag) < 4 else None
                kind = 'pint' if not self.external or r.random() < 0.5 else 'pext'
                out.append(('pe', nm, kind, inner, self.syslit('pe%d%s' % (i, tag)), self.publit() if r.random() < .3 else ''))
            elif k < 0.95 and self.comments:
                out.append(('misc', self.comment()))
            elif self.pis:
                out.append(('misc', self.pi()))

    def document(self):
        r = self.r
        d = Doc()
        self.left = self.maxels
        dtd = None
        if r.random() < self.p_dtd:
            dtd = d.dtd = self.make_dtd('root')
        self.left = self.maxels
        d.root = self.element({'xml': XML}, 0, dtd)
        if dtd:
            dtd.name = d.root.q
        if r.random() < 0.4:
            d.prolog = self.misc(r.randint(0, 3)); d.epilog = self.misc(r.randint(0, 2))
            if dtd:
                d.prolog2 = self.misc(r.randint(0, 2))
        if self.enc and r.random() < 0.25:
            d.enc = r.choice(['utf-8-bom', 'utf-16le', 'utf-16be', 'iso-8859-1', 'us-ascii', 'utf-8'])
        if d.enc in ('iso-8859-1', 'us-ascii') and not ascii_ok(d):
            d.enc = 'utf-8'
        return d


def strip_ns(nodes):
    """nodes usable under any namespace context: no prefixes, no declarations"""
    for n in nodes:
        if isinstance(n, El):
            n.q = nsplit(n.q)[1]
            seen = set(); keep = []
            for it in n.items:
                if it[0] == 'a' and ':' not in it[1] and it[1] not in seen:
                    seen.add(it[1]); keep.append(it)
            n.items = keep
            strip_ns(n.kids)


def walk(nodes):
    for n in nodes:
        yield n
        if isinstance(n, El):
            yield from walk(n.kids)


def ascii_ok(d):
    """everything that cannot be written as a character reference is ASCII"""
    def ok(s): return all(ord(c) < 128 for c in s)
    if d.dtd:
        return False
    for n in walk(d.prolog + d.prolog2 + [d.root] + d.epilog):
        if isinstance(n, El):
            if not ok(n.q) or any(not ok(i[1]) for i in n.items):
                return False
        elif isinstance(n, (Comment, CData)):
            if not ok(n.t): return False
        elif isinstance(n, PI):
            if not ok(n.target + n.data): return False
    return True


class Render:
    """one concrete spelling of a document"""
    def __init__(self, r, plain=False, lf_only=False):
        self.r = r; self.out = []; self.line = 1; self.plain = plain; self.lf_only = lf_only; self.limit = 0x110000; self.last = ''

    def w(self, s):
        if not s:
            return
        t = (self.last[-1:] + s)
        k = t.count('\n') + t.count('\r') - t.count('\r\n')
        k0 = 1 if self.last[-1:] in ('\n', '\r') else 0
        self.line += k - k0
        if self.last[-1:] == '\r' and s[0] == '\n':
            self.line += 0
        self.out.append(s); self.last = s

    def ws(self, req=False):
        r = self.r
        if self.plain:
            return ' ' if req else ''
        if req:
            return r.choice([' ', ' ', ' ', '\n', '\t', '  ', ' \n ', '\r\n' if not self.lf_only else '\n'])
        return r.choice(['', '', '', '', ' ', '\n', '\t'])

    def charref(self, c):
        r = self.r
        return r.choice(['&#%d;', '&#x%x;', '&#x%X;', '&#0%d;']) % ord(c)

    def newline(self, nxt=''):
        if self.lf_only or self.plain:
            return '\n'
        last = self.last[-1:]
        if last == '\r':
            return '\r'       # \n here would join up with it
        return self.r.choice(['\n', '\n', '\n', '\r\n', '\r'])

    def chars(self, s):
        r = self.r
        for c in s:
            last = self.last[-1:]
            if c == '<':
                self.w(r.choice(['&lt;', '&#60;', '&#x3C;']))
            elif c == '&':
                self.w(r.choice(['&amp;', '&#38;', '&#x26;']))
            elif c == '>':
                self.w('&gt;' if last == ']' or r.random() < 0.3 else '>')
            elif c == '\n':
                self.w('&#10;' if not self.plain and r.random() < 0.05 else self.newline())
            elif c == '\r':
                self.w(r.choice(['&#13;', '&#xD;']))
            elif ord(c) >= self.limit or (not self.plain and r.random() < 0.03):
                self.w(self.charref(c))
            elif c in '\'"' and r.random() < 0.1:
                self.w('&apos;' if c == "'" else '&quot;')
            else:
                self.w(c)

    def raw(self, s):
        for c in s:
            self.w(self.newline() if c == '\n' else c)

    def att(self, v, q, ty='CDATA', refs=()):
        r = self.r
        self.w(q)
        if ty != 'CDATA' and r.random() < 0.4 and not ty.startswith('#'):
            v = ' ' * r.randint(0, 2) + v.replace(' ', ' ' * r.randint(1, 3)) + ' ' * r.randint(0, 2)
        for c in v:
            if c == '<':
                self.w(r.choice(['&lt;', '&#60;']))
            elif c == '&':
                self.w(r.choice(['&amp;', '&#38;']))
            elif c == q:
                self.w(r.choice(['&quot;', '&#34;']) if q == '"' else r.choice(['&apos;', '&#39;']))
            elif c in '\n\t\r':
                self.w(self.charref(c))
            elif c == ' ' and not self.plain and ty == 'CDATA' and r.random() < 0.15:
                self.w(r.choice(['\t', self.newline()]))
            elif ord(c) >= self.limit or (c != ' ' and not self.plain and r.random() < 0.03):
                self.w(self.charref(c))
            else:
                self.w(c)
        self.w(q)

    def node(self, n):
        r = self.r
        if isinstance(n, El):
            n.line0 = self.line
            self.w('<' + n.q)
            for it in n.items:
                if it[0] in ('dns', 'da'):
                    continue
                self.w(self.ws(True))
                q = r.choice('\'"')
                if it[0] == 'ns':
                    self.w('xmlns:' + it[1] if it[1] else 'xmlns')
                    v, ty = it[2], 'CDATA'
                    v = v
                else:
                    self.w(it[1]); v, ty = it[2], it[3]
                self.w(self.ws()); self.w('='); self.w(self.ws())
                self.att(v, q, ty)
            self.w(self.ws())
            if not n.kids and r.random() < 0.6:
                self.w('/>')
                n.line1 = n.end1 = self.line
                return
            self.w('>')
            n.line1 = self.line
            for k in n.kids:
                self.node(k)
            self.w('</' + n.q + self.ws() + '>')
            n.end1 = self.line
        elif isinstance(n, Text):
            self.chars(n.t)
        elif isinstance(n, CData):
            self.w('<![CDATA['); self.raw(n.t); self.w(']]>')
        elif isinstance(n, Comment):
            self.w('<!--'); self.raw(n.t); self.w('-->')
        elif isinstance(n, PI):
            self.w('<?' + n.target)
            if n.data:
                self.w(self.ws(True)); self.raw(n.data)
            elif r.random() < 0.2:
                self.w(' ')
            self.w('?>')
        elif isinstance(n, Ref):
            self.w('&' + n.name + ';')
        elif isinstance(n, Raw):
            n.line = self.line
            self.w(n.text)

    def quoted(self, s):
        return "'" + s + "'" if '"' in s else ('"' + s + '"' if "'" in s or self.r.random() < 0.7 else "'" + s + "'")

    def extid(self, pub, sys, notation=False):
        if pub:
            s = 'PUBLIC ' + self.quoted(pub)
            if sys or not notation:
                s += self.ws(True) + self.quoted(sys)
            return s
        return 'SYSTEM ' + self.quoted(sys)

    def entlit(self, t):
        r = self.r
        q = r.choice('\'"')
        s = ''
        for i, c in enumerate(t):
            if c == '&':
                s += '&#38;' if not re.match(r'&(amp|lt|gt|quot|apos|(e|ent|é)[0-9]+\w*);', t[i:]) or r.random() < 0.2 else '&'
            elif c == '%':
                s += '&#37;'
            elif c == q:
                s += '&#%d;' % ord(c)
            elif c == '\r':
                s += '&#13;'
            else:
                s += c
        return q + s + q

    def decls(self, ds, docs, gate):
        r = self.r
        for d in ds:
            if not gate or r.random() < 0.8:
                self.w(r.choice(['\n', ' ', '\n  ', '']))
            if d[0] == 'el':
                m = d[2]
                if not self.plain and r.random() < 0.3:
                    m = m.replace('|', ' | ').replace(',', ' , ')
                self.w('<!ELEMENT' + self.ws(True) + d[1] + self.ws(True) + m + self.ws() + '>')
            elif d[0] == 'at':
                self.w('<!ATTLIST' + self.ws(True) + d[1])
                for an, ty, dt, v in d[2]:
                    self.w(self.ws(True) + an + self.ws(True) + (ty if r.random() < .7 else ty.replace('|', ' | ')) + self.ws(True) + dt)
                    if v is not None:
                        self.w(self.ws(True) if dt else '')
                        lim = self.lf_only
                        self.att(v, r.choice('\'"'), ty)
                self.w(self.ws() + '>')
            elif d[0] == 'ent':
                e = d[1]
                if e.kind == 'int':
                    sub = Render(r, plain=False, lf_only=True)
                    for n in e.nodes:
                        sub.node(n)
                    e.value = ''.join(sub.out)
                    self.w('<!ENTITY ' + e.name + self.ws(True) + self.entlit(e.value) + self.ws() + '>')
                else:
                    self.w('<!ENTITY ' + e.name + ' ' + self.extid(e.pub, e.sys) + (' NDATA ' + e.notation if e.kind == 'unp' else '') + self.ws() + '>')
                    if e.kind == 'ext':
                        sub = Render(r)
                        if r.random() < 0.4:
                            sub.w('<?xml' + (' version="1.0"' if r.random() < 0.5 else '') + ' encoding="utf-8"?>')
                        for n in e.nodes:
                            sub.node(n)
                        docs[e.sys] = ''.join(sub.out).encode('utf-8')
            elif d[0] == 'dupent':
                self.w('<!ENTITY ' + d[1] + ' "something else">')
            elif d[0] == 'not':
                self.w('<!NOTATION ' + d[1] + ' ' + self.extid(d[2], d[3], True) + '>')
            elif d[0] == 'pe':
                _, nm, kind, inner, sys, pub = d
                sub = Render(r, lf_only=True); sub.pevals = self.pevals
                sub.decls(inner, docs, False)
                t = ''.join(sub.out)
                if kind == 'pint':
                    self.w('<!ENTITY % ' + nm + ' ' + self.entlit(t) + '>')
                    self.pevals[nm] = t
                else:
                    self.w('<!ENTITY % ' + nm + ' ' + self.extid(pub, sys) + '>')
                    docs[sys] = t.encode('utf-8')
                self.w(r.choice(['', ' ', '\n']) + '%' + nm + ';')
            else:
                self.node(d[1])

    def document(self, d):
        """returns (bytes, external documents by system id)"""
        r = self.r
        docs = {}
        self.limit = {'iso-8859-1': 0x100, 'us-ascii': 0x80}.get(d.enc, 0x110000)
        name = {'utf-8-bom': 'utf-8', 'utf-16le': 'utf-16', 'utf-16be': 'utf-16'}.get(d.enc, d.enc)
        must = name in ('iso-8859-1', 'us-ascii')
        if must or r.random() < 0.5:
            q = r.choice('\'"')
            self.w('<?xml version=' + q + '1.0' + q)
            if must or r.random() < 0.5:
                self.w(' encoding=' + q + r.choice([name, name.upper()]) + q)
            if r.random() < 0.2:
                self.w(' standalone=' + q + r.choice(['yes', 'no'] if not (d.dtd and (d.dtd.sys or any(x[0] == 'pe' for x in d.dtd.subset))) else ['no']) + q)
            self.w(self.ws() + '?>')
        self.pevals = {}
        for n in d.prolog:
            self.w(self.ws()); self.node(n)
        if d.dtd:
            t = d.dtd
            self.w(self.ws() + '<!DOCTYPE' + self.ws(True) + t.name)
            if t.sys or t.pub:
                self.w(self.ws(True) + self.extid(t.pub, t.sys))
            if t.has_subset:
                self.w(self.ws() + '[')
                self.decls(t.subset, docs, True)
                self.w(self.ws() + ']')
            self.w(self.ws() + '>')
            if t.external is not None:
                sub = Render(r); sub.pevals = self.pevals
                if r.random() < 0.3:
                    sub.w('<?xml encoding="utf-8"?>')
                sub.decls(t.external, docs, False)
                docs[t.sys] = ''.join(sub.out).encode('utf-8')
        for n in d.prolog2:
            self.w(self.ws()); self.node(n)
        self.w(self.ws())
        self.node(d.root)
        for n in d.epilog:
            self.w(self.ws()); self.node(n)
        self.w(self.ws())
        s = ''.join(self.out)
        enc = {'utf-8-bom': 'utf-8', 'iso-8859-1': 'latin-1', 'us-ascii': 'ascii', 'utf-16le': 'utf-16-le', 'utf-16be': 'utf-16-be'}.get(d.enc, d.enc)
        b = s.encode(enc)
        if d.enc == 'utf-8-bom':
            b = b'\xef\xbb\xbf' + b
        elif d.enc == 'utf-16le':
            b = b'\xff\xfe' + b
        elif d.enc == 'utf-16be':
            b = b'\xfe\xff' + b
        return b, docs


class Events:
    """expected events (before any filter)"""
    def __init__(self, d, ns=True, nsp=False, ge=False, pevals=None):
        self.d = d; self.ns = ns; self.nsp = nsp; self.ge = ge; self.out = []; self.res = []; self.pevals = pevals or {}
        self.lines = []     # (index of event, first line, last line)
        self.bad = None     # index of the event where ill-formed text starts

    def e(self, *a):
        self.out.append(list(a))

    def name(self, q, ctx, att=False):
        if not self.ns:
            return '', '', q
        p, l = nsplit(q)
        if p:
            return ctx[p], l, q
        return ('' if att else ctx.get('', '')), l, q

    def node(self, n, ctx):
        if self.bad is not None:
            return
        if isinstance(n, El):
            decls = [i for i in n.items if i[0] in ('ns', 'dns')]
            ctx = dict(ctx)
            for i in decls:
                ctx[i[1]] = i[2]
            rep = [i for i in decls if i[1] != 'xml']
            if self.ns:
                for i in rep:
                    self.e('SP', i[1], i[2])
            atts = []
            for i in n.items:
                if i[0] in ('ns', 'dns'):
                    if self.nsp or not self.ns:
                        atts.append(('', '', 'xmlns:' + i[1] if i[1] else 'xmlns', 'CDATA', i[2]))
                else:
                    u, l, q = self.name(i[1], ctx, True)
                    atts.append((u, l, q, 'CDATA', i[2]))
            u, l, q = self.name(n.q, ctx)
            self.lines.append((len(self.out), n.line0, n.line1))
            self.e('SE', u, l, q, *[x for a in atts for x in a])
            for k in n.kids:
                self.node(k, ctx)
            if self.bad is not None:
                return
            self.e('EE', u, l, q)
            if self.ns:
                for i in rep:
                    self.e('EP', i[1])
        elif isinstance(n, Text):
            self.e('CH', n.t)
        elif isinstance(n, CData):
            self.e('SCD'); self.e('CH', n.t); self.e('ECD')
        elif isinstance(n, Comment):
            self.e('CO', n.t)
        elif isinstance(n, PI):
            self.e('PI', n.target, n.data)
        elif isinstance(n, Ref):
            ent = self.d.dtd.ents[n.name]
            if ent.kind == 'int':
                n0 = len(self.lines)
                for k in ent.nodes:
                    self.node(k, ctx)
                self.lines[n0:] = [(i, 0, 0) for i, a, b in self.lines[n0:]]
            elif self.ge:
                self.e('SEN', n.name)
                self.res.append([ent.pub, ent.sys])
                n0 = len(self.lines)
                for k in ent.nodes:
                    self.node(k, ctx)
                self.lines[n0:] = [(i, 0, 0) for i, a, b in self.lines[n0:]]
                self.e('EEN', n.name)
            else:
                self.e('SK', n.name)
        elif isinstance(n, Raw):
            for x in n.ok:
                self.e(*([x[0], ctx.get('', '')] + x[2:] if x[0] in ('SE', 'EE') else x))
            self.bad = len(self.out); self.bad_line = n.line

    def decls(self, ds):
        for d in ds:
            if d[0] == 'el':
                self.e('ELD', d[1], d[2])
            elif d[0] == 'at':
                for an, ty, dt, v in d[2]:
                    self.e('ATD', d[1], an, ty, dt, v if v is not None else '')
            elif d[0] == 'ent':
                e = d[1]
                if e.kind == 'int':
                    self.e('IED', e.name, e.value)
                elif e.kind == 'ext':
                    self.e('EED', e.name, e.pub, e.sys)
                else:
                    self.e('UE', e.name, e.pub, e.sys, e.notation)
            elif d[0] == 'not':
                self.e('ND', d[1], d[2], d[3])
            elif d[0] == 'pe':
                _, nm, kind, inner, sys, pub = d
                if kind == 'pint':
                    self.e('IED', '%' + nm, self.pevals.get(nm))
                    self.decls(inner)
                else:
                    self.e('EED', '%' + nm, pub, sys)
                    self.e('SEN', '%' + nm); self.res.append([pub, sys])
                    self.decls(inner)
                    self.e('EEN', '%' + nm)
            elif d[0] == 'misc':
                self.node(d[1], {})

    def document(self):
        d = self.d
        self.e('SD')
        for n in d.prolog:
            self.node(n, {})
        if d.dtd:
            t = d.dtd
            self.e('SDTD', t.name, t.pub, t.sys)
            self.decls(t.subset)
            if t.external is not None and self.ge:
                self.e('SEN', '[dtd]'); self.res.append([t.pub, t.sys])
                self.decls(t.external)
                self.e('EEN', '[dtd]')
            self.e('EDTD')
        for n in d.prolog2:
            self.node(n, {})
        self.node(d.root, {'xml': XML})
        for n in d.epilog:
            self.node(n, {})
        if self.bad is None:
            self.e('ED')
        return self.out


def coalesce(evs):
    """join adjacent character events, drop empty ones"""
    out = []
    for e in evs:
        if e[0] == 'CH':
            if not e[1]:
                continue
            if out and out[-1][0] == 'CH':
                out[-1] = ['CH', out[-1][1] + e[1]]
                continue
        out.append(list(e))
    return out


def norm(evs):
    """canonical form: characters joined, prefix mapping runs sorted, content models and types without whitespace,
    namespace declarations among the attributes sorted to the front"""
    out = []
    for e in coalesce(evs):
        if e[0] == 'ELD':
            e = ['ELD', e[1], ''.join(e[2].split())]
        elif e[0] == 'ATD':
            e = ['ATD', e[1], e[2], ''.join(e[3].split()), e[4], e[5]]
        elif e[0] == 'SE':
            a = [tuple(e[i:i + 5]) for i in range(4, len(e), 5)]
            decl = sorted(('', '', x[2], x[3], x[4]) for x in a if x[2] == 'xmlns' or x[2].startswith('xmlns:'))
            rest = [x for x in a if not (x[2] == 'xmlns' or x[2].startswith('xmlns:'))]
            e = e[:4] + [y for x in decl + rest for y in x]
        out.append(e)
    i = 0
    while i < len(out):
        if out[i][0] in ('SP', 'EP'):
            j = i
            while j < len(out) and out[j][0] == out[i][0] == out[j][0]:
                j += 1
            out[i:j] = sorted(out[i:j])
            i = j
        else:
            i += 1
    return out
