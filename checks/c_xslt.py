"""T01-T06: XSLT against an independent XSLT 1.0 interpreter (xsltmodel)."""
import re
import vlib
from vlib import Case, Check, n_cases
import xpathmodel as M
import xsltmodel as X

M.NARROW = True   # std::string: lengths are in bytes

XSLNS = 'http://www.w3.org/1999/XSL/Transform'


def BIN():
    return vlib.build([dict(name='xslt', srcs=['xslt.cpp'])])['xslt']


def esc(s, q=False):
    s = s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
    if q:
        s = s.replace('"', '&quot;').replace('\n', '&#10;').replace('\t', '&#9;').replace('\r', '&#13;')
    return s.replace('\r', '&#13;')


# ---------------------------------------------------------------- sources
NSURI = {'p': 'urn:p', 'q': 'urn:q'}
WORDS = ['x', 'y', 'alpha', 'Beta', 'beta', '10', '9', '2.5', '-3', 'z z', ' pad ', '&', '<', 'a>b', '"q"', "'s", 'é', 'Ħļľ', 'üß', '\u20ac', ']]>', 'NaN', '007', '1e3', 'line\nfeed', '']


def gen_source(r, size=12, plain=False, words=None):
    """text of a random source document"""
    words = words or WORDS
    left = [r.randint(2, size)]

    def name():
        k = r.random()
        return r.choice('abcd') if k < .75 or plain else r.choice(['p:a', 'p:b', 'q:c'])

    def text():
        return esc(r.choice(words))

    def el(depth):
        left[0] -= 1
        n = name()
        a = {}
        for _ in range(r.choice([0, 0, 1, 1, 2])):
            k = r.choice(['k', 'k', 'v', 'id', 'p:k'])
            a[k] = r.choice(words)
        s = '<' + n
        if depth == 0:
            s += ' xmlns:p="urn:p" xmlns:q="urn:q"'
        elif r.random() < .08 and not plain:
            n2 = n
            s += ' xmlns="urn:d"'
        s += ''.join(' %s="%s"' % (k, esc(v, 1)) for k, v in a.items())
        body = ''
        while left[0] > 0 and depth < 5 and r.random() < (.8 if depth < 2 else .6):
            k = r.random()
            if k < .6:
                body += el(depth + 1)
            elif k < .85:
                body += text()
            elif k < .9:
                body += '<!--%s-->' % r.choice(['c', ' note ', 'a-b', ''])
            elif k < .94:
                body += '<?%s %s?>' % (r.choice(['pi', 't']), r.choice(['d', 'x="1"', '']))
            elif k < .97 and not plain:
                body += r.choice(['', 'pre']) + '<![CDATA[%s]]>' % r.choice(['c<d', '&', 'cd', ']]']) + r.choice(['', 'post'])
            else:
                body += r.choice([' ', '\n  '])
        if not body and r.random() < .4:
            body = text()
        return s + ('>' + body + '</' + n + '>' if body or r.random() < .5 else '/>')
    pro = r.choice(['', '', '<!-- top -->', '<?pi top?>'])
    return pro + el(0) + r.choice(['', '', '<!--end-->'])


# ---------------------------------------------------------------- expressions
class G:
    """random stylesheet text; keeps track of what is in scope so that the result is always a valid stylesheet"""

    def __init__(self, r, globals_=(), named=(), keys=(), modes=(), docs=()):
        self.r = r
        self.vars = []          # local names in scope, innermost last
        self.globals = list(globals_)
        self.named = list(named)
        self.keys, self.modes, self.docs = list(keys), list(modes), list(docs)
        self.uniq = 0
        self.toplevel = False
        self.rtfs = set()

    def step(self):
        return self.r.choice(['*', 'a', 'b', 'c', 'd', 'p:a', 'p:*', 'node()', 'text()', '@*', '@k', 'comment()', 'a|b', '*[1]', '*[last()]',
                              '*[position()>1]', 'a[@k]', './/b', '*/c', 'processing-instruction()', "*[.!='']", '@p:k', '*[self::a or self::d]'])

    def up(self):
        return self.r.choice(['..', '../*', 'ancestor::*', 'preceding-sibling::*', 'following-sibling::*', '/*', '//b', '//@k', '/descendant::*[2]',
                              'preceding::*', 'ancestor-or-self::*', 'following::node()', '../..', '//*[@id]', '/', '/*/*[2]', '(//c)[1]',
                              'preceding-sibling::*[1]', 'self::node()', 'following::text()', '//text()'])

    def nodes(self):
        r = self.r
        k = r.random()
        if k < .6:
            return self.step()
        if k < .8:
            return self.up()
        if k < .85 and self.keys:
            return "key('%s', %s)" % (r.choice(self.keys), r.choice(["'x'", "'10'", '@k', '.', '*', '//@k', "string(@v)"]))
        if k < .9:
            return 'current()'
        ns = [v for v in self.vars + self.globals if v not in self.rtfs and v.startswith('n')]
        if ns:
            return '$' + r.choice(ns) + r.choice(['', '', '[1]', '/*', '/..'])
        return self.up() + '|' + self.step()

    def var(self):
        l = self.vars + self.globals
        return '$' + self.r.choice(l) if l else 'position()'

    def num(self, d=0):
        r = self.r
        k = r.random()
        if k < .2:
            return 'position()'
        if k < .35:
            return 'last()'
        if k < .55:
            return 'count(%s)' % self.nodes()
        if k < .7:
            return r.choice(['1', '2', '0.5', '10', '-1'])
        if k < .8:
            return 'string-length(%s)' % r.choice(['.', 'name()', '@k', self.var()])
        if k < .9 and d < 2:
            return '%s %s %s' % (self.num(d + 1), r.choice(['+', '-', '*', 'mod']), self.num(d + 1))
        return 'number(%s)' % r.choice(['.', '@k', '@v', self.var()])

    def bool(self, d=0):
        r = self.r
        k = r.random()
        if k < .25:
            return self.nodes()
        if k < .4:
            return '%s %s %s' % (self.num(1), r.choice(['=', '!=', '<', '>', '<=']), self.num(1))
        if k < .55:
            return '%s %s %s' % (r.choice(['.', '@k', self.var(), 'name()']), r.choice(['=', '!=']), r.choice(["'x'", '@k', '*', self.var(), '10', "'10'"]))
        if k < .65:
            return 'not(%s)' % self.nodes()
        if k < .75:
            return 'position() = last()'
        if k < .85 and d < 2:
            return '(%s) %s (%s)' % (self.bool(d + 1), r.choice(['and', 'or']), self.bool(d + 1))
        return r.choice(['self::a', 'self::text()', "contains(., 'a')", 'position() mod 2 = 1', 'current()/@k = @k',
                         'generate-id() = generate-id(current())', 'generate-id(..) = generate-id(/*)', 'true()', 'boolean(%s)' % self.var(), "starts-with(name(), 'p')"])

    def str(self):
        r = self.r
        k = r.random()
        if k < .2:
            return '.'
        if k < .35:
            return 'name()'
        if k < .45:
            return '@k'
        if k < .65:
            return self.var()
        if k < .75:
            return "concat(%s, '-', %s)" % (r.choice(['name()', '@k', self.var()]), self.num(1))
        if k < .82:
            return self.num()
        if k < .9:
            return self.nodes()
        return r.choice(["normalize-space(.)", "translate(., 'abx', 'AB')", 'name(..)', 'local-name(*)', 'string(current()/@v)', self.bool(), "substring(., 2)", "namespace-uri()"])

    # ------------------------------------------------------------ bodies
    def avt(self):
        r = self.r
        k = r.random()
        if k < .3:
            return esc(r.choice(['lit', 'a{{b}}', 'x y', '"', '&', '<', '\n', '\té']), 1)
        if k < .75:
            return '{%s}' % esc(self.str(), 1)
        return 'p-{%s}-{%s}' % (esc(self.str(), 1), esc(self.num(), 1))

    def text(self):
        r = self.r
        k = r.random()
        if k < .5:
            return esc(r.choice(['t', 'some text', '&', '<', ' lead', '\n  tail', 'é\u20ac', ']]>']))
        return '<xsl:text>%s</xsl:text>' % esc(r.choice([' ', '', '\n', 'x', ' y ', '<', '\u00e9']))

    def body(self, d, kind='any', down=True, n=None):
        """kind: any | text (only text-producing) ; down: apply-templates allowed"""
        mark = len(self.vars)
        out = ''
        k = n if n is not None else self.r.choice([1, 1, 2, 2, 3])
        last_text = False
        for _ in range(k):
            s = self.item(d, kind, down)
            if last_text and not s.startswith('<'):
                continue
            last_text = not s.startswith('<')
            out += s
        del self.vars[mark:]
        return out

    def fresh(self, p):
        self.uniq += 1
        return '%s%d' % (p, self.uniq)

    def variable(self, d, down, tag='variable'):
        r = self.r
        k = r.random()
        if k < .25:
            n = self.pick('n')
            s = '<xsl:%s name="%s" select="%s"/>' % (tag, n, esc(self.nodes(), 1))
        elif k < .6:
            n = self.pick('v')
            s = '<xsl:%s name="%s" select="%s"/>' % (tag, n, esc(self.str(), 1))
        elif k < .65:
            n = self.pick('v')
            s = '<xsl:%s name="%s"/>' % (tag, n)
        else:
            n = self.pick('t')
            s = '<xsl:%s name="%s">%s</xsl:%s>' % (tag, n, self.body(d + 1, r.choice(['any', 'text']), down), tag)
        return n, s

    def pick(self, p):
        """a name not already declared locally; sometimes one that shadows a global"""
        if self.toplevel:
            return self.fresh(p)
        g = [x for x in self.globals if x[0] == p and x not in self.vars]
        if g and self.r.random() < .4:
            return self.r.choice(g)
        return self.fresh(p)

    def params(self, d, down):
        out = ''
        r = self.r
        names = ['vp1', 'vp2', 'vp3']
        r.shuffle(names)
        for n in names[:r.choice([0, 0, 1, 2])]:
            if r.random() < .6:
                out += '<xsl:with-param name="%s" select="%s"/>' % (n, esc(self.str(), 1))
            else:
                out += '<xsl:with-param name="%s">%s</xsl:with-param>' % (n, self.body(d + 2, 'any', down))
        return out

    def sorts(self):
        r = self.r
        out = ''
        for _ in range(r.choice([0, 0, 0, 1, 1, 2])):
            out += '<xsl:sort'
            if r.random() < .8:
                out += ' select="%s"' % esc(r.choice(['.', '@k', 'name()', 'position()', '-position()', 'count(*)', 'string-length(.)', '@v', '@id', 'last()-position()', "''"]), 1)
            if r.random() < .5:
                out += ' order="%s"' % r.choice(['ascending', 'descending', 'descending', "{'descending'}"])
            if r.random() < .5:
                out += ' data-type="%s"' % r.choice(['number', 'text', 'number'])
            out += '/>'
        return out

    def item(self, d, kind, down):
        r = self.r
        deep = d > 4
        c = r.random()
        if c < .12:
            return self.text()
        if c < .3 or (deep and c < .6):
            return '<xsl:value-of select="%s"/>' % esc(self.str(), 1)
        if c < .38:
            return '<xsl:if test="%s">%s</xsl:if>' % (esc(self.bool(), 1), self.body(d + 1, kind, down))
        if c < .45:
            w = ''.join('<xsl:when test="%s">%s</xsl:when>' % (esc(self.bool(), 1), self.body(d + 1, kind, down)) for _ in range(r.randint(1, 2)))
            if r.random() < .6:
                w += '<xsl:otherwise>%s</xsl:otherwise>' % self.body(d + 1, kind, down)
            return '<xsl:choose>%s</xsl:choose>' % w
        if c < .54:
            nn, s = self.variable(d, down)
            self.vars.append(nn)
            return s
        if c < .62:
            up = r.random() < .4
            sel = self.up() if up else self.step()
            if r.random() < .15:
                sel, up = self.nodes(), True
            return '<xsl:for-each select="%s">%s%s</xsl:for-each>' % (esc(sel, 1), self.sorts(), self.body(d + 1, kind, down and not up))
        if c < .72 and down:
            a = ''
            if r.random() < .6:
                a += ' select="%s"' % self.step()
            if self.modes and r.random() < .5:
                a += ' mode="%s"' % r.choice(self.modes)
            return '<xsl:apply-templates%s>%s%s</xsl:apply-templates>' % (a, self.sorts(), self.params(d, down))
        if c < .78 and down and self.named:
            return '<xsl:call-template name="%s">%s</xsl:call-template>' % (r.choice(self.named), self.params(d, down))
        if kind == 'text':
            return '<xsl:value-of select="%s"/>' % esc(self.str(), 1)
        if c < .86:
            n = r.choice(['e', 'f', 'g', 'p:e', 'q:f'])
            at = ''.join(' %s="%s"' % (k, self.avt()) for k in r.sample(['i', 'j', 'p:k'], r.choice([0, 0, 1, 2])))
            at += r.choice(['', '', '', '', ' xmlns="urn:d"', ' xmlns:p="urn:p2"'])
            pre = ''
            if r.random() < .2:
                pre = self.attribute(d)
            return '<%s%s>%s%s</%s>' % (n, at, pre, self.body(d + 1, 'any', down) if not deep else '', n)
        if c < .89:
            nm = r.choice(['h', '{local-name()}x', 'p:h', 'e-{position()}', 'q:{translate(local-name(), "#", "")}y'])
            ns = r.choice(['', '', '', ' namespace="urn:n"', ' namespace=""', ' namespace="{namespace-uri()}"', ' namespace="urn:p"'])
            pre = self.attribute(d) if r.random() < .4 else ''
            return '<xsl:element name="%s"%s>%s%s</xsl:element>' % (esc(nm, 1), ns, pre, self.body(d + 1, 'any', down))
        if c < .91:
            return self.attribute(d)
        if c < .935:
            return '<xsl:comment>%s</xsl:comment>' % self.body(d + 1, r.choice(['text', 'text', 'any']), down)
        if c < .955:
            return '<xsl:processing-instruction name="%s">%s</xsl:processing-instruction>' % (r.choice(['pi', 't-{position()}']), 'x' + self.body(d + 1, 'text', False))
        if c < .975:
            return '<xsl:copy>%s</xsl:copy>' % self.body(d + 1, 'any', down)
        if c < .99:
            v = [x for x in self.vars + self.globals]
            return '<xsl:copy-of select="%s"/>' % esc(self.nodes() if not v or r.random() < .5 else '$' + r.choice(v), 1)
        return '<xsl:message>%s</xsl:message>' % self.body(d + 1, 'text', False)

    def attribute(self, d):
        r = self.r
        nm = r.choice(['m', 'n', 'p:m', 'a{position()}', 'i'])
        ns = r.choice(['', '', '', ' namespace="urn:n"', ' namespace="urn:p"', ' namespace=""'])
        return '<xsl:attribute name="%s"%s>%s</xsl:attribute>' % (nm, ns, self.body(d + 2, r.choice(['text', 'text', 'any']), False, 1))


PATTERNS = ['a', 'b', 'c', 'd', '*', '@*', 'node()', 'text()', '/', 'a/b', 'a//c', '*[@k]', 'p:a', 'p:*', 'comment()', '@k', 'b[2]', '*[last()]',
            '/*', 'processing-instruction()', 'a|b', 'a[1]|c', '*/d', '//b', '/*/*', "*[.='x']", 'q:c', "*[@k='x']", 'b[position()>1]', "processing-instruction('pi')",
            'text()[1]', 'a/text()', '*[not(*)]', '@p:k', 'a[b]']
HEAD = '<xsl:stylesheet version="1.0" xmlns:xsl="%s" xmlns:p="urn:p" xmlns:q="urn:q"%%s>' % XSLNS


def gen_sheet(r, top=True):
    """(stylesheet text, list of external parameters)"""
    modes = ['m1', 'p:m2'] if r.random() < .5 else []
    nnamed = r.choice([0, 1, 2, 3])
    named = ['nt%d' % i for i in range(nnamed)]
    keys = ['k1', 'p:k2'] if r.random() < .3 else []
    g = G(r, [], [], keys, modes)
    g.toplevel = True
    out = ''
    if keys:
        for k in keys + ([keys[0]] if r.random() < .5 else []):
            out += '<xsl:key name="%s" match="%s" use="%s"/>' % (k, esc(r.choice(['*', 'a', 'b|c', '*[@k]', 'text()', '@k', 'a/b']), 1), r.choice(['@k', '.', '@*', '*', 'name()', 'count(*)', '@id']))
    params = []
    for i in range(r.choice([0, 1, 2, 3])):
        n, s = g.variable(3, False, r.choice(['variable', 'variable', 'param']))
        if s.startswith('<xsl:param') and r.random() < .5:
            params.append(n)
        g.globals.append(n)
        out += s
    g.toplevel = False

    def tpl(attrs, later_named, down=True):
        g.vars = []
        g.named = later_named
        s = ''
        names = ['vp1', 'vp2', 'vp3']
        for n in names[:r.choice([0, 0, 1, 2, 3])]:
            if r.random() < .7:
                s += '<xsl:param name="%s" select="%s"/>' % (n, esc(g.str(), 1))
            else:
                s += '<xsl:param name="%s">%s</xsl:param>' % (n, g.body(3, 'any', False))
            g.vars.append(n)
        return '<xsl:template%s>%s%s</xsl:template>' % (attrs, s, g.body(0, 'any', down, r.randint(1, 4)))
    tops = []
    for _ in range(r.randint(1, 5)):
        a = ' match="%s"' % esc(r.choice(PATTERNS), 1)
        if modes and r.random() < .4:
            a += ' mode="%s"' % r.choice(modes)
        if r.random() < .2:
            a += ' priority="%s"' % r.choice(['1', '-1', '0.5', '2', '0'])
        tops.append(tpl(a, named))
    tops.append(tpl(' match="/"', named))
    for i, n in enumerate(named):
        tops.append(tpl(' name="%s"' % n, named[i + 1:]))
    r.shuffle(tops)
    return HEAD % '' + out + ''.join(tops) + '</xsl:stylesheet>', params


# ---------------------------------------------------------------- comparing
def wellformed_tree(text):
    """canonical tree of serialised output (any external general parsed entity), or None"""
    t = text
    m = re.match(r'<\?xml [^>]*\?>\n?', t)
    if m:
        t = t[m.end():]
    t = re.sub(r'<!DOCTYPE[^>]*>\n?', '', t, count=1) if '<!DOCTYPE' in t[:400] and t.lstrip().startswith('<!DOCTYPE') else t
    try:
        root = M.parse_xml('<w>' + t + '</w>')
    except Exception as ex:
        return str(ex)
    w = root.children[0]
    w.kind = 'root'
    w.parent = None
    return X.canon(w)


def dom_tree(evs):
    out = []
    atts = []

    def flush():
        out.extend(sorted(atts, key=lambda a: (a[1], a[2])))
        del atts[:]
    for e in evs:
        if e[1] == 'A':
            atts.append(('A', e[2], e[3], e[4]))
            continue
        flush()
        if e[1] == 'E':
            out.append(('E', e[2], e[3]))
        elif e[1] in ('T', 'D'):
            if out and out[-1][0] == 'T':
                out[-1] = ('T', out[-1][1] + e[2])
            elif e[2]:
                out.append(('T', e[2]))
        elif e[1] == 'C':
            out.append(('C', e[2]))
        elif e[1] == 'P':
            out.append(('P', e[2], e[3]))
        else:
            out.append(('/',))
    flush()
    return out


def serial_form(tree):
    """what a serialised tree can carry: CR and leading PI white space as XML sees them"""
    out = []
    for e in tree:
        if e[0] == 'C':
            e = ('C', e[1].replace('\r\n', '\n').replace('\r', '\n'))
        elif e[0] == 'P':
            e = ('P', e[1], e[2].replace('\r\n', '\n').replace('\r', '\n').lstrip(' \t\r\n'))
        out.append(e)
    return out


def diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return 'at item %d got %r, expected %r (before: %r)' % (i, x, y, b[max(0, i - 2):i])
    if len(a) != len(b):
        return 'got %d items, expected %d; next %r' % (len(a), len(b), (a[len(b):] or b[len(a):])[:2])
    return None


def expect(files, main, src, params=None, docs=None):
    """('ok', canonical tree, messages, stats) | ('term', ...) | ('err', why) ; raises Budget / Unsure"""
    s = X.Sheet(files, main, docs)
    run = X.Run(s, M.parse_xml(src), params)
    try:
        t = run.go()
    except X.Terminate:
        return ('term', None, run.messages, run.stats, s)
    except (X.XSLTError, M.XPathError) as ex:
        return ('err', str(ex), run.messages, run.stats, s)
    return ('ok', X.canon(t), run.messages, run.stats, s)


def group(evs):
    """split driver events into one list per command result: [(kind, [events])]"""
    out = []
    cur = []
    for e in evs:
        cur.append(e)
        if e[0] in ('s', 'o'):
            out.append(cur)
            cur = []
    if cur:
        out.append(cur)
    return out


def judge(chk, c, want, grp, what, how):
    """compare one execution; True when it agrees"""
    last = grp[-1]
    xs = [e for e in grp if e[0] == 'x']
    if want[0] in ('err', 'term'):
        if last[1] != 'threw':
            chk.violation('%s: execution succeeded, expected %s (%s)' % (what, want[0], want[1]), c.text())
            return False
        return True
    if last[1] != 'ok':
        chk.violation('%s: execution failed: %s' % (what, xs), c.text())
        return False
    if how == 'dom':
        got = dom_tree([e for e in grp if e[0] == 'd'])
        d = diff(got, want[1])
    else:
        got = wellformed_tree(last[2])
        d = 'output is not well-formed: %s: %r' % (got, last[2][:300]) if isinstance(got, str) else diff(got, serial_form(want[1]))
    if d:
        chk.violation('%s (%s): %s' % (what, how, d), c.text())
        return False
    msgs = last[3]
    if msgs is not None and want[2]:
        for m in want[2]:
            if m not in M_unescape(msgs):
                chk.violation('%s: message %r not reported (got %r)' % (what, m, msgs[:200]), c.text())
                return False
    return True


def M_unescape(s):
    s = re.sub(r'WARNING: [^\n]*\n', '', s)       # the processor's own, in the same place, even in the middle of a message
    return s.replace('&lt;', '<').replace('&gt;', '>').replace('&quot;', '"').replace('&#13;', '\r').replace('&#xD;', '\r').replace('&amp;', '&')


def check_T01(pid='T01'):
    chk = Check(pid, rule='model result tree vs DOM sink tree and reparsed stream output, random stylesheets and sources')
    r = chk.rng
    exe = BIN()
    cases = []
    n = n_cases(1600, 30000)
    tries = 0
    while len(cases) < n and tries < 4 * n:
        tries += 1
        sheet, params = gen_sheet(r)
        src = gen_source(r)
        try:
            want = expect({'main.xsl': sheet}, 'main.xsl', src)
        except (X.Budget, M.Unsure, RecursionError):
            chk.count('skipped: too long')
            continue
        if want[0] == 'err':
            chk.count('skipped: model error ' + want[1][:20])
            continue
        cases.append(Case('T%d' % len(cases), [('file', 'main.xsl', sheet), ('doc', 'D', src), ('sheet', 'S', 'main.xsl'),
                                                ('exec', 'S', 'D', 'dom'), ('exec', 'S', 'D', 'stream')], meta=want))
    res = vlib.run(exe, cases, leak=40)
    for c in cases:
        evs = res[c.id]
        if isinstance(evs, vlib.Crash):
            chk.violation('crash: %s' % evs, c.text())
            continue
        if ['LEAK'] in evs:
            chk.violation('memory leaked', c.text())
            continue
        g = group(evs)
        if g[0][-1][2] != 'ok':
            chk.violation('valid stylesheet refused: %s' % (g[0],), c.text())
            continue
        want = c.meta
        if judge(chk, c, want, g[1], 'result', 'dom') and judge(chk, c, want, g[2], 'result', 'stream'):
            chk.ok(tuple(want[1])[:60])
            chk.count('instructions executed', sum(want[3].values()))
            for k, v in want[3].items():
                chk.count('instr ' + k, v)
            chk.count('result items', len(want[1]))
    chk.sample(cases[0].lines[0][2])
    chk.finish()


# ---------------------------------------------------------------- T02: selection across modules
def gen_modules(r):
    """(files, external parameters): an import/include tree of stylesheet modules; every template leaves a mark of its own"""
    files = {}
    total = [r.randint(1, 7)]
    mark = [0]
    modes = ['m1', 'p:m2']
    names = ['n1', 'n2', 'p:n3']
    shared = []

    def decls(unit):
        """declarations of one module; unit: named things already declared at this precedence"""
        out = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            mark[0] += 1
            a = ' match="%s"' % esc('|'.join(r.sample(PATTERNS + ['*', 'a', 'b', 'c', 'node()', '*', '/', '@*', 'text()', 'a', 'b'], r.choice([1, 1, 1, 2]))), 1)
            if r.random() < .3:
                a += ' mode="%s"' % r.choice(modes)
            if r.random() < .3:
                a += ' priority="%s"' % r.choice(['1', '-1', '0.5', '2', '0', '-0.5', '.25', '10', '-0.25'])
            if r.random() < .1:
                free = [n for n in names if n not in unit]
                if free:
                    n = r.choice(free)
                    unit.add(n)
                    a += ' name="%s"' % n
            out.append('<xsl:template%s>%s</xsl:template>' % (a, tbody('t%d' % mark[0])))
        for n in names:
            if n not in unit and r.random() < .25:
                unit.add(n)
                mark[0] += 1
                k = r.random()
                b = '[%s %d<xsl:value-of select="concat(\'/\', position(), \'/\', name())"/>' % (n, mark[0])
                par = ''
                if k < .6:
                    par = '<xsl:param name="a" select="%s"/>' % r.choice(["'dflt%d'" % mark[0], '$g1', 'name()'])
                    b += '<xsl:value-of select="$a"/>'
                if r.random() < .4:
                    b += '<xsl:apply-imports/>'
                out.append('<xsl:template name="%s">%s%s]</xsl:template>' % (n, par, b))
        for i in (1, 2, 3):
            if 'g%d' % i not in unit and r.random() < .3:
                unit.add('g%d' % i)
                mark[0] += 1
                v = r.choice(["'v%d'" % mark[0], "concat('v%d', $g%d)" % (mark[0], i + 1), "count(//*)", 'name(/*)'])
                tag = r.choice(['variable', 'param', 'param'])
                if r.random() < .7:
                    out.append('<xsl:%s name="g%d" select="%s"/>' % (tag, i, v))
                else:
                    out.append('<xsl:%s name="g%d"><xsl:value-of select="%s"/>%d</xsl:%s>' % (tag, i, v, mark[0], tag))
        r.shuffle(out)
        return out

    def tbody(m):
        s = ''
        if r.random() < .3:
            s += '<xsl:param name="a" select="\'none\'"/>'
            m += '<xsl:value-of select="$a"/>'
        s += '(' + m
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            k = r.random()
            wp = '<xsl:with-param name="a" select="%s"/>' % r.choice(["'w'", 'position()', '$g2', 'name()']) if r.random() < .4 else ''
            if k < .4:
                a = ''
                if r.random() < .4:
                    a += ' mode="%s"' % r.choice(modes)
                if r.random() < .4:
                    a += ' select="%s"' % r.choice(['*', 'node()', '@*', 'a|b', 'text()', '*|@*', 'comment()'])
                s += '<xsl:apply-templates%s>%s</xsl:apply-templates>' % (a, wp)
            elif k < .65:
                s += '<xsl:apply-imports/>'
            elif k < .8:
                s += '<xsl:call-template name="%s">%s</xsl:call-template>' % (r.choice(names), wp)
            elif k < .9:
                s += '<xsl:value-of select="$g%d"/>' % r.choice([1, 2, 3, 4])
            else:
                s += '<e a="{$g1}">' + r.choice(['<xsl:apply-templates/>', '<xsl:apply-imports/>', 'x']) + '</e>'
        return s + ')'

    def module(path, unit, depth):
        total[0] -= 1
        files[path] = None
        imports, includes = [], []
        while total[0] > 0 and r.random() < (.75 if depth < 2 else .3) and len(imports) + len(includes) < 3:
            n = 'f%d.xsl' % len(files) if r.random() < .7 else 'sub/f%d.xsl' % len(files)
            if r.random() < .6:
                imports.append(n)
                module(n, set(), depth + 1)
            else:
                includes.append(n)
                module(n, unit, depth + 1)
        done = [f for f in shared if f != path]
        if done and r.random() < .25:
            imports.append(r.choice(done))     # the same module imported from two places
        d = decls(unit)
        body = ''.join('<xsl:import href="%s"/>' % rel(path, n) for n in imports)
        for n in includes:
            d.insert(r.randint(0, len(d)), '<xsl:include href="%s"/>' % rel(path, n))
        files[path] = HEAD % '' + body + ''.join(d) + '</xsl:stylesheet>'
        if not includes:
            shared.append(path)

    def rel(a, b):
        a, b = a.split('/'), b.split('/')
        if len(a) == 1:
            return '/'.join(b)
        return b[1] if len(b) == 2 else '../' + b[0]
    top = {'g1', 'g2', 'g3', 'g4', 'n1', 'n2', 'p:n3'}
    module('main.xsl', set(), 0)
    # a floor of lowest precedence: everything the modules refer to exists somewhere
    floor = ''.join('<xsl:param name="g%d" select="\'floor%d\'"/>' % (i, i) for i in (1, 2, 3, 4))
    floor += ''.join('<xsl:template name="%s"><xsl:param name="a"/>[floor %s<xsl:value-of select="$a"/>]</xsl:template>' % (n, n) for n in names)
    files['floor.xsl'] = HEAD % '' + floor + '</xsl:stylesheet>'
    m = files['main.xsl']
    i = m.index('>') + 1
    files['main.xsl'] = m[:i] + '<xsl:import href="floor.xsl"/>' + m[i:]
    params = {'g%d' % i: 'ext%d' % i for i in (1, 2, 3, 4) if r.random() < .2}
    return files, params


def run_sheets(chk, pid, gen, n, how=('dom', 'stream'), params=True, extra=None):
    """generate -> model -> run -> compare"""
    r = chk.rng
    exe = BIN()
    cases = []
    tries = 0
    while len(cases) < n and tries < 4 * n:
        tries += 1
        files, src, params, docs = gen(r)
        try:
            want = expect(files, 'main.xsl', src, {('', k): v for k, v in params.items()}, docs)
        except (X.Budget, M.Unsure, RecursionError) as ex:
            chk.count('skipped: ' + (type(ex).__name__ if not isinstance(ex, M.Unsure) else str(ex)))
            continue
        if want[0] == 'err':
            chk.count('skipped: model error ' + want[1][:20])
            continue
        lines = [('file', k, v) for k, v in sorted(dict(files, **(docs or {})).items())]
        lines += [('doc', 'D', src), ('sheet', 'S', 'main.xsl')]
        lines += [('param', 'S', k, 'S', v) for k, v in sorted(params.items())]
        lines += [('exec', 'S', 'D', h) for h in how]
        cases.append(Case('%s.%d' % (pid, len(cases)), lines, meta=want))
    res = vlib.run(exe, cases, leak=40)
    for c in cases:
        evs = res[c.id]
        if isinstance(evs, vlib.Crash):
            chk.violation('crash: %s' % evs, c.text())
            continue
        if ['LEAK'] in evs:
            chk.violation('memory leaked', c.text())
            continue
        g = group(evs)
        if g[0][-1][2] != 'ok':
            chk.violation('valid stylesheet refused: %s' % (g[0],), c.text())
            continue
        want = c.meta
        if all(judge(chk, c, want, g[i + 1], 'result', h) for i, h in enumerate(how)):
            chk.ok((tuple(want[1])[:60] if want[1] else want[0]))
            chk.count('instructions executed', sum(want[3].values()))
            for k, v in want[3].items():
                chk.count('instr ' + k, v)
            chk.count('result items', len(want[1] or ()))
            if extra:
                extra(chk, want)
    if cases:
        chk.sample(cases[0].text())
    return cases


def check_T02(pid='T02'):
    chk = Check(pid, rule='result of generated import/include trees vs the model: template choice, apply-imports, named templates, globals, external parameters')

    def gen(r):
        files, params = gen_modules(r)
        return files, gen_source(r), params, {}

    def extra(chk, want):
        s = want[4]
        chk.count('import units', s.nextprec)
        chk.count('templates', len(s.templates))
    run_sheets(chk, pid, gen, n_cases(1800, 40000), extra=extra)
    chk.finish()


# ---------------------------------------------------------------- T03: sort, keys, identity functions
SORTWORDS = ['1', '10', '9', '2', '-3', '2.5', '.5', '007', 'x', '', 'NaN', 'alpha', 'Alpha', 'beta', 'b', 'B', ' 4 ', '1e3', '0', '-0', 'aa', 'a', 'ab', 'é', '+5', '- 6', '1.', '3']


def gen_items(r, n=None, prefix=''):
    """a flat-ish document with many ties"""
    n = n if n is not None else r.choice([0, 1, 2, 5, 9, 14, 20])
    pool = r.sample(SORTWORDS, r.randint(2, 6))

    def item(d):
        s = '<' + r.choice(['i', 'i', 'i', 'j'])
        tag = s[1:]
        for a in ('k', 'v', 'w'):
            if r.random() < .8:
                s += ' %s="%s"' % (a, esc(r.choice(pool), 1))
        b = esc(r.choice(pool)) if r.random() < .6 else ''
        if d < 2:
            for _ in range(r.choice([0, 0, 0, 1, 2])):
                b += item(d + 1) if r.random() < .6 else r.choice(['<r>%s</r>' % esc(r.choice(pool)), '<!--c-->', '<?pi d?>'])
        return s + '>' + b + '</' + tag + '>'
    return '<doc xmlns:p="urn:p" xmlns:q="urn:q">' + ''.join(item(0) + r.choice(['', '', '\n', ' ']) for _ in range(n)) + '</doc>'


def gen_sortkey(r):
    docs = {}
    for n in ('d1.xml', 'd2.xml')[:r.choice([0, 0, 1, 2])]:
        docs[n] = gen_items(r, r.choice([1, 3, 6]))
    keys = ['k1', 'p:k2', 'k3'][:r.choice([0, 1, 2, 3])]
    top = ''
    dense = r.random() < .4     # several declarations of one name, which match the same nodes
    again = keys + keys if dense else [x for x in keys if r.random() < .4]
    for k in keys + again:
        if dense:
            top += '<xsl:key name="%s" match="%s" use="%s"/>' % (k, r.choice(['i', '*', 'i|j', '*[@k]', '*[@v]', 'j', '@k', 'doc/*']), r.choice(['@k', '@k', '@v', '@k|@v', '.', '../@k']))
            continue
        top += '<xsl:key name="%s" match="%s" use="%s"/>' % (k, esc(r.choice(['i', 'j', 'i|j', '*', 'i/i', '@k', 'text()', 'r', 'node()', '*[@v]', 'comment()', 'i[1]', 'processing-instruction()', '@*']), 1),
                                                              r.choice(['@k', '@v', '.', '@*', 'count(*)', 'r', 'name()', '@k|@v', 'string-length(.)', '*/@k', '..', '@k = @v', "concat(@k, '|', @v)", '../@k']))
    lit = [esc(w, 1).replace("'", '') for w in SORTWORDS]

    def ident():
        return r.choice(["concat(name(), '[', @k, '|', @v, '|', @w, ']', position(), '/', last(), ' ')", "concat(@k, ',', @v, ';')", 'position()', '.',
                         "count(preceding::* | ancestor::*)", "concat(position(), ':', count(preceding-sibling::*), ' ')", 'concat(@w, "/", count(current()/ancestor::*))'])

    def src():
        c = ['*', '//i', '//*', '//@k', '//@*', '//text()', '*/*', '//node()', '//i[@k]', 'doc/i', '//i|//r', '//j/..', '//i[position() mod 2 = 1]']
        if keys:
            c += ["key('%s', %s)" % (r.choice(keys), karg()) for _ in range(4)]
        for d in docs:
            c += ["document('%s')//i" % d, "document('%s')/*/*" % d]
        return r.choice(c)

    def karg():
        return r.choice(["'%s'" % r.choice(lit), "'%s'" % r.choice(lit), '@k', '//@v', '.', '*', "string(@v)", '1', '2 + 1', '//i/@k', 'true()', "''", '/..', '//r', 'count(*)', 'name()'])

    def sorts():
        out = ''
        for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
            out += '<xsl:sort'
            if r.random() < .9:
                out += ' select="%s"' % esc(r.choice(['.', '@k', '@v', '@w', 'name()', 'position()', 'last()-position()', 'count(*)', 'string-length(@k)', '@k = @v', '*/@k', "concat(@v, @w)",
                                                      'position() mod 3', '-@k', '@k * @v', "substring(@v, 1, 1)", 'generate-id(.) = generate-id(//i[1])', "number(@k)", "''", 'current()/@v', 'count(preceding::*)']
                                                     + (["count(key('%s', @k))" % r.choice(keys)] if keys else [])), 1)
            if r.random() < .6:
                out += ' data-type="%s"' % r.choice(['number', 'text', 'number', "{'number'}"])
            if r.random() < .6:
                out += ' order="%s"' % r.choice(['ascending', 'descending', 'descending', "{substring('descending', 1)}"])
            if r.random() < .1:
                out += ' lang="en"'
            out += '/>'
        return out

    def act(d):
        k = r.random()
        if k < .25:
            return '<xsl:value-of select="%s"/>' % esc(ident(), 1)
        if k < .45 and d < 2:
            return '<xsl:for-each select="%s">%s%s</xsl:for-each>' % (esc(src() if r.random() < .6 else r.choice(['*', '@*', 'node()', '../*']), 1), sorts(), act(d + 1) + '<xsl:text>.</xsl:text>')
        if k < .6 and d < 2:
            return '<g>' + act(d + 1) + act(d + 1) + '</g>'
        if k < .68 and keys and dense:
            return '<xsl:value-of select="%s"/>' % esc(r.choice(["concat(count(key('%s', @v)), '/', count(key('%s', @k)), '/', count(key('%s', @k|@v)), ' ')", "concat(count(key('%s', string(@v))), '/', count(key('%s', string(@k))), '/', count(key('%s', concat(@k, ''))), ' ')", "concat(name(key('%s', @k)), key('%s', @v)/@w, '%s ')",
                                                                  "concat(key('%s', @k)[last()], '|', key('%s', @k)[2], '%s')"]) % ((r.choice(keys),) * 3), 1)
        if k < .75 and keys:
            return '<xsl:for-each select="key(\'%s\', %s)"><xsl:value-of select="%s"/></xsl:for-each>' % (r.choice(keys), esc(karg(), 1), esc(ident(), 1))
        if k < .83 and d < 2:
            return '<xsl:apply-templates select="%s"%s>%s</xsl:apply-templates>' % (r.choice(['*', 'node()', '@*', '*/@v']), ' mode="s"' if r.random() < .5 else '', sorts())
        if k < .93:
            a, b = r.choice(['.', '*', '..', '//i', '@k', '/', 'current()', '//@k', 'preceding::i', 'ancestor::*', '*[last()]', '/..', 'text()'] + ["document('%s')" % x for x in docs] + ["key('%s', @k)" % x for x in keys]), \
                r.choice(['.', '*[1]', '/*', '//i[1]', 'current()', 'preceding::i[last()]', 'ancestor::*[last()]', '@*', '/', 'self::node()', 'current()/@k'] + ["document('%s')" % x for x in docs] + ["key('%s', @k)[1]" % x for x in keys])
            return '<xsl:value-of select="generate-id(%s) = generate-id(%s)"/>' % (a, b)
        return '<xsl:value-of select="%s"/>' % esc(r.choice(["count(//i[@k = current()/@k])", "count(//*[generate-id() = generate-id(current())])", "count(current() | .)", "string(//i[count(. | current()) = 1]/@v)"] + (
            ["count(//i[generate-id() = generate-id(key('%s', @k)[1])])" % k for k in keys] + ["count(key('%s', (//@k)[position() < 5]))" % k for k in keys]) + ["count(document('%s') | document('%s'))" % (x, y) for x in docs for y in docs]), 1)
    s = HEAD % '' + top
    s += '<xsl:template match="/">%s</xsl:template>' % ''.join('<s><xsl:for-each select="%s">%s%s</xsl:for-each></s>' % (
        esc(src(), 1), sorts(), '<xsl:value-of select="%s"/>' % esc(ident(), 1) + act(0) + r.choice(['', '<xsl:text> </xsl:text>'])) if r.random() < .7 else act(0) for _ in range(r.randint(1, 4)))
    s += '<xsl:template match="*|text()|@*"><xsl:value-of select="%s"/></xsl:template>' % esc(ident(), 1)
    if r.random() < .5:
        s += '<xsl:template match="*" mode="s">(<xsl:value-of select="position()"/>%s)</xsl:template>' % act(1)
    s += '<xsl:template match="node()|@*" priority="-2" mode="s"><xsl:value-of select="concat(name(), position())"/></xsl:template>'
    return {'main.xsl': s + '</xsl:stylesheet>'}, gen_items(r), {}, docs


def check_T03(pid='T03'):
    chk = Check(pid, rule='sorted node order, key lookups and node identity functions in generated stylesheets vs the model')
    run_sheets(chk, pid, gen_sortkey, n_cases(1800, 40000))
    chk.finish()


# ---------------------------------------------------------------- T04: serialisation
HOSTILE = ['--', '-', 'a--b-', '?>', 'x?>y', '\r\n', '\r', '\t', '\n', ' ', ']]>', ']]', '>', ']]]]>>', '<![CDATA[', '&amp;', '&#10;', '"', "'", '"\'', '<e/>', '\u2028',
           '\U0001f600', '\x85', '\u00a0', '\ufffd', '\x7f', 'e\u0301', '&', '<', 'a]]>b]]>c', '-->', '<!--', '<?', 'x', 'ok', '\ud7ff', '\ue000', '1', '\r\r\n\n', ' a ', '\t\r\n "']


def lexical(text):
    """(declaration, doctype, [(path of open elements, text, in cdata?)], tree events) by pyexpat; raises on ill-formed input"""
    import pyexpat
    p = pyexpat.ParserCreate(namespace_separator='\x01')
    p.buffer_text = False
    p.SetParamEntityParsing(pyexpat.XML_PARAM_ENTITY_PARSING_NEVER)
    st = dict(decl=None, doctype=None, cdata=False, stack=[], chunks=[])

    def decl(v, e, s):
        st['decl'] = (v, e, s)

    def doctype(n, s, pub, sub):
        st['doctype'] = (n, s, pub)

    def start(n, a):
        st['stack'].append(tuple(n.split('\x01')) if '\x01' in n else ('', n))

    def end(n):
        st['stack'].pop()

    def chars(s):
        st['chunks'].append((st['stack'][-1], s, st['cdata']))

    def cs():
        st['cdata'] = True

    def ce():
        st['cdata'] = False
    p.XmlDeclHandler, p.StartDoctypeDeclHandler, p.StartElementHandler, p.EndElementHandler = decl, doctype, start, end
    p.CharacterDataHandler, p.StartCdataSectionHandler, p.EndCdataSectionHandler = chars, cs, ce
    p.Parse(text.encode('utf-8', 'surrogateescape'), True)
    return st


def gen_serial(r):
    sheet, _ = gen_sheet(r)
    # hostile literals
    for _ in range(3):
        sheet = sheet.replace('some text', esc(r.choice(HOSTILE)).replace('\r', '&#13;'), 1).replace('{{b}}', esc(r.choice(HOSTILE), 1).replace('{', ''), 1)
    root = '<xsl:template match="/" priority="50">' + r.choice(['', '<xsl:comment>-<xsl:value-of select="."/>-</xsl:comment>', '<xsl:processing-instruction name="pp"><xsl:value-of select="."/></xsl:processing-instruction>'])
    rn = r.choice(['root', 'p:root', 'q:root', 'f', 'e'])
    root += '<%s%s>' % (rn, r.choice(['', ' xmlns="urn:d"', ' k="{.}"', ' p:a="{.//@k}"']))
    for _ in range(r.choice([0, 1, 2])):
        root += r.choice(['<e><xsl:value-of select="."/></e>', '<f x="{.}"><xsl:value-of select="//@k"/></f>', '<p:e><xsl:value-of select="//text()[last()]"/><i/>]]&gt;<xsl:value-of select="."/></p:e>',
                          '<xsl:for-each select="//*"><e><xsl:copy-of select="@*|text()"/></e></xsl:for-each>', '<xsl:copy-of select="/*"/>',
                          '<xsl:for-each select="//text()"><xsl:comment><xsl:value-of select="."/></xsl:comment><xsl:processing-instruction name="z"><xsl:value-of select="."/></xsl:processing-instruction></xsl:for-each>',
                          '<g><xsl:attribute name="at"><xsl:value-of select="//text()"/></xsl:attribute><xsl:attribute name="p:at" namespace="urn:{count(//*)}">]]&gt;<xsl:value-of select="//@*"/></xsl:attribute></g>'])
    root += '<xsl:apply-templates select="*"/></%s></xsl:template>' % rn

    def output():
        a = ''
        if r.random() < .25:
            a += ' method="%s"' % r.choice(['xml', 'xml', 'text'])
        if r.random() < .4:
            a += ' cdata-section-elements="%s"' % r.choice(['e', 'e f', 'p:e', 'g  p:e\te', 'f\n', 'root p:root'])
        if r.random() < .4:
            a += ' omit-xml-declaration="%s"' % r.choice(['yes', 'no'])
        if r.random() < .3:
            a += ' standalone="%s"' % r.choice(['yes', 'no'])
        if r.random() < .3:
            a += ' doctype-system="%s"' % r.choice(['a.dtd', 'http://example.com/x?y=1', "o'k.dtd"])
        if r.random() < .3:
            a += ' doctype-public="%s"' % r.choice(['-//X//Y', 'pub'])
        if r.random() < .15:
            a += ' version="1.0"'
        if r.random() < .15:
            a += ' encoding="UTF-8"'
        if r.random() < .15:
            a += ' indent="no"'
        if r.random() < .1:
            a += ' media-type="text/xml"'
        return '<xsl:output%s/>' % a
    i = sheet.index('>') + 1
    files = {}
    outs = ''.join(output() for _ in range(r.choice([0, 1, 1, 2, 3])))
    alias = r.choice(['', '', '<xsl:namespace-alias stylesheet-prefix="p" result-prefix="q"/>', '<xsl:namespace-alias stylesheet-prefix="q" result-prefix="xsl"/>'])
    pre = alias + outs
    if r.random() < .4:
        files['imp.xsl'] = HEAD % '' + output() + (output() if r.random() < .3 else '') + '<xsl:template match="zzz"/></xsl:stylesheet>'
        pre = '<xsl:import href="imp.xsl"/>' + pre
    if r.random() < .3:
        files['inc.xsl'] = HEAD % '' + output() + '</xsl:stylesheet>'
        pre += '<xsl:include href="inc.xsl"/>'
    files['main.xsl'] = sheet[:i] + pre + (output() if r.random() < .2 else '') + sheet[i:-len('</xsl:stylesheet>')] + root + '</xsl:stylesheet>'
    return files, gen_source(r, words=HOSTILE if r.random() < .7 else None), {}, {}


def flat_text(tree):
    return ''.join(e[1] for e in tree if e[0] == 'T')


def cr_in_cdata(tree, cd):
    """a raw CR in a CDATA section is read back as a line feed"""
    out, st = [], []
    for e in tree:
        if e[0] == 'E':
            st.append((e[1], e[2]))
        elif e[0] == '/':
            st.pop()
        elif e[0] == 'T' and st and st[-1] in cd:
            e = ('T', e[1].replace('\r\n', '\n').replace('\r', '\n'))
        out.append(e)
    return out


def judge_serial(chk, c, want, grp):
    last = grp[-1]
    if last[1] != 'ok':
        return 'execution failed: %s' % ([e for e in grp if e[0] == 'x'],)
    text = last[2]
    settings, cd = want[4].output()
    tree = want[1]
    if settings.get('method') == 'text':
        chk.count('text method outputs')
        if text != flat_text(tree):
            return 'text output %r, expected %r' % (text[:300], flat_text(tree)[:300])
        return None
    try:
        st = lexical(text)
    except Exception as ex:
        return 'output is not a well-formed document: %s: %r' % (ex, text[:600])
    got = X.canon(M.parse_xml(re.sub(r'<!DOCTYPE[^>]*>', '', text, count=1) if st['doctype'] else text))
    d = diff(got, serial_form(cr_in_cdata(tree, cd)))
    if d:
        return 'reparsed output: ' + d + '\n' + text[:1500]
    omit = settings.get('omit-xml-declaration') == 'yes'
    if omit != (st['decl'] is None):
        return 'XML declaration %s, omit-xml-declaration=%r' % (st['decl'], settings.get('omit-xml-declaration'))
    if st['decl']:
        if st['decl'][0] != '1.0':
            return 'XML declaration version %r' % (st['decl'][0],)
        sa = {None: -1, 'yes': 1, 'no': 0}[settings.get('standalone')]
        if st['decl'][2] != sa:
            return 'standalone pseudo attribute %r, expected %r' % (st['decl'][2], settings.get('standalone'))
        chk.count('declarations checked')
    if settings.get('doctype-system'):
        w = (settings['doctype-system'], settings.get('doctype-public'))
        if st['doctype'] is None or st['doctype'][1:] != w:
            return 'document type declaration %r, expected %r' % (st['doctype'], w)
        chk.count('doctypes checked')
    elif st['doctype'] is not None:
        return 'document type declaration %r, none asked for' % (st['doctype'],)
    for el, s, incd in st['chunks']:
        if (el in cd) != incd:
            return 'text %r in element %s is %s a CDATA section, cdata-section-elements=%s' % (s, el, 'in' if incd else 'not in', sorted(cd))
    chk.count('text chunks checked for CDATA', len(st['chunks']))
    chk.count('text chunks in CDATA', sum(1 for x in st['chunks'] if x[2]))
    return None


def check_T04(pid='T04'):
    chk = Check(pid, rule='stream output reparsed by expat and compared with the model result tree; declaration, doctype, CDATA sections, text method checked lexically')
    r = chk.rng
    exe = BIN()
    cases = []
    n = n_cases(1700, 40000)
    tries = 0
    while len(cases) < n and tries < 4 * n:
        tries += 1
        files, src, params, docs = gen_serial(r)
        try:
            want = expect(files, 'main.xsl', src)
        except (X.Budget, M.Unsure, RecursionError):
            chk.count('skipped: too long')
            continue
        if want[0] != 'ok':
            continue
        cases.append(Case('O%d' % len(cases), [('file', k, v) for k, v in sorted(files.items())] + [
            ('doc', 'D', src), ('sheet', 'S', 'main.xsl'), ('exec', 'S', 'D', 'stream'), ('exec', 'S', 'D', 'dom')], meta=want))
    res = vlib.run(exe, cases, leak=40)
    for c in cases:
        evs = res[c.id]
        if isinstance(evs, vlib.Crash):
            chk.violation('crash: %s' % evs, c.text())
            continue
        if ['LEAK'] in evs:
            chk.violation('memory leaked', c.text())
            continue
        g = group(evs)
        if g[0][-1][2] != 'ok':
            chk.violation('valid stylesheet refused: %s' % (g[0],), c.text())
            continue
        w = judge_serial(chk, c, c.meta, g[1])
        if w:
            chk.violation(w, c.text())
            continue
        if c.meta[4].output()[0].get('method') == 'text' or judge(chk, c, c.meta, g[2], 'DOM sink', 'dom'):
            chk.ok(tuple(c.meta[1])[:80])
            chk.count('result items', len(c.meta[1]))
    chk.sample(cases[0].text())
    chk.finish()


# ---------------------------------------------------------------- T05: reuse and isolation
BOMBS = ["<xsl:if test=\"//@k = 'x'\"><xsl:message terminate=\"yes\">stop</xsl:message></xsl:if>",
         "<xsl:if test=\"//@v = '10'\"><xsl:value-of select=\"key('none', .)\"/></xsl:if>",
         "<xsl:if test=\"@id\"><xsl:message terminate=\"yes\"><e/>stop</xsl:message></xsl:if>",
         "<xsl:if test=\"count(//*) > 4\"><g i=\"1\"><xsl:attribute name=\"b\"><xsl:message terminate=\"yes\">stop</xsl:message></xsl:attribute></g></xsl:if>",
         "<xsl:if test=\"count(//*) > 5\"><xsl:comment>c<xsl:message terminate=\"yes\">stop</xsl:message></xsl:comment></xsl:if>",
         "<xsl:if test=\"count(//*) > 3\"><xsl:variable name=\"bomb\"><e><xsl:message terminate=\"yes\">stop</xsl:message></e></xsl:variable></xsl:if>",
         "<xsl:for-each select=\"//*[@k='x']\"><xsl:sort select=\"@v\"/><xsl:message terminate=\"yes\">stop</xsl:message></xsl:for-each>"]


class MDoc:
    """a source document and its mutations"""

    def __init__(self, src):
        self.src, self.ops = src, []

    def build(self):
        root = M.parse_xml(self.src)
        for op in self.ops:
            els = [n for n in M.all_nodes(root, ns=False) if n.kind == 'elem']
            if op[1] >= len(els):
                continue
            e = els[op[1]]
            if op[0] == 'set':
                for a in e.attrs:
                    if a.uri == '' and a.local == op[2]:
                        a.value = op[3]
                        break
                else:
                    a = M.Node('attr', op[2], '', '', op[3])
                    a.parent = e
                    e.attrs.append(a)
            elif op[0] == 'add':
                e.add(M.Node('elem', op[2]))
            elif op[0] == 'del' and e.parent.kind == 'elem':
                i = [k for k, x in enumerate(e.parent.children) if x is e][0]
                kids = e.parent.children
                del kids[i]
                if 0 < i < len(kids) and kids[i - 1].kind == kids[i].kind == 'text':
                    kids[i - 1].value += kids[i].value
                    del kids[i]
        M.number_tree(root, 's', 1)
        return root


def gen_session(r):
    """(lines, [expectation per command that reports])"""
    lines, want = [], []
    sheets, docs = {}, {}
    for i in range(r.randint(2, 3)):
        docs['D%d' % i] = MDoc(gen_source(r, 9))
        lines.append(('doc', 'D%d' % i, docs['D%d' % i].src))
    for i in range(r.randint(1, 3)):
        text, params = gen_sheet(r)
        for _ in range(r.choice([0, 1, 1, 2])):
            text = text.replace(r.choice(['some text', 'some text', ' lead']), r.choice(BOMBS), 1)
        if r.random() < .7:
            k = text.rindex('<xsl:template match="/">') + len('<xsl:template match="/">')
            while text.startswith('<xsl:param', k):     # parameters come first
                k = re.compile('<xsl:param [^>]*/>|<xsl:param.*?</xsl:param>', re.S).match(text, k).end()
            text = text[:k] + r.choice(BOMBS + ['<xsl:copy-of select="/"/>', '<r><xsl:apply-templates/></r>', '<xsl:for-each select="//@k"><xsl:sort/><k><xsl:value-of select="."/></k></xsl:for-each>']) + text[k:]
        if '<xsl:key' not in text and r.random() < .6:
            k = text.index('>') + 1
            text = text[:k] + '<xsl:key name="kk" match="*" use="@k"/>' + text[k:]
            text = text.replace('<xsl:value-of select="."/>', '<xsl:value-of select="count(key(\'kk\', \'x\'))"/><xsl:value-of select="generate-id(key(\'kk\', //@k)[1]) = generate-id(//*[@k][1])"/>', 2)
        files = {'s%d.xsl' % i: text}
        sheets['S%d' % i] = (X.Sheet(files, 's%d.xsl' % i), {}, params)
        lines += [('file', 's%d.xsl' % i, text), ('sheet', 'S%d' % i, 's%d.xsl' % i)]
        want.append(('compiled',))
    n = 0
    live = list(sheets)
    for _ in range(r.randint(6, 14)):
        k = r.random()
        s = r.choice(live)
        d = r.choice(list(docs))
        pars = [p for p in sheets[s][2] if p[0] != 'n']
        if k < .12 and pars:
            p = r.choice(pars)
            v = r.choice(WORDS)
            sheets[s][1][('', p)] = v
            lines.append(('param', s, p, 'S', v))
        elif k < .3:
            op = r.choice([('set', r.randint(0, 6), r.choice(['k', 'v', 'id', 'new']), r.choice(WORDS)), ('add', r.randint(0, 4), r.choice('abcd')), ('del', r.randint(1, 6))])
            docs[d].ops.append(op)
            lines.append((op[0], d) + tuple(str(x) for x in op[1:]))
        elif k < .36:
            bad = r.choice(['<xsl:stylesheet version="1.0" xmlns:xsl="%s"><xsl:template match="["/></xsl:stylesheet>' % XSLNS, '<nope', '<xsl:stylesheet version="1.0" xmlns:xsl="%s"><xsl:template match="/"><e a="{"/>' % XSLNS])
            lines.append(('mem', 'BAD', bad))
            want.append(('refused',))
        else:
            src = docs[d].build()
            run = X.Run(sheets[s][0], src, dict(sheets[s][1]))
            try:
                t = run.go()
                w = ('ok', X.canon(t), run.messages, run.stats, sheets[s][0])
            except X.Terminate:
                w = ('term', None, run.messages, run.stats, sheets[s][0])
            except (X.XSLTError, M.XPathError) as ex:
                w = ('err', str(ex), run.messages, run.stats, sheets[s][0])
            how = r.choice(['dom', 'stream', 'P1', 'P1', 'P2'])
            lines += [('dump', d), ('exec', s, d, how), ('dump', d)]
            want.append(('exec', w, how))
            n += 1
    return lines, want, n


def judge_session(chk, c, evs):
    want = list(c.meta)
    seen = []
    i = 0
    before = None
    pend = []
    k = 0
    while i < len(evs):
        dump = []
        while i < len(evs) and evs[i][0] == 't':
            dump.append(evs[i])
            i += 1
        if before is not None:
            # the dump after an execution, followed at once by the dump before the next one if there is one
            if dump[:len(before)] != before:
                return 'execution %d modified its source document' % k
            dump = dump[len(before):]
            before = None
        grp = []
        while i < len(evs) and evs[i][0] != 't':
            grp.append(evs[i])
            i += 1
            if grp[-1][0] in ('s', 'o'):
                if not want:
                    return 'unexpected event %r' % (grp[-1],)
                w = want.pop(0)
                if w[0] == 'compiled':
                    if grp[-1][0] != 's' or grp[-1][2] != 'ok':
                        return 'valid stylesheet refused: %s' % (grp,)
                elif w[0] == 'refused':
                    if grp[-1][0] != 's' or grp[-1][2] != 'refused' or not grp[-1][3]:
                        return 'bad stylesheet: %s' % (grp,)
                else:
                    k += 1
                    how = 'dom' if w[2] == 'dom' else 'stream'
                    n = len(chk.viol)
                    if not judge(chk, c, w[1], grp, 'execution %d' % k, how):
                        return False
                    chk.count('executions ' + w[1][0])
                    chk.count('executions compared')
                    before = dump
                grp = []
    if want:
        return 'log ended early, %d results missing' % len(want)
    return None


def check_T05(pid='T05'):
    chk = Check(pid, rule='histories of executions on shared stylesheets, sinks and documents, with aborted runs and mutations in between; each result vs a fresh model run, each source document dumped before and after')
    r = chk.rng
    exe = BIN()
    cases = []
    n = n_cases(420, 9000)
    tries = 0
    while len(cases) < n and tries < 4 * n:
        tries += 1
        try:
            lines, want, ex = gen_session(r)
        except (X.Budget, M.Unsure, RecursionError):
            chk.count('skipped: too long')
            continue
        cases.append(Case('H%d' % len(cases), lines, meta=want))
    res = vlib.run(exe, cases, leak=20)
    for c in cases:
        evs = res[c.id]
        if isinstance(evs, vlib.Crash):
            chk.violation('crash: %s' % evs, c.text())
            continue
        w = judge_session(chk, c, [e for e in evs if e[0] != 'LEAK'])
        if w is None and ['LEAK'] in evs:
            w = 'memory leaked'
        if w:
            chk.violation(w, c.text())
        elif w is None:
            chk.ok(c.text())
    chk.sample(cases[0].text())
    chk.finish()


# ---------------------------------------------------------------- T06: static errors
BADX = ['', ' ', '1 +', '+1', '(', ')', '(1', '1)', '[', ']', 'a[', 'a[1', 'a]', 'a b', '1 2', '"x', "'x", '//', 'a/', 'a//', '/ /', 'a///b', '::', 'a::b', 'foo::a', 'child::', '@',
        '@@a', '@a/@', '..a', '...', '.a', '$', '$ ', '$1', '$a:', ':a', 'a:', 'a:b:c', 'a: b', 'f(', 'f(1,', 'f(,1)', 'f(1 2)', 'f)', '1 = ', '= 1', '1 = = 2', '1 and', 'and 1', '1 or',
        '1 div', '1 mod', '1 * ', '1 | ', '| a', 'a || b', '!', '1 != ', '! = 1', '1 ! = 2', '1 < ', '#', '%', '1 & 2', '{1}', '1,2', ';', '^', '`', '~a', '?', 'a\\b', 'a\u00d7b',
        '1.2.3', '1..2', '..1', '.', 'child::comment(1)', 'text(1)', 'node(', "processing-instruction(a)", "processing-instruction('a','b')", 'comment(', 'p:', 'p:*:a', '*:a', '**', 'a/**', '-', '--', '1 - ',
        'a[]', 'a[1][', '()', '(a', 'a/(b)', '$v/', '(a)/', 'a/1', "a/'x'", 'a/f()', '/1', '1e3x', '0x', '<', '> 1', 'self::/', '@*:a', '/..//', '//..//', '[1]', 'a/[1]', '/[1]', '//[1]', 'a|', 'a,', "'a''b'"]
BADX = [x for x in BADX if x not in ('.', '1 - - 1')]
UNPREF = ['zz:a', 'zz:*', 'a/zz:b', '@zz:a', 'a[zz:b]', 'zz:f()', '$zz:v', 'count(zz:a)', 'child::zz:a', "a['x' = zz:b]"]
BADPAT = ['', ' ', 'a|', '|a', 'a||b', '..', '.', '../a', 'a/..', 'a/.', 'ancestor::a', 'a/descendant::b', 'parent::a', 'self::a', 'following::a', 'namespace::a', 'preceding-sibling::a', 'a = b', '1', "'x'", '$v', '$v/a', 'a + b', '-a',
          '(a)', '(a)/b', 'a[', 'a]', 'a[1', 'a//', '//', 'a/', '@', 'a/@', 'f()', 'count(a)', 'a/f()', 'concat("a","b")', 'key(1)', "id(a)", 'id()', "key('k')", "key('k', 'v', 'w')", "key('k', @a)", "a/key('k','v')",
          'descendant-or-self::node()', 'a and b', 'a or b', '/ a b', 'a b', 'attribute::', 'child::', 'zz:a', 'a/zz:*', '@zz:a', 'a[zz:b]', "a[$]", 'a[]', 'a:', '*:a', '@*:a', '#', 'text(', 'processing-instruction(a)']
BADAVT = ['{', '}', '{}', '{ }', 'a{', 'a}', 'a}b', '{a', '{a}}', '{{a}', '{a{b}}', "{'}", '{"}', '{a}{', '{a}}b{c}', '{1 +}', '{a b}', '{zz:a}', '{}}', '}}}', '{{{', '{$}', '{a}{}', "{'a}", '{f(}', '{(}']
BADQN = ['', ' ', '1a', 'a b', 'a:', ':a', 'a:b:c', 'zz:a', '-a', '.a', 'a!', 'a*', '*', '@a', '$a', 'a/b', 'p:1', 'p:-', "a'", '{a}', 'p: a', '&#xd7;', 'a&#x2028;b']
TRUNC = ('a<b', 'a>', '&lt;')
INSTR_ATTRS = {  # instruction with its required attributes and body
    'apply-templates': ('', ''), 'apply-imports': ('', ''), 'call-template': (' name="%(nt)s"', ''), 'value-of': (' select="."', ''), 'copy-of': (' select="."', ''),
    'for-each': (' select="*"', 'x'), 'if': (' test="1"', 'x'), 'text': ('', 'x'), 'element': (' name="e"', 'x'), 'attribute': (' name="e"', 'x'), 'comment': ('', 'x'),
    'processing-instruction': (' name="e"', 'x'), 'copy': ('', 'x'), 'variable': (' name="zv"', 'x'), 'message': ('', 'x'), 'choose': ('', '<xsl:when test="1">x</xsl:when>')}


def bad_body(r):
    """(class of error, instruction level fragment in error)"""
    def q(s):
        return esc(s, 1) if '&#' not in s else s
    I = lambda n, a='', b='': '<xsl:%s%s>%s</xsl:%s>' % (n, a, b, n) if b or r.random() < .3 else '<xsl:%s%s/>' % (n, a)
    k = r.choice(['unknown', 'unknown', 'toplevel', 'toplevel', 'stray', 'stray', 'missing', 'missing', 'attr', 'attr', 'attr', 'value', 'value', 'content', 'content', 'text', 'text', 'xpath', 'xpath', 'xpath', 'xpath',
                  'prefix', 'prefix', 'avt', 'avt', 'avt', 'qname', 'qname', 'both', 'choose', 'order', 'pattern'])
    if k == 'unknown':
        n = r.choice(['nonsense', 'value', 'Value-of', 'for', 'templates', 'else', 'value_of', 'copyof', 'valueof', 'script', 'if-test', 'apply-template', 'call-templates', 'analyze-string', 'for-each-group', 'sequence'])
        return k, I(n, r.choice(['', ' select="."', ' test="1"']), r.choice(['', 'x', '<a/>']))
    if k == 'toplevel':
        return k, r.choice([I('template', ' match="a"', 'x'), I('template', ' name="zz"', 'x'), I('output', ' method="xml"'), I('key', ' name="zk" match="a" use="b"'), I('import', ' href="inc.xsl"'), I('include', ' href="inc.xsl"'),
                            I('namespace-alias', ' stylesheet-prefix="p" result-prefix="q"'), I('stylesheet', ' version="1.0"'), I('transform', ' version="1.0"'), I('strip-space', ' elements="*"'), I('preserve-space', ' elements="a"'),
                            I('decimal-format', ' name="d"'), I('attribute-set', ' name="s"')])
    if k == 'stray':
        return k, r.choice([I('when', ' test="1"', 'x'), I('otherwise', '', 'x'), '<e>' + I('sort', ' select="."') + '</e>', I('with-param', ' name="zw" select="1"'), '<e>x' + I('param', ' name="zp" select="1"') + '</e>',
                            I('for-each', ' select="*"', 'x' + I('sort')), I('if', ' test="1"', I('sort')), I('if', ' test="1"', I('param', ' name="zp"')), '<e>%s</e>' % I('when', ' test="1"'),
                            I('for-each', ' select="*"', I('with-param', ' name="z" select="1"')), I('for-each', ' select="*"', I('param', ' name="z" select="1"')), I('copy', '', I('otherwise', '', 'x')),
                            I('variable', ' name="zv"', I('sort'))])
    if k == 'missing':
        n = r.choice(['value-of', 'copy-of', 'for-each', 'if', 'call-template', 'element', 'attribute', 'processing-instruction', 'variable', 'when', 'with-param', 'with-param2', 'key2'])
        if n == 'when':
            return k, I('choose', '', I('when', '', 'x'))
        if n == 'with-param':
            return k, I('apply-templates', '', I('with-param', ' select="1"'))
        if n == 'with-param2':
            return k, I('call-template', ' name="%(nt)s"', I('with-param', '', 'x'))
        if n == 'key2':
            n = 'value-of'
        return k, I(n, '', 'x' if n in ('for-each', 'if', 'element', 'attribute', 'processing-instruction') else '')
    if k == 'attr':
        n = r.choice(sorted(INSTR_ATTRS))
        a, b = INSTR_ATTRS[n]
        bad = r.choice([' zzz="1"', ' Select="."', ' value="x"', ' href="x"', ' match="a"', ' xsl-name="a"', ' separator=","', ' as="x"', ' tests="1"', ' id="x"', ' version="1.0"'])
        return k, I(n, r.choice([a + bad, bad + a]), b)
    if k == 'value':
        return k, r.choice([I('value-of', ' select="." disable-output-escaping="%s"' % r.choice(['maybe', 'true', 'YES', '1', '', 'no '])), I('text', ' disable-output-escaping="%s"' % r.choice(['maybe', 'true', 'Yes', '0']), 'x'),
                            I('message', ' terminate="%s"' % r.choice(['maybe', 'true', 'Yes', '1', '']), 'x')])
    if k == 'content':
        return k, r.choice([I('value-of', ' select="."', '<a/>'), I('value-of', ' select="."', I('text', '', 'x')), I('copy-of', ' select="."', '<a/>'), I('copy-of', ' select="."', I('if', ' test="1"')), I('text', '', '<a/>'), I('text', '', 'a<b/>c'),
                            I('text', '', I('value-of', ' select="."')), I('apply-templates', '', '<a/>'), I('apply-templates', '', I('value-of', ' select="."')), I('apply-templates', '', I('text', '', 'x')), I('call-template', ' name="%(nt)s"', '<a/>'),
                            I('call-template', ' name="%(nt)s"', I('sort', ' select="."')), I('call-template', ' name="%(nt)s"', I('if', ' test="1"')), I('choose', '', '<a/>' + I('when', ' test="1"')), I('choose', '', I('when', ' test="1"') + I('if', ' test="1"')),
                            I('apply-imports', '', '<a/>'), I('apply-imports', '', I('with-param', ' name="a" select="1"')), I('for-each', ' select="*"', I('sort', '', '<a/>')), I('for-each', ' select="*"', I('sort', '', I('if', ' test="1"')))])
    if k == 'text':
        return k, r.choice([I('value-of', ' select="."', 'x'), I('copy-of', ' select="."', 'x'), I('apply-templates', '', 'x'), I('apply-templates', '', I('with-param', ' name="z" select="1"') + '.'), I('call-template', ' name="%(nt)s"', 'x'),
                            I('choose', '', 'x' + I('when', ' test="1"')), I('choose', '', I('when', ' test="1"') + ' y '), I('apply-imports', '', 'x'), I('for-each', ' select="*"', I('sort', '', 'x')), I('choose', '', I('when', ' test="1"') + I('otherwise') + '&#160;')])
    if k in ('xpath', 'prefix'):
        x = q(r.choice(BADX if k == 'xpath' else UNPREF))
        return k, r.choice([I('value-of', ' select="%s"' % x), I('copy-of', ' select="%s"' % x), I('for-each', ' select="%s"' % x, 'x'), I('if', ' test="%s"' % x, 'x'), I('choose', '', I('when', ' test="%s"' % x, 'x')), I('apply-templates', ' select="%s"' % x),
                            I('variable', ' name="zv" select="%s"' % x), I('for-each', ' select="*"', I('sort', ' select="%s"' % x)), I('call-template', ' name="%(nt)s"', I('with-param', ' name="z" select="%s"' % x)),
                            I('apply-templates', '', I('sort', ' select="%s"' % x)), I('choose', '', I('when', ' test="1"') + I('when', ' test="%s"' % x))])
    if k == 'avt':
        x = q(r.choice(BADAVT))
        return k, r.choice(['<e a="%s"/>' % x, '<e a="1" b="%s">x</e>' % x, '<p:e p:a="%s"/>' % x, I('element', ' name="%s"' % x, 'x'), I('attribute', ' name="%s"' % x, 'x'), I('processing-instruction', ' name="%s"' % x, 'x'),
                            I('element', ' name="e" namespace="%s"' % x, 'x'), I('attribute', ' name="e" namespace="%s"' % x, 'x'), I('for-each', ' select="*"', I('sort', ' order="%s"' % x)), I('for-each', ' select="*"', I('sort', ' data-type="%s"' % x))])
    if k == 'qname':
        x = r.choice(BADQN)
        return k, r.choice([I('call-template', ' name="%s"' % x), I('variable', ' name="%s" select="1"' % x), I('apply-templates', '', I('with-param', ' name="%s" select="1"' % x)), I('apply-templates', ' mode="%s"' % x), I('call-template', ' name="%(nt)s"', I('with-param', ' name="%s" select="1"' % x))])
    if k == 'both':
        return k, r.choice([I('variable', ' name="zv" select="1"', 'x'), I('variable', ' name="zv" select="1"', '<a/>'), I('apply-templates', '', I('with-param', ' name="z" select="1"', 'x')), I('call-template', ' name="%(nt)s"', I('with-param', ' name="z" select="1"', I('text', '', 'x')))])
    if k == 'choose':
        return k, r.choice([I('choose'), I('choose', '', I('otherwise', '', 'x')), I('choose', '', I('otherwise', '', 'x') + I('when', ' test="1"', 'x')), I('choose', '', I('when', ' test="1"') + I('otherwise') + I('otherwise')), I('choose', '', I('when', ' test="1"') + I('otherwise') + I('when', ' test="2"')),
                            I('choose', '', I('when', ' test="1"') + I('sort')), I('choose', '', I('when', ' test="1"') + I('otherwise', ' test="1"'))])
    if k == 'order':
        return k, r.choice([I('for-each', ' select="*"', '<a/>' + I('sort')), I('for-each', ' select="*"', I('value-of', ' select="."') + I('sort')), I('for-each', ' select="*"', I('sort') + 'x' + I('sort'))])
    return 'unknown', I('undefined')


def bad_top(r):
    """(class of error, top level fragment in error)"""
    def q(s):
        return esc(s, 1) if '&#' not in s else s
    I = lambda n, a='', b='': '<xsl:%s%s>%s</xsl:%s>' % (n, a, b, n) if b or r.random() < .3 else '<xsl:%s%s/>' % (n, a)
    k = r.choice(['misplaced', 'misplaced', 'unknown', 'text', 'nonamespace', 'missing', 'missing', 'attr', 'attr', 'value', 'value', 'pattern', 'pattern', 'pattern', 'pattern', 'keypattern', 'keyuse', 'xpath', 'qname', 'qname', 'both', 'param-after',
                  'include', 'include', 'content', 'duplicate', 'duplicate', 'prefix', 'priority', 'alias', 'nameless', 'late import'])
    if k == 'misplaced':
        n = r.choice([n for n in sorted(INSTR_ATTRS) if n != 'variable'])
        a, b = INSTR_ATTRS[n]
        return k, r.choice([I(n, a, b), I('when', ' test="1"', 'x'), I('otherwise', '', 'x'), I('sort'), I('with-param', ' name="a" select="1"'), I('stylesheet', ' version="1.0"')])
    if k == 'unknown':
        return k, I(r.choice(['nonsense', 'templates', 'Template', 'function', 'result-document', 'script', 'imports', 'out-put', 'keys', 'character-map', 'import-schema']), r.choice(['', ' name="a"', ' match="a"']))
    if k == 'text':
        return k, r.choice(['x', ' x ', '&#160;', '.', '<![CDATA[x]]>', '0'])
    if k == 'nonamespace':
        return k, r.choice(['<a/>', '<template match="a"/>', '<a><b/></a>', '<p>x</p>'])
    if k == 'missing':
        return k, r.choice([I('template', '', 'x'), I('template', ' priority="1"', 'x'), I('key', ' match="a" use="b"'), I('key', ' name="zk" use="b"'), I('key', ' name="zk" match="a"'), I('variable', '', 'x'), I('param', ' select="1"'), I('import'), I('include'),
                            I('namespace-alias', ' stylesheet-prefix="p"'), I('namespace-alias', ' result-prefix="p"'), I('namespace-alias')])
    if k == 'attr':
        bad = r.choice([' zzz="1"', ' Name="x"', ' test="1"', ' as="x"', ' type="x"', ' version1="x"', ' value="1"'])
        return k, r.choice([I('template', ' match="a"' + bad, 'x'), I('template', ' name="zt"' + bad, 'x'), I('key', ' name="zk" match="a" use="b"' + bad), I('variable', ' name="zv"' + bad, 'x'), I('param', bad + ' name="zv" select="1"'), I('output', bad), I('output', ' method="xml"' + bad),
                            I('namespace-alias', ' stylesheet-prefix="p" result-prefix="#default"' + bad), I('include', ' href="inc.xsl"' + bad), I('template', bad + ' match="b" mode="m1"', '')])
    if k == 'value':
        return k, I('output', r.choice([' indent="maybe"', ' indent="true"', ' indent="YES"', ' indent="1"', ' omit-xml-declaration="maybe"', ' omit-xml-declaration="true"', ' standalone="maybe"', ' standalone="omit"', ' standalone="1"', ' method="xhtml"', ' method="XML"', ' method="foo"', ' method="Text"', ' method="zz:m"']))
    if k in ('pattern', 'keypattern'):
        x = q(r.choice(BADPAT))
        return k, I('template', ' match="%s"' % x, 'x') if k == 'pattern' else I('key', ' name="zk" match="%s" use="."' % x)
    if k in ('keyuse', 'xpath', 'prefix'):
        x = q(r.choice(UNPREF if k == 'prefix' else BADX))
        return k, I('key', ' name="zk" match="a" use="%s"' % x) if k == 'keyuse' else r.choice([I('variable', ' name="zv" select="%s"' % x), I('param', ' name="zv" select="%s"' % x), I('template', ' name="zt"', I('param', ' name="z" select="%s"' % x))])
    if k == 'qname':
        x = r.choice(BADQN)
        return k, r.choice([I('template', ' name="%s"' % x, 'x'), I('variable', ' name="%s" select="1"' % x), I('param', ' name="%s" select="1"' % x), I('key', ' name="%s" match="a" use="b"' % x), I('template', ' match="a" mode="%s"' % x, 'x'),
                            I('template', ' name="zt"', I('param', ' name="%s" select="1"' % x)), I('output', ' cdata-section-elements="%s"' % x) if x.strip() and ' ' not in x else I('template', ' name="%s"' % x)])
    if k == 'both':
        return k, r.choice([I('variable', ' name="zv" select="1"', 'x'), I('param', ' name="zv" select="1"', '<a/>'), I('template', ' name="zt"', I('param', ' name="zv" select="1"', 'x'))])
    if k == 'param-after':
        return k, r.choice([I('template', ' name="zt"', 'x' + I('param', ' name="p"')), I('template', ' match="a"', '<a/>' + I('param', ' name="p"')), I('template', ' name="zt"', I('param', ' name="p"') + I('value-of', ' select="$p"') + I('param', ' name="q"')), I('template', ' name="zt"', I('sort'))])
    if k == 'include':
        n = r.choice(['include', 'import'])
        return k + ' ' + n, I(n, ' href="%s"' % r.choice(['missing.xsl', 'broken.xsl', 'broken2.xsl', 'notsheet.xsl', 'self.xsl', 'loopa.xsl', 'loopa.xsl', 'badinc.xsl', 'sub/loopc.xsl', 'empty.xsl']))
    if k == 'content':
        return k, r.choice([I('include', ' href="inc.xsl"', 'x'), I('include', ' href="inc.xsl"', '<a/>'), I('output', ' method="xml"', '<a/>'), I('output', ' method="xml"', 'x'), I('key', ' name="zk" match="a" use="b"', '<a/>'), I('key', ' name="zk" match="a" use="b"', 'x'),
                            I('namespace-alias', ' stylesheet-prefix="p" result-prefix="#default"', 'x'), I('namespace-alias', ' stylesheet-prefix="p" result-prefix="#default"', '<a/>'), I('key', ' name="zk" match="a" use="b"', I('sort')), I('output', '', I('text', '', 'x')), I('include', ' href="inc.xsl"', I('include', ' href="inc.xsl"'))])
    if k == 'duplicate':
        return k, r.choice([I('template', ' name="zt"', 'x') * 2, I('template', ' name="zt" match="a"', 'x') + I('template', ' name="zt"', 'y'), I('variable', ' name="zv" select="1"') * 2, I('param', ' name="zv" select="1"') + I('variable', ' name="zv" select="1"'),
                            '<xsl:template name="p:zt">x</xsl:template><xsl:template name="q2:zt" xmlns:q2="urn:p">x</xsl:template>', I('template', ' name="zt"', 'x') + I('include', ' href="zt.xsl"'), I('include', ' href="zt.xsl"') * 2])
    if k == 'priority':
        return k, I('template', ' match="a" priority="%s"' % r.choice(['high', '1x', 'x', '1 2', '', '--1', '.', '-', '1e', '0x1g', 'NaN', '1,5']), 'x')
    if k == 'alias':
        return k, I('namespace-alias', r.choice([' stylesheet-prefix="zz" result-prefix="p"', ' stylesheet-prefix="p" result-prefix="zz"', ' stylesheet-prefix="" result-prefix="p"', ' stylesheet-prefix="p" result-prefix=""']))
    if k == 'nameless':
        return k, r.choice([I('template', ' mode="m1"', 'x'), I('template', ' name="zt" mode="m1"', 'x')])
    return 'late import', '<xsl:variable name="zv" select="1"/>' + I('import', ' href="inc.xsl"')


EXTRA = {'inc.xsl': '<xsl:template name="fromInc">x</xsl:template>', 'zt.xsl': '<xsl:template name="zt">x</xsl:template>', 'self.xsl': '<xsl:include href="self.xsl"/>', 'loopa.xsl': '<xsl:import href="loopb.xsl"/>',
         'loopb.xsl': '<xsl:include href="inc.xsl"/><xsl:include href="loopa.xsl"/>', 'badinc.xsl': '<xsl:template match="a["/>', 'sub/loopc.xsl': '<xsl:include href="../loopd.xsl"/>', 'loopd.xsl': '<xsl:import href="sub/loopc.xsl"/>'}
RAW = {'broken.xsl': '<xsl:stylesheet version="1.0" xmlns:xsl="http://www.w3.org/1999/XSL/Transform"><xsl:template match="a"></xsl:stylesheet>', 'broken2.xsl': '<xsl:stylesheet version="1.0" xmlns:xsl="http://www.w3.org/1999/XSL/Transform"/>x',
       'notsheet.xsl': '<a><b/></a>', 'v2.xsl': '<xsl:stylesheet version="2.0" xmlns:xsl="http://www.w3.org/1999/XSL/Transform"/>', 'empty.xsl': ''}


def bad_whole(r):
    """(class of error, whole stylesheet in error)"""
    X_ = 'xmlns:xsl="http://www.w3.org/1999/XSL/Transform"'
    return r.choice([('root', '<a/>'), ('root', '<a><b/>x</a>'), ('root', '<stylesheet version="1.0"/>'), ('root', '<xsl:template %s match="a"/>' % X_), ('root', '<xsl:value-of %s select="."/>' % X_), ('root', '<xsl:stylesheets version="1.0" %s/>' % X_),
                     ('version', '<xsl:stylesheet %s/>' % X_), ('version', '<xsl:transform %s version=""/>' % X_), ('version', '<xsl:stylesheet %s version="x"/>' % X_), ('version', '<a %s/>' % X_), ('rootattr', '<xsl:stylesheet version="1.0" %s zzz="1"/>' % X_),
                     ('rootattr', '<xsl:transform version="1.0" %s match="a"/>' % X_), ('wf', '<xsl:stylesheet version="1.0" %s>' % X_), ('wf', '<xsl:stylesheet version="1.0" %s/><a/>' % X_), ('wf', ''), ('wf', 'x'), ('wf', '<xsl:stylesheet version="1.0"/>'),
                     ('wf', '<xsl:stylesheet version="1.0" %s><xsl:template match="a"><zz:a/></xsl:template></xsl:stylesheet>' % X_), ('wf', '<xsl:stylesheet version="1.0" %s><xsl:template match="a" match="b"/></xsl:stylesheet>' % X_),
                     ('wf', '<xsl:stylesheet version="1.0" %s><xsl:template match="a">&nbsp;</xsl:template></xsl:stylesheet>' % X_), ('wf', '<xsl:stylesheet version="1.0" %s><xsl:template match="a"/></xsl:stylesheet><!-- -- -->' % X_),
                     ('lre', '<a xsl:version="1.0" %s><xsl:nonsense/></a>' % X_), ('lre', '<a xsl:version="1.0" %s b="{"/>' % X_), ('lre', '<a xsl:version="1.0" %s><xsl:value-of/></a>' % X_), ('lre', '<a xsl:version="1.0" %s><xsl:template match="a"/></a>' % X_),
                     ('lre', '<a xsl:version="1.0" %s><xsl:if test="1 +">x</xsl:if></a>' % X_)])


BODYOK = {'template', 'for-each', 'if', 'when', 'otherwise', 'element', 'copy', 'attribute', 'comment', 'processing-instruction', 'message'}


def insertion_points(text):
    """offsets in a stylesheet's text where instructions may follow other instructions, and where top level elements may"""
    body, top = [], []
    stack = []
    for m in re.finditer(r'<(/?)([\w.:-]+)((?:[^>"\']|"[^"]*"|\'[^\']*\')*?)(/?)>', text):
        close, name, _, empty = m.groups()
        x = name[4:] if name.startswith('xsl:') else None
        if close:
            n = stack.pop()
            if len(stack) == 1:
                top.append(m.end())
            if n == 'body':
                body.append(m.start())
            continue
        kind = 'body' if (x is None and len(stack) > 1) or x in BODYOK else 'other'
        if x in ('variable', 'param', 'with-param'):
            kind = 'body' if not re.search(r'\bselect=', m.group(3)) else 'other'
        if len(stack) == 1 and x not in ('import', 'include'):
            top.append(m.start())
        if not empty:
            stack.append(kind)
    assert not stack
    return body, top


def gen_bad(r):
    """(files, good main, [(class, path)...]): a valid stylesheet and copies of it with one error each"""
    if r.random() < .75:
        text, _ = gen_sheet(r)
        files = {'main.xsl': text}
        target = 'main.xsl'
    else:
        files, _ = gen_modules(r)
        files = dict(files)
        target = r.choice([f for f in sorted(files) if f != 'floor.xsl'])
    if '</xsl:stylesheet>' not in files[target]:
        return None
    t = files[target].replace('</xsl:stylesheet>', '<xsl:template name="zz0"/></xsl:stylesheet>')
    files[target] = t
    for k, v in EXTRA.items():
        files[k] = HEAD % '' + v + '</xsl:stylesheet>'
    files.update(RAW)
    body, top = insertion_points(t)
    bad = []
    for _ in range(r.randint(2, 5)):
        x = r.random()
        if x < .06:
            k, w = bad_whole(r)
            cl = 'whole ' + k
            frag = w
        elif x < .55 and body:
            k, frag = bad_body(r)
            at = r.choice(body)
            cl = 'body ' + k
        else:
            k, frag = bad_top(r)
            at = r.choice(top)
            cl = 'top ' + k
        frag = frag.replace('%(nt)s', 'zz0')
        n = len(bad)
        if target == 'main.xsl' or x < .06:
            path = 'bad%d.xsl' % n
            files[path] = frag if x < .06 else t[:at] + frag + t[at:]
            bad.append((cl, path, frag))
        else:       # an error in a module that others include
            path = 'bad%d.xsl' % n
            d = target.rsplit('/', 1)[0] + '/' if '/' in target else ''
            files[d + 'badmod%d.xsl' % n] = t[:at] + frag + t[at:]
            files[path] = HEAD % '' + '<xsl:%s href="%sbadmod%d.xsl"/>' % (r.choice(['include', 'import']), d, n) + '</xsl:stylesheet>'
            bad.append((cl + ' in module', path, frag))
    return files, bad


def check_T06(pid='T06'):
    chk = Check(pid, rule='valid stylesheets and copies of them with one static error planted, compiled in turn by one compiler object: errors refused with a text, valid ones compiled before and after with equal results')
    r = chk.rng
    exe = BIN()
    cases = []
    for i in range(n_cases(900, 16000)):
        g = gen_bad(r)
        if not g:
            continue
        files, bad = g
        lines = [('file', k, v) for k, v in sorted(files.items())]
        src = gen_source(r, 8)
        lines += [('doc', 'D', src), ('sheet', 'S', 'main.xsl')]
        want = ['ok']
        for j, (cl, path, frag) in enumerate(bad):
            if r.random() < .15 and not cl.startswith('top include') and not cl.endswith('in module') and cl != 'top late import' and 'href=' not in files[path]:
                lines.append(('mem', 'B%d' % j, files[path]))
            else:
                lines.append(('sheet', 'B%d' % j, path))
            want.append((cl, frag))
            if r.random() < .4:
                lines.append(('sheet', 'S%d' % j, 'main.xsl'))
                want.append('ok')
        lines.append(('sheet', 'Z', 'main.xsl'))
        want.append('ok')
        cases.append(Case('E%d' % i, lines, meta=(want, files)))
    res = vlib.run(exe, cases, leak=30)
    for c in cases:
        evs = res[c.id]
        if isinstance(evs, vlib.Crash):
            chk.violation('crash: %s' % evs, c.text())
            continue
        ss = [e for e in evs if e[0] == 's']
        want, files = c.meta
        bad = False
        for e, w in zip(ss, want):
            if w == 'ok':
                if e[2] != 'ok':
                    chk.violation('valid stylesheet refused: %s' % e[3], c.text())
                    bad = True
                else:
                    chk.count('valid stylesheets compiled')
            elif e[2] == 'ok':
                chk.violation('error accepted (%s): %s' % w, c.text())
                bad = True
            elif e[2] == 'threw':
                chk.violation('compiler threw (%s): %s' % w, c.text())
                bad = True
            elif not e[3]:
                chk.violation('refused without a text (%s): %s' % w, c.text())
                bad = True
            else:
                chk.count('refused: ' + w[0])
        if ['LEAK'] in evs and not bad:
            chk.violation('memory leaked', c.text())
            bad = True
        if not bad:
            chk.ok(tuple(w[1] for w in want if w != 'ok'))
    chk.sample(cases[0].text())
    chk.finish()
