"""X01-X04: XPath location paths, values, language, match patterns.

Oracle: xpathmodel.py, an independent XPath 1.0 implementation, run on its own tree built from the
same document by Python's XML parser.  Node identity is compared through preorder node numbers.
"""
import math
import random
import re
import vlib
import xpathmodel as M
from vlib import Case, Check, n_cases

NAMES = ['a', 'b', 'c', 'd', 'a', 'b', 'c']
HOSTILE = ['div', 'mod', 'or', 'and', 'text', 'node', 'comment', 'self', 'child', 'parent', 'a-b', 'a.b', '_x',
           'div-1', 'orb', 'processing-instruction', 'ancestor', 'ancestor-or-self', 'attribute', 'id', 'key', 'x1',
           'following', 'following-sibling', 'namespace', 'descendant', 'descendant-or-self', 'preceding', 'position',
           'last', 'count', 'string', 'not', 'true', 'e', 'E1', 'NaN', 'Infinity']
NSMAP = {'p': 'urn:p', 'q': 'urn:q', 'z': 'urn:none', 'd': 'urn:default', 'div': 'urn:q'}
WORDS = ['1', '2', '3', '10', '-4', '0', 'x', 'yy', 'abc', ' 7 ', '1e3', 'NaN', '0.5', '.5', '5.', '+1', 'x y', '  ',
         'Infinity', '12abc', '- 1', '0x10', '-0', '--1', '1.5.2', 'a,b', '007', '1 2', '\n3\n', '-', '.', '1d', '1f']
NONASCII = ['\u00e9', '\u00df\u00e0', '\u4e2d\u6587', 'na\u00efve']


class DocGen:
    def __init__(self, rng, hostile=False, big=False, wide=False):
        self.r, self.hostile, self.wide = rng, hostile, wide
        self.left = rng.randint(4, 40 if big else 22)

    def name(self):
        if self.hostile and self.r.random() < .4:
            return self.r.choice(HOSTILE)
        return self.r.choice(NAMES)

    def word(self):
        if self.wide and self.r.random() < .3:
            return self.r.choice(NONASCII)
        return self.r.choice(WORDS)

    def text(self):
        r = self.r
        s = ''
        for _ in range(r.choice((1, 1, 2, 3))):
            k = r.random()
            w = self.word()
            if k < .7:
                s += w
            elif k < .85:
                s += '<![CDATA[%s]]>' % w
            elif k < .93:
                s += '&#%d;' % ord(r.choice('x1 \n&'))
            else:
                s += '\n' + w
        return s

    def elem(self, depth, scope):
        r = self.r
        self.left -= 1
        decl = ''
        if r.random() < .15:
            p, u = r.choice([('p', 'urn:p'), ('q', 'urn:q'), ('p', 'urn:q'), ('', 'urn:default'), ('', ''), ('s', 'urn:p')])
            decl = ' xmlns%s="%s"' % (':' + p if p else '', u)
            scope = dict(scope)
            if u:
                scope[p] = u
            else:
                scope.pop(p, None)
        pf = [p for p in scope if p]
        name = self.name()
        if pf and r.random() < .25:
            name = r.choice(pf) + ':' + name
        s = '<' + name + decl
        seen = set()
        for _ in range(r.choice((0, 0, 1, 1, 2, 3))):
            an = self.name()
            uri = ''
            if pf and r.random() < .25:
                p = r.choice(pf)
                uri = scope[p]
                q = p + ':' + an
            elif r.random() < .06:
                q, uri, an = 'xml:lang', M.XML_NS, 'lang'
            else:
                q = an
            if (uri, an) in seen:
                continue
            seen.add((uri, an))
            v = r.choice(['en', 'EN-us', 'fr', 'enx', 'en-']) if q == 'xml:lang' else self.word().replace('\n', ' ')
            s += ' %s="%s"' % (q, v)
        if r.random() < .15:
            return s + '/>'
        s += '>'
        if r.random() < .3:
            s += r.choice(['\n  ', '\n', ' '])
        n = r.choice((0, 1, 2, 3, 4))
        for _ in range(n):
            k = r.random()
            if k < .5 and self.left > 0 and depth < 6:
                s += self.elem(depth + 1, scope)
            elif k < .78:
                s += self.text()
            elif k < .87:
                s += '<!--%s-->' % self.word().replace('-', '')
            elif k < .94:
                s += '<?%s %s?>' % (r.choice(['pi', 'a', 'b', 'x']), self.word().strip())
            else:
                s += '\n '
        return s + '</%s>' % name

    def doc(self):
        r = self.r
        s = ''
        if r.random() < .2:
            s += '<!--top-->'
        if r.random() < .2:
            s += '<?pi top?>\n'
        if r.random() < .1:
            s += '<!DOCTYPE root>'
        s += '<root' + r.choice(['', '', ' xmlns:p="urn:p"', ' xmlns:p="urn:p" xmlns:q="urn:q"', ' xmlns="urn:default"']) + '>'
        scope = {}
        if 'xmlns:p' in s:
            scope['p'] = 'urn:p'
        if 'xmlns:q' in s:
            scope['q'] = 'urn:q'
        if 'xmlns=' in s:
            scope[''] = 'urn:default'
        for _ in range(r.randint(1, 4)):
            s += self.elem(1, scope)
            if r.random() < .3:
                s += self.text()
        s += '</root>'
        if r.random() < .2:
            s += '<!--end-->'
        if r.random() < .15:
            s += '<?b end?>'
        return s


def strip_root(xml):
    return xml


# ---------------------------------------------------------------- expression generator (token lists)
class ExprGen:
    def __init__(self, rng, hostile=False, vars=(), funcs=(), wide=False):
        self.r, self.hostile, self.vars, self.funcs, self.wide = rng, hostile, list(vars), list(funcs), wide

    def ws(self):
        r = self.r
        return '' if r.random() < self.wsp else r.choice([' ', '  ', '\n', '\t', '\r\n '])

    def join(self, toks):
        self.wsp = self.r.choice((1, .9, .5, .2))
        out = self.ws()
        prev = ''
        for t in toks:
            if prev:
                w = self.ws()
                if not w and self.glues(prev, t):
                    w = self.r.choice((' ', ' ', '\n'))
                out += w
            out += t
            prev = t
        return out + self.ws()

    @staticmethod
    def glues(a, b):
        x, y = a[-1], b[0]
        namey = x.isalnum() or x in '_-.' or ord(x) > 127
        if a in ('-', '+'):
            namey = False
        if a in ('.', '..'):
            return y.isdigit() or y == '.'
        if namey and a[0] not in '"\'':
            if y.isalnum() or y in '_-.' or ord(y) > 127:
                if a[0].isdigit() or (a[0] == '.' and len(a) > 1):
                    return y.isdigit() or y == '.'  # 1or2 is legal
                return True
        return False

    def name(self):
        if self.hostile and self.r.random() < .4:
            return self.r.choice(HOSTILE)
        return self.r.choice(NAMES + ['root'])

    def qname(self):
        if self.r.random() < .2:
            return self.r.choice(list(NSMAP)) + ':' + self.name()
        return self.name()

    def nodetest(self, axis='child'):
        k = self.r.random()
        if axis == 'namespace':
            return [self.r.choice(['*', 'p', 'q', 'xml', 's'])] if k < .7 else ['node', '(', ')']
        if k < .45:
            return [self.qname()]
        if k < .65:
            return ['*']
        if k < .7:
            return [self.r.choice(list(NSMAP)) + ':*']
        if k < .84:
            return ['node', '(', ')']
        if k < .92:
            return ['text', '(', ')']
        if k < .95:
            return ['comment', '(', ')']
        if k < .97:
            return ['processing-instruction', '(', ')']
        return ['processing-instruction', '(', self.r.choice(['"pi"', "'a'", "'nope'"]), ')']

    def step(self, d):
        r = self.r
        k = r.random()
        if k < .08:
            return ['.']
        if k < .16:
            return ['..']
        if k < .5:
            t = self.nodetest()
        elif k < .6:
            t = ['@'] + self.nodetest('attribute')
        else:
            ax = r.choice(M.AXES)
            t = [ax, '::'] + self.nodetest(ax)
        while r.random() < (.3 if d > 0 else 0):
            t = t + ['['] + self.pred(d - 1) + [']']
        return t

    def pred(self, d):
        k = self.r.random()
        if k < .25:
            return [self.r.choice(['1', '2', '3', '0', '1.5', '-1'])] if k < .23 else ['-', '1']
        if k < .35:
            return ['last', '(', ')']
        if k < .5:
            return ['position', '(', ')', self.r.choice(['=', '!=', '<', '>', '<=', '>=', 'mod'])] + \
                self.r.choice([['1'], ['2'], ['last', '(', ')'], ['last', '(', ')', '-', '1']])
        if k < .7:
            return self.nodeset(d - 1)
        return self.any(d - 1)

    def relpath(self, d):
        t = self.step(d)
        for _ in range(self.r.choice((0, 0, 1, 1, 2, 3))):
            t = t + [self.r.choice(('/', '/', '//'))] + self.step(d)
        return t

    def nodeset(self, d):
        r = self.r
        k = r.random()
        if k < .5 or d <= 0:
            return self.relpath(d)
        if k < .65:
            return [r.choice(('/', '//'))] + self.relpath(d)
        if k < .7:
            return ['/']
        if k < .8:
            t = self.nodeset(d - 1) if r.random() < .7 else self.nodeset(d - 1)
            if t == ['/']:
                t = ['.']
            u = self.nodeset(d - 1)
            return t + ['|'] + u
        if k < .95:
            t = ['('] + self.nodeset(d - 1) + [')']
            while r.random() < .5:
                t = t + ['['] + self.pred(d - 1) + [']']
            if r.random() < .5:
                t = t + [r.choice(('/', '//'))] + self.relpath(d - 1)
            return t
        nv = [v for v, t in self.vars if t == 'NS']
        if nv:
            t = ['$' + r.choice(nv)]
            if r.random() < .4:
                t = t + ['['] + self.pred(d - 1) + [']']
            if r.random() < .4:
                t = t + [r.choice(('/', '//'))] + self.relpath(d - 1)
            return t
        return self.relpath(d)

    NUMS = ['0', '1', '2', '3', '10', '0.5', '.5', '5.', '1.5', '2.5', '100', '123456789', '0.1', '0.000001', '1000000',
            '12345678901234567890', '99999999999999999999999', '0.30000000000000004', '4.35', '1.1', '3.14159', '007',
            '9007199254740993', '0.00000000000000000001234', '4503599627370497', '1e5'[:1]]

    def num(self, d):
        r = self.r
        k = r.random()
        if d <= 0 or k < .2:
            return [r.choice(self.NUMS)]
        if k < .55:
            a, b = self.sub(self.num, d), self.sub(self.num, d)
            return a + [r.choice(('+', '-', '*', 'div', 'mod', 'div', 'mod'))] + b
        if k < .62:
            return ['-'] + self.sub(self.num, d)
        if k < .68:
            return [r.choice(['position', 'last']), '(', ')']
        if k < .74:
            return ['count', '('] + self.nodeset(d - 1) + [')']
        if k < .79:
            return ['sum', '('] + self.nodeset(d - 1) + [')']
        if k < .86:
            return [r.choice(['floor', 'ceiling', 'round']), '('] + self.num(d - 1) + [')']
        if k < .94:
            return ['number', '('] + (self.any(d - 1) if r.random() < .9 else []) + [')']
        if k < .98:
            return ['string-length', '('] + (self.str(d - 1) if r.random() < .8 else []) + [')']
        nv = [v for v, t in self.vars if t == 'N']
        return ['$' + r.choice(nv)] if nv else ['1', 'div', '0']

    def lit(self):
        w = self.r.choice(WORDS + NONASCII if self.wide else WORDS)
        if self.r.random() < .1:
            w = self.r.choice(['', "it's", 'say "hi"', '(', '<', '|', ' or ', '{', 'a  b \t c ', ' ', 'abcabc', 'ABC', '12345'])
        q = '"' if "'" in w else "'" if '"' in w else self.r.choice('"\'')
        return q + w + q

    def str(self, d):
        r = self.r
        k = r.random()
        if d <= 0 or k < .22:
            return [self.lit()]
        if k < .3:
            return ['string', '('] + (self.any(d - 1) if r.random() < .85 else []) + [')']
        if k < .38:
            t = ['concat', '('] + self.any(d - 1) + [','] + self.any(d - 1)
            while r.random() < .3:
                t = t + [','] + self.any(d - 1)
            return t + [')']
        if k < .5:
            return [r.choice(['substring-before', 'substring-after']), '('] + self.str(d - 1) + [','] + self.shortstr(d - 1) + [')']
        if k < .68:
            t = ['substring', '('] + self.str(d - 1) + [','] + self.posnum(d - 1)
            if r.random() < .6:
                t = t + [','] + self.posnum(d - 1)
            return t + [')']
        if k < .76:
            return ['normalize-space', '('] + (self.any(d - 1) if r.random() < .8 else []) + [')']
        if k < .85:
            return ['translate', '('] + self.str(d - 1) + [','] + \
                [r.choice(["'abc'", "'123'", "''", "'aab'", "'xyz-. '"])] + [','] + \
                [r.choice(["'ABC'", "'1'", "''", "'xxyyzz'", "'-'"])] + [')']
        if k < .95:
            return [r.choice(['local-name', 'name', 'namespace-uri']), '('] + (self.nodeset(d - 1) if r.random() < .8 else []) + [')']
        nv = [v for v, t in self.vars if t == 'S']
        return ['$' + r.choice(nv)] if nv else [self.lit()]

    def shortstr(self, d):
        return [self.r.choice(["'a'", "'1'", "''", "'bc'", '" "', "'x'"])] if self.r.random() < .7 else self.str(d)

    def posnum(self, d):
        k = self.r.random()
        if k < .5:
            return [self.r.choice(['1', '2', '3', '0', '1.5', '2.6', '2.5', '10', '4'])]
        if k < .65:
            return ['-', self.r.choice(['1', '0', '42', '0.5', '3'])]
        if k < .75:
            return ['1', 'div', '0']
        if k < .8:
            return ['-', '1', 'div', '0']
        if k < .87:
            return ['0', 'div', '0']
        if k < .9:
            return ['99999999999']
        return self.num(d)

    def bool(self, d):
        r = self.r
        k = r.random()
        if d <= 0 or k < .12:
            return [r.choice(['true', 'false']), '(', ')']
        if k < .5:
            return self.sub(self.any, d) + [r.choice(('=', '!=', '<', '<=', '>', '>='))] + self.sub(self.any, d)
        if k < .66:
            return self.sub(self.any, d) + [r.choice(('and', 'or'))] + self.sub(self.any, d)
        if k < .76:
            return ['not', '('] + self.any(d - 1) + [')']
        if k < .83:
            return ['boolean', '('] + self.any(d - 1) + [')']
        if k < .93:
            return [r.choice(['contains', 'starts-with']), '('] + self.str(d - 1) + [','] + self.shortstr(d - 1) + [')']
        nv = [v for v, t in self.vars if t == 'B']
        return ['$' + r.choice(nv)] if nv else ['true', '(', ')']

    def sub(self, f, d):
        t = f(d - 1)
        if t[-1] == '/' or self.r.random() < .4:
            return ['('] + t + [')']
        return t

    def any(self, d):
        k = self.r.random()
        if k < .35:
            t = self.nodeset(d)
            return ['.'] if t == ['/'] else t
        if k < .6:
            return self.num(d)
        if k < .82:
            return self.str(d)
        return self.bool(d)

    # patterns
    def patstep(self, d):
        k = self.r.random()
        if k < .55:
            t = self.nodetest()
        elif k < .65:
            t = ['child', '::'] + self.nodetest()
        elif k < .85:
            t = ['@'] + self.nodetest('attribute')
        else:
            t = ['attribute', '::'] + self.nodetest('attribute')
        while self.r.random() < (.3 if d > 0 else 0):
            t = t + ['['] + self.pred(d - 1) + [']']
        return t

    def locpattern(self, d):
        r = self.r
        k = r.random()
        if k < .06:
            return ['/']
        t = [] if k < .65 else ['/'] if k < .85 else ['//']
        t = t + self.patstep(d)
        for _ in range(r.choice((0, 0, 0, 1, 1, 2, 3))):
            t = t + [r.choice(('/', '/', '//'))] + self.patstep(d)
        return t

    def pattern(self, d):
        t = self.locpattern(d)
        while self.r.random() < .25:
            t = t + ['|'] + self.locpattern(d)
        return t


# ---------------------------------------------------------------- helpers
def fnum(s):
    return math.nan if s == 'nan' else float(s)


def same_num(a, b):
    if a != a or b != b:
        return a != a and b != b
    return a == b and math.copysign(1, a) == math.copysign(1, b)


def nsid(n):
    return '%s=%s' % (n.id, n.value) if n.kind == 'ns' else n.id


def reverse_attr_order(root):
    """the same tree with the implementation-defined orders reversed"""
    for n in M.all_nodes(root, ns=False, attrs=False):
        if n.kind == 'elem':
            k = len(n.attrs)
            n.attrs.reverse()
            for i, a in enumerate(n.attrs):
                a.order = (n.order[0], 2, i)
            ns = n.nsnodes()
            ns.reverse()
            for i, a in enumerate(ns):
                a.order = (n.order[0], 1, i)


def snapshot(v):
    if isinstance(v, M.NS):
        return ('NS', frozenset(id(n) for n in v), M.to_str(v))
    return (type(v).__name__, repr(v))


class World:
    """a document and contexts shared by the expressions of one case"""

    def __init__(self, rng, hostile=False, wide=False, frag=False, big=False):
        while True:
            self.xml = DocGen(rng, hostile, big, wide).doc()
            try:
                self.root = M.parse_xml(self.xml, 'n')
                break
            except Exception as ex:
                if 'unbound' not in str(ex):
                    raise
        self.split = rng.random() < .3
        self.frag = frag
        if frag:
            de = [c for c in self.root.children if c.kind == 'elem'][0]
            f = M.Node('root')
            # namespace declarations of the lost parent no longer apply to namespace nodes
            for c in de.children:
                c.parent = f
                f.children.append(c)
            self.root = f
            M.number_tree(f, 'n')
        self.nodes = M.all_nodes(self.root)
        self.vars = {}
        self.varlines = []

    def lines(self):
        ls = [('frag' if self.frag else 'doc', 'n', self.xml) + (('split',) if self.split else ())]
        for p, u in NSMAP.items():
            ls.append(('ns', p, u))
        return ls + self.varlines

    def add_vars(self, rng):
        vals = [('n', 1.0), ('m', rng.choice([0.0, -1.5, math.nan, math.inf, 3.0])), ('s', rng.choice(WORDS)),
                ('t', ''), ('b', True), ('f', False)]
        for k, v in vals:
            t = 'B' if isinstance(v, bool) else 'N' if isinstance(v, float) else 'S'
            self.vars[('', k)] = v
            self.varlines.append(('var', '|' + k, t, ('1' if v else '0') if t == 'B' else repr(v) if t == 'N' else v))
        tree = [n for n in self.nodes if n.kind != 'ns']
        k = rng.randint(0, 5)
        pick = M.nodeset(rng.sample(tree, min(k, len(tree))))
        self.vars[('', 'ns')] = pick
        self.varlines.append(('var', '|ns', 'NS', ' '.join(n.id for n in pick)))
        self.vars[('urn:p', 'v')] = 'qualified'
        self.varlines.append(('var', 'urn:p|v', 'S', 'qualified'))
        return [('n', 'N'), ('m', 'N'), ('s', 'S'), ('t', 'S'), ('b', 'B'), ('f', 'B'), ('ns', 'NS'), ('p:v', 'S')]

    def ctx(self, n):
        return M.Ctx(n, -1, -1, self.vars, {}, NSMAP)

    def eval(self, ast, n):
        """value, or None when it depends on an implementation-defined order; raises XPathError"""
        try:
            v1 = ('ok', M.evaluate(ast, self.ctx(n)))
            s1 = snapshot(v1[1])
        except M.XPathError as ex:
            v1 = s1 = ('err', str(ex))
        reverse_attr_order(self.root)
        try:
            try:
                s2 = snapshot(M.evaluate(ast, self.ctx(n)))
            except M.XPathError as ex:
                s2 = ('err', str(ex))
        finally:
            reverse_attr_order(self.root)
        if s1 != s2:
            return None
        if v1[0] == 'err':
            raise M.XPathError(v1[1])
        return v1[1]


def check_order(ids, index):
    """[] or a complaint: ids must be in document order and distinct (attribute/namespace order is free)"""
    last = None
    seen = set()
    for i in ids:
        n = index.get(i)
        if n is None:
            return 'not a node of the XPath model: ' + i
        if i in seen:
            return 'twice: ' + i
        seen.add(i)
        k = n.order[:2]
        if last is not None and k < last:
            return 'out of order: ' + i
        last = k
    return ''


def compare_value(ev, want, index):
    """complaint or ''.  ev: ['v', type, bool, num, str, ...]"""
    if ev[1] == 'X':
        return 'raised %s' % ev[2:]
    t = ev[1]
    wt = 'NS' if isinstance(want, M.NS) else 'B' if isinstance(want, bool) else 'N' if isinstance(want, float) else 'S'
    if t != wt:
        return 'type %s instead of %s' % (t, wt)
    if (ev[2] == '1') != M.to_bool(want):
        return 'boolean value %s, expected %s' % (ev[2], M.to_bool(want))
    if not same_num(fnum(ev[3]), M.to_num(want)):
        return 'number value %s, expected %r' % (ev[3], M.to_num(want))
    if ev[4] != M.to_str(want):
        return 'string value %r, expected %r' % (ev[4], M.to_str(want))
    if t == 'NS':
        got = ev[6].split()
        wi = {nsid(n) for n in want}
        if set(got) != wi:
            return 'selected %s, expected %s' % (sorted(got), sorted(wi))
        if len(got) != len(wi):
            return 'duplicates in %s' % got
        doc = ev[7].split()
        c = check_order(doc, index)
        if c:
            return 'document order: ' + c
        if ev[5] in 'fr':
            c = check_order(got if ev[5] == 'f' else got[::-1], index)
            if c:
                return 'delivered order (%s): %s' % (ev[5], c)
        if want and ev[8] != doc[0]:
            return 'top() is %s' % ev[8]
    return ''


def kinds(s):
    return set(re.findall(r'[a-z]+(?:-[a-z]+)*(?=\s*::)', s))


def eval_check(pid, level, rule, assumptions, quick, thorough, make, wide=False, mode='expr'):
    chk = Check(pid, level, rule, assumptions)
    exe = vlib.build([dict(name='xpath-expat', srcs=['xpath.cpp'], backend='expat')])['xpath-expat']
    rng = chk.rng
    cases = []
    for i in range(n_cases(quick, thorough)):
        w = World(rng, hostile=rng.random() < .3, frag=rng.random() < .15, big=rng.random() < .2)
        vs = w.add_vars(rng)
        lines = w.lines()
        meta = []
        g = ExprGen(rng, hostile='<div' in w.xml or rng.random() < .15, vars=vs)
        for _ in range(12):
            s = g.join(make(g, rng))
            ctxs = rng.sample(w.nodes, min(len(w.nodes), 6)) + [w.root]
            lines.append(('ev', 'expr', s) + tuple(n.id for n in ctxs))
            lines.append(('as', 'expr', s, ctxs[0].id))
            meta.append((s, ctxs))
        cases.append(Case('%s-%d' % (pid, i), lines, meta=(w, meta)))
    res = vlib.run(exe, cases, leak=8)
    for c in cases:
        evs = res[c.id]
        if isinstance(evs, vlib.Crash):
            chk.violation('crash: %s' % evs, c.text())
            continue
        w, meta = c.meta
        index = {nsid(n): n for n in w.nodes}
        it = iter(evs)
        d = next(it)
        if d[0] != 'doc' or d[1] == 'E':
            chk.violation('document refused %s' % d, c.text())
            continue
        ntree = len([n for n in w.nodes if n.kind not in ('ns', 'attr')])
        if int(d[1]) != ntree:
            chk.violation('document has %s nodes, expected %d' % (d[1], ntree), c.text())
            continue
        for s, ctxs in meta:
            ast = M.parse(s)
            got = []
            for ev in it:
                if ev[0] == 'a':
                    a = ev
                    break
                got.append(ev)
            if len(got) == 1 and got[0][1] == 'X' and len(ctxs) > 1:
                got = got * len(ctxs)      # refused at compile time
            for n, ev in zip(ctxs, got):
                try:
                    want = w.eval(ast, n)
                except M.XPathError as ex:
                    if ev[1] != 'X' or ev[2] == 'FOREIGN':
                        chk.violation('%r at %s: should raise (%s), got %s' % (s, n.id, ex, ev), c.text())
                    else:
                        chk.ok((s, 'error'))
                        chk.count('required errors')
                    continue
                if want is None:
                    chk.count('order-dependent')
                    continue
                bad = compare_value(ev, want, index)
                if bad:
                    chk.violation('%r at %s (%s): %s' % (s, n.id, n.kind, bad), c.text())
                else:
                    t = ev[1]
                    chk.ok((s, t, ev[4]))
                    chk.count({'NS': 'node-set results', 'N': 'number results', 'S': 'string results', 'B': 'boolean results'}[t])
                    if t == 'NS':
                        chk.count('nodes selected', len(want))
                        for k in kinds(s):
                            chk.count('axis ' + k)
            if a[1] not in ('', 'X'):
                chk.violation('%r: typed evaluation differs: %s' % (s, a[1]), c.text())
            elif a[1] == '':
                chk.count('typed entry points agree')
    for m in cases[0].meta[1]:
        chk.sample(m[0])
    chk.finish()


def check_X01():
    eval_check('X01', 'exploration',
               'real evaluation of random location paths on random trees compared node by node with an independent model; ASan/UBSan/LSan',
               ['relative order of the attributes (and of the namespace nodes) of one element is implementation-defined'],
               260, 6000, lambda g, r: g.nodeset(3))


def check_X02():
    def make(g, r):
        k = r.random()
        return g.num(4) if k < .3 else g.str(4) if k < .6 else g.bool(4) if k < .85 else g.any(4)
    eval_check('X02', 'exploration',
               'real evaluation of random expressions compared with an independent model of the XPath 1.0 core; ASan/UBSan/LSan',
               ['characters are the units of the chosen string type, so non-ASCII text is exercised with wide strings in G01'],
               260, 6000, make)


# ---------------------------------------------------------------- X03: language
MUTCHARS = list('()[]{}/@.:|*+-=<>!$\'",0aA_ \t\n#&%;?\\^~`') + ['::', '//', '..', ' div ', ' mod ', ' and ', ' or ', 'text()',
                                                                    'node()', '1.', '.5', 'é', '٣', '\u00d7', '\u3000', 'p:', ':a', 'child::', '@*']


def mutate(r, s):
    for _ in range(r.choice((1, 1, 1, 2, 3))):
        k = r.random()
        i = r.randint(0, len(s))
        if k < .35 and s:
            j = min(len(s), i + r.choice((1, 1, 1, 2, 4)))
            s = s[:i] + s[j:]
        elif k < .75:
            s = s[:i] + r.choice(MUTCHARS) + s[i:]
        elif k < .9 and s:
            i = min(i, len(s) - 1)
            s = s[:i] + r.choice(MUTCHARS) + s[i + 1:]
        else:
            j = r.randint(0, len(s))
            a, b = min(i, j), max(i, j)
            s = s[:b] + s[a:b] + s[b:]
    return s[:400]


def legal(mode, s):
    """None when well-formed, else the reason"""
    try:
        if mode == 'expr':
            asts = [M.parse(s)]
        elif mode == 'path':
            p = M.Parser(s)
            asts = [p.whole(p.location)]
        elif mode == 'avt':
            asts = [x for x in M.parse_avt(s) if not isinstance(x, str)]
        else:
            asts = M.parse_pattern(s)
        for a in asts:
            M.static_check(a, NSMAP)
    except M.XPathError as ex:
        return str(ex) or 'error'
    return None


def avt_text(r, g):
    out = ''
    for _ in range(r.randint(1, 4)):
        k = r.random()
        if k < .3:
            out += r.choice(['abc', ' ', '{{', '}}', 'x"y', "it's", '<', '{{}}', '}}{{'])
        else:
            out += '{' + g.join(g.any(2)) + '}'
    return out


def check_X03():
    chk = Check('X03', 'exploration',
                'grammar-directed and mutated strings compiled by the real parser; acceptance compared with an independent recogniser; ASan/UBSan/LSan',
                ['an empty attribute value template is refused by design'])
    exe = vlib.build([dict(name='xpath-expat', srcs=['xpath.cpp'], backend='expat')])['xpath-expat']
    r = chk.rng
    cases = []
    XML = '<root><a/><a b="1"/>t</root>'
    for i in range(n_cases(260, 8000)):
        lines = [('doc', 'n', XML)] + [('ns', p, u) for p, u in NSMAP.items()]
        meta = []
        g = ExprGen(r, hostile=r.random() < .5, vars=[('n', 'N'), ('s', 'S'), ('b', 'B'), ('ns', 'NS'), ('p:v', 'S')])
        for _ in range(24):
            mode = r.choice(('expr', 'expr', 'path', 'match', 'avt'))
            s = g.join(g.any(3)) if mode == 'expr' else g.join(g.relpath(2) if r.random() < .6 else g.nodeset(2)) if mode == 'path' else \
                g.join(g.pattern(2)) if mode == 'match' else avt_text(r, g)
            if r.random() < .55:
                s = mutate(r, s)
            if mode == 'avt' and not s:
                continue
            lines.append(('comp', mode, s))
            meta.append((mode, s))
        lines.append(('ev', 'expr', 'count(//a[@b = "1"]) + 41', 'n0'))
        cases.append(Case('X03-%d' % i, lines, meta=meta))
    res = vlib.run(exe, cases, leak=8)
    for c in cases:
        evs = res[c.id]
        if isinstance(evs, vlib.Crash):
            chk.violation('crash: %s' % evs, c.text())
            continue
        if len(evs) != len(c.meta) + 2:
            chk.violation('%d events, expected %d' % (len(evs), len(c.meta) + 2), c.text())
            continue
        for (mode, s), ev in zip(c.meta, evs[1:]):
            try:
                why = legal(mode, s)
            except M.Unsure:
                chk.count('tokenisation left open')
                if ev[1] != 'ok' and ev[2] == 'FOREIGN':
                    chk.violation('%s %r raised something other than the library\'s exceptions: %s' % (mode, s, ev[3:]), c.text())
                continue
            if why is None:
                if ev[1] != 'ok':
                    chk.violation('%s %r is well-formed but was refused: %s' % (mode, s, ev[2:]), c.text())
                else:
                    chk.ok((mode, s))
                    chk.count('accepted ' + mode)
            else:
                if ev[1] == 'ok':
                    chk.violation('%s %r was accepted, but: %s' % (mode, s, why), c.text())
                elif ev[2] == 'FOREIGN':
                    chk.violation('%s %r raised something other than the library\'s exceptions: %s' % (mode, s, ev[3:]), c.text())
                else:
                    chk.ok((mode, s))
                    chk.count('refused ' + mode)
                    chk.count('refused as ' + ev[2])
        if evs[-1][:2] != ['v', 'N'] or evs[-1][4] != '42':
            chk.violation('after those strings the XPath object no longer evaluates correctly: %s' % evs[-1], c.text())
    chk.sample(cases[0].meta)
    chk.finish()


# ---------------------------------------------------------------- X04: match patterns
def check_X04():
    chk = Check('X04', 'exploration',
                'every node of random trees matched against random patterns; the matched set and the default priorities compared with an '
                'independent model of XSLT 1.0 section 5.2; ASan/UBSan/LSan',
                ['relative order of the attributes of one element is implementation-defined',
                 'id() patterns are not implemented by the library; key() patterns are exercised through T03'])
    exe = vlib.build([dict(name='xpath-expat', srcs=['xpath.cpp'], backend='expat')])['xpath-expat']
    r = chk.rng
    cases = []
    for i in range(n_cases(260, 6000)):
        w = World(r, hostile=r.random() < .3, frag=r.random() < .15, big=r.random() < .2)
        vs = w.add_vars(r)
        lines = w.lines()
        meta = []
        g = ExprGen(r, hostile='<div' in w.xml or r.random() < .15, vars=vs)
        for _ in range(14):
            s = g.join(g.pattern(2))
            lines.append(('match', s))
            meta.append(s)
        cases.append(Case('X04-%d' % i, lines, meta=(w, meta)))
    res = vlib.run(exe, cases, leak=8)
    for c in cases:
        evs = res[c.id]
        if isinstance(evs, vlib.Crash):
            chk.violation('crash: %s' % evs, c.text())
            continue
        w, meta = c.meta
        it = iter(evs[1:])
        by = {id(n): nsid(n).split('=')[0] for n in w.nodes}
        for s in meta:
            alts = M.parse_pattern(s)
            try:
                for a in alts:
                    M.static_check(a, NSMAP)
            except M.XPathError as ex:
                ev = next(it)
                if ev[1] != 'X':
                    raise vlib.HarnessError('pattern generator: %r %s %s' % (s, ex, ev))
                continue
            first = True
            for a in alts:
                ev = next(it)
                if first and ev[1] == 'X' and ev[2] in ('Syntax', 'Unsupported'):
                    chk.violation('pattern %r refused: %s' % (s, ev[2:]), c.text())
                    break
                first = False
                try:
                    want = M.pattern_set(a, w.root, w.ctx(w.root))
                    reverse_attr_order(w.root)
                    try:
                        w2 = M.pattern_set(a, w.root, w.ctx(w.root))
                    finally:
                        reverse_attr_order(w.root)
                except M.XPathError as ex:
                    chk.count('predicate in error')
                    continue
                if want != w2:
                    chk.count('order-dependent')
                    continue
                if ev[1] == 'X':
                    chk.violation('pattern %r raised %s' % (s, ev[2:]), c.text())
                    continue
                wp = M.default_priority(a)
                if float(ev[1]) != wp:
                    chk.violation('pattern %r (alternative %d): default priority %s, expected %s' % (s, alts.index(a), ev[1], wp), c.text())
                got = set(ev[2].split())
                wi = {by[x] for x in want}
                if got != wi:
                    chk.violation('pattern %r (alternative %d): matches %s, expected %s' % (s, alts.index(a), sorted(got), sorted(wi)), c.text())
                else:
                    chk.ok((s, tuple(sorted(wi))))
                    chk.count('alternatives')
                    chk.count('nodes tried', len(w.nodes))
                    chk.count('nodes matched', len(wi))
                    chk.count('priority %s' % wp)
    chk.sample(cases[0].meta[1])
    chk.finish()
