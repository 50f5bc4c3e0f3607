"""An independent XPath 1.0 implementation: tree, lexer, parser, evaluator.

Written from the recommendation; shares nothing with the code under test.
Strings are Python strings (a character is a code point).
"""
import math
import re
from xmlchars import is_name_start, is_name_char

XML_NS = 'http://www.w3.org/XML/1998/namespace'
XMLNS_NS = 'http://www.w3.org/2000/xmlns/'


NARROW = False   # string-length counts the units of a narrow string (set by checks on std::string)


class XPathError(Exception):
    """static or dynamic error the recommendation requires"""


class Syntax(XPathError):
    pass


class Unsure(Exception):
    """the outcome is implementation defined, or the model does not follow"""


# ---------------------------------------------------------------- tree
class Node:
    __slots__ = ('kind', 'prefix', 'local', 'uri', 'value', 'parent', 'children',
                 'attrs', 'nsdecl', 'order', 'id', '_ns', 'doc', 'extra')

    def __init__(self, kind, local=None, uri='', prefix='', value=''):
        self.kind = kind
        self.local, self.uri, self.prefix, self.value = local, uri, prefix, value
        self.parent = None
        self.children = []
        self.attrs = []
        self.nsdecl = {}
        self.order = None
        self.id = None
        self._ns = None
        self.doc = None
        self.extra = None

    @property
    def qname(self):
        return self.prefix + ':' + self.local if self.prefix else (self.local or '')

    def add(self, n):
        if n.kind == 'text':
            if n.value == '':
                return None
            if self.children and self.children[-1].kind == 'text':
                self.children[-1].value += n.value
                return self.children[-1]
        n.parent = self
        self.children.append(n)
        return n

    def inscope(self):
        m = {'xml': XML_NS}
        chain = []
        n = self
        while n is not None and n.kind == 'elem':
            chain.append(n)
            n = n.parent
        for e in reversed(chain):
            for p, u in e.nsdecl.items():
                if u == '':
                    m.pop(p, None)
                else:
                    m[p] = u
        return m

    def nsnodes(self):
        if self.kind != 'elem':
            return []
        if self._ns is None:
            self._ns = []
            for i, (p, u) in enumerate(sorted(self.inscope().items())):
                n = Node('ns', p, '', '', u)
                n.parent = self
                n.order = (self.order[0], 1, i)
                n.id = '%s#%s' % (self.id, p)
                n.doc = self.doc
                self._ns.append(n)
        return self._ns

    def string(self):
        if self.kind in ('root', 'elem'):
            out = []
            st = [self]
            while st:
                x = st.pop()
                if x.kind == 'text':
                    out.append(x.value)
                else:
                    st.extend(reversed(x.children))
            return ''.join(out)
        return self.value

    def root(self):
        n = self
        while n.parent is not None:
            n = n.parent
        return n

    def __repr__(self):
        return '<%s %s %s>' % (self.kind, self.id, self.qname)


def number_tree(root, prefix='', base=0):
    """assign document order and ids: 0 root, then one per tree node in preorder"""
    k = [0]

    def go(n):
        n.order = (base + k[0], 0, 0)
        n.id = '%s%d' % (prefix, k[0])
        n.doc = root
        n._ns = None
        k[0] += 1
        for i, a in enumerate(n.attrs):
            a.order = (n.order[0], 2, i)
            a.id = '%s@%s' % (n.id, a.qname)
            a.doc = root
        for c in n.children:
            go(c)
    go(root)
    return k[0]


def all_nodes(root, ns=True, attrs=True):
    out = []
    st = [root]
    while st:
        n = st.pop()
        out.append(n)
        if n.kind == 'elem':
            if ns:
                out.extend(n.nsnodes())
            if attrs:
                out.extend(n.attrs)
        st.extend(reversed(n.children))
    return out


def parse_xml(text, prefix='', base=0, bytes_=None):
    """build a tree with Python's own expat binding"""
    import pyexpat
    p = pyexpat.ParserCreate()
    p.buffer_text = False
    p.ordered_attributes = True
    root = Node('root')
    cur = [root]
    scopes = [{'xml': XML_NS}]
    dtd = [0]

    def split(q):
        if ':' in q:
            a, b = q.split(':', 1)
            return a, b
        return '', q

    def start(name, atts):
        m = dict(scopes[-1])
        decl = {}
        pairs = list(zip(atts[::2], atts[1::2]))
        for k, v in pairs:
            if k == 'xmlns':
                decl[''] = v
                m[''] = v
            elif k.startswith('xmlns:'):
                decl[k[6:]] = v
                m[k[6:]] = v
        scopes.append(m)
        pf, ln = split(name)
        e = Node('elem', ln, m.get(pf, '') if pf or True else '', pf)
        if pf and pf not in m:
            raise ValueError('unbound prefix ' + pf)
        e.nsdecl = decl
        for k, v in pairs:
            if k == 'xmlns' or k.startswith('xmlns:'):
                continue
            pf, ln = split(k)
            a = Node('attr', ln, m[pf] if pf else '', pf, v)
            a.parent = e
            e.attrs.append(a)
        cur[-1].add(e)
        cur.append(e)

    def end(name):
        cur.pop()
        scopes.pop()

    def chars(s):
        if len(cur) > 1:
            cur[-1].add(Node('text', value=s))

    def comment(s):
        if not dtd[0]:
            cur[-1].add(Node('comment', value=s))

    def pi(t, d):
        if not dtd[0]:
            cur[-1].add(Node('pi', t, '', '', d))

    p.StartElementHandler, p.EndElementHandler = start, end
    p.CharacterDataHandler, p.CommentHandler, p.ProcessingInstructionHandler = chars, comment, pi
    p.StartDoctypeDeclHandler = lambda *a: dtd.__setitem__(0, 1)
    p.EndDoctypeDeclHandler = lambda *a: dtd.__setitem__(0, 0)
    p.Parse(bytes_ if bytes_ is not None else text.encode('utf-8'), True)
    number_tree(root, prefix, base)
    return root


# ---------------------------------------------------------------- lexer
AXES = ('ancestor', 'ancestor-or-self', 'attribute', 'child', 'descendant', 'descendant-or-self',
        'following', 'following-sibling', 'namespace', 'parent', 'preceding', 'preceding-sibling', 'self')
NODETYPES = ('comment', 'text', 'processing-instruction', 'node')
WS = ' \t\r\n'


def ncname_at(s, i):
    if i >= len(s) or s[i] == ':' or not is_name_start(s[i]):
        return i
    j = i + 1
    while j < len(s) and s[j] != ':' and is_name_char(s[j]):
        j += 1
    return j


def tokens(s):
    """[(kind, value)], following section 3.7's disambiguation rules"""
    out = []
    i, n = 0, len(s)

    def prev_allows_operator():
        if not out:
            return False
        k, v = out[-1]
        return not (k in ('@', '::', '(', '[', ',') or k == 'op')

    while i < n:
        c = s[i]
        if c in WS:
            i += 1
            continue
        if c in '"\'':
            j = s.find(c, i + 1)
            if j < 0:
                raise Syntax('unterminated literal')
            out.append(('lit', s[i + 1:j]))
            i = j + 1
            continue
        if c.isascii() and c.isdigit() or (c == '.' and i + 1 < n and s[i + 1] in '0123456789'):
            m = re.compile(r'[0-9]+(\.[0-9]*)?|\.[0-9]+').match(s, i)
            out.append(('num', m.group()))
            i = m.end()
            continue
        two = s[i:i + 2]
        if two in ('..', '::'):
            out.append((two, two))
            i += 2
            continue
        if two in ('//', '!=', '<=', '>='):
            out.append(('op', two))
            i += 2
            continue
        if c in '()[].@,':
            out.append((c, c))
            i += 1
            continue
        if c == '*':
            if prev_allows_operator():
                out.append(('op', '*'))
            else:
                out.append(('name', '*'))
            i += 1
            continue
        if c in '/|+-=<>':
            out.append(('op', c))
            i += 1
            continue
        if c == '$':
            j = ncname_at(s, i + 1)
            if j == i + 1:
                raise Syntax('bad variable')
            q = s[i + 1:j]
            if j < n and s[j] == ':' and ncname_at(s, j + 1) > j + 1:
                k = ncname_at(s, j + 1)
                q += ':' + s[j + 1:k]
                j = k
            out.append(('var', q))
            i = j
            continue
        j = ncname_at(s, i)
        if j > i:
            w = s[i:j]
            if prev_allows_operator():
                if w in ('and', 'or', 'mod', 'div'):
                    out.append(('op', w))
                    i = j
                    continue
                if w.startswith(('and', 'or', 'mod', 'div')):
                    raise Unsure('6div2')
                raise Syntax('operator name expected, got ' + w)
            # name test / function / axis / node type
            if s[j:j + 1] == ':' and s[j:j + 2] != '::':
                if s[j + 1:j + 2] == '*':
                    out.append(('name', w + ':*'))
                    i = j + 2
                    continue
                k = ncname_at(s, j + 1)
                if k == j + 1:
                    raise Syntax('bad qname')
                w += s[j:k]
                j = k
            k = j
            while k < n and s[k] in WS:
                k += 1
            if s[k:k + 1] == '(':
                if w in NODETYPES:
                    out.append(('ntype', w))
                else:
                    out.append(('func', w))
            elif s[k:k + 2] == '::':
                if w not in AXES:
                    raise Syntax('unknown axis ' + w)
                out.append(('axis', w))
            else:
                out.append(('name', w))
            i = j
            continue
        raise Syntax('bad character %r' % c)
    return out


# ---------------------------------------------------------------- parser
class Parser:
    def __init__(self, s):
        self.t = tokens(s)
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ('eof', '')

    def isop(self, *ops):
        k, v = self.peek()
        return k == 'op' and v in ops

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def expect(self, kind):
        if self.peek()[0] != kind:
            raise Syntax('expected %s got %r' % (kind, self.peek()))
        return self.next()

    def whole(self, f):
        r = f()
        if self.peek()[0] != 'eof':
            raise Syntax('trailing %r' % (self.peek(),))
        return r

    def binary(self, sub, *ops):
        l = sub()
        while self.isop(*ops):
            o = self.next()[1]
            l = ('bin', o, l, sub())
        return l

    def expr(self):
        return self.binary(self.and_, 'or')

    def and_(self):
        return self.binary(self.eq, 'and')

    def eq(self):
        return self.binary(self.rel, '=', '!=')

    def rel(self):
        return self.binary(self.add, '<', '>', '<=', '>=')

    def add(self):
        return self.binary(self.mul, '+', '-')

    def mul(self):
        return self.binary(self.unary, '*', 'div', 'mod')

    def unary(self):
        if self.isop('-'):
            self.next()
            return ('neg', self.unary())
        return self.union()

    def union(self):
        return self.binary(self.path, '|')

    def starts_primary(self):
        return self.peek()[0] in ('var', '(', 'lit', 'num', 'func')

    def path(self):
        if self.starts_primary():
            f = self.primary()
            preds = self.predicates()
            if preds:
                f = ('filter', f, preds)
            if self.isop('/', '//'):
                steps = []
                if self.next()[1] == '//':
                    steps.append(('descendant-or-self', ('ntype', 'node', None), []))
                steps += self.relative()
                return ('path', f, steps)
            return f
        return self.location()

    def location(self):
        if self.isop('/'):
            self.next()
            if self.peek()[0] in ('axis', '@', 'name', 'ntype', '.', '..'):
                return ('path', ('root',), self.relative())
            return ('path', ('root',), [])
        if self.isop('//'):
            self.next()
            return ('path', ('root',), [('descendant-or-self', ('ntype', 'node', None), [])] + self.relative())
        return ('path', ('context',), self.relative())

    def relative(self):
        steps = [self.step()]
        while self.isop('/', '//'):
            if self.next()[1] == '//':
                steps.append(('descendant-or-self', ('ntype', 'node', None), []))
            steps.append(self.step())
        return steps

    def step(self):
        k, v = self.peek()
        if k == '.':
            self.next()
            return ('self', ('ntype', 'node', None), [])
        if k == '..':
            self.next()
            return ('parent', ('ntype', 'node', None), [])
        axis = 'child'
        if k == 'axis':
            axis = v
            self.next()
            self.expect('::')
        elif k == '@':
            axis = 'attribute'
            self.next()
        return (axis, self.nodetest(), self.predicates())

    def nodetest(self):
        k, v = self.peek()
        if k == 'name':
            self.next()
            return ('name', v)
        if k == 'ntype':
            self.next()
            self.expect('(')
            arg = None
            if v == 'processing-instruction' and self.peek()[0] == 'lit':
                arg = self.next()[1]
            self.expect(')')
            return ('ntype', v, arg)
        raise Syntax('node test expected, got %r' % (self.peek(),))

    def predicates(self):
        out = []
        while self.peek()[0] == '[':
            self.next()
            out.append(self.expr())
            self.expect(']')
        return out

    def primary(self):
        k, v = self.next()
        if k == 'var':
            return ('var', v)
        if k == '(':
            e = self.expr()
            self.expect(')')
            return ('paren', e)
        if k == 'lit':
            return ('lit', v)
        if k == 'num':
            return ('num', float(v))
        if k == 'func':
            self.expect('(')
            args = []
            if self.peek()[0] != ')':
                args.append(self.expr())
                while self.peek()[0] == ',':
                    self.next()
                    args.append(self.expr())
            self.expect(')')
            return ('call', v, args)
        raise Syntax('unexpected %r' % ((k, v),))

    # XSLT patterns, section 5.2
    def pattern(self):
        alts = [self.locpattern()]
        while self.isop('|'):
            self.next()
            alts.append(self.locpattern())
        return alts

    def locpattern(self):
        """(start, [(connector, step)]) start: 'root','anywhere', ('call',..)"""
        k, v = self.peek()
        if self.isop('/'):
            self.next()
            if self.peek()[0] in ('axis', '@', 'name', 'ntype'):
                return ('pat', ('root',), self.relpattern('/'))
            return ('pat', ('root',), [])
        if self.isop('//'):
            self.next()
            return ('pat', ('root',), self.relpattern('//'))
        if k == 'func':
            if v not in ('id', 'key'):
                raise Syntax('function in pattern')
            self.next()
            self.expect('(')
            args = [('lit', self.expect('lit')[1])]
            if v == 'key':
                self.expect(',')
                args.append(('lit', self.expect('lit')[1]))
            self.expect(')')
            start = ('call', v, args)
            if self.isop('/', '//'):
                return ('pat', start, self.relpattern(self.next()[1]))
            return ('pat', start, [])
        return ('pat', ('context',), self.relpattern('/'))

    def relpattern(self, conn):
        out = [(conn, self.patstep())]
        while self.isop('/', '//'):
            c = self.next()[1]
            out.append((c, self.patstep()))
        return out

    def patstep(self):
        k, v = self.peek()
        axis = 'child'
        if k == 'axis':
            if v not in ('child', 'attribute'):
                raise Syntax('axis in pattern')
            axis = v
            self.next()
            self.expect('::')
        elif k == '@':
            axis = 'attribute'
            self.next()
        return (axis, self.nodetest(), self.predicates())


def parse(s):
    p = Parser(s)
    return p.whole(p.expr)


def parse_pattern(s):
    p = Parser(s)
    return p.whole(p.pattern)


def parse_avt(s):
    """list of str | expression; raises Syntax"""
    out = []
    i, n = 0, len(s)
    lit = ''
    while i < n:
        c = s[i]
        if c == '{':
            if s[i + 1:i + 2] == '{':
                lit += '{'
                i += 2
                continue
            j = i + 1
            q = None
            while j < n:
                d = s[j]
                if q:
                    if d == q:
                        q = None
                elif d in '"\'':
                    q = d
                elif d == '}':
                    break
                elif d == '{':
                    raise Syntax('{ inside an expression')
                j += 1
            if j >= n:
                raise Syntax('unclosed {')
            if lit:
                out.append(lit)
                lit = ''
            out.append(parse(s[i + 1:j]))
            i = j + 1
        elif c == '}':
            if s[i + 1:i + 2] != '}':
                raise Syntax('lone }')
            lit += '}'
            i += 2
        else:
            lit += c
            i += 1
    if lit:
        out.append(lit)
    return out


# ---------------------------------------------------------------- values
def num_to_str(x):
    if x != x:
        return 'NaN'
    if x in (math.inf, -math.inf):
        return 'Infinity' if x > 0 else '-Infinity'
    if x == 0:
        return '0'
    if x == int(x) and abs(x) < 1e22:
        r = repr(x)
        if 'e' not in r:
            return str(int(x))
    r = repr(x)
    sign = ''
    if r[0] == '-':
        sign, r = '-', r[1:]
    if 'e' in r:
        m, e = r.split('e')
        e = int(e)
        if '.' in m:
            a, b = m.split('.')
        else:
            a, b = m, ''
        digits = a + b
        point = len(a) + e
        if point <= 0:
            r = '0.' + '0' * (-point) + digits
        elif point >= len(digits):
            r = digits + '0' * (point - len(digits))
        else:
            r = digits[:point] + '.' + digits[point:]
    if '.' in r:
        r = r.rstrip('0').rstrip('.')
    return sign + r


NUMRE = re.compile(r'^[ \t\r\n]*(-?(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+))[ \t\r\n]*$(?!\n)')


def str_to_num(s):
    m = NUMRE.match(s)
    return float(m.group(1)) if m else math.nan


class NS(list):
    """node-set: list in document order without duplicates"""


def nodeset(nodes):
    seen = set()
    out = []
    for n in nodes:
        if id(n) not in seen:
            seen.add(id(n))
            out.append(n)
    out.sort(key=lambda n: n.order)
    return NS(out)


def to_str(v):
    if isinstance(v, NS):
        return v[0].string() if v else ''
    if isinstance(v, bool):
        return 'true' if v else 'false'
    if isinstance(v, float):
        return num_to_str(v)
    if isinstance(v, str):
        return v
    return v.string()            # result tree fragment


def to_num(v):
    if isinstance(v, bool):
        return 1.0 if v else 0.0
    if isinstance(v, float):
        return v
    return str_to_num(to_str(v))


def to_bool(v):
    if isinstance(v, NS):
        return bool(v)
    if isinstance(v, bool):
        return v
    if isinstance(v, float):
        return v == v and v != 0
    if isinstance(v, str):
        return v != ''
    return True                  # result tree fragment


def fdiv(a, b):
    if b == 0:
        if a != a or a == 0:
            return math.nan
        s = math.copysign(1, a) * math.copysign(1, b)
        return math.inf * s
    if math.isinf(a) and math.isinf(b):
        return math.nan
    return a / b


def fmod(a, b):
    if a != a or b != b or math.isinf(a) or b == 0:
        return math.nan
    if math.isinf(b):
        return a
    return math.fmod(a, b)


def xround(x):
    if x != x or math.isinf(x) or x == 0:
        return x
    if -0.5 <= x < 0:
        return -0.0
    f = math.floor(x)
    r = float(f)
    if x - r >= 0.5:
        r += 1.0
    return r


def compare(op, a, b):
    """= != < <= > >= with the node-set rules of 3.4"""
    rel = op not in ('=', '!=')

    def atom(x, y):
        if rel:
            x, y = to_num(x), to_num(y)
        elif isinstance(x, bool) or isinstance(y, bool):
            x, y = to_bool(x), to_bool(y)
        elif isinstance(x, float) or isinstance(y, float):
            x, y = to_num(x), to_num(y)
        else:
            x, y = to_str(x), to_str(y)
        return {'=': x == y, '!=': x != y}[op] if not rel else \
            {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[op]

    def setlike(v):
        return isinstance(v, NS) or isinstance(v, Node)

    def items(v):
        return [n.string() for n in v] if isinstance(v, NS) else [v.string()]

    if isinstance(a, bool) and setlike(b):
        return atom(a, to_bool(b))
    if isinstance(b, bool) and setlike(a):
        return atom(to_bool(a), b)
    if setlike(a) and setlike(b):
        return any(atom(x, y) for x in items(a) for y in items(b))
    if setlike(a):
        return any(atom(x, b) for x in items(a))
    if setlike(b):
        return any(atom(a, y) for y in items(b))
    return atom(a, b)


# ---------------------------------------------------------------- evaluator
class Ctx:
    __slots__ = ('node', 'pos', 'size', 'vars', 'funcs', 'ns', 'current')

    def __init__(self, node, pos=1, size=1, vars=None, funcs=None, ns=None, current=None):
        self.node, self.pos, self.size = node, pos, size
        self.vars = vars if vars is not None else {}
        self.funcs = funcs or {}
        self.ns = ns or {}
        self.current = current or node

    def at(self, node, pos, size):
        return Ctx(node, pos, size, self.vars, self.funcs, self.ns, self.current)


def siblings(n):
    if n.parent is None or n.kind in ('attr', 'ns'):
        return [], 0
    s = n.parent.children
    for i, x in enumerate(s):
        if x is n:
            return s, i


def descendants(n):
    out = []
    st = list(reversed(n.children))
    while st:
        x = st.pop()
        out.append(x)
        st.extend(reversed(x.children))
    return out


def ancestors(n):
    out = []
    n = n.parent
    while n is not None:
        out.append(n)
        n = n.parent
    return out


def axis_nodes(axis, n):
    """in axis (proximity) order"""
    if axis == 'self':
        return [n]
    if axis == 'child':
        return list(n.children)
    if axis == 'parent':
        return [n.parent] if n.parent is not None else []
    if axis == 'ancestor':
        return ancestors(n)
    if axis == 'ancestor-or-self':
        return [n] + ancestors(n)
    if axis == 'attribute':
        return list(n.attrs) if n.kind == 'elem' else []
    if axis == 'namespace':
        return n.nsnodes()
    if axis == 'descendant':
        return descendants(n)
    if axis == 'descendant-or-self':
        return [n] + descendants(n)
    if axis == 'following-sibling':
        s, i = siblings(n)
        return s[i + 1:]
    if axis == 'preceding-sibling':
        s, i = siblings(n)
        return list(reversed(s[:i]))
    if axis == 'following':
        out = []
        if n.kind in ('attr', 'ns'):
            out += descendants(n.parent)
            n = n.parent
        while n is not None:
            s, i = siblings(n)
            for x in s[i + 1:]:
                out.append(x)
                out += descendants(x)
            n = n.parent
        return out
    if axis == 'preceding':
        if n.kind in ('attr', 'ns'):
            n = n.parent
        out = []
        while n is not None:
            s, i = siblings(n)
            for x in reversed(s[:i]):
                out += reversed(descendants(x))
                out.append(x)
            n = n.parent
        return out
    raise AssertionError(axis)


def principal(axis):
    return {'attribute': 'attr', 'namespace': 'ns'}.get(axis, 'elem')


def resolve(q, c):
    if ':' in q:
        p, l = q.split(':', 1)
        if p == 'xml' and 'xml' not in c.ns:
            return XML_NS, l
        if p not in c.ns:
            raise XPathError('unbound prefix ' + p)
        return c.ns[p], l
    return '', q


def matches_test(test, n, axis, c):
    if test[0] == 'ntype':
        t, arg = test[1], test[2]
        if t == 'node':
            return True
        if t == 'processing-instruction':
            return n.kind == 'pi' and (arg is None or n.local == arg)
        return n.kind == t
    q = test[1]
    if q == '*':
        return n.kind == principal(axis)
    if q.endswith(':*'):
        uri, _ = resolve(q, c)
        return n.kind == principal(axis) and n.uri == uri
    uri, l = resolve(q, c)
    return n.kind == principal(axis) and n.uri == uri and n.local == l


def do_step(nodes, step, c):
    axis, test, preds = step
    out = []
    if test[0] == 'name' and ':' in test[1]:
        resolve(test[1], c)
    for n in nodes:
        cand = [x for x in axis_nodes(axis, n) if matches_test(test, x, axis, c)]
        for p in preds:
            cand = filter_pred(cand, p, c)
        out += cand
    return nodeset(out)


def filter_pred(cand, p, c):
    keep = []
    size = len(cand)
    for i, x in enumerate(cand):
        v = evaluate(p, c.at(x, i + 1, size))
        if isinstance(v, float):
            ok = v == i + 1
        else:
            ok = to_bool(v)
        if ok:
            keep.append(x)
    return keep


def need_ns(v):
    if not isinstance(v, NS):
        raise XPathError('node-set required')
    return v


def evaluate(e, c):
    k = e[0]
    if k == 'lit':
        return e[1]
    if k == 'num':
        return e[1]
    if k == 'paren':
        return evaluate(e[1], c)
    if k == 'var':
        q = e[1]
        uri, l = resolve(q, c)
        if (uri, l) not in c.vars:
            raise XPathError('unbound variable ' + q)
        v = c.vars[(uri, l)]
        return v() if callable(v) else v
    if k == 'neg':
        return -to_num(evaluate(e[1], c))
    if k == 'bin':
        op = e[1]
        if op == 'or':
            return to_bool(evaluate(e[2], c)) or to_bool(evaluate(e[3], c))
        if op == 'and':
            return to_bool(evaluate(e[2], c)) and to_bool(evaluate(e[3], c))
        a, b = evaluate(e[2], c), evaluate(e[3], c)
        if op == '|':
            return nodeset(need_ns(a) + need_ns(b))
        if op in ('=', '!=', '<', '<=', '>', '>='):
            return compare(op, a, b)
        a, b = to_num(a), to_num(b)
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op == 'div':
            return fdiv(a, b)
        if op == 'mod':
            return fmod(a, b)
        raise AssertionError(op)
    if k == 'filter':
        v = need_ns(evaluate(e[1], c))
        for p in e[2]:
            v = NS(filter_pred(v, p, c))
        return v
    if k == 'path':
        if e[1] == ('root',):
            nodes = NS([c.node.root()])
        elif e[1] == ('context',):
            nodes = NS([c.node])
        else:
            nodes = need_ns(evaluate(e[1], c))
        for s in e[2]:
            nodes = do_step(nodes, s, c)
        return nodes
    if k == 'call':
        return call(e[1], e[2], c)
    raise AssertionError(e)


ARITY = {'last': (0, 0), 'position': (0, 0), 'count': (1, 1), 'id': (1, 1), 'local-name': (0, 1),
         'namespace-uri': (0, 1), 'name': (0, 1), 'string': (0, 1), 'concat': (2, 999),
         'starts-with': (2, 2), 'contains': (2, 2), 'substring-before': (2, 2), 'substring-after': (2, 2),
         'substring': (2, 3), 'string-length': (0, 1), 'normalize-space': (0, 1), 'translate': (3, 3),
         'boolean': (1, 1), 'not': (1, 1), 'true': (0, 0), 'false': (0, 0), 'lang': (1, 1),
         'number': (0, 1), 'sum': (1, 1), 'floor': (1, 1), 'ceiling': (1, 1), 'round': (1, 1)}


def call(name, args, c):
    if name in c.funcs:
        return c.funcs[name](c, [evaluate(a, c) for a in args])
    if name not in ARITY:
        raise XPathError('unknown function ' + name)
    lo, hi = ARITY[name]
    if not lo <= len(args) <= hi:
        raise XPathError('wrong number of arguments')
    v = [evaluate(a, c) for a in args]

    def sarg(i=0):
        return to_str(v[i]) if len(v) > i else c.node.string()

    def nodearg():
        if not v:
            return c.node
        need_ns(v[0])
        return v[0][0] if v[0] else None
    if name == 'last':
        return float(c.size)
    if name == 'position':
        return float(c.pos)
    if name == 'count':
        return float(len(need_ns(v[0])))
    if name == 'local-name':
        n = nodearg()
        return (n.local or '') if n is not None and n.kind in ('elem', 'attr', 'pi', 'ns') else ''
    if name == 'namespace-uri':
        n = nodearg()
        return n.uri if n is not None and n.kind in ('elem', 'attr') else ''
    if name == 'name':
        n = nodearg()
        return n.qname if n is not None and n.kind in ('elem', 'attr', 'pi', 'ns') else ''
    if name == 'string':
        return sarg()
    if name == 'concat':
        return ''.join(to_str(x) for x in v)
    if name == 'starts-with':
        return sarg(0).startswith(sarg(1))
    if name == 'contains':
        return sarg(1) in sarg(0)
    if name == 'substring-before':
        i = sarg(0).find(sarg(1))
        return sarg(0)[:i] if i >= 0 else ''
    if name == 'substring-after':
        i = sarg(0).find(sarg(1))
        return sarg(0)[i + len(sarg(1)):] if i >= 0 else ''
    if NARROW and name in ('substring', 'translate') and not all(sarg(k).isascii() for k in range(len(v)) if isinstance(v[k], str) or k == 0):
        raise Unsure('splits a character')
    if name == 'substring':
        s = sarg(0)
        st = xround(to_num(v[1]))
        if len(v) == 3:
            en = st + xround(to_num(v[2]))
            return ''.join(ch for i, ch in enumerate(s) if i + 1 >= st and i + 1 < en)
        return ''.join(ch for i, ch in enumerate(s) if i + 1 >= st)
    if name == 'string-length':
        return float(len(sarg().encode('utf-8')) if NARROW else len(sarg()))
    if name == 'normalize-space':
        return ' '.join(x for x in re.split('[ \t\r\n]+', sarg()) if x)
    if name == 'translate':
        m = {}
        f, t = sarg(1), sarg(2)
        for i, ch in enumerate(f):
            if ch not in m:
                m[ch] = t[i] if i < len(t) else ''
        return ''.join(m.get(ch, ch) for ch in sarg(0))
    if name == 'boolean':
        return to_bool(v[0])
    if name == 'not':
        return not to_bool(v[0])
    if name == 'true':
        return True
    if name == 'false':
        return False
    if name == 'lang':
        want = sarg(0).lower()
        n = c.node
        while n is not None:
            for a in (n.attrs if n.kind == 'elem' else []):
                if a.uri == XML_NS and a.local == 'lang':
                    have = a.value.lower()
                    return have == want or have.startswith(want + '-')
            n = n.parent
        return False
    if name == 'number':
        return to_num(v[0]) if v else str_to_num(c.node.string())
    if name == 'sum':
        t = 0.0
        for n in need_ns(v[0]):
            t += str_to_num(n.string())
        return t
    if name == 'floor':
        x = to_num(v[0])
        return x if x != x or math.isinf(x) or x == 0 else float(math.floor(x))
    if name == 'ceiling':
        x = to_num(v[0])
        if x != x or math.isinf(x) or x == 0:
            return x
        return -0.0 if -1 < x < 0 else float(math.ceil(x))
    if name == 'round':
        return xround(to_num(v[0]))
    raise Unsure(name)


# ---------------------------------------------------------------- static checks
def static_check(e, ns, funcs=(), nsnames=()):
    """raise XPathError for anything that is an error whatever the context"""
    k = e[0]
    if k == 'call':
        if ':' in e[1]:
            raise XPathError('extension function')
        if e[1] not in funcs:
            if e[1] not in ARITY:
                raise XPathError('unknown function')
            lo, hi = ARITY[e[1]]
            if not lo <= len(e[2]) <= hi:
                raise XPathError('arity')
    if k == 'var' and ':' in e[1] and e[1].split(':')[0] not in list(ns) + ['xml']:
        raise XPathError('unbound prefix')

    def walk(x):
        if isinstance(x, tuple) and len(x) == 3 and x[0] in AXES and isinstance(x[2], list):
            t = x[1]
            if t[0] == 'name' and ':' in t[1]:
                p = t[1].split(':')[0]
                if p not in ns and p != 'xml':
                    raise XPathError('unbound prefix')
            for q in x[2]:
                static_check(q, ns, funcs)
        elif isinstance(x, tuple):
            if x and isinstance(x[0], str) and x[0] not in ('/', '//'):
                static_check(x, ns, funcs)
            else:
                for y in x:
                    walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    for x in e[1:]:
        walk(x)


# ---------------------------------------------------------------- patterns
def pattern_selects(alt, ctx_node, c):
    """node-set of the pattern evaluated as an expression with ctx_node as context"""
    _, start, steps = alt
    if start == ('root',):
        nodes = NS([ctx_node.root()])
    elif start == ('context',):
        nodes = NS([ctx_node])
    else:
        nodes = need_ns(evaluate(start, c.at(ctx_node, 1, 1)))
    for conn, st in steps:
        if conn == '//':
            nodes = do_step(nodes, ('descendant-or-self', ('ntype', 'node', None), []), c)
        nodes = do_step(nodes, st, c)
    return nodes


def pattern_set(alt, root, c):
    """ids of every node of the tree matched by the alternative"""
    hit = set()
    for ctx in all_nodes(root):
        for n in pattern_selects(alt, ctx, c):
            # ctx must be an ancestor-or-self of n (true of child/attribute/descendant steps);
            # for absolute and function starts any context does
            hit.add(id(n))
        if alt[1] != ('context',):
            break
    return hit


def default_priority(alt):
    _, start, steps = alt
    if start != ('context',) or len(steps) != 1 or steps[0][0] != '/':
        return 0.5
    axis, test, preds = steps[0][1]
    if preds:
        return 0.5
    if test[0] == 'name':
        if test[1] == '*':
            return -0.5
        if test[1].endswith(':*'):
            return -0.25
        return 0.0
    if test[1] == 'processing-instruction' and test[2] is not None:
        return 0.0
    return -0.5
