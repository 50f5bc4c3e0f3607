"""An independent XSLT 1.0 interpreter over xpathmodel (the instructions Arabica supports).

Written from the recommendation; shares nothing with the code under test.
"""
import posixpath
import re
import xpathmodel as M
from xpathmodel import Node, NS, Ctx, XPathError

XSL = 'http://www.w3.org/1999/XSL/Transform'
WSRE = re.compile('^[ \t\r\n]*$')


class XSLTError(Exception):
    """an error the recommendation requires to be reported"""


class Terminate(Exception):
    """xsl:message terminate='yes'"""


class Budget(Exception):
    """the stylesheet runs for too long to be a useful case"""


class RTF(NS):
    """result tree fragment: behaves as a node-set holding one root node"""


class Unit:
    """a stylesheet element with everything it includes: one node of the import tree"""

    def __init__(self):
        self.prec = None
        self.below = []        # units in the import subtree, self excluded


class Tpl:
    def __init__(self, el, unit, seq):
        self.el, self.unit, self.seq = el, unit, seq
        self.alts, self.name, self.mode, self.prio = [], None, None, None


def att(el, name, d=None):
    for a in el.attrs:
        if a.uri == '' and a.local == name:
            return a.value
    return d


def isxsl(n, *names):
    return n.kind == 'elem' and n.uri == XSL and (not names or n.local in names)


def nsmap(el):
    m = dict(el.inscope())
    m.pop('', None)
    return m


def qn(el, q):
    """expanded name of a QName in the stylesheet (default namespace not used)"""
    if ':' in q:
        p, l = q.split(':', 1)
        m = el.inscope()
        if p not in m:
            raise XSLTError('prefix ' + p)
        return (m[p], l)
    return ('', q)


class Sheet:
    def __init__(self, files, main, docs=None):
        """files: path -> text of stylesheet modules; docs: path -> text for document()"""
        self.files, self.docs = files, docs or {}
        self.templates, self.keys, self.globals = [], {}, {}
        self.outputs, self.named, self.aliases = [], {}, {}
        self.seq = 0
        self.nextprec = 0
        self.patcache, self.exprcache = {}, {}
        self.load(main, Unit(), [])

    # ------------------------------------------------------------ loading
    def load(self, path, unit, stack, included=False):
        if path in stack:
            raise XSLTError('circular')
        root = M.parse_xml(self.files[path])
        top = [n for n in root.children if n.kind == 'elem'][0]
        top.extra = path
        self.basepath = path
        if not isxsl(top):
            t = Tpl(root, unit, self.bump())
            t.alts = M.parse_pattern('/')
            self.templates.append(t)
            t.lre = True
        else:
            for c in top.children:
                if isxsl(c, 'import'):
                    u = Unit()
                    self.load(posixpath.normpath(posixpath.join(posixpath.dirname(path), att(c, 'href'))), u, stack + [path])
                    unit.below += [u] + u.below
            for c in top.children:
                if isxsl(c, 'import'):
                    pass
                elif isxsl(c, 'include'):
                    self.load(posixpath.normpath(posixpath.join(posixpath.dirname(path), att(c, 'href'))), unit, stack + [path], True)
                elif isxsl(c):
                    c.extra = path
                    self.decl(c, unit)
        if not included:
            unit.prec = self.nextprec
            self.nextprec += 1

    def bump(self):
        self.seq += 1
        return self.seq

    def decl(self, c, unit):
        if c.local == 'template':
            t = Tpl(c, unit, self.bump())
            if att(c, 'match') is not None:
                t.alts = M.parse_pattern(att(c, 'match'))
            if att(c, 'name') is not None:
                t.name = qn(c, att(c, 'name'))
                self.named.setdefault(t.name, []).append(t)
            t.mode = qn(c, att(c, 'mode')) if att(c, 'mode') is not None else None
            t.prio = M.str_to_num(att(c, 'priority')) if att(c, 'priority') is not None else None
            self.templates.append(t)
        elif c.local in ('variable', 'param'):
            self.globals.setdefault(qn(c, att(c, 'name')), []).append((unit, self.bump(), c))
        elif c.local == 'key':
            self.keys.setdefault(qn(c, att(c, 'name')), []).append(c)
        elif c.local == 'output':
            self.outputs.append((unit, self.bump(), c))
        elif c.local == 'namespace-alias':
            m = c.inscope()

            def u(p):
                return m.get('' if p == '#default' else p, '')
            self.aliases.setdefault(u(att(c, 'stylesheet-prefix')), []).append((unit, self.bump(), u(att(c, 'result-prefix'))))

    def output(self):
        """effective xsl:output attributes: {local: value}, and the set of cdata-section element names"""
        out, cd = {}, set()
        for unit, seq, c in sorted(self.outputs, key=lambda x: (x[0].prec, x[1])):
            for a in c.attrs:
                if a.uri == '':
                    if a.local == 'cdata-section-elements':
                        for q in a.value.split():
                            if ':' in q:
                                cd.add(qn(c, q))
                            else:
                                cd.add((c.inscope().get('', ''), q))
                    else:
                        out[a.local] = a.value
        return out, cd

    def alias(self, uri):
        l = self.aliases.get(uri)
        return max(l, key=lambda x: (x[0].prec, x[1]))[2] if l else uri

    def expr(self, s, parse=M.parse):
        k = (s, parse)
        if k not in self.exprcache:
            self.exprcache[k] = parse(s)
        return self.exprcache[k]


class Builder:
    def __init__(self):
        self.root = Node('root')
        self.cur = self.root

    def text(self, s):
        if s != '':
            self.cur.add(Node('text', value=s))

    def start(self, uri, local, prefix=''):
        e = Node('elem', local, uri, prefix)
        self.cur.add(e)
        self.cur = e
        return e

    def end(self):
        self.cur = self.cur.parent

    def attr(self, uri, local, value, prefix=''):
        if self.cur.kind != 'elem' or self.cur.children:
            return
        for a in self.cur.attrs:
            if (a.uri, a.local) == (uri, local):
                a.value = value
                return
        a = Node('attr', local, uri, prefix, value)
        a.parent = self.cur
        self.cur.attrs.append(a)

    def comment(self, s):
        s = s.replace('--', '- -')
        while '--' in s:
            s = s.replace('--', '- -')
        if s.endswith('-'):
            s += ' '
        self.cur.add(Node('comment', value=s))

    def pi(self, target, data):
        self.cur.add(Node('pi', target, '', '', data.replace('?>', '? >')))


class TextOnly:
    """content of attributes, comments and PIs: anything but text is ignored with its content"""

    def __init__(self, run):
        self.parts = []
        self.depth = 0
        self.run = run

    def text(self, s):
        if not self.depth:
            self.parts.append(s)

    def start(self, *a):
        self.depth += 1
        self.run.ignoring += 1

    def end(self):
        self.depth -= 1
        self.run.ignoring -= 1

    def attr(self, *a):
        pass

    def comment(self, s):
        pass

    def pi(self, t, s):
        pass

    def value(self):
        return ''.join(self.parts)


class State:
    """current node, position, size, current template rule, local variables"""
    __slots__ = ('node', 'pos', 'size', 'unit', 'mode', 'env')

    def __init__(self, node, pos, size, unit, mode, env):
        self.node, self.pos, self.size, self.unit, self.mode, self.env = node, pos, size, unit, mode, env

    def at(self, node, pos, size):
        return State(node, pos, size, self.unit, self.mode, self.env)


class Run:
    def __init__(self, sheet, doc, params=None, budget=4000):
        self.s, self.doc = sheet, doc
        self.params = params or {}
        self.budget = budget
        self.messages = []
        self.ignoring = 0
        self.gvals, self.gbusy = {}, set()
        self.rtfs = 1000000
        self.docs = {}
        self.keyidx = {}
        self.stats = {}
        self.funcs = {'current': lambda c, a: NS([c.current]), 'key': self.f_key, 'generate-id': self.f_gid,
                      'document': self.f_document, 'system-property': self.f_sysprop}

    def stat(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    # ------------------------------------------------------------ functions
    def f_key(self, c, a):
        name = M.to_str(a[0])
        if ':' in name:
            p, l = name.split(':', 1)
            if p not in c.ns:
                raise XPathError('key prefix')
            name = (c.ns[p], l)
        else:
            name = ('', name)
        if name not in self.s.keys:
            raise XPathError('no such key')
        vals = [n.string() for n in a[1]] if isinstance(a[1], NS) else [M.to_str(a[1])]
        idx = self.key_index(name, c.node.root())
        out = []
        for v in vals:
            out += idx.get(v, [])
        return M.nodeset(out)

    def key_index(self, name, root):
        k = (name, id(root))
        if k not in self.keyidx:
            idx = {}
            for d in self.s.keys[name]:
                alts = self.s.expr(att(d, 'match'), M.parse_pattern)
                use = self.s.expr(att(d, 'use'))
                m = nsmap(d)
                for n in M.all_nodes(root, ns=False):
                    if any(self.matches(x, n, m) for x in alts):
                        v = M.evaluate(use, Ctx(n, 1, 1, {}, self.funcs, m, n))
                        for s in ({x.string() for x in v} if isinstance(v, NS) else {M.to_str(v)}):
                            idx.setdefault(s, []).append(n)
            self.keyidx[k] = idx
        return self.keyidx[k]

    def f_gid(self, c, a):
        if not a:
            n = c.node
        else:
            M.need_ns(a[0])
            if not a[0]:
                return ''
            n = a[0][0]
        return 'id%d' % id(n)

    def f_document(self, c, a):
        h = M.to_str(a[0])
        if h not in self.docs:
            if h not in self.s.docs:
                return NS()
            self.rtfs += 100000
            self.docs[h] = M.parse_xml(self.s.docs[h], 'd', self.rtfs)
        return NS([self.docs[h]])

    def f_sysprop(self, c, a):
        return 1.0 if M.to_str(a[0]) == 'xsl:version' else M.to_str(a[0])

    # ------------------------------------------------------------ patterns
    def matches(self, alt, n, ns):
        k = (id(alt), id(n.root()))
        hit = self.s.patcache.get(k)
        if hit is None:
            root = n.root()
            hit = (root, alt, M.pattern_set(alt, root, Ctx(root, 1, 1, {}, self.funcs, ns, root)))
            self.s.patcache[k] = hit
        return id(n) in hit[2]

    def find(self, n, mode, units=None):
        best = None
        for t in self.s.templates:
            if t.mode != mode or (units is not None and t.unit not in units):
                continue
            for a in t.alts:
                if best is not None and t.unit.prec < best[0][0]:
                    continue
                if self.matches(a, n, nsmap(t.el) if t.el.kind == 'elem' else {}):
                    p = t.prio if t.prio is not None else M.default_priority(a)
                    key = (t.unit.prec, p, t.seq)
                    if best is None or key > best[0]:
                        best = (key, t)
        return best[1] if best else None

    # ------------------------------------------------------------ variables
    def gvar(self, name):
        if name in self.gvals:
            return self.gvals[name]
        if name in self.gbusy:
            raise XSLTError('circular variable')
        unit, seq, el = max(self.s.globals[name], key=lambda x: (x[0].prec, x[1]))
        self.gbusy.add(name)
        if el.local == 'param' and name in self.params:
            v = self.params[name]
        else:
            v = self.value(el, State(self.doc, 1, 1, None, None, {}))
        self.gbusy.discard(name)
        self.gvals[name] = v
        return v

    def scope(self, st):
        run = self

        class D(dict):
            def __contains__(s, k):
                return k in st.env or k in run.s.globals

            def __getitem__(s, k):
                return st.env[k] if k in st.env else run.gvar(k)
        return D()

    def value(self, el, st):
        s = att(el, 'select')
        if s:
            return self.ev(s, el, st)
        if not [c for c in el.children if not self.blank(c)]:
            return ''
        b = Builder()
        self.body(el, st, b)
        self.rtfs += 10000
        M.number_tree(b.root, 'r', self.rtfs)
        return RTF([b.root])

    def ctx(self, el, st):
        return Ctx(st.node, st.pos, st.size, self.scope(st), self.funcs, nsmap(el), st.node)

    def ev(self, s, el, st):
        return M.evaluate(self.s.expr(s), self.ctx(el, st))

    def avt(self, s, el, st):
        return ''.join(x if isinstance(x, str) else M.to_str(M.evaluate(x, self.ctx(el, st)))
                       for x in self.s.expr(s, parse_avt))

    # ------------------------------------------------------------ instructions
    def blank(self, c):
        if c.kind == 'text':
            return bool(WSRE.match(c.value)) and not isxsl(c.parent, 'text')
        return c.kind in ('comment', 'pi')

    def body(self, el, st, out, skip=()):
        st = State(st.node, st.pos, st.size, st.unit, st.mode, dict(st.env))
        for c in el.children:
            if self.blank(c) or isxsl(c, *skip) and skip:
                continue
            if c.kind == 'text':
                out.text(c.value)
                continue
            self.budget -= 1
            if self.budget < 0:
                raise Budget()
            if c.uri == XSL:
                self.stat(c.local)
                getattr(self, 'i_' + c.local.replace('-', '_'))(c, st, out)
            else:
                self.stat('literal')
                self.literal(c, st, out)

    def literal(self, c, st, out):
        out.start(self.s.alias(c.uri), c.local, c.prefix)
        for a in c.attrs:
            if a.uri != XSL:
                out.attr(self.s.alias(a.uri) if a.uri else '', a.local, self.avt(a.value, c, st), a.prefix)
        self.body(c, st, out)
        out.end()

    def i_text(self, c, st, out):
        out.text(c.string())

    def i_value_of(self, c, st, out):
        out.text(M.to_str(self.ev(att(c, 'select'), c, st)))

    def i_if(self, c, st, out):
        if M.to_bool(self.ev(att(c, 'test'), c, st)):
            self.body(c, st, out)

    def i_choose(self, c, st, out):
        for w in c.children:
            if isxsl(w, 'when') and M.to_bool(self.ev(att(w, 'test'), w, st)) or isxsl(w, 'otherwise'):
                self.body(w, st, out)
                return

    def i_variable(self, c, st, out):
        st.env[qn(c, att(c, 'name'))] = self.value(c, st)

    def i_element(self, c, st, out):
        name = self.avt(att(c, 'name'), c, st)
        pf = name.split(':')[0] if ':' in name else ''
        if att(c, 'namespace') is not None:
            uri = self.avt(att(c, 'namespace'), c, st)
        else:
            m = c.inscope()
            if pf and pf not in m:
                raise XSLTError('element prefix')
            uri = m.get(pf, '')
        out.start(uri, name.split(':')[-1], pf)
        self.body(c, st, out)
        out.end()

    def i_attribute(self, c, st, out):
        name = self.avt(att(c, 'name'), c, st)
        if att(c, 'namespace') is not None:
            uri = self.avt(att(c, 'namespace'), c, st)
        else:
            uri = qn(c, name)[0]
        t = TextOnly(self)
        self.body(c, st, t)
        out.attr(uri, name.split(':')[-1], t.value(), name.split(':')[0] if ':' in name else '')

    def i_comment(self, c, st, out):
        t = TextOnly(self)
        self.body(c, st, t)
        out.comment(t.value())

    def i_processing_instruction(self, c, st, out):
        name = self.avt(att(c, 'name'), c, st)
        t = TextOnly(self)
        self.body(c, st, t)
        out.pi(name, t.value())

    def i_copy(self, c, st, out):
        n = st.node
        if n.kind == 'root':
            self.body(c, st, out)
        elif n.kind == 'elem':
            out.start(n.uri, n.local, n.prefix)
            self.body(c, st, out)
            out.end()
        else:
            self.copy_leaf(n, out)

    def copy_leaf(self, n, out):
        if n.kind == 'attr':
            out.attr(n.uri, n.local, n.value, n.prefix)
        elif n.kind == 'text':
            out.text(n.value)
        elif n.kind == 'comment':
            out.comment(n.value)
        elif n.kind == 'pi':
            out.pi(n.local, n.value)

    def deep(self, n, out):
        if n.kind == 'root':
            for x in n.children:
                self.deep(x, out)
        elif n.kind == 'elem':
            out.start(n.uri, n.local, n.prefix)
            for a in n.attrs:
                self.copy_leaf(a, out)
            for x in n.children:
                self.deep(x, out)
            out.end()
        else:
            self.copy_leaf(n, out)

    def i_copy_of(self, c, st, out):
        v = self.ev(att(c, 'select'), c, st)
        if isinstance(v, NS):
            for n in v:
                self.deep(n, out)
        else:
            out.text(M.to_str(v))

    def sorted(self, c, nodes, st):
        keys = [s for s in c.children if isxsl(s, 'sort')]
        nodes = list(nodes)
        if not keys:
            return nodes
        size = len(nodes)
        vals = {}
        for k, s in enumerate(keys):
            num = self.avt(att(s, 'data-type', 'text'), s, st) == 'number'
            for i, n in enumerate(nodes):
                v = M.to_str(self.ev(att(s, 'select', '.'), s, st.at(n, i + 1, size)))
                if num:
                    x = M.str_to_num(v)
                    v = (0, 0) if x != x else (1, x)
                else:
                    v = v.encode('utf-8')
                vals[k, id(n)] = v
        for k in reversed(range(len(keys))):
            rev = self.avt(att(keys[k], 'order', 'ascending'), keys[k], st) == 'descending'
            if rev:         # reversing a stable ascending sort twice keeps equal keys in order
                nodes.reverse()
                nodes.sort(key=lambda n: vals[k, id(n)])
                nodes.reverse()
            else:
                nodes.sort(key=lambda n: vals[k, id(n)])
        return nodes

    def i_for_each(self, c, st, out):
        v = self.ev(att(c, 'select'), c, st)
        if not isinstance(v, NS):
            raise XSLTError('for-each select')
        nodes = self.sorted(c, v, st)
        for i, n in enumerate(nodes):
            self.body(c, st.at(n, i + 1, len(nodes)), out, skip=('sort',))

    def passed(self, c, st):
        """evaluated when a template asks for it, at most once"""
        def lazy(w):
            memo = []

            def get():
                if not memo:
                    memo.append(self.value(w, st))
                return memo[0]
            return get
        return {qn(w, att(w, 'name')): lazy(w) for w in c.children if isxsl(w, 'with-param')}

    def i_apply_templates(self, c, st, out):
        v = self.ev(att(c, 'select', 'node()'), c, st)
        if not isinstance(v, NS):
            raise XSLTError('apply-templates select')
        nodes = self.sorted(c, v, st)
        mode = qn(c, att(c, 'mode')) if att(c, 'mode') else None
        self.apply(nodes, mode, self.passed(c, st), out)

    def apply(self, nodes, mode, params, out):
        for i, n in enumerate(nodes):
            self.one(n, i + 1, len(nodes), mode, params, out, None)

    def one(self, n, pos, size, mode, params, out, units):
        t = self.find(n, mode, units)
        if t is None:
            self.stat('built-in')
            if n.kind in ('root', 'elem'):
                self.apply(n.children, mode, {}, out)
            elif n.kind in ('text', 'attr'):
                out.text(n.value)
            return
        self.template(t, State(n, pos, size, t.unit, mode, {}), params, out)

    def template(self, t, st, params, out):
        self.budget -= 1
        if self.budget < 0:
            raise Budget()
        st.env = {}
        for c in t.el.children:
            if isxsl(c, 'param'):
                q = qn(c, att(c, 'name'))
                st.env[q] = params[q]() if q in params else self.value(c, st)
        self.body(t.el, st, out, skip=('param',))

    def i_apply_imports(self, c, st, out):
        self.one(st.node, st.pos, st.size, st.mode, {}, out, st.unit.below)

    def i_call_template(self, c, st, out):
        l = self.s.named.get(qn(c, att(c, 'name')))
        if not l:
            raise XSLTError('no such template')
        t = max(l, key=lambda t: t.unit.prec)
        self.template(t, State(st.node, st.pos, st.size, st.unit, st.mode, {}), self.passed(c, st), out)

    def i_message(self, c, st, out):
        b = Builder()
        if self.ignoring:
            raise M.Unsure('message inside ignored content')
        self.body(c, st, b)
        self.messages.append(b.root.string())
        if att(c, 'terminate') == 'yes':
            raise Terminate()

    def go(self):
        b = Builder()
        for g in self.s.globals:
            self.gvar(g)
        self.out = b
        self.one(self.doc, 1, 1, None, {}, b, None)
        return b.root


def parse_avt(s):
    return M.parse_avt(s)


def canon(root):
    """flat canonical form of a tree: adjacent text merged, attributes sorted, prefixes dropped"""
    out = []

    def go(n):
        if n.kind == 'elem':
            out.append(('E', n.uri, n.local))
            for a in sorted(n.attrs, key=lambda a: (a.uri, a.local)):
                out.append(('A', a.uri, a.local, a.value))
        elif n.kind == 'text':
            if out and out[-1][0] == 'T':
                out[-1] = ('T', out[-1][1] + n.value)
            elif n.value:
                out.append(('T', n.value))
        elif n.kind == 'comment':
            out.append(('C', n.value))
        elif n.kind == 'pi':
            out.append(('P', n.local, n.value))
        for c in n.children:
            go(c)
        if n.kind == 'elem':
            out.append(('/',))
    go(root)
    return out
