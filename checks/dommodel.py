"""Executable model of DOM Level 2 Core (as a user observes it through Arabica's handles).
Each operation returns ('R', text) or ('X', {allowed codes}); the model changes only on 'R'."""
ELEMENT, ATTR, TEXT, CDATA, ENTREF, ENTITY, PI, COMMENT, DOC, DOCTYPE, FRAG, NOTATION = range(1, 13)
INDEX, DOMSTR, HIER, WRONGDOC, INVCHAR, NODATA, NOMOD, NOTFOUND, NOTSUP, INUSE, INVSTATE, SYNTAX, INVMOD, NS_ERR, INVACC = range(1, 16)
XML_NS = 'http://www.w3.org/XML/1998/namespace'
XMLNS_NS = 'http://www.w3.org/2000/xmlns/'
CONTENT = {ELEMENT, PI, COMMENT, TEXT, CDATA, ENTREF}
ALLOWED = {DOC: {ELEMENT, PI, COMMENT, DOCTYPE}, FRAG: CONTENT, ENTREF: CONTENT, ELEMENT: CONTENT, ENTITY: CONTENT,
           ATTR: {TEXT, ENTREF}}
CHARDATA = (TEXT, CDATA, COMMENT)


class Err(Exception):
    def __init__(self, *codes):
        self.codes = set(codes)


def is_name(s):
    def start(c):
        return c.isalpha() or c in '_:'
    return bool(s) and start(s[0]) and all(start(c) or c.isdigit() or c in '.-\u00b7' for c in s)


def check_qname(ns, q, attr):
    """returns (ns or None, prefix, local)"""
    codes = set()
    if not is_name(q):
        codes.add(INVCHAR)
    if ':' in q:
        p, _, l = q.partition(':')
        if not p or not l or ':' in l:
            codes.add(NS_ERR)
        elif p == 'xml':
            if ns != XML_NS:
                codes.add(NS_ERR)
        elif attr and p == 'xmlns':
            if ns not in (XMLNS_NS, ''):  # documented leniency: xmlns:* without a URI gets the xmlns URI
                codes.add(NS_ERR)
            ns = XMLNS_NS
        elif ns == '':
            codes.add(NS_ERR)
    else:
        p, l = '', q
    if codes:
        raise Err(*codes)
    return ns, p, l


class Node:
    __slots__ = ('id', 'type', 'name', 'value', 'ns', 'prefix', 'local', 'parent', 'children', 'attrs', 'doc', 'owner',
                 'specified', 'ro', 'extra', 'isns', 'doctype')

    def __init__(self, m, type, name, doc, value=None, ns=None, prefix='', local='', isns=False):
        self.id = None
        self.type, self.name, self.doc, self.value = type, name, doc, value
        self.ns, self.prefix, self.local, self.isns = ns, prefix, local, isns
        self.parent = self.owner = None
        self.children = []
        self.attrs = []
        self.specified = True
        self.ro = False
        self.extra = None
        self.doctype = None

    def attr(self, name):
        for a in self.attrs:
            if a.name == name:
                return a

    def attrns(self, ns, local):
        for a in self.attrs:
            if a.isns and a.local == local and (a.ns or '') == ns:
                return a

    def walk(self):
        """preorder, not through attributes"""
        yield self
        for c in self.children:
            yield from c.walk()

    def ancestors(self):
        n = self.parent
        while n is not None:
            yield n
            n = n.parent

    def root(self):
        n = self
        while n.parent is not None:
            n = n.parent
        return n

    def textval(self):
        if self.type == ENTREF:
            return ''.join(c.textval() for c in self.children)
        return self.value or ''

    def nodevalue(self):
        if self.type == ATTR:
            return ''.join(c.textval() for c in self.children)
        return self.value or ''

    def docelem(self):
        for c in self.children:
            if c.type == ELEMENT:
                return c


class Model:
    def __init__(self):
        self.nodes = {}
        self.nextid = 1
        self.lists = {}
        self.maps = {}
        self.idattrs = set()   # (doc id, element name, attribute name) declared ID

    # -- identity ---------------------------------------------------------------------------
    def reg(self, n, id=None):
        if id is None:
            id = self.nextid
        n.id = id
        self.nodes[id] = n
        self.nextid = max(self.nextid, id + 1)
        return n

    def new(self, *a, **k):
        return Node(self, *a, **k)

    def regtree(self, n):
        if n.id is None:
            self.reg(n)
        for a in sorted(n.attrs, key=lambda a: a.name.encode()):
            self.regtree(a)
        if n.type == DOCTYPE:
            for e in sorted(n.extra['entities'], key=lambda a: a.name.encode()):
                self.regtree(e)
            for e in sorted(n.extra['notations'], key=lambda a: a.name.encode()):
                self.regtree(e)
        for c in n.children:
            self.regtree(c)

    def sync(self):
        for i in sorted(self.nodes):
            self.regtree(self.nodes[i])

    # -- dump -------------------------------------------------------------------------------
    def ref(self, n):
        return '-' if n is None else ('?%d' % n.type if n.id is None else str(n.id))

    def dump_node(self, n):
        f = [str(n.type), n.name, n.nodevalue(), ('{%s}' % n.ns) if n.ns is not None else '', n.prefix, n.local,
             self.ref(n.parent)]
        if n.parent is not None:
            k = n.parent.children
            i = next(j for j, c in enumerate(k) if c is n)
            f += [self.ref(k[i - 1] if i else None), self.ref(k[i + 1] if i + 1 < len(k) else None)]
        else:
            f += ['-', '-']
        c = n.children
        f += [self.ref(c[0] if c else None), self.ref(c[-1] if c else None), ','.join(self.ref(x) for x in c)]
        f.append(','.join(sorted((self.ref(a) for a in n.attrs), key=lambda x: int(x) if x.isdigit() else 0)))
        f.append(self.ref(n.doc))
        x = ''
        if n.type == ATTR:
            x = self.ref(n.owner) + ('S' if n.specified else 'd')
        elif n.type == DOC:
            x = self.ref(n.docelem()) + '/' + self.ref(n.doctype)
        elif n.type == DOCTYPE:
            e = n.extra
            srt = lambda v: sorted(v, key=lambda a: a.name.encode())
            x = '\x02'.join([n.name, e['pub'], e['sys'], ''.join(self.ref(q) + ',' for q in srt(e['entities'])),
                             ''.join(self.ref(q) + ',' for q in srt(e['notations']))])
        elif n.type == ENTITY:
            x = '\x02'.join(n.extra)
        elif n.type == NOTATION:
            x = '\x02'.join(n.extra)
        elif n.type in CHARDATA:
            x = str(len(n.value))
        elif n.type == PI:
            x = n.name + '\x02' + n.value
        f.append(x)
        return '\x01'.join(f)

    # -- creation ---------------------------------------------------------------------------
    def newdoc(self, id, ns, qname, dt=None):
        d = self.new(DOC, '#document', None)
        errs = set()
        if dt is not None and (dt.parent is not None or dt.doc is not None):
            errs |= {WRONGDOC}
        if errs:
            raise Err(*errs)
        e = None
        if qname:
            e = self.mk_elem_ns(d, ns, qname)
        if dt is not None:
            d.children.append(dt)
            dt.parent = d
            dt.doc = d
            d.doctype = dt
            for x in dt.extra['entities'] + dt.extra['notations']:
                x.doc = d
        if e is not None:
            d.children.append(e)
            e.parent = d
        return self.reg(d, id)

    def newdt(self, id, q, pub, sys):
        n = self.new(DOCTYPE, q, None)
        n.extra = dict(pub=pub, sys=sys, entities=[], notations=[])
        n.ro = True
        return self.reg(n, id)

    def mk_elem_ns(self, d, ns, q):
        ns, p, l = check_qname(ns, q, False)
        return self.new(ELEMENT, q, d, ns=ns or None, prefix=p, local=l, isns=True)

    def mk_attr_ns(self, d, ns, q):
        ns, p, l = check_qname(ns, q, True)
        return self.new(ATTR, q, d, ns=ns or None, prefix=p, local=l, isns=True)

    def ce(self, d, name):
        if not is_name(name):
            raise Err(INVCHAR)
        return self.new(ELEMENT, name, d)

    def ca(self, d, name):
        if not is_name(name):
            raise Err(INVCHAR)
        return self.new(ATTR, name, d)

    # -- tree operations ----------------------------------------------------------------------
    def add_errors(self, p, new, ref=None, replacing=None):
        e = set()
        if p.type not in ALLOWED:
            return {HIER, NOMOD} if p.ro else {HIER}
        items = new.children if new.type == FRAG else [new]
        if new.type != FRAG or new is p:
            if new.type not in ALLOWED[p.type] or new is p or any(a is new for a in p.ancestors()):
                e.add(HIER)
        for it in items:
            if it.type not in ALLOWED[p.type] or it is p or any(a is it for a in p.ancestors()):
                e.add(HIER)
        if new is p:
            e.add(HIER)
        if p.type == ATTR or True:
            # an attribute's value may not contain its own element's ancestors (types exclude it already)
            pass
        if new.type == DOCTYPE:
            e.add(HIER)
        docof = p if p.type == DOC else p.doc
        if new.doc is not docof:
            e.add(WRONGDOC)
        if p.ro or (new.parent is not None and new.parent.ro) or (new.type == FRAG and new.ro):
            e.add(NOMOD)
        if p.type == DOC:
            els = [c for c in p.children if c.type == ELEMENT and c is not replacing and c is not new]
            if len(els) + sum(1 for i in items if i.type == ELEMENT) > 1:
                e.add(HIER)
            if replacing is not None and replacing.type == DOCTYPE:
                e.add(HIER)
        return e

    def detach(self, n):
        if n.parent is not None:
            p = n.parent
            i = next(j for j, c in enumerate(p.children) if c is n)
            del p.children[i]
            n.parent = None

    def attach(self, p, n, ref):
        items = list(n.children) if n.type == FRAG else [n]
        for it in items:
            self.detach(it)
        i = len(p.children) if ref is None else next(j for j, c in enumerate(p.children) if c is ref)
        p.children[i:i] = items
        for it in items:
            it.parent = p

    def ins(self, p, n, ref):
        e = self.add_errors(p, n, ref)
        if ref is not None and ref.parent is not p:
            e.add(NOTFOUND)
        if e:
            raise Err(*e)
        if n is ref:
            return n
        self.attach(p, n, ref)
        return n

    def rep(self, p, n, old):
        e = self.add_errors(p, n, None, replacing=old)
        if old.parent is not p:
            e.add(NOTFOUND)
        if e:
            raise Err(*e)
        if n is old:
            return old
        i = next(j for j, c in enumerate(p.children) if c is old)
        nxt = p.children[i + 1] if i + 1 < len(p.children) else None
        if nxt is n:
            nxt = p.children[i + 2] if i + 2 < len(p.children) else None
        self.detach(old)
        self.attach(p, n, nxt)
        return old

    def rem(self, p, old):
        e = set()
        if old.parent is not p:
            e.add(NOTFOUND)
        if p.ro:
            e.add(NOMOD)
        if old.type == DOCTYPE:
            e.add(HIER)
        if e:
            raise Err(*e)
        self.detach(old)
        return old

    # -- copies -------------------------------------------------------------------------------
    def copy(self, n, doc, deep, imported=False, top=True, ro=False):
        c = self.new(n.type, n.name, doc, n.value, n.ns, n.prefix, n.local, n.isns)
        c.extra = n.extra
        c.ro = ro
        if n.type == ELEMENT:
            for a in n.attrs:
                if imported and not a.specified:
                    continue
                k = self.copy(a, doc, True, imported, False, ro)
                k.owner = c
                c.attrs.append(k)
        if n.type == ATTR:
            # clone of an Attr on its own, and any imported one, is specified
            c.specified = True if (top or imported) else n.specified
            deep = True
        if n.type == ENTREF:
            self.fill_entref(c)
            deep = False
        if deep:
            for k in n.children:
                q = self.copy(k, doc, True, imported, False, ro)
                q.parent = c
                c.children.append(q)
        return c

    def fill_entref(self, c):
        c.ro = True
        if c.doc.doctype is not None:
            for e in c.doc.doctype.extra['entities']:
                if e.name == c.name:
                    for k in e.children:
                        q = self.copy(k, c.doc, True, True, False, True)
                        q.parent = c
                        c.children.append(q)

    def cer(self, d, name):
        if not is_name(name):
            raise Err(INVCHAR)
        x = self.new(ENTREF, name, d)
        self.fill_entref(x)
        return x

    def clone(self, n, deep):
        return self.copy(n, n.doc, deep)

    def import_(self, d, n, deep):
        if n.type in (DOC, DOCTYPE):
            raise Err(NOTSUP)
        return self.copy(n, d, deep, imported=True)

    def normalize(self, n):
        k = []
        for c in list(n.children):
            if c.type == TEXT:
                if k and k[-1].type == TEXT:
                    k[-1].value += c.value
                    c.parent = None
                    continue
            k.append(c)
        out = []
        for c in k:
            if c.type == TEXT and not c.value:
                c.parent = None
            else:
                out.append(c)
        n.children = out
        for a in n.attrs:
            self.normalize(a)
        for c in out:
            self.normalize(c)

    # -- values -------------------------------------------------------------------------------
    def setval(self, n, v):
        if n.type in (TEXT, CDATA, COMMENT, PI):
            if n.ro:
                raise Err(NOMOD)
            n.value = v
        elif n.type == ATTR:
            if n.ro:
                raise Err(NOMOD)
            for c in list(n.children):
                self.detach(c)
            t = self.new(TEXT, '#text', n.doc, v)
            t.parent = n
            n.children = [t]
            n.specified = True

    # -- attributes -----------------------------------------------------------------------------
    def sa(self, e, name, v):
        errs = set()
        if not is_name(name):
            errs.add(INVCHAR)
        if e.ro:
            errs.add(NOMOD)
        if errs:
            raise Err(*errs)
        a = e.attr(name)
        if a is None:
            a = self.new(ATTR, name, e.doc)
            a.owner = e
            e.attrs.append(a)
        self.setval(a, v)

    def sans(self, e, ns, q, v):
        errs = set()
        if e.ro:
            errs.add(NOMOD)
        try:
            n2, p, l = check_qname(ns, q, True)
        except Err as x:
            errs |= x.codes
        if errs:
            raise Err(*errs)
        a = e.attrns(n2, l)
        if a is None:
            a = self.new(ATTR, q, e.doc, ns=n2 or None, prefix=p, local=l, isns=True)
            a.owner = e
            e.attrs.append(a)
        else:
            a.prefix, a.name = p, q
        self.setval(a, v)

    def setattrnode(self, e, a, nsaware):
        errs = set()
        if a.type != ATTR:
            raise Err(HIER)
        if a.owner is e:
            return a
        if e.ro:
            errs.add(NOMOD)
        if a.doc is not e.doc:
            errs.add(WRONGDOC)
        if a.owner is not None:
            errs.add(INUSE)
        if errs:
            raise Err(*errs)
        old = e.attrns(a.ns or '', a.local) if nsaware else e.attr(a.name)
        if old is not None:
            e.attrs[e.attrs.index(old)] = a
            old.owner = None
        else:
            e.attrs.append(a)
        a.owner = e
        return old

    def rmattr(self, e, a):
        errs = set()
        if e.ro:
            errs.add(NOMOD)
        if a is None or a.owner is not e:
            errs.add(NOTFOUND)
        if errs:
            raise Err(*errs)
        e.attrs.remove(a)
        a.owner = None
        return a

    def prefix(self, n, p):
        if n.type not in (ELEMENT, ATTR):
            return
        errs = set()
        if n.ro:
            errs.add(NOMOD)
        if p and not is_name(p):
            errs.add(INVCHAR)
        if ':' in p:
            errs.add(NS_ERR)
        if not n.isns or n.ns is None:
            errs.add(NS_ERR)
        if p == 'xml' and n.ns != XML_NS:
            errs.add(NS_ERR)
        if n.type == ATTR and p == 'xmlns' and n.ns != XMLNS_NS:
            errs.add(NS_ERR)
        if n.type == ATTR and n.name == 'xmlns':
            errs.add(NS_ERR)
        if errs:
            raise Err(*errs)
        n.prefix = p
        n.name = (p + ':' if p else '') + n.local

    # -- character data ---------------------------------------------------------------------------
    def cdop(self, n, op, off, cnt=None, arg=None):
        errs = set()
        if op != 'sub' and n.ro:
            errs.add(NOMOD)
        if off < 0 or off > len(n.value) or (cnt is not None and cnt < 0):
            errs.add(INDEX)
        if errs:
            raise Err(*errs)
        v = n.value
        if op == 'sub':
            return v[off:off + cnt]
        if op == 'ins':
            n.value = v[:off] + arg + v[off:]
        elif op == 'del':
            n.value = v[:off] + v[off + cnt:]
        elif op == 'rep':
            n.value = v[:off] + arg + v[off + cnt:]

    def split(self, n, off):
        errs = set()
        if n.ro:
            errs.add(NOMOD)
        if off < 0 or off > len(n.value):
            errs.add(INDEX)
        if n.parent is not None and n.parent.ro:
            errs.add(NOMOD)
        if errs:
            raise Err(*errs)
        t = self.new(n.type, n.name, n.doc, n.value[off:])
        n.value = n.value[:off]
        if n.parent is not None:
            k = n.parent.children
            i = next(j for j, c in enumerate(k) if c is n)
            k.insert(i + 1, t)
            t.parent = n.parent
        return t

    def set_ro(self, n):
        n.ro = True
        for a in n.attrs:
            self.set_ro(a)
        for c in n.children:
            self.set_ro(c)

    def purge(self, p, old):
        e = set()
        if p.type not in ALLOWED:
            e |= {HIER, NOTFOUND}
        if old.parent is not p:
            e.add(NOTFOUND)
        if p.ro:
            e.add(NOMOD)
        if old.type == DOCTYPE:
            e.add(HIER)
        if e:
            raise Err(*e)
        self.detach(old)
        gone = []

        def w(n):
            gone.append(n)
            for a in n.attrs:
                w(a)
            for c in n.children:
                w(c)
        w(old)
        for n in gone:
            self.nodes.pop(n.id, None)
        return gone

    def by_id(self, d, v):
        r = []
        for n in d.walk():
            if n.type == ELEMENT:
                for a in n.attrs:
                    if (d.id, n.name, a.name) in self.idattrs and a.nodevalue() == v:
                        r.append(n)
        return r

    # -- lists --------------------------------------------------------------------------------------
    def by_tag(self, root, name):
        return [n for n in root.walk() if n is not root and n.type == ELEMENT and (name == '*' or n.name == name)]

    def by_tag_ns(self, root, ns, local):
        return [n for n in root.walk() if n is not root and n.type == ELEMENT and
                (ns == '*' or (n.ns or '') == ns) and (local == '*' or n.isns and n.local == local)]


# -- TreeWalker (DOM Level 2 Traversal) ---------------------------------------------------------------
ACCEPT, REJECT, SKIP = 'A', 'R', 'S'


class Walker:
    def __init__(self, root, what, filt, expand):
        self.root, self.what, self.filt, self.expand, self.cur = root, what, filt, expand, root

    def acc(self, n):
        if not (self.what >> (n.type - 1)) & 1:
            return SKIP
        if self.filt:
            return self.filt[n.id % len(self.filt)]
        return ACCEPT

    def kids(self, n):
        if n.type == ENTREF and not self.expand:
            return []
        return n.children

    def vchildren(self, n):
        """children of n in the logical view (n itself visible or the root)"""
        for c in self.kids(n):
            a = self.acc(c)
            if a == ACCEPT:
                yield c
            elif a == SKIP:
                yield from self.vchildren(c)

    def inroot(self, n):
        while n is not None:
            if n is self.root:
                return True
            n = n.parent
        return False

    def parent(self):
        n = self.cur
        while n is not self.root:
            n = n.parent
            if n is None:
                return None
            if self.acc(n) == ACCEPT:
                return self.go(n)
        return None

    def go(self, n):
        if n is not None:
            self.cur = n
        return n

    def first(self):
        return self.go(next(iter(self.vchildren(self.cur)), None))

    def last(self):
        l = list(self.vchildren(self.cur))
        return self.go(l[-1] if l else None)

    def sibling(self, forward):
        n = self.cur
        while n is not self.root:
            p = n.parent
            if p is None:
                return None
            k = self.kids(p) or p.children
            i = next(j for j, c in enumerate(k) if c is n)
            rest = k[i + 1:] if forward else list(reversed(k[:i]))
            for c in rest:
                a = self.acc(c)
                if a == ACCEPT:
                    return self.go(c)
                if a == SKIP:
                    v = list(self.vchildren(c))
                    if v:
                        return self.go(v[0] if forward else v[-1])
            if p is self.root or self.acc(p) == ACCEPT:
                return None
            n = p
        return None

    def nextnode(self):
        f = next(iter(self.vchildren(self.cur)), None)
        if f is not None:
            return self.go(f)
        n = self.cur
        while n is not self.root:
            p = n.parent
            if p is None:
                return None
            k = p.children
            i = next(j for j, c in enumerate(k) if c is n)
            for c in k[i + 1:]:
                a = self.acc(c)
                if a == ACCEPT:
                    return self.go(c)
                if a == SKIP:
                    v = next(iter(self.vchildren(c)), None)
                    if v is not None:
                        return self.go(v)
            n = p
        return None

    def prevnode(self):
        n = self.cur
        while n is not self.root:
            p = n.parent
            if p is None:
                return None
            k = p.children
            i = next(j for j, c in enumerate(k) if c is n)
            for c in reversed(k[:i]):
                l = self.lastvisible(c)
                if l is not None:
                    return self.go(l)
            if self.acc(p) == ACCEPT:
                return self.go(p)
            n = p
        return None

    def lastvisible(self, c):
        """last node in document order among c and its visible descendants"""
        a = self.acc(c)
        if a == REJECT:
            return None
        for k in reversed(self.kids(c)):
            l = self.lastvisible(k)
            if l is not None:
                return l
        return c if a == ACCEPT else None

    def move(self, op):
        return {'p': self.parent, 'f': self.first, 'l': self.last, 'b': lambda: self.sibling(False),
                's': lambda: self.sibling(True), '+': self.nextnode, '-': self.prevnode}[op]()
