"""D01-D09: DOM operation histories on the real DOM, checked offline against dommodel."""
import re
import random
import vlib
from vlib import Case, Check, Crash, n_cases
import dommodel as dm
from dommodel import *

ASSUME = ['single-threaded use of each document', 'DOMs are built through the public API or SAX2DOM with the Expat reader']


class Session:
    """drives the model and records the script and what must be observed"""

    def __init__(self, rng):
        self.rng = rng
        self.m = Model()
        self.script = []
        self.expect = []   # (set of allowed ('R'|'X', text), {id: dump} changed) per script line
        self.last = {}
        self.stats = {}
        self.live = set()
        self.known = set()
        self.dumping = True

    def raw(self, line, allowed):
        self.script.append([str(x) for x in line])
        d = {}
        if self.dumping:
            for i in sorted(self.live):
                s = self.m.dump_node(self.m.nodes[i])
                if self.last.get(i) != s:
                    self.last[i] = s
                    d[i] = s
        self.expect.append((allowed, d))

    def do(self, line, fn, conv=None):
        """fn() runs on the model; returns its value or None when it raised"""
        k = line[0]
        try:
            v = fn()
        except Err as e:
            self.stats[k + '!'] = self.stats.get(k + '!', 0) + 1
            self.raw(line, {('X', str(c)) for c in e.codes})
            return None
        self.stats[k] = self.stats.get(k, 0) + 1
        self.track()
        r = conv(v) if conv else 'ok'
        self.raw(line, {('R', x) for x in (r if isinstance(r, set) else {r})})
        if any(n is None for n in [None]):
            pass
        self.sync()
        return v

    def track(self):
        new = set(self.m.nodes) - self.known
        self.known |= new
        self.live |= new

    def sync(self):
        m = self.m
        start = m.nextid
        before = set(m.nodes)
        m.sync()
        if len(m.nodes) != len(before):
            self.track()
            self.raw(['sync', start], {('R', str(len(m.nodes) - len(before)))})

    def create(self, op, args, fn):
        m = self.m
        i = m.nextid

        def f():
            n = fn()
            m.reg(n, i)
            return n
        return self.do([op, i] + args, f)

    # -- pools ------------------------------------------------------------------------------
    NAMES = ['a', 'b', 'c', 'id', 'x.y', '_z', 'b-1']
    BADN = ['', '1a', 'a b', '-a', 'a<', 'a&b', '.q']
    QN = ['a', 'b', 'p:a', 'q:a', 'p:b', 'r:id', 'id']
    BADQ = [':a', 'a:', 'a:b:c', 'xml:q', 'p:1 a', '']
    NSS = ['', 'urn:1', 'urn:2', 'urn:1']
    DATA = ['', 'x', 'hello', 'a b  c', '<&>"', '  ', 'abcdefghij', '0123456789' * 3, ']]', 'tail']

    def name(self):
        return self.rng.choice(self.BADN if self.rng.random() < .06 else self.NAMES)

    def nsq(self):
        r = self.rng.random()
        if r < .06:
            return self.rng.choice(self.NSS), self.rng.choice(self.BADQ)
        if r < .09:
            return XML_NS, 'xml:' + self.rng.choice(['lang', 'id'])
        q = self.rng.choice(self.QN)
        ns = self.rng.choice(self.NSS)
        if ':' in q and self.rng.random() < .9:
            ns = self.rng.choice(['urn:1', 'urn:2'])
        return ns, q

    def data(self):
        return self.rng.choice(self.DATA)

    def pick(self, *types, pred=None):
        c = [n for i, n in self.m.nodes.items() if i in self.live and (not types or n.type in types) and (pred is None or pred(n))]
        return self.rng.choice(c) if c else None

    # -- operations -----------------------------------------------------------------------------
    def op_newdoc(self):
        ns, q = self.nsq()
        i = self.m.nextid
        dt = None
        if self.rng.random() < .3:
            dt = self.op_newdt()
            i = self.m.nextid
        if self.rng.random() < .3:
            q = ''
        return self.do(['newdoc', i, ns, q, dt.id if dt else '-'], lambda: self.m.newdoc(i, ns, q, dt))

    def op_newdt(self):
        i = self.m.nextid
        a = [self.rng.choice(['html', 'p:q', 'a']), self.rng.choice(['', '-//X//Y']), self.rng.choice(['', 'http://x/y.dtd'])]
        return self.do(['newdt', i] + a, lambda: self.m.newdt(i, *a))

    def op_create(self, d=None, kind=None):
        m = self.m
        d = d or self.pick(DOC)
        k = kind or self.rng.choice(['ce', 'ce', 'cens', 'cens', 'ct', 'ct', 'cc', 'cd', 'cpi', 'cf', 'ca', 'cans', 'cer'])
        if k == 'ce':
            n = self.name()
            return self.create(k, [d.id, n], lambda: m.ce(d, n))
        if k == 'cens':
            ns, q = self.nsq()
            return self.create(k, [d.id, ns, q], lambda: m.mk_elem_ns(d, ns, q))
        if k == 'ca':
            n = self.name()
            return self.create(k, [d.id, n], lambda: m.ca(d, n))
        if k == 'cans':
            ns, q = self.nsq()
            return self.create(k, [d.id, ns, q], lambda: m.mk_attr_ns(d, ns, q))
        if k == 'cf':
            return self.create(k, [d.id], lambda: m.new(FRAG, '#document-fragment', d))
        if k == 'cpi':
            n, v = self.rng.choice(self.NAMES), self.rng.choice(self.DATA)
            return self.create(k, [d.id, n, v], lambda: m.new(PI, n, d, v))
        if k == 'cer':
            n = self.rng.choice(self.NAMES + ['e1', 'e2', 'e3'] * (3 if d.doctype and d.doctype.extra['entities'] else 0))
            return self.create(k, [d.id, n], lambda: m.cer(d, n))
        t, nm = {'ct': (TEXT, '#text'), 'cc': (COMMENT, '#comment'), 'cd': (CDATA, '#cdata-section')}[k]
        v = self.data()
        return self.create(k, [d.id, v], lambda: m.new(t, nm, d, v))

    def op_tree(self):
        r = self.rng
        m = self.m
        k = r.choice(['ins', 'ins', 'app', 'app', 'rep', 'rem'])
        if r.random() < .1:
            p, n = self.pick(), self.pick(pred=lambda n: n.type != DOCTYPE or n.parent is not None)
        else:
            p = self.pick(ELEMENT, ELEMENT, FRAG, DOC, ATTR)
            if p is None:
                return
            al = ALLOWED[p.type]
            n = self.pick(pred=lambda n: n.type in al and n.type != DOCTYPE or n.type == FRAG)
        if p is None or n is None:
            return
        ref = None
        if p.children and r.random() < .85:
            ref = r.choice(p.children)
        elif r.random() < .5:
            ref = self.pick()
        rid = lambda v: m.ref(v)
        if ref is not None and ref.id not in self.live or n.type == NOTATION or p.type == NOTATION:
            return
        if k == 'app':
            self.do([k, p.id, n.id], lambda: m.ins(p, n, None), rid)
        elif k == 'ins':
            if r.random() < .15:
                ref = None
            self.do([k, p.id, n.id, '-' if ref is None else ref.id], lambda: m.ins(p, n, ref), rid)
        elif ref is None:
            return
        elif k == 'rep':
            self.do([k, p.id, n.id, ref.id], lambda: m.rep(p, n, ref), rid)
        else:
            self.do([k, p.id, ref.id], lambda: m.rem(p, ref), rid)

    def op_attr(self):
        r, m = self.rng, self.m
        e = self.pick(ELEMENT)
        if e is None:
            return
        # an element is used either through the level 1 or through the namespace methods (DOM requires that)
        nsmode = any(a.isns for a in e.attrs) or (not e.attrs and r.random() < .5)
        getter = r.random()
        s = lambda v: "'" + v
        if nsmode:
            if e.attrs and r.random() < .5:
                a = r.choice(e.attrs)
                ns, q = a.ns or '', a.name
                if r.random() < .3 and a.local and ns:
                    q = r.choice(['p:', 'q:', '']) + a.local
                    if a.prefix in ('xml', 'xmlns'):
                        q = a.name
            else:
                ns, q = self.nsq()
            # two attributes with the same qualified name but different namespaces are not expressible; skip
            l = q.partition(':')[2] or q
            k = r.choice(['sans', 'sans', 'rans', 'gans', 'hans', 'ganns', 'sanns', 'sanns', 'msetns', 'mgetns', 'mremns', 'ran', 'new'])
            if k == 'new':
                self.op_create(e.doc, 'cans')
            elif k == 'sans':
                v = self.data()
                if self.clash(e, ns, q):
                    return
                self.do([k, e.id, ns, q, v], lambda: m.sans(e, ns, q, v))
            elif k in ('rans', 'mremns'):
                a = e.attrns(ns, l)
                if k == 'rans':
                    if a is None and not e.ro:  # DOM L2: removing a missing attribute: no effect or NOT_FOUND
                        self.raw([k, e.id, ns, l], {('R', 'ok'), ('X', str(NOTFOUND))})
                        return
                    self.do([k, e.id, ns, l], lambda: m.rmattr(e, a))
                else:
                    self.raw(['map', 99, e.id], {('R', 'ok')})
                    self.do([k, 99, ns, l], lambda: m.rmattr(e, a), m.ref)
            elif k == 'gans':
                a = e.attrns(ns, l)
                self.do([k, e.id, ns, l], lambda: a.nodevalue() if a else '', s)
            elif k == 'hans':
                a = e.attrns(ns, l)
                self.do([k, e.id, ns, l], lambda: a, lambda v: '1' if v else '0')
            elif k in ('ganns', 'mgetns'):
                a = e.attrns(ns, l)
                if k == 'mgetns':
                    self.raw(['map', 99, e.id], {('R', 'ok')})
                self.do([k, 99 if k == 'mgetns' else e.id, ns, l], lambda: a, m.ref)
            elif k in ('sanns', 'msetns'):
                a = self.pick(ATTR, pred=lambda a: a.isns)
                if a is None or (a.owner is not e and self.clash(e, a.ns or '', a.name)):
                    return
                self.setnode(k, e, a, True)
            elif k == 'ran':
                a = r.choice(e.attrs) if e.attrs and r.random() < .7 else self.pick(ATTR)
                if a is not None and a.id in self.live:
                    self.do([k, e.id, a.id], lambda: m.rmattr(e, a), m.ref)
        else:
            name = r.choice(e.attrs).name if e.attrs and r.random() < .5 else self.name()
            k = r.choice(['sa', 'sa', 'ra', 'ga', 'ha', 'gan', 'san', 'san', 'mset', 'mget', 'mrem', 'ran', 'new'])
            a = e.attr(name)
            if k == 'new':
                self.op_create(e.doc, 'ca')
            elif k == 'sa':
                v = self.data()
                self.do([k, e.id, name, v], lambda: m.sa(e, name, v))
            elif k == 'ra':
                if a is None and not e.ro:
                    self.raw([k, e.id, name], {('R', 'ok'), ('X', str(NOTFOUND))})
                    return
                self.do([k, e.id, name], lambda: m.rmattr(e, a))
            elif k == 'mrem':
                self.raw(['map', 99, e.id], {('R', 'ok')})
                self.do([k, 99, name], lambda: m.rmattr(e, a), m.ref)
            elif k == 'ga':
                self.do([k, e.id, name], lambda: a.nodevalue() if a else '', s)
            elif k == 'ha':
                self.do([k, e.id, name], lambda: a, lambda v: '1' if v else '0')
            elif k in ('gan', 'mget'):
                if k == 'mget':
                    self.raw(['map', 99, e.id], {('R', 'ok')})
                self.do([k, 99 if k == 'mget' else e.id, name], lambda: a, m.ref)
            elif k in ('san', 'mset'):
                b = self.pick(ATTR, pred=lambda a: not a.isns)
                if k == 'mset' and r.random() < .1:
                    b = self.pick(ELEMENT, TEXT)
                if b is None:
                    return
                self.setnode(k, e, b, False)
            elif k == 'ran':
                b = r.choice(e.attrs) if e.attrs and r.random() < .7 else self.pick(ATTR)
                if b is not None and b.id in self.live:
                    self.do([k, e.id, b.id], lambda: m.rmattr(e, b), m.ref)

    @staticmethod
    def clash(e, ns, q):
        """another attribute of e has the same qualified name in a different namespace"""
        l = q.partition(':')[2] or q
        return any(b.name == q and (not b.isns or (b.ns or '') != ns or b.local != l) for b in e.attrs)

    def setnode(self, k, e, a, nsaware):
        m = self.m
        tgt = e.id
        if k.startswith('m'):
            self.raw(['map', 99, e.id], {('R', 'ok')})
            tgt = 99
        if a.type == ATTR and a.owner is e:
            self.do([k, tgt, a.id], lambda: m.setattrnode(e, a, nsaware), lambda v: {m.ref(a), '-'})
        else:
            self.do([k, tgt, a.id], lambda: m.setattrnode(e, a, nsaware), m.ref)

    def op_value(self):
        m = self.m
        k = self.rng.choice(['setval', 'setval', 'setattrval', 'prefix', 'prefix', 'pidata'])
        if k == 'prefix':
            n = self.pick(ELEMENT, ATTR) if self.rng.random() < .95 else self.pick()
            p = self.rng.choice(['', 'p', 'q', 'zz', 'xml', 'xmlns', '1', 'a b', 'a:b'])
            if n is None or n.prefix in ('xml', 'xmlns') or n.name == 'xmlns':
                return
            newname = (p + ':' if p else '') + n.local
            if n.type == ATTR and n.owner is not None and any(b is not n and b.name == newname for b in n.owner.attrs):
                return
            if n.type in (ELEMENT, ATTR) and not n.isns:
                # level 1 nodes: NAMESPACE_ERR or no effect, both conform
                self.raw([k, n.id, p], {('R', 'ok'), ('X', str(NS_ERR)), ('X', str(INVCHAR)), ('X', str(NOMOD))})
                return
            if n.isns and n.ns is None and p == '':
                self.raw([k, n.id, p], {('R', 'ok'), ('X', str(NS_ERR)), ('X', str(NOMOD))})
                return
            self.do([k, n.id, p], lambda: m.prefix(n, p))
            return
        if k == 'setattrval':
            n = self.pick(ATTR)
        elif k == 'pidata':
            n = self.pick(PI)
        else:
            n = self.pick()
        if n is None:
            return
        v = self.data()
        self.do([k, n.id, v], lambda: m.setval(n, v))

    def op_chars(self):
        r, m = self.rng, self.m
        n = self.pick(TEXT, CDATA, COMMENT)
        if n is None:
            return
        k = r.choice(['sub', 'appd', 'insd', 'deld', 'repd', 'setd', 'split', 'split'])
        L = len(n.value)
        off = r.choice([0, 1, L // 2, L, L, max(0, L - 1), L + 1, L + 5, -1, r.randint(0, L)])
        cnt = r.choice([0, 1, 2, L, L + 1, L - off if L >= off else 0, 1000, 2147483647, -1, r.randint(0, L + 1)])
        v = self.data()
        if k == 'sub':
            self.do([k, n.id, off, cnt], lambda: m.cdop(n, 'sub', off, cnt), lambda v: "'" + v)
        elif k in ('appd', 'setd'):
            self.do([k, n.id, v], lambda: m.setval(n, n.value + v if k == 'appd' else v))
        elif k == 'insd':
            self.do([k, n.id, off, v], lambda: m.cdop(n, 'ins', off, None, v))
        elif k == 'deld':
            self.do([k, n.id, off, cnt], lambda: m.cdop(n, 'del', off, cnt))
        elif k == 'repd':
            self.do([k, n.id, off, cnt, v], lambda: m.cdop(n, 'rep', off, cnt, v))
        elif n.type != COMMENT:
            self.create('split', [n.id, off], lambda: m.split(n, off))

    def op_norm(self):
        n = self.pick(ELEMENT, FRAG, DOC, ATTR)
        if n and not any(x.ro for x in n.walk()):
            self.do(['norm', n.id], lambda: self.m.normalize(n))

    def op_clone(self):
        n = self.pick(pred=lambda n: n.type not in (DOC, DOCTYPE, ENTITY, NOTATION))
        deep = self.rng.choice([0, 1])
        if n and len(self.m.nodes) < 140:
            self.create('clone', [n.id, deep], lambda: self.m.clone(n, deep))

    def op_import(self):
        d = self.pick(DOC)
        n = self.pick(pred=lambda n: n.type not in (ENTITY, NOTATION))
        deep = self.rng.choice([0, 1])
        if n and len(self.m.nodes) < 140:
            self.create('import', [d.id, n.id, deep], lambda: self.m.import_(d, n, deep))

    op_import_ = op_import

    def op_list(self):
        r, m = self.rng, self.m
        if len(m.lists) < 6 and r.random() < .5 or not m.lists:
            i = r.randint(1, 6)
            n = self.pick(DOC, ELEMENT, FRAG, ATTR) if r.random() < .3 else self.pick(DOC, ELEMENT)
            if n is None:
                return
            k = 'cn' if n.type in (FRAG, ATTR) or r.random() < .2 else r.choice(['gbt', 'gbtns'])
            if k == 'cn':
                m.lists[i] = ('cn', n)
                self.raw([k, i, n.id], {('R', 'ok')})
            elif k == 'gbt':
                t = r.choice(self.NAMES + self.QN + ['*', '*'])
                m.lists[i] = ('gbt', n, t)
                self.raw([k, i, n.id, t], {('R', 'ok')})
            else:
                ns, l = r.choice(['*', 'urn:1', 'urn:2', '']), r.choice(['*', 'a', 'b', 'c', 'id'])
                m.lists[i] = ('gbtns', n, ns, l)
                self.raw([k, i, n.id, ns, l], {('R', 'ok')})
            return
        i = r.choice(sorted(m.lists))
        k = r.choice(['lall', 'lall', 'li', 'li', 'll', 'lassign'])
        if k == 'lassign':
            j = r.randint(1, 6)
            m.lists[j] = m.lists[i]
            self.raw([k, j, i], {('R', 'ok')})
            return
        l = m.lists[i]
        v = l[1].children if l[0] == 'cn' else m.by_tag(l[1], l[2]) if l[0] == 'gbt' else m.by_tag_ns(l[1], l[2], l[3])
        self.stats['list'] = self.stats.get('list', 0) + 1
        if v:
            self.stats['list+'] = self.stats.get('list+', 0) + 1
        if k == 'lall':
            self.raw([k, i], {('R', ','.join(m.ref(x) for x in v))})
        elif k == 'll':
            self.raw([k, i], {('R', str(len(v)))})
        else:
            x = r.choice([0, 1, 2, len(v) - 1, len(v), len(v) + 3])
            if x >= 0:
                self.raw([k, i, x], {('R', m.ref(v[x]) if x < len(v) else '-')})

    def steps(self, n, weights):
        ks = list(weights)
        ws = [weights[k] for k in ks]
        for _ in range(n):
            getattr(self, 'op_' + self.rng.choices(ks, ws)[0])()

    def populate(self, docs=2, n=14):
        for _ in range(docs):
            while self.op_newdoc() is None:
                pass
        for d in [x for x in self.m.nodes.values() if x.type == DOC]:
            for _ in range(n // docs):
                self.op_create(d)


def explain(s, i, got, want):
    ctx = '\n'.join('  ' + '\t'.join(map(repr, l)) for l in s.script[max(0, i - 6):i + 1])
    return 'after\n%s\ngot %r\nexpected %s' % (ctx, got, want)


def judge(s, events):
    """compare one session with the driver's log; None or text"""
    crash = None
    if isinstance(events, Crash):
        events, crash = events.partial, repr(events)
        if 'HARNESS' not in crash:
            return crash
    i = -1
    seen = {}

    def close():
        if i >= 0 and s.expect[i][1] != seen:
            w = s.expect[i][1]
            bad = sorted(k for k in set(w) | set(seen) if w.get(k) != seen.get(k))
            return explain(s, i, {k: seen.get(k) for k in bad[:3]}, {k: w.get(k) for k in bad[:3]})
    for e in events:
        if e[0] in 'RX' and len(e[0]) == 1:
            r = close()
            if r:
                return r
            i += 1
            seen = {}
            if i >= len(s.expect):
                return 'extra output %r' % (e,)
            if (e[0], e[1]) not in s.expect[i][0]:
                return explain(s, i, tuple(e), sorted(s.expect[i][0]))
        elif e[0] == 'D':
            seen[int(e[1])] = e[2]
        elif e[0] == 'LEAK':
            return 'memory leaked'
        else:
            return 'unexpected event %r' % (e,)
    if crash:
        return crash
    r = close()
    if r:
        return r
    if i + 1 != len(s.expect):
        return 'log ended after %d of %d operations' % (i + 1, len(s.expect))


def run_sessions(chk, sessions, exe=None, nontrivial=None):
    exe = exe or vlib.build([dict(name='dom', srcs=['dom.cpp'])])['dom']
    cases = [Case(i, s.script) for i, s in enumerate(sessions)]
    res = vlib.run(exe, cases, leak=50)
    for c, s in zip(cases, sessions):
        if c.id not in res:
            continue
        v = judge(s, res[c.id])
        if v:
            chk.violation(v, c.text())
        for k, n in s.stats.items():
            chk.count('op ' + k, n)
        chk.count('node states compared', sum(len(e[1]) for e in s.expect))
        chk.ok(None if nontrivial and not nontrivial(s) else tuple(map(tuple, s.script)))
        chk.sample(' ; '.join(' '.join(l) for l in s.script[:25])[:600])


RULE = ('one evaluation = one random operation history, every result and the full observable state of every node after each '
        'operation compared with the model; non-trivial: ')


def simple(pid, weights, what, quick=1100, steps=45, docs=2, n=14, need=(), more=None):
    chk = Check(pid, rule=RULE + what, assumptions=ASSUME)
    ss = []
    for _ in range(n_cases(quick, quick * 12)):
        s = Session(random.Random(chk.rng.random()))
        s.populate(docs, n)
        s.steps(chk.rng.randint(steps // 2, steps * 2), weights)
        ss.append(s)
    run_sessions(chk, ss, nontrivial=lambda s: all(any(s.stats.get(k, 0) for k in g) for g in need))
    if more:
        more(chk)
    chk.finish()



def check_D01():
    simple('D01', dict(tree=20, create=3, clone=1, norm=.5, chars=.5, attr=.5),
           'at least one successful and one refused tree operation', steps=60,
           need=[('ins', 'app', 'rep', 'rem'), ('ins!', 'app!', 'rep!', 'rem!')])


def check_D02():
    simple('D02', dict(attr=20, create=1, value=2, clone=.7, tree=1), 'attributes were set and removed', steps=70,
           need=[('sa', 'sans', 'san', 'sanns'), ('ra', 'rans', 'ran', 'mrem', 'mremns')], more=defaults)


# -- attributes with declared defaults -------------------------------------------------------------------
class Defaults:
    """one history over documents whose DTD declares default attributes.  Attributes are name -> [value, specified];
    specified is None for those the parser supplied itself, which SAX does not tell apart."""
    ELS = ['a', 'b', 'p:e']
    ATS = ['x', 'y', 'z', 'x-y', 'p:v', 'p:x']
    VALS = ['', 'd', 'one two', '<&>', 'q"q', '0', 'long' * 12]

    def __init__(self, rng):
        self.r = rng
        self.script, self.expect = [['dumpoff']], []
        self.n = 0
        self.ns = rng.random() < .6
        self.docs, self.els = [], []
        self.removed = self.fresh = 0
        for _ in range(rng.choice([1, 2, 2])):
            self.doc()

    def id(self):
        self.n += 1
        return self.n

    def emit(self, line, want):
        self.script.append([str(x) for x in line])
        self.expect.append(want)

    def doc(self):
        r = self.r
        decl, out = {}, ''
        esc = lambda v: v.replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;')
        for _ in range(r.randint(1, 9)):
            e, a = r.choice(self.ELS), r.choice(self.ATS)
            k = r.choice(['v', 'v', 'v', 'fixed', 'enum', 'implied', 'required', 'tok', 'empty'])
            v = r.choice(self.VALS)
            if k == 'enum':
                v = r.choice(['d', 'e'])
                t = '(d|e) "%s"' % v
            elif k == 'tok':
                v = r.choice(['d', 't.1'])
                t = 'NMTOKEN "%s"' % v
            elif k in ('implied', 'required'):
                v, t = None, 'CDATA #' + k.upper()
            else:
                v = '' if k == 'empty' else v
                t = 'CDATA %s"%s"' % ('#FIXED ' if k == 'fixed' else '', esc(v))
            out += '<!ATTLIST %s %s %s>' % (e, a, t)
            decl.setdefault(e, {}).setdefault(a, v)
        d = dict(id=self.id(), decl={e: {a: v for a, v in m.items() if v is not None} for e, m in decl.items()})
        kids, body = [], ''
        for _ in range(r.randint(1, 4)):
            e = r.choice(self.ELS)
            at = {a: r.choice(self.VALS) for a in self.ATS if r.random() < .3 and not a == 'p:x'}
            body += '<%s%s/>' % (e, ''.join(' %s="%s"' % (a, esc(v)) for a, v in at.items()))
            m = {a: [v, True] for a, v in at.items()}
            for a, v in d['decl'].get(e, {}).items():
                m.setdefault(a, [v, None])
            kids.append((e, m))
        self.docs.append(d)
        self.emit(['parse', d['id'], '<!DOCTYPE root [%s]><root xmlns:p="urn:p">%s</root>' % (out, body)], 'ok')
        root = self.id()
        self.emit(['kid', root, d['id'], 1], 'root')
        for i, (e, m) in enumerate(kids):
            k = self.id()
            self.emit(['kid', k, root, i], e)
            self.els.append(dict(id=k, name=e, doc=d, at=m))
            self.look(self.els[-1])

    def look(self, e):
        self.emit(['attrs', e['id']], {a: tuple(v) for a, v in e['at'].items()})

    def dflt(self, d, name):
        return d['decl'].get(name, {})

    def split(self, a):
        return ('urn:p', a[2:]) if a.startswith('p:') else ('', a)

    def step(self):
        r = self.r
        e = r.choice(self.els)
        at, name = e['at'], r.choice(sorted(e['at']) + self.ATS)
        ns, local = self.split(name)
        df = self.dflt(e['doc'], e['name'])
        v = r.choice(self.VALS)
        k = r.choice(['set', 'set', 'setnode', 'rem', 'rem', 'rem', 'remnode', 'get', 'has', 'value', 'value', 'new', 'new', 'clone', 'import', 'aclone', 'aimport'])
        if len(self.els) > 12 and k in ('new', 'clone', 'import'):
            k = 'rem'
        look = True

        def gone():
            if at[name][1] is not True:
                self.fresh += 1
            self.removed += 1
            del at[name]
            if name in df:
                at[name] = [df[name], False]
        if k == 'set':
            self.emit(['sans', e['id'], ns, name, v] if self.ns else ['sa', e['id'], name, v], 'ok')
            at[name] = [v, True]
        elif k == 'setnode':
            i = self.id()
            self.emit(['cans', i, e['doc']['id'], ns, name] if self.ns else ['ca', i, e['doc']['id'], name], 'ok')
            self.emit(['setattrval', i, v], 'ok')
            if r.random() < .5:
                self.emit(['sanns' if self.ns else 'san', e['id'], i], None)
            else:
                self.emit(['map', 1, e['id']], 'ok')
                self.emit(['msetns' if self.ns else 'mset', 1, i], None)
            at[name] = [v, True]
        elif k in ('rem', 'remnode'):
            if name not in at or self.ns and ':' in name and at[name][1] is False:
                return  # its namespace is not known: the DTD has none
            if k == 'remnode':
                self.emit(['attrrem', e['id'], name], 'ok')
            elif r.random() < .5:
                self.emit(['rans', e['id'], ns, local] if self.ns else ['ra', e['id'], name], 'ok')
            else:
                self.emit(['map', 1, e['id']], 'ok')
                self.emit(['mremns', 1, ns, local] if self.ns else ['mrem', 1, name], None)
            gone()
        elif k in ('get', 'has'):
            if self.ns and ':' in name and name in at and at[name][1] is False:
                return
            if k == 'get':
                self.emit(['gans', e['id'], ns, local] if self.ns else ['ga', e['id'], name], "'" + (at[name][0] if name in at else ''))
            else:
                self.emit(['hans', e['id'], ns, local] if self.ns else ['ha', e['id'], name], '1' if name in at else '0')
            look = r.random() < .3
        elif k == 'value':
            if name not in at or self.ns and ':' in name and at[name][1] is False:
                return
            self.emit(['attrset', e['id'], name, v], 'ok')
            at[name] = [v, True]
        elif k in ('aclone', 'aimport'):
            if name not in at:
                return
            if k == 'aclone':
                self.emit(['attrclone', e['id'], name, r.choice([0, 1])], '%s=%sS' % (name, at[name][0]))
            else:
                self.emit(['attrimport', e['id'], name, r.choice([0, 1]), r.choice(self.docs)['id']], '%s=%sS' % (name, at[name][0]))
        else:
            d = e['doc']
            i = self.id()
            if k == 'new':
                d = r.choice(self.docs)
                nm = r.choice(self.ELS + ['c'])
                self.emit(['cens', i, d['id'], 'urn:p' if ':' in nm else '', nm] if self.ns else ['ce', i, d['id'], nm], 'ok')
                m = {}
            elif k == 'clone':
                nm = e['name']
                self.emit(['clone', i, e['id'], r.choice([0, 1])], 'ok')
                m = {a: list(x) for a, x in at.items() if x[1] is not False}
            else:
                d = r.choice(self.docs)
                nm = e['name']
                if any(x[1] is None for x in at.values()):
                    return
                self.emit(['import', i, d['id'], e['id'], r.choice([0, 1])], 'ok')
                m = {a: list(x) for a, x in at.items() if x[1]}
            for a, x in self.dflt(d, nm).items():
                if a not in m:
                    m[a] = [x, False]
                    self.fresh += 1
            e = dict(id=i, name=nm, doc=d, at=m)
            self.els.append(e)
        if look:
            self.look(e)

    def judge(self, events):
        if isinstance(events, Crash):
            return repr(events)
        steps = self.script[1:]
        for i, want in enumerate(self.expect):
            if i >= len(events):
                return 'log ended after %d of %d operations' % (i, len(self.expect))
            got = events[i]
            if isinstance(want, dict):
                ok = got[0] == 'R'
                if ok:
                    seen = {}
                    for x in got[1][1:].split('\x02')[:-1]:
                        q, v, sp, ns, local, own = x.split('\x01')
                        ok &= q not in seen and not own
                        seen[q] = (v, sp == 'S')
                        if self.ns and ':' not in q:
                            ok &= (ns, local) == ('', q)
                        if self.ns and ':' in q and want.get(q, (0, 0))[1] is not False:
                            ok &= (ns, local) == ('urn:p', q[2:])
                    ok &= set(seen) == set(want) and all(seen[q][0] == v and (sp is None or seen[q][1] == sp) for q, (v, sp) in want.items())
            else:
                ok = got[0] == 'R' and (want is None or got[1] == want)
            if not ok:
                return 'attribute defaults: after\n%s\ngot %r\nexpected %r' % ('\n'.join('  ' + '\t'.join(map(repr, l)) for l in steps[max(0, i - 6):i + 1]), got, want)
        if len(events) != len(self.expect):
            return 'unexpected %r' % (events[len(self.expect)],)


def defaults(chk):
    exe = vlib.build([dict(name='dom', srcs=['dom.cpp'])])['dom']
    hs = []
    for _ in range(n_cases(500, 8000)):
        h = Defaults(random.Random(chk.rng.random()))
        for _ in range(h.r.randint(8, 40)):
            h.step()
        hs.append(h)
    cases = [Case('d%d' % i, h.script) for i, h in enumerate(hs)]
    res = vlib.run(exe, cases, leak=50)
    for c, h in zip(cases, hs):
        if c.id not in res:
            continue
        v = h.judge(res[c.id])
        if v:
            chk.violation(v, c.text())
        chk.count('attribute lists with declared defaults compared', sum(isinstance(w, dict) for w in h.expect))
        chk.count('removals from elements with declared defaults', h.removed)
        chk.count('defaults that appeared or were removed', h.fresh)
        chk.ok(tuple(map(tuple, h.script)) if h.removed and h.fresh else None)


def check_D03():
    simple('D03', dict(chars=20, create=2, tree=3, norm=1.5, value=1, attr=.5),
           'character data was changed and an out-of-range offset refused', steps=60,
           need=[('insd', 'deld', 'repd', 'split'), ('insd!', 'deld!', 'repd!', 'split!', 'sub!')])


def check_D04():
    simple('D04', dict(clone=6, import_=5, tree=5, attr=4, value=2, chars=2, create=1, norm=.5),
           'clones and imports were made and both sides changed afterwards', steps=50, quick=1100,
           need=[('clone',), ('import',)])


def dtd_doc(s, ids=True, entities=True):
    """a parsed document with a DTD, added to the session"""
    m, r = s.m, s.rng
    i = m.nextid
    decl, ents = '', []
    dt = m.new(DOCTYPE, 'a', None)
    dt.extra = dict(pub='', sys='', entities=[], notations=[])
    d = m.new(DOC, '#document', None)
    if ids:
        decl += '<!ATTLIST a id ID #IMPLIED>\n<!ATTLIST b id CDATA #IMPLIED>\n<!ATTLIST c x.y ID #IMPLIED>'

    def mk(type, name, value=None):
        return m.new(type, name, d, value)

    def el(name, attrs=(), kids=()):
        e = m.new(ELEMENT, name, d, isns=True, local=name)
        for k, v in attrs:
            a = m.new(ATTR, k, d, isns=True, local=k)
            a.owner = e
            t = mk(TEXT, '#text', v)
            t.parent = a
            a.children = [t]
            e.attrs.append(a)
        for k in kids:
            k.parent = e
            e.children.append(k)
        return e
    if entities:
        # SAX2DOM builds the contents of simple internal entities
        for nm in ['e1', 'e2', 'e3']:
            e = mk(ENTITY, nm)
            e.extra = ['', '', '']
            if nm == 'e1':
                v = 'plain text'
                e.children = [mk(TEXT, '#text', v)]
                decl += '<!ENTITY e1 "plain text">'
            elif nm == 'e2':
                e.children = [mk(TEXT, '#text', 'u'), el('x', [('k', 'v')], [mk(TEXT, '#text', 'w'), el('y'), mk(CDATA, '#cdata-section', 'cd')]),
                              mk(COMMENT, '#comment', 'co'), mk(PI, 'pi', 'da'), el('b')]
                decl += "<!ENTITY e2 \"u<x k='v'>w<y/><![CDATA[cd]]></x><!--co--><?pi da?><b/>\">"
            else:
                e.extra = ['', 'http://x/y.gif', 'gif']
                decl += '<!NOTATION gif PUBLIC "-//G" "g.exe"><!ENTITY e3 SYSTEM "http://x/y.gif" NDATA gif>'
            for k in e.children:
                k.parent = e
            m.set_ro(e)
            dt.extra['entities'].append(e)
        n = mk(NOTATION, 'gif')
        n.extra = ['-//G', 'g.exe']
        n.ro = True
        dt.extra['notations'].append(n)
    root = el('a', [('id', 'r0')] if ids else [])
    d.children = [dt, root]
    dt.parent = root.parent = d
    d.doctype = dt
    dt.doc = d
    dt.ro = True
    txt = ''
    for j in range(r.randint(1, 5)):
        nm = r.choice(['a', 'b', 'c'])
        at = [(r.choice(['id', 'x.y']), 'v%d' % r.randint(0, 3))] if r.random() < .7 else []
        c = el(nm, at)
        c.parent = root
        root.children.append(c)
        txt += '<%s%s/>' % (nm, ''.join(' %s="%s"' % x for x in at))
    xml = '<!DOCTYPE a [%s]><a%s>%s</a>' % (decl, ' id="r0"' if ids else '', txt)

    def f():
        m.reg(d, i)
        if ids:
            m.idattrs |= {(i, 'a', 'id'), (i, 'c', 'x.y')}
        return d
    s.do(['parse', i, xml], f)
    return d


def op_byid(s):
    d = s.pick(DOC)
    v = s.rng.choice(['r0', 'v0', 'v1', 'v2', 'v3', '', 'x', 'hello'])
    c = s.m.by_id(d, v)
    s.stats['byid' + ('+' if c else '')] = s.stats.get('byid' + ('+' if c else ''), 0) + 1
    s.raw(['byid', d.id, v], {('R', str(n.id)) for n in c} or {('R', '-')})


def op_idattr(s):
    """give elements identifiers, directly and through Attr nodes and their text"""
    r, m = s.rng, s.m
    e = s.pick(ELEMENT, pred=lambda e: e.name in 'abc')
    if e is None or e.ro:
        return
    v = 'v%d' % r.randint(0, 3)
    nm = 'x.y' if e.name == 'c' else 'id'
    a = e.attr(nm)
    k = r.choice(['set', 'set', 'text', 'remove', 'split'])
    if a is None or k == 'set':
        if any(x.isns for x in e.attrs):
            s.do(['sans', e.id, '', nm, v], lambda: m.sans(e, '', nm, v))
        else:
            s.do(['sa', e.id, nm, v], lambda: m.sa(e, nm, v))
    elif k == 'text' and a.children and a.children[0].type == TEXT:
        t = a.children[0]
        s.do(['setval', t.id, v], lambda: m.setval(t, v))
    elif k == 'remove':
        s.do(['ran', e.id, a.id], lambda: m.rmattr(e, a), m.ref)
    else:
        t = s.create('ct', [e.doc.id, 'v'], lambda: m.new(TEXT, '#text', e.doc, 'v'))
        s.do(['ins', a.id, t.id, m.ref(a.children[0] if a.children else None)], lambda: m.ins(a, t, a.children[0] if a.children else None), m.ref)


Session.op_byid = op_byid
Session.op_idattr = op_idattr
NORENAME = None


def check_D05():
    chk = Check('D05', rule=RULE + 'live lists were consulted while non-empty after changes, and an ID lookup succeeded', assumptions=ASSUME)
    ss = []
    for _ in range(n_cases(700, 8000)):
        s = Session(random.Random(chk.rng.random()))
        dtd_doc(s, True, False)
        s.populate(1, 12)
        for _ in range(2):
            s.op_list()
        s.steps(chk.rng.randint(40, 110), dict(tree=9, list=12, create=1.5, attr=1, idattr=3, byid=4, clone=.5, import_=.5, norm=.2))
        ss.append(s)
    run_sessions(chk, ss, nontrivial=lambda s: s.stats.get('list+') and s.stats.get('byid+'))
    chk.finish()


# -- D06 ------------------------------------------------------------------------------------------------
def docof(n):
    return n if n.type == DOC else n.doc


def op_handles(s):
    """drop most handles to one document, look at what survives, then get hold of its nodes again"""
    r, m = s.rng, s.m
    docs = [n for n in m.nodes.values() if n.type == DOC]
    d = r.choice(docs)
    mine = [i for i in sorted(s.live) if docof(m.nodes[i]) is d]
    if not mine:
        return
    k = r.choice(['node', 'node', 'list', 'map', 'copy', 'all'])
    s.stats['handles ' + k] = s.stats.get('handles ' + k, 0) + 1
    ok = {('R', 'ok')}
    if k == 'copy':
        i = r.choice(mine)
        s.raw(['assign', 9001, i], ok)
        s.live.discard(i)
        s.raw(['drop', i], ok)
        s.raw(['selfassign', 9001], {('R', str(i))})
        s.raw(['assign', 9002, 9001], ok)
        s.raw(['swap', 9002, 9001], ok)
        s.raw(['drop', 9001], ok)
        s.live.add(i)
        s.raw(['assign', i, 9002], ok)
        s.raw(['drop', 9002], ok)
        return
    if k == 'all':
        if len(docs) < 2:
            return
        for l in [j for j, l in m.lists.items() if docof(l[1]) is d]:
            s.raw(['ldrop', l], ok)
            del m.lists[l]
        s.raw(['mdrop', 99], ok)
        ids = [i for i, n in m.nodes.items() if docof(n) is d]
        for i in ids:
            s.live.discard(i)
            s.last.pop(i, None)
        s.raw(['forget'] + ids, ok)
        for i in ids:
            m.nodes.pop(i)
        return
    survivor = None
    if k == 'node':
        survivor = r.choice(mine)
    elif k == 'list':
        l = [j for j, l in m.lists.items() if docof(l[1]) is d]
        if not l:
            return
        l = r.choice(l)
        for j in [j for j, x in m.lists.items() if docof(x[1]) is d and j != l]:
            if r.random() < .7:
                s.raw(['ldrop', j], ok)
                del m.lists[j]
    else:
        e = s.pick(ELEMENT, pred=lambda e: docof(e) is d and e.attrs)
        if e is None:
            return
        s.raw(['map', 99, e.id], ok)
    s.raw(['mdrop', 99], ok) if k != 'map' else None
    r.shuffle(mine)
    for i in mine:
        if i != survivor:
            s.live.discard(i)
            s.raw(['drop', i], ok)
    if k == 'list':
        q = m.lists[l]
        v = q[1].children if q[0] == 'cn' else m.by_tag(q[1], q[2]) if q[0] == 'gbt' else m.by_tag_ns(q[1], q[2], q[3])
        s.raw(['lall', l], {('R', ','.join(map(m.ref, v)))})
        if not v:
            # nothing to get hold of: the document goes with the list
            for j in [j for j, x in m.lists.items() if docof(x[1]) is d]:
                s.raw(['ldrop', j], ok)
                del m.lists[j]
            ids = [i for i, n in m.nodes.items() if docof(n) is d]
            for i in ids:
                s.last.pop(i, None)
            s.raw(['forget'] + ids, ok)
            for i in ids:
                m.nodes.pop(i)
            while not any(n.type == DOC for n in m.nodes.values()):
                s.op_newdoc()
            return
        x = r.randrange(len(v))
        survivor = v[x].id
        s.live.add(survivor)
        s.raw(['lireg', l, x], {('R', str(survivor))})
    if k == 'map':
        a = r.choice(e.attrs)
        s.raw(['mall', 99], {('R', ''.join(str(q) + ',' for q in sorted(x.id for x in e.attrs)))})
        survivor = a.id
        s.live.add(survivor)
        s.raw(['mireg', 99, a.name], {('R', str(survivor))})
        s.raw(['mdrop', 99], ok)
    # look around with a single handle
    a = m.nodes[survivor]
    if a.type in (ELEMENT,):
        s.raw(['ga', survivor, 'id'], {('R', "'" + (a.attr('id').nodevalue() if a.attr('id') else ''))})
    # get hold of the rest again
    reach = []

    def w(n):
        reach.append(n.id)
        for x in n.attrs:
            w(x)
        if n.type == DOCTYPE:
            for x in n.extra['entities'] + n.extra['notations']:
                w(x)
        for c in n.children:
            w(c)
    w(d)
    new = [i for i in reach if i not in s.live]
    s.live |= set(new)
    s.raw(['rehandle', survivor], {('R', str(len(new)))})


def op_purge(s):
    r, m = s.rng, s.m
    c = s.pick(ELEMENT, TEXT, COMMENT, PI, CDATA, ENTREF, pred=lambda n: n.parent is not None and n.parent.id in s.live)
    if c is None:
        return
    p = c.parent if r.random() < .9 else s.pick(pred=lambda p: p is not c)
    if c.type == ATTR:
        return
    sub = list(c.walk())
    for l in [j for j, l in m.lists.items() if any(l[1] is x or l[1] in x.attrs for x in sub)]:
        s.raw(['ldrop', l], {('R', 'ok')})
        del m.lists[l]
    s.raw(['mdrop', 99], {('R', 'ok')})
    if p is not c.parent and (p.root() is c or any(x is p for x in sub) or p.root().type == ATTR and any(x is p.root().owner for x in sub)):
        return
    try:
        gone = m.purge(p, c)
    except Err as e:
        # a refused purge: the driver let go of the handles below c
        drop = []
        for x in sub:
            for y in [x] + x.attrs:
                for z in ([y] + y.children if y.type == ATTR else [y]):
                    if z is not c and z.id in s.live:
                        drop.append(z.id)
        s.live -= set(drop)
        s.raw(['purge', p.id, c.id], {('X', str(q)) for q in e.codes})
        return
    s.stats['purge'] = s.stats.get('purge', 0) + 1
    for n in gone:
        s.live.discard(n.id)
        s.last.pop(n.id, None)
    s.raw(['purge', p.id, c.id], {('R', 'ok')})


Session.op_handles = op_handles
Session.op_purge = op_purge


def check_D06():
    chk = Check('D06', rule=RULE + 'documents survived on a single handle (node, list or map), and nodes were purged; address and '
                'leak sanitizers watch every history', assumptions=ASSUME)
    ss = []
    for _ in range(n_cases(1100, 12000)):
        s = Session(random.Random(chk.rng.random()))
        s.populate(2, 16)
        if chk.rng.random() < .4:
            dtd_doc(s)
        s.steps(chk.rng.randint(40, 90), dict(tree=8, list=3, create=3, attr=4, handles=4, purge=2, clone=1, import_=1, norm=.5, chars=1, value=1))
        ss.append(s)
    run_sessions(chk, ss, nontrivial=lambda s: any(k.startswith('handles') for k in s.stats) and s.stats.get('purge'))
    chk.finish()


# -- D07 ------------------------------------------------------------------------------------------------
def op_walk(s):
    r, m = s.rng, s.m
    if not hasattr(s, 'walkers'):
        s.walkers = {}
    if not s.walkers or (len(s.walkers) < 3 and r.random() < .1) or r.random() < .03:
        root = s.pick(DOC, ELEMENT, FRAG, ENTREF) if r.random() < .8 else s.pick(ELEMENT)
        if root is None or not any(True for _ in root.children) and r.random() < .9:
            return
        k = r.randint(1, 3)
        what = r.choice([0xFFFFFFFF, 0xFFFFFFFF, 1, 5, 0xFF, 0x81 | 0x100, 0xFFFFFFFE, r.getrandbits(12)])
        f = ''.join(r.choice('AAAARSSS') for _ in range(r.choice([1, 2, 3, 5, 7, 11]))) if r.random() < .75 else ''
        ex = r.random() < .6
        w = Walker(root, what, f, ex)
        s.walkers[k] = w
        s.raw(['tw', k, docof(root).id, root.id, what, f, int(ex)], {('R', '%d/%d/%d' % (root.id, root.id, what))})
        return
    k = r.choice(sorted(s.walkers))
    w = s.walkers[k]
    if w.cur is None or not w.inroot(w.cur) or r.random() < .05:
        c = [n for n in w.root.walk() if n.id in s.live]
        if not c:
            del s.walkers[k]
            return
        n = r.choice(c)
        w.cur = n
        s.raw(['tset', k, n.id], {('R', str(n.id))})
        return
    # a current node hidden inside an unexpanded entity reference or rejected subtree has no defined position
    for op in [r.choice('pflbs++--')] if r.random() < .5 else [r.choice('+-fs')] * r.randint(2, 8):
        before = w.cur
        n = w.cur
        hidden = False
        while n is not w.root:
            n = n.parent
            if (n.type == ENTREF and not w.expand) or (n is not w.root and w.acc(n) == 'R'):
                hidden = True
        if hidden or (w.cur is not w.root and w.acc(w.cur) == 'R' and False):
            w.cur = w.root
            s.raw(['tset', k, w.root.id], {('R', str(w.root.id))})
            continue
        v = w.move(op)
        s.stats['move' + ('+' if v else '-')] = s.stats.get('move' + ('+' if v else '-'), 0) + 1
        s.raw(['w' + op, k], {('R', '%s@%s' % (m.ref(v), m.ref(w.cur)))})


Session.op_walk = op_walk


def check_D07():
    chk = Check('D07', rule=RULE + 'walker movements that reached a node and ones that returned null', assumptions=ASSUME +
                ['currentNode inside the root subtree, not hidden inside a rejected subtree or an unexpanded entity reference'])
    ss = []
    for _ in range(n_cases(600, 8000)):
        s = Session(random.Random(chk.rng.random()))
        if chk.rng.random() < .5:
            dtd_doc(s)
        s.populate(1, 22)
        s.steps(18, dict(tree=20, create=6))
        s.steps(chk.rng.randint(30, 80), dict(walk=14, tree=2.5, create=.3, chars=.2, clone=.1))
        ss.append(s)
    run_sessions(chk, ss, nontrivial=lambda s: s.stats.get('move+') and s.stats.get('move-'))
    chk.finish()


# -- D09 ------------------------------------------------------------------------------------------------
def op_dtdmap(s):
    r, m = s.rng, s.m
    d = s.pick(DOC, pred=lambda d: d.doctype is not None)
    if d is None or d.doctype.id not in s.live:
        return
    which = r.choice(['entities', 'notations'])
    items = d.doctype.extra[which]
    s.raw(['emap' if which == 'entities' else 'nmap', 98, d.doctype.id], {('R', 'ok')})
    k = r.choice(['mget', 'mrem', 'mset', 'mall', 'msetns', 'mremns'])
    name = r.choice([x.name for x in items] + ['e1', 'zz'])
    found = next((x for x in items if x.name == name), None)
    if k == 'mget':
        s.raw([k, 98, name], {('R', m.ref(found))})
    elif k == 'mall':
        s.raw([k, 98], {('R', ''.join('%d,' % q for q in sorted(x.id for x in items)))})
    elif k == 'mrem':
        s.raw([k, 98, name], {('X', str(NOMOD))} | (set() if found else {('X', str(NOTFOUND))}))
        s.stats['refused'] = s.stats.get('refused', 0) + 1
    elif k == 'mremns':
        s.raw([k, 98, '', name], {('X', str(NOMOD)), ('X', str(NOTFOUND))})
    else:
        n = s.pick(ENTITY, NOTATION, ELEMENT, ATTR)
        if n is not None:
            s.raw([k, 98, n.id], {('X', str(NOMOD)), ('X', str(HIER)), ('X', str(INUSE))} | ({('X', str(WRONGDOC))} if n.doc is not d else set()))
            s.stats['refused'] = s.stats.get('refused', 0) + 1


Session.op_dtdmap = op_dtdmap


def check_D09():
    chk = Check('D09', rule=RULE + 'modifications of read-only nodes were attempted and refused, and clones of read-only nodes modified',
                assumptions=ASSUME)
    ss = []
    for _ in range(n_cases(800, 8000)):
        s = Session(random.Random(chk.rng.random()))
        d = dtd_doc(s)
        if chk.rng.random() < .4:
            dtd_doc(s)
        for _ in range(4):
            s.op_create(d, 'cer')
        for _ in range(8):
            s.op_create(d)
        # favour read-only nodes and what hangs off them
        orig = s.pick

        def pick(*types, pred=None, s=s, orig=orig):
            if s.rng.random() < .5:
                n = orig(*types, pred=lambda n: n.ro and (pred is None or pred(n)))
                if n is not None:
                    return n
            return orig(*types, pred=pred)
        s.pick = pick
        s.steps(chk.rng.randint(40, 90), dict(tree=9, attr=6, chars=5, value=4, clone=2, dtdmap=2, create=1.5, import_=1))
        ss.append(s)
    run_sessions(chk, ss, nontrivial=lambda s: s.stats.get('refused') and s.stats.get('clone'))
    chk.finish()


# ---------------------------------------------------------------- D08
XMLNS = 'http://www.w3.org/2000/xmlns/'


def parse_tree(s):
    """driver's tree dump -> list of (type, uri, local, qname, value, attributes|extra)"""
    out = []
    for it in s.split('\x02'):
        if not it:
            continue
        f = it.split('\x01')
        if f[0] == 'end':
            out.append(('end',))
        elif f[0] == '10':
            x = f[5:]
            decls = [tuple(x[i:i + 6]) for i in range(2, len(x), 6)]
            out.append(('dt', f[3], x[0], x[1], sorted(decls)))
        else:
            a = [tuple(f[i:i + 4]) for i in range(5, len(f), 4)]
            out.append((int(f[0]), f[1], f[2], f[3], f[4], a))
    return out


def infoset(items, names=True, doctype=True):
    """canonical: text joined, CDATA joined, namespace declarations left out, attributes sorted"""
    out = []
    for x in items:
        if x[0] == 'end':
            out.append(x)
        elif x[0] == 'dt':
            if doctype:
                out.append(x)
        elif x[0] in (3, 4):
            if x[4] == '':
                continue
            if out and out[-1][0] == x[0]:
                out[-1] = (x[0], out[-1][1] + x[4])
            else:
                out.append((x[0], x[4]))
        elif x[0] == 1:
            at = [(u, l or q, q if names else '', v) for u, l, q, v in x[5] if not (q == 'xmlns' or q.startswith('xmlns:'))]
            out.append((1, x[1], x[2] or x[3], x[3] if names else '', tuple(sorted(at))))
        elif x[0] in (7, 8, 5):
            out.append((x[0], x[3] if x[0] != 8 else '', x[4] if x[0] != 5 else ''))
        else:
            out.append((x[0],))
    return out


def expected_tree(evs, nspx=True):
    """SAX events (of the model) -> the DOM they have to become"""
    out, indtd, dt, cdata, seen = [], False, None, False, set()
    for e in evs:
        k = e[0]
        if k == 'SD':
            out.append((9, '', '', '', '', []))
        elif k == 'SDTD':
            indtd, dt = True, ('dt', e[1], e[2], e[3], [])
            out.append(dt)
        elif k == 'EDTD':
            indtd = False
            dt[4].sort()
        elif k in ('IED', 'EED', 'UE') and not e[1].startswith('%'):
            if ('E', e[1]) in seen:
                continue
            seen.add(('E', e[1]))
            dt[4].append(('E', e[1], '', '', '', e[2]) if k == 'IED' else ('E', e[1], e[2], e[3], e[4] if k == 'UE' else '', ''))
        elif k == 'ND':
            if ('N', e[1]) not in seen:
                seen.add(('N', e[1]))
                dt[4].append(('N', e[1], e[2], e[3], '', ''))
        elif indtd:
            continue
        elif k == 'SE':
            out.append((1, e[1], e[2], e[3], '', [(e[i], e[i + 1], e[i + 2], e[i + 4]) for i in range(4, len(e), 5)]))
        elif k in ('EE', 'ED'):
            out.append(('end',))
        elif k == 'SCD':
            cdata = True
        elif k == 'ECD':
            cdata = False
        elif k == 'CH':
            out.append((4 if cdata else 3, '', '', '', e[1], []))
        elif k == 'CO':
            out.append((8, '', '', '', e[1], []))
        elif k == 'PI':
            out.append((7, '', '', e[1], e[2], []))
        elif k == 'SK':
            out.append((5, '', '', e[1], '', []))
    return out


def entity_values(items, exp):
    """children of entities: only plain text is compared"""
    fixed = []
    for x in items:
        if x[0] == 'dt':
            vals = {d[1]: d[5] for y in exp if y[0] == 'dt' for d in y[4] if d[0] == 'E'}
            x = x[:4] + (sorted(d[:5] + (('' if d[0] == 'N' or '<' in vals.get(d[1], '') or '&' in vals.get(d[1], '') else d[5]),) for d in x[4]),)
        fixed.append(x)
    return fixed


class TreeBuilder:
    """builds trees through the DOM API whose content XML can express"""
    NAMES = ['a', 'b', 'item', 'é', 'x-1', 'xmlish', 'a0', 'a1']
    PFX = ['', '', 'p', 'q', 'a0', 'a1', 'é', 'xmlnsx']
    URIS = ['urn:a', 'urn:b', 'http://e/?x=1&y=<2>', 'urn:"q"', 'urn:é']
    TEXT = ['x', '<', '>', '&', ']]>', '"', "'", ' ', '\n', '\t', '\r', 'é', 'Ħļ', 'ģĢľ', '名', '\U0001F600', 'text', ']]', '>', '--', '\u0085', '\u2028', '&amp;', '&#10;']

    def __init__(self, r):
        self.r = r; self.l = []; self.n = 0; self.els = []; self.kid = {}; self.l1 = set()

    def new(self):
        self.n += 1
        return str(self.n)

    def text(self, no=''):
        s = ''.join(self.r.choice(self.TEXT) for _ in range(self.r.choice([0, 1, 2, 3, 6])))
        for ch in no:
            s = s.replace(ch, '')
        return s

    def element(self, doc):
        r = self.r
        k = self.new()
        if r.random() < .2:
            self.l.append(['ce', k, doc, r.choice(self.NAMES)])
            self.l1.add(k)
        else:
            u = r.choice(self.URIS + ['', ''])
            p = r.choice(self.PFX) if u else ''
            self.l.append(['cens', k, doc, u, (p + ':' if p else '') + r.choice(self.NAMES)])
        self.atts(k)
        return k

    def atts(self, k):
        r = self.r
        for _ in range(r.choice([0, 0, 1, 1, 2, 4])):
            if k in self.l1:
                self.l.append(['sa', k, r.choice(self.NAMES), self.text()])
                continue
            u = r.choice(self.URIS + ['', ''])
            p = r.choice(self.PFX) if u else ''
            if r.random() < .08:
                u, p = 'http://www.w3.org/XML/1998/namespace', 'xml'
            self.l.append(['sans', k, u, (p + ':' if p else '') + r.choice(self.NAMES if p != 'xml' else ['lang', 'base']), self.text()])
        if r.random() < .1 and k not in self.l1:      # explicit declarations, which need not agree with the names
            p = r.choice(self.PFX)
            self.l.append(['sans', k, XMLNS, 'xmlns:' + p if p else 'xmlns', r.choice(self.URIS)])

    def leaf(self, doc):
        r = self.r
        k = self.new()
        z = r.random()
        if z < .5:
            self.l.append(['ct', k, doc, self.text()])
        elif z < .7:
            self.l.append(['cd', k, doc, self.text('\r')])
        elif z < .85:
            self.l.append(['cc', k, doc, self.text('\r-')])
        else:
            self.l.append(['cpi', k, doc, r.choice(['pi', 'xml-x', 'é']), self.text('\r>').lstrip(' \n\t')])
        return k

    def build(self, doc, depth=0):
        r = self.r
        k = self.element(doc)
        self.els.append(k)
        for _ in range(r.choice([0, 1, 2, 3]) if depth < 5 else 0):
            c = self.build(doc, depth + 1) if r.random() < .5 and len(self.els) < 20 else self.leaf(doc)
            self.l.append(['app', k, c])
        return k


def check_D08():
    import xmlgen as xg
    chk = Check('D08', rule='distinct documents and trees: the DOM of a generated document equals the document; what operator<< wrote '
                'for a tree (parsed, edited or built through the API) parses back to an equal tree; non-trivial: has an element child, attribute or text',
                assumptions=ASSUME + ['document type declarations are not written by operator<<, so trees with entity references are not reparsed',
                                      'prefixes may be renamed by namespace fix-up; names are compared as namespace URI and local name',
                                      'CDATA, comments and PIs without carriage returns, and without the delimiters they cannot contain'])
    exe = vlib.build([dict(name='dom', srcs=['dom.cpp'])])['dom']
    r = chk.rng
    cases = []
    for i in range(n_cases(1500, 20000)):
        lines, plan = [['dumpoff']], []
        for k in range(r.choice([1, 1, 2, 3])):
            if r.random() < .12:
                lines.append(['parsex', '9', '0', r.choice(['<a><b>', '<!DOCTYPE a [<!ENTITY e "x"><!ATTLIST a q CDATA "dflt">]><a>&e;<', '', '<a xmlns:p="u"><![CDATA[x', '<a/><b/>', '<p:a/>'])])
                plan.append(('bad',))
            ge = r.random() < .3
            while True:
                g = xg.Gen(r, dtd=.4, ns=.7, external=ge, ge=ge, pe=ge, enc=False, xmlxml=False, maxels=r.choice([1, 4, 12, 30]))
                d = g.document()
                if ge:
                    from c_sax import uniq_sys
                    uniq_sys(d)
                rd = xg.Render(r, plain=r.random() < .2)
                b, docs = rd.document(d)
                # (a reference to an entity with nothing in it may stay in the tree as a reference: those are left out)
                ev = xg.Events(d, nsp=True, ge=ge, pevals=rd.pevals).document()
                depth, since, hollow = 0, 0, False
                for e in ev:
                    if e[0] in ('SEN', 'EEN') and e[1] != '[dtd]' and e[1][:1] != '%':
                        if e[0] == 'SEN':
                            since = since if depth else 0
                            depth += 1
                        else:
                            depth -= 1
                            hollow |= not depth and not since
                    elif e[0] != 'CH' or e[1]:
                        since += 1
                if not hollow:
                    break
            exp = expected_tree(ev)
            reg = str(100 + k)
            lines.append(['parsex', reg, '1' if ge else '0', b.decode()] + [y for s, v in docs.items() for y in (s, v.decode())])
            lines.append(['tree', reg])
            plan.append(('tree', exp, b, ge))
            refs = any(x[0] == 5 for x in exp)
            if not refs:
                crs = any(x[0] in (4, 7, 8) and '\r' in x[4] for x in exp)
                if not crs:
                    lines += [['reparse', reg, '200'], ['tree', '200']]
                    plan.append(('again', exp, b))
        cases.append(Case('p%d' % i, lines, [], plan))
    for i in range(n_cases(1500, 20000)):
        t = TreeBuilder(r)
        lines = [['dumpoff']]
        d1, d2 = '900', '901'
        t.l.append(['newdoc', d1, '', '', '-'])
        two = r.random() < .3
        if two:
            t.l.append(['newdoc', d2, '', '', '-'])
        root = t.build(d1)
        t.l.append(['app', d1, root])
        if two:
            r2 = t.build(d2)
            for _ in range(2):
                k = t.new()
                t.l.append(['import', k, d1, r.choice(t.els), r.choice('01')])
                t.l.append(['app', root, k])
        for _ in range(r.choice([0, 0, 2, 5])):      # move things about, rename prefixes
            a, b = r.choice(t.els), r.choice(t.els)
            z = r.random()
            if z < .6:
                t.l.append(['app', a, b])
            elif z < .8:
                k = t.new()
                t.l += [['clone', k, a, '1'], ['app', root, k]]
            elif a not in t.l1:
                t.l.append(['prefix', a, r.choice(['p', 'q', 'zz'])])
        lines += t.l
        n = len(lines)
        sub = root if r.random() < .6 else r.choice(t.els)
        what = r.random()
        if what < .3 and r.random() < .9:
            lines += [['tree', d1], ['reparse', d1, '200'], ['tree', '200']]
            kind = 'doc'
        else:
            lines += [['tree', sub], ['reparse', sub, '200'], ['tree', '200']]
            kind = 'sub'
        cases.append(Case('b%d' % i, lines, [], (kind, n)))
    res = vlib.run(exe, cases, leak=100)
    for cs in cases:
        rr = res.get(cs.id)
        if rr is None:
            continue
        if isinstance(rr, Crash):
            chk.violation(repr(rr), cs.text()[:20000])
            continue
        if any(e[0] == 'LEAK' for e in rr):
            chk.violation('memory leaked', cs.text()[:20000])
            continue
        xs = [e[1] for e in rr if e[0] == 'X' and len(e) == 2 and not e[1].isdigit()]
        rr = [e for e in rr if e[0] == 'R' or e[0] == 'X' and (e[1].isdigit() or e[1][:4] in ('std ', 'BadC'))]
        if cs.id[0] == 'p':
            pos = 0
            for p in cs.meta:
                if p[0] == 'bad':
                    e = rr[pos]; pos += 1
                    if e[0] != 'R' or not e[1].startswith('E ') or 'document after' in e[1]:
                        chk.violation('ill-formed document: parse answered %r' % (e,), cs.text()[:20000]); break
                    chk.count('failed parses'); continue
                st, tr = rr[pos], rr[pos + 1] if pos + 1 < len(rr) else None
                pos += 2
                if st != ['R', 'ok']:
                    chk.violation('%s: %r for a well-formed document\n%s' % ('reparse' if p[0] == 'again' else 'parse', st, xs[-1:]), cs.text()[:20000]); break
                got = parse_tree(tr[1][1:])
                if p[0] == 'tree':
                    x, y = infoset(entity_values(p[1], p[1])), infoset(entity_values(got, p[1]))
                    if p[3]:      # external entities hold their content once they have been read
                        x = [z[:4] + ([q[:5] + ('',) if q[3] and q[0] == 'E' else q for q in z[4]],) if z[0] == 'dt' else z for z in x]
                        y = [z[:4] + ([q[:5] + ('',) if q[3] and q[0] == 'E' else q for q in z[4]],) if z[0] == 'dt' else z for z in y]
                else:
                    x, y = infoset(p[1], False, False), infoset(got, False, False)
                if x != y:
                    j = next((j for j in range(min(len(x), len(y))) if x[j] != y[j]), min(len(x), len(y)))
                    chk.violation('%s: item %d expected %.300r got %.300r %s' % ('parsed DOM' if p[0] == 'tree' else 'reparsed DOM', j, x[j:j + 1], y[j:j + 1],
                                                                                 '\n' + xs[-1][:1500] if xs and p[0] == 'again' else ''), cs.text()[:20000])
                    break
                chk.ok((p[0], p[2]) if len(x) > 4 else None)
                chk.count('nodes compared', len(x))
                chk.count('documents parsed' if p[0] == 'tree' else 'parsed documents written and reparsed')
        else:
            kind, n = cs.meta
            tail = rr[-3:]
            if tail[1] != ['R', 'ok']:
                if kind == 'doc' and 'no element' in str(tail[1]):
                    continue
                # the document element may have been moved away
                t0 = infoset(parse_tree(tail[0][1][1:])) if tail[0][0] == 'R' else []
                if kind == 'doc' and sum(z[0] == 1 for z in t0) == 0:
                    continue
                chk.violation('what operator<< wrote is not well formed: %r\n%s' % (tail[1], xs[-1:]), cs.text()[:20000])
                continue
            a, b = parse_tree(tail[0][1][1:]), parse_tree(tail[2][1][1:])
            if kind == 'sub':
                b = b[1:-1]
            x, y = infoset(a, False, False), infoset(b, False, False)
            if x != y:
                j = next((j for j in range(min(len(x), len(y))) if x[j] != y[j]), min(len(x), len(y)))
                chk.violation('reparsed tree: item %d was %.300r is %.300r\n%s' % (j, x[j:j + 1], y[j:j + 1], xs[-1][:1500]), cs.text()[:20000])
                continue
            chk.ok(tuple(map(str, x)) if len(x) > 2 else None)
            chk.count('nodes compared', len(x))
            chk.count('API-built %s written and reparsed' % ('documents' if kind == 'doc' else 'subtrees'))
    chk.sample(dict(written=xs[-1][:400] if xs else ''))
    chk.finish()
