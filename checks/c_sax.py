"""C01..C07: SAX readers, the Writer, filters and helper classes against documents whose events are known in advance."""
import re
from vlib import *
import xmlgen as xg
from xmlgen import El, Text, CData, Comment, PI, Ref, Raw, Ent, Gen, Render, Events, coalesce, norm, XML

EXPAT = dict(name='sax-expat', srcs=['sax.cpp'], backend='expat')
LIBXML = dict(name='sax-libxml2', srcs=['sax.cpp'], backend='libxml2')
XERCES = dict(name='sax-xerces', srcs=['sax.cpp'], backend='xerces')
ENDS = ('RET', 'EXC')


def segments(evs):
    """split a session log at its P markers -> [(P line, [events], end line, [OUT lines])]"""
    segs = []
    cur = None
    for e in evs:
        if e[0] == 'P':
            cur = [e, [], None, []]
            segs.append(cur)
        elif cur is None:
            continue
        elif e[0] in ENDS:
            cur[2] = e
        elif e[0] == 'OUT':
            cur[3].append(e)
        elif e[0] == 'PEND':
            cur = None
        elif e[0] == 'LOC':
            continue
        else:
            cur[1].append(e)
    return segs


def located(evs):
    """strip '@' position prefixes -> (events, positions)"""
    out, pos = [], []
    for e in evs:
        if e[0] == '@':
            l, c = e[1].split(':')
            pos.append((int(l), int(c)))
            out.append(e[2:])
        else:
            pos.append(None)
            out.append(e)
    return out, pos


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return i, x, y
    i = min(len(a), len(b))
    return i, a[i] if i < len(a) else None, b[i] if i < len(b) else None


def trunc(x):
    x = repr(x)
    return x if len(x) < 400 else x[:200] + '...' + x[-200:]


def diff(c, what, case, exp, got, extra=''):
    i, x, y = first_diff(exp, got)
    c.violation('%s: event %d expected %s got %s %s' % (what, i, trunc(x), trunc(y), extra),
                case.text()[:20000] + '\nexpected:\n' + '\n'.join(map(repr, exp[max(0, i - 5):i + 6])) +
                '\ngot:\n' + '\n'.join(map(repr, got[max(0, i - 5):i + 6])))


def doc_lines(bytes_, docs, name='d'):
    return [['DOC', name, bytes_.hex()]] + [['DOC', k, v.hex()] for k, v in docs.items()]


def crash(c, case, r):
    if isinstance(r, Crash):
        c.violation(repr(r), case.text()[:20000])
        return True
    if any(e[0] in ('FOREIGN', 'LEAK') for e in r):
        c.violation('%s' % [e for e in r if e[0] in ('FOREIGN', 'LEAK')][:2], case.text()[:20000])
        return True
    return False


DECLS = ('ELD', 'ATD', 'IED', 'EED', 'UE', 'ND')


def content(evs):
    return [e for e in evs if e[0] not in DECLS]


def join_cdata(evs):
    """neighbouring CDATA sections count as one (the libxml2 push interface does not tell them apart)"""
    out = []
    for e in evs:
        if e[0] == 'SCD' and out and out[-1][0] == 'ECD':
            out.pop()
        else:
            out.append(e)
    return coalesce(out)


def noxmlns(evs):
    out = []
    for e in evs:
        if e[0] == 'SE':
            a = [e[i:i + 5] for i in range(4, len(e), 5)]
            e = e[:4] + [y for x in a if not (x[2] == 'xmlns' or x[2].startswith('xmlns:')) for y in x]
        out.append(e)
    return out


def split_outside_bound(evs):
    """monitor: events well bracketed (elements, CDATA, DTD, prefix mappings, entities)"""
    st = []
    opened = {'SD': 'ED', 'SE': 'EE', 'SDTD': 'EDTD', 'SEN': 'EEN', 'SCD': 'ECD'}
    closers = set(opened.values())
    for i, e in enumerate(evs):
        if e[0] in opened:
            st.append((opened[e[0]], e))
        elif e[0] in closers:
            if not st or st[-1][0] != e[0]:
                return 'event %d %r closes %r' % (i, e, st[-1:] and st[-1][1])
            o = st.pop()[1]
            if e[0] == 'EE' and o[1:4] != e[1:4]:
                return 'event %d %r does not match %r' % (i, e, o)
            if e[0] == 'EEN' and o[1] != e[1]:
                return 'event %d %r does not match %r' % (i, e, o)
    return 'unclosed %r' % (st,) if st else None


# ---------------------------------------------------------------- C01
def shift(r, doc):
    """padding so that something interesting falls on the parser's 10240-byte buffer boundary"""
    n = r.choice([10240, 10240, 20480, 4096, 8192]) - r.randint(0, 400)
    doc.prolog.insert(0, Comment('x' * n))


def big(r, doc):
    els = [n for n in xg.walk([doc.root]) if isinstance(n, El)]
    e = r.choice(els)
    k = r.random()
    ch = r.choice(['a', 'é', '名', '\U0001F600', ']', ' ', '&', '\n'])
    n = r.choice([1000, 5000, 10239, 10240, 10241, 16384, 30000, 70000])
    if k < 0.4:
        e.kids.insert(0, Text(ch * n)) if not (e.kids and isinstance(e.kids[0], Text)) else setattr(e.kids[0], 't', ch * n)
    elif k < 0.55:
        e.items.insert(0, ('a', 'bigvalue', (ch if ch != '\n' else 'v') * n, 'CDATA'))
    elif k < 0.7:
        e.kids.append(Comment('c' + ch.replace(']', 'b') * n))
    elif k < 0.8:
        e.kids.append(CData('c' + ch.replace(']', 'b') * n))
    elif k < 0.9:
        for i in range(r.choice([50, 300, 1000])):
            e.items.insert(0, ('a', 'at%d' % i, 'v%d' % i, 'CDATA'))
    else:
        e.kids.append(PI('big', 'd' * n))


def rand_parse(r, name='d'):
    how = r.choice(['stream', 'stream', 'owned', 'slow', 'slow', 'file', 'uri'])
    l = ['PARSE', how, name]
    if how == 'slow':
        l += ['', str(r.choice([1, 2, 3, 7, 64, 1000, 10239, 10240, 10241]))]
    elif how in ('stream', 'owned') and r.random() < 0.5:
        l += [r.choice(['http://example.org/doc.xml', '/no/such/file', 'doc.xml'])]
    return l


def mk_doc(r, **kw):
    g = Gen(r, **kw)
    d = g.document()
    return d


def check_C01():
    c = Check('C01', 'exploration', 'distinct documents with at least one element child, attribute or text whose complete event '
              'stream was compared with the abstract document they were spelled from; each parsed through 1-4 byte deliveries',
              ['documents are spelled by our own generator from an abstract tree, which is the oracle',
               'attribute types are always reported as CDATA', 'Xerces and libxml2 readers: documents without DTD'])
    exe = build([EXPAT, LIBXML, XERCES])
    r = c.rng
    for spec, n in ((EXPAT, n_cases(1500, 20000)), (LIBXML, n_cases(500, 6000)), (XERCES, n_cases(500, 6000))):
        be = spec['backend']
        cases = []
        for i in range(n):
            d = mk_doc(r, dtd=0.25 if be == 'expat' else 0, ns=0.6, xmlxml=be == 'expat')
            if be != 'expat' and d.enc not in ('utf-8', 'utf-16le', 'utf-16be', 'utf-8-bom', 'iso-8859-1'):
                d.enc = 'utf-8'
            if r.random() < 0.15:
                big(r, d)
            if r.random() < 0.25:
                shift(r, d)
            rd = Render(r, plain=r.random() < 0.1, lf_only=be == "libxml2")
            b, docs = rd.document(d)
            if be == 'libxml2' and d.enc.startswith('utf-16') and b'standalone' in b[:200].replace(b'\0', b''):
                continue      # libxml2's push interface itself stumbles over a long UTF-16 XML declaration
            ev = Events(d, pevals=rd.pevals)
            exp = norm(ev.document())
            w = r.random() < (0.25 if be == 'expat' else 0.15)
            lines = doc_lines(b, docs)
            ps = [rand_parse(r) for _ in range(r.choice([1, 1, 2, 3]))]
            if be == 'expat' and r.random() < 0.5:
                lines.append(['LOCS', '1'])
            cases.append(Case('%s%d' % (be[0], i), lines + ps, ['w'] if w else ['n'], (exp, ev, len(b), ps)))
        res = run(exe[spec['name']], cases)
        for cs in cases:
            rr = res.get(cs.id)
            if rr is None or crash(c, cs, rr):
                continue
            exp, ev, nb, ps = cs.meta
            segs = segments(rr)
            if len(segs) != len(ps):
                c.violation('%d parses logged of %d' % (len(segs), len(ps)), cs.text()[:20000])
                continue
            for p, (pl, evs, end, outs) in zip(ps, segs):
                evs, pos = located(evs)
                e2 = content(exp) if be != 'expat' else exp
                got = noxmlns(norm(evs))
                if be == 'libxml2':
                    e2, got = join_cdata(e2), join_cdata(got)
                if be != 'expat':
                    got = [e for e in content(got) if e[0] != 'WARN']
                if end != ['RET'] or got != e2:
                    diff(c, '%s reader, source %s' % (be, p[1:]), cs, e2, got, 'end %r' % (end,))
                    break
                bad = split_outside_bound(evs)
                if bad:
                    c.violation(be + ' reader: ' + bad, cs.text()[:20000])
                    break
                if pos and any(pos):
                    last = (0, 0)
                    se = [(e, q) for e, q in zip(evs, pos) if e[0] == 'SE']
                    fail = None
                    for (idx, l0, l1), (e, q) in zip(ev.lines, se):
                        if l1 and not l0 <= q[0] <= l1:      # l1 == 0: came out of an entity
                            fail = 'startElement %r reported at line %d, its tag spans lines %d-%d' % (e[3], q[0], l0, l1)
                    if fail:
                        c.violation(be + ' locator: ' + fail, cs.text()[:20000])
                        break
                    c.count('located start tags', len(se))
                c.ok((be, tuple(map(tuple, e2))) if len(exp) > 4 else None)
                c.count('events', len(evs))
                c.count('bytes parsed', nb)
                c.count(be + ' parses')
                c.count('via ' + p[1])
                if nb > 10240:
                    c.count('documents longer than one read buffer')
            c.sample({'doc': bytes.fromhex(cs.lines[0][2])[:200].decode('utf-8', 'replace'), 'events': len(exp)})
    c.finish()


# ---------------------------------------------------------------- C02
def check_C02():
    c = Check('C02', 'exploration', 'distinct (document, feature setting) pairs with at least one namespace declaration or prefixed name '
              'whose complete stream of names, prefix mappings and attributes matched the Namespaces in XML resolution',
              ['namespaces and namespace-prefixes are never both switched off (SAX leaves that undefined)'])
    exe = build([EXPAT, LIBXML])
    r = c.rng
    names = ['a', 'b', 'xmlnsish', 'xmln', 'é', 'xml', 'xm']
    anames = ['a', 'b', 'xmlnsfoo', 'xmln', 'xmlnsx', 'é', 'xm', 'c', 'd']
    prefixes = ['p', 'q', 'pp', 'xmlnsx', 'é', 'P', 'xm']
    uris = ['u', 'v', 'urn:a', 'urn:b', 'U', 'u ', 'p', 'q', '#', 'http://www.w3.org/2000/xmlns', 'é']
    for spec, n in ((EXPAT, n_cases(2500, 30000)), (LIBXML, n_cases(600, 6000))):
        be = spec['backend']
        cases = []
        for i in range(n):
            lines, exps = [], []
            for k in range(r.choice([1, 1, 2, 3])):
                g = Gen(r, names=names, anames=anames, prefixes=prefixes, uris=uris, ns=r.choice([1.0, 1.9]), dtd=0.15 if be == 'expat' else 0,
                        maxels=r.choice([2, 5, 12, 30]), textch=list('ab '), pis=False, comments=False, cdata=False, enc=False)
                d = g.document()
                rd = Render(r, plain=r.random() < .3)
                b, docs = rd.document(d)
                ns, nsp = r.choice([(1, 1), (1, 0), (0, 1)])
                lines += doc_lines(b, docs, 'd%d' % k)
                feats = [('ns', ns), ('nsp', nsp)]
                if ns == 0 or nsp and r.random() < .5:
                    feats.reverse()          # never both off on the way
                lines += [['FEAT', a, str(v)] for a, v in feats]
                lines.append(['PARSE', r.choice(['stream', 'slow']), 'd%d' % k, '', str(r.choice([1, 3, 50]))])
                exps.append((norm(Events(d, ns=bool(ns), nsp=bool(nsp), pevals=rd.pevals).document()), ns, nsp, b))
            cases.append(Case('%s%d' % (be[0], i), lines, ['w' if r.random() < .1 else 'n'], exps))
        res = run(exe[spec['name']], cases)
        for cs in cases:
            rr = res.get(cs.id)
            if rr is None or crash(c, cs, rr):
                continue
            feats = [e for e in rr if e[0] in ('FEAT', 'FEATEXC')]
            want = [['FEAT', l[1], l[2]] for l in cs.lines if l[0] == 'FEAT']
            # read back: each feature must report the value it was just given
            if feats != want:
                c.violation('%s: features read back %s, set %s' % (be, feats, want), cs.text())
                continue
            for (exp, ns, nsp, b), (pl, evs, end, outs) in zip(cs.meta, segments(rr)):
                got = norm(evs)
                if be == 'libxml2':
                    exp, got = content(exp), [e for e in content(got) if e[0] != 'WARN']
                if end != ['RET'] or got != exp:
                    diff(c, '%s namespaces=%d namespace-prefixes=%d' % (be, ns, nsp), cs, exp, got, 'end %r' % (end,))
                    break
                bad = mapping_monitor(evs)
                if bad:
                    c.violation(be + ': ' + bad, cs.text())
                    break
                c.ok((ns, nsp, b) if b'xmlns' in b or b':' in b else None)
                c.count('ns=%d nsp=%d' % (ns, nsp))
                c.count('prefix mappings', sum(e[0] == 'SP' for e in evs))
                c.count('names resolved', sum(1 + (len(e) - 4) // 5 for e in evs if e[0] == 'SE'))
        c.sample({'doc': cases[0].meta[0][3][:300].decode('utf-8', 'replace')})
    c.finish()


def mapping_monitor(evs):
    """startPrefixMapping only right before a start tag, endPrefixMapping right after the matching end tag, exactly paired"""
    stack, pending, ending = [], [], None
    for i, e in enumerate(evs):
        if e[0] == 'SP':
            if ending:
                return 'startPrefixMapping at %d before %r ended' % (i, ending)
            pending.append(e[1])
        elif e[0] == 'EP':
            if ending is None or e[1] not in ending:
                return 'endPrefixMapping(%r) at %d without a mapping to end' % (e[1], i)
            ending.remove(e[1])
            if not ending:
                ending = None
        else:
            if ending:
                return 'mappings %r not ended at event %d' % (ending, i)
            if e[0] == 'SE':
                if len(set(pending)) != len(pending):
                    return 'prefix mapped twice for one element at event %d' % i
                stack.append(pending)
                pending = []
            elif pending:
                return 'startPrefixMapping %r not followed by startElement at %d' % (pending, i)
            elif e[0] == 'EE':
                ending = stack.pop() or None
    return None


# ---------------------------------------------------------------- C03
BAD = [  # (text, events which may be reported on the way)
    ('<', []), ('& ', []), ('&nosuch;', []), ('&#0;', []), ('&#xFFFE;', []), ('&#1;', []), ('&#x110000;', []), ('&#55296;', []), ('&#;', []),
    ('&#xg;', []), ('a]]>b', [['CH', 'a']]), ('<a b/>', []), ('<a b=1/>', []), ('<a b="1" b="2"/>', []), ('<a b="<"/>', []),
    ('<a b="1"c="2"/>', []), ('<!-- a -- b -->', []), ('<!-- a --->', []), ('<?xml version="1.0"?>', []), ('</wrong>', []),
    ('<a></b>', [['SE', '', 'a', 'a']]), ('<![CDATA[ abc', [['SCD'], ['CH', ' abc']]), ('<a b="&x"/>', []), ('\x01', []), ('\ufffe', []),
    ('<1a/>', []), ('<a b = />', []), ('&a', []), ('<?xMl x?>', []), ('<![cdata[x]]>', []), ('<!DOCTYPE a>', []), ('<a/', []),
    ('<a b="x', []), ('<?1pi x?>', []), ('<a\x00/>', []), ('&a b;', []), ('< a/>', []),
    ('<zz />text</zz >', [['SE', '', 'zz', 'zz'], ['EE', '', 'zz', 'zz'], ['CH', 'text']]), ('<a: b=""/>', None), ('<a b=\'"/>', []),
    ('<a b="&#2;"/>', []), ('<a b="&undef;"/>', []), ('<!ELEMENT a ANY>', []), ('%pe;<', [['CH', '%pe;']])]
BAD = [(t, ok) for t, ok in BAD if ok is not None]


def is_prefix(got, exp, open_end=False, bracket=False):
    """got (events before something went wrong) is a prefix of exp; the last text may be partial, a last run of prefix
    mappings may be incomplete and in any order"""
    g, x = coalesce(got), norm(exp)
    tail = []
    while g and g[-1][0] in ('SP', 'EP') and (not tail or g[-1][0] == tail[0][0]):
        tail.append(g.pop())
    g = norm(g)
    for i, e in enumerate(g):
        if i >= len(x):
            return 'extra event %r' % (e,)
        if e != x[i]:
            if i == len(g) - 1 and not tail and e[0] == 'CH' == x[i][0] and \
                    (x[i][1].startswith(e[1]) or open_end and i == len(x) - 1 and e[1].startswith(x[i][1]) or
                     bracket and e[1].rstrip(']') == x[i][1].rstrip(']')):      # half a ]]>
                return None
            if bracket and i == len(g) - 1 and not tail and e[0] == 'CH' and not e[1].strip(']') and x[i][0] == 'ECD':
                return None
            return 'event %d is %s, the document has %s' % (i, trunc(e), trunc(x[i]))
    rest = []
    for e in x[len(g):]:
        if e[0] not in ('SP', 'EP') or tail and e[0] != tail[-1][0]:
            break
        rest.append(e)
    for t in tail:
        if t not in rest:
            return 'unexpected %r' % (t,)
        rest.remove(t)
    return None


def bad_doc(r):
    """-> (kind, bytes, external docs, events allowed, first line the error may be at)"""
    g = Gen(r, dtd=0.15, ns=0.5, maxels=r.choice([1, 3, 8, 20]), enc=False)
    d = g.document()
    k = r.random()
    if k < 0.5:
        els = [n for n in xg.walk([d.root]) if isinstance(n, El)]
        e = r.choice(els)
        text, ok = r.choice(BAD)
        ok = [list(x) for x in ok]
        raw = Raw(text, ok)
        at = r.randint(0, len(e.kids))
        e.kids.insert(at, raw)
        if r.random() < .2:
            shift(r, d)
        rd = Render(r, plain=r.random() < .3)
        b, docs = rd.document(d)
        if text.startswith('<![CDATA[') and b.rfind(b']]>') > b.find(text.encode()):
            return bad_doc(r)       # something later in the document ends the section
        ev = Events(d, pevals=rd.pevals)
        out = ev.document()
        return 'content ' + text[:20], b, docs, out, raw.line
    if r.random() < .2:
        shift(r, d)
    rd = Render(r, plain=r.random() < .3)
    if k < 0.8:
        b, docs = rd.document(d)
        t = b.decode('utf-8')
        end = len(t) - 1 - r.choice([0, 0, 1, 2, 5, 40]) if r.random() < .4 else r.randint(0, len(t) - 1)
        # the last '>' of the root element must be cut off
        last = rend_root_end(t)
        b = t[:max(0, min(end, last - 1))].encode('utf-8')
        if r.random() < .1 and b:
            b = b[:-1]
            b = b[:len(b.decode('utf-8', 'ignore').encode('utf-8'))] if r.random() < .5 else b
        kind = 'truncated'
    else:
        b, docs = rd.document(d)
        n = len(b)
        k = r.randint(min(60, n - 1), n - 1) if n > 61 else n - 1
        last = len(b.decode('utf-8')[:rend_root_end(b.decode('utf-8'))].encode('utf-8'))
        k = min(k, last - 1)
        b = b[:k] + r.choice([b'\xff', b'\xfe', b'\xc0\x80', b'\xed\xa0\x80', b'\xf5\x80\x80\x80', b'\x00', b'\x0b', b'\xef\xbf\xbf']) + b[k:]
        kind = 'bad bytes'
    return kind, b, docs, Events(d, pevals=rd.pevals).document(), 1


def rend_root_end(t):
    """offset just after the root element's last '>' (documents here have no markup look-alikes after the root except comments and PIs)"""
    i = len(t)
    while True:
        s = t[:i].rstrip(' \t\r\n')
        if s.endswith('-->') and '<!--' in s:
            j = s.rindex('<!--')
            if s.count('-->', j) == 1:
                i = j
                continue
        if s.endswith('?>'):
            i = s.rindex('<?')
            continue
        return len(s)


def same_event(e, x):
    return len(e) == len(x) and all(b is None or a == b for a, b in zip(e, x))


def check_C03():
    c = Check('C03', 'exploration', 'distinct ill-formed documents, aborted parses and follow-up parses whose error reports, event prefix '
              'and recovery were checked on a reader that had already been used',
              ['after a fatal error endDocument may or may not be delivered', 'Expat decides what is well formed'])
    exe = build([EXPAT, LIBXML])
    r = c.rng
    for spec, n in ((EXPAT, n_cases(1200, 15000)), (LIBXML, n_cases(300, 3000))):
        be = spec['backend']
        cases = []
        for i in range(n):
            lines, plan = [['LOCS', '1']], []
            if r.random() < .15:
                fs = [r.choice('FTN') for _ in range(r.randint(1, 3))]
                lines.append(['FILTERS'] + fs)
            for k in range(r.choice([2, 3, 4, 6])):
                dn = 'd%d' % k
                z = r.random()
                if z < .35 or k == 5:
                    g = Gen(r, dtd=.15 if be == 'expat' else 0, ns=.6, maxels=r.choice([1, 4, 12]), xmlxml=False, enc=be == 'expat')
                    d = g.document(); rd = Render(r, lf_only=be != 'expat'); b, docs = rd.document(d)
                    ev = Events(d, pevals=rd.pevals); exp = ev.document()
                    lines += doc_lines(b, docs, dn)
                    how = rand_parse(r, dn)
                    lines.append(how)
                    plan.append(('good', exp, ev.lines, b, 1, how))
                elif z < .7:
                    kind, b, docs, exp, l0 = bad_doc(r)
                    if be == 'libxml2' and (b'<!DOCTYPE' in b or kind.startswith('bad bytes')):
                        kind, b, docs, exp, l0 = 'content <', b'<a>x<b></a>', {}, [['SD'], ['SE', '', 'a', 'a'], ['CH', 'x'], ['SE', '', 'b', 'b']], 1
                    lines += doc_lines(b, docs, dn)
                    how = rand_parse(r, dn)
                    if r.random() < .15:
                        how = ['PARSE', 'broken', dn]
                    if how[1] in ('file', 'uri') and not b:
                        how = ['PARSE', 'stream', dn]
                    lines.append(how)
                    plan.append(('bad', exp, kind, b, l0, how))
                elif z < .9 and be == 'expat':
                    g = Gen(r, dtd=.15 if be == 'expat' else 0, ns=.6, maxels=r.choice([1, 4, 12]), xmlxml=False, enc=be == 'expat')
                    d = g.document(); rd = Render(r, lf_only=be != 'expat'); b, docs = rd.document(d)
                    exp = Events(d, pevals=rd.pevals).document()
                    lines += doc_lines(b, docs, dn)
                    t = r.randint(0, 2)
                    at = r.randint(0, max(1, len(exp)))
                    lines.append(['THROW', str(at), str(t)])
                    how = rand_parse(r, dn)
                    lines.append(how)
                    plan.append(('throw', exp, (at, t), b, 1, how))
                else:
                    how = ['PARSE', 'missing', dn, r.choice(['/no/such/file.xml', 'file:///no/such/file', '', 'nosuch.xml', '/'])]
                    lines.append(how)
                    plan.append(('missing', [], None, b'', 1, how))
            cases.append(Case('%s%d' % (be[0], i), lines, ['w' if r.random() < .1 else 'n'], plan))
        res = run(exe[spec['name']], cases)
        for cs in cases:
            rr = res.get(cs.id)
            if rr is None or crash(c, cs, rr):
                continue
            segs = segments(rr)
            if len(segs) != len(cs.meta):
                c.violation('%d parses logged of %d' % (len(segs), len(cs.meta)), cs.text())
                continue
            for k, ((kind, exp, info, b, l0, how), (pl, evs, end, outs)) in enumerate(zip(cs.meta, segs)):
                evs, pos = located(evs)
                bad = judge(kind, exp, info, b, l0, evs, pos, end, be, how, any(l[0] == 'FILTERS' and 'T' in l for l in cs.lines))
                if bad:
                    c.violation('%s, parse %d (%s, after %s): %s' % (be, k, kind + ' ' + str(info if kind == 'bad' else ''), [m[0] for m in cs.meta[:k]], bad),
                                cs.text()[:40000] + '\n--- log ---\n' + '\n'.join(trunc(e) for e in evs[-12:]) + '\n%r' % (end,))
                    break
                c.ok((kind, b, str(info)[:40]))
                c.count(be + ' ' + kind)
                if k:
                    c.count('after ' + cs.meta[k - 1][0])
    # known findings: the libxml2 reader (not the one this build uses)
    doc = b'<a>x<b></a>'.hex()
    res = run(exe['sax-libxml2'], [Case('kf-fatal', [['DOC', 'd', doc], ['PARSE', 'stream', 'd']], ['n']),
                                   Case('kf-throw', [['DOC', 'd', b'<a b="c">x<b/></a>'.hex()], ['THROW', '3', '0'], ['PARSE', 'stream', 'd']], ['n'])], leak=1)
    rr = res['kf-fatal']
    if isinstance(rr, Crash) or sum(e[0] == 'FATAL' for e in rr) != 1:
        c.violation('libxml2 reader: <a>x<b></a> must be reported as one fatal error: %r' % (rr,), '<a>x<b></a>', 'libxml2-fatal')
    rr = res['kf-throw']
    if isinstance(rr, Crash) or ['LEAK'] in rr:
        c.violation('libxml2 reader leaks when a handler throws: %r' % (rr,), '<a b="c">x<b/></a>', 'libxml2-throw')
    c.finish()


def judge(kind, exp, info, b, l0, evs, pos, end, be, how, text_held):
    fatals = [e for e in evs if e[0] == 'FATAL']
    keep = [e[0] not in ('NSQ', 'BASE') for e in evs]
    pos = [q for q, k in zip(pos, keep) if k]
    evs = [e for e, k in zip(evs, keep) if k]
    others = [e for e in evs if e[0] not in ('FATAL', 'WARN', 'THROW')]
    if be == 'libxml2':
        others = content(others); exp = content(exp)
    nlines = b.count(b'\n') + b.count(b'\r') + 1
    if kind == 'good':
        if fatals:
            return 'fatal error %r for a well-formed document' % fatals[0]
        g, x = noxmlns(norm(others)), noxmlns(norm(exp))
        if be == 'libxml2':
            g, x = join_cdata(g), join_cdata(x)
        if end != ['RET'] or g != x:
            return 'expected %s got %s at %d, end %r' % (trunc(first_diff(x, g)[1]), trunc(first_diff(x, g)[2]), first_diff(x, g)[0], end)
        se = [(e, q) for e, q in zip(evs, pos) if e[0] == 'SE']
        if be == 'expat':
            for (i, a, z), (e, q) in zip(info, se):
                if q and z and not a <= q[0] <= z:
                    return 'start tag %r reported at line %d, spans %d-%d' % (e[3], q[0], a, z)
        return None
    if kind == 'throw':
        at, t = info
        if ['THROW'] not in evs:
            return judge('good', exp, [], b, l0, evs, pos, end, be, how, text_held)
        if end[0] != 'EXC' or end[1] != ('SAX', 'Boom', 'int')[t]:
            return 'handler threw %s, parse ended with %r' % (('SAXException', 'an exception', '42')[t], end)
        if fatals:
            return 'fatal error %r reported besides the exception' % fatals[0]
        if evs[-1] != ['THROW']:
            return 'events after the handler threw: %r' % (evs[-1],)
        if len(evs) - 2 != at:
            return 'threw at callback %d, asked for %d' % (len(evs) - 2, at)
        if be != 'expat':
            return None
        return is_prefix(noxmlns(others), noxmlns(exp))
    if be == 'libxml2' and end[:2] == ['EXC', 'SAX'] and 'qname' in end[-1].lower():
        return None         # the half of a name libxml2 carries on with is refused
    if end != ['RET']:
        return 'parse ended with %r' % (end,)
    if be == 'libxml2':      # how it classifies errors: see the known findings
        if not fatals and not any(e[0] == 'ERR' for e in evs):
            return 'no error reported'
        return None
    if kind == 'missing':
        if len(fatals) != 1 or others not in ([], [['SD'], ['ED']], [['SD']]):
            return 'unresolvable source: %d fatal errors, events %r' % (len(fatals), others[:3])
        return None
    # malformed
    if len(fatals) != 1:
        return '%d fatal errors reported: %r' % (len(fatals), fatals[:3])
    line = int(fatals[0][1])
    if not 1 <= line <= nlines:
        return 'error reported at line %d of a document with %d lines' % (line, nlines)
    if be == 'expat' and line < l0 and how[1] != 'broken':
        return 'error reported at line %d, the document is well formed up to line %d' % (line, l0)
    i = evs.index(fatals[0])
    after = [e for e in evs[i + 1:] if e[0] not in ('WARN', 'ERR')]
    if text_held and after and after[0][0] == 'CH':      # a TextCoalescer hands over the text it holds at the end
        evs = evs[:i] + [after.pop(0)]
        i += 1
    if after not in ([], [['ED']]):
        return 'events after the fatal error: %r' % (after[:3],)
    if be != 'expat':
        return None
    before = [e for e in evs[:i] if e[0] not in ('WARN', 'FATAL')]
    return is_prefix(noxmlns(before), noxmlns(exp), 'CDATA' in info, info == 'bad bytes')


# ---------------------------------------------------------------- C04
def check_C04():
    c = Check('C04', 'exploration', 'distinct documents with a DTD whose declaration, DTD, entity and content events and resolver calls '
              'all matched the subset they were spelled from, with external entities off and on',
              ['attribute types of actual attributes are reported as CDATA by this reader',
               'with external entities off the external subset is not read (and not reported as skipped)'])
    exe = build([EXPAT])['sax-expat']
    r = c.rng
    cases = []
    for i in range(n_cases(2600, 30000)):
        lines, plan = [], []
        ge = 0
        lines.append(['RESOLVER'])
        lines.append(['HANDLERS', 'CLDTE'])
        for k in range(r.choice([1, 1, 2, 3])):
            if r.random() < .6 or k == 0:
                ge = r.randint(0, 1)
                lines.append(['FEAT', 'ge', str(ge)])
                if r.random() < .5 or not ge:
                    lines.append(['FEAT', 'pe', str(ge)])
            g = Gen(r, dtd=1.0, ns=r.choice([0, .6]), external=r.random() < .8, ge=bool(ge), pe=bool(ge), maxels=r.choice([1, 3, 8]),
                    names=['a', 'b', 'item', 'é', 'x-1'], enc=False, undeclare=False)
            d = g.document()
            uniq_sys(d)
            rd = Render(r, plain=r.random() < .2)
            b, docs = rd.document(d)
            docs2 = {'%s' % s: v for s, v in docs.items()}
            ev = Events(d, ge=bool(ge), pevals=rd.pevals)
            exp = norm(ev.document())
            if len(b) > 60000:
                continue
            lines += doc_lines(b, docs2, 'd%d' % k)
            t = None
            if r.random() < .12:      # a handler throws somewhere, perhaps inside an external entity
                t = r.randint(0, 2)
                lines.append(['THROW', str(r.randint(0, len(exp) + len(ev.res))), str(t)])
            lines.append(['PARSE', r.choice(['stream', 'slow']), 'd%d' % k, 'base/doc.xml', str(r.choice([1, 3, 50, 5000]))])
            plan.append((exp, ev.res, ge, b, t))
        cases.append(Case('e%d' % i, lines, ['w' if r.random() < .1 else 'n'], plan))
    res = run(exe, cases)
    for cs in cases:
        rr = res.get(cs.id)
        if rr is None or crash(c, cs, rr):
            continue
        feats = [e for e in rr if e[0] in ('FEAT', 'FEATEXC')]
        want = [['FEAT', l[1], l[2]] for l in cs.lines if l[0] == 'FEAT']
        if feats != want:
            c.violation('features read back %s, set %s' % (feats, want), cs.text()[:20000])
            continue
        for (exp, rs, ge, b, t), (pl, evs, end, outs) in zip(cs.meta, segments(rr)):
            if ['THROW'] in evs:
                bad = 'parse ended with %r' % (end,) if end[:2] != ['EXC', ('SAX', 'Boom', 'int')[t]] else \
                    'events after the handler threw' if evs[-1] != ['THROW'] else 'error reported' if any(e[0] in ('FATAL', 'ERR') for e in evs) else \
                    is_prefix([e for e in noxmlns(evs) if e[0] not in ('RES', 'THROW')], noxmlns(exp))
                if bad:
                    c.violation('handler throws (external entities %s): %s' % (('off', 'on')[ge], bad), cs.text()[:20000])
                    break
                c.ok()
                c.count('handler threw')
                continue
            got_res = [e[1:] for e in evs if e[0] == 'RES']
            got = noxmlns(norm([e for e in evs if e[0] != 'RES']))
            exp = noxmlns(exp)
            if end != ['RET'] or got != exp:
                diff(c, 'external entities %s' % ('off', 'on')[ge], cs, exp, got, 'end %r' % (end,))
                break
            if got_res != rs:
                c.violation('resolver asked for %s, the document refers to %s (external entities %s)' % (got_res[:6], rs[:6], ('off', 'on')[ge]), cs.text()[:20000])
                break
            bad = split_outside_bound(evs) or declaration_monitor(evs)
            if bad:
                c.violation(bad, cs.text()[:20000])
                break
            nd = sum(e[0] in DECLS for e in exp)
            c.ok((ge, b) if nd else None)
            c.count('declarations', nd)
            c.count('external entities ' + ('off', 'on')[ge])
            c.count('resolver calls', len(rs))
            c.count('skipped entities', sum(e[0] == 'SK' for e in exp))
            c.count('entities opened', sum(e[0] == 'SEN' for e in exp))
    # a handler that throws anywhere, inside an external entity or the external subset too, leaves the reader usable
    c.sample({'doc': next((m[3] for cs in cases for m in cs.meta if len(m[3]) < 900), b'').decode('utf-8', 'replace')})
    c.finish()


def uniq_sys(d):
    """every external identifier distinct: the reader knows entities by their identifiers"""
    n = [0]

    def fix(ds):
        for j, x in enumerate(ds):
            if x[0] == 'ent' and x[1].kind == 'ext':
                n[0] += 1
                x[1].sys = x[1].sys + '-%d' % n[0]
            elif x[0] == 'pe':
                n[0] += 1
                ds[j] = x[:4] + (x[4] + '-%d' % n[0],) + x[5:]
                fix(x[3])
    if d.dtd:
        fix(d.dtd.subset)
        fix(d.dtd.external or [])


def declaration_monitor(evs):
    """declarations only between startDTD and endDTD"""
    inside = False
    for i, e in enumerate(evs):
        if e[0] == 'SDTD':
            inside = True
        elif e[0] == 'EDTD':
            inside = False
        elif e[0] in DECLS and not inside:
            return 'declaration %r outside the DTD' % (e,)
        elif e[0] in ('SE', 'CH') and inside:
            return 'content event %r inside the DTD' % (e,)
    return None


# ---------------------------------------------------------------- C05
def wtext(evs):
    """what has to survive writing and reparsing: CDATA sections may be split, whitespace is exact"""
    return noxmlns(norm([e for e in evs if e[0] not in ('RES', 'WARN')]))


def nowhite(evs):
    """indentation adds and removes whitespace-only text, and text next to it may gain whitespace at its ends"""
    out = []
    for e in coalesce(evs):
        if e[0] == 'CH':
            if not e[1].strip(' \t\r\n'):
                continue
            e = ['CH', e[1].strip(' \t\r\n')]
        out.append(e)
    return coalesce(out)


def check_C05():
    c = Check('C05', 'exploration', 'distinct documents written by the SAX Writer whose output, reparsed, gave the events of the original '
              '(exactly without indentation, up to white space around markup with it)',
              ['attribute and prefix order in the output is the order of the events', 'Expat reparses the output'])
    exe = build([EXPAT])['sax-expat']
    r = c.rng
    n = n_cases(1500, 20000)
    cases = []
    for i in range(n):
        lines, plan = [], []
        wide = r.random() < .15
        ind = r.choice([0, 0, 0, 1, 2, 4])
        enc = r.choice(['', '', 'utf-8', 'UTF-8'])
        pre = [r.choice('FTNB') for _ in range(r.choice([0, 0, 1]))]
        post = [r.choice('FT') for _ in range(r.choice([0, 0, 1]))]
        lines.append(['FILTERS'] + pre + ['W%d%s' % (ind, enc) if enc or ind != 2 else 'W'] + post)
        if r.random() < .3:
            lines.append(['FEAT', 'nsp', '0'])
        for k in range(r.choice([1, 1, 2, 3])):
            g = Gen(r, dtd=.3, ns=.7, maxels=r.choice([1, 4, 12, 30]), enc=False)
            d = g.document()
            if r.random() < .05:
                big(r, d)
            rd = Render(r, plain=r.random() < .2)
            b, docs = rd.document(d)
            lines += doc_lines(b, docs, 'd%d' % k)
            lines.append(['PARSE', 'stream', 'd%d' % k])
            plan.append((norm(Events(d, pevals=rd.pevals).document()), b))
        cases.append(Case('e%d' % i, lines, ['w' if wide else 'n'], (plan, ind)))
    res = run(exe, cases)
    second = []
    for cs in cases:
        rr = res.get(cs.id)
        if rr is None or crash(c, cs, rr):
            continue
        plan, ind = cs.meta
        segs = segments(rr)
        for k, ((exp, b), (pl, evs, end, outs)) in enumerate(zip(plan, segs)):
            evs = [e for e in evs if e[0] not in ('NSQ', 'BASE')]
            got, want = noxmlns(norm(evs)), noxmlns(exp)
            if end != ['RET'] or got != want:
                diff(c, 'Writer did not pass the events on unchanged', cs, want, got, 'end %r' % (end,))
                break
            if len(outs) != 1:
                raise HarnessError('no output')
            second.append((cs, k, exp, b, ind, outs[0][2]))
    cases2 = [Case('r%d' % j, doc_lines(out.encode('utf-8', 'surrogateescape'), {}) + [['PARSE', 'stream', 'd']], ['n'], (cs, k, exp, b, ind, out))
              for j, (cs, k, exp, b, ind, out) in enumerate(second)]
    res = run(exe, cases2)
    for c2 in cases2:
        rr = res.get(c2.id)
        if rr is None or crash(c, c2, rr):
            continue
        cs, k, exp, b, ind, out = c2.meta
        pl, evs, end, _ = segments(rr)[0]
        fatal = [e for e in evs if e[0] in ('FATAL', 'ERR')]
        if fatal or end != ['RET']:
            c.violation('document %d: output is not well formed: %r\n%s' % (k, fatal[:1], out[:1500]), cs.text()[:20000])
            continue
        want, got = noxmlns(exp), noxmlns(norm(evs))
        # a DTD is written after it has been parsed: entity text stands expanded, declared defaults stand written out
        if ind:
            want, got = nowhite(want), nowhite(got)
        want, got = join_cdata(want), join_cdata(got)
        if want != got:
            diff(c, 'reparsed output (indent %d) of document %d' % (ind, k), cs, want, got, '\n--- output ---\n' + out[:1500])
            continue
        c.ok((b, ind))
        c.count('indent %d' % ind)
        c.count('bytes written', len(out))
        c.count('events compared', len(got))
    if second:
        c.sample({'input': second[0][3][:200].decode('utf-8', 'replace'), 'output': second[0][5][:300]})
    c.finish()


# ---------------------------------------------------------------- C06
from c_util import resolve, present, is_ncname

HANDLES = {'C': ('SD', 'ED', 'SP', 'EP', 'SE', 'EE', 'CH', 'IW', 'PI', 'SK', 'NSQ', 'BASE'),
           'L': ('SDTD', 'EDTD', 'SEN', 'EEN', 'SCD', 'ECD', 'CO'), 'D': ('ELD', 'ATD', 'IED', 'EED'), 'T': ('ND', 'UE'), 'E': ('WARN', 'ERR', 'FATAL')}
WSRUN = re.compile('[ \t\r\n]+')


def f_coalesce(evs):
    return [list(e) for e in coalesce([['CH', e[1]] if e[0] == 'IW' else e for e in evs]) if e != ['CH', '']]


def f_textonly(evs):
    return [e for e in evs if e[0] in ('SD', 'ED', 'CH', 'IW', 'RES', 'WARN', 'ERR', 'FATAL')]


def f_strip(evs):
    return [['CH', WSRUN.sub(' ', e[1]).strip(' ')] if e[0] == 'CH' else e for e in evs if e[0] != 'IW']


def pyx(evs):
    esc = lambda s: s.replace('\\', '\\\\').replace('\n', '\\n')
    o = []
    for e in evs:
        if e[0] == 'SE':
            o.append('(' + (e[2] or e[3]))
            for i in range(4, len(e), 5):
                o.append('A' + (e[i + 1] or e[i + 2]) + ' ' + esc(e[i + 4]))
        elif e[0] == 'EE':
            o.append(')' + (e[2] or e[3]))
        elif e[0] == 'CH':
            o.append('-' + esc(e[1]))
        elif e[0] == 'PI':
            o.append('?' + e[1] + ' ' + esc(e[2]))
    return ''.join(x + '\n' for x in o)


def f_tracked(evs, probes, loc):
    """the answers the trackers have to give at every start and end tag, worked out from the events themselves"""
    out = []
    stack = [({'xml': XML}, loc)]
    pend = {}
    for e in evs:
        if e[0] == 'SP':
            pend[e[1]] = e[2]
        if e[0] == 'SE':
            m, b = stack[-1]
            m = dict(m); m.update(pend); pend = {}
            v = [e[i + 4] for i in range(4, len(e), 5) if e[i:i + 2] == [XML, 'base']]
            if v and v[0] and loc is not None:
                b = present(*resolve(b, v[0]))[-1]
            stack.append((m, b))
            out.append(e)
        if e[0] in ('SE', 'EE'):
            m, b = stack[-1]
            ns = None if probes is None else ['NSQ'] + ['%s=%s' % (p, m.get(p, '')) for p in probes] + ['|'] + \
                ['%s=%s' % kv for kv in sorted(dict([('', m.get(''))] if m.get('') else [('', '')], **{k: v for k, v in m.items() if k}).items(),
                                               key=lambda kv: kv[0].encode())]
            if ns:
                out.append(ns)
            if loc is not None:
                out.append(['BASE', b, present(*resolve(b, 'x/../y'))[-1]])
        if e[0] == 'EE':
            stack.pop()
        if e[0] != 'SE':
            out.append(e)
    return out


def check_C06():
    c = Check('C06', 'exploration', 'distinct (filter chain, document) pairs for which the events that reached the application were exactly the events '
              'of the bare reader transformed by the models of the filters, in a chain that was reused for several documents',
              ['the events of the bare reader, fed in the same portions, are the input of the models (C01 and C04 check those)'])
    exe = build([EXPAT])['sax-expat']
    r = c.rng
    cases, plain = [], []
    for i in range(n_cases(2200, 25000)):
        wide = r.random() < .12
        chain = [r.choice('FFTTONNBBSX') for _ in range(r.choice([1, 1, 2, 3, 4, 6]))]
        for u in 'SO':
            while chain.count(u) > 1:
                chain.remove(u)
        lines = [['HANDLERS', 'CLDTE' if r.random() < .7 else ''.join(sorted(set('C' + r.choice(['', 'L', 'D', 'T', 'LE', 'DT'])))) ]]
        hs = lines[0][1]
        fl = ['FILTERS'] + chain
        probes = [r.choice(['', 'p', 'q', 'ns1', 'xml', 'xmlnsx', 'é', 'nope']) for _ in range(3)]
        setup = []
        ge = r.random() < .3
        if ge or r.random() < .5:
            setup += [['FEAT', 'ge', '1' if ge else '0']]
        if r.random() < .3:
            setup += [['FEAT', 'nsp', '0']]
        if ge or r.random() < .3:
            setup.append(['RESOLVER'])
        setloc = None
        tr, pl = [], []
        locs = []
        for k in range(r.choice([1, 2, 3, 4])):
            g = Gen(r, dtd=.3, ns=.7, external=ge, ge=ge, pe=ge, maxels=r.choice([1, 4, 12, 30]), enc=r.random() < .2, xmlxml=False)
            d = g.document()
            for e in [n for n in xg.walk([d.root]) if isinstance(n, El)]:
                if r.random() < .3 and not any(x[0] == 'a' and x[1] == 'xml:base' for x in e.items):
                    e.items.insert(r.randint(0, 0), ('a', 'xml:base', r.choice(['sub/', '../', 'http://other.org/a/b', '/abs/path/', 'x.xml', '?q', 'a/./b/../c/d', '', '//host/p/', '../../up/y']), 'CDATA'))
            if r.random() < .2:
                ee = r.choice([n for n in xg.walk([d.root]) if isinstance(n, El)])
                ee.kids.append(Text(' \n'.join(r.choice(['word', 'two  words', '\t', '']) for _ in range(r.randint(2, 20)))) if not ee.kids or not isinstance(ee.kids[-1], Text) else Comment('c'))
            if ge:
                uniq_sys(d)
            b, docs = Render(r, plain=r.random() < .2).document(d)
            ls = doc_lines(b, docs, 'd%d' % k)
            lines += ls
            if r.random() < .15:
                setloc = r.choice(['http://set.org/loc/doc', 'file:///set/loc.xml'])
                tr.append(['BASE', setloc])
                if 'B' not in chain:
                    setloc = None
            sysid = r.choice(['http://example.org/x/y/doc.xml', 'http://example.org/doc.xml?q#f', 'file:///tmp/nosuch/doc.xml'])
            locs.append(setloc or sysid)
            if r.random() < .25:      # a document that goes wrong half way
                bad = r.choice(['<a xmlns:p="urn:lost" xml:base="lost/"><b>te<', '<a xmlns="urn:lost">text', '<a xml:base="lost/"/><', '<p:a xmlns:p="v"><b xml:base="x"><c/></p>', ''])
                l = ['PARSE', 'stream', 'bad%d' % k, sysid]
                dl = ['DOC', 'bad%d' % k, bad.encode().hex()]
                if r.random() < .3:
                    th = ['THROW', str(r.randint(0, 5)), '0']
                    tr.append(th)
                tr += [dl, l]; pl += [dl, l]
                locs.insert(-1, None)
            l = ['PARSE', r.choice(['stream', 'slow']), 'd%d' % k, sysid, str(r.choice([1, 2, 5, 30]))]
            tr.append(l); pl.append(l)
        h = ['w' if wide else 'n']
        cases.append(Case('f%d' % i, lines + [fl] + setup + [['PROBE'] + probes] + tr, h, (chain, hs, probes, locs)))
        plain.append(Case('f%d' % i, [['HANDLERS', 'CLDTE'], ['HOOK']] + lines[1:] + setup + pl, h))
    res = run(exe, cases)
    ref = run(exe, plain)
    for cs, ps in zip(cases, plain):
        rr, pp = res.get(cs.id), ref.get(cs.id)
        if rr is None or pp is None or crash(c, cs, rr) or crash(c, ps, pp):
            continue
        chain, hs, probes, locs = cs.meta
        a, b = segments(rr), segments(pp)
        if [e for e in rr if e[0][:4] == 'FEAT'] != [e for e in pp if e[0][:4] == 'FEAT']:
            c.violation('features set through filters %s read back differently: %s' % (chain, [e for e in rr if e[0][:4] == 'FEAT']), cs.text()[:20000])
            continue
        if len(a) != len(b) or len(a) != len(locs):
            c.violation('%d parses through filters %s, %d without' % (len(a), chain, len(b)), cs.text()[:20000])
            continue
        for k, (loc, (pl, got, end, outs), (_, raw, rend, _)) in enumerate(zip(locs, a, b)):
            if loc is None:
                continue
            if [e for e in raw if e[0] == 'RES'] != [e for e in got if e[0] == 'RES']:
                c.violation('resolver calls differ through filters %s' % ' '.join(chain), cs.text()[:20000])
                break
            got = [e for e in got if e[0] != 'RES']
            exp, xouts = [list(e) for e in raw if e[0] != 'RES'], []
            nt = bt = None
            for f in chain:
                exp = f_coalesce(exp) if f == 'T' else f_textonly(exp) if f == 'O' else f_strip(exp) if f == 'S' else exp
                if f == 'X':
                    xouts.append(pyx(exp))
                nt = probes if f == 'N' else nt
                bt = loc if f == 'B' else bt
            exp = f_tracked(exp, nt if 'N' in chain else None, bt if 'B' in chain else None) if 'O' not in chain else exp
            allow = set(x for h in hs for x in HANDLES[h])
            exp = [e for e in exp if e[0] in allow]
            if end != rend or got != exp:
                diff(c, 'filters %s, document %d' % (' '.join(chain), k), cs, exp, got, 'end %r' % (end,))
                break
            if [o[2] for o in outs] != xouts:
                i = next(i for i in range(len(xouts)) if outs[i][2] != xouts[i])
                x, y = xouts[i].split('\n'), outs[i][2].split('\n')
                c.violation('PYX output behind %s: expected line %s got %s' % (chain, trunc(first_diff(x, y)[1]), trunc(first_diff(x, y)[2])), cs.text()[:20000])
                break
            c.ok((tuple(chain), tuple(map(tuple, raw))) if len(raw) > 4 else None)
            for f in set(chain):
                c.count('through ' + f)
            c.count('events', len(got))
            c.count('tracker answers', sum(e[0] in ('NSQ', 'BASE') for e in got))
            c.count('PYX records', sum(x.count('\n') for x in xouts))
            if k:
                c.count('chain reused')
    c.sample({'chain': cases[0].meta[0], 'events': segments(res[cases[0].id])[0][1][:5] if not isinstance(res.get(cases[0].id), Crash) else ''})
    c.finish()


# ---------------------------------------------------------------- C07
def check_C07():
    c = Check('C07', 'exploration', 'distinct sequences of at least five attribute list or namespace context operations whose every answer matched the model',
              ['a context never declares the same prefix twice', 'the base context is not popped',
               'setters on an index that does not exist must raise an exception'])
    exe = build([EXPAT])['sax-expat']
    r = c.rng
    names = ['a', 'b', 'c', 'é', '']
    uris = ['', 'u', 'v', 'urn:w', 'U']
    cases = []
    for i in range(n_cases(6000, 80000)):
        body, exp = [], []
        if r.random() < .6:
            L = [[], []]
            for _ in range(r.randint(5, 60)):
                w = r.randint(0, 1)
                l = L[w]
                u, n = r.choice(uris), r.choice(names)
                q = r.choice(['', 'p:', 'q:']) + n
                ty, v = r.choice(['CDATA', 'ID', 'NMTOKEN', '']), r.choice(['', 'v', 'w', 'long value <&"', 'é'])
                k = r.random()
                idx = r.randint(0, max(0, len(l) - 1)) if l and r.random() < .93 else r.choice([len(l), len(l) + 1, 99])
                ok = idx < len(l)
                if k < .22:
                    body.append(['a.add', str(w), u, n, q, ty, v] + (['attr'] if r.random() < .3 else []))
                    l.append([u, n, q, ty, v])
                elif k < .32:
                    body.append(['a.aor', str(w), u, n, q, ty, v])
                    m = [x for x in l if x[0] == u and x[1] == n]
                    if m:
                        m[0][4] = v
                    else:
                        l.append([u, n, q, ty, v])
                elif k < .38 and ok:
                    body.append(['a.set', str(w), str(idx), u, n, q, ty, v])
                    l[idx] = [u, n, q, ty, v]
                elif k < .44 and ok:
                    body.append(['a.rm', str(w), str(idx)])
                    del l[idx]
                elif k < .54 and ok:
                    j = r.randint(0, 4)
                    nv = (u, n, q, ty, v)[j]
                    body.append(['a.' + ('uri', 'local', 'qname', 'type', 'value')[j], str(w), str(idx), nv])
                    l[idx][j] = nv
                elif k < .56:
                    body.append(['a.clear', str(w)]); l[:] = []
                elif k < .63:
                    f = r.randint(0, 1)
                    how = r.choice(['set', 'assign', 'impl', 'ctor'])
                    body.append(['a.copy', str(w), str(f), how])
                    L[w] = [list(x) for x in L[f]]
                elif k < .75:
                    body.append(['a.dump', str(w)])
                    exp.append(['DUMP', str(len(l))] + [y for x in l for y in x])
                elif k < .79:
                    body.append(['a.eq']); exp.append(['EQ', '1' if L[0] == L[1] else '0'])
                elif k < .87:
                    body.append(['a.byq', str(w), q])
                    m = [j for j, x in enumerate(l) if x[2] == q]
                    exp.append(['BYQ', str(m[0]), l[m[0]][3], l[m[0]][4]] if m else ['BYQ', '-1', '', ''])
                elif k < .95:
                    body.append(['a.byn', str(w), u, n])
                    m = [j for j, x in enumerate(l) if x[0] == u and x[1] == n]
                    exp.append(['BYN', str(m[0]), l[m[0]][3], l[m[0]][4]] if m else ['BYN', '-1', '', ''])
                else:
                    body.append(['a.at', str(w), str(idx)])
                    exp.append(['AT'] + (l[idx] if ok else [''] * 5))
            for w in (0, 1):
                body.append(['a.dump', str(w)])
                exp.append(['DUMP', str(len(L[w]))] + [y for x in L[w] for y in x])
            kind = 'attribute lists'
        else:
            st = [{'xml': XML}]
            pre = ['', 'p', 'q', 'r', 'é', 'xml', 'xmlns', 'xmlnsx']
            us = ['u', 'v', 'w', '', XML]
            look = lambda p: next((s[p] for s in reversed(st) if p in s), '')
            for _ in range(r.randint(5, 70)):
                k = r.random()
                p, u = r.choice(pre), r.choice(us)
                if k < .18:
                    body.append(['n.push']); st.append({})
                elif k < .28 and len(st) > 1:
                    body.append(['n.pop']); st.pop()
                elif k < .29:
                    body.append(['n.reset']); st = [{'xml': XML}]
                elif k < .5 and p not in st[-1]:
                    ok = p not in ('xml', 'xmlns')
                    body.append(['n.decl', p, u]); exp.append(['DECL', '1' if ok else '0'])
                    if ok:
                        st[-1][p] = u
                elif k < .62:
                    body.append(['n.uri', p]); exp.append(['URI', look(p)])
                elif k < .7:
                    body.append(['n.prefix', u])
                    exp.append(('PREFIX', {q for s in st for q in s if q and look(q) == u} or {''}))
                elif k < .78:
                    body.append(['n.prefixes', u]); exp.append(('PREFIXES', {q for s in st for q in s if q and look(q) == u}))
                elif k < .84:
                    body.append(['n.prefixes']); exp.append(('PREFIXES', {q for s in st for q in s if q}))
                elif k < .88:
                    body.append(['n.declared']); exp.append(('PREFIXES', set(st[-1])))
                else:
                    n = r.choice(['a', 'p:a', 'q:b', 'r:x', 'é:é', 'xml:lang', 'xmlns', ':a', 'a:', 'a:b:c', '', 'zz:a', ':'])
                    at = r.randint(0, 1)
                    body.append(['n.name', n, str(at)])
                    pf, _, ln = n.rpartition(':') if n.count(':') == 1 else ('', '', n)
                    if n == '' or n.count(':') > 1 or n.count(':') == 1 and (not pf or not ln):
                        exp.append(('ANYNAME',))
                    else:
                        exp.append(['NAME', look(pf) if pf or not at else '', ln, n, pf] if n != 'xmlns' else ('ANYNAME',))
            kind = 'namespace contexts'
        cases.append(Case('l%d' % i, body, ['w' if r.random() < .15 else 'n'], (exp, kind)))
    for i in range(n_cases(200, 2000)):      # indices which do not exist
        n = r.randint(0, 3)
        body = [['a.add', '0', 'u', 'n%d' % j, 'q%d' % j, 't', 'v'] for j in range(n)]
        op = r.choice(['uri', 'local', 'qname', 'type', 'value', 'rm', 'set'])
        idx = r.choice([n, n + 1, 1000])
        cases.append(Case('x%d' % i, body + [['a.' + op, '0', str(idx)] + ([] if op == 'rm' else ['x'] * 5 if op == 'set' else ['x'])], ['n'], (None, 'bad index')))
    res = run(exe, cases)
    for cs in cases:
        rr = res.get(cs.id)
        if rr is None:
            continue
        exp, kind = cs.meta
        if exp is None:
            if isinstance(rr, Crash) or [e[0] for e in rr] != ['FOREIGN']:
                c.violation('setter on an index that does not exist: %r' % (rr,), cs.text())
            else:
                c.ok(tuple(map(tuple, cs.lines)))
                c.count(kind)
            continue
        if crash(c, cs, rr):
            continue
        bad = None
        if len(rr) != len(exp):
            bad = '%d answers for %d questions' % (len(rr), len(exp))
        else:
            asks = [l for l in cs.lines if l[0] in ('a.dump', 'a.eq', 'a.byq', 'a.byn', 'a.at', 'n.decl', 'n.uri', 'n.prefix', 'n.prefixes', 'n.declared', 'n.name')]
            for q, e, g in zip(asks, exp, rr):
                if isinstance(e, list):
                    ok = e == g
                elif e[0] == 'PREFIX':
                    ok = g[1] in e[1]
                elif e[0] == 'PREFIXES':
                    ok = sorted(g[1:]) == sorted(e[1])
                else:
                    ok = g[0] in ('NAME', 'NAMEEXC')
                if not ok:
                    bad = '%r answered %r, expected %r' % (q, g, e)
                    break
        if bad:
            c.violation(bad, cs.text())
        else:
            c.ok(tuple(map(tuple, cs.lines)))
            c.count(kind)
            c.count('answers checked', len(exp))
    c.sample({'operations': cases[0].lines[:8]})
    c.finish()
