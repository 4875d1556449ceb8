"""C16: a file's texts, all of them and nothing else, go through the conversion.

The file functions are interpreted with models of the file, zip, XML and HTML libraries. A document is a finite set of
representatives: one or more nodes of each kind that matters, each with a text of its own token. convert is replaced by a
marker that turns the token of a text into the token of its result."""
from engine import absint as A, charset as C, lib, sweep
from engine.absint import L, Inst, Cls, Ext, PyFn, AStr, NodeStr, OneOf

M = 'aksharamukha.transliterate_file'
W = '{http://schemas.openxmlformats.org/wordprocessingml/2006/main}'
DR = '{http://schemas.openxmlformats.org/drawingml/2006/main}'
SETTINGS = [('IAST', 'Thai', ['IASTPali', 'KannadaNotRepha'], ['romanNumerals']), ('Thai', 'Thai', [], ['romanNumerals']), ('Urdu', 'IAST', ['IASTPali'], []),
            ('Devanagari', 'Ignore', [], []), ('autodetect', 'Tamil', ['RemoveSchwaHindi'], ['TamilSubScript', 'TamilRemoveNumbers'])]
EXTRA = ' \n\t\r\u00a0'


class World:
    """what one run does to the outside"""

    def __init__(self):
        self.n = 0
        self.calls = []
        self.files = []          # [path, mode, contents]
        self.gaps = []
        self.bad = {}
        self.ids = {}

    def text(self, what, name=None):
        """a fresh text: its token, and blanks and line breaks on both ends"""
        c = chr(0xF0000 + self.n)
        self.ids[c] = what
        self.n += 1
        cs = C.of(c + EXTRA + 'aक')
        return AStr(cs, frozenset(c + EXTRA), True)

    def hit(self, key, text):
        self.bad.setdefault(key, text)


def tok(v, base):
    """the token characters of plane `base` the text can hold / must hold"""
    if not isinstance(v, AStr) or v.cs.neg:
        return None
    return frozenset(c for c in v.cs.chars() if ord(c) >> 16 == base), frozenset(c for c in v.must if len(c) == 1 and ord(c) >> 16 == base)


def res_of(c):
    return chr(ord(c) + 0x10000)


def obj(name, attrs, kinds=None):
    cls = Cls(name, {}, None, [Ext('model')])
    if kinds:
        cls.kinds = kinds
    i = Inst(cls)
    i.attrs.update(attrs)
    return i


def fn(name, f):
    return PyFn(name, lambda ip, a, k, n: f(ip, a, k, n))


def install(ip, w):
    w.open_zips = []

    def convert(ip, f, args, kw, node):
        names = ['src', 'tgt', 'txt', 'nativize', 'preoptions', 'postoptions']
        b = dict(zip(names, args))
        b.update(kw)
        b.setdefault('nativize', True)
        b.setdefault('preoptions', L())
        b.setdefault('postoptions', L())
        w.calls.append((b, node, ip.stack[-1][0].qual if ip.stack else ''))
        t = b.get('txt')
        if t is None:
            w.hit('convert-none|' + where(ip), 'a text that is None is sent to the conversion, at ' + where(ip))
            return AStr()
        if isinstance(t, str):
            return t
        if isinstance(t, OneOf):
            t = A.to_astr(t)
        if not isinstance(t, AStr) or t.cs.neg:
            w.gaps.append('a text of unknown content is converted')
            return AStr()
        sh = lambda c: res_of(c) if ord(c) >> 16 == 15 else c
        return AStr(C.of(''.join(map(sh, t.cs.chars()))), frozenset(sh(c) for c in t.must if len(c) == 1), t.ne)

    def file_open(ip, args, kw, node):
        p, mode = args[0], args[1] if len(args) > 1 else kw.get('mode', 'r')
        if isinstance(p, A.PathVal):
            p = p.path
        if isinstance(p, Inst):
            p = p.attrs.get('path')
        if not isinstance(p, str) or not isinstance(mode, str):
            w.gaps.append('a file of unknown name is opened')
            return A.TOP
        return file_obj(ip, p, mode, kw, node)

    def file_obj(ip, p, mode, kw, node):
        text = 'b' not in mode
        enc = kw.get('encoding')
        if text and not (isinstance(enc, str) and enc.lower().replace('_', '-') in ('utf8', 'utf-8', 'utf-8-sig')):
            w.hit('encoding|' + where(ip), 'a file is opened as text without utf8, at ' + where(ip))
        st = obj('file', {})
        writing = any(c in mode for c in 'wax+')
        rec = None
        if writing:
            rec = L()
            w.files.append((p, mode, rec, where(ip), st))
        st.attrs['\0open'] = True

        def read(ip, a, k, n):
            if p != w.path:
                w.gaps.append('another file is read')
                return A.TOP
            if any(f[0] == p and 'w' in f[1] for f in w.files):
                return AStr(C.of(''))
            if not text:
                return w.binary
            t = w.whole
            if kw.get('newline') != '':
                t = AStr(t.cs, t.must - {'\r'}, True)
            return t

        def write(ip, a, k, n):
            if rec is None:
                return A.TINT
            ip.mutate(rec, n, 'append')
            rec.append(a[0])
            return A.TINT

        def close(ip, a, k, n):
            ip.setattr(st, '\0open', False, n)
            return None
        st.attrs.update(read=fn('read', read), write=fn('write', write), close=fn('close', close),
                        flush=fn('flush', lambda *_: None), writelines=fn('writelines', lambda ip, a, k, n: [write(ip, [x], {}, n) for x in ip.iterate(a[0], n)[0]] and None))
        st.attrs['__enter__'] = fn('__enter__', lambda *_: st)
        st.attrs['__exit__'] = fn('__exit__', close)
        st.attrs['\0path'] = p
        st.attrs['name'] = p
        return st

    def pathlib(ip, p, name, args, kw, node):
        if name in ('is_file', 'exists'):
            return True
        if name == 'open':
            return file_open(ip, [p] + list(args), kw, node)
        if name in ('read_text', 'read_bytes'):
            return file_obj(ip, p.path, 'r' if name == 'read_text' else 'rb', kw, node).attrs['read'].fn(ip, [], {}, node)
        if name in ('write_text', 'write_bytes'):
            f = file_obj(ip, p.path, 'w' if name == 'write_text' else 'wb', kw, node)
            f.attrs['write'].fn(ip, [args[0]], {}, node)
            f.attrs['close'].fn(ip, [], {}, node)
            return A.TINT
        if name in ('with_suffix', 'with_name', 'with_stem') and isinstance(p.path, str) and all(isinstance(a, str) for a in args):
            import pathlib as PL
            return A.PathVal(str(getattr(PL.PurePosixPath(p.path), name)(*args)))
        if name in ('unlink', 'rename', 'replace', 'rmdir', 'touch', 'chmod'):
            w.hit('path|%s|%s' % (name, where(ip)), 'Path.%s is called, at %s' % (name, where(ip)))
        return NotImplemented

    def bytesio(ip, a, k, n):
        st = obj('BytesIO', {'\0content': a[0] if a else None})
        st.attrs['getvalue'] = fn('getvalue', lambda ip, a, k, n: value(ip, st))
        st.attrs['read'] = st.attrs['getvalue']
        st.attrs['getbuffer'] = st.attrs['getvalue']
        st.attrs['write'] = fn('write', lambda ip, a, k, n: ip.setattr(st, '\0content', a[0], n))
        for m in ('seek', 'close', 'flush'):
            st.attrs[m] = fn(m, lambda *_: A.TINT)
        st.attrs['tell'] = fn('tell', lambda *_: A.TINT)
        st.attrs['__enter__'] = fn('__enter__', lambda *_: st)
        st.attrs['__exit__'] = fn('__exit__', lambda *_: None)
        return st

    def value(ip, st):
        z = st.attrs['\0content']
        if isinstance(z, Inst) and z.cls.name == 'newzip':
            if z.attrs['\0open'] is not False:
                w.hit('zip-open|' + where(ip), 'the archive is taken before it is closed (its directory is missing), at ' + where(ip))
            return z
        return z if z is not None else A.TOP

    def zipfile(ip, a, k, n):
        mode = a[1] if len(a) > 1 else k.get('mode', 'r')
        src = a[0] if a else k.get('file')
        if mode == 'r':
            ok = src == w.path if isinstance(src, str) else isinstance(src, A.PathVal) and src.path == w.path
            if isinstance(src, Inst) and src.cls.name == 'BytesIO':
                ok = src.attrs['\0content'] is w.binary
            if isinstance(src, Inst) and src.cls.name == 'file':
                ok = src.attrs['\0path'] == w.path
            if src is w.binary:
                ok = False
            if not ok:
                w.gaps.append('an archive of unknown content is read')
                return A.TOP
            return w.archive
        if mode not in ('w', 'x'):
            w.gaps.append('an archive is opened with mode %r' % (mode,))
            return A.TOP
        z = obj('newzip', {'\0open': True, '\0parts': L()})

        def writestr(ip, a, k, n):
            it, data = a[0], a[1]
            name = it.attrs.get('filename') if isinstance(it, Inst) else it
            parts = z.attrs['\0parts']
            ip.mutate(parts, n, 'append')
            parts.append((name, data))
            return None

        def close(ip, a, k, n):
            ip.setattr(z, '\0open', False, n)
        z.attrs.update({'writestr': fn('writestr', writestr), 'close': fn('close', close), '__exit__': fn('__exit__', close),
                        '__enter__': fn('__enter__', lambda *_: z)})
        if isinstance(src, Inst) and src.cls.name == 'BytesIO':
            ip.setattr(src, '\0content', z, n)
        elif isinstance(src, str):
            st = obj('file', {'\0open': False})
            w.files.append((src, 'wb', L([z]), where(ip), st))
        elif isinstance(src, Inst) and src.cls.name == 'file':
            src.attrs['write'].fn(ip, [z], {}, n)
        else:
            w.gaps.append('an archive is written to an unknown place')
        return z

    def parse(ip, a, k, n):
        p = a[0]
        while isinstance(p, Inst) and p.cls.name == 'BytesIO':
            p = p.attrs['\0content']
        p = p.attrs.get('\0part', p) if isinstance(p, Inst) else p
        if not (isinstance(p, Inst) and p.cls.name == 'part' and '\0root' in p.attrs):
            w.gaps.append('an unknown thing is parsed')
            return A.TOP
        return p.attrs['\0tree']

    def fromstring(ip, a, k, n):
        t = parse(ip, a, k, n)
        return t.attrs['\0root'] if isinstance(t, Inst) else t

    def tostring(ip, a, k, n):
        r = a[0]
        if isinstance(r, Inst) and '\0root' in r.attrs:
            r = r.attrs['\0root']
        if not (isinstance(r, Inst) and '\0els' in r.attrs):
            w.gaps.append('an unknown thing is serialised')
            return A.TOP
        if k.get('method', 'xml') != 'xml':
            w.hit('serialise|' + where(ip), 'the part is not written as XML, at ' + where(ip))
        enc = k.get('encoding', 'ascii')
        s = obj('xml', {'\0root': r, '\0texts': [e.attrs['text'] for e in r.attrs['\0els']]})
        s.attrs['encode'] = fn('encode', lambda *_: s)
        s.attrs['decode'] = fn('decode', lambda *_: s)
        if isinstance(enc, str) and enc.lower().replace('-', '') not in ('utf8', 'ascii', 'usascii', 'unicode', 'utf16'):
            w.gaps.append('encoding %r' % enc)
        return s

    def soup(ip, a, k, n):
        t = a[0] if a else k.get('markup')
        want = tok(w.whole, 15)[0]
        got = tok(t, 15)
        if got is None:
            w.gaps.append('unknown markup is parsed')
            return A.TOP
        if not want <= got[1]:
            w.hit('markup|' + where(ip), 'the markup that is parsed is not the one of the document, at ' + where(ip))
        return w.soup

    ip.hooks['transliterate.convert'] = convert
    ip.lib = {
        'open': file_open, 'io.open': file_open, 'codecs.open': file_open, 'pathlib': pathlib,
        'io.BytesIO': bytesio, 'zipfile.ZipFile': zipfile, 'lxml.etree.parse': parse, 'lxml.etree.fromstring': fromstring,
        'lxml.etree.XML': fromstring, 'lxml.etree.tostring': tostring, 'bs4.BeautifulSoup': soup,
        'base64.b64decode': lambda ip, a, k, n: w.binary if a[0] is w.whole else A.TOP,
        'os.path.isfile': lambda ip, a, k, n: True, 'os.path.exists': lambda ip, a, k, n: True,
    }
    for bad in ('os.remove', 'os.unlink', 'os.rename', 'os.replace', 'shutil.move', 'shutil.copy', 'shutil.rmtree', 'shutil.copyfile'):
        ip.lib[bad] = (lambda bad: lambda ip, a, k, n: w.hit('path|%s|%s' % (bad, where(ip)), '%s is called, at %s' % (bad, where(ip))))(bad)


def where(ip):
    for f, n in reversed(ip.stack):
        if isinstance(f, A.Func):
            return f.qual
    return '?'


def text_node(w, kind, parent, text):
    base = {'NavigableString', 'PageElement', 'str', 'object'}
    kinds = {kind} | base | ({'PreformattedString'} if kind in ('Comment', 'Doctype', 'CData', 'Declaration', 'ProcessingInstruction') else set())
    node = obj(kind, {'\0now': text, 'parent': parent}, kinds)
    ns = NodeStr(text.cs, text.must, node)
    node.attrs['\0now'] = ns

    def replace_with(ip, a, k, n):
        ip.setattr(node, '\0now', a[0], n)
        return ns
    node.attrs.update({'string': ns, 'text': ns, 'replace_with': fn('replace_with', replace_with),
                       'extract': fn('extract', lambda ip, a, k, n: ip.setattr(node, '\0now', '', n)),
                       'find_parent': fn('find_parent', lambda ip, a, k, n: A.TOP if not a or not isinstance(a[0], str) else parent if parent.attrs['name'] == a[0] else None)})
    node.attrs['get_text'] = fn('get_text', lambda *_: ns)
    return ns


SEEN = ['a', 'h1', 'h6', 'span', 'div', 'em', 'strong', 'i', 'u', 'font', 'small', 'sub', 'sup', 'mark', 'li', 'dt', 'dd', 'td', 'th', 'caption', 'code', 'kbd', 'samp',
        'var', 'tt', 'q', 'cite', 'blockquote', 'abbr', 'address', 'figcaption', 'label', 'legend', 'button', 'option', 'textarea', 'summary',
        'noscript', 'object', 'article', 'nav', 'header', 'footer', 'body', 'text', 'tspan', 'center', 'del', 'ins', 'bdi', 'bdo', 'time', 'data']


def make_soup(w):
    doc = obj('BeautifulSoup', {'name': '[document]'}, {'BeautifulSoup', 'Tag', 'object'})
    tags = []

    def tag(t, parent=None):
        o = obj('Tag', {'name': t, 'parent': parent or doc}, {'Tag', 'PageElement', 'object'})
        o.attrs['parents'] = L([o.attrs['parent']] + (list(parent.attrs['parents']) if parent else []))

        def gone(ip, a, k, n):
            for x, _, _ in nodes:
                up = x.node.attrs['parent']
                while isinstance(up, Inst):
                    if up is o:
                        ip.setattr(x.node, '\0now', '', n)
                    up = up.attrs.get('parent')
            return o
        for m in ('extract', 'decompose', 'clear', 'replace_with'):
            o.attrs[m] = fn(m, gone)
        tags.append(o)
        return o
    p = tag('p')
    plan = [('Doctype', doc, False, 'the document type'), ('NavigableString', tag('title'), True, 'the title'),
            ('Stylesheet', tag('style'), False, 'a style sheet'), ('Script', tag('script'), False, 'a script'),
            ('Comment', doc, False, 'a comment'), ('NavigableString', p, True, 'a paragraph'),
            ('NavigableString', tag('b', p), True, 'a part in bold face'), ('Comment', p, False, 'a comment in a paragraph'),
            ('RubyTextString', tag('rt', tag('ruby', p)), True, 'a ruby text'), ('NavigableString', tag('pre'), True, 'a preformatted text')]
    plan += [('NavigableString', tag(t), True, 'the text of a %s element' % t) for t in SEEN]
    plan += [('NavigableString', tag('code', tag('pre')), True, 'a preformatted code'), ('NavigableString', tag('p'), True, 'a later paragraph')]
    nodes = []
    for kind, parent, conv, what in plan:
        nodes.append((text_node(w, kind, parent, w.text(what)), conv, what))
    w.nodes = nodes
    every = lambda: L([n for n, _, _ in nodes if n.node.attrs['\0now'] is not None and n.node.attrs['\0now'] != ''])

    def find_all(ip, a, k, n):
        q = k.get('string', k.get('text'))
        if q is True and not a:
            return every()
        if isinstance(q, (A.Func, PyFn)) and not a:
            out = L()
            for x in every():
                t = ip.truth(ip.call(q, [x], {}, n))
                if t is None:
                    w.gaps.append('a filter of nodes cannot be decided')
                    return A.TOP
                if t:
                    out.append(x)
            return out
        name = a[0] if a else k.get('name')
        if name is True and q is None:
            return L(tags)
        if isinstance(name, str) and q is None and len(a) == 1 and not set(k) - {'name'}:
            name = [name]
        if isinstance(name, (list, tuple, A.D)) and q is None and all(isinstance(x, str) for x in name) and not set(k) - {'name'}:
            return L([t for t in tags if t.attrs['name'] in list(name)])
        w.gaps.append('find_all with other arguments')
        return A.TOP

    def dump(how):
        def go(ip, a, k, n):
            s = obj('html', {'\0how': how, '\0texts': [x.node.attrs['\0now'] for x, _, _ in nodes]})
            s.attrs['encode'] = fn('encode', lambda *_: s)
            s.attrs['decode'] = fn('decode', lambda *_: s)
            return s
        return fn(how, go)
    doc.attrs.update({'findAll': fn('findAll', find_all), 'find_all': fn('find_all', find_all), 'prettify': dump('prettify'),
                      'decode': dump('decode'), 'encode': dump('encode'), '__str__': dump('str')})
    doc.attrs['descendants'] = L([n for n, _, _ in nodes])
    return doc


def make_root(w, part, texts):
    plan = [(W + 'document', None), (W + 'p', None), (W + 't', 'x'), (W + 'tab', None), (W + 't', 'x'), (W + 't', ''), (W + 't', None),
            (Ext('lxml.etree.Comment'), 'a comment'), (W + 'instrText', 'a field instruction'), (W + 'bookmarkStart', None),
            (W + 'delText', 'a deleted text'), (W + 't', 'x'),
            (W + 'instrText', 'same'), (W + 't', 'same'), (W + 't', 'same')]
    same = w.text('a repeated word')
    if not texts:
        plan = [(W + 'settings', None), (W + 'zoom', None)]
    els = []
    for tag, text in plan:
        conv = text == 'x' or text == 'same' and tag == W + 't'
        if text == 'same':
            text = same
        elif text:
            text = w.text('a run of %s' % part if conv else text)
        els.append(obj('element', {'tag': tag, 'text': text, 'tail': None, '\0conv': conv, '\0text': text, 'attrib': A.D({})}))
    root = els[0]
    root.attrs['\0els'] = els

    def iter_(ip, a, k, n):
        if not a:
            return L(els)
        if all(isinstance(x, (str, Ext)) for x in a):
            return L([e for e in els if any(same_tag(e.attrs['tag'], x) for x in a)])
        w.gaps.append('elements of unknown kind')
        return A.TOP

    def same_tag(t, x):
        if x == '*' or x == W + '*':
            return isinstance(t, str)
        if isinstance(x, str) and x.startswith('{*}'):
            return isinstance(t, str) and t.split('}')[-1] == x[3:]
        return t == x

    def find(ip, a, k, n):
        q = a[0]
        ns = k.get('namespaces', a[1] if len(a) > 1 else None)
        if isinstance(q, str):
            for lead in ('.//', '//', 'descendant::'):
                if q.startswith(lead):
                    rest = q[len(lead):]
                    if ':' in rest and '{' not in rest and isinstance(ns, A.D):
                        p, _, t = rest.partition(':')
                        if isinstance(ns.get(p), str):
                            rest = '{%s}%s' % (ns[p], t)
                    if rest.startswith('{') and '/' not in rest.split('}')[1] and '[' not in rest:
                        return L([e for e in els if e.attrs['tag'] == rest])
        w.gaps.append('a path over the document: %r' % (q,))
        return A.TOP
    for o in (root,):
        o.attrs.update({'iter': fn('iter', iter_), 'findall': fn('findall', find), 'iterfind': fn('iterfind', find), 'xpath': fn('xpath', find),
                        'iterdescendants': fn('iterdescendants', iter_), '__iter__': fn('__iter__', lambda *_: L(els[1:2]))})
    return root, els


PARTS = [('[Content_Types].xml', False), ('_rels/.rels', False), ('word/document.xml', True), ('word/_rels/document.xml.rels', False),
         ('word/header1.xml', True), ('word/footnotes.xml', True), ('word/media/image1.png', False), ('docProps/core.xml', False),
         ('word/footer2.xml', True), ('word/endnotes.xml', True), ('word/comments.xml', True), ('word/glossary/document.xml', True), ('word/settings.xml', None), ('word/fonts/font1.odttf', False), ('customXml/item1.xml', False)]


def make_archive(w):
    parts = {}
    for name, xml in PARTS:
        p = obj('part', {'\0name': name})
        if xml is not False:
            root, els = make_root(w, name, xml)
            tree = obj('tree', {'\0root': root})
            tree.attrs.update({'getroot': fn('getroot', (lambda r: lambda *_: r)(root)), 'iter': root.attrs['iter'],
                               'findall': root.attrs['findall'], 'xpath': root.attrs['xpath'], 'iterfind': root.attrs['iterfind']})
            p.attrs.update({'\0root': root, '\0tree': tree, '\0els': els})
        parts[name] = p
    w.parts = parts
    infos = L([obj('ZipInfo', {'filename': n, 'compress_type': 8, 'is_dir': fn('is_dir', lambda *_: False)}) for n, _ in PARTS])

    def get(ip, a, k, n):
        x = a[0]
        if isinstance(x, Inst):
            x = x.attrs.get('filename')
        if isinstance(x, str) and x in parts:
            return parts[x]
        w.gaps.append('an unknown part is read')
        return A.TOP

    def open_(ip, a, k, n):
        p = get(ip, a, k, n)
        if not isinstance(p, Inst):
            return p
        f = obj('partfile', {'\0part': p, 'read': fn('read', lambda *_: p), 'close': fn('close', lambda *_: None)})
        f.attrs['__enter__'] = fn('__enter__', lambda *_: f)
        f.attrs['__exit__'] = fn('__exit__', lambda *_: None)
        return f
    z = obj('oldzip', {'filelist': infos, 'infolist': fn('infolist', lambda *_: L(infos)), 'read': fn('read', get), 'open': fn('open', open_),
                       'namelist': fn('namelist', lambda *_: L([n for n, _ in PARTS])), 'close': fn('close', lambda *_: None),
                       'getinfo': fn('getinfo', lambda ip, a, k, n: next((i for i in infos if i.attrs['filename'] == a[0]), A.TOP))})
    z.attrs['__enter__'] = fn('__enter__', lambda *_: z)
    z.attrs['__exit__'] = fn('__exit__', lambda *_: None)
    return z


def judge(w, now, orig, conv, what, key):
    """the text that stands in the result in place of `orig`"""
    if now is None or isinstance(now, str):
        if now != orig:
            w.hit(key, '%s is replaced by %r' % (what, now))
        return
    if isinstance(now, OneOf):
        now = A.to_astr(now) if all(isinstance(x, (str, AStr)) for x in now.vals) else now
    if isinstance(now, A.MaybeUnbound) or not isinstance(now, AStr):
        w.gaps.append('%s: unknown text' % what)
        return
    if orig is None or orig == '':
        if isinstance(now, AStr) and now.cs.neg:
            w.gaps.append('%s: unknown text' % what)
        elif now.ne or tok(now, 16)[0]:
            w.hit(key, '%s, which is empty, gets a text' % what)
        return
    t, r = tok(now, 15), tok(now, 16)
    if t is None:
        w.gaps.append('%s: unknown text' % what)
        return
    c = next(iter(tok(orig, 15)[1]))
    if conv:
        if res_of(c) not in r[0]:
            w.hit(key, '%s is not put through the conversion%s' % (what, '' if c in t[0] else ' and lost'))
        elif t[0]:
            w.hit(key, '%s is not always put through the conversion' % what)
        elif [x for x in EXTRA if not now.cs.has(x)]:
            w.hit(key, '%s loses %s' % (what, ', '.join('U+%04X' % ord(x) for x in EXTRA if not now.cs.has(x))))
        elif res_of(c) in r[1] and not frozenset(EXTRA) <= now.must:
            w.hit(key, '%s loses %s' % (what, ', '.join('U+%04X' % ord(x) for x in EXTRA if x not in now.must)))
    elif c not in t[0] or r[0]:
        w.hit(key, '%s is changed' % what)


def one(job):
    kind, entry, path, api, nat, setting = job
    SRC, TGT, PRE, POST = SETTINGS[setting]
    ip = lib.interp_copy() if hasattr(lib, 'interp_copy') else lib.IP
    ip.covered = set()
    ip.events = []
    ip.memo_on = False
    ip.token_keys = True
    w = World()
    w.path = path
    w.whole = w.text('the text of the file')
    w.binary = obj('bytes', {'decode': fn('decode', lambda ip, a, k, n: w.whole), '__bytes__': None})
    w.archive = make_archive(w) if kind == 'docx' else None
    w.soup = make_soup(w) if kind == 'html' else None
    install(ip, w)
    pre, post = L(PRE), L(POST)
    saved = ip.builtins['str']
    try:
        args = [SRC, TGT, w.whole if api else path]
        st, v = sweep.run(ip, ip.func(M, entry), args, {'nativize': nat, 'pre_options': pre, 'post_options': post, 'is_api_mode': api})
    finally:
        ip.hooks.clear()
        ip.token_keys = False
        ip.lib = {}
    for e in ip.events:
        if e['kind'] == 'ext-attr':
            w.gaps.append('unknown attribute: %s' % e.get('msg', ''))
    name = 'process' if entry == 'process' else entry
    label = '%s|%s%s' % (name, path.rsplit('.', 1)[-1], '|api' if api else '')
    if st != 'ok':
        w.hit('raises|' + label, '%s raises: %s' % (label, str(v)[:100]))
        return w.bad, w.gaps, len(w.calls), frozenset(ip.covered)
    # the arguments of the conversion
    for b, node, fn_ in w.calls:
        for k, want in (('src', SRC), ('tgt', TGT), ('nativize', nat)):
            if isinstance(b[k], A.CONST) and b[k] != want:
                w.hit('argument|%s|%s' % (k, fn_), 'the conversion gets %s=%r in place of %r, in %s' % (k, b[k], want, fn_))
            elif not isinstance(b[k], A.CONST):
                w.gaps.append('argument %s unknown' % k)
        for k, want in (('preoptions', PRE), ('postoptions', POST)):
            if isinstance(b[k], (list, tuple)) and all(isinstance(x, str) for x in b[k]):
                if list(b[k]) != want:
                    w.hit('argument|%s|%s' % (k, fn_), 'the conversion gets %s=%r in place of %r, in %s' % (k, list(b[k]), want, fn_))
            else:
                w.gaps.append('argument %s unknown' % k)
    if list(pre) != PRE or list(post) != POST:
        w.hit('options-changed|' + label, 'the option lists of the caller are changed')
    # the result
    import os
    docs = []
    for p, mode, rec, at, f in w.files:
        if api:
            w.hit('api-writes|' + at, 'a file is written in API mode, at ' + at)
        if p == path:
            w.hit('overwrites|' + at, 'the file itself is opened for writing, at ' + at)
        stem, ext = os.path.splitext(path)
        if not (os.path.dirname(p) == os.path.dirname(path) and p.startswith(stem) and p.endswith(ext) and SRC in p[len(stem):] and TGT in p[len(stem):]):
            w.hit('name|' + at, 'the new file for %s is called %s, at %s' % (path, p, at))
        if f.attrs['\0open'] is True and w.files:
            w.gaps.append('file left open')
        if kind == 'docx' and 'b' not in mode:
            w.hit('mode|' + at, 'the archive is written as text, at ' + at)
        docs.append(rec)
    if api:
        docs.append(L([v.attrs['\0content'] if isinstance(v, Inst) and v.cls.name == 'BytesIO' else v]))
    if not docs:
        w.hit('nothing|' + label, 'no new file is written for %s' % path)
    if len(docs) > 1:
        w.gaps.append('more than one file')
    for rec in docs:
        if any(isinstance(x, A.Vague) for x in rec) or len(rec) != 1:
            if len(rec) == 0:
                w.hit('empty|' + label, 'nothing is written to the new file')
            else:
                w.gaps.append('the file is written in pieces')
            continue
        d = rec[0]
        if kind == 'txt':
            judge(w, d, w.whole, True, 'the text of the file', 'text|' + label)
        elif kind == 'html':
            if not (isinstance(d, Inst) and d.cls.name == 'html'):
                w.gaps.append('unknown output')
                continue
            if d.attrs['\0how'] == 'prettify':
                w.hit('white-space|' + label, 'prettify puts line breaks and blanks between the parts of a word')
            for (x, conv, what), now in zip(w.nodes, d.attrs['\0texts']):
                judge(w, now, x, conv, what, 'node|%s|%s' % (label, x.node.cls.name))
        else:
            if not (isinstance(d, Inst) and d.cls.name == 'newzip'):
                w.gaps.append('unknown output')
                continue
            got = {}
            if any(isinstance(x, A.Vague) for x in d.attrs['\0parts']):
                w.gaps.append('parts unknown')
                continue
            for name, data in d.attrs['\0parts']:
                if not isinstance(name, str):
                    w.gaps.append('part of unknown name')
                    continue
                if name in got:
                    w.hit('part-twice|%s|%s' % (label, name), 'the part %s is written twice' % name)
                got[name] = data
            for name, xml in PARTS:
                if name not in got:
                    w.hit('part-lost|%s|%s' % (label, name), 'the part %s of the document is not in the new one' % name)
                    continue
                data, p = got[name], w.parts[name]
                if xml is False:
                    if data is not p and isinstance(data, Inst) and data.cls.name in ('part', 'xml'):
                        w.hit('part-other|%s|%s' % (label, name), 'the part %s is not copied as it is' % name)
                    elif data is not p:
                        w.gaps.append('part %s unknown' % name)
                    continue
                if data is p and xml is None:
                    continue
                if data is p:
                    w.hit('part-raw|%s|%s' % (label, name), 'the texts of %s are not converted' % name)
                elif isinstance(data, Inst) and data.cls.name == 'xml' and data.attrs['\0root'] is p.attrs['\0root']:
                    for e, now in zip(p.attrs['\0els'], data.attrs['\0texts']):
                        what = 'the text of a %s element in %s' % (str(e.attrs['tag']).split('}')[-1], name)
                        judge(w, now, e.attrs['\0text'], e.attrs['\0conv'], what, 'run|%s|%s|%s' % (label, name, str(e.attrs['tag']).split('}')[-1]))
                elif isinstance(data, Inst) and data.cls.name in ('part', 'xml'):
                    w.hit('part-other|%s|%s' % (label, name), 'the part %s gets the content of another' % name)
                else:
                    w.gaps.append('part %s unknown' % name)
    return w.bad, w.gaps, len(w.calls), frozenset(ip.covered)


def job_list(tier):
    out = []
    for n in range(2 * len(SETTINGS)):
        nat, st = n % 2 == 0, n // 2
        for kind, paths in (('txt', ['/data/a b/book.txt', '/data/v1.2/my.notes.txt', '/data/c.docx.d/book.txt']),
                            ('html', ['/data/page.html', '/data/page.htm', '/data/my.txt.files/page.html']),
                            ('docx', ['/data/letter.docx', '/data/v1.2/letter.docx', '/data/notes.txt.docx', '/data/page.htm.docx'])):
            for p in paths if st < 1 or tier != 'quick' else paths[st % 3:][:1]:
                out.append((kind, 'process', p, False, nat, st))
                out.append((kind, 'convert_' + kind, p, False, nat, st))
            if kind != 'txt':
                out.append((kind, 'convert_' + kind, paths[0], True, nat, st))
    return out


def run(R_):
    ip = lib.interp()
    for f in ('process', 'convert_txt', 'convert_html', 'convert_docx'):
        try:
            ok = isinstance(ip.func(M, f), A.Func)
        except Exception:
            ok = False
        if not ok:
            raise lib.Broken('transliterate_file.%s is gone' % f)
    n = calls = 0
    gaps = {}
    cov = set()
    for j, r, err in lib.parallel(one, job_list(R_.tier)):
        n += 1
        if err:
            gaps[err[:80]] = gaps.get(err[:80], 0) + 1
            lib.gap(err)
            continue
        bad, g, c, cv = r
        calls += c
        cov |= cv
        for x in set(g):
            gaps[x] = gaps.get(x, 0) + 1
        for k, t in bad.items():
            R_.hit(k, t)
    R_.cov.update(explanation='', runs=n, conversions_followed=calls, functions_reached=sorted(f for f in cov if 'transliterate_file' in f), undecided=gaps)
