"""The public entry points as a list of jobs: one abstract call each, for all texts."""
import ast

from . import absint as A
from . import lib
from . import sweep

T = 'aksharamukha.transliterate'


def option_fns(ip, mod):
    """names of the option functions: callable with the text alone"""
    out = []
    m = ip.load('aksharamukha.' + mod)
    for k, f in m.vars.items():
        if isinstance(f, A.Func) and f.mod is m and not isinstance(f.node, ast.Lambda):
            a = f.node.args
            n = len(a.posonlyargs + a.args)
            if n - len(f.defaults) <= 1 and n >= 1 and not [x for x in a.kwonlyargs if x.arg not in f.kwdefaults]:
                out.append(k)
    return sorted(out)


def option_pairs(ip, name):
    """pairs of scripts an option is likely meant for: those its name starts with, and two generic ones"""
    ns = sorted((n for n in lib.scripts(ip) if n and name.lower().startswith(n.lower().split('-')[0])), key=len, reverse=True)[:1]
    ps = [('Devanagari', 'IAST'), ('IAST', 'Devanagari')]
    for n in ns:
        ps += [('Devanagari', n), ('IAST', n), (n, 'Devanagari'), (n, 'IAST'), (n, n)]
    return ps


def special_options(ip):
    """option names the code asks for by name: {'pre': set, 'post': set}"""
    out = {'pre': set(), 'post': set()}
    for m in ip.modules.values():
        t = getattr(m, 'tree', None)
        if t is None or '.ScriptMap' in m.name:
            continue
        for n in ast.walk(t):
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and \
                    isinstance(n.left, ast.Constant) and isinstance(n.left.value, str) and \
                    isinstance(n.comparators[0], ast.Name):
                w = n.comparators[0].id.lower()
                if w in ('postoptions', 'post_options'):
                    out['post'].add(n.left.value)
                if w in ('preoptions', 'pre_options'):
                    out['pre'].add(n.left.value)
    return out


def natural(ip):
    """the scripts an option is spoken of together with"""
    ns = set(lib.scripts(ip))
    out = {}
    for m in ip.modules.values():
        t = getattr(m, 'tree', None)
        if t is None or '.ScriptMap' in m.name:
            continue
        for n in ast.walk(t):
            if isinstance(n, ast.BoolOp):
                cs = [x.value for x in ast.walk(n) if isinstance(x, ast.Constant) and isinstance(x.value, str)]
                for c in cs:
                    out.setdefault(c, set()).update(x for x in cs if x in ns)
    return out


def run(ip, job, text=None, lists=None):
    """('ok', value) | ('raise', AbsRaise); events stay in ip.events"""
    text = A.AStr() if text is None else text
    k = job[0]
    own = (lambda l: A.L(l, owner='the list the caller passed')) if lists is None else lists
    if k == 'conv':
        _, s, t, nat = job
        return sweep.run(ip, ip.func(T, 'convert'), [s, t, text, nat, own([]), own([])])
    if k == 'opt':
        return sweep.run(ip, ip.func('aksharamukha.' + job[1], job[2]), [text])
    if k == 'copt':
        _, s, t, nat, pre, post = job
        return sweep.run(ip, ip.func(T, 'convert'), [s, t, text, nat, own(pre), own(post)])
    if k in ('process', 'default'):
        # convert itself is interpreted by the other jobs
        ip.hooks[T.split('.')[-1] + '.convert'] = convert_stub
        try:
            return run_process(ip, job, text, own)
        finally:
            ip.hooks.clear()
    if k == 'detect':
        return sweep.run(ip, ip.func(T, 'auto_detect'), [text, job[1]])
    if k == 'preopt':
        return sweep.run(ip, ip.func(T, 'detect_preoptions'), [text, job[1]])
    raise KeyError(k)


SEEN = []


def convert_stub(ip, f, args, kw, node):
    SEEN.append(ip.bind_args(f, args, kw, node))
    return A.AStr(must=frozenset(['converted']))


def run_process(ip, job, text, own):
    del SEEN[:]
    k = job[0]
    if k == 'process':
        _, param, s, t, nat, pre, post = job
        return sweep.run(ip, ip.func(T, 'process'), [s, t, text],
                         {'nativize': nat, 'post_options': own(post), 'pre_options': own(pre), 'param': param})
    return sweep.run(ip, ip.func(T, 'process'), [job[1], job[2], text], {'param': job[3]})


def anchors(ip):
    for n in ('convert', 'process', 'auto_detect', 'detect_preoptions'):
        lib.need(ip, 'transliterate', n)


CODES = {'script_code': [('Deva', 'Thai'), ('Arab', 'Deva'), ('Latn', 'Beng'), ('Deva', 'latn-IAST'), ('hi-Deva', 'Syrc'),
                         ('Syrc', 'Deva'), ('autodetect', 'Deva'), ('latn-HK', 'ur-Arab')],
         'lang_code': [('sa', 'th'), ('ur', 'hi'), ('en', 'bn'), ('hi', 'la-IAST'), ('sa-Deva', 'pi-Thai'), ('autodetect', 'ta'),
                       ('la-HK', 'pa')],
         'lang_name': [('Hindi', 'Tamil'), ('autodetect', 'Hindi'), ('Urdu', 'Sanskrit')]}


def all_jobs(ip, tier):
    pairs = sweep.star_pairs(ip) if tier == 'quick' else sweep.full_pairs(ip)
    jobs = [('conv', s, t, True) for s, t in pairs]
    star = sweep.star_pairs(ip, sweep.HUBS[:3]) if tier == 'quick' else pairs
    jobs += [('conv', s, t, False) for s, t in star]
    for side, mod in (('pre', 'PreProcess'), ('post', 'PostProcess')):
        for o in option_fns(ip, mod):
            jobs.append(('opt', mod, o))
            for s, t in option_pairs(ip, o)[:5 if tier == 'quick' else None]:
                jobs.append(('copt', s, t, True, [o] if side == 'pre' else [], [o] if side == 'post' else []))
    sp = special_options(ip)
    names = {m: set(option_fns(ip, m)) for m in ('PreProcess', 'PostProcess')}
    hub = ('Devanagari', 'IAST', 'Siddham', 'Grantha', 'Ranjana', 'Lao', 'Bengali', 'Soyombo', 'Newa', 'Balinese', 'Javanese',
           'Hebr', 'Arab', 'Hiragana', 'Tamil', 'Itrans', 'HK')
    have = [h for h in hub if h in lib.scripts(ip)]
    for o in sorted(sp['post'] & names['PostProcess']):
        for h in have:
            jobs += [('copt', 'Devanagari', h, True, [], [o]), ('copt', h, 'Devanagari', True, [], [o])]
    for o in sorted(sp['pre'] & names['PreProcess']):
        for h in have:
            jobs += [('copt', 'Devanagari', h, True, [o], []), ('copt', h, 'Devanagari', True, [o], [])]
    post, nat = sorted(sp['post'] & names['PostProcess']), natural(ip)
    for i, a in enumerate(post):
        for b in post[i + 1:]:
            for h in sorted(nat.get(a, set()) | nat.get(b, set()) | {'Telugu'})[:3]:
                jobs.append(('copt', 'IAST', h, True, [], [a, b] if len(h) % 2 else [b, a]))
    for a in sorted(sp['pre'] & names['PreProcess']):
        for b in post:
            for h in sorted(nat.get(a, set()) | nat.get(b, set()) | {'Telugu'})[:3]:
                jobs.append(('copt', h, 'Devanagari', True, [a], [b]))
    for p, l in CODES.items():
        for s, t in l:
            jobs.append(('process', p, s, t, True, [], []))
            jobs.append(('process', p, s, t, False, ['RemoveSchwaHindi'] if s != 'autodetect' else [], ['RemoveDiacritics']))
            jobs.append(('default', s, t, p))
    for s, t in (('Devanagari', 'IAST'), ('autodetect', 'Tamil'), ('iast', 'DEVANAGARI'), ('Hebr', 'Thai'), ('nosuch', 'IAST')):
        jobs += [('process', 'default', s, t, True, [], []), ('process', 'default', s, t, False, ['siddhammukta'], ['siddhammukta']),
                 ('default', s, t, 'default')]
    jobs += [('detect', False), ('detect', True)]
    jobs += [('preopt', s) for s in ('Thai', 'Lao', 'LaoPali', 'Urdu', 'Tamil')]
    return jobs


def show(job):
    k = job[0]
    if k == 'conv':
        return 'convert %s -> %s%s' % (job[1], job[2], '' if job[3] else ' (nativize off)')
    if k == 'opt':
        return 'option %s.%s' % job[1:]
    if k == 'copt':
        return 'convert %s -> %s with %s' % (job[1], job[2], job[4] + job[5])
    if k in ('process', 'default'):
        return '%s %s' % (k, ' '.join(map(str, job[1:])))
    return ' '.join(map(str, job))
