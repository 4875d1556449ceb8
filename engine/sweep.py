"""Interpreting `convert` for every pair of scripts, once per pair, for all texts at a time."""
import ast

from . import absint as A
from . import guards
from . import lib


def run(ip, f, args, kw=None):
    """('ok', value) | ('raise', AbsRaise); events are left in ip.events"""
    lib.reset(ip)
    try:
        return 'ok', ip.call(f, args, kw or {}, None)
    except A.AbsRaise as e:
        return 'raise', e


def is_text(v):
    if isinstance(v, (str, A.AStr)):
        return True
    if isinstance(v, A.OneOf):
        return all(is_text(x) for x in v.vals)
    return False


def maybe_text(v):
    """not certainly a non-text"""
    if isinstance(v, (A.Top, A.Ext)):
        return True
    return is_text(v)


def mentioned_pairs(ip, names, cap=40):
    """Pairs of scripts that the code itself speaks about together: every nest of conditions that names several scripts
    (directly or through a literal list) gives all ordered pairs of them."""
    ns = set(names)
    out = set()
    for m in ip.modules.values():
        t = getattr(m, 'tree', None)
        if t is None or '.ScriptMap' in m.name:
            continue

        def walk(node, seen):
            here = seen
            if isinstance(node, ast.If):
                c = {x.value for x in ast.walk(node.test) if isinstance(x, ast.Constant) and isinstance(x.value, str)} & ns
                if c:
                    here = seen | c
                    if len(here) <= cap:
                        for a in here:
                            for b in here:
                                out.add((a, b))
                for x in node.body:
                    walk(x, here)
                for x in node.orelse:
                    walk(x, seen)
                return
            for x in ast.iter_child_nodes(node):
                walk(x, seen)
        walk(t, frozenset())
    return out


HUBS = ('Devanagari', 'IAST', 'Tamil', 'Thai', 'Arab', 'Latn', 'ISO', 'Telugu', 'RomanLoC', 'Hebr')


def star_pairs(ip, hubs=HUBS):
    names = lib.all_scripts(ip)
    hub = [h for h in hubs if h in names]
    if len(hub) < 3:
        raise lib.Broken('the hub scripts are gone from the script lists')
    ps = {(a, h) for a in names for h in hub} | {(h, a) for a in names for h in hub}
    ps |= {(a, a) for a in names}
    ps |= mentioned_pairs(ip, names)
    return sorted(ps)


def full_pairs(ip):
    names = lib.all_scripts(ip)
    return [(a, b) for a in names for b in names]


HARD = ('may-raise', 'may-raise-path')


def raise_reports(ip):
    """[(key, text)] for the text-dependent failures recorded in ip.events that nothing guards"""
    out = []
    und = 0
    for e in ip.events:
        k = e['kind']
        if k in HARD:
            node = e.get('node')
            fn = e.get('fnode')
            if node is None or fn is None or guards.guarded(fn, node, ip.undec, e.get('weak', ())):
                und += 1
                continue
            out.append(('may-raise|%s|%s' % (e['fn'], short(node)),
                        '%s at %s depending on the text' % (e['msg'], lib.where(e))))
        elif k == 'bad-regex':
            out.append(('bad-regex|%s|%s' % (e['fn'], e['msg'][:100]), '%s at %s' % (e['msg'], lib.where(e))))
        elif k == 'maybe-unbound':
            node = e.get('node')
            fn = e.get('fnode')
            if node is not None and fn is not None and guards.unbound_guarded(fn, node):
                und += 1
                continue
            out.append(('maybe-unbound|%s|%s' % (e['fn'], e['msg']),
                        'local variable %r may be read before it is set, at %s' % (e['msg'], lib.where(e))))
    return out, und


def short(node):
    try:
        return ' '.join(ast.unparse(node).split())[:90]
    except Exception:
        return type(node).__name__


def lookaheads(ip, covered=None):
    """the reads past the end in functions the sweep went through"""
    out = []
    n = 0
    for m in list(ip.modules.values()):
        for k, f in m.vars.items():
            if isinstance(f, A.Func) and f.mod is m and (covered is None or f.qual in covered) and \
                    not isinstance(f.node, ast.Lambda):
                n += 1
                for s in guards.lookahead(f.node):
                    out.append(('look-ahead|%s|%s' % (f.qual, short(s)),
                                'reads one past the end on the last turn of its loop, at %s:%s' % (f.qual, s.lineno)))
    return out, n
