"""Is a text-dependent failure that the interpreter found possible really unguarded?

The interpreter does not track relations such as "this list has two elements because the separator
occurs in the text".  A possible failure is reported only when no condition on the way to it speaks
about the value it depends on; otherwise it stays undecided and quiet.
"""
import ast
import re

_PARENTS = {}


def parents(fnode):
    p = _PARENTS.get(id(fnode))
    if p is None:
        d = {}
        for n in ast.walk(fnode):
            for c in ast.iter_child_nodes(n):
                d[id(c)] = n
        p = _PARENTS[id(fnode)] = (d, fnode)
    return p[0]


def names(n):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}


def _closure(fnode, base):
    """names the base was computed from (inside this function), transitively"""
    src = {}
    for n in ast.walk(fnode):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        src.setdefault(x.id, set()).update(names(n.value))
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            src.setdefault(n.target.id, set()).update(names(n.value))
        elif isinstance(n, (ast.For, ast.comprehension)):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Name):
                    src.setdefault(x.id, set()).update(names(n.iter))
        elif isinstance(n, ast.NamedExpr):
            src.setdefault(n.target.id, set()).update(names(n.value))
    out = set(base)
    todo = list(base)
    while todo:
        for y in src.get(todo.pop(), ()):
            if y not in out:
                out.add(y)
                todo.append(y)
    return out


def _ends(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def tests_on_path(fnode, node):
    """Every condition that stands between the entry of fnode and node (syntactically)."""
    par = parents(fnode)
    out = []
    n = node
    while id(n) in par:
        p = par[id(n)]
        if isinstance(p, (ast.If, ast.While)):
            if n is not p.test:
                out.append(p.test)
        elif isinstance(p, ast.IfExp):
            if n is not p.test:
                out.append(p.test)
        elif isinstance(p, ast.BoolOp):
            for v in p.values:
                if v is n:
                    break
                out.append(v)
        elif isinstance(p, ast.comprehension):
            for t in p.ifs:
                if t is n:
                    break
                out.append(t)
        elif isinstance(p, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in p.generators:
                if g is not n:
                    out.extend(g.ifs)
        elif isinstance(p, ast.Try):
            if n in p.body:
                for h in p.handlers:
                    out.append(h)
        elif isinstance(p, ast.match_case):
            out.append(p.pattern)
        for field in ('body', 'orelse', 'finalbody'):
            blk = getattr(p, field, None)
            if isinstance(blk, list) and n in blk:
                for s in blk[:blk.index(n)]:
                    if isinstance(s, (ast.If, ast.While)) and (_ends(s.body) or _ends(s.orelse) or _assigns(s)):
                        out.append(s.test)
                    elif isinstance(s, ast.Assert):
                        out.append(s.test)
                    elif isinstance(s, ast.Try):
                        out.append(s)
        n = p
        if n is fnode:
            break
    return out


def _assigns(s):
    return any(isinstance(x, (ast.Assign, ast.AugAssign)) for x in ast.walk(s))


def no_guard(t, node, weak, fnode=None):
    """a condition that does not keep this failure away: a text that is not empty may still be all blanks, which split() takes for
    nothing; isdigit() holds for figures that int() does not read"""
    if isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) and t.func.attr in weak and not t.args:
        return True
    if isinstance(node, ast.Subscript) and isinstance(node.value, ast.Call) and isinstance(node.value.func, ast.Attribute) and \
            node.value.func.attr in ('split', 'rsplit') and not node.value.args and isinstance(node.value.func.value, ast.Name):
        x = node.value.func.value.id
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id in ('len', 'bool') and len(t.args) == 1:
            t = t.args[0]
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.NotEq, ast.Gt)) and \
                isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value in ('', 0):
            return no_guard(t.left, node, weak)
        return isinstance(t, ast.Name) and t.id == x
    if fnode is not None and isinstance(node, ast.Attribute) and node.attr in ('group', 'groups', 'start', 'end', 'span', 'groupdict') and \
            isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.In) and \
            isinstance(t.left, ast.Constant) and isinstance(t.left.value, str) and isinstance(t.comparators[0], ast.Name):
        call = _match_call(fnode, node.value)
        if call is not None and call[2] == t.comparators[0].id:
            try:
                # a text that holds this may still not match: not at its beginning, or not with this alone
                return call[0] != 'search' or re.search(call[1], t.left.value) is None
            except re.error:
                return False
    return False


def _match_call(fnode, v):
    """(how, pattern, name of the text) of the re call this match comes from, where all are written out"""
    if isinstance(v, ast.Name):
        d = [n for n in ast.walk(fnode) if isinstance(n, (ast.Assign, ast.NamedExpr)) and
             any(isinstance(x, ast.Name) and x.id == v.id for t in (n.targets if isinstance(n, ast.Assign) else [n.target]) for x in ast.walk(t))]
        if len(d) != 1:
            return None
        v = d[0].value
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) and v.func.value.id == 're' and \
            v.func.attr in ('match', 'search', 'fullmatch') and len(v.args) == 2 and not v.keywords and \
            isinstance(v.args[0], ast.Constant) and isinstance(v.args[0].value, str) and isinstance(v.args[1], ast.Name):
        return v.func.attr, v.args[0].value, v.args[1].id
    return None


def guarded(fnode, node, undec=None, weak=()):
    if fnode is None or node is None:
        return True
    base = node
    if isinstance(node, ast.Subscript):
        base = node.value
        extra = names(node.slice)
    elif isinstance(node, ast.Attribute):
        base, extra = node.value, set()
    elif isinstance(node, ast.Call):
        extra = set()
        for a in node.args:
            extra |= names(a)
        if isinstance(node.func, ast.Attribute):
            extra |= names(node.func.value)
        base = None
    elif isinstance(node, ast.Raise):
        return False            # an explicit raise the interpreter reached
    elif isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Div, ast.FloorDiv, ast.Mod)):
        # inside a loop over the value it is not empty
        extra = names(node.right) - {'len'}
        base = None
        par = parents(fnode)
        n = node
        while id(n) in par:
            n = par[id(n)]
            if isinstance(n, ast.For) and (_closure(fnode, names(n.iter)) & _closure(fnode, extra)):
                return True
    else:
        extra = set()
    ns = (names(base) if base is not None else set()) | extra
    ns = _closure(fnode, ns) - {'re', 'GM', 'PP', 'PrP', 'CF', 'range', 'len', 'sorted', 'list'}
    for t in tests_on_path(fnode, node):
        if isinstance(t, ast.ExceptHandler):
            continue                # the interpreter knows which handlers catch
        if isinstance(t, ast.Try):
            if any(_ends(h.body) for h in t.handlers):
                return True
            continue
        if undec is not None and not any(id(x) in undec for x in ast.walk(t)):
            continue                # the same for every text: no guard
        if names(t) & ns and not no_guard(t, node, weak, fnode):
            return True
    # the failure sits in a nested function: its guards may be outside
    return False


def unbound_guarded(fnode, node):
    """Every condition under which some assignment of this name happens also stands before this use."""
    use = {ast.dump(t) for t in tests_on_path(fnode, node) if isinstance(t, ast.expr)}
    for n in ast.walk(fnode):
        if isinstance(n, ast.Name) and n.id == node.id and isinstance(n.ctx, ast.Store) and n is not node:
            st = {ast.dump(t) for t in tests_on_path(fnode, n) if isinstance(t, ast.expr)}
            par = parents(fnode)
            m, loop, tr = n, False, False
            while id(m) in par:
                m = par[id(m)]
                if isinstance(m, (ast.For, ast.While)):
                    loop = True
                if isinstance(m, ast.Try):
                    tr = True
            if st and st <= use and not tr:
                return True
            if loop and not st:
                return True          # zero turns: not told apart from an empty constant list
    return False


# --------------------------------------------------------------- unguarded look-ahead
def lookahead(fnode):
    """`for i in range(len(X))` / `for i, c in enumerate(X)` with X[i+k], k >= 1, and no condition on the way that
    mentions i (or the length of X): the last turn of the loop reads past the end."""
    out = []
    for loop in ast.walk(fnode):
        if not isinstance(loop, ast.For):
            continue
        it = loop.iter
        if not isinstance(it, ast.Call) or not isinstance(it.func, ast.Name):
            continue
        idx = seq = None
        if it.func.id == 'range' and len(it.args) in (1, 2, 3) and isinstance(loop.target, ast.Name):
            a = it.args[0] if len(it.args) == 1 else it.args[1]
            if isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id == 'len' and len(a.args) == 1:
                idx, seq = loop.target.id, ast.dump(a.args[0])
        elif it.func.id == 'enumerate' and len(it.args) == 1 and isinstance(loop.target, ast.Tuple) and \
                isinstance(loop.target.elts[0], ast.Name):
            idx, seq = loop.target.elts[0].id, ast.dump(it.args[0])
        if idx is None:
            continue
        for n in ast.walk(loop):
            if isinstance(n, ast.Subscript) and ast.dump(n.value) == seq and isinstance(n.slice, ast.BinOp) and \
                    isinstance(n.slice.op, ast.Add) and isinstance(n.ctx, ast.Load):
                l, r = n.slice.left, n.slice.right
                if isinstance(r, ast.Name):
                    l, r = r, l
                if isinstance(l, ast.Name) and l.id == idx and isinstance(r, ast.Constant) and \
                        isinstance(r.value, int) and r.value >= 1:
                    ok = False
                    for t in tests_on_path(fnode, n):
                        if isinstance(t, (ast.ExceptHandler, ast.Try)) or idx in names(t) or \
                                any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'len'
                                    for x in ast.walk(t)):
                            # the condition must itself be about the position, not just read X[i]
                            if isinstance(t, (ast.ExceptHandler, ast.Try)) or _position_test(t, idx):
                                ok = True
                                break
                    if not ok:
                        out.append(n)
    return out


def _position_test(t, idx):
    for x in ast.walk(t):
        if isinstance(x, ast.Compare):
            for s in [x.left] + x.comparators:
                if isinstance(s, ast.Name) and s.id == idx:
                    return True
                if isinstance(s, ast.BinOp) and idx in names(s) and not any(isinstance(y, ast.Subscript) for y in ast.walk(s)):
                    return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'len':
            return True
    return False
