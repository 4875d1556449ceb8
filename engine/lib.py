"""Shared by all checks: building the interpreter, running work in parallel, reporting."""
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)

from engine import absint as A          # noqa: E402
from engine import guards               # noqa: E402

KNOWN = os.path.join(HERE, 'known_findings.txt')


class Broken(Exception):
    """The analysis itself cannot run (an anchor vanished, ...): error exit, no verdict."""


class Report:
    def __init__(self, prop, tier, seed=1, technique=''):
        self.prop = prop
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.found = {}           # key -> text
        self.cov = {}
        self.assumptions = []
        self.level = 'other'

    def hit(self, key, text):
        """key identifies rule and construct, never a line number"""
        key = ' '.join(str(key).split())
        self.found.setdefault(key, text)

    def known(self):
        out = {}
        if os.path.exists(KNOWN):
            for ln in open(KNOWN, encoding='utf8'):
                ln = ln.rstrip('\n')
                if ln.startswith('known: property=%s ' % self.prop):
                    rest = ln.split(' ', 2)[2]
                    if rest.startswith('key='):
                        key, _, why = rest[4:].partition(' :: ')
                        out[key.strip()] = why
        return out

    def finish(self):
        known = self.known()
        new = {k: v for k, v in self.found.items() if k not in known}
        old = {k: v for k, v in self.found.items() if k in known}
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        self.cov.setdefault('explanation', '')
        self.cov['known_findings_seen'] = sorted(old)
        self.cov['known_findings_not_seen'] = sorted(set(known) - set(old))
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': self.cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        with open(os.path.join(HERE, 'evidence', self.prop + '.json'), 'w', encoding='utf8') as f:
            json.dump(ev, f, indent=1, ensure_ascii=True, default=str)
        for k in sorted(old):
            print('KNOWN-FINDING: property=%s %s :: %s' % (self.prop, ascii(k)[1:-1], ascii(known[k])[1:-1]))
        if new:
            rp = os.path.join(HERE, 'evidence', self.prop + '.violations.txt')
            with open(rp, 'w', encoding='utf8') as f:
                for k in sorted(new):
                    f.write('%s\n    %s\n' % (k, new[k]))
            for k in sorted(new)[:12]:
                print('  %s\n      %s' % (ascii(k)[1:-1], ascii(new[k])[1:-1]))
            if len(new) > 12:
                print('  ... and %d more, see %s' % (len(new) - 12, rp))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        print('OK property=%s (%s) %.1fs' % (self.prop, self.tier, time.time() - self.t0))
        return 0


# ----------------------------------------------------------------------------- the program
IP = None


def interp(trace=False):
    """One interpreter with the whole package loaded (from the current working tree)."""
    global IP
    ip = A.Interp(repo=REPO, trace=trace)
    try:
        ip.load('aksharamukha.transliterate')
        for m in ('GeneralMap', 'Convert', 'ConvertFix', 'PreProcess', 'PostProcess', 'PostOptions', 'PreOptions'):
            ip.load('aksharamukha.' + m)
    except A.AbsRaise as e:
        raise Broken('the package does not import: %s' % e)
    ip.load_events = ip.events
    ip.events = []
    ip.memo_on = True
    IP = ip
    return ip


def need(ip, mod, name):
    try:
        return ip.func('aksharamukha.' + mod, name)
    except (KeyError, A.AbsRaise) as e:
        raise Broken('anchor %s.%s is gone: %s' % (mod, name, e))


def reset(ip):
    ip.events = []
    ip.stack = []
    ip.mutlog = []
    ip.tries = []
    ip.recs = []
    if ip.ops is not None:
        ip.ops = []


def scripts(ip):
    gm = ip.load('aksharamukha.GeneralMap').vars
    out = []
    for n in ('IndicScripts', 'LatinScripts', 'SemiticScripts'):
        v = gm.get(n)
        if not isinstance(v, A.L) or not all(isinstance(x, str) for x in v):
            raise Broken('GeneralMap.%s is not a plain list of names' % n)
        out += list(v)
    return list(dict.fromkeys(out + ['Hiragana', 'Katakana']))


def all_scripts(ip):
    gm = ip.load('aksharamukha.GeneralMap').vars
    out = scripts(ip)
    v = gm.get('semiticISO')
    if isinstance(v, dict):
        out += [k for k in v if isinstance(k, str)]
    return list(dict.fromkeys(out))


def where(e):
    return '%s:%s' % (e.get('fn'), e.get('line'))


def _guarded_work(a):
    fn, x = a
    try:
        return x, fn(x), None
    except Exception:
        return x, None, traceback.format_exc()[-1500:]


GAPS = set()


def gap(err):
    """an engine error: shown once each on stderr, never a verdict"""
    k = err.strip()[-300:]
    if k not in GAPS and len(GAPS) < 5:
        GAPS.add(k)
        print('ENGINE-GAP ' + k, file=sys.stderr)


_WORK = {}


def _call(x):
    return _guarded_work((_WORK['fn'], x))


def parallel(fn, items, chunk=None):
    """[(item, result, engine error or None)], on every core; the interpreter is inherited by fork."""
    items = list(items)
    _WORK['fn'] = fn
    n = min(8, os.cpu_count() or 1)
    if n == 1 or len(items) < 4:
        return [_call(x) for x in items]
    with mp.get_context('fork').Pool(n) as p:
        return p.map(_call, items, chunksize=chunk or max(1, len(items) // (n * 6)))


def nodefn(ip, qual):
    """the syntax of a function by its qualified name `Module.name`"""
    mod, _, name = qual.rpartition('.')
    for m in ip.modules.values():
        if m.name.endswith('.' + mod) or m.name == mod:
            f = m.vars.get(name)
            if isinstance(f, A.Func):
                return f
    return None
