"""The sweep over all public entry points that the effect checks share."""
from engine import jobs, lib

KINDS = None


def one(job):
    ip = lib.IP
    ip.covered = set()
    st, v = jobs.run(ip, job)
    evs = [e for e in ip.events if e['kind'] in KINDS]
    keep = PICK(ip, job, st, v, evs)
    return keep, frozenset(ip.covered)


PICK = None


def sweep_jobs(R, kinds, pick, jl=None):
    """pick(ip, job, status, value, events) -> picklable; returns [(job, picked)]"""
    global KINDS, PICK
    KINDS, PICK = frozenset(kinds), pick
    ip = lib.IP
    jobs.anchors(ip)
    jl = jobs.all_jobs(ip, R.tier) if jl is None else jl
    res = lib.parallel(one, jl)
    out, cov, gaps = [], set(), 0
    for j, r, err in res:
        if err:
            gaps += 1
            lib.gap(err)
            continue
        out.append((j, r[0]))
        cov |= r[1]
    if gaps > 0.2 * len(jl):
        raise lib.Broken('the interpreter could not follow %d of %d entry calls' % (gaps, len(jl)))
    if len(cov) < 300:
        raise lib.Broken('only %d functions were reached' % len(cov))
    R.cov.update(entry_calls=len(jl), functions_reached=len(cov), engine_gaps=gaps)
    return out
