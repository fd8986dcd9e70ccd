"""Memory / arithmetic obligations of every library and tool entry point (abstract interpretation)."""
import re, time
import absint, cfg, driver, cache
from multiprocessing import Pool

KINDS = {'bounds', 'null', 'freed', 'free', 'uninit', 'leak', 'unset', 'shared', 'div', 'shift', 'overflow',
         'inv-range', 'inv-order', 'inv-array', 'inv-dangling', 'inv-words', 'inv-canonical'}
TEMPLATE = re.compile(r'(?:tvector|tmatrix|tstack|tfacinfo|atom_t|vecatom_t|matatom_t|cmd_line_\w+|clo_\w+)<(.*)')
PARAM = re.compile(r'(int|spffl::intmath::intmod_t)\b')


class Rules(driver.Collect):
    def __init__(self):
        super().__init__(KINDS)


def entries(P):
    """every function with a body that can be called from outside its class / file, and its aliased variant"""
    C = cfg.Cfg(P)
    I = absint.Interp(P, C, None)
    jobs = []
    for f in P.funcs.values():
        if not f['file'].startswith(C.repo + '/') or C.helper(f):
            continue
        if '<' in f['dem']:
            m = TEMPLATE.search(f['dem'])
            if m and not PARAM.match(m.group(1)):
                continue
        jobs.append((f['key'], False))
        if driver.alias_possible(f, I):
            jobs.append((f['key'], True))
    return jobs


def jid(P, job):
    k = job[0]
    n = P.funcs[k]['dem']
    if '@' in k:                     # file-local: one per translation unit
        n += ' @' + k.split('@')[1]
    elif re.search(r'D0Ev$', k):
        n += ' [deleting]'
    return n + (' [aliased]' if job[1] else '')


def pack(P, res):
    key, al, ob, err, st, ex = res
    fail = {}
    n = {}
    for k, o in ob.items():
        n[k[0]] = n.get(k[0], 0) + 1
        if not o[0]:
            fail.setdefault(k[0], []).append([k[1], k[2], k[3], k[4], o[1]])
    return {'fail': fail, 'n': n, 'err': err, 'steps': st.get('steps', 0), 't': round(st.get('t', 0), 2),
            'deps': sorted([list(x) for x in st.get('deps', ())])}


def run(P, jobs, fresh=False, procs=8, deadline=None):
    """jobs: [(key, alias)] -> {id: verdict}, [ids analysed afresh], [ids not reached before the deadline]"""
    old = {} if fresh else cache.load('verdicts')
    H = cache.Hasher(P)
    out, todo, missed = {}, [], []
    for j in jobs:
        i = jid(P, j)
        v = old.get(i)
        if v is not None and v['h'] == H.closure(j[0], v['deps']):
            out[i] = v
            v['own'] = H.func(j[0])[:24]
        else:
            todo.append(j)
    if deadline is None:
        todo.sort(key=lambda j: -(old.get(jid(P, j), {}).get('t') or P.funcs[j[0]]['ninstr'] / 1000))
    else:                                       # what was itself edited first, then the cheap ones
        def rank(j):
            v = old.get(jid(P, j), {})
            return (v.get('own') == H.func(j[0])[:24], v.get('t') or 0)
        todo.sort(key=rank)
    done = set()
    for r in driver.run_all(P, todo, Rules, procs=procs, deadline=deadline) if todo else []:
        v = pack(P, r)
        v['h'] = H.closure(r[0], v['deps'])
        v['own'] = H.func(r[0])[:24]
        out[jid(P, (r[0], r[1]))] = v
        done.add((r[0], r[1]))
    return out, [jid(P, j) for j in todo if j in done], [jid(P, j) for j in todo if j not in done]
