"""Runs the abstract interpreter over entry points and collects obligations."""
import os, re, sys, time, traceback, multiprocessing
from multiprocessing import Pool
import absint as A
import cfg as C
from absint import Lin, INF, ZERO, ATOMS, Ptr, State, Interp, Sym, UNINIT, MAYBE, TOP, is_ptr, strip_one, params, RANGES, \
    is_const_ref, lsub, ladd, lscale
from ir import REPO, AnalysisBroken, is_header_declared


class Collect:
    """default rule set: every obligation the interpreter can raise"""

    def __init__(self, kinds=None):
        self.kinds = kinds
        self.ob = {}      # (kind, file, line, function, what) -> [ok, detail]

    def add(self, I, s, fr, ins, kind, what, ok, detail=''):
        if self.kinds and kind not in self.kinds:
            return
        f = fr.f
        k = (kind, f.get('rel') or f.get('file', ''), ins.get('l', 0) if ins else f.get('line', 0), f['dem'], what)
        o = self.ob.get(k)
        if o is None:
            o = self.ob[k] = [True, '', 0]
        o[2] += 1
        if not ok and o[0]:
            o[0] = False
            path = []
            x = fr
            while x is not None:
                path.append(x.f['sn'] or x.f['dem'])
                x = x.parent
            o[1] = (detail + '  [entry %s%s]' % (I.entry['dem'], ' via ' + ' <- '.join(path) if len(path) > 1 else '')
                    + (' (aliased arguments)' if getattr(I, 'aliased', False) else ''))

    def on_access(self, I, s, fr, ins, kind, ok, p, sz, write):
        nm = p.r.name or str(p.r.kind)
        what = '%s of %s' % ('write' if write else 'read', short(nm))
        d = ''
        if not ok:
            if kind == 'bounds':
                sz2 = I.size_of_region(s, p.r)
                d = '%s at byte offset %s not shown to be inside its %s bytes' % (
                    what, p.off.show(), sz2.show() if sz2 is not None else '?')
            elif kind == 'null':
                d = '%s through a null pointer' % what
            else:
                d = '%s after it was released' % what
        self.add(I, s, fr, ins, kind, what, ok, d)

    def on_div(self, I, s, fr, ins, op, a, b):
        ok = s.isneq(b)
        self.add(I, s, fr, ins, 'div', op, ok, 'divisor %s not shown to be nonzero' % b.show())

    def on_arith(self, I, s, fr, ins, op, ex, signed, w):
        if op == 'trunc' or not signed or w != 32:
            return
        ok = ((s.ub(ex) <= 2**31 - 1 or s.le(Lin(ex.c - 2**31 + 1, ex.t))) and
              (s.lb(ex) >= -2**31 or s.le(ladd(Lin(-2**31), ex, -1))))
        self.add(I, s, fr, ins, 'overflow', op, ok, 'signed %s: %s not shown to fit in int' % (op, ex.show()))

    def on_shift(self, I, s, fr, ins, op, a, b):
        w = A.bits(ins['t'])
        ok = s.lb(b) >= 0 and s.ub(b) < w
        self.add(I, s, fr, ins, 'shift', op, ok, 'shift count %s not shown to be in [0,%d)' % (b.show(), w))

    def on_free(self, I, s, fr, ins, r, ok, why):
        self.add(I, s, fr, ins, 'free', 'release of %s' % short(r.name or r.kind), ok, '%s: %s' % (why, short(r.name or r.kind)))

    def on_uninit(self, I, s, fr, ins, p, v):
        nm = p.r.name if p is not None else '?'
        if p is not None and p.r.cls:
            fa = I.field_at(p.r.cls, p.off.c) if p.off.isconst() else None
            if fa:
                nm += '.' + fa[1]
        if nm in ('retval', 'tmp', 'saved_stack') or nm.startswith('cleanup') or 'cleanup.cond' in nm or nm.startswith('ref.tmp') or nm.startswith('agg.tmp') or nm.startswith('exn.') or nm.startswith('ehselector'):
            return
        self.add(I, s, fr, ins, 'uninit', nm, False, 'read of %s, which is not written on every path to here' % nm)

    def on_leak(self, I, s, fr, ins, r):
        self.add(I, s, fr, ins, 'leak', r.name, False, '%s is lost without being released' % r.name)


def short(n):
    return n if len(n) < 60 else n[:57] + '...'


def setup(I, f, alias=False):
    """initial state and argument values of an entry point"""
    s = State()
    args = [TOP] * len(f['args'])
    objs = []           # (region, cls, role, mutable)
    sret, ps = params(f)
    if sret is not None:
        cls = f['dts'][0]
        r = I.region(('sret',), 'alloca', 'result')
        r.fn = ('entry',)
        r.uninit = True
        if cls in I.P.classes:
            r.cls = cls
            r.size = Lin(I.sizeof(cls) or 0)
            objs.append((r, cls, 'result', True))
            if not I.is_repo_class(cls):
                r.uninit = False
        s.mem[r] = {}
        args[sret] = Ptr(r, Lin(0))
    isctor = f.get('cls') and f['sn'].split('<')[0] == C.base(f['cls'])
    isthis = bool(f.get('cls')) and ps and strip_one_safe(ps[0][1]) == f['cls'] and f['args'][ps[0][0]]['n'] == 'this'
    first = {}
    names = f.get('argn') or {}
    for k, (n, dt) in enumerate(ps):
        nm = f['args'][n]['n'] or 'arg%d' % n
        at = f['args'][n]['t']
        if at != 'p':
            t = dt[6:] if dt.startswith('const ') else dt
            if t in RANGES and at != 'i1':
                args[n] = I.scalar(s, ('arg', n), t, nm)
            elif at == 'i1':
                args[n] = A.B('ne', I.fresh(s, ('argb', n), 0, 1, nm), Lin(0), 32)
            else:
                args[n] = TOP
            continue
        byval = not is_ptr(dt)
        cls = dt if byval else strip_one_safe(dt)
        if cls.startswith('const '):
            cls = cls[6:]
        const = is_const_ref(dt)
        if k == 0 and isthis:
            const = bool(f.get('const')) or f['dem'].endswith(' const')
        if cls in I.P.classes and I.is_repo_class(cls) and (byval or dt.endswith('&') or (k == 0 and isthis)):
            if alias and cls in first and not byval:
                args[n] = Ptr(first[cls], Lin(0))
                continue
            r = I.region(('arg', n), 'arg', nm if nm != 'this' else '*this')
            r.cls = cls
            r.size = Lin(I.sizeof(cls))
            if k == 0 and isthis and isctor:
                r = I.region(('argc', n), 'alloca', '*this')
                r.fn = ('entry',)
                r.cls = cls
                r.size = Lin(I.sizeof(cls))
                r.uninit = True
                s.mem[r] = {}
                objs.append((r, cls, 'this', True))
            else:
                I.make_object(s, r, 0, cls, ('argo', n), r.name)
                objs.append((r, cls, 'this' if (k == 0 and isthis) else 'arg', not const))
                if not (k == 0 and isthis and False):
                    first.setdefault(cls, r)
            args[n] = Ptr(r, Lin(0))
        elif cls in RANGES and dt.endswith('&'):
            # a scalar reference may refer to an element of the object itself: alias runs only
            r = I.region(('arg', n), 'arg', nm)
            r.elem = cls
            r.size = Lin(I.sizeof(cls))
            s.set(r, 0, I.scalar(s, ('argr', n), cls, nm))
            args[n] = Ptr(r, Lin(0))
        else:
            r = I.region(('arg', n), 'ext', nm)
            if cls in RANGES or is_ptr(cls) or (cls in I.P.classes and I.is_repo_class(cls)):
                r.elem = cls
            args[n] = Ptr(r, Lin(0))
            c0 = args[n - 1] if n else None
            if dt == 'char**' and isinstance(c0, Lin) and f['dts'][n] == 'int':
                # an argument vector and its length (n is the position among the arguments; dts[0] is the result)
                s.assume_le(ladd(Lin(1 if f['sn'].endswith('main') else 0), c0, -1))
                s.assume_le(Lin(c0.c - C.MAXN, c0.t))
                s.rsz[r] = lscale(c0, 8)
    return s, args, objs


def strip_one_safe(t):
    return strip_one(t) if is_ptr(t) else t


def alias_possible(f, I):
    sret, ps = params(f)
    seen = set()
    isctor = f.get('cls') and f['sn'].split('<')[0] == C.base(f['cls'])
    for k, (n, dt) in enumerate(ps):
        if f['args'][n]['t'] != 'p' or not is_ptr(dt):
            continue
        c = strip_one_safe(dt)
        if not (c in I.P.classes and I.is_repo_class(c)):
            continue
        if k == 0 and isctor:
            continue
        if not (dt.endswith('&') or (k == 0 and f['args'][n]['n'] == 'this')):
            continue
        if c in seen:
            return True
        seen.add(c)
    return False


class Root:
    pass


def run_entry(P, cfg, f, rules, alias=False, level=1, peel=False, maxsteps=None):
    """analyse one entry point; returns statistics"""
    ATOMS.__init__()
    I = Interp(P, cfg, rules)
    I.entry = f
    I.aliased = alias
    I.level = level
    I.peel = peel
    if maxsteps:
        I.maxsteps = maxsteps
    I.recording = True
    s, args, objs = setup(I, f, alias)
    fr = Root()
    fr.f = f
    fr.parent = None
    hook = getattr(rules, 'on_entry', None)
    if hook:
        hook(I, s, f, args, objs)
    s0 = s.copy()
    fields0 = [r for r in I.regions.values() if r.kind == 'field']
    res = I.analyze(f, args, s, (), None, 0)
    isdtor = f['sn'].startswith('~')
    for (st, rv) in res:
        exit_checks(I, st, rv, f, fr, objs, fields0, rules, isdtor, s0, args)
    return {'steps': I.steps, 'returns': len(res), 'inlined': len(I.inlined),
            'deps': {(k, 1) for k in I.inlined} | {(k, 0) for k in I.opaque}}


def exit_checks(I, s, rv, f, fr, objs, fields0, rules, isdtor, s0, args):
    hook = getattr(rules, 'on_exit', None)
    if hook:
        hook(I, s, rv, f, fr, objs, s0, args)
    if not hasattr(rules, 'add'):
        return
    rdt = (f.get('dts') or ['?'])[0]
    if rdt.endswith('&') and isinstance(rv, Ptr):
        # a reference handed out must refer to something inside its block
        I.access_len(s, fr, None, rv, Lin(I.sizeof(A.strip_one(rdt)) or 1), False)
    owners = {}
    for (r, cls, role, mut) in objs:
        if isdtor and role == 'this':
            continue
        for (o, c, path) in I.subobjects(cls):
            inv = I.cfg.inv(I, c)
            if inv is None:
                continue
            res = inv.check(I, s, r, o)
            for (kind, member, ok, why) in res:
                nm = '%s.%s%s' % (r.name, path, member)
                rules.add(I, s, fr, None, 'inv-' + kind, nm, ok, 'on return: %s%s' % (r.name + ('.' + path if path else '') + ': ', why))
            for arr in inv.arrays + ([(inv.words[0], 0, 0, 0)] if inv.words else []):
                v = s.get(r, o + arr[0])
                if isinstance(v, Ptr) and v.r.kind != 'null' and s.null.get(v.r) != 'null':
                    owners.setdefault(v.r, []).append((r.name, path))
        # definite assignment of constructed objects
        if r.uninit or role in ('this', 'result'):
            for (o, sz, dt, path, ow) in I.layout(cls):
                v = s.get(r, o)
                if r.uninit and not dt.startswith('?'):
                    ok = not (v is None or v in (UNINIT, MAYBE))
                    rules.add(I, s, fr, None, 'unset', '%s.%s' % (r.name, path), ok,
                              'on return: %s.%s is not set on every path' % (r.name, path))
    for r, l in owners.items():
        rules.add(I, s, fr, None, 'shared', r.name, len(l) == 1,
                  'on return: the same memory is owned by %s' % ' and '.join(x[0] for x in l))
    # reachability
    seen = set()
    work = []

    def push(v):
        if isinstance(v, Ptr) and v.r not in seen:
            seen.add(v.r)
            work.append(v.r)
    for (r, cls, role, mut) in objs:
        if not (isdtor and role == 'this'):
            push(Ptr(r, Lin(0)))
    push(rv)
    for a in args:
        if isinstance(a, Ptr) and not (isdtor and any(a.r is o[0] and o[2] == 'this' for o in objs)):
            push(a)
    for r in list(s.mem):
        if r.kind in ('global', 'ext'):
            push(Ptr(r, Lin(0)))
    while work:
        r = work.pop()
        for o, v in (s.mem.get(r) or {}).items():
            if o != 'ver':
                push(v)
    cand = [r for r in s.st if s.st[r] in ('live', 'maybe', 'lost') and r.kind in ('heap', 'merge')]
    cand += [r for r in fields0 if s.st.get(r, 'live') in ('live', 'maybe', 'lost') and r.owner and
             any(r.owner[0] is o[0] and (o[3] or isdtor) for o in objs)]
    cand += [r for r in s.st if s.st[r] == 'lost' and r in I.replaced and r not in cand]
    nheap = 0
    for r in cand:
        if r in s.esc or s.null.get(r) == 'null' or '[]' in r.name or r.name.startswith('_Z'):
            continue            # members of array elements are not tracked one by one
        nheap += 1
        ok = r in seen
        if not ok:
            sz = I.size_of_region(s, r)
            if sz is not None and s.le(sz) and r.kind != 'heap':
                ok = True
        rules.add(I, s, fr, None, 'leak', short(r.name), ok, 'on return: %s is neither released nor reachable' % r.name)


# ---------------------------------------------------------------- batch
_G = {}


LEVELS = [(-1, False, 60000), (0, False, 60000), (1, False, 60000), (0, True, 40000), (1, True, 60000)]


def decide(P, cfg, f, mk, alias, levels=None):
    """Analyse one entry point, escalating precision while obligations are open.  Every run is sound on its own,
    so an obligation stays open only if every completed run leaves it open."""
    fails = None
    first = None
    errs = []
    t0 = time.time()
    st = {}
    for (lv, peel, ms) in (levels or LEVELS):
        rules = mk()
        try:
            deps = st.get('deps', set())
            st = run_entry(P, cfg, f, rules, alias, lv, peel, ms)
            st['deps'] = st['deps'] | deps
        except A.Budget as e:
            errs.append('budget: %s' % e)
            continue
        except RecursionError:
            errs.append('recursion limit')
            continue
        except AnalysisBroken:
            raise
        except Exception as e:
            errs.append('internal: ' + traceback.format_exc()[-1500:])
            continue
        if first is None:
            first = rules
            fails = {k for k, o in rules.ob.items() if not o[0]}
        else:
            now = {k for k, o in rules.ob.items() if not o[0]}
            # a block has another name where its allocator was looked into: such an obligation is not discharged
            # by a run that leaves one open under a new name
            moved = {k[0] for k in now if k not in first.ob and k[0] in ('leak', 'shared')}
            fails = {k for k in fails if k in now or (k not in rules.ob and k[0] in moved)}
            # report the most precise run's wording
            for k in fails & now:
                first.ob[k][1] = rules.ob[k][1]
        if not fails:
            break
    if first is None:
        return None, errs, st, None, time.time() - t0
    for k, o in first.ob.items():
        if not o[0] and k not in fails:
            o[0] = True
            o[1] = ''
    return first.ob, errs, st, getattr(first, 'extra', None), time.time() - t0


def _work(job):
    key, alias = job
    P, cfg, mk, limit = _G['P'], _G['cfg'], _G['mk'], _G['limit']
    f = P.funcs[key]
    ob, errs, st, extra, t = decide(P, cfg, f, mk, alias)
    st['t'] = t
    err = None
    if ob is None:
        err = '; '.join(errs)
        ob = {}
    elif any(e.startswith('internal') for e in errs):
        err = '; '.join(errs)
    return key, alias, ob, err, st, extra


def run_all(P, jobs, mk, limit=0, procs=8, deadline=None):
    """results in order of completion; with a deadline, those that were ready in time"""
    _G.update(P=P, cfg=C.Cfg(P), mk=mk, limit=limit)
    if procs == 1:
        return [_work(j) for j in jobs]
    out = []
    with Pool(procs) as pool:
        it = pool.imap_unordered(_work, jobs, chunksize=1)
        while True:
            try:
                out.append(it.next(None if deadline is None else max(deadline - time.time(), 0.1)))
            except StopIteration:
                return out
            except multiprocessing.TimeoutError:
                return out
