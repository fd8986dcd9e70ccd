"""Abstract interpreter over the IR of ir.py.

Domain: symbolic values (linear expressions over atoms), difference-bound
facts between atoms (a zone domain), disequalities, and an object/region memory
model with allocation status.  Loops are handled by widening, calls by analysing
the callee's body in the caller's state (helpers) or by class-invariant
summaries.  Unwind edges are not followed: every claim is about normal returns
and about accesses made before a throw.
"""
import sys
sys.setrecursionlimit(20000)
INF = float('inf')
ZERO = 0
I32MIN, I32MAX, U32MAX = -2**31, 2**31 - 1, 2**32 - 1


# ---------------------------------------------------------------- expressions
class Lin:
    __slots__ = ('c', 't', 'h')

    def __init__(self, c, t=()):
        self.c = c
        self.t = t
        self.h = None

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __hash__(self):
        if self.h is None:
            self.h = hash((self.c, self.t))
        return self.h

    def isconst(self):
        return not self.t

    def atoms(self):
        return [a for a, k in self.t]

    def __repr__(self):
        return 'Lin(%s)' % self.show()

    def show(self, names=None):
        names = names or ATOMS.name
        s = []
        for a, k in self.t:
            nm = names(a)
            s.append(nm if k == 1 else '-' + nm if k == -1 else '%d*%s' % (k, nm))
        if self.c or not s:
            s.append(str(self.c))
        return ' + '.join(s).replace('+ -', '- ')


def ladd(a, b, kb=1):
    if not b.t:
        return Lin(a.c + kb * b.c, a.t)
    if not a.t and kb == 1:
        return Lin(a.c + b.c, b.t)
    d = dict(a.t)
    for x, k in b.t:
        v = d.get(x, 0) + kb * k
        if v:
            d[x] = v
        else:
            d.pop(x, None)
    return Lin(a.c + kb * b.c, tuple(sorted(d.items())))


def lsub(a, b):
    return ladd(a, b, -1)


def lscale(a, k):
    if k == 0:
        return Lin(0)
    return Lin(a.c * k, tuple((x, c * k) for x, c in a.t))


def lconst(c):
    return Lin(c)


class Atoms:
    def __init__(self):
        self.by = {}
        self.keys = [None]
        self.lo = [0]
        self.hi = [0]
        self.kind = [None]
        self.nm = ['0']
        self.deps = [frozenset()]
        self.divof = {}

    def get(self, key, lo=-INF, hi=INF, name=None, kind=None, deps=()):
        a = self.by.get(key)
        if a is None:
            a = len(self.keys)
            self.by[key] = a
            self.keys.append(key)
            self.lo.append(lo)
            self.hi.append(hi)
            self.kind.append(kind)
            if kind and kind[0] == 'div' and len(kind[1].t) == 1:
                self.divof.setdefault(kind[1].t[0][0], []).append(a)
            self.nm.append(name)
            d = set(deps)
            for x in deps:
                d |= self.deps[x]
            self.deps.append(frozenset(d))
        return a

    def name(self, a):
        n = self.nm[a]
        if n:
            return n
        return 't%d' % a


ATOMS = Atoms()


def atom(key, lo=-INF, hi=INF, name=None, kind=None, deps=()):
    return Lin(0, ((ATOMS.get(key, lo, hi, name, kind, deps), 1),))


# ---------------------------------------------------------------- values
class Ptr:
    __slots__ = ('r', 'off')

    def __init__(self, r, off):
        self.r = r
        self.off = off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.r is o.r and self.off == o.off

    def __hash__(self):
        return hash((id(self.r), self.off))

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.r, self.off.show())


class Sym:
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return self.n


TOP = Sym('TOP')          # unknown value
UNINIT = Sym('UNINIT')    # never written on any path
MAYBE = Sym('MAYBE')      # not written on some path


class Fn:
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Fn) and o.n == self.n

    def __hash__(self):
        return hash(self.n)


class B:
    """boolean condition"""
    __slots__ = ('op', 'a', 'b', 'w')

    def __init__(self, op, a=None, b=None, w=0):
        self.op = op
        self.a = a
        self.b = b
        self.w = w

    def __eq__(self, o):
        return isinstance(o, B) and (self.op, self.a, self.b, self.w) == (o.op, o.a, o.b, o.w)

    def __hash__(self):
        return hash((self.op, self.a, self.b))

    def __repr__(self):
        return 'B(%s,%s,%s)' % (self.op, self.a, self.b)


BTRUE, BFALSE = B('true'), B('false')


class Region:
    """kind: null, alloca, arg, field (memory owned by a pre-existing object's pointer
    field), heap, global, ext (unknown memory), merge."""
    __slots__ = ('key', 'kind', 'name', 'cls', 'size', 'elem', 'owner', 'const', 'line', 'fn', 'alloc', 'dty', 'uninit')

    def __init__(self, key, kind, name='', cls=None, size=None, elem=None):
        self.key = key
        self.kind = kind
        self.name = name
        self.cls = cls          # class layout name of the object at offset 0 (scalar objects)
        self.size = size        # Lin, bytes, or None (unknown)
        self.elem = elem        # class name / scalar type of array elements
        self.owner = None
        self.const = False
        self.line = 0
        self.fn = None
        self.alloc = None       # new[] / new / malloc
        self.dty = None
        self.uninit = False

    def __repr__(self):
        return self.name or str(self.key)


NULLR = Region(('null',), 'null', 'null')
NULLP = Ptr(NULLR, Lin(0))


# ---------------------------------------------------------------- state
class State:
    __slots__ = ('mem', 'z', 'neq', 'st', 'tok', 'imp', 'null', 'rsz', 'esc', 'facts')

    def __init__(self):
        self.mem = {}     # region -> {off: value}     (inner dicts immutable by convention)
        self.z = {}       # a -> {b: c}   a - b <= c
        self.neq = frozenset()
        self.st = {}      # region -> 'live'|'freed'|'maybe'
        self.tok = {}     # partition tokens
        self.imp = ()     # (guard lin, concl lin): guard<=0 => concl<=0
        self.null = {}    # region -> 'null'|'nonnull'
        self.rsz = {}     # region -> size override
        self.esc = frozenset()  # regions whose address escaped to opaque code
        self.facts = frozenset()  # linear facts (lin <= 0) outside the zone fragment

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.z = dict(self.z)
        s.neq = self.neq
        s.st = dict(self.st)
        s.tok = dict(self.tok)
        s.imp = self.imp
        s.null = dict(self.null)
        s.rsz = dict(self.rsz)
        s.esc = self.esc
        s.facts = self.facts
        return s

    # ---- memory
    def get(self, r, off):
        m = self.mem.get(r)
        return None if m is None else m.get(off)

    def set(self, r, off, v):
        m = self.mem.get(r)
        m = dict(m) if m else {}
        m[off] = v
        self.mem[r] = m

    def drop(self, r, off):
        m = self.mem.get(r)
        if m and off in m:
            m = dict(m)
            del m[off]
            self.mem[r] = m

    # ---- zone
    def edge(self, a, b, c):
        m = self.z.get(a)
        if m is None:
            self.z[a] = {b: c}
            return True
        o = m.get(b)
        if o is not None and o <= c:
            return False
        m = dict(m)
        m[b] = c
        self.z[a] = m
        return True

    def dist(self, a, target=None):
        """shortest-path upper bounds of a - x for every x (dict)."""
        z = self.z
        lo, hi = ATOMS.lo, ATOMS.hi
        d = {a: 0}
        work = [a]
        cnt = {}
        while work:
            x = work.pop()
            dx = d[x]
            m = z.get(x)
            if x != ZERO and hi[x] != INF:
                v = dx + hi[x]
                if v < d.get(ZERO, INF):
                    d[ZERO] = v
                    work.append(ZERO)
            if m:
                for y, c in m.items():
                    v = dx + c
                    if v < d.get(y, INF):
                        n = cnt.get(y, 0) + 1
                        cnt[y] = n
                        if n > 60:
                            continue
                        d[y] = v
                        work.append(y)
        return d

    def bound(self, a, b):
        if a == b:
            return 0
        d = self.dist(a)
        v = d.get(b, INF)
        if b != ZERO and ZERO in d and ATOMS.lo[b] != -INF:
            v = min(v, d[ZERO] - ATOMS.lo[b])
        return v

    def ub(self, lin):
        """best provable upper bound of a linear expression"""
        t = lin.t
        if not t:
            return lin.c
        if len(t) == 1:
            a, k = t[0]
            if k > 0:
                v = self.bound(a, ZERO)
                return v if v in (INF, -INF) else k * v + lin.c
            v = self.bound(ZERO, a)
            if v == INF:
                return INF
            return -k * v + lin.c
        g = 0
        for a, k in t:
            g = _gcd(g, abs(k))
        if g > 1:
            u = self.ub(Lin(0, tuple((a, k // g) for a, k in t)))
            return u if u in (INF, -INF) else g * u + lin.c
        return self._pair(t) + lin.c

    def ubf(self, lin):
        """upper bound that also uses one non-zone fact"""
        best = self.ub(lin)
        if self.facts and lin.t:
            at = {a for a, k in lin.t}
            for f in self.facts:
                if any(a in at for a, k in f.t):
                    u = self.ub(lsub(lin, f))
                    if u < best:
                        best = u
        return best

    def _pair(self, t):
        if not t:
            return 0
        if len(t) > 6:
            s = 0
            for a, k in t:
                s += self.ub(Lin(0, ((a, k),)))
            return s
        a, k = t[0]
        rest = t[1:]
        best = self.ub(Lin(0, ((a, k),)))
        if best != INF:
            r = self._pair(rest)
            best = best + r if r != INF else INF
        for i, (b, k2) in enumerate(rest):
            if (k > 0) != (k2 > 0):
                m = min(abs(k), abs(k2))
                if k > 0:
                    w = self.bound(a, b)
                else:
                    w = self.bound(b, a)
                if w == INF:
                    continue
                nt = []
                if abs(k) > m:
                    nt.append((a, (abs(k) - m) * (1 if k > 0 else -1)))
                for j, (x, kx) in enumerate(rest):
                    if j == i:
                        if abs(kx) > m:
                            nt.append((x, (abs(kx) - m) * (1 if kx > 0 else -1)))
                    else:
                        nt.append((x, kx))
                r = self._pair(tuple(nt))
                if r != INF:
                    best = min(best, m * w + r)
        return best

    def lb(self, lin):
        return -self.ub(lscale(lin, -1))

    def le(self, lin):
        """provable lin <= 0 ?"""
        g = 0
        for a, k in lin.t:
            g = _gcd(g, abs(k))
        if g > 1:
            lin = Lin(-((-lin.c) // g), tuple((a, k // g) for a, k in lin.t))
        u = self.ubf(lin)
        if u <= 0:
            return True
        if u == 1 and self.neq and _norm(Lin(lin.c - 1, lin.t)) in self.neq:
            return True
        if self._redivs(lin) and self.ubf(lin) <= 0:
            return True
        return self._imps(lin)

    def _redivs(self, lin):
        """tighten the quotients in lin from what is known by now about their dividends"""
        ch = False
        for a, k in lin.t:
            kd = ATOMS.kind[a]
            if kd and kd[0] == 'div':
                n, q = kd[1], kd[2]
                u, l = self.ub(n), self.lb(n)
                if u != INF and u != -INF and u >= 0:
                    ch |= self.edge(a, ZERO, u // q)
                if l != INF and l != -INF and l > 0:
                    ch |= self.edge(ZERO, a, -(l // q))
        return ch

    def _imps(self, lin):
        if not self.imp:
            return False
        # fire implications whose guard is now provable
        fired = False
        rest = []
        for (g, c) in self.imp:
            u = self.ub(g)
            if u <= 0 or (u == 1 and self.neq and _norm(Lin(g.c - 1, g.t)) in self.neq):
                if self.assume_le(c):
                    fired = True
                fired = True
            else:
                rest.append((g, c))
        if fired:
            self.imp = tuple(rest)
            return self.le(lin)
        # one indirect step
        return False

    def lt(self, a, b):
        return self.le(Lin(a.c - b.c + 1, lsub(a, b).t))

    def isneq(self, lin):
        """provable lin != 0 ?"""
        if self.le(Lin(lin.c + 1, lin.t)) or self.le(ladd(Lin(1), lin, -1)):
            return True
        return _norm(lin) in self.neq

    def iseq(self, lin):
        if not lin.t:
            return lin.c == 0
        return self.le(lin) and self.le(lscale(lin, -1))

    def assume_le(self, lin):
        """add lin <= 0.  Returns False if contradictory."""
        t = lin.t
        g = 0
        for a, k in t:
            g = _gcd(g, abs(k))
        if g > 1:
            lin = Lin(-((-lin.c) // g), tuple((a, k // g) for a, k in t))
            t = lin.t
        if not t:
            return lin.c <= 0
        if self.ubf(lscale(lin, -1)) < 0:
            return False
        if len(t) == 1:
            a, k = t[0]
            if k == 1:
                self._add(a, ZERO, -lin.c)
            else:
                self._add(ZERO, a, -lin.c)
        elif len(t) == 2 and t[0][1] * t[1][1] == -1:
            (a, k), (b, _) = t
            if k == 1:
                self._add(a, b, -lin.c)
            else:
                self._add(b, a, -lin.c)
        else:
            if len(t) <= 4 and len(self.facts) < 40:
                self.facts = self.facts | {lin}
            # derive single-atom consequences where all others are bounded
            for i, (a, k) in enumerate(t):
                if abs(k) != 1:
                    continue
                others = Lin(lin.c, t[:i] + t[i + 1:])
                # k*a <= -others  => upper bound is ub(-others)
                u = self.ub(lscale(others, -1))
                if u != INF and u != -INF:
                    if k == 1:
                        self._add(a, ZERO, u)
                    else:
                        self._add(ZERO, a, u)
                # pair consequences: k*a + k2*b <= -(rest)
                for j, (b, k2) in enumerate(t):
                    if j != i and k2 == -k:
                        oth = Lin(lin.c, tuple(x for n, x in enumerate(t) if n not in (i, j)))
                        u = self.ub(lscale(oth, -1))
                        if u != INF and u != -INF:
                            if k == 1:
                                self._add(a, b, u)
                            else:
                                self._add(b, a, u)
        # strengthen with known disequalities
        if self.neq:
            nn = _norm(lin)
            if nn in self.neq:
                return self.assume_le(Lin(lin.c + 1, lin.t))
        return True

    def _add(self, a, b, c):
        if not self.edge(a, b, c):
            return
        ka, kb = ATOMS.kind[a], ATOMS.kind[b]
        if ka or kb:
            self._derive(a, b, c)
        da = ATOMS.divof.get(a)
        if da:
            db = ATOMS.divof.get(b)
            if db:
                z0 = self.z.get(ZERO) or {}
                for x in da:
                    if x not in self.z and x not in z0:
                        continue
                    for y in db:
                        if x == y or ATOMS.kind[x][2] != ATOMS.kind[y][2] or (y not in self.z and y not in z0):
                            continue
                        d = self.ub(lsub(ATOMS.kind[x][1], ATOMS.kind[y][1]))
                        if d != INF and d != -INF:
                            self.edge(x, y, -((-d) // ATOMS.kind[x][2]))

    def _derive(self, a, b, c):
        # floor-division atoms: kind ('div', lin, k)
        for (x, s) in ((a, 0), (b, 1)):
            kd = ATOMS.kind[x]
            if not kd or kd[0] != 'div':
                continue
            # q = floor(n/k), n>=0:  k*q <= n <= k*q + k-1
            if s == 0 and b == ZERO:      # q <= c  => n <= k*c + k-1
                self.assume_le(ladd(kd[1], Lin(-(kd[2] * c + kd[2] - 1))))
            if s == 1 and a == ZERO:      # q >= -c => n >= k*(-c)
                self.assume_le(lsub(Lin(-kd[2] * c), kd[1]))

    def assume_neq(self, lin):
        if not lin.t:
            return lin.c != 0
        lin = _norm(lin)
        if self.le(lin):
            return self.assume_le(Lin(lin.c + 1, lin.t))
        m = lscale(lin, -1)
        if self.le(m):
            return self.assume_le(Lin(m.c + 1, m.t))
        self.neq = self.neq | {_norm(lin)}
        return True

    def assume_eq(self, lin):
        if _norm(lin) in self.neq:
            return False
        if not lin.t:
            return lin.c == 0
        return self.assume_le(lin) and self.assume_le(lscale(lin, -1))

    def shadow_all(self):
        for r in list(self.mem):
            pass


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def _norm(lin):
    """canonical key of lin != 0"""
    if lin.t and lin.t[0][1] < 0:
        lin = lscale(lin, -1)
    g = 0
    for a, k in lin.t:
        g = _gcd(g, abs(k))
    if g > 1 and lin.c % g == 0:
        lin = Lin(lin.c // g, tuple((a, k // g) for a, k in lin.t))
    return lin


# ---------------------------------------------------------------- interpreter
SIZES = {'int': 4, 'unsigned int': 4, 'char': 1, 'signed char': 1, 'unsigned char': 1, 'bool': 1, 'long': 8,
         'unsigned long': 8, 'long long': 8, 'unsigned long long': 8, 'short': 2, 'unsigned short': 2, 'double': 8,
         'float': 4}
RANGES = {'int': (I32MIN, I32MAX), 'unsigned int': (0, U32MAX), 'char': (-128, 127), 'signed char': (-128, 127),
          'unsigned char': (0, 255), 'bool': (0, 1), 'short': (-2**15, 2**15 - 1), 'unsigned short': (0, 2**16 - 1),
          'unsigned long': (0, 2**64 - 1), 'unsigned long long': (0, 2**64 - 1), 'long': (-2**63, 2**63 - 1),
          'long long': (-2**63, 2**63 - 1)}


def strip(t):
    """pointee/class name of a DI type string"""
    t = t.strip()
    while t.endswith('&') or t.endswith('*'):
        t = t[:-1].strip()
    if t.startswith('const '):
        t = t[6:]
    return t


def is_ptr(t):
    return t.endswith('*') or t.endswith('&')


def pointee(t):
    if t.endswith('&&'):
        t = t[:-2]
    elif t.endswith('&') or t.endswith('*'):
        t = t[:-1]
    return t


def is_const_ref(t):
    return is_ptr(t) and pointee(t).startswith('const ')


class Frame:
    __slots__ = ('f', 'ctx', 'regs', 'parent', 'depth', 'env', 'final', 'args', 'retdt')


class Budget(Exception):
    pass


class Interp:
    """One analysis of one entry function."""

    def __init__(self, P, cfg, rules):
        self.P = P
        self.cfg = cfg          # class invariants, inline policy
        self.rules = rules      # object with hook methods (may define only some)
        self.regions = {}
        self.replaced = set()   # blocks whose owning pointer was replaced
        self.obs = {}
        self.steps = 0
        self.maxsteps = 400000
        self.stack = []
        self.inlined = set()
        self.opaque = set()
        self.layouts = {}
        self.recording = False
        self.level = 1
        self.peel = False
        for h in ('on_access', 'on_div', 'on_arith', 'on_free', 'on_uninit', 'on_call', 'on_return', 'on_missing_return',
                  'on_store', 'on_leak', 'on_shift'):
            setattr(self, h, getattr(rules, h, None))

    # ------------------------------------------------ regions / objects
    def region(self, key, kind, name='', **kw):
        r = self.regions.get(key)
        if r is None:
            r = Region(key, kind, name)
            for k, v in kw.items():
                setattr(r, k, v)
            self.regions[key] = r
        return r

    def sizeof(self, t):
        t = t.strip()
        if t.startswith('const '):
            t = t[6:]
        if is_ptr(t):
            return 8
        if t in SIZES:
            return SIZES[t]
        if t.endswith(']'):
            b, n = t[:-1].rsplit('[', 1)
            s = self.sizeof(b)
            return s * int(n) if s and n else None
        c = self.P.classes.get(t)
        return c['size'] if c else None

    def is_repo_class(self, t):
        c = self.P.classes.get(t)
        return bool(c) and (c['file'].startswith(self.cfg.repo + '/'))

    def layout(self, cls):
        """[(off, size, dtype, path, owner class)] of scalar members, repo classes flattened"""
        l = self.layouts.get(cls)
        if l is not None:
            return l
        l = []
        self.layouts[cls] = l
        c = self.P.classes.get(cls)
        if c and self.is_repo_class(cls):
            for m in c['m']:
                t = m['t'][6:] if m['t'].startswith('const ') else m['t']
                if t in self.P.classes and self.is_repo_class(t):
                    for (o, s, dt, p, ow) in self.layout(t):
                        l.append((o + m['o'], s, dt, m['n'] + '.' + p, ow))
                elif is_ptr(t) or t in SIZES:
                    l.append((m['o'], m['s'], t, m['n'], cls))
                else:
                    l.append((m['o'], m['s'], '?' + t, m['n'], cls))
        elif cls in SIZES or is_ptr(cls):
            l.append((0, self.sizeof(cls), cls, '', cls))
        return l

    def subobjects(self, cls, off=0, path=''):
        """all repo-class objects contained in cls (including itself): (off, cls, path)"""
        out = [(off, cls, path)]
        c = self.P.classes.get(cls)
        if c and self.is_repo_class(cls):
            for m in c['m']:
                t = m['t'][6:] if m['t'].startswith('const ') else m['t']
                if t in self.P.classes and self.is_repo_class(t):
                    out += self.subobjects(t, off + m['o'], path + m['n'] + '.')
        return out

    def fresh(self, s, key, lo=-INF, hi=INF, name=None):
        ex = key in ATOMS.by
        a = ATOMS.get(key, lo, hi, name)
        if ex:
            self.kill(s, a)
        if lo != -INF and lo >= 0:
            s.edge(ZERO, a, -lo)
        return Lin(0, ((a, 1),))

    def kill(self, s, a):
        """forget everything about atom a (it is about to be redefined)"""
        # cells
        for r, m in list(s.mem.items()):
            ch = None
            for off, v in m.items():
                l = v if isinstance(v, Lin) else v.off if isinstance(v, Ptr) else None
                bad = l is not None and self._uses(l, a)
                if isinstance(v, B) and self._busesB(v, a):
                    bad = True
                if isinstance(off, Lin) and self._uses(off, a):
                    ch = ch or dict(m)
                    ch.pop(off, None)
                    continue
                if bad:
                    ch = ch or dict(m)
                    if isinstance(v, Lin):
                        k = ('stale', r.key, off)
                        if k in ATOMS.by and ATOMS.by[k] != a:
                            self._killfacts(s, ATOMS.by[k])
                        ch[off] = Lin(0, ((ATOMS.get(k), 1),))
                    elif isinstance(v, Ptr):
                        k = ('stale', r.key, off)
                        if k in ATOMS.by and ATOMS.by[k] != a:
                            self._killfacts(s, ATOMS.by[k])
                        ch[off] = Ptr(v.r, Lin(0, ((ATOMS.get(k), 1),)))
                    else:
                        ch[off] = TOP
            if ch is not None:
                s.mem[r] = ch
        self._killfacts(s, a)

    def _uses(self, l, a):
        for x, k in l.t:
            if x == a or a in ATOMS.deps[x]:
                return True
        return False

    def _busesB(self, b, a):
        for x in (b.a, b.b):
            if isinstance(x, Lin) and self._uses(x, a):
                return True
            if isinstance(x, Ptr) and self._uses(x.off, a):
                return True
            if isinstance(x, B) and self._busesB(x, a):
                return True
        return False

    def _killfacts(self, s, a):
        dead = [a] + [x for x in s.z if x != a and a in ATOMS.deps[x]]
        for d in dead:
            if d in s.z:
                ins = [(x, m[d]) for x, m in s.z.items() if d in m and x != d]
                outs = s.z.pop(d)
                for x, c in ins:
                    m = dict(s.z[x])
                    m.pop(d, None)
                    s.z[x] = m
                for x, c in ins:
                    for y, c2 in outs.items():
                        if y != x and y != d:
                            s.edge(x, y, c + c2)
            else:
                for x, m in list(s.z.items()):
                    if d in m:
                        m = dict(m)
                        del m[d]
                        s.z[x] = m
        if s.neq:
            s.neq = frozenset(l for l in s.neq if not any(x == a or a in ATOMS.deps[x] for x, k in l.t))
        if s.facts:
            s.facts = frozenset(l for l in s.facts if not self._uses(l, a))
        if s.imp:
            s.imp = tuple((g, c) for g, c in s.imp if not self._uses(g, a) and not self._uses(c, a))

    def scalar(self, s, key, dt, name=None):
        t = dt[6:] if dt.startswith('const ') else dt
        lo, hi = RANGES.get(t, (-INF, INF))
        return self.fresh(s, key, lo, hi, name)

    def make_object(self, s, r, base, cls, key, name, initial=True):
        """Fill the fields of an object of class cls at (r, base) with fresh values that satisfy the
        class invariants (pre-existing object, or result of an opaque call)."""
        lay = self.layout(cls)
        if not lay:
            if cls in RANGES:
                s.set(r, base, self.scalar(s, key + ('v',), cls, name))
            return
        for (o, sz, dt, path, ow) in lay:
            off = _off(base, o)
            nm = (name + '.' + path) if path else name
            if dt.startswith('?'):
                continue
            if is_ptr(dt):
                fr = self.region(key + ('p', o), 'field', nm)
                self._forget_region(s, fr)
                fr.elem = pointee(dt) if not pointee(dt).startswith('const ') else pointee(dt)[6:]
                fr.owner = (r, off)
                s.set(r, off, Ptr(fr, Lin(0)))
            else:
                s.set(r, off, self.scalar(s, key + ('f', o), dt, nm))
        for (o, c, p) in self.subobjects(cls):
            inv = self.cfg.inv(self, c)
            if inv:
                inv.assume(self, s, r, _off(base, o), key + ('c', o), name)

    def _forget_region(self, s, r):
        s.mem.pop(r, None)
        s.st.pop(r, None)
        s.null.pop(r, None)
        s.rsz.pop(r, None)

    def size_of_region(self, s, r):
        v = s.rsz.get(r)
        return v if v is not None else r.size

    # ------------------------------------------------ values
    def val(self, s, fr, v):
        k = v[0]
        if k == 'i':
            x = fr.env.get(v[1])
            if x is None:
                x = s.get(fr.regs, v[1])
            return TOP if x is None else x
        if k == 'c':
            if v[2] == 1:
                return BTRUE if v[1] else BFALSE
            return Lin(v[1])
        if k == 'a':
            return fr.args[v[1]]
        if k == 'null':
            return NULLP
        if k == 'g':
            g = self.P.globals.get(v[1])
            r = self.region(('glob', v[1]), 'global', (g['sn'] or v[1]) if g else v[1])
            if g and r.size is None and not g['decl']:
                r.size = Lin(g['size'])
                r.const = g['const']
                r.dty = g
            return Ptr(r, Lin(v[2]))
        if k == 'f':
            return Fn(v[1])
        if k == 'undef':
            return TOP
        if k == 'zero':
            return Lin(0)
        return TOP

    def asint(self, s, v, key, bits=32):
        if isinstance(v, Lin):
            return v
        if isinstance(v, B):
            if v.op == 'true':
                return Lin(1)
            if v.op == 'false':
                return Lin(0)
            return self.fresh(s, key + ('b',), 0, 1)
        lo, hi = (-2**(bits - 1), 2**bits - 1) if bits < 64 else (-INF, INF)
        return self.fresh(s, key + ('n',), lo, hi)

    def asbool(self, v):
        if isinstance(v, B):
            return v
        if isinstance(v, Lin):
            if v.isconst():
                return BTRUE if v.c else BFALSE
            return B('ne', v, Lin(0), 32)
        return TOP

    # ------------------------------------------------ running
    def analyze(self, f, args, s, ctx, parent, depth):
        fr = Frame()
        fr.f = f
        fr.ctx = ctx
        fr.parent = parent
        fr.depth = depth
        fr.args = args
        fr.env = {}
        fr.regs = self.region(('regs', ctx, f['key']), 'regs', 'regs')
        fr.retdt = (f.get('dts') or ['?'])[0]
        if not f['live']:
            # never returns normally
            if self.recording and getattr(self.rules, 'want_doomed', False):
                pass
            return []
        self.stack.append(f['key'])
        try:
            return self._fix(fr, s)
        finally:
            self.stack.pop()

    def _keyof(self, s):
        return tuple(sorted(s.tok.items(), key=repr)) if s.tok else ()

    def _fix(self, fr, s0):
        f = fr.f
        rpo = f['rpo']
        live = f['live']
        nb = len(f['bbs'])
        edges = {}           # (p,b) -> {tokkey: state}
        inst = {}            # head -> {tokkey: state}
        visits = {}
        base_tok = dict(s0.tok)
        rec, self.recording = self.recording, False
        pend = {0}
        entry = {self._keyof(s0): s0}
        rounds = 0
        while pend:
            b = min(pend, key=lambda x: rpo[x])
            pend.discard(b)
            rounds += 1
            if rounds > 60 * nb + 400:
                raise Budget('no fixpoint in ' + f['dem'])
            cur = self._instates(fr, b, entry if b == 0 else None, edges, base_tok)
            if b in f['heads']:
                old = inst.get(b)
                n = visits.get(b, 0)
                visits[b] = n + 1
                if old is not None:
                    new = {}
                    changed = False
                    for k, st in cur.items():
                        if k in old:
                            j = self.join(old[k], st, (fr.ctx, f['key'], b), widen=n >= 2, drop=n >= 8)
                            new[k] = j
                            if not self.same(j, old[k]):
                                changed = True
                        else:
                            new[k] = st
                            changed = True
                    for k, st in old.items():
                        if k not in new:
                            new[k] = st
                    if not changed:
                        continue
                    cur = new
                if b in inst:
                    # inner loops start afresh from the new state of this loop
                    body = f['loops'][b]
                    if any(h != b and h in f['heads'] for h in body):
                        for h in body:
                            if h != b:
                                inst.pop(h, None)
                                visits.pop(h, None)
                        for e in [e for e in edges if e[0] in body and e[1] in body]:
                            del edges[e]
                inst[b] = cur
            outs = {}
            for k, st in cur.items():
                for (succ, ns) in self.block(fr, b, st.copy()):
                    if self.peel and succ != 'ret':
                        self._unpeel(fr, ns, succ)
                    outs.setdefault(succ, []).append(ns)
            for succ in set(f['succ'][b]):
                if succ not in live:
                    continue
                d = self._group(fr, succ, outs.get(succ, []), base_tok, (b, succ))
                o = edges.get((b, succ))
                if o is not None and self._samed(o, d):
                    continue
                if o is None and not d:
                    edges[(b, succ)] = d
                    continue
                edges[(b, succ)] = d
                pend.add(succ)
        # final (descending, recording) pass
        self.recording = rec
        results = []
        order = sorted(live, key=lambda x: rpo[x])
        for b in order:
            if b == 0 and b not in f['heads']:
                cur = entry
            else:
                cur = self._instates(fr, b, entry if b == 0 else None, edges, base_tok, final=inst.get(b))
            outs = {}
            for k, st in cur.items():
                fr.env = {}
                for (succ, ns) in self.block(fr, b, st.copy()):
                    if succ == 'ret':
                        results.append(ns)
                    else:
                        if self.peel:
                            self._unpeel(fr, ns, succ)
                        outs.setdefault(succ, []).append(ns)
            for succ in set(f['succ'][b]):
                if succ in live and (b, succ) not in f['back']:
                    edges[(b, succ)] = self._group(fr, succ, outs.get(succ, []), base_tok, (b, succ))
        # pop frame: drop allocas and registers
        outl = []
        for st, rv in results:
            for r in list(st.mem):
                if r is fr.regs or (r.kind == 'alloca' and r.fn == (fr.ctx, f['key'])):
                    if fr.depth > 0:
                        del st.mem[r]
            st.tok = dict(base_tok)
            outl.append((st, rv))
        return outl

    def _instates(self, fr, b, entry, edges, base_tok, final=None):
        f = fr.f
        groups = {}
        if entry:
            for k, st in entry.items():
                groups.setdefault(k, []).append(st)
        backs = set()
        for p in f['preds'][b]:
            d = edges.get((p, b))
            if d:
                for k, st in d.items():
                    groups.setdefault(k, []).append(st)
                    if (p, b) in f['back']:
                        backs.add(id(st))
        ishead = b in f['heads']
        res = {}
        if ishead and len(groups) > 0:
            # tokens created inside this loop do not survive the back edge
            g2 = {}
            body = f['loops'][b]
            pk = (fr.ctx, f['key'], 'peel', b)
            for k, l in groups.items():
                for st in l:
                    nt = {t: v for t, v in st.tok.items() if not (t[0] == fr.ctx and t[1] == f['key'] and t[3] in body)}
                    if self.peel:
                        nt[pk] = 'next' if id(st) in backs else 'first'
                    if nt != st.tok:
                        st = st.copy()
                        st.tok = nt
                    g2.setdefault(self._keyof(st), []).append(st)
            groups = g2
        if len(groups) > 10:
            g2 = {}
            for k, l in groups.items():
                for st in l:
                    nt = {t: v for t, v in st.tok.items() if t in base_tok or t[2] == 'slot'}
                    if nt != st.tok:
                        st = st.copy()
                        st.tok = nt
                    g2.setdefault(self._keyof(st), []).append(st)
            groups = g2
        if len(groups) > 24:
            allst = [st for l in groups.values() for st in l]
            for i, st in enumerate(allst):
                if st.tok != base_tok:
                    st = st.copy()
                    st.tok = dict(base_tok)
                    allst[i] = st
            groups = {self._keyof(allst[0]): allst}
        for k, l in groups.items():
            st = l[0]
            for o in l[1:]:
                st = self.join(st, o, (fr.ctx, f['key'], b))
            res[k] = st
        if final:
            # descending step must stay below the fixpoint and cover its keys
            for k in list(res):
                if k not in final:
                    pass
        return res

    def _unpeel(self, fr, st, succ):
        f = fr.f
        for t in [t for t in st.tok if t[2] == 'peel' and t[0] == fr.ctx and t[1] == f['key']]:
            if succ not in f['loops'][t[3]]:
                del st.tok[t]

    def _group(self, fr, succ, states, base_tok, e):
        d = {}
        for st in states:
            k = self._keyof(st)
            if k in d:
                d[k] = self.join(d[k], st, (fr.ctx, fr.f['key'], ('e',) + e))
            else:
                d[k] = st
        return d

    def same(self, a, b):
        if a.mem != b.mem or a.st != b.st or a.null != b.null or a.neq != b.neq or a.rsz != b.rsz or a.esc != b.esc:
            return False
        if a.imp != b.imp or a.facts != b.facts:
            return False
        return a.z == b.z

    def _samed(self, a, b):
        if set(a) != set(b):
            return False
        return all(self.same(a[k], b[k]) for k in a)

    # ------------------------------------------------ join
    def initval(self, s, r, off, other):
        if r.kind in ('alloca',):
            return UNINIT if r.uninit else TOP
        if r.kind == 'regs':
            return None
        ver = (s.mem.get(r) or {}).get('ver')
        if isinstance(other, Lin):
            if len(other.t) == 1 and ATOMS.keys[other.t[0][0]] == ('init', r.key, off, ver):
                return other
            k = ('init', r.key, off, ver)
            if k in ATOMS.by:
                return Lin(0, ((ATOMS.by[k], 1),))
        if isinstance(other, Ptr) and other.r.key == ('initp', r.key, off, ver):
            return other
        return TOP

    def join(self, A, Bs, key, widen=False, drop=False):
        if A is Bs:
            return A
        N = State()
        N.tok = A.tok
        phis = []   # (atom, la, lb)

        def phi(la, lb, cell):
            if la == lb:
                return la
            k = ('phi', key, cell)
            lo = min(_lo(la), _lo(lb))
            hi = max(_hi(la), _hi(lb))
            a = ATOMS.get(k)
            # declared range is not used for phi atoms (they may be reused with other inputs)
            for x in phis:
                if x[0] == a:
                    return Lin(0, ((a, 1),))
            phis.append((a, la, lb))
            return Lin(0, ((a, 1),))
        merged = {}
        absorbed = set()

        def phioff(la, lb, cell):       # byte offsets advance by whole elements
            if la == lb:
                return la
            g = 0
            for l in (la, lb):
                g = _gcd(g, abs(l.c))
                for a, kk in l.t:
                    g = _gcd(g, abs(kk))
            if g <= 1:
                return phi(la, lb, ('o',) + cell)
            la, lb = [Lin(l.c // g, tuple((a, kk // g) for a, kk in l.t)) for l in (la, lb)]
            return lscale(phi(la, lb, ('o', g) + cell), g)

        def rstat(S, r):
            if r.kind == 'null' or S.null.get(r) == 'null':
                return 'null'
            return S.st.get(r, 'live')

        def mergeptr(va, vb, cell):
            ra, rb = va.r, vb.r
            if ra is rb:
                return Ptr(ra, phioff(va.off, vb.off, cell))
            # the same pair of regions merges to the same region
            mk = (ra, rb)
            if mk in merged:
                m = merged[mk]
            else:
                k = ('merge', key, cell)
                m = self.region(k, 'merge', cell_name(ra, rb))
                merged[mk] = m
                sa = Lin(0) if rstat(A, ra) == 'null' else self.size_of_region(A, ra)
                sb = Lin(0) if rstat(Bs, rb) == 'null' else self.size_of_region(Bs, rb)
                if ra is m and rb.kind == 'null':
                    pass
                if sa is None or sb is None:
                    if m in N.rsz:
                        del N.rsz[m]
                    m.size = None
                else:
                    g = 0
                    for l in (sa, sb):
                        g = _gcd(g, abs(l.c))
                        for a, kk in l.t:
                            g = _gcd(g, abs(kk))
                    g = g or 1
                    pa = Lin(sa.c // g, tuple((a, kk // g) for a, kk in sa.t))
                    pb = Lin(sb.c // g, tuple((a, kk // g) for a, kk in sb.t))
                    N.rsz[m] = lscale(phi(pa, pb, ('sz',) + cell), g)
                m.elem = m.elem or ra.elem or rb.elem
                m.cls = m.cls or ra.cls or rb.cls
                m.alloc = m.alloc or ra.alloc or rb.alloc
                m.line = m.line or ra.line or rb.line
                x, y = rstat(A, ra), rstat(Bs, rb)
                if x == 'null':
                    N.st[m] = y
                elif y == 'null':
                    N.st[m] = x
                else:
                    N.st[m] = x if x == y else 'lost' if 'lost' in (x, y) else 'maybe'
                if x == 'null' and y == 'null':
                    N.null[m] = 'null'
                elif 'null' not in (x, y) and nonnull(A, ra) and nonnull(Bs, rb):
                    N.null[m] = 'nonnull'
                for q in (ra, rb):
                    if q is not m and q.kind in ('heap', 'field', 'merge'):
                        absorbed.add(q)
            return Ptr(m, phioff(va.off, vb.off, cell))

        def dropped(S, r):
            """S still has the block, but nothing that survives the join refers to it"""
            x = S.st.get(r, 'live')
            if x == 'lost':
                return True
            if x != 'live' or r.kind not in ('heap', 'field') or r in S.esc or S.null.get(r) == 'null' or \
                    (r.kind == 'heap' and r not in S.st) or (r.kind == 'field' and (not r.owner or r.owner[0].kind != 'arg')):
                return False
            sz = self.size_of_region(S, r)
            if sz is not None and r.kind == 'field' and S.le(sz):
                return False
            for x, m in S.mem.items():
                if x.kind == 'regs':
                    continue
                n = N.mem.get(x) or {}
                for o, v in m.items():
                    if isinstance(v, Ptr) and v.r is r and isinstance(n.get(o), Ptr):
                        return False
            return True

        def nonnull(S, r):
            return r.kind in ('alloca', 'heap', 'arg', 'global') or S.null.get(r) == 'nonnull'

        def cell_name(ra, rb):
            n = ra.name if ra.kind != 'null' else rb.name
            return n

        def jv(va, vb, cell):
            if va == vb:
                return va
            if va is None or vb is None:
                return None
            if va in (UNINIT, MAYBE) or vb in (UNINIT, MAYBE):
                return MAYBE
            if isinstance(va, Lin) and isinstance(vb, Lin):
                return phi(va, vb, cell)
            if isinstance(va, B) or isinstance(vb, B):
                def tol(S, v):
                    if isinstance(v, Lin):
                        return v
                    if isinstance(v, B):
                        if v.op == 'true':
                            return Lin(1)
                        if v.op == 'false':
                            return Lin(0)
                    return None
                la, lb = tol(A, va), tol(Bs, vb)
                if la is not None and lb is not None:
                    return phi(la, lb, cell)
                if isinstance(va, (B, Lin)) and isinstance(vb, (B, Lin)):
                    k = ('bphi', key, cell)
                    a = ATOMS.get(k, 0, 1)
                    N.edge(ZERO, a, 0)
                    return Lin(0, ((a, 1),))
                return TOP
            if isinstance(va, Ptr) and isinstance(vb, Ptr):
                return mergeptr(va, vb, cell)
            return TOP

        am, bm = A.mem, Bs.mem
        for r in set(am) | set(bm):
            ma, mb = am.get(r), bm.get(r)
            if ma is mb or ma == mb:
                N.mem[r] = ma
                continue
            if ma is None or mb is None:
                if r.kind in ('heap', 'merge', 'field'):
                    # allocated / touched on one side only
                    other = Bs if ma is None else A
                    if r.kind == 'heap' and r not in other.st:
                        N.mem[r] = ma if ma is not None else mb
                        continue
                ma = ma or {}
                mb = mb or {}
            out = {}
            va_, vb_ = ma.get('ver'), mb.get('ver')
            if va_ != vb_:
                out['ver'] = ('j', key)
            elif va_ is not None:
                out['ver'] = va_
            for off in set(ma) | set(mb):
                if off == 'ver':
                    continue
                va = ma.get(off)
                vb = mb.get(off)
                if isinstance(off, Lin) and (va is None or vb is None):
                    continue
                if va is None:
                    va = self.initval(A, r, off, vb)
                if vb is None:
                    vb = self.initval(Bs, r, off, va)
                v = jv(va, vb, (r.key, off))
                if v is None:
                    continue
                if v is TOP and r.kind not in ('alloca', 'regs'):
                    pass
                out[off] = v
            N.mem[r] = out
        redefined = {p[0] for p in phis}
        # status
        for r in set(A.st) | set(Bs.st):
            if r in merged.values():
                continue
            x, y = A.st.get(r), Bs.st.get(r)
            if x is None or y is None:
                if r.kind == 'heap':
                    N.st[r] = x or y
                    continue
                x = x or ('live')
                y = y or ('live')
            if x == y:
                N.st[r] = x
            elif A.null.get(r) == 'null':
                N.st[r] = y
            elif Bs.null.get(r) == 'null':
                N.st[r] = x
            elif 'lost' in (x, y):
                N.st[r] = 'lost'
            elif 'merged' in (x, y):
                N.st[r] = 'merged'
            else:
                N.st[r] = 'maybe'
        for r in absorbed:
            if r not in merged.values():
                N.st[r] = 'lost' if dropped(A, r) or dropped(Bs, r) else 'merged'
        for r, v in A.null.items():
            if r in N.null or r in merged.values():
                continue
            if Bs.null.get(r) == v:
                N.null[r] = v
            elif (v == 'null' and N.st.get(r) == 'freed') or (Bs.null.get(r) == 'null' and N.st.get(r) == 'freed'):
                pass
        N.esc = A.esc | Bs.esc
        for r, v in A.rsz.items():
            if r in N.rsz or r in merged.values():
                continue
            w = Bs.rsz.get(r)
            if w == v:
                N.rsz[r] = v
            elif w is None and r not in Bs.st and r not in Bs.mem:
                N.rsz[r] = v
        for r, w in Bs.rsz.items():
            if r not in N.rsz and r not in merged.values() and r not in A.rsz and r not in A.st and r not in A.mem:
                N.rsz[r] = w
        # facts
        live = set()
        for r, m in N.mem.items():
            for off, v in m.items():
                if isinstance(off, Lin):
                    live.update(a for a, k in off.t)
                self._vatoms(v, live)
        for r in set(N.mem) | set(N.st):
            sz = N.rsz.get(r) or r.size
            if sz is not None:
                live.update(a for a, k in sz.t)
        for m in list(N.rsz.values()):
            live.update(a for a, k in m.t)
        for a in list(live):
            kd = ATOMS.kind[a]
            if kd:
                live.update(ATOMS.deps[a])
        live.discard(ZERO)
        if A.z == Bs.z and not phis:
            N.z = A.z
            N.neq = A.neq if A.neq == Bs.neq else frozenset(l for l in A.neq if l in Bs.neq or Bs.isneq(l)) | frozenset(
                l for l in Bs.neq if A.isneq(l))
            N.imp = tuple(i for i in A.imp if i in Bs.imp)
            N.facts = A.facts & Bs.facts
            N.z = dict(N.z)
            if widen:
                self._widen(A, N, redefined, drop)
            return N
        names = [ZERO] + [a for a in live if a not in redefined and (a in A.z or a in Bs.z or self._hasin(A, a) or self._hasin(Bs, a) or ATOMS.lo[a] != -INF)]
        ea, eb = {}, {}
        for a in names:
            ea[a] = eb[a] = (a, 0)
        cplx = []
        for (p, la, lb) in phis:
            if p not in live:
                continue
            xa, xb = _simple(la), _simple(lb)
            if xa is None or xb is None:
                cplx.append((p, la, lb))
            else:
                names.append(p)
                ea[p] = xa
                eb[p] = xb
        da, db = {}, {}

        def dist(S, cache, a):
            d = cache.get(a)
            if d is None:
                d = S.dist(a)
                cache[a] = d
            return d
        lo = ATOMS.lo

        def bnd(S, cache, ex, a, b):
            (xa, ca), (xb, cb) = ex[a], ex[b]
            if xa == xb:
                return ca - cb
            d = dist(S, cache, xa)
            v = d.get(xb, INF)
            if xb != ZERO and ZERO in d and lo[xb] != -INF:
                v = min(v, d[ZERO] - lo[xb])
            return v + ca - cb
        zb = {}
        for a in names:
            for b in ((ZERO,)):
                if a != ZERO:
                    zb[(a, ZERO)] = max(bnd(A, da, ea, a, ZERO), bnd(Bs, db, eb, a, ZERO))
                    zb[(ZERO, a)] = max(bnd(A, da, ea, ZERO, a), bnd(Bs, db, eb, ZERO, a))
        for (a, b), c in zb.items():
            if c != INF:
                x = a if a != ZERO else b
                if a == ZERO and lo[x] != -INF and -c <= lo[x] and lo[x] != 0 and lo[x] < 0:
                    continue
                N.edge(a, b, c)
        for a in names:
            if a == ZERO:
                continue
            for b in names:
                if b == ZERO or a == b:
                    continue
                c = bnd(A, da, ea, a, b)
                if c == INF:
                    continue
                c = max(c, bnd(Bs, db, eb, a, b))
                if c == INF:
                    continue
                if c >= zb.get((a, ZERO), INF) + zb.get((ZERO, b), INF):
                    continue
                N.edge(a, b, c)
        for (p, la, lb) in cplx:
            u = max(A.ubf(la), Bs.ubf(lb))
            if u != INF:
                N.edge(p, ZERO, u)
            l = -max(A.ubf(lscale(la, -1)), Bs.ubf(lscale(lb, -1)))
            if l != -INF:
                N.edge(ZERO, p, -l)
            for b in names:
                if b == ZERO or b not in ea:
                    continue
                xa = Lin(ea[b][1], ((ea[b][0], 1),) if ea[b][0] != ZERO else ())
                xb = Lin(eb[b][1], ((eb[b][0], 1),) if eb[b][0] != ZERO else ())
                u = max(A.ubf(lsub(la, xa)), Bs.ubf(lsub(lb, xb)))
                if u != INF:
                    N.edge(p, b, u)
                l = max(A.ubf(lsub(xa, la)), Bs.ubf(lsub(xb, lb)))
                if l != INF:
                    N.edge(b, p, l)
        ok = live - redefined
        ne = set()
        for l in A.neq:
            if all(x in ok for x, k in l.t) and (l in Bs.neq or Bs.isneq(l)):
                ne.add(l)
        for l in Bs.neq:
            if l not in ne and all(x in ok for x, k in l.t) and A.isneq(l):
                ne.add(l)
        for (p, la, lb) in phis:
            if p in live and A.isneq(la) and Bs.isneq(lb):
                ne.add(Lin(0, ((p, 1),)))
        N.neq = frozenset(ne)
        fs = set()
        for l in A.facts:
            if all(x in ok for x, k in l.t) and (l in Bs.facts or Bs.ub(l) <= 0):
                fs.add(l)
        for l in Bs.facts:
            if l not in fs and all(x in ok for x, k in l.t) and A.ub(l) <= 0:
                fs.add(l)
        if phis:
            pm = {p: (la, lb) for (p, la, lb) in phis}

            def okat(l):
                return all(x in live and (x not in redefined or x in pm) for x, k in l.t)
            cand = []
            for (p, la, lb) in phis:
                if p not in live:
                    continue
                for side in (la, lb):
                    if (len(side.t) >= 2 or side.t and side.t[0][1] != 1) and not any(x in redefined for x, k in side.t) and okat(side):
                        d = lsub(Lin(0, ((p, 1),)), side)
                        cand.append(d)
                        cand.append(lscale(d, -1))
            selfA = {p for p, (la, lb) in pm.items() if la == Lin(0, ((p, 1),))}
            selfB = {p for p, (la, lb) in pm.items() if lb == Lin(0, ((p, 1),))}
            for S, sf in ((A, selfA), (Bs, selfB)):
                for l in S.facts:
                    if any(x in redefined for x, k in l.t) and all(x not in redefined or x in sf for x, k in l.t) \
                            and okat(l):
                        cand.append(l)
            sa = {p: la for p, (la, lb) in pm.items()}
            sb = {p: lb for p, (la, lb) in pm.items()}
            for l in cand:
                if l in fs or len(l.t) < 2 or len(l.t) == 2 and l.t[0][1] * l.t[1][1] == -1 or len(fs) >= 40:
                    continue
                if A.ubf(_subst(l, sa)) <= 0 and Bs.ubf(_subst(l, sb)) <= 0:
                    fs.add(l)
        N.facts = frozenset(fs)
        N.imp = self._join_imps(A, Bs, phis, redefined, live)
        if widen:
            self._widen(A, N, redefined, drop)
        return N

    def _join_imps(self, A, Bs, phis, redefined, live):
        out = [i for i in A.imp if i in Bs.imp and not any(x in redefined for x, k in i[0].t + i[1].t)]
        have = set(out)
        if not (A.imp or Bs.imp):
            return tuple(out)
        ph = [(p, la, lb) for (p, la, lb) in phis if p in live]
        for (S, T, side) in ((A, Bs, 0), (Bs, A, 1)):
            if not S.imp:
                continue
            fwd = {}
            other = {}
            for (p, la, lb) in ph:
                x, y = (la, lb) if side == 0 else (lb, la)
                if len(x.t) == 1 and x.t[0][1] == 1 and x.c == 0:
                    fwd.setdefault(x.t[0][0], []).append(p)
                    other[p] = y
            for (g, c) in S.imp:
                ats = {a for a, k in g.t + c.t}
                if all(a not in fwd for a in ats):
                    if (g, c) in have or any(a in redefined or a not in live for a in ats):
                        continue
                    if _implies(T, g, c):
                        have.add((g, c))
                        out.append((g, c))
                    continue
                # rename the atoms that became phi atoms
                sub = {}
                bad = False
                for a in ats:
                    if a in fwd:
                        sub[a] = fwd[a][-1] if len(fwd[a]) == 1 else fwd[a]
                    elif a in redefined:
                        bad = True
                if bad:
                    continue
                subs = [{}]
                for a, v in sub.items():
                    vs = v if isinstance(v, list) else [v]
                    if a in live and a not in redefined:
                        vs = list(vs) + [a]
                    subs = [dict(d, **{a: x}) if False else {**d, a: x} for d in subs for x in vs][:12]
                for d in subs:
                    gn, cn = _rename(g, d), _rename(c, d)
                    if (gn, cn) in have:
                        continue
                    inv = {x: other[x] for x in d.values() if x in other}
                    gt, ct = _subst(gn, inv), _subst(cn, inv)
                    if _implies(T, gt, ct):
                        have.add((gn, cn))
                        out.append((gn, cn))
        return tuple(out)

    def _hasin(self, S, a):
        m = S.z.get(ZERO)
        return bool(m) and a in m

    def _widen(self, old, N, redefined, drop):
        for a in list(N.z):
            m = N.z[a]
            keep = {}
            od = None
            for b, c in m.items():
                if drop and (a in redefined or b in redefined):
                    continue
                if od is None:
                    od = old.dist(a)
                v = od.get(b, INF)
                if b != ZERO and ZERO in od and ATOMS.lo[b] != -INF:
                    v = min(v, od[ZERO] - ATOMS.lo[b])
                if v >= c or v == INF and (a in redefined or b in redefined) and not self._known(old, a, b, redefined):
                    keep[b] = c
                elif b == ZERO and c <= 0 and v < 0:
                    keep[b] = 0       # threshold: a <= 0
                elif a == ZERO and c <= 0 and v < 0:
                    keep[b] = 0       # threshold: a >= 0
            if len(keep) != len(m) or keep != m:
                N.z[a] = keep

    def _known(self, old, a, b, redefined):
        for x in (a, b):
            if x in redefined and (x in old.z or self._hasin(old, x)):
                return True
        return False

    def _vatoms(self, v, out):
        if isinstance(v, Lin):
            out.update(a for a, k in v.t)
        elif isinstance(v, Ptr):
            out.update(a for a, k in v.off.t)
        elif isinstance(v, B):
            for x in (v.a, v.b):
                if x is not None:
                    self._vatoms(x, out)


def _rename(l, d):
    r = Lin(l.c)
    for a, k in l.t:
        r = ladd(r, Lin(0, ((d.get(a, a), k),)))
    return r


def _subst(l, d):
    r = Lin(l.c)
    for a, k in l.t:
        r = ladd(r, lscale(d[a], k) if a in d else Lin(0, ((a, k),)))
    return r


def _implies(S, g, c):
    if (g, c) in S.imp:
        return True
    t = S.copy()
    if not t.assume_le(g):
        return True
    return t.le(c)


def _simple(l):
    if not l.t:
        return (ZERO, l.c)
    if len(l.t) == 1 and l.t[0][1] == 1:
        return (l.t[0][0], l.c)
    return None


def _lo(l):
    return -INF


def _hi(l):
    return INF


def _off(base, o):
    if isinstance(base, Lin):
        if base.isconst():
            return base.c + o
        return Lin(base.c + o, base.t)
    return base + o


NEG = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt', 'ult': 'uge', 'uge': 'ult',
       'ugt': 'ule', 'ule': 'ugt', 'peq': 'pne', 'pne': 'peq'}
SWAP = {'slt': 'sgt', 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle', 'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule',
        'eq': 'eq', 'ne': 'ne'}
NEW = {'_Znam', '_Znwm', '_ZnamSt11align_val_t'}
DEL = {'_ZdaPv', '_ZdlPv', '_ZdlPvm', '_ZdaPvm'}


def bnot(b):
    if not isinstance(b, B):
        return TOP
    if b.op == 'true':
        return BFALSE
    if b.op == 'false':
        return BTRUE
    if b.op == 'not':
        return b.a
    if b.op in NEG:
        return B(NEG[b.op], b.a, b.b, b.w)
    return B('not', b)


def _assume(I, s, b, truth):
    """refine s by condition b; returns list of states (empty: infeasible)"""
    if not isinstance(b, B):
        return [s]
    if b.op == 'not':
        return _assume(I, s, b.a, not truth)
    if b.op == 'true':
        return [s] if truth else []
    if b.op == 'false':
        return [] if truth else [s]
    if b.op in ('and', 'or'):
        conj = (b.op == 'and') == truth
        if conj:
            out = []
            for x in _assume(I, s, b.a, truth):
                out += _assume(I, x, b.b, truth)
            return out
        return _assume(I, s.copy(), b.a, truth) + [y for x in _assume(I, s.copy(), b.a, not truth)
                                                   for y in _assume(I, x, b.b, truth)]
    op = b.op if truth else NEG[b.op]
    if op in ('peq', 'pne'):
        return _assume_ptr(I, s, b.a, b.b, op == 'peq')
    a, c = b.a, b.b
    if not (isinstance(a, Lin) and isinstance(c, Lin)):
        return [s]
    d = lsub(a, c)
    ok = True
    if op == 'eq':
        ok = s.assume_eq(d)
    elif op == 'ne':
        ok = s.assume_neq(d)
    elif op == 'slt':
        ok = s.assume_le(Lin(d.c + 1, d.t))
    elif op == 'sle':
        ok = s.assume_le(d)
    elif op == 'sgt':
        m = lscale(d, -1)
        ok = s.assume_le(Lin(m.c + 1, m.t))
    elif op == 'sge':
        ok = s.assume_le(lscale(d, -1))
    else:
        if op in ('ugt', 'uge'):
            a, c, op = c, a, SWAP[op]
            d = lsub(a, c)
        # a u< c  /  a u<= c
        na, nc = s.le(lscale(a, -1)), s.le(lscale(c, -1))
        if nc:
            if not na:
                ok = s.assume_le(lscale(a, -1))
            if ok:
                ok = s.assume_le(Lin(d.c + (1 if op == 'ult' else 0), d.t))
    return [s] if ok else []


def _isnull(s, p):
    if p.r.kind == 'null':
        return True
    n = s.null.get(p.r)
    if n == 'null' and p.off.isconst() and p.off.c == 0:
        return True
    if n == 'nonnull' or p.r.kind in ('alloca', 'heap', 'arg', 'global'):
        return False
    return None


def _assume_ptr(I, s, a, b, eq):
    if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
        return [s]
    if a.r.kind == 'null':
        a, b = b, a
    if b.r.kind == 'null':
        n = _isnull(s, a)
        if n is not None:
            return [s] if n == eq else []
        if a.off.isconst() and a.off.c == 0:
            if eq:
                s.null[a.r] = 'null'
                sz = I.size_of_region(s, a.r)
                if sz is not None and not s.assume_le(sz):
                    return []
            else:
                s.null[a.r] = 'nonnull'
        return [s]
    if a.r is b.r:
        d = lsub(a.off, b.off)
        ok = s.assume_eq(d) if eq else s.assume_neq(d)
        return [s] if ok else []
    ks = {a.r.kind, b.r.kind}
    if eq and ks <= {'alloca', 'heap', 'arg'} :
        return []
    return [s]


def block(self, fr, b, s):
    f = fr.f
    bb = f['bbs'][b]
    if bb.get('skip'):
        return [(y, self._enter(fr, b, y, s.copy())) for y in f['succ'][b] if y in f['live']]
    return self._run(fr, b, 0, s)


def _run(self, fr, b, i, s):
    f = fr.f
    ins_list = f['bbs'][b]['i']
    n = len(ins_list)
    while i < n:
        ins = ins_list[i]
        op = ins['op']
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Budget('step budget exceeded in ' + f['dem'])
        if op in ('call', 'invoke'):
            res = self.call(fr, b, ins, s)
            if op == 'invoke':
                if ins['nr'] or ins['to'] not in f['live']:
                    return []
                return [(ins['to'], self._enter(fr, b, ins['to'], x)) for x in res]
            if not res:
                return []
            if len(res) == 1:
                s = res[0]
                i += 1
                continue
            out = []
            env = fr.env
            for x in res:
                fr.env = dict(env)
                out += self._run(fr, b, i + 1, x)
            fr.env = env
            return out
        if op == 'br':
            to = ins['to']
            if 'cond' not in ins:
                return [(to[0], self._enter(fr, b, to[0], s))] if to[0] in f['live'] else []
            c = self.asbool(self.val(s, fr, ins['cond']))
            # IR successor order for conditional br: true, false
            out = []
            hook = getattr(self.rules, 'on_branch', None)
            if hook and self.recording:
                hook(self, s, fr, ins, c)
            for t, truth in ((to[0], True), (to[1], False)):
                if t not in f['live']:
                    continue
                for x in _assume(self, s.copy(), c, truth):
                    out.append((t, self._enter(fr, b, t, x)))
            return out
        if op == 'switch':
            v = self.val(s, fr, ins['cond'])
            if isinstance(v, B):
                v = self.asint(s, v, ('sw', fr.ctx, f['key'], ins['id']))
            out = []
            if isinstance(v, Lin):
                d = s.copy()
                ok = True
                for cv, t in ins['cases']:
                    x = s.copy()
                    if x.assume_eq(Lin(v.c - cv, v.t)):
                        if t in f['live']:
                            out.append((t, self._enter(fr, b, t, x)))
                    ok = ok and d.assume_neq(Lin(v.c - cv, v.t))
                if ok and ins['def'] in f['live']:
                    out.append((ins['def'], self._enter(fr, b, ins['def'], d)))
            else:
                for t in f['succ'][b]:
                    if t in f['live']:
                        out.append((t, self._enter(fr, b, t, s.copy())))
            return out
        if op == 'ret':
            rv = self.val(s, fr, ins['ops'][0]) if ins.get('ops') else None
            return [('ret', (s, rv))]
        if op in ('unreachable', 'resume'):
            return []
        self.simple(fr, b, ins, s)
        i += 1
    return []


def _enter(self, fr, p, b, s):
    """evaluate phi nodes of b on the edge p -> b"""
    bb = fr.f['bbs'][b]
    news = []
    for ins in bb['i']:
        if ins['op'] != 'phi':
            break
        for v, q in ins['in']:
            if q == p:
                news.append((ins, self.val(s, fr, v)))
                break
    if news:
        if not isinstance(s, State):
            return s
        for ins, v in news:
            s.set(fr.regs, ins['id'], v)
            if ins['t'] == 'i1' and isinstance(v, B):
                t = (fr.ctx, fr.f['key'], ('phi', ins['id']), b)
                if v.op in ('true', 'false'):
                    s.tok[t] = v.op
                else:
                    s.tok[t] = '?'
            elif isinstance(v, Ptr) and v.r.kind == 'arg':
                # which of several objects is meant: told apart from here on
                s.tok[(fr.ctx, fr.f['key'], ('phi', ins['id']), b)] = v.r.name
    return s


def setv(self, fr, s, ins, v):
    fr.env[ins['id']] = v
    xu = fr.f.get('xuse')
    if xu is None:
        xu = compute_xuse(fr.f)
    if ins['id'] in xu:
        s.set(fr.regs, ins['id'], v)


def compute_xuse(f):
    where = {}
    use = set()
    for k, b in enumerate(f['bbs']):
        for i in b['i']:
            where[i['id']] = k
    for k, b in enumerate(f['bbs']):
        for i in b['i']:
            vs = list(i.get('ops') or []) + list(i.get('args') or []) + [x[0] for x in i.get('in') or []]
            if 'cond' in i:
                vs.append(i['cond'])
            if 'fv' in i:
                vs.append(i['fv'])
            for x in i.get('var') or []:
                vs.append(x[0])
            for v in vs:
                if v and v[0] == 'i' and (where.get(v[1]) != k or i['op'] == 'phi'):
                    use.add(v[1])
            if i['op'] == 'phi':
                use.add(i['id'])
            if i['op'] == 'invoke':
                use.add(i['id'])
    f['xuse'] = use
    return use


def bits(t):
    return int(t[1:]) if t and t[0] == 'i' and t[1:].isdigit() else 64


def simple(self, fr, b, ins, s):
    op = ins['op']
    f = fr.f
    K = (fr.ctx, f['key'], ins['id'])
    if op == 'phi':
        v = s.get(fr.regs, ins['id'])
        fr.env[ins['id']] = TOP if v is None else v
        return
    if op == 'alloca':
        r = self.region(('al',) + K, 'alloca', ins.get('n') or 'tmp')
        if r.fn is None:
            r.fn = (fr.ctx, f['key'])
            r.line = ins.get('l', 0)
            r.size = Lin(ins['sz']) if 'cnt' not in ins else None
            lv = f['lv'].get(str(ins['id']))
            if lv:
                r.name = lv[0]
                r.dty = lv[1]
                t = lv[1][6:] if lv[1].startswith('const ') else lv[1]
                if not is_ptr(t) and t in self.P.classes:
                    r.cls = t
                r.elem = t[:t.index('[')] if '[' in t else None
            elif 'st' in ins:
                t = ins['st'].split('.', 1)[1] if '.' in ins['st'] else ins['st']
                if t in self.P.classes:
                    r.cls = t
            r.uninit = ins['t'] != 'x' or (r.cls is not None and self.is_repo_class(r.cls))
        s.mem[r] = {}
        self.setv(fr, s, ins, Ptr(r, Lin(0)))
        return
    ops = ins.get('ops') or []
    if op == 'load':
        p = self.val(s, fr, ops[0])
        self.setv(fr, s, ins, self.load(s, fr, ins, p, ins['sz'], ins['t'], K))
        return
    if op == 'store':
        v = self.val(s, fr, ops[0])
        p = self.val(s, fr, ops[1])
        self.store(s, fr, ins, p, v, ins['sz'], ins['t'], b)
        return
    if op == 'gep':
        p = self.val(s, fr, ops[0])
        if not isinstance(p, Ptr) or ins['off'] is None:
            self.setv(fr, s, ins, TOP)
            return
        off = Lin(p.off.c + ins['off'], p.off.t)
        for n, (iv, sc) in enumerate(ins['var']):
            x = self.asint(s, self.val(s, fr, iv), K + ('ix', n), 64)
            off = ladd(off, x, sc)
        self.setv(fr, s, ins, Ptr(p.r, off))
        return
    if op == 'icmp':
        a, c = self.val(s, fr, ops[0]), self.val(s, fr, ops[1])
        pr = ins['pr']
        if isinstance(a, Ptr) or isinstance(c, Ptr):
            if pr in ('eq', 'ne') and isinstance(a, Ptr) and isinstance(c, Ptr):
                v = B('p' + pr, a, c)
                for q, o in ((a, c), (c, a)):
                    if o.r.kind == 'null':
                        n = _isnull(s, q)
                        if n is not None:
                            v = BTRUE if n == (pr == 'eq') else BFALSE
            elif isinstance(a, Ptr) and isinstance(c, Ptr) and a.r is c.r:
                v = B(pr.replace('u', 's'), a.off, c.off, 64)
            else:
                v = TOP
        elif isinstance(a, B) or isinstance(c, B):
            if isinstance(a, B) and isinstance(c, Lin) and c.isconst() and pr in ('eq', 'ne'):
                v = a if (c.c != 0) == (pr == 'eq') else bnot(a)
                if c.c not in (0, 1, -1):
                    v = BFALSE if pr == 'eq' else BTRUE
            else:
                la = self.asint(s, a, K + (0,))
                lc = self.asint(s, c, K + (1,))
                v = B(pr, la, lc, bits(ins['t']))
        elif isinstance(a, Lin) and isinstance(c, Lin):
            v = B(pr, a, c, bits(ins['t']))
            if a.isconst() and c.isconst() and pr in ('eq', 'ne', 'slt', 'sle', 'sgt', 'sge'):
                r = {'eq': a.c == c.c, 'ne': a.c != c.c, 'slt': a.c < c.c, 'sle': a.c <= c.c, 'sgt': a.c > c.c,
                     'sge': a.c >= c.c}[pr]
                v = BTRUE if r else BFALSE
        else:
            v = TOP
            if isinstance(a, Lin) or isinstance(c, Lin):
                la = self.asint(s, a, K + (0,), bits(ins['t']))
                lc = self.asint(s, c, K + (1,), bits(ins['t']))
                v = B(pr, la, lc, bits(ins['t']))
        self.setv(fr, s, ins, v)
        return
    if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
        self.setv(fr, s, ins, self.arith(s, fr, ins, op, self.val(s, fr, ops[0]), self.val(s, fr, ops[1]), K))
        return
    if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'fptosi', 'sitofp', 'uitofp', 'fptoui', 'fpext',
              'fptrunc', 'addrspacecast'):
        v = self.val(s, fr, ops[0])
        self.setv(fr, s, ins, self.cast(s, fr, ins, op, v, K))
        return
    if op == 'select':
        c = self.asbool(self.val(s, fr, ops[0]))
        x, y = self.val(s, fr, ops[1]), self.val(s, fr, ops[2])
        if c == BTRUE:
            v = x
        elif c == BFALSE:
            v = y
        elif x == y:
            v = x
        elif ins['t'] == 'i1' and isinstance(c, B) and isinstance(x, (B,)) and isinstance(y, (B,)):
            if y == BFALSE:
                v = B('and', c, x)
            elif x == BTRUE:
                v = B('or', c, y)
            else:
                v = B('or', B('and', c, x), B('and', bnot(c), y))
        elif isinstance(x, Lin) and isinstance(y, Lin):
            v = self.fresh(s, ('sel',) + K)
            for bound, sg in ((True, 1), (False, -1)):
                pass
            u = max(s.ub(x), s.ub(y))
            l = min(s.lb(x), s.lb(y))
            if u != INF:
                s.assume_le(Lin(-u, v.t))
            if l != -INF:
                s.assume_le(Lin(l, lscale(v, -1).t))
        else:
            v = TOP
        self.setv(fr, s, ins, v)
        return
    if op == 'extractvalue':
        v = self.val(s, fr, ops[0])
        if isinstance(v, tuple) and v[0] == 'agg':
            self.setv(fr, s, ins, v[1][ins['ix']])
        else:
            self.setv(fr, s, ins, TOP)
        return
    if op == 'freeze':
        self.setv(fr, s, ins, self.val(s, fr, ops[0]))
        return
    self.setv(fr, s, ins, TOP)


def cast(self, s, fr, ins, op, v, K):
    if op in ('bitcast', 'addrspacecast'):
        return v
    if op == 'ptrtoint':
        return v if isinstance(v, Ptr) else TOP
    if op == 'inttoptr':
        return v if isinstance(v, Ptr) else TOP
    if op in ('sext', 'zext', 'trunc'):
        fb, tb = bits(ins['ft']), bits(ins['t'])
        if isinstance(v, B):
            if op == 'sext':
                return TOP
            return v
        if not isinstance(v, Lin):
            if tb == 1:
                return TOP
            return v if isinstance(v, Ptr) else TOP
        if op == 'sext':
            lo, hi = -2**(fb - 1), 2**(fb - 1) - 1
            if fb == 1:
                return lscale(v, -1) if v.isconst() else TOP
            # value of unsigned origin that may exceed the signed range
            if len(v.t) == 1 and ATOMS.hi[v.t[0][0]] != INF and ATOMS.hi[v.t[0][0]] > hi and s.ub(v) > hi:
                return self.fresh(s, K + ('sx',), lo, hi)
            return v
        if op == 'zext':
            if s.le(lscale(v, -1)):
                return v
            if v.isconst():
                return Lin(v.c % (1 << fb))
            return self.fresh(s, K + ('zx',), 0, (1 << fb) - 1)
        # trunc
        if tb == 1:
            if v.isconst():
                return BTRUE if v.c & 1 else BFALSE
            if s.ub(v) <= 1 and s.lb(v) >= 0:
                return B('ne', v, Lin(0), 32)
            return TOP
        if v.isconst():
            x = v.c % (1 << tb)
            return Lin(x - (1 << tb) if x >= 1 << (tb - 1) else x)
        u, l = s.ub(v), s.lb(v)
        if l >= -2**(tb - 1) and u <= 2**tb - 1:
            return v
        if self.on_arith and self.recording:
            self.on_arith(self, s, fr, ins, 'trunc', v, None, None)
        return self.fresh(s, K + ('tr',), -2**(tb - 1), 2**tb - 1)
    if op in ('fptosi', 'fptoui'):
        tb = bits(ins['t'])
        return self.fresh(s, K + ('fp',), -2**(tb - 1), 2**tb - 1)
    return TOP


def arith(self, s, fr, ins, op, a, b, K):
    w = bits(ins['t'])
    if w == 1:
        x, y = self.asbool(a), self.asbool(b)
        if op == 'xor':
            if y == BTRUE:
                return bnot(x)
            if x == BTRUE:
                return bnot(y)
            return TOP
        if op in ('and', 'or'):
            z, o = (BFALSE, BTRUE) if op == 'and' else (BTRUE, BFALSE)
            if x == z or y == z:
                return z
            if x == o:
                return y
            if y == o:
                return x
        if op in ('and', 'or') and isinstance(x, B) and isinstance(y, B):
            return B(op, x, y)
        return TOP
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r:
            return lsub(a.off, b.off)
        return self.fresh(s, K + ('pp',))
    a = self.asint(s, a, K + ('A',), w)
    b = self.asint(s, b, K + ('B',), w)
    signed = ins.get('nsw', False)
    if op in ('sdiv', 'udiv', 'srem', 'urem'):
        if self.on_div and self.recording:
            self.on_div(self, s, fr, ins, op, a, b)
    if op in ('shl', 'lshr', 'ashr') and self.on_shift and self.recording:
        self.on_shift(self, s, fr, ins, op, a, b)
    ex = None
    if op in ('add', 'sub'):
        ex = ladd(a, b, 1 if op == 'add' else -1)
    elif op == 'mul':
        if b.isconst():
            ex = lscale(a, b.c)
        elif a.isconst():
            ex = lscale(b, a.c)
        else:
            ex = self.product(s, a, b)
    elif op == 'shl':
        if b.isconst() and 0 <= b.c < w:
            ex = lscale(a, 1 << b.c)
        else:
            if a.isconst() and a.c == 1 and s.lb(b) >= 0 and s.ub(b) < (w - 1):
                v = self.fresh(s, K + ('sh',), 1, 1 << int(s.ub(b)))
                return v
            return self.fresh(s, K + ('sh',), -2**(w - 1), 2**w - 1)
    if ex is not None:
        if ex.isconst():
            if -2**(w - 1) <= ex.c <= 2**(w - 1) - 1:
                return ex
            if self.on_arith and self.recording:
                self.on_arith(self, s, fr, ins, op, ex, signed, w)
            if not signed:
                x = ex.c % (1 << w)
                return Lin(x)
            return ex
        if self.on_arith and self.recording:
            self.on_arith(self, s, fr, ins, op, ex, signed, w)
        if signed:
            if op == 'mul' and not (a.isconst() or b.isconst()):
                # undefined on overflow: stay within the type
                pass
            return ex
        if w == 64:
            return ex
        u, l = s.ub(ex), s.lb(ex)
        if l >= 0 and u <= 2**w - 1 or l >= -2**(w - 1) and u <= 2**(w - 1) - 1:
            return ex
        # unsigned 32-bit wrap-around possible.  "x - 1"-style expressions of a
        # non-negative value stay exact as signed numbers.
        if l >= -2**(w - 1) and u <= 2**w - 1:
            return ex if l >= 0 else self.fresh(s, K + ('wr',), -2**(w - 1), 2**w - 1)
        return self.fresh(s, K + ('wr',), 0, 2**w - 1)
    if op in ('sdiv', 'udiv'):
        if b.isconst() and b.c > 0:
            if b.c == 1:
                return a
            if a.isconst() and a.c >= 0:
                return Lin(a.c // b.c)
            if s.le(lscale(a, -1)):
                return self.divatom(s, a, b.c)
            v = self.fresh(s, K + ('q',))
            u, l = s.ub(a), s.lb(a)
            if u != INF:
                s.assume_le(Lin(-max(0, u // b.c), v.t))
            if l != -INF:
                s.assume_le(Lin(min(0, -((-l) // b.c)), lscale(v, -1).t))
            return v
        v = self.fresh(s, K + ('q',), -2**(w - 1), 2**w - 1)
        if s.lb(a) >= 0 and s.lb(b) >= 1:
            s.assume_le(lscale(v, -1))
            s.assume_le(lsub(v, a))
            u = s.ub(a)
            if s.lb(b) >= 2:
                # v <= a/2
                if u != INF:
                    s.assume_le(Lin(-(u // 2), v.t))
                if s.lb(a) >= 1:
                    s.assume_le(Lin(lsub(v, a).c + 1, lsub(v, a).t))
        elif op == 'sdiv' and s.isneq(b):
            u, l = s.ub(a), s.lb(a)
            m = max(abs(u) if u != INF else INF, abs(l) if l != -INF else INF)
            if m != INF:
                s.assume_le(Lin(-m, v.t))
                s.assume_le(Lin(-m, lscale(v, -1).t))
        return v
    if op in ('srem', 'urem'):
        if a.isconst() and b.isconst() and b.c > 0 and a.c >= 0:
            return Lin(a.c % b.c)
        v = self.fresh(s, K + ('r',))
        apos = s.lb(a) >= 0
        if s.lb(b) >= 1:
            s.assume_le(Lin(lsub(v, b).c + 1, lsub(v, b).t))      # v < b
            if apos or op == 'urem':
                s.assume_le(lscale(v, -1))
                if apos:
                    s.assume_le(lsub(v, a))
            else:
                x = lscale(ladd(v, b), -1)                          # -b < v
                s.assume_le(Lin(x.c + 1, x.t))
        elif apos:
            s.assume_le(lscale(v, -1))
            s.assume_le(lsub(v, a))
        return v
    if op in ('lshr', 'ashr'):
        if b.isconst() and 0 <= b.c < w and s.lb(a) >= 0:
            if a.isconst():
                return Lin(a.c >> b.c)
            return self.divatom(s, a, 1 << b.c)
        if s.lb(a) >= 0:
            v = self.fresh(s, K + ('sr',), 0)
            s.assume_le(lsub(v, a))
            return v
        return self.fresh(s, K + ('sr',), -2**(w - 1), 2**w - 1)
    if op == 'and':
        for x, m in ((a, b), (b, a)):
            if m.isconst() and m.c >= 0:
                if x.isconst():
                    return Lin(x.c & m.c)
                at = ATOMS.get(('andm', x, m.c), 0, m.c, None, ('andm', x, m.c), deps=[q for q, c in x.t])
                v = Lin(0, ((at, 1),))
                s.edge(at, ZERO, m.c)
                s.edge(ZERO, at, 0)
                if s.lb(x) >= 0:
                    s.assume_le(lsub(v, x))
                return v
        v = self.fresh(s, K + ('an',), -2**(w - 1), 2**w - 1)
        for x in (a, b):
            if s.lb(x) >= 0:
                s.assume_le(lscale(v, -1))
                s.assume_le(lsub(v, x))
        return v
    if op in ('or', 'xor'):
        if a.isconst() and b.isconst():
            return Lin(a.c | b.c if op == 'or' else a.c ^ b.c)
        u1, u2 = s.ub(a), s.ub(b)
        if s.lb(a) >= 0 and s.lb(b) >= 0 and u1 != INF and u2 != INF:
            n = max(int(u1), int(u2)).bit_length()
            v = self.fresh(s, K + ('or',), 0, 2**n - 1)
            s.assume_le(Lin(-(2**n - 1), v.t))
            return v
        return self.fresh(s, K + ('or',), -2**(w - 1), 2**w - 1)
    return TOP


def product(self, s, a, b):
    x, y = (a, b) if (a.t, a.c) <= (b.t, b.c) else (b, a)
    key = ('mul', x, y)
    ex = key in ATOMS.by
    at = ATOMS.get(key, -INF, INF, None, ('mul', x, y), deps=[p for p, k in x.t + y.t])
    v = Lin(0, ((at, 1),))
    la, ua, lb_, ub_ = s.lb(x), s.ub(x), s.lb(y), s.ub(y)
    vals = []
    for p in (la, ua):
        for q in (lb_, ub_):
            if p in (INF, -INF) or q in (INF, -INF):
                vals = None
                break
            vals.append(p * q)
        if vals is None:
            break
    if vals:
        s.edge(at, ZERO, max(vals))
        s.edge(ZERO, at, -min(vals))
    elif la >= 0 and lb_ >= 0:
        s.edge(ZERO, at, 0)
    if la >= 0 and lb_ >= 1:
        s.assume_le(lsub(x, v))
    if lb_ >= 0 and la >= 1:
        s.assume_le(lsub(y, v))
    return v


def divatom(self, s, n, k):
    """floor(n/k), n >= 0 known"""
    key = ('div', n, k)
    at = ATOMS.get(key, 0, INF, None, ('div', n, k), deps=[p for p, c in n.t])
    v = Lin(0, ((at, 1),))
    s.edge(ZERO, at, 0)
    u = s.ub(n)
    if u != INF:
        s.edge(at, ZERO, u // k)
    l = s.lb(n)
    if l > 0 and l != -INF:
        s.edge(ZERO, at, -(l // k))
    s.assume_le(lsub(v, n))
    # monotonicity against the other quotients by the same divisor
    others = set(x for x in s.z if ATOMS.kind[x] and ATOMS.kind[x][0] == 'div' and ATOMS.kind[x][2] == k and x != at)
    z0 = s.z.get(ZERO) or {}
    others |= set(x for x in z0 if ATOMS.kind[x] and ATOMS.kind[x][0] == 'div' and ATOMS.kind[x][2] == k and x != at)
    for x in others:
        m = ATOMS.kind[x][1]
        # n - m <= d  =>  n//k - m//k <= ceil(d/k)  (d<0: <= -((-d)//k) when exact steps, else 0)
        for (p, q, pa, qa) in ((n, m, at, x), (m, n, x, at)):
            d = s.ub(lsub(p, q))
            if d != INF and d != -INF:
                s.edge(pa, qa, -((-d) // k))
    return v


# ------------------------------------------------------------------ memory
def access(self, s, fr, ins, p, sz, write):
    """bounds and lifetime obligations of one access.  Returns False if the access is certainly impossible"""
    if not isinstance(p, Ptr):
        return
    r = p.r
    if not self.on_access or not self.recording:
        return
    if r.kind == 'null':
        self.on_access(self, s, fr, ins, 'null', False, p, sz, write)
        return
    if s.null.get(r) == 'null':
        # the pointer is null here; allowed only if unreachable by size facts
        self.on_access(self, s, fr, ins, 'null', False, p, sz, write)
        return
    st = s.st.get(r)
    if st in ('freed', 'maybe'):
        self.on_access(self, s, fr, ins, 'freed', False, p, sz, write)
        return
    if r.kind in ('heap', 'field', 'merge'):
        self.on_access(self, s, fr, ins, 'freed', True, p, sz, write)
    size = self.size_of_region(s, r)
    if size is None:
        return
    if p.off.isconst() and p.off.c == -8 and ins.get('t') == 'i64' and r.elem and r.elem not in RANGES:
        return      # element-count word of new[] / delete[]
    if p.off.isconst() and size.isconst():
        ok = 0 <= p.off.c and p.off.c + sz <= size.c
        if r.kind not in ('alloca', 'arg') or not ok or (r.dty and isinstance(r.dty, str) and '[' in r.dty):
            self.on_access(self, s, fr, ins, 'bounds', ok, p, sz, write)
        return
    lo = s.le(lscale(p.off, -1))
    d = lsub(p.off, size)
    hi = s.le(Lin(d.c + sz, d.t))
    if not (lo and hi):
        lo = lo or self._deep_le(s, lscale(p.off, -1))
        hi = hi or self._deep_le(s, Lin(d.c + sz, d.t))
    self.on_access(self, s, fr, ins, 'bounds', lo and hi, p, sz, write)


def _deep_le(self, s, lin):
    return False


def cellkey(off):
    return off.c if off.isconst() else off


def load(self, s, fr, ins, p, sz, t, K):
    if isinstance(p, Sym) and p in (UNINIT, MAYBE) and self.recording and self.on_uninit:
        self.on_uninit(self, s, fr, ins, None, p)
    if not isinstance(p, Ptr):
        return self.unknown(s, K, t, sz)
    self.access(s, fr, ins, p, sz, False)
    r = p.r
    k = cellkey(p.off)
    v = s.get(r, k)
    if v is None and isinstance(k, Lin):
        # equal offset under another name
        for k2, v2 in (s.mem.get(r) or {}).items():
            if k2 != 'ver' and not (isinstance(k2, int) and False):
                o2 = k2 if isinstance(k2, Lin) else Lin(k2)
                if s.iseq(lsub(p.off, o2)):
                    v = v2
                    break
    if v is None:
        v = self.materialize(s, fr, ins, r, p.off, sz, t, K)
    if isinstance(v, Sym) and v in (UNINIT, MAYBE):
        if self.recording and self.on_uninit:
            self.on_uninit(self, s, fr, ins, p, v)
        v = self.unknown(s, K, t, sz)
        s.set(r, k, v)
        return v
    if t == 'i1' or (t == 'i8' and isinstance(v, B)):
        return v
    if t == 'p' and isinstance(v, Lin):
        return NULLP if v.isconst() and v.c == 0 else TOP
    if t != 'p' and isinstance(v, Ptr):
        return self.unknown(s, K, t, sz)
    if isinstance(v, Lin) and not v.isconst() and t[0] == 'i' and bits(t) < 32:
        pass
    if v is TOP:
        v = self.unknown(s, K, t, sz)
        if r.kind not in ('ext',):
            s.set(r, k, v)
    return v


def unknown(self, s, K, t, sz):
    if t == 'p':
        return TOP
    if t == 'i1':
        return TOP
    if t and t[0] == 'i' and sz < 8:
        return self.fresh(s, K + ('u',), -2**(8 * sz - 1), 2**(8 * sz) - 1)
    if t and t[0] == 'i':
        return self.fresh(s, K + ('u',))
    return TOP


def overwritten(self, s, r, k, v):
    """the owning pointer of an object that existed before is replaced: its block must have been released or turn up elsewhere"""
    w = s.get(r, k)
    if not isinstance(w, Ptr) or w.r.kind != 'field' or w.r.owner != (r, k) or isinstance(v, Ptr) and v.r is w.r or \
            s.st.get(w.r, 'live') != 'live' or s.null.get(w.r) == 'null' or w.r in s.esc:
        return
    for (o, z, dt, path, ow) in self.layout(r.cls):
        if o == k and is_ptr(dt):
            inv = self.cfg.inv(self, ow)
            if inv and inv.owns(path):
                s.st[w.r] = 'lost'
                self.replaced.add(w.r)


def field_at(self, cls, off):
    for (o, s, dt, path, ow) in self.layout(cls):
        if o == off:
            return (dt, path, s)
    return None


def materialize(self, s, fr, ins, r, off, sz, t, K):
    """first read of a cell that nothing has written"""
    k = cellkey(off)
    if r.kind == 'alloca':
        return UNINIT if r.uninit and isinstance(k, int) and not (r.elem) else self.unknown(s, K, t, sz)
    if r.kind == 'global' and r.dty is not None and isinstance(r.dty, dict):
        g = r.dty
        if g['const'] and isinstance(k, int) and 'init' in g:
            for o, z, v in g['init']:
                if o == k and z == sz:
                    if v[0] == 'c':
                        dt = g['ty']
                        x = v[1]
                        return Lin(x) if v[2] != 1 else (BTRUE if x else BFALSE)
                    if v[0] == 'null':
                        return NULLP
                    if v[0] == 'f':
                        return Fn(v[1])
                if o <= k and v[0] == 'zero' and k + sz <= o + z:
                    return NULLP if t == 'p' else Lin(0)
            return self.unknown(s, K, t, sz)
        if not isinstance(k, int):
            return self.unknown(s, K, t, sz)
    ver = (s.mem.get(r) or {}).get('ver')
    elem = r.elem
    if r.kind in ('field', 'heap', 'merge', 'ext', 'arg') and elem and r.cls is None:
        es = self.sizeof(elem)
        if es and self.is_repo_class(elem) if elem in self.P.classes else False:
            fo = off.c % es if all(c % es == 0 for a, c in off.t) else None
            if fo is not None:
                base = Lin(off.c - fo, off.t)
                bk = cellkey(base)
                self.invalidate(s, r, base, es, keep=True)
                self.make_object(s, r, bk, elem, ('el',) + K + (r.key,), '%s[]' % r.name)
                v = s.get(r, k)
                if v is not None:
                    return v
        elif elem in RANGES:
            if isinstance(k, int):
                v = self.scalar(s, ('init', r.key, k, ver), elem, '%s[%s]' % (r.name, k // (es or 1)))
            else:
                v = self.scalar(s, K + ('el',), elem)
            s.set(r, k, v)
            return v
        elif is_ptr(elem) and t == 'p':
            if isinstance(k, int):
                q = self.region(('initp', r.key, k, ver), 'ext', '%s[%d]' % (r.name, k // 8))
            else:
                q = self.region(('elp',) + K, 'ext', '%s[]' % r.name)
                self._forget_region(s, q)
            q.elem = strip_one(elem)
            v = Ptr(q, Lin(0))
            s.set(r, k, v)
            return v
    if isinstance(k, int):
        if t == 'p':
            q = self.region(('initp', r.key, k, ver), 'ext', '%s@%d' % (r.name, k))
            v = Ptr(q, Lin(0))
        elif t == 'i1':
            return TOP
        elif t[0] == 'i':
            lo, hi = (-2**(8 * sz - 1), 2**(8 * sz) - 1) if sz < 8 else (-INF, INF)
            if r.dty and isinstance(r.dty, dict) and r.dty['ty'] in RANGES:
                lo, hi = RANGES[r.dty['ty']]
            v = self.fresh(s, ('init', r.key, k, ver), lo, hi, '%s' % r.name)
        else:
            return TOP
        s.set(r, k, v)
        return v
    v = self.unknown(s, K, t, sz)
    s.set(r, k, v)
    return v


def strip_one(t):
    t = pointee(t)
    return t[6:] if t.startswith('const ') else t


def invalidate(self, s, r, off, sz, keep=False):
    """forget cells of r that a write of sz bytes at off may overlap"""
    m = s.mem.get(r)
    if not m:
        return
    out = None
    for k in list(m):
        if k == 'ver':
            continue
        o = k if isinstance(k, Lin) else Lin(k)
        d = lsub(o, off)      # cell starts d bytes after the write
        v = m[k]
        csz = 8
        if d.isconst():
            if d.c >= sz or d.c <= -csz and True:
                continue
            if d.c < 0:
                # cell begins before the write: cells are at most 8 bytes and naturally aligned
                if d.c <= -4 and sz <= 4 and (o.c - off.c) % 4 == 0 and not isinstance(v, Ptr):
                    continue
        else:
            g = 0
            for a, c in d.t:
                g = _gcd(g, abs(c))
            rem = d.c % g
            # cell at g*k + rem for some k
            if rem >= sz and g - rem >= 4 and not (isinstance(v, Ptr) and g - rem < 8):
                continue
            u, l = s.ub(d), s.lb(d)
            if l >= sz or u <= -8:
                continue
        out = out if out is not None else dict(m)
        del out[k]
    if out is not None:
        s.mem[r] = out


def bumpver(self, s, r, tag):
    m = s.mem.get(r)
    m = dict(m) if m else {}
    m['ver'] = tag
    s.mem[r] = m


def store(self, s, fr, ins, p, v, sz, t, b=None):
    if not isinstance(p, Ptr):
        if self.on_store and self.recording:
            self.on_store(self, s, fr, ins, p, v, sz)
        return
    self.access(s, fr, ins, p, sz, True)
    r = p.r
    if self.on_store and self.recording:
        self.on_store(self, s, fr, ins, p, v, sz)
    k = cellkey(p.off)
    if r.cls and isinstance(k, int):
        self.overwritten(s, r, k, v)
    if r.kind != 'alloca' or r.elem:
        self.invalidate(s, r, p.off, sz)
        if not isinstance(k, int) or r.kind not in ('alloca', 'arg'):
            self.bumpver(s, r, (fr.ctx, fr.f['key'], ins['id']))
    if isinstance(v, Sym) and v in (UNINIT, MAYBE):
        v = TOP
    if v is None:
        v = TOP
    if isinstance(v, tuple):
        v = TOP
    if isinstance(v, Ptr) and v.r.elem is None:
        # learn the element type of raw memory from the type of the cell it is stored in
        dt = None
        if r.dty and isinstance(r.dty, str) and is_ptr(r.dty):
            dt = strip_one(r.dty)
        elif r.cls and isinstance(k, int):
            fa = self.field_at(r.cls, k)
            if fa and is_ptr(fa[0]):
                dt = strip_one(fa[0])
        if dt and v.r.kind in ('heap', 'ext') and dt != 'void':
            v.r.elem = dt
    s.set(r, k, v)
    if r.kind == 'alloca' and isinstance(v, Lin) and v.isconst() and (
            r.name.startswith('cleanup.dest') or (fr.depth > 0 and r.name == 'retval')):
        s.tok[(fr.ctx, fr.f['key'], 'slot', r.key[-1])] = v.c
    elif r.kind == 'alloca' and isinstance(v, B) and fr.depth > 0 and r.name == 'retval':
        if v.op in ('true', 'false'):
            s.tok[(fr.ctx, fr.f['key'], 'slot', r.key[-1])] = v.op
        else:
            s.tok[(fr.ctx, fr.f['key'], 'slot', r.key[-1])] = '?%d' % ins['id']


# ------------------------------------------------------------------ calls
def retval(self, s, fr, ins, v, outs=None):
    if ins['t'] != 'v':
        self.setv(fr, s, ins, v)
    return [s]


def havoc(self, s, fr, ins, p, dt, n):
    """an opaque callee may write through pointer p of declared type dt"""
    if not isinstance(p, Ptr):
        return
    r = p.r
    cls = strip_one(dt) if dt else None
    K = ('hv', fr.ctx, fr.f['key'], ins['id'], n)
    if r.kind == 'null':
        return
    k = cellkey(p.off)
    if cls and (cls in self.P.classes and self.is_repo_class(cls)):
        sz = self.sizeof(cls)
        for (o, z, ddt, path, ow) in self.layout(cls):
            v = s.get(r, _off(k, o))
            if isinstance(v, Ptr) and v.r.kind in ('heap', 'field', 'merge'):
                s.st[v.r] = 'merged'
        self.invalidate(s, r, p.off, sz)
        if r.kind == 'alloca' and r.cls is None and k == 0:
            r.cls = cls
        self.make_object(s, r, k, cls, K, r.name or 'obj')
        if not isinstance(k, int):
            self.bumpver(s, r, K)
        return
    if cls in RANGES and dt.endswith('&'):
        self.invalidate(s, r, p.off, self.sizeof(cls))
        s.set(r, k, self.scalar(s, K, cls, r.name))
        return
    # raw memory: forget everything
    m = s.mem.get(r) or {}
    keep = {}
    s.mem[r] = keep
    if r.kind == 'alloca':
        if r.size is not None and r.size.isconst() and r.size.c <= 8 and not r.elem:
            s.set(r, 0, TOP)
    self.bumpver(s, r, K)
    if r.kind == 'alloca':
        r_un = r.uninit
        r.uninit = False if r.elem or r.cls is None else r.uninit
    if r.kind in ('heap', 'field', 'merge', 'alloca'):
        s.esc = s.esc | {r}


def params(f):
    """[(arg index, DI type)] plus sret index for a function record"""
    dts = f.get('dts') or []
    args = f.get('args') or []
    k = 0
    sret = None
    if args and args[0].get('sret'):
        sret = 0
        k = 1
    out = []
    for j, dt in enumerate(dts[1:]):
        if k + j < len(args):
            out.append((k + j, dt))
    return sret, out


def call(self, fr, b, ins, s):
    f = fr.f
    K = (fr.ctx, f['key'], ins['id'])
    fn = ins.get('fn')
    args = [self.val(s, fr, a) for a in ins['args']]
    if fn is None:
        fv = self.val(s, fr, ins['fv'])
        if isinstance(fv, Fn):
            fn = fv.n
    if fn is None:
        if self.on_call and self.recording:
            self.on_call(self, s, fr, ins, None, args)
        if self.cfg.noreturn_ptr_call(self, fr, ins):
            return []
        for n, a in enumerate(args):
            self.havoc(s, fr, ins, a, None, n)
        self.drop_globals(s)
        return self.retval(s, fr, ins, self.unknown(s, K, ins['t'], ins['sz']))
    if fn.startswith('llvm.'):
        return self.intrinsic(fr, ins, s, fn, args, K)
    if fn in NEW or fn in ('malloc', 'calloc', 'realloc', 'strdup', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t'):
        return self.alloc(fr, b, ins, s, fn, args, K)
    if fn in DEL or fn == 'free':
        self.free(fr, ins, s, fn, args[0])
        return [s]
    if ins.get('nr'):
        return []
    g = self.P.funcs.get(fn)
    if self.on_call and self.recording:
        self.on_call(self, s, fr, ins, fn, args)
    hook = getattr(self.rules, 'model_call', None)
    if hook:
        r = hook(self, s, fr, ins, fn, args)
        if r is not None:
            return r
    if g is not None:
        if not g['live']:
            return []
        self.whole(fr, ins, s, g, args)
        if g['key'] not in self.stack and self.cfg.inline(self, fr, g) and fr.depth < self.cfg.maxdepth:
            self.inlined.add(g['key'])
            aargs = list(args) + [TOP] * (len(g['args']) - len(args))
            for n, a in enumerate(aargs):
                if isinstance(a, Sym) and a in (UNINIT, MAYBE):
                    aargs[n] = TOP
            self.note_this(s, g, args)
            sub = s
            subtok = dict(s.tok)
            res = self.analyze(g, aargs, s.copy(), fr.ctx + (ins['id'],), fr, fr.depth + 1)
            outs = []
            for (st, rv) in res:
                st.tok = dict(subtok)
                if ins['t'] != 'v':
                    if rv is None or isinstance(rv, Sym):
                        rv = self.unknown(st, K, ins['t'], ins['sz'])
                    outs.append((st, rv))
                else:
                    outs.append((st, None))
            # merge states with the same (non-constant) result; keep constants apart
            groups = {}
            for st, rv in outs:
                ck = None
                if isinstance(rv, Lin) and rv.isconst():
                    ck = ('c', rv.c)
                elif isinstance(rv, B) and rv.op in ('true', 'false'):
                    ck = ('c', rv.op)
                elif isinstance(rv, B):
                    ck = ('b', rv)
                else:
                    ck = ('v',)
                groups.setdefault(ck, []).append((st, rv))
            final = []
            multi = len(groups) > 1
            for ck, l in groups.items():
                if len(l) == 1:
                    st, rv = l[0]
                else:
                    st, rv = l[0]
                    for st2, rv2 in l[1:]:
                        if rv is not None:
                            st = st.copy()
                            st2 = st2.copy()
                            st.set(fr.regs, ('rv', ins['id']), rv)
                            st2.set(fr.regs, ('rv', ins['id']), rv2)
                        st = self.join(st, st2, (fr.ctx, f['key'], 'call', ins['id'], ck[0]))
                        if rv is not None:
                            rv = st.get(fr.regs, ('rv', ins['id']))
                            if rv is None or rv in (UNINIT, MAYBE, TOP):
                                rv = self.unknown(st, K, ins['t'], ins['sz'])
                if rv is not None:
                    self.setv(fr, st, ins, rv)
                    st.set(fr.regs, ins['id'], rv)
                if multi:
                    st.tok[(fr.ctx, f['key'], 'ret', b, ins['id'])] = str(ck)
                final.append(st)
            return final
        self.opaque.add(g['key'])
        return self.summary(fr, ins, s, g, args, K)
    d = self.P.decls.get(fn) or {}
    return self.external(fr, ins, s, fn, d, args, K)


def note_this(self, s, g, args):
    if g.get('cls') and args and isinstance(args[0], Ptr) and args[0].r.kind == 'alloca' and args[0].r.cls is None \
            and args[0].off.isconst() and args[0].off.c == 0:
        sret, ps = params(g)
        if sret is None and ps and ps[0][0] == 0 and strip(ps[0][1]) == g['cls'] and self.is_repo_class(g['cls']):
            args[0].r.cls = g['cls']
            args[0].r.uninit = True
    sret, ps = params(g)
    if sret is not None and args and isinstance(args[0], Ptr) and args[0].r.kind == 'alloca' and args[0].r.cls is None:
        c = (g.get('dts') or ['?'])[0]
        if c in self.P.classes and self.is_repo_class(c):
            args[0].r.cls = c
            args[0].r.uninit = True


def drop_globals(self, s):
    for r in list(s.mem):
        if r.kind == 'global' and not r.const:
            v = s.mem.pop(r)
            self.bumpver(s, r, ('g', id(v) % 7, 0))


def whole(self, fr, ins, s, g, args):
    """an element of an array handed to a function of the repository is wholly inside the array"""
    if not self.on_access or not self.recording:
        return
    for n, dt in params(g)[1]:
        a = args[n] if n < len(args) else None
        if isinstance(a, Ptr) and a.r.kind in ('heap', 'field', 'merge') and \
                (dt.endswith('&') or (n == 0 and g.get('cls') and g['args'][n]['n'] == 'this')):
            c = strip(dt)
            if c in self.P.classes and self.is_repo_class(c):
                self.access_len(s, fr, ins, a, Lin(self.sizeof(c)), not is_const_ref(dt))


def summary(self, fr, ins, s, g, args, K):
    """repo function analysed on its own: class-invariant contract"""
    self.opaque.add(g['key'])
    sret, ps = params(g)
    dtor = g.get('sn', '').startswith('~')
    for n, dt in ps:
        if n >= len(args):
            continue
        a = args[n]
        if dtor and n == 0 and isinstance(a, Ptr):
            cls = g['cls']
            for (o, z, ddt, path, ow) in self.layout(cls):
                if is_ptr(ddt):
                    v = s.get(a.r, _off(cellkey(a.off), o))
                    inv = self.cfg.inv(self, ow)
                    if isinstance(v, Ptr) and v.r.kind in ('heap', 'field', 'merge') and inv and inv.owns(path):
                        s.st[v.r] = 'freed'
            continue
        if is_ptr(dt) and not is_const_ref(dt):
            if isinstance(a, Ptr):
                self.forget_strlen(s, a)
            self.havoc(s, fr, ins, a, dt, n)
    if sret is not None and isinstance(args[0], Ptr):
        cls = g['dts'][0]
        r = args[0].r
        k = cellkey(args[0].off)
        if r.kind == 'alloca' and r.cls is None and k == 0 and cls in self.P.classes:
            r.cls = cls
        self.make_object(s, r, k, cls, ('sr',) + K, r.name)
    self.drop_globals(s)
    rdt = (g.get('dts') or ['?'])[0]
    if ins['t'] == 'v':
        return [s]
    if is_ptr(rdt) and not rdt.endswith('&'):
        fn = fresh_alloc(g)
        if fn is not None:
            out = self.alloc(fr, None, ins, s, fn, [TOP], K)
            self.regions[('heap',) + K].elem = strip_one(rdt)
            return out
    return self.retval(s, fr, ins, self.result(s, fr, ins, rdt, K))


def fresh_alloc(g):
    """the allocator of the block a function hands out, if all it returns is blocks it has just allocated and stored
    in local variables only; else None"""
    ins = {i['id']: i for b in g['bbs'] for i in b['i'] if 'id' in i}
    stores = [i for i in ins.values() if i.get('op') == 'store']
    how = set()

    def src(v, seen):
        if v[0] == 'n':
            return True
        i = ins.get(v[1]) if v[0] == 'i' else None
        if i is None:
            return False
        if i.get('op') == 'call' and i.get('fn') in ALLOCS:
            how.add(i['fn'])
            return True
        if i.get('op') == 'load' and i['ops'][0][0] == 'i':
            a = i['ops'][0][1]
            if ins.get(a, {}).get('op') != 'alloca':
                return False
            if a in seen:
                return True
            seen.add(a)
            return all(src(x['ops'][0], seen) for x in stores if x['ops'][1] == ['i', a])
        return False
    seen = set()
    rets = [i for i in ins.values() if i.get('op') == 'ret']
    if not rets or not all(i.get('ops') and src(i['ops'][0], seen) for i in rets) or len(how) != 1:
        return None
    for x in stores:            # kept elsewhere as well?
        v = ins.get(x['ops'][0][1]) if x['ops'][0][0] == 'i' else None
        if v is not None and x['ops'][1][0] == 'i' and ins.get(x['ops'][1][1], {}).get('op') != 'alloca':
            if v.get('op') == 'call' and v.get('fn') in ALLOCS or v.get('op') == 'load' and v['ops'][0][0] == 'i' and v['ops'][0][1] in seen:
                return None
    return how.pop()


ALLOCS = ('_Znam', '_Znwm', 'malloc')


def result(self, s, fr, ins, rdt, K):
    if is_ptr(rdt):
        cls = strip_one(rdt)
        q = self.region(('ret',) + K, 'ext', 'result of call')
        self._forget_region(s, q)
        q.elem = cls
        if cls in self.P.classes and self.is_repo_class(cls):
            q.cls = cls
            self.make_object(s, q, 0, cls, ('ro',) + K, 'result')
            if rdt.endswith('&'):
                s.null[q] = 'nonnull'
        return Ptr(q, Lin(0))
    if rdt in RANGES and ins['t'] != 'i1':
        return self.scalar(s, K + ('rv',), rdt, 'result')
    if ins['t'] == 'i1':
        return B('ne', self.fresh(s, K + ('rv',), 0, 1), Lin(0), 32)
    return self.unknown(s, K, ins['t'], ins['sz'])


PURE = ('strlen', 'strcmp', 'strncmp', 'strchr', 'strrchr', 'strstr', 'atoi', 'isdigit', 'isspace', 'memcmp', 'isalpha', 'toupper',
        'abs', 'popen', 'fopen', 'pclose', 'fclose', 'time', 'getpid', 'clock', 'getenv', 'feof', 'isatty')


STRLEN = ('::length() const', '::size() const', '::empty() const')


def strlen_region(self, p):
    return self.region(('len', p.r, cellkey(p.off)), 'ghost', 'length of ' + p.r.name)


def forget_strlen(self, s, p):
    for x in [x for x in s.mem if x.kind == 'ghost' and x.key[1] is p.r]:
        s.mem.pop(x)


def external(self, fr, ins, s, fn, d, args, K):
    dts = d.get('dts') or []
    dem = d.get('dem') or fn
    base = fn.split('@')[0]
    noeff = base in PURE or base.startswith('__cxa') or ' const' in dem[-6:]
    sret, ps = params(d) if dts else (None, [])
    types = dict(ps)
    if noeff and 'basic_string' in dem and dem.endswith(STRLEN) and len(args) == 1 and isinstance(args[0], Ptr):
        # the length of a string object, as one remembered value until something may change the string
        g = self.strlen_region(args[0])
        v = s.get(g, 0)
        if not isinstance(v, Lin):
            v = self.fresh(s, K + ('len',), 0)
            s.set(g, 0, v)
        return self.retval(s, fr, ins, B('eq', v, Lin(0), 64) if ins['t'] == 'i1' else v)
    for n, a in enumerate(args):
        if not isinstance(a, Ptr):
            continue
        dt = types.get(n)
        if noeff:
            continue
        if dt is None or not is_const_ref(dt):
            self.forget_strlen(s, a)
        if dt is not None and is_const_ref(dt):
            continue
        if dt is None and a.r.kind in ('arg', 'alloca') and a.r.cls and self.is_repo_class(a.r.cls) and not a.off.isconst():
            continue
        if dt is not None and (strip_one(dt) in self.P.classes and not self.is_repo_class(strip_one(dt))):
            # object of a library class: not modelled
            continue
        if dt is None:
            # no type information: use the demangled signature for the standard stream operators
            if base.startswith('_ZNSirsE') or '>>' in dem:
                k = cellkey(a.off)
                cell = s.get(a.r, k)
                if n == 1:
                    t = dem[dem.rfind('(') + 1:dem.rfind(')')].rstrip('&').strip()
                    self.invalidate(s, a.r, a.off, self.sizeof(t) or 8)
                    if t in RANGES:
                        s.set(a.r, k, self.scalar(s, ('in',) + K, t, a.r.name))
                    elif isinstance(k, int):
                        s.set(a.r, k, TOP)
                continue
            if '<<' in dem or dem.startswith('std::'):
                # may write into a caller's scalar passed by address
                if a.r.kind == 'alloca' and a.r.cls is None and not a.r.elem and a.r.uninit:
                    s.set(a.r, cellkey(a.off), TOP)
                continue
        self.havoc(s, fr, ins, a, None, n)
    if not noeff:
        self.drop_globals(s)
    if ins['t'] == 'v':
        return [s]
    if ins['t'] == 'p':
        q = self.region(('ext',) + K, 'ext', base)
        self._forget_region(s, q)
        v = Ptr(q, Lin(0))
        return self.retval(s, fr, ins, v)
    if ins['t'] == 'i1':
        return self.retval(s, fr, ins, B('ne', self.fresh(s, K + ('rv',), 0, 1), Lin(0), 32))
    if base == 'strlen':
        return self.retval(s, fr, ins, self.fresh(s, K + ('rv',), 0))
    return self.retval(s, fr, ins, self.unknown(s, K, ins['t'], ins['sz']))


def intrinsic(self, fr, ins, s, fn, args, K):
    if 'with.overflow' in fn:
        op = 'mul' if 'mul' in fn else 'add' if 'add' in fn else 'sub'
        a, b = args[0], args[1]
        if isinstance(a, Lin) and isinstance(b, Lin):
            if op == 'mul':
                v = lscale(a, b.c) if b.isconst() else lscale(b, a.c) if a.isconst() else self.product(s, a, b)
            else:
                v = ladd(a, b, 1 if op == 'add' else -1)
        else:
            v = self.fresh(s, K + ('wo',), 0)
        fr.env[ins['id']] = ('agg', (v, BFALSE))
        return [s]
    if fn.startswith('llvm.memcpy') or fn.startswith('llvm.memmove'):
        d, c, n = args[0], args[1], args[2]
        if isinstance(d, Ptr):
            if isinstance(n, Lin) and n.isconst():
                self.access(s, fr, ins, d, n.c, True)
                if isinstance(c, Ptr):
                    self.access(s, fr, ins, c, n.c, False)
                cp = self.copy_class(c, d, n.c)
                if cp and isinstance(c, Ptr):
                    vals = []
                    rec, self.recording = self.recording, False
                    for (o, z, dt, path, ow) in self.layout(cp):
                        q = Ptr(c.r, Lin(c.off.c + o, c.off.t))
                        k2 = cellkey(q.off)
                        v = s.get(c.r, k2)
                        if v is None:
                            v = self.load(s, fr, ins, q, z, 'p' if is_ptr(dt) else 'i%d' % (8 * z), K + ('cp', o))
                        vals.append((o, z, v))
                    self.recording = rec
                    self.invalidate(s, d.r, d.off, n.c)
                    for (o, z, v) in vals:
                        s.set(d.r, cellkey(Lin(d.off.c + o, d.off.t)), v)
                    if d.r.kind != 'alloca':
                        self.bumpver(s, d.r, K)
                    return [s]
                self.invalidate(s, d.r, d.off, n.c)
                if isinstance(c, Ptr) and d.off.isconst() and c.off.isconst() and c.r is not d.r:
                    m = s.mem.get(c.r) or {}
                    for k, v in list(m.items()):
                        if isinstance(k, int) and c.off.c <= k < c.off.c + n.c:
                            s.set(d.r, d.off.c + k - c.off.c, v)
                    if d.r.kind == 'alloca' and not m:
                        d.r.uninit = d.r.uninit and False
                if d.r.kind != 'alloca':
                    self.bumpver(s, d.r, K)
            else:
                self.access_len(s, fr, ins, d, n, True)
                if isinstance(c, Ptr):
                    self.access_len(s, fr, ins, c, n, False)
                s.mem[d.r] = {}
                self.bumpver(s, d.r, K)
        return [s]
    if fn.startswith('llvm.memset'):
        d, n = args[0], args[2]
        if isinstance(d, Ptr):
            if isinstance(n, Lin) and n.isconst():
                self.access(s, fr, ins, d, n.c, True)
            else:
                self.access_len(s, fr, ins, d, n, True)
            s.mem[d.r] = {}
            if d.r.kind == 'alloca':
                d.r.uninit = False
            self.bumpver(s, d.r, K)
        return [s]
    if fn.startswith('llvm.trap'):
        return []
    if fn.startswith('llvm.threadlocal.address'):
        fr.env[ins['id']] = args[0]
        return [s]
    if ins['t'] != 'v':
        fr.env[ins['id']] = self.unknown(s, K, ins['t'], ins['sz'])
    return [s]


def copy_class(self, c, d, n):
    """repo class whose object an n-byte memcpy copies (None: unknown)"""
    for p in (c, d):
        if not isinstance(p, Ptr):
            continue
        for cls in (p.r.elem, p.r.cls):
            if not cls:
                continue
            if cls in self.P.classes and self.is_repo_class(cls):
                for (o, sub, path) in self.subobjects(cls):
                    if self.sizeof(sub) == n and all(not x[2].startswith('?') for x in self.layout(sub)):
                        return sub
    return None


def access_len(self, s, fr, ins, p, n, write):
    if not self.on_access or not self.recording or not isinstance(n, Lin):
        return
    r = p.r
    if r.kind == 'null' or s.null.get(r) == 'null':
        return
    if s.st.get(r) in ('freed', 'maybe'):
        self.on_access(self, s, fr, ins, 'freed', False, p, n, write)
        return
    size = self.size_of_region(s, r)
    if size is None:
        return
    ok = s.le(lscale(p.off, -1)) and s.le(lsub(ladd(p.off, n), size))
    self.on_access(self, s, fr, ins, 'bounds', ok, p, n, write)


def alloc(self, fr, b, ins, s, fn, args, K):
    size = None
    if fn in NEW or fn == 'malloc':
        size = args[0] if isinstance(args[0], Lin) else None
    key = ('heap',) + K
    r = self.region(key, 'heap', 'block allocated at line %s' % ins.get('l', '?'))
    r.line = ins.get('l', 0)
    r.fn = f_name(fr)
    r.alloc = 'new[]' if fn == '_Znam' else 'new' if fn == '_Znwm' else 'malloc'
    if r in s.st:
        # allocated again (loop): the earlier block becomes a different region
        q = self.region(('stale',) + key, 'heap', r.name)
        q.line, q.fn, q.alloc, q.elem = r.line, r.fn, r.alloc, r.elem
        refd = False
        for x, m in list(s.mem.items()):
            ch = None
            for o, v in m.items():
                if isinstance(v, Ptr) and v.r is r:
                    ch = ch or dict(m)
                    ch[o] = Ptr(q, v.off)
                    if x.kind != 'regs':
                        refd = True
            if ch:
                s.mem[x] = ch
        if not refd and s.st[r] in ('live', 'lost') and r not in s.esc and self.on_leak and self.recording:
            self.on_leak(self, s, fr, ins, r)
        s.st[q] = s.st[r] if refd else 'merged'
        s.mem[q] = {}
        s.rsz.pop(q, None)
    # array cookie
    cookie = 0
    if fn == '_Znam' and b is not None:
        lst = fr.f['bbs'][b]['i']
        ids = {ins['id']}
        nxt = lst[lst.index(ins) + 1:] if ins in lst else []
        if ins['op'] == 'invoke':
            nxt = fr.f['bbs'][ins['to']]['i']
        if len(nxt) >= 2 and nxt[0]['op'] == 'store' and nxt[0]['t'] == 'i64' and nxt[0]['ops'][1] == ['i', ins['id']] \
                and nxt[1]['op'] == 'gep' and nxt[1]['ops'][0] == ['i', ins['id']]:
            cookie = nxt[1]['off'] or 0
    s.mem[r] = {}
    s.st[r] = 'live'
    s.null.pop(r, None)
    if size is not None:
        s.rsz[r] = Lin(size.c - cookie, size.t)
    else:
        s.rsz.pop(r, None)
    s.esc = s.esc - {r}
    if fn == 'realloc' and isinstance(args[0], Ptr):
        s.st[args[0].r] = 'freed' if args[0].r.kind == 'heap' else s.st.get(args[0].r, 'merged')
    return self.retval(s, fr, ins, Ptr(r, Lin(-cookie)))


def f_name(fr):
    return fr.f['dem']


def free(self, fr, ins, s, fn, p):
    if not isinstance(p, Ptr):
        return
    r = p.r
    if r.kind == 'null' or s.null.get(r) == 'null':
        return
    st = s.st.get(r, 'live')
    ok = st not in ('freed', 'maybe')
    why = 'double free' if not ok else ''
    if r.kind in ('alloca', 'global'):
        ok = False
        why = 'free of memory that was not allocated'
    if ok and r.kind in ('heap', 'field', 'merge') and not (p.off.isconst() and p.off.c in (0, -8, -16)):
        ok = False
        why = 'free of an interior pointer'
    if ok and r.alloc:
        want = {'new[]': ('_ZdaPv', '_ZdaPvm'), 'new': ('_ZdlPv', '_ZdlPvm'), 'malloc': ('free',)}[r.alloc]
        if fn not in want:
            ok = False
            why = 'memory from %s released with %s' % (r.alloc, fn)
    if self.on_free and self.recording:
        self.on_free(self, s, fr, ins, r, ok, why)
    s.st[r] = 'freed'
    s.mem[r] = {}


for _n in ('block', '_run', '_enter', 'setv', 'simple', 'cast', 'arith', 'product', 'divatom', 'access', '_deep_le', 'load', 'unknown',
           'field_at', 'overwritten', 'materialize', 'invalidate', 'bumpver', 'store', 'retval', 'havoc', 'call', 'note_this', 'drop_globals',
           'strlen_region', 'forget_strlen', 'summary', 'whole', 'result', 'external', 'intrinsic', 'copy_class', 'access_len', 'alloc', 'free'):
    setattr(Interp, _n, globals()[_n])
