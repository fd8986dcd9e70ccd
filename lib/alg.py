"""Algebraic value numbering of composite operations.

A forward dataflow analysis over the same IR as absint.py, in a Herbrand domain with a commutative-ring normal form:
the operations of a component class (the polynomials inside a residue class, the numerator and denominator of a
fraction, the elements of a vector) are taken as algebraic operations on opaque values, everything else as
uninterpreted functions of its arguments.  Loop heads give every value that changes a name of its own; a bounded number
of states is kept apart per block, distinguished by the branch conditions that led there.  What is decided about an
operation is the normal form of the values it leaves behind, under the conditions known at each normal return."""
import re
from absint import params, strip, is_ptr, is_const_ref, SIZES, bits

MAXSTATES = 48
MAXSTEPS = 60000


LIMIT = re.compile(r'_ZNSt14numeric_limitsI([ilx])E3(min|max)Ev$')


class Undecided(Exception):
    pass


# ------------------------------------------------------------------ terms
class Table:
    def __init__(self):
        self.ids = {}
        self.keys = []

    def atom(self, key):
        i = self.ids.get(key)
        if i is None:
            i = self.ids[key] = len(self.keys)
            self.keys.append(key)
        return i


T = Table()


def reset():
    T.__init__()


def const(n):
    return ('P', (((), n),)) if n else ('P', ())


def A(*key):
    return ('P', (((T.atom(key),), 1),))


def isp(v):
    return isinstance(v, tuple) and len(v) == 2 and v[0] == 'P'


def isconst(v):
    return isp(v) and (not v[1] or (len(v[1]) == 1 and v[1][0][0] == ()))


def cval(v):
    return v[1][0][1] if v[1] else 0


def mk(d):
    return ('P', tuple(sorted((m, c) for m, c in d.items() if c)))


def add(a, b, k=1, ch=0):
    d = dict(a[1])
    for m, c in b[1]:
        d[m] = d.get(m, 0) + k * c
    if ch:
        d = {m: c % ch for m, c in d.items()}
    return mk(d)


def mul(a, b, ch=0):
    d = {}
    for m, c in a[1]:
        for n, e in b[1]:
            x = tuple(sorted(m + n))
            d[x] = d.get(x, 0) + c * e
    if ch:
        d = {m: c % ch for m, c in d.items()}
    return mk(d)


def modch(a, ch):
    return mk({m: c % ch for m, c in a[1]}) if ch else a


def neg(a, ch=0):
    return add(const(0), a, -1, ch)


def single(a):
    """the atom id when a is exactly one atom"""
    if isp(a) and len(a[1]) == 1 and a[1][0][1] == 1 and len(a[1][0][0]) == 1:
        return a[1][0][0][0]
    return None


def key_of(a):
    i = single(a)
    return T.keys[i] if i is not None else None


def reduce_mod(a, m, ch=0, ops=('REM', 'CREM', 'MODM')):
    """normal form of a modulo m: remainders by m and multiples of m dropped"""
    for _ in range(12):
        changed = False
        out = {}
        for mono, c in a[1]:
            hit = None
            for k, i in enumerate(mono):
                key = T.keys[i]
                if key[0] in ops and key[2] == m:
                    hit = (k, key[1])
                    break
            if hit is None:
                out[mono] = out.get(mono, 0) + c
                continue
            changed = True
            rest = ('P', ((tuple(x for j, x in enumerate(mono) if j != hit[0]), c),))
            for n, e in mul(rest, hit[1], ch)[1]:
                out[n] = out.get(n, 0) + e
        a = mk(out)
        if ch:
            a = modch(a, ch)
        if not changed:
            break
    # m itself (a single atom or a constant)
    i = single(m)
    if i is not None:
        a = mk({mono: c for mono, c in a[1] if i not in mono})
    elif isconst(m) and cval(m):
        a = modch(a, abs(cval(m)))
    elif m[1]:
        lead = m[1][-1]
        if abs(lead[1]) == 1:
            for _ in range(8):
                d = dict(a[1])
                if lead[0] in d:
                    a = add(a, m, -d[lead[0]] * lead[1], ch)
                else:
                    break
    return a


def rem(a, m, ch=0):
    return A('REM', reduce_mod(a, m, ch), m)


def subst(v, f):
    """rewrite atoms bottom-up with f(key) -> value or None"""
    memo = {}

    def go(x):
        if isp(x):
            if x in memo:
                return memo[x]
            r = const(0)
            for mono, c in x[1]:
                t = const(c)
                for i in mono:
                    t = mul(t, atom(i))
                r = add(r, t)
            memo[x] = r
            return r
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x
    am = {}

    def atom(i):
        if i in am:
            return am[i]
        key = T.keys[i]
        key2 = tuple(go(y) if isinstance(y, tuple) else y for y in key)
        r = f(key2)
        if r is None:
            r = A(*key2) if key2 != key else ('P', (((i,), 1),))
            if key2[0] == 'REM' and key2 != key:
                r = rem(key2[1], key2[2])
        am[i] = r
        return r
    return go(v)


def atoms_in(v, out=None):
    if out is None:
        out = set()
    if isp(v):
        for mono, c in v[1]:
            for i in mono:
                if i not in out:
                    out.add(i)
                    for y in T.keys[i]:
                        if isinstance(y, tuple):
                            atoms_in(y, out)
    elif isinstance(v, tuple):
        for y in v:
            if isinstance(y, tuple):
                atoms_in(y, out)
    return out


def vague(v):
    """does the value depend on something the analysis lost track of?"""
    return v is None or any(T.keys[i][0] in ('PHI', 'TOP') or T.keys[i][0] == 'SEL' and lostbase(T.keys[i][1]) for i in atoms_in(v))


def lostbase(b):
    if b[0] in ('phi', 'unk'):
        return True
    return b[0] in ('map', 'over', 'acc', 'last')


def show(v, depth=0):
    if v is None:
        return '?'
    if isp(v):
        if not v[1]:
            return '0'
        l = []
        for mono, c in v[1]:
            s = '*'.join(show_atom(i, depth) for i in mono)
            if not s:
                s = str(c)
            elif c == -1:
                s = '-' + s
            elif c != 1:
                s = '%d*%s' % (c, s)
            l.append(s)
        r = ' + '.join(l).replace('+ -', '- ')
        return r
    if isinstance(v, tuple) and v and v[0] == 'ptr':
        return '&' + str(v[1])
    if isinstance(v, tuple):
        return '(' + ', '.join(show(x, depth + 1) if isinstance(x, tuple) else str(x) for x in v) + ')'
    return str(v)


def show_atom(i, depth=0):
    key = T.keys[i]
    if key[0] == 'init':
        return key[3] if len(key) > 3 else str(key[1:])
    if key[0] in ('PHI', 'TOP'):
        return '<%s>' % key[0].lower()
    if depth > 4:
        return key[0] + '(..)'
    return '%s(%s)' % (key[0], ', '.join(show(x, depth + 1) if isinstance(x, tuple) else str(x) for x in key[1:]))


# ------------------------------------------------------------------ conditions
TRUE, FALSE = ('b', 'true'), ('b', 'false')


def isb(v):
    return isinstance(v, tuple) and v and v[0] == 'b'


def bnot(c):
    if c == TRUE:
        return FALSE
    if c == FALSE:
        return TRUE
    if c[1] == 'not':
        return c[2]
    return ('b', 'not', c)


def eq(a, b, ch=0):
    """canonical equality condition of two values"""
    if a == b:
        return TRUE
    if isp(a) and isp(b):
        d = modch(add(a, b, -1), ch)
        if not d[1]:
            return TRUE
        if isconst(d) and not ch:
            return FALSE
        if d[1][0][1] < 0 and not ch:
            d = neg(d)
        return ('b', 'zero', d)
    x, y = (a, b) if repr(a) <= repr(b) else (b, a)
    return ('b', 'eq', x, y)


def lt(a, b):
    if isconst(a) and isconst(b):
        return TRUE if cval(a) < cval(b) else FALSE
    if a == b:
        return FALSE
    return ('b', 'lt', a, b)


# ------------------------------------------------------------------ states
class St:
    __slots__ = ('mem', 'arr', 'facts', 'log', 'weak')

    def __init__(self):
        self.mem = {}
        self.arr = {}
        self.facts = {}
        self.log = ()
        self.weak = 0           # conditions were dropped when states were put together: 1 at a join, 2 at a loop head

    def copy(self):
        s = St()
        s.mem = dict(self.mem)
        s.arr = {k: (b, dict(d)) for k, (b, d) in self.arr.items()}
        s.facts = dict(self.facts)
        s.log = self.log
        s.weak = self.weak
        return s

    def sig(self):
        return (tuple(sorted(self.mem.items(), key=repr)), tuple(sorted(self.facts.items(), key=repr)),
                tuple(sorted(((k, b, tuple(sorted(d.items(), key=repr))) for k, (b, d) in self.arr.items()), key=repr)))


FIELDLIKE = re.compile(r'(intmod_t|bit_t|f2n?_polymod_t|fpn?_polymod_t|intrat_t|polyrat_t)$')
CHAR2 = re.compile(r'\b(bit_t|f2_poly_t|f2_polymod_t|f2n_poly_t|f2n_polymod_t|f2_polyrat_t|f2n_polyrat_t)$')
RING = re.compile(r'\b(bit_t|intmod_t|intrat_t|\w+_poly_t|\w+_polymod_t|\w+_polyrat_t)$')
LINEAR = re.compile(r'\b(bit_vector_t|bit_matrix_t|tvector<.*>|tmatrix<.*>)$')
ORDER = {'operator<': 0, 'operator>': 1, 'operator<=': 2, 'operator>=': 3}


class Alg:
    keep = None         # where to record what every loop enters with and goes round with

    def __init__(self, P, cfg, opened, layout, isrepo, noinline=()):
        self.P = P
        self.cfg = cfg
        self.opened = set(opened)
        self.layout = layout
        self.isrepo = isrepo
        self.noinline = noinline
        self.steps = 0
        self.stores = []        # (state facts, region, offset, value, function, line)
        self.rets = []
        self.uniq = 0
        self.summ = {}
        self.rounds = False         # leave loops as recurrences
        self.counter = {}
        self.deps = set()
        self.recording = True

    # ---- helpers
    def char(self, c):
        return 2 if c and CHAR2.search(c) else 0

    def top(self, *why):
        self.uniq += 1
        return A('TOP', self.uniq)

    rawrows = False

    def lengths(self, cls):
        return [f['dem'].replace(' const', '') for f in self.P.funcs.values() if f.get('cls') == cls and f['sn'] == 'get_num_elements']

    def prim(self, c):
        return c is not None and self.isrepo(c) and c not in self.opened

    def init(self, reg, off):
        """value of a cell nobody has written"""
        k = reg[0]
        if k in ('arg', 'pt', 'glob'):
            info = reg[-1]
            dt = None
            path = None
            if k == 'arg':
                for (o, sz, d, p, ow) in self.flat(reg[2]):
                    if o == off:
                        dt, path = d, p
            if dt is not None and is_ptr(dt):
                return ('ptr', ('pt', reg, off, strip1(dt)), const(0))
            if k == 'pt':
                return A('SEL', ('base', reg), const(off))
            nm = reg[1] if k == 'arg' else regname(reg)
            return A('init', reg, off, nm + ('.' + path if path else ('[%s]' % off if k != 'arg' else '')))
        return None

    def flat(self, cls):
        """cells of an object: opened classes by member, anything else one cell"""
        out = []
        if cls in self.opened:
            for m in self.P.classes[cls]['m']:
                t = m['t'][6:] if m['t'].startswith('const ') else m['t']
                if t in self.opened:
                    for (o, s, d, p, ow) in self.flat(t):
                        out.append((o + m['o'], s, d, m['n'] + '.' + p, ow))
                else:
                    out.append((m['o'], m['s'], t, m['n'], cls))
        else:
            out.append((0, 0, cls, '', cls))
        return out

    def get(self, s, reg, off):
        if ('vec', reg) in s.arr and not self.rawrows:
            return self.rowval(s, reg, off)
        if isconst(off):
            o = cval(off)
            v = s.mem.get((reg, o))
            if v is not None:
                return v
            if reg in s.arr:
                return self.arr_get(s, reg, off)
            return self.init(reg, o)
        return self.arr_get(s, reg, off)

    def arr_get(self, s, reg, off):
        base, d = s.arr.get(reg, (('base', reg), {}))
        v = d.get(off)
        if v is not None:
            return v
        for o in d:
            x = add(o, off, -1)
            if not isconst(x) and not self.apart(s, x):
                return None
        if base[0] == 'over':
            return self.readarr(s, base[1], dict(base[2]), off, reg)
        if base[0] == 'map':
            left = []
            e = self.solve(base[3], off, base[5], left)
            if e is None and left and self.apart(s, left[0]):
                return self.readarr(s, base[1], dict(base[2]), off, reg)
            if e is not None:
                k = [self.inrange(s, e[dd], N) for dd, N in base[5]]
                if all(x is True for x in k):
                    return subst(base[4], lambda key: e.get(key[1]) if key[0] == 'IDX' and key[1] in e else None)
                if any(x is False for x in k):
                    return self.readarr(s, base[1], dict(base[2]), off, reg)
            elif isconst(off) or len(base[5]) == 1:
                # a position the pattern cannot hit (a header in front of the elements)
                t = self.miss(base, off)
                if t:
                    return self.readarr(s, base[1], dict(base[2]), off, reg)
        if reg[0] == 'vec' and base == ('base', reg):
            return self.rowelem(s, reg, off)
        if reg[0] in ('pt', 'arg', 'glob') or base[0] != 'base':
            return A('SEL', base, off)
        return None

    # elements of component vectors: the element memory of the vector at (reg, off) lies over its value
    def elemptr(self, ptr, idx):
        return ('ptr', ('vec', ptr[1]), add(add(mul(WIDTH(), ptr[2]), HEAD()), mul(const(8), idx)))

    def rowval(self, s, reg, off):
        """the value of a row that has been written element by element: ROW(what it was, where it stood, the element memory)"""
        b, cells = s.arr[('vec', reg)]
        if b[0] == 'unk':
            return self.top()
        raw, self.rawrows = self.rawrows, True
        try:
            was = self.get(s, reg, off)
        finally:
            self.rawrows = raw
        if was is None or not isp(was):
            return self.top()
        return A('ROW', was, reg, off, b, tuple(sorted(cells.items(), key=repr)))

    def resolve(self, s, v):
        """elements of rows that were written element by element"""
        def f(key):
            if key[0] == 'ELEM' and isp(key[1]):
                i = single(key[1])
                k = T.keys[i] if i is not None else None
                if k and k[0] == 'ROW':
                    t = s.copy()
                    for m in [m for m in t.mem if m[0] == k[2]]:
                        del t.mem[m]
                    self.uniq += 1
                    t.arr[k[2]] = (('unk', self.uniq), {k[3]: k[1]})
                    t.arr[('vec', k[2])] = (k[4], dict(k[5]))
                    raw, self.rawrows = self.rawrows, True
                    try:
                        r = self.arr_get(t, ('vec', k[2]), self.elemptr(('ptr', k[2], k[3]), key[2])[2])
                    finally:
                        self.rawrows = raw
                    if r is not None and isp(r):
                        return self.resolve(s, r)
            return None
        return subst(v, f)

    def rowelem(self, s, reg, off):
        w, h = single(WIDTH()), single(HEAD())
        row, rest = {}, {}
        for mono, c in off[1]:
            if w in mono:
                m = list(mono)
                m.remove(w)
                row[tuple(m)] = c
            elif mono == (h,):
                continue
            elif c % 8:
                return None
            else:
                rest[mono] = c // 8
        raw, self.rawrows = self.rawrows, True
        try:
            v = self.get(s, reg[1], mk(row))
        finally:
            self.rawrows = raw
        if v is None or not isp(v):
            return None
        return elem(v, mk(rest))

    def apart(self, s, d):
        """is the distance d between two positions known not to be zero?"""
        k = 0
        for m, c in d[1]:
            k = gcdint(k, abs(c))
        if not k:
            return False
        d = mk({m: c // k for m, c in d[1]})
        for c, t in s.facts.items():
            if c[1] == 'zero' and not t and (c[2] == d or neg(c[2]) == d):
                return True
            if c[1] == 'lt' and t and isp(c[2]) and isp(c[3]) and add(c[3], c[2], -1) in (d, neg(d)):
                return True
        return False

    def miss(self, base, off):
        return isconst(off)

    def put(self, s, reg, off, v):
        if ('vec', reg) in s.arr:
            self.uniq += 1
            s.arr[('vec', reg)] = (('unk', self.uniq), {})
        if isconst(off) and reg not in s.arr and reg[0] in ('al', 'arg', 'res'):
            s.mem[(reg, cval(off))] = v
            return
        base, d = s.arr.get(reg, (('base', reg), {}))
        if all(isconst(add(o, off, -1)) for o in d):
            d = dict(d)
        else:       # what the earlier cells hold depends on where this one lands
            base, d = ('over', base, tuple(sorted(d.items(), key=repr))), {}
        d[off] = v
        s.arr[reg] = (base, d)

    def forget(self, s, reg):
        for k in [k for k in s.mem if k[0] == reg]:
            s.mem[k] = self.top()
        if reg[0] in ('arg', 'al', 'res'):
            cls = reg[2] if reg[0] == 'arg' else None
            for (o, sz, d, p, ow) in (self.flat(cls) if cls else []):
                s.mem[(reg, o)] = self.top()
        self.uniq += 1
        s.arr[reg] = (('unk', self.uniq), {})
        if ('vec', reg) in s.arr:
            s.arr[('vec', reg)] = (('unk', self.uniq), {})

    blind = False       # something was written where no object is known

    def objval(self, s, ptr, cls):
        """value of the object at ptr"""
        if not (isinstance(ptr, tuple) and ptr and ptr[0] == 'ptr'):
            return None
        if cls in self.opened:
            l = []
            for (o, sz, d, p, ow) in self.flat(cls):
                v = self.get(s, ptr[1], add(ptr[2], const(o)))
                l.append(v)
            if any(x is None for x in l):
                return None
            return ('obj',) + tuple(l)
        return self.get(s, ptr[1], ptr[2])

    def setobj(self, s, ptr, cls, v):
        if not (isinstance(ptr, tuple) and ptr and ptr[0] == 'ptr'):
            self.blind = True
            return
        if cls in self.opened:
            fl = self.flat(cls)
            for n, (o, sz, d, p, ow) in enumerate(fl):
                x = v[n + 1] if isinstance(v, tuple) and v and v[0] == 'obj' else (
                    A('FIELD', v, p) if v is not None else self.top())
                self.write(s, ptr[1], add(ptr[2], const(o)), x)
        else:
            self.write(s, ptr[1], ptr[2], v if v is not None else self.top())

    def write(self, s, reg, off, v):
        self.put(s, reg, off, v)
        if self.cur and self.recording and reg[0] != 'al':
            self.stores.append((dict(s.facts), reg, off, v, self.cur[0], self.cur[1]))

    # ---- functions
    def run(self, f, args, s, ctx=(), depth=0):
        """[(state, return value)]"""
        if depth > 9:
            raise Undecided('call depth')
        bbs = f['bbs']
        heads = {}
        rpo = f['rpo']
        reach = f['live']
        if 0 not in reach:
            return []
        fr = Fr()
        fr.f, fr.args, fr.ctx, fr.depth, fr.alg = f, args, ctx, depth, self
        summ = {}
        left = {}
        for h, body in f['loops'].items():
            for x in body:
                left.setdefault(x, []).append(h)
        for x in left:
            left[x].sort(key=lambda h: len(f['loops'][h]))
        narrowed = False
        for phase in range(40):
            stable = True
            ein, eback = {}, {}
            rets = []
            work = {0: [(s, {}, None)]}
            done = set()
            pend = [0]
            rec = self.recording
            nst = len(self.stores)
            while pend:
                pend.sort(key=lambda b: rpo.get(b, 0))
                b = pend.pop(0)
                ins = work.pop(b, [])
                if b in f['heads']:
                    if b in done:
                        continue
                    done.add(b)
                    # join everything that enters, one version of the head per shape of memory
                    groups = {}
                    for st, env, pred in ins:
                        st, env = self.phis(fr, st, env, b, pred)
                        sg = self.shape(st)
                        if len({k[1] for k in heads if k[0] == b} | {sg}) > 6:
                            sg = None
                        ein.setdefault((b, sg), []).append((st, env))
                        h = heads.get((b, sg))
                        if h is None:
                            h = (st.copy(), dict(env))
                        else:
                            h2 = self.join(h, (st, env), (ctx, f['key'], b, sg))
                            h2[0].weak = h[0].weak | st.weak | 2 * (len(h2[0].facts) < min(len(h[0].facts), len(st.facts)))
                            if not self.same(h2, h):
                                stable = False
                            h = h2
                        heads[(b, sg)] = h
                        groups[sg] = h
                    ins = []
                    for sg, h in groups.items():
                        st = h[0].copy()
                        st.log = tuple(x for x in st.log if x[0] != (ctx, f['key'], b)) + (((ctx, f['key'], b), sg),)
                        ins.append((st, dict(h[1]), None))
                elif len(ins) > 1:
                    ins = self.dedupe(ins, bbs[b])
                    if len(ins) > MAXSTATES:
                        raise Undecided('too many states in %s' % f['dem'])
                for st, env, pred in ins:
                    for (st2, env2, succ, rv) in self.block(fr, b, st.copy(), dict(env), pred):
                        if succ is None:
                            rets.append((st2, rv))
                            continue
                        if succ not in reach:
                            continue
                        if (b, succ) in f['back']:
                            st3, env3 = self.phis(fr, st2, env2, succ, b)
                            sg = dict(st3.log).get((ctx, f['key'], succ))
                            hk = (succ, sg)
                            if hk not in heads:
                                raise Undecided('irreducible loop')
                            eback.setdefault(hk, []).append((st3, env3))
                            h = heads[hk]
                            h2 = self.join(h, (st3, env3), (ctx, f['key'], succ, sg))
                            h2[0].weak = h[0].weak
                            if not self.same(h2, h):
                                heads[hk] = h2
                                stable = False
                            continue
                        for h in left.get(b, ()):
                            hk = (h, dict(st2.log).get((ctx, f['key'], h)))
                            if succ not in f['loops'][h] and hk in summ and not self.rounds:
                                st2, env2 = self.leave(summ[hk], st2, env2)
                        work.setdefault(succ, []).append((st2, env2, b))
                        if succ not in pend:
                            pend.append(succ)
            if stable:
                new = {h: self.closed((ctx, f['key']) + h, heads[h], ein.get(h, []), eback.get(h, [])) for h in heads}
                new = {h: x for h, x in new.items() if x}
                if notops(new) == notops(summ):
                    if not narrowed:
                        # conditions that held at every entry were lost while the loops around were still unknown: try them again
                        narrowed = True
                        more = False
                        for h in heads:
                            l = [e[0].facts for e in ein.get(h, [])]
                            both = {c: t for c, t in l[0].items() if all(f.get(c) == t for f in l[1:])} if l else {}
                            if any(c not in heads[h][0].facts for c in both):
                                st = heads[h][0].copy()
                                st.facts.update(both)
                                heads[h] = (st, heads[h][1])
                                more = True
                        if more:
                            del self.stores[nst:]
                            continue
                    if heads and self.keep is not None:
                        for h in heads:
                            self.keep[(ctx, f['key']) + h] = (heads[h], ein.get(h, []), eback.get(h, []))
                    return rets
                summ = new
            del self.stores[nst:]
        raise Undecided('no fixpoint in %s' % f['dem'])

    def phis(self, fr, st, env, b, pred):
        bb = fr.f['bbs'][b]
        if not bb['i'] or bb['i'][0]['op'] != 'phi' or pred is None:
            return st, env
        new = {}
        for i in bb['i']:
            if i['op'] != 'phi':
                break
            for v, q in i['in']:
                if q == pred:
                    new[i['id']] = self.val(fr, env, v)
        env = dict(env)
        env.update(new)
        return st, env

    def dedupe(self, ins, bb):
        out = []
        seen = set()
        for st, env, pred in ins:
            k = (st.sig(), tuple(sorted(env.items(), key=repr)), pred if bb['i'] and bb['i'][0]['op'] == 'phi' else 0)
            if k in seen:
                continue
            seen.add(k)
            out.append((st, env, pred))
        if len(out) > 12:
            # the same memory under different conditions: keep the common conditions
            grp = {}
            for st, env, pred in out:
                k = (tuple(sorted(st.mem.items(), key=repr)), tuple(sorted(env.items(), key=repr)), pred,
                     tuple(sorted(((k, b, tuple(sorted(d.items(), key=repr))) for k, (b, d) in st.arr.items()), key=repr)))
                if k in grp:
                    g = grp[k][0]
                    both = {c: t for c, t in g.facts.items() if st.facts.get(c) == t}
                    g.weak |= st.weak | (len(both) < min(len(g.facts), len(st.facts)))
                    g.facts = both
                else:
                    grp[k] = (st.copy(), env, pred)
            out = list(grp.values())
        return out

    def same(self, a, b):
        return a[0].mem == b[0].mem and a[0].facts == b[0].facts and a[0].arr == b[0].arr and a[1] == b[1]

    def join(self, a, b, K):
        A_, ea = a
        B_, eb = b
        r = St()
        for k in set(A_.mem) | set(B_.mem):
            va = A_.mem.get(k)
            vb = B_.mem.get(k)
            if va is None:
                va = self.init(*k)
            if vb is None:
                vb = self.init(*k)
            if va == vb and va is not None:
                r.mem[k] = va
            elif va is None or vb is None:
                # written on one side only: a local that is dead at the head, or unknown
                r.mem[k] = A('PHI', K, k)
            else:
                r.mem[k] = A('PHI', K, k)
        for k in set(A_.arr) | set(B_.arr):
            ba, da = A_.arr.get(k, (('base', k), {}))
            bb, db = B_.arr.get(k, (('base', k), {}))
            if (ba, da) == (bb, db):
                r.arr[k] = (ba, dict(da))
            else:
                r.arr[k] = (('phi', K, k), {})
        for c, t in A_.facts.items():
            if B_.facts.get(c) == t:
                r.facts[c] = t
        env = {}
        for k in set(ea) & set(eb):
            env[k] = ea[k] if ea[k] == eb[k] else A('PHI', K, ('r', k))
        r.log = A_.log
        return r, env

    # ---- loops
    def shape(self, st):
        """which regions the pointer cells of the operands hold"""
        return tuple(sorted(((k[0][:2], k[1], v[1][:2]) for k, v in st.mem.items() if isptr(v) and k[0][0] in ('arg', 'res', 'al')), key=repr))

    def closed(self, K, H, ins, backs):
        """what a loop does to every value it changes, as a function of the iteration"""
        if not ins or not backs:
            return None
        hst, henv = H

        def look(e, kind, k):
            st, env = e
            if kind == 'r':
                return env.get(k)
            v = st.mem.get(k)
            return v if v is not None else self.init(*k)
        var = []
        for k, v in henv.items():
            if v == A('PHI', K, ('r', k)):
                var.append(('r', k, v))
        for k, v in hst.mem.items():
            if v == A('PHI', K, k):
                var.append(('m', k, v))
        cnt, acc = [], []
        for kind, k, v in var:
            i0 = {look(e, kind, k) for e in ins}
            b = {look(e, kind, k) for e in backs}
            if len(i0) == 1 and len(b) > 1 and all(x is not None and isp(x) for x in b):
                d = [(e[0].facts, add(look(e, kind, k), v, -1)) for e in backs]
                if any(single(v) in atoms_in((tuple(f), x)) for f, x in d):
                    continue
                t = bycond(d, hst.facts)
                if t is not None and isp(next(iter(i0))):
                    acc.append((single(v), i0.pop(), t))
                continue
            if len(i0) != 1 or len(b) != 1:
                continue
            i0, b = i0.pop(), b.pop()
            if not isp(i0) or not isp(b):
                continue
            t = add(b, v, -1)
            if isconst(t) and cval(t):
                cnt.append((single(v), i0, cval(t)))
                self.counter[single(v)] = (i0, cval(t))
            elif single(v) not in atoms_in(t):
                acc.append((single(v), i0, t))
        arrs = []
        for k, (base, cells) in hst.arr.items():
            if base != ('phi', K, k) or cells:
                continue
            i0 = [e[0].arr.get(k, (('base', k), {})) for e in ins]
            b = [e[0].arr.get(k, (('base', k), {})) for e in backs]
            if any(x != i0[0] for x in i0):
                continue
            if any(x != b[0] for x in b):
                # an element written under a condition
                off = {o for x in b for o in x[1]}
                maps = {x[0] for x in b if x[0][0] == 'map'}
                if len(maps) == 1 and not off and all(x[0] in maps or x[0] == ('phi', K, k) for x in b):
                    # a loop over elements entered under a condition
                    m = maps.pop()
                    if m[1] != ('phi', K, k) or m[2] or not isp(m[4]):
                        continue
                    old = A('SEL', ('phi', K, k), m[3])
                    t = bycond([(e[0].facts, add(m[4], old, -1) if x[0] == m else const(0)) for e, x in zip(backs, b)], hst.facts)
                    if t is not None:
                        arrs.append((k, i0[0][0], tuple(sorted(i0[0][1].items(), key=repr)), m[:4] + (add(old, t),) + m[5:], ()))
                    continue
                if any(x[0] != ('phi', K, k) or len(x[1]) > 1 for x in b) or len(off) != 1:
                    continue
                off = off.pop()
                old = A('SEL', ('phi', K, k), off)
                d = [(e[0].facts, add(x[1].get(off, old), old, -1)) for e, x in zip(backs, b) if isp(x[1].get(off, old))]
                t = bycond(d, hst.facts) if len(d) == len(b) else None
                if t is None:
                    continue
                b = [(('phi', K, k), {off: add(old, t)})]
            arrs.append((k, i0[0][0], tuple(sorted(i0[0][1].items(), key=repr)), b[0][0],
                         tuple(sorted(b[0][1].items(), key=repr))))
        if not cnt:
            return None
        return (K, tuple(cnt), tuple(acc), tuple(arrs))

    def hasK(self, v, K, allow=()):
        for i in atoms_in(v):
            key = T.keys[i]
            if i in allow:
                continue
            if key[0] == 'PHI' and key[1] == K:
                return True
            if key[0] == 'SEL' and basehas(key[1], K) or key[0] == 'ROW' and basehas(key[4], K):
                return True
        return False

    def leave(self, S, st, env):
        K, cnt, acc, arrs = S
        best = None
        for (ci, v0, step) in cnt:
            if abs(step) != 1:
                continue
            pc = ('P', (((ci,), 1),))
            for c, t in st.facts.items():
                E = None
                if c[1] == 'lt' and isp(c[2]) and isp(c[3]):
                    d = add(c[3], c[2], -1)         # c: d > 0
                    k = dict(d[1]).get((ci,), 0)
                    if k == -1 and not t and step == 1:         # n - i > 0 is false: i = n
                        E = add(d, pc)
                    elif k == 1 and t and step == 1:            # i - n > 0: i = n + 1
                        E = add(neg(add(d, pc, -1)), const(1))
                    elif k == -1 and t and step == -1:          # m - i > 0: i = m - 1
                        E = add(add(d, pc), const(1), -1)
                    elif k == 1 and not t and step == -1:       # i - m > 0 false: i = m
                        E = neg(add(d, pc, -1))
                elif c[1] == 'zero' and t:
                    k = dict(c[2][1]).get((ci,), 0)
                    if k == 1:
                        E = neg(add(c[2], pc, -1))
                    elif k == -1:
                        E = add(c[2], pc)
                if E is not None and not self.hasK(E, K) and not self.hasK(v0, K):
                    best = (ci, v0, step, E)
        if best is None:
            return st, env
        ci, v0, step, E = best
        N = add(E, v0, -1) if step == 1 else add(v0, E, -1)
        d = 0
        seen = set()
        for (_, _, t) in acc:
            atoms_in(t, seen)
        for (k, b0, c0, b1, c1) in arrs:
            atoms_in((b0, c0, b1, c1), seen)
        for i in seen:
            if T.keys[i][0] == 'IDX':
                d = max(d, T.keys[i][1] + 1)
        idx = A('IDX', d)
        it = idx if step == 1 else add(add(N, const(1), -1), idx, -1)       # iteration number
        inloop, after = {}, {}
        for (cj, w0, sj) in cnt:
            if self.hasK(w0, K):
                continue
            inloop[cj] = add(w0, mul(const(sj), it))
            after[cj] = add(w0, mul(const(sj), N))
        for (x, x0, t) in acc:
            if t == const(0) and not self.hasK(x0, K):
                inloop[x] = x0          # does not change in this loop
        am = {}
        for (k, b0, c0, b1, c1) in arrs:
            if b1 == ('phi', K, k) and len(c1) == 1 and isp(c1[0][0]):
                am[k] = (b0, c0, subst_ids(c1[0][0], inloop), c1[0][1], ())
            elif b1[0] == 'map' and b1[1] == ('phi', K, k) and not b1[2] and not c1:
                inner = tuple((dd, subst_ids(n, inloop)) for dd, n in b1[5])
                if not any(self.hasK(n, K) or any(T.keys[i][0] == 'IDX' for i in atoms_in(n)) for dd, n in inner):
                    am[k] = (b0, c0, subst_ids(b1[3], inloop), b1[4], inner)
        fin = {}
        for k, (b0, c0, off, val, dims) in am.items():
            if not isp(val) and not isptr(val):
                continue
            # reads of arrays this loop writes, at the position being written: their content before the loop
            bad = []

            def rd(key):
                if key[0] == 'SEL' and basehas(key[1], K):
                    k2 = key[1][2] if key[1][0] == 'phi' and key[1][1] == K else None
                    if k2 in am and am[k2][2] == key[2]:
                        w = st.copy()
                        for dd, n in am[k2][4] + ((d, N),):
                            w.facts[lt(A('IDX', dd), n)] = True
                        v = self.readarr(w, am[k2][0], dict(am[k2][1]), key[2], k2)
                        if v is not None and isp(v):
                            return v
                    bad.append(key)
                return None
            if not isp(val):
                continue
            if self.overlap(off, dims + ((d, N),)):
                # the same cell is met again in a later round: only a running sum of terms has a closed form
                val = subst_ids(val, inloop)
                once = not any(T.keys[i] == ('SEL', ('phi', K, k), off) for i in atoms_in(val))
                t = val if once else add(val, A('SEL', ('phi', K, k), off), -1)
                if not self.hasK(t, K) and not self.hasK(off, K) and not basehas(b0, K):
                    fin[k] = (('last' if once else 'acc', b0, c0, off, t, dims + ((d, N),)), {})
                continue
            val = subst(subst_ids(val, inloop), rd)
            if bad or self.hasK(val, K) or self.hasK(off, K) or basehas(b0, K):
                continue
            if not any(T.keys[i] == ('IDX', d) for i in atoms_in(off)):
                # the same cell every time: only a running sum has a closed form
                if dims:
                    continue
                old = self.readarr(st, b0, dict(c0), off, k)
                if old is None or not isp(old):
                    continue
                t = add(val, old, -1)
                if any(i in atoms_in(t) for i in atoms_in(old) if i in [j for m, c in old[1] for j in m]):
                    continue
                tot = mul(t, N) if not any(T.keys[i] == ('IDX', d) for i in atoms_in(t)) else mksum(t, N, d)
                cells = {o: w for o, w in dict(c0).items() if isconst(add(o, off, -1))}
                cells[off] = add(old, tot)
                fin[k] = (b0, cells)
                continue
            fin[k] = (('map', b0, c0, off, val, dims + ((d, N),)), {})
        for (x, x0, t) in acc:
            t = subst_ids(t, inloop)
            if self.hasK(t, K) or self.hasK(x0, K):
                continue
            if not any(T.keys[i] == ('IDX', d) for i in atoms_in(t)):
                after[x] = add(x0, mul(t, N))
            else:
                after[x] = add(x0, mksum(t, N, d))
        r = St()
        r.log = st.log
        for k, v in st.mem.items():
            r.mem[k] = subst_ids(v, after)
        for k, (b, cells) in st.arr.items():
            k2 = subst_ids(k, after)
            if b == ('phi', K, k) and k in fin:
                b, more = fin[k]
                cells = {**cells, **more}
            r.arr[k2] = (b, {subst_ids(o, after): subst_ids(v, after) for o, v in cells.items()})
        for c, t in st.facts.items():
            c2 = recond(subst_ids(c, after))
            if c2 in (TRUE, FALSE):
                continue
            if c2[1] == 'not':
                c2, t = c2[2], not t
            r.facts[c2] = t
        return r, {k: subst_ids(v, after) for k, v in env.items()}

    def overlap(self, off, dims):
        """may two rounds of a nest write the same cell?"""
        ids = {T.ids.get(('IDX', d)) for d, N in dims}
        co = {}
        for mono, c in off[1]:
            h = [i for i in mono if i in ids]
            if len(h) == 1:
                m = list(mono)
                m.remove(h[0])
                co.setdefault(h[0], []).append((tuple(m), abs(c)))
        l = [tuple(sorted(x)) for x in co.values()]
        return len(set(l)) < len(l)

    def readarr(self, s, base, cells, off, reg):
        t = St()
        t.facts = s.facts
        t.mem = s.mem
        t.arr = dict(s.arr)
        t.arr[reg] = (base, cells)
        return self.arr_get(t, reg, off)

    def inrange(self, s, e, N):
        """is 0 <= e < N known?  True, False (known not) or None"""
        d = add(N, e, -1)
        if isconst(d) and cval(d) <= 0:
            return False
        if isconst(e) and cval(e) < 0:
            return False
        for c, t in s.facts.items():
            if c[1] == 'lt' and t and isp(c[2]) and isp(c[3]):
                x = add(c[3], c[2], -1)         # x > 0
                y = add(neg(e), x, -1)
                z = add(e, add(N, x), -1)
                if isconst(y) and cval(y) >= 0 or isconst(z) and cval(z) >= 0:
                    return False        # e < 0, or e >= N
        lo = isconst(e)
        hi = isconst(d) and cval(d) > 0
        if not lo:
            i = single(e)
            c = self.counter.get(i)
            if c and c[1] > 0 and isconst(c[0]) and cval(c[0]) >= 0:
                lo = True
            elif i is not None and T.keys[i][0] in ('IDX', 'EIX'):
                lo = True
            elif s.facts.get(lt(e, const(0))) is False:
                lo = True
        if not hi:
            for c, t in s.facts.items():
                if c[1] == 'lt' and isp(c[2]) and isp(c[3]):
                    x = add(c[3], c[2], -1)
                    y = add(d, x, -1) if t else None
                    if y is not None and (isconst(y) and cval(y) >= 0 or s.facts.get(eq(y, const(0))) is True):
                        hi = True
                        break
        return True if lo and hi else None

    def solve(self, off, o, dims, left=None):
        """index values making the template off equal to o"""
        ids = {T.ids.get(('IDX', d)): d for d, N in dims}
        rest = {}
        co = {}
        for mono, c in off[1]:
            h = [i for i in mono if i in ids]
            if not h:
                rest[mono] = c
            elif len(h) == 1:
                m2 = list(mono)
                m2.remove(h[0])
                co.setdefault(h[0], {})[tuple(m2)] = c
            else:
                return None
        if len(co) != len(dims):
            return None
        diff = add(o, mk(rest), -1)
        # the coarsest coefficient first
        lead = lambda x: max(x.items(), key=lambda y: (len(y[0]), abs(y[1])))
        order = sorted(co.items(), key=lambda x: (-len(lead(x[1])[0]), -abs(lead(x[1])[1])))
        out = {}
        for h, x in order:
            m, k = lead(x)
            got = {}
            for mono, c in diff[1]:
                mm = list(mono)
                ok = True
                for i in m:
                    if i in mm:
                        mm.remove(i)
                    else:
                        ok = False
                if ok and c % k == 0:
                    got[tuple(mm)] = got.get(tuple(mm), 0) + c // k
            e = mk(got)
            out[ids[h]] = e
            diff = add(diff, mul(e, mk(x)), -1)
        if diff[1]:
            if left is not None:
                left.append(diff)
            return None
        return out

    # ---- blocks
    def val(self, fr, env, v):
        k = v[0]
        if k == 'i':
            x = env.get(v[1])
            return x if x is not None else self.top()
        if k == 'c':
            if v[2] == 1:
                return TRUE if v[1] else FALSE
            return const(v[1])
        if k == 'a':
            return fr.args[v[1]]
        if k == 'null':
            return ('ptr', ('null',), const(0))
        if k == 'g':
            return ('ptr', ('glob', v[1]), const(v[2]))
        if k == 'f':
            return ('fn', v[1])
        if k == 'zero':
            return const(0)
        return self.top()

    def truth(self, s, c):
        """known truth of a condition, or None"""
        if c == TRUE:
            return True
        if c == FALSE:
            return False
        if not isb(c):
            return None
        if c[1] == 'not':
            t = self.truth(s, c[2])
            return None if t is None else not t
        if c[1] in ('and', 'or'):
            x, y = self.truth(s, c[2]), self.truth(s, c[3])
            if c[1] == 'and':
                if x is False or y is False:
                    return False
                return True if x and y else None
            if x or y:
                return True
            return False if x is False and y is False else None
        t = s.facts.get(c)
        if t is not None:
            return t
        if c[1] == 'lt':
            if s.facts.get(('b', 'lt', c[3], c[2])) is True:
                return False
            d = eq(c[2], c[3])
            if s.facts.get(d) is True:
                return False
            # bounds against constants
            if isp(c[2]) and isp(c[3]) and (isconst(c[2]) or isconst(c[3])):
                lo, hi = self.rng(s, c[3] if isconst(c[2]) else c[2])
                if isconst(c[2]):
                    if lo is not None and lo > cval(c[2]):
                        return True
                    if hi is not None and hi <= cval(c[2]):
                        return False
                else:
                    if hi is not None and hi < cval(c[3]):
                        return True
                    if lo is not None and lo >= cval(c[3]):
                        return False
        if c[1] == 'zero':
            d = c[2]
            k = [x for x in d[1] if x[0] != ()]
            if len(k) == 1 and abs(k[0][1]) == 1:
                x = ('P', ((k[0][0], 1),))
                cc = -dict(d[1]).get((), 0) * k[0][1]
                lo, hi = self.rng(s, x)
                if (lo is not None and lo > cc) or (hi is not None and hi < cc):
                    return False
        return None

    def rng(self, s, x):
        lo = hi = None
        off = 0
        for c, t in s.facts.items():
            if c[1] == 'lt':
                if c[2] == x and isconst(c[3]):
                    if t:
                        hi = cval(c[3]) - 1 if hi is None else min(hi, cval(c[3]) - 1)
                    else:
                        lo = cval(c[3]) if lo is None else max(lo, cval(c[3]))
                elif c[3] == x and isconst(c[2]):
                    if t:
                        lo = cval(c[2]) + 1 if lo is None else max(lo, cval(c[2]) + 1)
                    else:
                        hi = cval(c[2]) if hi is None else min(hi, cval(c[2]))
            elif c[1] == 'zero' and t:
                d = add(c[2], x, -1)
                if isconst(d):
                    lo = hi = -cval(d)
                d = add(c[2], x)
                if isconst(d):
                    lo = hi = cval(d)
        return lo, hi

    def assume(self, s, c, t):
        """[states] refined by condition c being t"""
        if not isb(c):
            return [s]
        k = self.truth(s, c)
        if k is not None:
            return [s] if k == t else []
        if c[1] == 'not':
            return self.assume(s, c[2], not t)
        if c[1] in ('and', 'or'):
            if (c[1] == 'and') == t:
                return [y for x in self.assume(s, c[2], t) for y in self.assume(x, c[3], t)]
            return self.assume(s.copy(), c[2], t) + [y for x in self.assume(s.copy(), c[2], not t)
                                                     for y in self.assume(x, c[3], t)]
        s.facts[c] = t
        return [s]

    def block(self, fr, b, st, env, pred):
        f = fr.f
        bb = f['bbs'][b]
        if pred is not None:
            st, env = self.phis(fr, st, env, b, pred)
        states = [(st, env)]
        out = []
        if bb.get('skip'):
            return [(st, env, x, None) for x in f['succ'][b]]
        for ins in bb['i']:
            op = ins['op']
            if op == 'phi':
                continue
            if op in ('call', 'invoke'):
                nxt = []
                for st, env in states:
                    nxt += self.call(fr, ins, st, env)
                states = nxt
                if op == 'invoke':
                    return [(st, env, ins['to'], None) for st, env in states] if not ins.get('nr') else []
                if not states:
                    return []
                if len(states) > MAXSTATES:
                    raise Undecided('too many states')
                continue
            if op == 'br':
                if 'cond' not in ins:
                    return [(st, env, ins['to'][0], None) for st, env in states]
                for st, env in states:
                    c = tobool(self.val(fr, env, ins['cond']))
                    for k, t in ((0, True), (1, False)):
                        for x in self.assume(st.copy(), c, t):
                            out.append((x, env, ins['to'][k], None))
                return out
            if op == 'switch':
                for st, env in states:
                    v = self.val(fr, env, ins['cond'])
                    rest = [st]
                    for cv, to in ins['cases']:
                        c = eq(v, const(cv)) if isp(v) else None
                        if c is None:
                            out.append((st.copy(), env, to, None))
                            continue
                        nr = []
                        for x in rest:
                            for y in self.assume(x.copy(), c, True):
                                out.append((y, env, to, None))
                            nr += self.assume(x.copy(), c, False)
                        rest = nr
                    for x in rest:
                        out.append((x, env, ins['def'], None))
                return out
            if op == 'ret':
                for st, env in states:
                    rv = self.val(fr, env, ins['ops'][0]) if ins.get('ops') else None
                    out.append((st, env, None, rv))
                return out
            if op in ('unreachable', 'resume'):
                return []
            for st, env in states:
                self.steps += 1
                self.simple(fr, ins, st, env)
        if self.steps > MAXSTEPS:
            raise Undecided('step budget')
        return out

    def simple(self, fr, ins, s, env):
        if self.steps > MAXSTEPS:
            raise Undecided('step budget')
        op = ins['op']
        ops = ins.get('ops') or []
        self.cur = (fr.f, ins.get('l', 0))
        if op == 'alloca':
            reg = ('al', fr.ctx + (fr.f['key'], ins['id']), ins.get('n', ''))
            for k in [k for k in s.mem if k[0] == reg]:
                del s.mem[k]
            s.arr.pop(reg, None)
            env[ins['id']] = ('ptr', reg, const(0))
            return
        if op == 'load':
            p = self.val(fr, env, ops[0])
            v = None
            if isptr(p):
                v = self.load(s, p, ins['sz'], ins['t'])
            if v is None:
                v = self.top()
            env[ins['id']] = v
            return
        if op == 'store':
            v = self.val(fr, env, ops[0])
            p = self.val(fr, env, ops[1])
            if isptr(p):
                if isinstance(v, tuple) and v and v[0] == 'obj':
                    l = v[1:]
                    cls = v_cls(self, p, ins, len(l))
                    if cls is None:
                        self.forget(s, p[1])
                    else:
                        self.setobj(s, p, cls, v)
                else:
                    self.write(s, p[1], p[2], v)
            else:
                self.blind = True
            return
        if op == 'gep':
            p = self.val(fr, env, ops[0])
            if not isptr(p) or ins['off'] is None:
                env[ins['id']] = self.top()
                return
            off = add(p[2], const(ins['off']))
            for iv, sc in ins['var']:
                x = toint(self.val(fr, env, iv))
                if not isp(x):
                    x = self.top()
                off = add(off, x, sc)
            env[ins['id']] = ('ptr', p[1], off)
            return
        if op == 'icmp':
            a, b = self.val(fr, env, ops[0]), self.val(fr, env, ops[1])
            env[ins['id']] = self.icmp(ins['pr'], a, b)
            return
        if op in ('add', 'sub', 'mul'):
            a, b = toint(self.val(fr, env, ops[0])), toint(self.val(fr, env, ops[1]))
            if isp(a) and isp(b):
                env[ins['id']] = mul(a, b) if op == 'mul' else add(a, b, 1 if op == 'add' else -1)
            else:
                env[ins['id']] = self.top()
            return
        if op in ('sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            a, b = self.val(fr, env, ops[0]), self.val(fr, env, ops[1])
            if isb(a) or isb(b):
                a, b = tobool(a), tobool(b)
                if op == 'xor' and b == TRUE:
                    env[ins['id']] = bnot(a)
                elif op == 'and':
                    env[ins['id']] = FALSE if FALSE in (a, b) else b if a == TRUE else a if b == TRUE else ('b', 'and', a, b)
                elif op == 'or':
                    env[ins['id']] = TRUE if TRUE in (a, b) else b if a == FALSE else a if b == FALSE else ('b', 'or', a, b)
                else:
                    env[ins['id']] = A(op, a, b)
                return
            a, b = toint(a), toint(b)
            if not (isp(a) and isp(b)):
                env[ins['id']] = self.top()
                return
            if isconst(a) and isconst(b):
                x, y = cval(a), cval(b)
                w = bits(ins['t'])
                r = None
                if op == 'shl' and 0 <= y < 64:
                    r = x << y
                elif op in ('lshr', 'ashr') and x >= 0 and 0 <= y < 64:
                    r = x >> y
                elif op == 'and':
                    r = x & y
                elif op == 'or':
                    r = x | y
                elif op == 'xor':
                    r = x ^ y
                elif op == 'sdiv' and y:
                    r = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                elif op == 'srem' and y:
                    r = abs(x) % abs(y) * (-1 if x < 0 else 1)
                if r is not None:
                    env[ins['id']] = const(r)
                    return
            if op in ('and', 'or', 'xor') and repr(b) < repr(a):
                a, b = b, a
            if op == 'xor' and a == b:
                env[ins['id']] = const(0)
                return
            if op in ('sdiv', 'udiv') and (not a[1] or a == b):
                env[ins['id']] = const(1) if a[1] else const(0)
                return
            env[ins['id']] = A({'srem': 'CREM', 'urem': 'CREM', 'sdiv': 'CDIV', 'udiv': 'CDIV'}.get(op, op), a, b)
            return
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze'):
            v = self.val(fr, env, ops[0])
            if op == 'trunc' and ins['t'] == 'i1':
                v = tobool(v)
            elif op == 'trunc' and isp(v) and bits(ins['t']) < 32 and not isconst(v):
                v = A('TRUNC', bits(ins['t']), v)
            elif op == 'zext' and isp(v) and single(v) is not None and T.keys[single(v)][0] == 'TRUNC':
                k = T.keys[single(v)]
                m, x = const((1 << k[1]) - 1), k[2]
                v = A('and', x, m) if repr(x) < repr(m) else A('and', m, x)
            env[ins['id']] = v
            return
        if op == 'select':
            c = tobool(self.val(fr, env, ops[0]))
            x, y = self.val(fr, env, ops[1]), self.val(fr, env, ops[2])
            t = self.truth(s, c)
            if t is True:
                v = x
            elif t is False:
                v = y
            elif x == y:
                v = x
            elif isb(x) or isb(y) or ins['t'] == 'i1':
                x, y = tobool(x), tobool(y)
                if y == FALSE:
                    v = ('b', 'and', c, x)
                elif x == TRUE:
                    v = ('b', 'or', c, y)
                else:
                    v = ('b', 'or', ('b', 'and', c, x), ('b', 'and', bnot(c), y))
            else:
                v = A('SELECT', c, x, y)
            env[ins['id']] = v
            return
        if 'id' in ins:
            env[ins['id']] = self.top()

    def icmp(self, pr, a, b):
        if isptr(a) and isptr(b):
            if pr in ('eq', 'ne'):
                if a[1] == b[1]:
                    c = eq(a[2], b[2])
                elif ('null',) in (a[1], b[1]):
                    o = b if a[1] == ('null',) else a
                    c = FALSE if o[1][0] in ('al', 'heap', 'arg', 'res', 'glob') else ('b', 'isnull', o)
                else:
                    c = FALSE if {a[1][0], b[1][0]} <= {'al', 'heap', 'arg', 'res'} else ('b', 'peq', *sorted((a, b), key=repr))
                return c if pr == 'eq' else bnot(c)
            if a[1] == b[1]:
                return self.icmp(pr.replace('u', 's'), a[2], b[2])
            return A_b('ptrcmp', pr, a, b)
        if isb(a) or isb(b):
            if isb(b) and not isb(a):
                a, b = b, a
            if isconst(b) or b in (TRUE, FALSE):
                n = (1 if b == TRUE else 0) if isb(b) else cval(b)
                if pr in ('eq', 'ne'):
                    c = a if (n != 0) == (pr == 'eq') else bnot(a)
                    return c
            elif isb(a) and isb(b) and pr in ('eq', 'ne'):
                c = ('b', 'or', ('b', 'and', a, b), ('b', 'and', bnot(a), bnot(b)))
                return c if pr == 'eq' else bnot(c)
            return A_b('cmp', pr, a, b)
        if isp(a) and isp(b):
            if pr == 'eq':
                return eq(a, b)
            if pr == 'ne':
                return bnot(eq(a, b))
            if pr[0] in 'su':
                k = pr[1:]
                return {'lt': lambda: lt(a, b), 'gt': lambda: lt(b, a), 'le': lambda: bnot(lt(b, a)),
                        'ge': lambda: bnot(lt(a, b))}[k]()
        return A_b('cmp', pr, a, b)

    def load(self, s, p, sz, t):
        reg, off = p[1], p[2]
        v = self.get(s, reg, off)
        if v is None and t == 'p' and reg[0] in ('pt',):
            return ('ptr', ('pt', reg, repr(off), ''), const(0))
        if sz == 8 and t.startswith('i') and isconst(off):
            o = cval(off)
            if reg[0] == 'arg' and reg[2] in self.opened:
                cells = [c for c in self.flat(reg[2]) if o <= c[0] < o + 8]
                if len(cells) > 1:
                    return ('obj',) + tuple(self.get(s, reg, const(c[0])) or self.top() for c in cells)
            elif (reg, o) in s.mem and (reg, o + 4) in s.mem:
                return ('obj', s.mem[(reg, o)], s.mem[(reg, o + 4)])
        return v

    # ---- calls
    def call(self, fr, ins, s, env):
        self.cur = (fr.f, ins.get('l', 0))
        self.steps += 1
        if self.steps > MAXSTEPS:
            raise Undecided('step budget')
        fn = ins.get('fn')
        args = [self.val(fr, env, a) for a in ins['args']]
        iid = ins['id']

        def ret(s, v):
            e = dict(env)
            e[iid] = v if v is not None else self.top()
            return [(s, e)]
        if fn is None:
            for a in args:
                if isptr(a):
                    self.forget(s, a[1])
            return ret(s, None)
        if ins.get('nr'):
            return []
        if fn.startswith('llvm.'):
            if fn.startswith(('llvm.memcpy', 'llvm.memmove')):
                self.memcpy(s, args[0], args[1], args[2])
            elif fn.startswith('llvm.memset'):
                if isptr(args[0]):
                    d = args[0]
                    self.forget(s, d[1])
            elif fn.startswith(('llvm.trap',)):
                return []
            elif fn.startswith('llvm.threadlocal.address'):
                return ret(s, args[0])
            elif fn.startswith('llvm.umul.with.overflow'):
                e = dict(env)
                e[iid] = ('agg', mul(args[0], args[1]) if isp(args[0]) and isp(args[1]) else self.top())
                return [(s, e)]
            return ret(s, None)
        if fn.startswith(('_Znam', '_Znwm')):
            reg = ('heap', fr.ctx + (fr.f['key'], iid), ins.get('l', 0))
            s.arr.pop(reg, None)
            for k in [k for k in s.mem if k[0] == reg]:
                del s.mem[k]
            return ret(s, ('ptr', reg, const(0)))
        if fn.startswith(('_Zda', '_Zdl')) or fn == 'free':
            return ret(s, None)
        g = self.P.funcs.get(fn)
        d = g or self.P.decls.get(fn) or {}
        if g is not None and not g['live']:
            return []
        m = self.model(fr, ins, s, d, args)
        if m is not None:
            out = []
            for st, v in m:
                out += ret(st, v)
            return out
        sm = self.summ.get((d.get('cls'), d.get('sn', '').split('<')[0]))
        if sm is not None:
            r = sm(self, s, d, args)
            if r is not None:
                self.deps.add((d.get('key', fn), 0))
                return [x for st, v in r for x in ret(st, v)]
        if g is not None and g.get('file', '').startswith(self.cfg.repo + '/') and self.inline(fr, g):
            self.deps.add((g['key'], 1))
            aargs = list(args) + [self.top()] * (len(g['args']) - len(args))
            res = self.run(g, aargs, s.copy(), fr.ctx + (iid,), fr.depth + 1)
            self.cur = (fr.f, ins.get('l', 0))
            # states differing only in conditions inside the callee are merged
            out = []
            seen = {}
            for st, rv in res:
                e = dict(env)
                e[iid] = rv if rv is not None else self.top()
                out.append((st, e))
            return out
        self.deps.add((d.get('key', fn), 0))
        return [x for st, v in self.opaque(fr, ins, s, d, fn, args) for x in ret(st, v)]

    def inline(self, fr, g):
        if g['key'] in fr.ctx_keys():
            return False
        if g.get('sn', '').split('<')[0] in self.noinline:
            return False
        if g['ninstr'] > 700:
            return False
        c = g.get('cls')
        if c:
            return c in self.opened or self.cfg.helper(g)
        return self.cfg.helper(g) or any(strip(t) in self.opened for t in g.get('dts', []))

    def memcpy(self, s, d, src, n):
        if not isptr(d):
            return
        if not isptr(src):
            self.forget(s, d[1])
            return
        if isp(n) and isconst(n) and cval(n) <= 64 and isconst(src[2]) and isconst(d[2]):
            n = cval(n)
            so, do = cval(src[2]), cval(d[2])
            cells = {o for (r, o) in s.mem if r == src[1] and so <= o < so + n}
            if src[1][0] == 'arg':
                cells |= {c[0] for c in self.flat(src[1][2]) if so <= c[0] < so + n}
            if not cells:
                cells = {so}
            for (r, o) in [k for k in s.mem if k[0] == d[1] and do <= k[1] < do + n]:
                del s.mem[(r, o)]
            for o in cells:
                v = self.get(s, src[1], const(o))
                self.write(s, d[1], const(do + o - so), v if v is not None else self.top())
            return
        v = self.get(s, src[1], src[2])
        if isp(n) and isconst(n) and cval(n) <= 16:
            self.write(s, d[1], d[2], v if v is not None else self.top())
            return
        # whole-array copy
        base, cells = s.arr.get(src[1], (('base', src[1]), {}))
        if isconst(d[2]) and cval(d[2]) == 0 and isconst(src[2]) and cval(src[2]) == 0 and not cells:
            s.arr[d[1]] = (base, {})
        else:
            self.forget(s, d[1])

    def argval(self, s, v, dt):
        """abstract value of an argument of declared type dt"""
        c = strip(dt)
        if isptr(v) and not is_ptr(dt) and self.isrepo(c):
            return self.objval(s, v, c)
        if is_ptr(dt) and isptr(v):
            if self.isrepo(c) or c in SIZES:
                x = self.objval(s, v, c)
                return x
            return ('ptr', v[1], v[2])
        return v

    def model(self, fr, ins, s, d, args):
        """operations of component classes; None: not one of them"""
        cls = d.get('cls')
        sn = d.get('sn', '')
        dem = d.get('dem', '')
        if not d.get('file', '').startswith(self.cfg.repo + '/'):
            return None
        sret, ps = params(d)
        dts = d.get('dts') or []
        rt = dts[0] if dts else 'void'

        def done(v, st=None):
            st = st or s
            if sret is not None:
                self.setobj(st, args[sret], rt, v)
                return [(st, None)]
            if is_ptr(rt) and not isptr(v) and not isb(v):
                return [(st, self.top())]
            return [(st, v)]
        pa = []
        for (n, dt) in ps:
            pa.append((args[n] if n < len(args) else None, dt))
        this = bool(cls) and ps and self.thisarg(d, ps)
        if cls in self.opened and sn.startswith('~'):
            return [(s, None)]
        if not self.prim(cls):
            # free operators on component classes, e.g. int * poly
            if cls is None and self.noinline and sn.split('<')[0] in self.noinline:
                return None
            return None
        if sn.startswith('~'):
            return [(s, None)]
        vals = [self.argval(s, v, dt) for v, dt in pa]
        ch = self.char(cls)
        isctor = sn.split('<')[0] == cls.split('<')[0].split('::')[-1]
        ring = bool(RING.search(cls))
        lin = bool(LINEAR.search(cls))
        if isctor:
            tgt = pa[0][0]
            if len(pa) == 1:
                self.setobj(s, tgt, cls, A('new', cls))
            elif len(pa) == 2 and strip(pa[1][1]) == cls:
                self.setobj(s, tgt, cls, vals[1])
            else:
                self.setobj(s, tgt, cls, self.ctor(cls, vals[1:], pa[1:]))
            return [(s, None)]
        if not this:
            return None
        me = pa[0][0]
        x = vals[0]
        if lin and sn == 'operator[]' and len(vals) == 2 and isptr(me) and isp(vals[1]):
            return [(s, self.elemptr(me, vals[1]))]
        if any(v is None for v in (vals[1:] if sn == 'operator=' else vals)):
            return self.lost(s, d, pa, args, sret, rt)
        if lin and sn == 'dot' and len(vals) == 2 and isp(x) and isp(vals[1]):
            n = A('APP', next(iter(self.lengths(cls)), 'length'), x)
            k = A('IDX', 'dot')
            return done(mksum(mul(elem(x, k), elem(vals[1], k)), n, 'dot'))
        binop = sn[8:] if sn.startswith('operator') else ''
        if (ring or lin) and binop in ('+', '-', '*', '/', '%', '^', '&', '|') and len(vals) == 2 and isp(vals[1]) and isp(x):
            return self.divcase(s, done, x, vals[1], binop, cls, pa[1][1])
        if (ring or lin) and binop == '-' and len(vals) == 1 and isp(x):
            return done(neg(x, ch))
        if (ring or lin) and len(binop) == 2 and binop[1] == '=' and binop[0] in '+-*/%^&|' and len(vals) == 2 and isp(vals[1]) and isp(x):
            out = []
            for st, v in self.divcase(s, lambda v, st=None: [(st or s, v)], x, vals[1], binop[0], cls, pa[1][1]):
                self.setobj(st, me, cls, v)
                out.append((st, me))
            return out
        if binop == '=' and len(vals) == 2:
            if strip(pa[1][1]) == cls:
                self.setobj(s, me, cls, vals[1])
            else:
                self.setobj(s, me, cls, self.ctor(cls, vals[1:], pa[1:], 'assign'))
            return [(s, me)]
        if binop in ('==', '!=') and len(vals) == 2:
            c = eq(x, vals[1], ch)
            return [(s, c if binop == '==' else bnot(c))]
        if sn in ORDER and len(vals) == 2:
            y = vals[1]
            k = ORDER[sn]
            return [(s, (lt(x, y), lt(y, x), bnot(lt(y, x)), bnot(lt(x, y)))[k])]
        if sn == 'recip' and len(pa) == 2 and isp(x):
            c = ('b', 'unit', x)
            out = []
            for t in (True, False):
                for st in self.assume(s.copy(), c, t):
                    if t:
                        self.setobj(st, pa[1][0], cls, A('INV', x))
                    out.append((st, TRUE if t else FALSE))
            return out
        if sn == 'quot_and_rem' and len(pa) == 4 and isp(x):
            q, r = A('QUO', x, vals[1]), rem(x, vals[1], ch)
            self.setobj(s, pa[2][0], cls, q)
            self.setobj(s, pa[3][0], cls, r)
            return [(s, None)]
        if sn == 'gcd' and len(vals) == 2:
            return done(gcd(x, vals[1]))
        if sn == 'ext_gcd' and len(pa) == 4 and isp(x) and isp(vals[1]):
            self.setobj(s, pa[2][0], cls, A('BZ1', x, vals[1]))
            self.setobj(s, pa[3][0], cls, A('BZ2', x, vals[1]))
            return done(gcd(x, vals[1]))
        return self.lost(s, d, pa, args, sret, rt, True)

    def divcase(self, s, done, x, y, op, cls, dt):
        ch = self.char(cls)
        fieldlike = bool(FIELDLIKE.search(cls)) or dt == 'int' and False
        noncomm = bool(LINEAR.search(cls)) or (LINEAR.search(strip(dt)) is not None)
        if op in '+-':
            return done(add(x, y, 1 if op == '+' else -1, ch))
        if op == '*':
            if noncomm:
                return done(A('times', x, y))
            return done(mul(x, y, ch))
        if op == '/':
            if fieldlike or FIELDLIKE.search(strip(dt)):
                return done(mul(x, A('INV', y), ch))
            return done(const(0) if not x[1] else const(1) if x == y else A('QUO', x, y))
        if op == '%':
            return done(rem(x, y, ch))
        a, b = (x, y) if repr(x) <= repr(y) else (y, x)
        return done(A(op, a, b))

    def ctor(self, cls, vals, pa, how='ctor'):
        if len(vals) == 1 and isp(vals[0]) and isconst(vals[0]) and cval(vals[0]) in (0, 1) and RING.search(cls) \
                and re.search(r'(f2_poly_t|bit_t|intrat_t)$', cls):
            return vals[0]
        if len(vals) == 1 and isp(vals[0]) and re.search(r'(q_poly_t|intrat_t)$', cls):
            return vals[0]          # embedding of a scalar
        if any(v is None for v in vals):
            return None
        return A(how, cls, *[strip(dt) for v, dt in pa], *vals)

    def thisarg(self, d, ps):
        return not d.get('static') and d['args'][ps[0][0]].get('n', '') == 'this' or (
            is_ptr(ps[0][1]) and ps[0][1].endswith('*') and strip(ps[0][1]) == d['cls'])

    def lost(self, s, d, pa, args, sret, rt, pure=False):
        """a function of its arguments that is not interpreted"""
        name = d.get('dem', '?').replace(' const', '')
        vals = []
        ok = True
        for v, dt in pa:
            x = self.argval(s, v, dt)
            if x is None:
                ok = False
            vals.append(x)
        key = (name,) + tuple(vals) if ok else None
        for k, (v, dt) in enumerate(pa):
            const_ = is_const_ref(dt)
            if k == 0 and d.get('cls') and self.thisarg(d, [(n, t) for n, t in params(d)[1]]):
                const_ = bool(d.get('const')) or d.get('dem', '').endswith(' const')
            if is_ptr(dt) and isptr(v) and not const_:
                c = strip(dt)
                if self.isrepo(c) or c in SIZES:
                    self.setobj(s, v, c, A('OUT', k, *key) if key else None)
                elif v[1][0] != 'glob':
                    self.forget(s, v[1])
        res = A('APP', *key) if key else self.top()
        if sret is not None:
            self.setobj(s, args[sret], rt, res)
            return [(s, None)]
        if rt == 'bool':
            return [(s, ('b', 'app') + key if key else A_b('top', self.top()))]
        if is_ptr(rt):
            if d.get('cls') and pa and strip(rt) == d['cls'] and isptr(pa[0][0]):
                return [(s, pa[0][0])]
            return [(s, self.top())]
        return [(s, res)]

    def opaque(self, fr, ins, s, d, fn, args):
        if d.get('file', '').startswith(self.cfg.repo + '/'):
            sret, ps = params(d)
            pa = [(args[n] if n < len(args) else None, dt) for n, dt in ps]
            sn = d.get('sn', '')
            if sn in ('int_gcd', 'gcd') and len(pa) == 2:
                v = [self.argval(s, x, dt) for x, dt in pa]
                if all(isp(x) for x in v):
                    return [(s, gcd(*v))]
            return self.lost(s, d, pa, args, sret, (d.get('dts') or ['void'])[0])
        if fn in ('__cxa_begin_catch', '__clang_call_terminate'):
            return []
        m = LIMIT.match(fn)
        if m:
            k = {'i': 31, 'l': 63, 'x': 63}[m.group(1)]
            return [(s, const(-2**k if m.group(2) == 'min' else 2**k - 1))]
        for a in args:
            if isptr(a) and a[1][0] in ('al', 'heap', 'res', 'arg', 'pt'):
                if a[1][0] == 'al' and not any(k[0] == a[1] for k in s.mem) and a[1] not in s.arr:
                    continue
                if a[1][0] == 'al' and self.stdlocal(a[1]):
                    continue
                if fn.startswith('_ZNSt') or fn.startswith('_ZNKSt') or fn.startswith('_ZSt') or '_Z' != fn[:2]:
                    if not self.mayout(d, fn):
                        continue
                self.forget(s, a[1])
        return [(s, None)]

    def stdlocal(self, reg):
        return False

    def mayout(self, d, fn):
        # stream output never changes our objects
        return 'operator>>' in d.get('dem', '') or 'rsERi' in fn or fn in ('memset', 'sscanf', 'memcpy')


class Fr:
    __slots__ = ('f', 'args', 'ctx', 'depth', 'alg', '_k')

    def ctx_keys(self):
        return ()


def WIDTH():
    return A('init', ('glob', '#width'), 0, 'width')


def HEAD():
    return A('init', ('glob', '#head'), 0, 'head')


def elem(v, j):
    """element j of a vector value"""
    out = const(0)
    for mono, c in v[1]:
        if len(mono) != 1:
            return A('TOP', 'elem', v, j)
        k = T.keys[mono[0]]
        if k[0] == 'ctor' and len(k) == 6 and k[3] == 'int' and k[2] in k[1]:
            e = k[4]
        else:
            e = A('ELEM', ('P', ((mono, 1),)), j)
        if not isp(e):
            return A('TOP', 'elem', v, j)
        out = add(out, mul(const(c), e))
    return out


def bycond(d, known):
    """one value for several ways: [(conditions, value)] as nested choices"""
    if all(v == d[0][1] for f, v in d):
        return d[0][1]
    for c in d[0][0]:
        if c in known or not all(c in f for f, v in d):
            continue
        yes, no = [x for x in d if x[0][c]], [x for x in d if not x[0][c]]
        if yes and no:
            y, n = bycond(yes, {**known, c: True}), bycond(no, {**known, c: False})
            return None if y is None or n is None else y if y == n else A('SELECT', c, y, n)
    return None


def mksum(t, N, d):
    """sum of t over IDX(d) = 0 .. N-1, with a bound index of its own"""
    b = 1 + max([T.keys[i][1] for i in atoms_in(t) if T.keys[i][0] == 'BIX'], default=0)
    return A('SUM', subst(t, lambda key: A('BIX', b) if key[0] == 'IDX' and key[1] == d else None), N, b)


def strip1(t):
    return t[:-1].strip()


def regname(reg):
    if reg[0] == 'arg':
        return reg[1]
    if reg[0] == 'pt':
        return '%s->' % regname(reg[1])
    return str(reg[0])


def A_b(*k):
    return ('b',) + k


def notops(summ):
    z = A('TOP', 0)
    return {h: subst(x, lambda key: z if key[0] == 'TOP' else None) for h, x in summ.items()}


def basehas(b, K):
    """does an array content hang on the state at loop head K?"""
    if not isinstance(b, tuple) or not b:
        return False
    if b[0] == 'phi':
        return b[1] == K
    if b[0] in ('map', 'acc', 'last', 'over'):
        return basehas(b[1], K)
    return False


def subst_ids(v, rules):
    if not rules:
        return v
    memo = {}

    def go(x):
        if isp(x):
            r = memo.get(x)
            if r is None:
                r = const(0)
                for mono, c in x[1]:
                    t = const(c)
                    for i in mono:
                        t = mul(t, atom(i))
                    r = add(r, t)
                memo[x] = r
            return r
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x

    def atom(i):
        k = ('#', i)
        if k not in memo:
            memo[k] = ('P', (((i,), 1),))
            if i in rules:
                r = rules[i]
            else:
                key = T.keys[i]
                key2 = tuple(go(y) if isinstance(y, tuple) else y for y in key)
                r = memo[k] if key2 == key else rem(key2[1], key2[2]) if key2[0] == 'REM' else A(*key2)
            memo[k] = r
        return memo[k]
    return go(v)


def recond(c):
    """canonical form of a condition after rewriting"""
    if not isb(c):
        return c
    if c[1] == 'not':
        return bnot(recond(c[2]))
    if c[1] == 'zero':
        return eq(c[2], const(0))
    if c[1] == 'lt':
        return lt(c[2], c[3])
    return c


def isptr(v):
    return isinstance(v, tuple) and len(v) == 3 and v[0] == 'ptr'


def tobool(v):
    if isb(v):
        return v
    if isp(v):
        if isconst(v):
            return TRUE if cval(v) else FALSE
        return bnot(eq(v, const(0)))
    return ('b', 'val', v)


def toint(v):
    if isb(v):
        if v == TRUE:
            return const(1)
        if v == FALSE:
            return const(0)
        return A('b2i', v)
    return v


def gcdint(a, b):
    while b:
        a, b = b, a % b
    return a


def gcd(a, b):
    if a == const(0):
        return b
    if b == const(0):
        return a
    x, y = (a, b) if repr(a) <= repr(b) else (b, a)
    return A('GCD', x, y)


def v_cls(alg, p, ins, n):
    if p[1][0] == 'arg' and p[1][2] in alg.opened:
        return p[1][2]
    for c in alg.opened:
        if len(alg.flat(c)) == n:
            return c
    return None
