"""What the operations of the coefficient-array polynomial classes have to leave behind, coefficient by coefficient."""
import re
import alg, specs, vecspec, loopspec
from alg import A, T, const, add, mul, neg, single, isp, isconst, cval, atoms_in, single, show
from absint import params, strip
from specs import Run, short, sig, viol, P_
from vecspec import place, bound, clear, asbuilt
from ir import AnalysisBroken

CLASSES = [P_ + 'f2n_poly_t', P_ + 'fp_poly_t', P_ + 'fpn_poly_t', P_ + 'q_poly_t']
BIN = {'operator+': '+', 'operator-': '-', 'operator*': '*', 'operator/': '/', 'operator+=': '+', 'operator-=': '-', 'operator*=': '*', 'operator/=': '/'}


# ------------------------------------------------------------------ integer positions
class Lin:
    """the linear inequalities a state knows about integers, as a convex polyhedron: is a further one implied?"""

    def __init__(self, facts, extra=()):
        self.rows = []
        self.ne = []
        for c, t in list(facts.items()) + list(extra):
            if c[1] == 'lt' and isp(c[2]) and isp(c[3]):
                d = add(c[3], c[2], -1)
                self.rows.append(add(d, const(1), -1) if t else neg(d))
            elif c[1] == 'zero' and t and isp(c[2]):
                self.rows += [c[2], neg(c[2])]
            elif c[1] == 'zero' and isp(c[2]):
                self.ne.append(c[2])

    def related(self, v):
        """the rows that share quantities with v"""
        seen = {m for m, c in v[1] if m}
        out, rest = [], list(self.rows)
        while True:
            more = [r for r in rest if any(m in seen for m, c in r[1])]
            if not more:
                return out
            out += more
            rest = [r for r in rest if r not in more]
            for r in more:
                seen |= {m for m, c in r[1] if m}

    def empty(self, rows):
        rows = {r for r in rows}
        for _ in range(40):
            for r in rows:
                if not r[1] or isconst(r):
                    if cval(r) < 0:
                        return True
            rows = {r for r in rows if not isconst(r)}
            ms = {}
            for r in rows:
                for m, c in r[1]:
                    if m:
                        p = ms.setdefault(m, [0, 0])
                        p[c > 0] += 1
            if not ms:
                return False
            m = min(ms, key=lambda x: ms[x][0] * ms[x][1])
            up = [r for r in rows if dict(r[1]).get(m, 0) < 0]
            lo = [r for r in rows if dict(r[1]).get(m, 0) > 0]
            rows = {r for r in rows if not dict(r[1]).get(m, 0)}
            for u in up:
                for l in lo:
                    a, b = -dict(u[1])[m], dict(l[1])[m]
                    rows.add(tight(add(mul(const(b), u), mul(const(a), l))))
            if len(rows) > 600:
                return False
        return False

    def nonneg(self, v):
        """is v >= 0 known?"""
        if isconst(v):
            return cval(v) >= 0
        return self.empty(self.related(v) + [add(neg(v), const(1), -1)])

    def dead(self):
        return self.empty(self.rows) or any(self.nonneg(d) and self.nonneg(neg(d)) for d in self.ne)

    def sign(self, v):
        """-1, 0, 1 when the sign of v is known, else None; (v >= 0, v <= 0)"""
        p, n = self.nonneg(v), self.nonneg(neg(v))
        if p and n:
            return 0
        if self.nonneg(add(v, const(1), -1)):
            return 1
        if self.nonneg(add(neg(v), const(1), -1)):
            return -1
        return None


def tight(r):
    g = 0
    for m, c in r[1]:
        if m:
            g = alg.gcdint(g, abs(c))
    if g <= 1:
        return r
    return alg.mk({m: c // g for m, c in r[1]})


def integer_facts(st, ids):
    """the facts of a state that speak of nothing but the given quantities"""
    out = {}
    for c, t in st.facts.items():
        if c[1] in ('lt', 'zero') and all(i in ids or T.keys[i][0] == 'TOPIDX' for i in atoms_in(c)):
            out[c] = t
    return out


class Split(Exception):
    """a position whose relation to another one has to be known first"""

    def __init__(self, v):
        self.v = v


class Reader:
    """the content of an array at a position, given what is known about positions"""

    def __init__(self, G, st, lin, reg):
        self.G, self.st, self.lin, self.reg = G, st, lin, reg

    def same(self, x, y):
        d = add(x, y, -1)
        if isconst(d):
            return cval(d) == 0
        s = self.lin.sign(d)
        if s is None:
            raise Split(d)
        return s == 0

    def at(self, off):
        base, cells = self.st.arr.get(self.reg, (('base', self.reg), {}))
        if not self.st.arr.get(self.reg) and isconst(off):
            return self.G.get(self.st, self.reg, off)
        return self.go(base, cells, off)

    def go(self, base, cells, off):
        if not isinstance(cells, dict):
            cells = dict(cells)
        v = cells.get(off)
        if v is not None:
            return v
        for o, v in cells.items():
            if self.same(o, off):
                return v
        if base[0] == 'over':
            return self.go(base[1], base[2], off)
        if base[0] == 'map' and len(base[5]) == 1:
            dd, N = base[5][0]
            e = self.G.solve(base[3], off, base[5])
            if e is None:
                raise alg.Undecided('position in a loop')
            e = e[dd]
            lo, hi = self.lin.sign(e), self.lin.sign(add(N, e, -1))
            if lo is None:
                raise Split(e)
            if hi is None:
                raise Split(add(N, e, -1))
            if lo >= 0 and hi > 0:
                # values inside may again be reads of what stood there before
                return alg.subst(base[4], lambda key: e if key[0] == 'IDX' and key[1] == dd else None)
            return self.go(base[1], base[2], off)
        if base[0] in ('acc', 'last'):
            return (base[0], self.go(base[1], base[2], off), base[3], base[4], base[5])
        if base[0] == 'base':
            return A('SEL', base, off)
        return None


class Poly:
    """a class holding a degree and an array of coefficients, read where they are stored"""

    def __init__(self, W, c):
        self.W, self.c = W, c
        fl = list(W.alg([c]).flat(c))
        ptr = [x for x in fl if x[2].endswith('*') and W.I.is_repo_class(x[2][:-1].strip())]
        num = [x for x in fl if x[2] == 'int']
        if len(fl) != 2 or len(ptr) != 1 or len(num) != 1:
            raise AnalysisBroken('%s: coefficients and degree not recognised' % c)
        self.po, self.do = ptr[0][0], num[0][0]
        self.el = ptr[0][2][:-1].strip()
        self.size = W.P.classes[self.el]['size']
        self.ch = 2 if alg.CHAR2.search(self.el) else 0

    def degree(self, run, st, ptr):
        return run.G.get(st, ptr[1], add(ptr[2], const(self.do)))

    def at(self, run, st, ptr, i):
        v = run.G.get(st, ptr[1], add(ptr[2], const(self.po)))
        if not alg.isptr(v):
            return None
        return run.G.get(st, v[1], add(v[2], mul(const(self.size), i)))


class Goal:
    """target, top index before leading zeros are dropped, [(label, index, conditions, value)], may the leading one vanish"""

    def __init__(self, where, top, parts, cancels, nonzero=None):
        self.where, self.top, self.parts, self.cancels, self.nonzero = where, top, parts, cancels, nonzero


def le(x, n):
    return [(alg.lt(n, x), False), (alg.lt(x, add(n, const(1))), True)]


def gt(x, n):
    return [(alg.lt(n, x), True), (alg.lt(x, add(n, const(1))), False)]


def goals(S, c, f, run):
    W, G, s0 = S.W, run.G, run.s0
    sn, sg = short(f), sig(f)
    if f.get('cls') != c or f.get('static') or f.get('acc') == 'private':
        return None
    ch = G.char(S.el)
    i = place('i')
    me = run.vals[0][0]
    lt = alg.lt

    def val(k):
        v, dt = run.vals[k]
        return G.get(s0, v[1], v[2]) if alg.isptr(v) else v
    rd = lambda ptr: (lambda st, x: S.at(run, st, ptr, x))
    isctor = sn == c.split('::')[-1]
    if isctor:
        if sg == [c]:
            o = run.vals[1][0]
            n, b = S.degree(run, s0, o), rd(o)
            return [Goal('this', n, [('i', i, [*le(i, n)], lambda st: b(st, i))], False)]
        if sg and all(x == S.el for x in sg) and len(sg) <= 3:
            n = len(sg)
            return [Goal('this', const(n - 1), [(str(k), const(k), [], lambda st, k=k: val(n - k)) for k in range(n)], n > 1)]
        return None
    if not alg.isptr(me):
        return None
    da, a = S.degree(run, s0, me), rd(me)

    def put(top, parts, cancels, nonzero=None):
        if sn.endswith('=') and sn not in ('operator==', 'operator!=', 'operator<=', 'operator>='):
            return [Goal('this', top, parts, cancels, nonzero), Goal('result', top, parts, cancels, nonzero)]
        return [Goal('result', top, parts, cancels, nonzero)]
    if sn == 'prime_subfield_element' and sg == ['int']:
        return put(const(0), [('0', const(0), [], lambda st: run.vals[1][0])], False)
    if sn == 'deriv' and not sg:
        up = add(i, const(1))
        return put(('pred', da), [('i', i, [(lt(i, da), True)], lambda st: None if a(st, up) is None else alg.modch(mul(up, a(st, up), ch), ch)),
                                  ('0, of a constant', const(0), [(alg.eq(da, const(0)), True)], lambda st: const(0))], True)
    if sn == 'operator=' and sg == [c]:
        o = run.vals[1][0]
        n, b = S.degree(run, s0, o), rd(o)
        return put(n, [('i', i, [*le(i, n)], lambda st: b(st, i))], False)
    op = BIN.get(sn)
    if op in ('+', '-') and sg == [c]:
        o = run.vals[1][0]
        db, b = S.degree(run, s0, o), rd(o)
        ap = lambda x, y: None if x is None or y is None else add(x, y, 1 if op == '+' else -1, ch)
        sg_ = lambda x: None if x is None else x if op == '+' else neg(x, ch)
        if o == me:
            return put(da, [('i', i, [*le(i, da)], lambda st: ap(a(st, i), b(st, i)))], True)
        parts = [('i, up to both degrees', i, [*le(i, da), *le(i, db)], lambda st: ap(a(st, i), b(st, i))),
                 ('i, above the first degree', i, [*gt(i, da), *le(i, db)], lambda st: sg_(b(st, i))),
                 ('i, above the second degree', i, [*le(i, da), *gt(i, db)], lambda st: a(st, i))]
        return put(('max', da, db), parts, True)
    if op == '*' and sg == [c]:
        o = run.vals[1][0]
        db, b = S.degree(run, s0, o), rd(o)
        term = lambda x, y: mul(a(s0, x), b(s0, y), ch)
        return put(add(da, db), [('i', i, [*le(i, add(da, db))], lambda st: ('conv', da, db, term))], True)
    if sn == 'operator-' and not sg:
        return put(da, [('i', i, [*le(i, da)], lambda st: None if a(st, i) is None else neg(a(st, i), ch))], False)
    if op and sg == [S.el]:
        s = val(1)
        if s is None or not isp(s):
            return None
        if op in ('+', '-'):
            return put(da, [('0', const(0), [], lambda st: add(a(st, const(0)), s, 1 if op == '+' else -1, ch)),
                            ('i above 0', i, [*le(i, da), *gt(i, const(0))], lambda st: a(st, i))], 'high')
        if op == '*':
            return put(da, [('i', i, [*le(i, da)], lambda st: None if a(st, i) is None else mul(a(st, i), s, ch))], True, s)
        return put(da, [('i', i, [*le(i, da)], lambda st: None if a(st, i) is None else mul(a(st, i), A('INV', s), ch))], False)
    if sn == 'promote' and not sg or sn == 'promote_and_add' and sg == [S.el]:
        low = (lambda st: const(0)) if not sg else (lambda st: val(1))
        return [Goal('this', add(da, const(1)), [('0', const(0), [], low),
                                                 ('i above 0', i, [*gt(i, const(0)), *le(i, add(da, const(1)))], lambda st: a(st, add(i, const(1), -1)))], None)]
    if sn == 'set_coeff' and sg == ['int', S.el]:
        k, v = run.vals[1][0], val(2)
        return [Goal('this', ('set', da, k), [('the position set', k, [], lambda st: v),
                                              ('i below the position', i, [*le(i, da), (lt(i, k), True)], lambda st: a(st, i)),
                                              ('i above the position', i, [*le(i, da), (lt(k, i), True)], lambda st: a(st, i)),
                                              ('i between the degree and the position', i, [*gt(i, da), (lt(i, k), True)], lambda st: const(0))], True, v)]
    if sn == 'get_coeff' and sg == ['int']:
        k = run.vals[1][0]
        return [Goal('value', None, [('the position asked for', None, [*le(k, da), (lt(k, const(0)), False)], lambda st: a(st, k)),
                                     ('a position above the degree', None, [*gt(k, da)], lambda st: const(0))], False)]
    if sn == 'find_degree' and not sg:
        return [Goal('value', None, [('the degree', None, [], lambda st: da)], False)]
    return None



EMBED = re.compile(r'prime_subfield_element\(int\)')


def integer(k):
    """the integer an element is made out of, directly or through a residue made out of it; None: not so made"""
    if k[0] == 'APP' and EMBED.search(str(k[1])) and isp(k[-1]):
        return k[-1]
    if k[0] == 'ctor' and len(k) in (4, 6):
        x = k[3] if len(k) == 4 else k[4]
        if not isp(x):
            return None
        if k[2] == 'int' or isconst(x) and cval(x) in (0, 1):
            return x
        i = single(x)
        return integer(T.keys[i]) if i is not None else None
    return None


def embedded(v):
    """elements of the coefficient ring made out of an integer: that integer"""
    memo = {}

    def go(x):
        if isp(x):
            r = const(0)
            for mono, c in x[1]:
                t = const(c)
                for i in mono:
                    t = mul(t, atom(i))
                r = add(r, t)
            return r
        return tuple(go(y) for y in x) if isinstance(x, tuple) else x

    def atom(i):
        if i not in memo:
            key = T.keys[i]
            n = integer(key)
            if n is None:
                key2 = tuple(go(y) if isinstance(y, tuple) else y for y in key)
                n = A(*key2) if key2 != key else ('P', (((i,), 1),))
            memo[i] = n
        return memo[i]
    return go(v)


def sum_degree(S):
    """recompute_degree, decided on its own by topmost()"""
    def fn(G, s, d, args):
        sret, ps = params(d)
        if len(ps) != 1:
            return None
        p = args[ps[0][0]]
        if not alg.isptr(p):
            return None
        old = G.get(s, p[1], add(p[2], const(S.do)))
        c = G.get(s, p[1], add(p[2], const(S.po)))
        if old is None or not isp(old) or not alg.isptr(c):
            return None
        b, cells = s.arr.get(c[1], (('base', c[1]), {}))
        D = A('TOPIDX', old, c[1], b, tuple(sorted(cells.items(), key=repr)))
        s = s.copy()
        s.facts[alg.lt(D, const(0))] = False
        s.facts[alg.lt(old, D)] = False
        G.put(s, p[1], add(p[2], const(S.do)), D)
        return [(s, None)]
    return fn


def topidx(v):
    i = single(v) if v is not None and isp(v) else None
    return T.keys[i] if i is not None and T.keys[i][0] == 'TOPIDX' else None


def cases(go, lin, facts, depth=0):
    """[(facts, outcome)] of go(facts), the position questions it asks answered in every possible way"""
    try:
        return [(facts, go(lin, facts))]
    except Split as e:
        if depth > 7:
            raise alg.Undecided('too many cases')
        out = []
        for c, t in ((alg.lt(const(0), e.v), True), (alg.eq(e.v, const(0)), True), (alg.lt(e.v, const(0)), True)):
            f2 = facts + [(c, t)]
            l2 = Lin({}, f2)
            if not l2.dead():
                out += cases(go, l2, f2, depth + 1)
        return out


def abstract(W, R, S, f, al, what):
    """does the operation come down to operations of the class itself, put together as they should be?  None: no"""
    sn, sg = short(f), sig(f)
    op = ABS.get(sn)
    if not op or len(sg) != 1 or sg[0] not in (S.c, S.el):
        return None
    run = Run(W, f, [], alias=al, ch=S.ch)
    G = run.G
    x = G.objval(run.s0, run.vals[0][0], S.c)
    v, dt = run.vals[1]
    y = (G.objval(run.s0, v, sg[0]) if alg.isptr(v) else v)
    if x is None or y is None or not run.paths:
        return None
    if op in '+-':
        want = {add(x, y, 1 if op == '+' else -1, S.ch)}
    elif op == '*':
        want = {mul(x, y, S.ch)}
    elif sg[0] == S.el:
        want = {mul(x, A('INV', y), S.ch)} if op == '/' else ()
    elif op == '/':
        want = {A('QUO', x, y)} | ({const(1)} if x == y else set())
    else:
        want = {A('REM', x, y)} | ({const(0), A('REM', const(0), y)} if x == y else set())
    if not want:
        return None
    ok = set()
    for w in want:
        atoms_in(w, ok)
    for p in run.paths:
        R.paths += 1
        at = []
        if sn.endswith('='):
            at.append(('*this', run.vals[0][0]))
        r = run.result(p, S.c)
        if r is not None:
            at.append(('its result', r))
        if not at:
            return None
        for name, ptr in at:
            have = G.objval(p.st, ptr, S.c) if alg.isptr(ptr) else None
            if have is None or not isp(have):
                return None
            if G.blind or any(v != run.s0.arr.get(k) for k, v in p.st.arr.items()):
                return None         # coefficients written in place
            have = p.n(have)
            if have in want or have in {p.n(w) for w in want}:
                continue
            if any(T.keys[i][0] in ('OUT', 'PHI', 'TOP', 'SEL', 'APP', 'ctor') for i in atoms_in(have)) or not clear(have, ok):
                return None
            return '%s is %s instead of %s' % (name, show(have)[:150], show(sorted(want)[-1])[:150])
    return True


ABS = {'operator+=': '+', 'operator-=': '-', 'operator*=': '*', 'operator/=': '/', 'operator%=': '%', 'operator/': '/', 'operator%': '%',
       'operator+': '+', 'operator-': '-', 'operator*': '*'}


def one(W, R, S, f, al):
    c = S.c
    sn, sg = short(f), sig(f)
    what = sn + '(' + ', '.join(sg) + ')' + (' on itself' if al is not None else '')
    if f.get('cls') != c or f.get('static') or f.get('acc') == 'private':
        return
    try:
        r = abstract(W, R, S, f, al, what)
    except alg.Undecided as e:
        r = None
    if r is True:
        R.ok(f, what)
        return
    if r:
        R.violations.append(viol(W, f, 'coefficient', what, r))
        return
    if not wanted(S, f):
        return
    try:
        alg.reset()
        run = Run(W, f, [c], ('recompute_degree',), alias=al, ch=S.ch, summ={(c, 'recompute_degree'): sum_degree(S)})
        todo = goals(S, c, f, run)
    except alg.Undecided as e:
        R.und(f, e)
        return
    if todo is None:
        return
    good = True
    if not run.paths:
        R.violations.append(viol(W, f, 'coefficient', 'exits', 'no normal exit: every path raises an error'))
        return
    ids = integers(S, f, run)
    for p in run.paths:
        R.paths += 1
        for g in todo:
            try:
                r = check(W, R, S, f, run, p, g, what, ids)
            except alg.Undecided as e:
                R.und(f, '%s: %s' % (g.where, e))
                r = None
            if r is not True:
                good = False
    if good:
        R.ok(f, what)


def wanted(S, f):
    sn, sg = short(f), sig(f)
    c, e = S.c, S.el
    if sn == c.split('::')[-1]:
        return sg == [c] or sg and all(x == e for x in sg)
    return (sn, sg) in ([(o, [c]) for o in ('operator=', 'operator+', 'operator-', 'operator*', 'operator+=', 'operator-=', 'operator*=')] +
                        [(o, [e]) for o in ('operator+', 'operator-', 'operator*', 'operator/', 'operator+=', 'operator-=', 'operator*=', 'operator/=', 'promote_and_add')] +
                        [('operator-', []), ('promote', []), ('find_degree', []), ('deriv', []), ('set_coeff', ['int', e]), ('get_coeff', ['int']),
                         ('prime_subfield_element', ['int'])])


def integers(S, f, run):
    """the quantities which are degrees and positions"""
    ids = set(atoms_in(place('i')))
    for k, (v, dt) in enumerate(run.vals):
        if strip(dt) == S.c and alg.isptr(v):
            d = S.degree(run, run.s0, v)
            if d is not None and isp(d):
                ids |= atoms_in(d)
        elif strip(dt) == 'int' and isp(v):
            ids |= atoms_in(v)
    return ids


def check(W, R, S, f, run, p, g, what, ids):
    G = run.G
    specs.Path.weak = p.st.weak
    if g.where == 'value':
        ptr = None
        name = 'the value'
    else:
        ptr = run.result(p, S.c) if g.where == 'result' else run.vals[0][0]
        name = {'this': '*this', 'result': 'its result'}[g.where]
        if ptr is None:
            if g.where == 'result' and strip((f.get('dts') or ['void'])[0]) != S.c:
                return True
            raise alg.Undecided('result not found')
    res = True
    D = None
    st = p.st
    start = [x for x in integer_facts(st, ids).items()]
    for k, (v, dt) in enumerate(run.vals):
        if strip(dt) == S.c and alg.isptr(v):
            d = S.degree(run, run.s0, v)
            if not (k == 0 and short(f) == S.c.split('::')[-1]) and isp(d):
                start.append((alg.lt(d, const(0)), False))
    s0 = run.s0.copy()
    s0.facts.update(st.facts)
    reg = None
    if ptr is not None:
        D = S.degree(run, st, ptr)
        if D is None or not isp(D):
            raise alg.Undecided('degree')
        v = G.get(st, ptr[1], add(ptr[2], const(S.po)))
        if not alg.isptr(v):
            raise alg.Undecided('coefficients')
        reg, at0 = v[1], v[2]
    norm = lambda v: alg.modch(embedded(p.n(v)), S.ch)
    t = topidx(D) if D is not None else None
    for label, idx, cond, fn in g.parts:
        facts = start + list(cond)
        if idx is not None and not isconst(idx):
            facts = facts + [(alg.lt(idx, const(0)), False)]
        lin = Lin({}, facts)
        if lin.dead():
            continue

        def go(lin, facts):
            rd = Reader(G, st, lin, reg)

            def inner(v, n=0):
                def sub(k):
                    if k[0] == 'SEL' and alg.lostbase(k[1]) and n < 6:
                        x = Reader(G, st, lin, None).go(k[1], {}, k[2])
                        return inner(x, n + 1) if x is not None and isp(x) else None
                    return None
                return alg.subst(v, sub)
            want = fn(s0)
            if want is None:
                raise alg.Undecided('coefficient of an operand not readable')
            if g.where == 'value':
                have = p.rv if run.sret is None else G.get(st, *run.args[run.sret][1:])
            elif t and t[2] != reg:
                # a copy up to the degree: the coefficients above it were zeros of the array it was found in
                whole = Reader(G, st, lin, t[2]).go(t[3], t[4], mul(const(S.size), idx))
                s = lin.sign(add(D, idx, -1))
                if s is None:
                    raise Split(add(D, idx, -1))
                have = whole
                if s >= 0:
                    have = rd.at(add(at0, mul(const(S.size), idx)))
                    if whole != have and (whole is None or norm(inner(whole)) != norm(inner(have))):
                        raise alg.Undecided('degree found in another array')
            else:
                have = rd.at(add(at0, mul(const(S.size), idx)))
            if isinstance(want, tuple) and want and want[0] == 'conv':
                return conv(S, lin, rd, have, want, idx, add(at0, const(0)), norm)
            if have is not None and isinstance(have, tuple) and have and have[0] in ('acc', 'last'):
                raise alg.Undecided('a sum over a nest of loops')
            have = norm(inner(have)) if have is not None and isp(have) else None
            want = norm(inner(want)) if isp(want) else want
            return have, want
        for facts2, (h, want) in cases(go, lin, facts):
            if h == want:
                continue
            if h is not None and isp(h) and isp(want) and vecspec.has(h, 'SELECT'):
                v = vecspec.choices(add(h, want, -1), facts2, set(atoms_in(want)))
                if v is True:
                    continue
                if v is None:
                    R.und(f, '%s at %s: %s instead of %s' % (name, label, show(h)[-200:], show(want)[-160:]))
                    res = None
                    continue
            ok = set(atoms_in(want)) if want is not None and isp(want) else set()
            if h is None or not isp(h) or not (clear(h, ok) or asbuilt(h)):
                R.und(f, '%s at %s: %s instead of %s' % (name, label, show(h)[-200:] if h is not None else 'nothing known', show(want)[-160:]))
                res = None
                continue
            R.violations.append(viol(W, f, 'coefficient', what, 'coefficient at %s of %s is %s instead of %s' % (label, name, show(h)[:160], show(want)[:160])))
            return False
    if ptr is not None and g.top is not None:
        r = degree(W, R, S, f, run, p, g, name, D, start, ids, what, reg)
        if r is not True:
            return r
    return res


def degree(W, R, S, f, run, p, g, name, D, start, ids, what, reg):
    """is the degree left behind the position of the leading coefficient?"""
    t = topidx(D)
    plain = not t and all(i in ids for i in atoms_in(D))
    if not t and not plain:
        R.und(f, '%s: degree %s' % (name, show(D)[:100]))
        return None
    if t:
        b, cells = p.st.arr.get(t[2], (('base', t[2]), {}))
        if t[2] == reg and (b, tuple(sorted(cells.items(), key=repr))) != (t[3], t[4]):
            R.und(f, '%s: coefficients written after the degree was found' % name)
            return None
    old = t[1] if t else D
    start = start + [(alg.lt(D, const(0)), False)] if not t else start

    def go(lin, facts):
        top, cancels = g.top, g.cancels
        if isinstance(top, tuple) and top and top[0] == 'max':
            s = lin.sign(add(top[1], top[2], -1))
            if s is None:
                raise Split(add(top[1], top[2], -1))
            top, cancels = (top[2] if s < 0 else top[1]), s == 0
        elif isinstance(top, tuple) and top and top[0] == 'set':
            s = lin.sign(add(top[2], top[1], -1))
            if s is None:
                raise Split(add(top[2], top[1], -1))
            top, cancels = (top[1] if s < 0 else top[2]), s >= 0
        elif isinstance(top, tuple) and top and top[0] == 'pred':
            s = lin.sign(top[1])
            if s is None:
                raise Split(top[1])
            top, cancels = (const(0), False) if s == 0 else (add(top[1], const(1), -1), True)
        if cancels == 'high':       # only the constant term changes
            s = lin.sign(top)
            if s is None:
                raise Split(top)
            cancels = s == 0
        s = lin.sign(add(old, top, -1))
        if s is None:
            raise Split(add(old, top, -1))
        if s:
            return 'degree %s instead of %s' % (show(old)[:60], show(top)[:60])
        if cancels is None:
            return True
        if cancels and not t:
            if lin.sign(top) == 0:
                return True
            return None
        return True
    try:
        for facts, r in cases(go, Lin({}, start), start):
            if r is True:
                continue
            if r is None:
                if g.nonzero is not None and (p.nonzero(g.nonzero) or any(
                        c[1] == 'zero' and not tt and isp(c[2]) and embedded(c[2]) in (g.nonzero, neg(g.nonzero)) for c, tt in p.st.facts.items())):
                    continue
                R.violations.append(viol(W, f, 'coefficient', what, 'the degree of %s stays %s although its leading coefficient may be zero' % (name, show(D)[:80])))
                return False
            R.violations.append(viol(W, f, 'coefficient', what, '%s: %s' % (name, r)))
            return False
    except alg.Undecided as e:
        R.und(f, 'degree: %s' % e)
        return None
    return True


def conv(S, lin, rd, have, want, idx, at0, norm):
    """the coefficient of a product: all products of coefficients whose positions add up, over zeros"""
    _, n, m, term = want
    if isinstance(have, tuple) and have and have[0] == 'last' and len(have[4]) == 2:
        (d1, n1), (d2, n2) = have[4]
        x, y = A('IDX', d1), A('IDX', d2)
        if have[2] == add(at0, mul(const(S.size), add(x, y))) and norm(have[3]) in (norm(term(x, y)), norm(term(y, x))):
            return A('one of', norm(have[3])), A('sum of', norm(have[3]))
    if not (isinstance(have, tuple) and have and have[0] == 'acc'):
        raise alg.Undecided('product not recognised')
    z, off, t, dims = have[1:]
    if z is None or norm(z) != const(0):
        raise alg.Undecided('product over something not zero')
    if len(dims) != 2:
        raise alg.Undecided('product over %d loops' % len(dims))
    (d1, n1), (d2, n2) = dims
    x, y = A('IDX', d1), A('IDX', d2)
    if off != add(at0, mul(const(S.size), add(x, y))):
        return off, add(at0, mul(const(S.size), add(x, y)))
    for (a, b, ca, cb) in ((x, y, n1, n2), (y, x, n2, n1)):
        if norm(t) == norm(term(a, b)) or vecspec.has(t, 'SELECT') and vecspec.choices(
                add(norm(t), norm(term(a, b)), -1), [(alg.lt(z, k), b) for z, n_ in ((x, n1), (y, n2)) for k, b in ((const(0), False), (n_, True))], ()) is True:
            ok = []
            for c, k in ((ca, n), (cb, m)):
                s = lin.sign(add(c, add(k, const(1)), -1))
                if s is None:
                    raise Split(add(c, add(k, const(1)), -1))
                ok.append(s == 0)
            if all(ok):
                return const(0), const(0)
            return add(ca, cb), add(add(n, m), const(2))
    if vecspec.has(t, 'SELECT'):
        v = vecspec.choices(add(norm(t), norm(term(x, y)), -1), [(alg.lt(z, k), b) for z, n_ in ((x, n1), (y, n2)) for k, b in ((const(0), False), (n_, True))],
                            set(atoms_in(norm(term(x, y)))))
        if v is None:
            raise alg.Undecided('product under conditions')
        return A('under conditions', norm(t)), A('product', norm(term(x, y)))
    return norm(t), norm(term(x, y))


def topmost(W, R, S):
    """recompute_degree: the loop goes down from the degree, passing zeros only, and stops at the first coefficient which is not, or at 0"""
    f = None
    for x in W.methods(S.c):
        if short(x) == 'recompute_degree' and not sig(x):
            f = x
    if f is None:
        return
    what = 'recompute_degree()'
    rec = loopspec.Rec(W, f, [S.c], ch=S.ch, rounds=True)
    r = rec.r
    me = r.vals[0][0]
    G = r.G
    da = S.degree(r, r.s0, me)
    cp = G.get(r.s0, me[1], add(me[2], const(S.po)))
    base = ('base', cp[1])
    sel = lambda x: A('SEL', base, add(cp[2], mul(const(S.size), x)))
    und = lambda m: R.und(f, m)
    if len(rec.loops) != 1 or not rec.rets:
        return und('%d loops' % len(rec.loops))
    (K, (H, ein, eback)), = rec.loops.items()
    cells = rec.cells.get(K, {})
    down = []
    for i, cell in cells.items():
        x = ('P', (((i,), 1),))
        if all(rec.at(K, st, env, cell) == da for st, env in ein) and all(rec.at(K, st, env, cell) == add(x, const(1), -1) for st, env in eback):
            down.append((x, cell))
    tests = [('coefficient', sel), ]
    bad = []
    if not down:
        return und('no position going down from the degree')
    names = {(0,): 'x'}
    proved = False
    for x, cell in down:
        good = True
        for st, env in eback:
            if st.facts.get(alg.eq(sel(x), const(0))) is not True:
                good = False
                bad.append('goes on from a position whose coefficient is not known to be zero')
        for st, rv in rec.rets:
            D = S.degree(r, st, me)
            lin = Lin({c: t for c, t in st.facts.items() if c[1] in ('lt', 'zero')}, [(alg.lt(da, const(0)), False)])
            nonz = st.facts.get(alg.eq(sel(x), const(0))) is False
            if st.arr.get(cp[1]) not in (None, (base, {})):
                return und('coefficients written')
            if D == x and (nonz or lin.nonneg(neg(x))):
                continue
            if D == const(0) and (lin.nonneg(neg(x)) or left_behind(rec, K, st, x)):
                continue
            good = False
            bad.append('stops with degree %s' % show(D)[:60])
        if good:
            proved = True
    if proved:
        R.ok(f, what)
        R.paths += len(rec.rets)
        return
    sample(W, R, S, f, rec, me, da, sel, what, und, bad)


def left_behind(rec, K, st, x):
    """the loop was left because its position fell below the last one"""
    return False


class Samples(loopspec.Model):
    """coefficients zero and not zero in a given pattern"""

    def __init__(self, rec, sub, sel, pat, ch):
        super().__init__(rec, sub, ch)
        self.base, self.size, self.at0, self.pat = sel[0], sel[1], sel[2], pat

    def op(self, k, i):
        if k[0] == 'SEL' and k[1] == self.base and isp(k[2]):
            d = add(k[2], self.at0, -1)
            if isconst(d) and cval(d) % self.size == 0:
                n = cval(d) // self.size
                if not 0 <= n < len(self.pat):
                    raise loopspec.Unknown('a position outside')
                return A('V', 'c%d' % n) if self.pat[n] else const(0)
        return super().op(k, i)


def sample(W, R, S, f, rec, me, da, sel, what, und, bad):
    """the recurrence solved for every pattern of zeros up to degree 4"""
    r = rec.r
    cp = r.G.get(r.s0, me[1], add(me[2], const(S.po)))
    di = single(da)
    try:
        for n in range(5):
            for m in range(1 << (n + 1)):
                pat = [m >> k & 1 for k in range(n + 1)]
                want = max([k for k in range(n + 1) if pat[k]] or [0])
                model = Samples(rec, {di: const(n)}, (('base', cp[1]), S.size, cp[2]), pat, S.ch)
                got = loopspec.outcomes(rec, model, lambda st, rv: (S.degree(r, st, me),))
                for (d,) in got:
                    if d is not None and isp(d) and isconst(d) and cval(d) != want:
                        R.violations.append(viol(W, f, 'coefficient', what, 'degree %d instead of %d for coefficients %s (lowest first)' % (
                            cval(d), want, ','.join('c%d' % k if b else '0' for k, b in enumerate(pat)))))
                        return
                if not got or any(d is None or not isp(d) or not isconst(d) for (d,) in got):
                    return und('recurrence not solved; ' + '; '.join(bad)[:200])
    except (loopspec.Unknown, loopspec.NoReturn) as e:
        return und('%s; %s' % (e, '; '.join(bad)[:200]))
    und('; '.join(bad)[:200])


ORDER = {'operator==': {0}, 'operator!=': {-1, 1}, 'operator<': {-1}, 'operator<=': {-1, 0}, 'operator>': {1}, 'operator>=': {0, 1}}


class Operand:
    """degree and coefficients of an operand as terms"""

    def __init__(self, S, r, ptr):
        self.d = S.degree(r, r.s0, ptr)
        cp = r.G.get(r.s0, ptr[1], add(ptr[2], const(S.po)))
        self.base, self.size, self.at0 = ('base', cp[1]), S.size, cp[2]

    def sel(self, x):
        return A('SEL', self.base, add(self.at0, mul(const(self.size), x)))


class Values(loopspec.Model):
    """operands with given coefficients"""

    def __init__(self, rec, sub, arrays, ch):
        super().__init__(rec, sub, ch)
        self.arrays = arrays        # [(Operand, [value])]

    def op(self, k, i):
        if k[0] == 'SEL' and isp(k[2]):
            for o, vals in self.arrays:
                if o.base == k[1]:
                    d = add(k[2], o.at0, -1)
                    if isconst(d) and cval(d) % o.size == 0:
                        n = cval(d) // o.size
                        if not 0 <= n < len(vals):
                            raise loopspec.Unknown('a position outside')
                        return vals[n]
        if k[0] == 'APP' and 'get_residue()' in str(k[1]) and isp(k[2]) and isconst(k[2]):
            return k[2]
        return super().op(k, i)


def orderings(W, R, S, f):
    """polynomials are ordered by degree, then by their coefficients from the highest down"""
    sn, sg = short(f), sig(f)
    what = '%s(%s)' % (sn, ', '.join(sg))
    good = ORDER[sn]
    rec = loopspec.Rec(W, f, [S.c], ch=S.ch, rounds=True)
    r = rec.r
    a = Operand(S, r, r.vals[0][0])
    b = Operand(S, r, r.vals[1][0])
    why = []
    heads = {}
    eq, lt = alg.eq, alg.lt

    def equal(facts, x):
        u, v = a.sel(x), b.sel(x)
        return facts.get(eq(u, v)) is True or facts.get(lt(u, v)) is False and facts.get(lt(v, u)) is False
    for K, (H, ein, eback) in rec.loops.items():
        for i, cell in rec.cells.get(K, {}).items():
            x = ('P', (((i,), 1),))
            if not all(equal(st.facts, x) for st, env in eback):
                continue
            if all(rec.at(K, st, env, cell) in (a.d, b.d) for st, env in ein) and all(rec.at(K, st, env, cell) == add(x, const(1), -1) for st, env in eback):
                heads[i] = (x, True)
            elif all(rec.at(K, st, env, cell) == const(0) for st, env in ein) and all(rec.at(K, st, env, cell) == add(x, const(1)) for st, env in eback):
                heads[i] = (x, False)
    proved = bool(rec.rets) and len(rec.loops) <= 1
    for st, rv in rec.rets:
        lin = Lin({c: t for c, t in st.facts.items() if c[1] in ('lt', 'zero')}, [(lt(a.d, const(0)), False), (lt(b.d, const(0)), False)])
        poss = {-1, 0, 1}
        s = lin.sign(add(a.d, b.d, -1))
        if s:
            poss = {s}
        elif s == 0:
            for x, down in heads.values():
                u, v = a.sel(x), b.sel(x)
                l, g, e = (st.facts.get(k) for k in (lt(u, v), lt(v, u), eq(u, v)))
                one = {-1, 0, 1}
                one -= {0, 1} if l else {-1} if l is False else set()
                one -= {0, -1} if g else {1} if g is False else set()
                one -= {-1, 1} if e else {0} if e is False else set()
                if lin.nonneg(sub1(neg(x))) if down else lin.nonneg(sub1(add(x, a.d, -1))) :
                    poss &= {0}
                elif one != {-1, 0, 1} and (down or good in ({0}, {-1, 1})):
                    if not down and one & {-1, 1}:
                        one |= {-1, 1}
                    poss &= one
        else:
            if any(c[1] == 'zero' and not t and c[2] in (add(a.d, b.d, -1), add(b.d, a.d, -1)) for c, t in st.facts.items()):
                poss -= {0}
        if rv == alg.TRUE and poss <= good or rv == alg.FALSE and not poss & good:
            continue
        proved = False
        why.append('answers %s when the order is one of %s' % (show(rv)[:40], sorted(poss)))
    R.paths += len(rec.rets)
    if proved:
        R.ok(f, what)
        return
    try:
        for n in range(3):
            for m in range(3):
                for bits in range(1 << (n + m + 2)):
                    u = [1 + (bits >> k & 1) for k in range(n + 1)]
                    v = [1 + (bits >> (n + 1 + k) & 1) for k in range(m + 1)]
                    x, y = (n, u[::-1]), (m, v[::-1])
                    o = (x > y) - (x < y)
                    model = Values(rec, {single(a.d): const(n), single(b.d): const(m)}, [(a, [const(k) for k in u]), (b, [const(k) for k in v])], 0)
                    got = loopspec.outcomes(rec, model, lambda st, rv: (rv,))
                    for (rv,) in got:
                        t = model.truth(rv, {}) if alg.isb(rv) else None
                        if t is None:
                            raise loopspec.Unknown('answer not known')
                        if t != (o in good):
                            R.violations.append(viol(W, f, 'coefficient', what, 'answers %s for coefficients %s and %s (lowest first)' % (t, u, v)))
                            return
    except (loopspec.Unknown, loopspec.NoReturn) as e:
        why.append(str(e))
    R.und(f, '; '.join(why)[:300])


def sub1(v):
    return add(v, const(1), -1)


def int_equal(W, R, S, f):
    """equality with an integer: a constant, and that one"""
    sn, sg = short(f), sig(f)
    what = '%s(int)' % sn
    rec = loopspec.Rec(W, f, [S.c], ch=S.ch, rounds=True)
    r = rec.r
    a = Operand(S, r, r.vals[0][0])
    v = r.vals[1][0]
    try:
        for n in range(3):
            for z in range(S.ch or 3):
                for c0 in range(S.ch or 3):
                    for top in (1, 2)[:(S.ch or 3) - 1]:
                        co = [c0] if n == 0 else [c0] + [1] * (n - 1) + [top]
                        model = Values(rec, {single(a.d): const(n), single(v): const(z)}, [(a, [const(k) for k in co])], 0)
                        model.zch, model.exponent = S.ch, {single(a.d)}
                        want = (n == 0 and c0 == z) == (sn == 'operator==')
                        got = loopspec.outcomes(rec, model, lambda st, rv: (rv,))
                        for (rv,) in got:
                            t = model.truth(rv, {}) if alg.isb(rv) else None
                            if t is None:
                                raise loopspec.Unknown('answer not known')
                            if t != want:
                                R.violations.append(viol(W, f, 'coefficient', what, 'answers %s for coefficients %s (lowest first) and %d' % (t, co, z)))
                                return
                        if not got:
                            raise loopspec.Unknown('no outcome')
    except (loopspec.Unknown, loopspec.NoReturn) as e:
        return R.und(f, e)
    if rec.loops:
        return R.und(f, 'a loop')
    # without a loop every path is one of: not a constant; a constant, the answer being the comparison with its only coefficient
    for st, rv in rec.rets:
        lin = Lin({c: t for c, t in st.facts.items() if c[1] in ('lt', 'zero')}, [(alg.lt(a.d, const(0)), False)])
        z = st.facts.get(alg.eq(a.d, const(0)))
        if (lin.nonneg(sub1(a.d)) or z is False) and rv == (alg.FALSE if sn == 'operator==' else alg.TRUE):
            continue
        if lin.sign(a.d) == 0:
            continue        # decided above for values told apart by the comparison alone
        return R.und(f, 'a path not classified')
    R.paths += len(rec.rets)
    R.ok(f, what)


def evaluation(W, R, S, f):
    """the value at a point: the sum of the coefficients times the powers of the point"""
    what = 'eval(%s)' % sig(f)[0]
    rec = loopspec.Rec(W, f, [S.c], ch=S.ch, rounds=True)
    r = rec.r
    a = Operand(S, r, r.vals[0][0])
    v = r.vals[1][0]
    x = r.G.get(r.s0, v[1], v[2]) if alg.isptr(v) else v

    def out(st, rv):
        if r.sret is not None:
            return r.G.get(st, *r.args[r.sret][1:])
        return rv
    R.paths += len(rec.rets)
    why = 'recurrence not recognised'
    proved = False
    if len(rec.loops) == 1 and rec.rets:
        (K, (H, ein, eback)), = rec.loops.items()
        cells = rec.cells.get(K, {})
        P = {i: ('P', (((i,), 1),)) for i in cells}
        isacc = lambda i: all(isp(rec.at(K, st, env, cells[i]) or 0) for st, env in list(ein) + list(eback))
        cand = [i for i in cells if isacc(i)]
        for k in cand:
            for h in cand:
                if h == k:
                    continue
                # Horner: h = value of the coefficients above k
                if all(rec.at(K, st, env, cells[k]) == sub1(P[k]) and
                       rec.at(K, st, env, cells[h]) == add(mul(P[h], x, S.ch), a.sel(P[k]), 1, S.ch) for st, env in eback) and \
                   all((rec.at(K, st, env, cells[k]), rec.at(K, st, env, cells[h])) in ((a.d, const(0)), (sub1(a.d), a.sel(a.d))) for st, env in ein):
                    ok = True
                    for st, rv in rec.rets:
                        lin = Lin({c: t for c, t in st.facts.items() if c[1] in ('lt', 'zero')}, [(alg.lt(a.d, const(0)), False), (alg.lt(add(P[k], const(1)), const(0)), False)])
                        if not (out(st, rv) == P[h] and lin.sign(add(P[k], const(1))) == 0):
                            ok = False
                    proved = proved or ok
    if proved:
        R.ok(f, what)
        return
    try:
        for n in range(5):
            co = [A('V', 'c%d' % k) for k in range(n + 1)]
            X = A('V', 'x')
            want, pw = const(0), const(1)
            for k in range(n + 1):
                want = add(want, mul(co[k], pw))
                pw = mul(pw, X)
            model = Values(rec, {single(a.d): const(n), single(x): X}, [(a, co)], S.ch)
            got = loopspec.outcomes(rec, model, lambda st, rv: (out(st, rv),))
            for (v,) in got:
                if v is None or not isp(v) or not model.generic(v):
                    raise loopspec.Unknown('value not known')
                if alg.modch(embedded(v), S.ch) != want:
                    R.violations.append(viol(W, f, 'coefficient', what, 'is %s instead of %s' % (show(v)[:150], show(want)[:150])))
                    return
    except (loopspec.Unknown, loopspec.NoReturn) as e:
        why = str(e)
    R.und(f, why)


def loops_of(W, R, S, f):
    sn, sg = short(f), sig(f)
    if f.get('cls') != S.c or f.get('static') or f.get('acc') == 'private':
        return
    go = None
    if sn in ORDER and sg == [S.c]:
        go = orderings
    elif sn in ('operator==', 'operator!=') and sg == ['int']:
        go = int_equal
    elif sn == 'eval' and sg == [S.el]:
        go = evaluation
    if go is None:
        return
    alg.reset()
    W._obs.clear()
    specs.Path.weak = 0
    try:
        go(W, R, S, f)
    except alg.Undecided as e:
        R.und(f, e)


def polynomials(W, R):
    for name in CLASSES:
        c = W.cls(name)
        if c is None:
            raise AnalysisBroken('class %s not found' % name)
        S = Poly(W, c)
        alg.reset()
        W._obs.clear()
        specs.Path.weak = 0
        try:
            topmost(W, R, S)
        except alg.Undecided as e:
            R.und({'dem': c + '::recompute_degree'}, e)
        for f in W.methods(c):
            loops_of(W, R, S, f)
            als = [None] + [i + 1 for i, t in enumerate(sig(f)) if t == c and short(f) != c.split('::')[-1]]
            for al in als:
                alg.reset()
                W._obs.clear()
                one(W, R, S, f, al)
