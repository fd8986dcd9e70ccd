"""What the operations of the composite classes have to compute, stated over the classes' public accessors, and the
comparison of that with what alg.py finds each of them to leave behind."""
import re
import alg, absint, cfg
from alg import A, const, add, mul, neg, isp, isconst, cval, reduce_mod, subst, atoms_in, show, T
from absint import params, strip
from ir import AnalysisBroken

I_ = 'spffl::intmath::'
P_ = 'spffl::polynomials::'
RESIDUE = [I_ + 'intmod_t', P_ + 'f2_polymod_t', P_ + 'f2n_polymod_t', P_ + 'fp_polymod_t', P_ + 'fpn_polymod_t']
FRACTION = ['spffl::rationals::intrat_t', P_ + 'f2_polyrat_t', P_ + 'f2n_polyrat_t', P_ + 'fp_polyrat_t']
BIT = 'spffl::bits::bit_t'


OPNAME = re.compile(r'operator(<<=|>>=|<=>|<<|>>|<=|>=|<|>)')


def short(f):
    m = OPNAME.match(f['sn'])
    return m.group(0) if m else f['sn'].split('<')[0]


class World:
    def __init__(self, P):
        self.P = P
        self.C = cfg.Cfg(P)
        self.I = absint.Interp(P, self.C, None)
        self._m = {}
        self._obs = {}

    def cls(self, name):
        """classes may move between namespaces"""
        if name in self.P.classes:
            return name
        l = [c for c in self.P.classes if c.split('::')[-1] == name.split('::')[-1]]
        return l[0] if len(l) == 1 else None

    def methods(self, c):
        if c not in self._m:
            self._m[c] = sorted([f for f in self.P.funcs.values() if f.get('cls') == c and f['file'].startswith(self.C.repo + '/')],
                                key=lambda f: f['key'])
        return self._m[c]

    def find(self, c, sn, nargs=None):
        for f in self.methods(c):
            if short(f) == sn and (nargs is None or len(params(f)[1]) == nargs):
                return f
        return None

    def alg(self, opened, noinline=(), summ=None):
        G = alg.Alg(self.P, self.C, opened, self.I.layout, self.I.is_repo_class, tuple(noinline))
        if summ:
            G.summ = summ
        return G

    def start(self, G, f, alias=None):
        """initial state and argument values; alias: index of the parameter that is the same object as the first"""
        s = alg.St()
        sret, ps = params(f)
        args = [('ptr', ('null',), const(0))] * len(f['args'])
        if sret is not None:
            args[sret] = ('ptr', ('res', 'result'), const(0))
        vals = []
        names = set()
        for k, (n, dt) in enumerate(ps):
            nm = f['args'][n]['n'] or 'arg%d' % n
            if k == 0 and f.get('cls') and not f.get('static'):
                nm = 'this'
            while nm in names:
                nm += "'"
            names.add(nm)
            c = strip(dt)
            if absint.is_ptr(dt) or f['args'][n]['t'] == 'p':
                reg = ('arg', nm, c)
                if alias is not None and k == alias:
                    args[n] = args[ps[0][0]]
                else:
                    args[n] = ('ptr', reg, const(0))
            elif c in G.opened:
                args[n] = ('obj',) + tuple(G.init(('arg', nm, c), x[0]) for x in G.flat(c))
            else:
                args[n] = A('init', ('arg', nm, c), 0, nm)
            vals.append((args[n], dt))
        return s, args, vals, sret

    def observe(self, G, st, ptr, c, acc):
        """value of a public accessor of the object at ptr in state st"""
        f = self.find(c, acc, 1)
        if f is None:
            raise AnalysisBroken('accessor %s::%s not found' % (c, acc))
        sret, ps = params(f)
        args = [('ptr', ('null',), const(0))] * len(f['args'])
        tmp = ('al', 'observer', acc)
        if sret is not None:
            args[sret] = ('ptr', tmp, const(0))
        args[ps[0][0]] = ptr
        rec, G.recording = G.recording, False
        try:
            r = G.run(f, args, st.copy(), ('observe',))
        finally:
            G.recording = rec
        if len(r) != 1:
            raise alg.Undecided('accessor %s has %d outcomes' % (acc, len(r)))
        s2, rv = r[0]
        if sret is not None:
            rt = strip(f['dts'][0])
            return G.objval(s2, args[sret], rt)
        if alg.isptr(rv):
            return G.objval(s2, rv, strip(f['dts'][0]))
        return rv


# ------------------------------------------------------------------ facts
def rewriter(facts, ch=0):
    """orient the equalities known on a path: ([(atom id, value)], unresolved conditions)"""
    rules = {}
    left = []

    def norm(v):
        for _ in range(6):
            w = subst(v, lambda k: None)
            w = sub_ids(w, rules)
            if w == v:
                return v
            v = w
        return v
    todo = [c for c, t in facts.items() if t and c[1] == 'zero']
    todo.sort(key=lambda c: len(repr(c)))
    for c in todo:
        d = norm(c[2])
        if not d[1]:
            continue
        cand = [(m[0], k) for m, k in d[1] if len(m) == 1 and abs(k) == 1]
        pick = None
        for i, k in sorted(cand, key=lambda x: -x[0]):
            rest = add(d, ('P', (((i,), k),)), -1)
            if i not in atoms_in(rest):
                pick = (i, rest if k == -1 else neg(rest))
                break
        if pick is None:
            left.append(c)
        else:
            rules[pick[0]] = pick[1]
    return rules, left


def sub_ids(v, rules):
    if not rules:
        return v
    memo = {}
    am = {}

    def go(x):
        if isp(x):
            r = memo.get(x)
            if r is None:
                r = const(0)
                for mono, c in x[1]:
                    t = const(c)
                    for i in mono:
                        t = mul(t, atom(i))
                    r = add(r, t)
                memo[x] = r
            return r
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        return x

    def atom(i):
        if i in am:
            return am[i]
        am[i] = ('P', (((i,), 1),))
        if i in rules:
            r = rules[i]
        else:
            key = T.keys[i]
            key2 = tuple(go(y) if isinstance(y, tuple) else y for y in key)
            r = am[i] if key2 == key else (alg.rem(key2[1], key2[2]) if key2[0] == 'REM' else A(*key2))
        am[i] = r
        return r
    return go(v)


class Path:
    """one normal exit of an operation"""
    def __init__(self, st, rv, ch=0):
        self.st, self.rv, self.ch = st, rv, ch
        self.rules, self.left = rewriter(st.facts, ch)

    weak = 0

    def n(self, v):
        Path.weak = self.st.weak
        for _ in range(8):
            w = sub_ids(v, self.rules)
            if isp(w) and self.ch:
                w = alg.modch(w, self.ch)
            if w == v:
                break
            v = w
        return v

    def known(self, c):
        """is the condition a consequence of the facts of this path?"""
        if c == alg.TRUE or self.st.facts.get(c) is True:
            return True
        if c[1] == 'zero':
            d = self.n(c[2])
            if not d[1]:
                return True
        for k, t in self.st.facts.items():
            if t and self.n(k) == self.n(c):
                return True
        return False

    def nonzero(self, v):
        v = self.n(v)
        if isconst(v):
            return cval(v) != 0
        for k, t in self.st.facts.items():
            if not t and k[1] == 'zero':
                d = self.n(k[2])
                if d == v or neg(d) == v:
                    return True
            if t and k[1] == 'lt':
                if self.n(k[3]) == v and isconst(k[2]) and cval(k[2]) >= 0:
                    return True
                if self.n(k[2]) == v and isconst(k[3]) and cval(k[3]) <= 0:
                    return True
            if not t and k[1] == 'lt':
                if self.n(k[2]) == v and isconst(k[3]) and cval(k[3]) > 0:
                    return True
                if self.n(k[3]) == v and isconst(k[2]) and cval(k[2]) < 0:
                    return True
            if not t and k[1] == 'not' and k[2][1] == 'zero' and self.n(k[2][2]) == v:
                return False
        return False


OPAQUE = ('APP', 'OUT', 'PHI', 'TOP', 'FIELD', 'ctor', 'assign', 'new', 'b2i')


def opaque(v, ok=()):
    """does the value hang on something this theory does not interpret?"""
    if v is None:
        return True
    return any(T.keys[i][0] in OPAQUE and i not in ok for i in atoms_in(v))


# ------------------------------------------------------------------ running one operation
class Run:
    """the outcomes of one operation of a class: every normal exit with the objects it leaves behind"""
    def __init__(self, W, f, opened, noinline=(), summ=None, alias=None, ch=0):
        self.W, self.f = W, f
        self.G = W.alg(opened, noinline, summ)
        self.cur = None
        self.s0, self.args, self.vals, self.sret = W.start(self.G, f, alias)
        rv = self.G.run(f, self.args, self.s0.copy())
        self.paths = [Path(st, r, ch) for st, r in rv]
        self.rt = strip((f.get('dts') or ['void'])[0])

    def obs(self, st, ptr, c, accs):
        if isinstance(ptr, tuple) and ptr and ptr[0] == 'obj':
            tmp = ('ptr', ('al', 'byvalue'), const(0))
            st = st.copy()
            self.G.setobj(st, tmp, c, ptr)
            ptr = tmp
        return tuple(self.W.observe(self.G, st, ptr, c, a) for a in accs)

    def operands(self, c, accs):
        """the observed initial value of every parameter of class c (None for the others)"""
        out = []
        for v, dt in self.vals:
            out.append(self.obs(self.s0, v, c, accs) if strip(dt) == c else None)
        return out

    def result(self, p, c):
        """where the object of class c this operation hands back is, on path p"""
        if self.sret is not None:
            return self.args[self.sret]
        if self.rt == c and alg.isptr(p.rv):
            return p.rv
        if self.rt == c and isinstance(p.rv, tuple) and p.rv[0] == 'obj':
            return p.rv
        return None

    def outs(self, p, c):
        """(label, place) of every object of class c this operation may have written"""
        o = []
        if self.rt == c:
            r = self.result(p, c)
            if r is not None:
                o.append(('its result', r))
        for k, (v, dt) in enumerate(self.vals):
            if strip(dt) != c or not alg.isptr(v):
                continue
            if k == 0 and self.f.get('cls') == c and not self.f.get('static'):
                if self.f.get('const') or short(self.f).startswith('~'):
                    continue
                o.append(('*this', v))
            elif absint.is_ptr(dt) and not absint.is_const_ref(dt) and dt.rstrip().endswith(('&', '*')):
                o.append(('parameter %s' % (self.f['args'][params(self.f)[1][k][0]]['n'] or k), v))
        return o


def sig(f):
    """parameter classes after the object itself"""
    ps = params(f)[1]
    if f.get('cls') and not f.get('static'):
        ps = ps[1:]
    return [strip(dt) for n, dt in ps]


def loc(W, f):
    return f['file'], f.get('line') or 0


def viol(W, f, kind, construct, msg):
    return {'kind': kind, 'function': f['dem'], 'construct': construct, 'file': f['file'].replace(W.C.repo + '/', ''),
            'line': f.get('line') or 0, 'message': msg, 'weak': bool(Path.weak) and kind != 'never-returns'}


BIN = {'operator+': '+', 'operator-': '-', 'operator*': '*', 'operator/': '/',
       'operator+=': '+', 'operator-=': '-', 'operator*=': '*', 'operator/=': '/'}


class Report:
    def __init__(self):
        self.violations, self.checked, self.undecided, self.samples = [], [], [], []
        self.paths = 0

    def ok(self, f, what):
        self.checked.append((f['dem'], what))

    def und(self, f, why):
        self.undecided.append((f['dem'], str(why)[:400]))


# ------------------------------------------------------------------ residue classes
RES = ('get_residue', 'get_modulus')


def sum_recip(c, W):
    def fn(G, s, d, args):
        """the reciprocal of an element: verified on its own by residue_values"""
        sret, ps = params(d)
        if len(ps) != 2:
            return None
        x = G.objval(s, args[ps[0][0]], c)
        if x is None:
            return None
        o = W.observe(G, s, args[ps[0][0]], c, 'get_residue')
        cond = ('b', 'unit', o)
        out = []
        for t in (True, False):
            for st in G.assume(s.copy(), cond, t):
                if t:
                    G.setobj(st, args[ps[1][0]], c, tuple(A('INV', o) if y == o else y for y in x))
                out.append((st, alg.TRUE if t else alg.FALSE))
        return out
    return fn


def sum_exp(c, W):
    def fn(G, s, d, args):
        sret, ps = params(d)
        if len(ps) != 2 or sret is None and alg.is_ptr((d.get('dts') or ['void'])[0]):
            return None
        x = G.objval(s, args[ps[0][0]], c)
        if x is None:
            return None
        o = W.observe(G, s, args[ps[0][0]], c, 'get_residue')
        v = tuple(A('POW', o, args[ps[1][0]]) if y == o else y for y in x)
        if sret is None:
            return [(s, v)]
        G.setobj(s, args[sret], c, v)
        return [(s, None)]
    return fn


def residue_summaries(c, W):
    return {(c, 'recip'): sum_recip(c, W), (c, 'exp'): sum_exp(c, W)}


DEGREES = (1, 2, 3, 4, 5, 6, 7, 8, 16, 64, 1000, 10 ** 6)


def shared_factor(p, g, k):
    """can the path be taken when the common divisor g has degree k?  None: cannot tell"""
    gi = alg.single(g)
    if gi is None:
        return None
    sure = True

    def deg(key):
        if key[0] == 'APP' and len(key) == 3 and key[2] == g and key[1].split('(')[0].split('::')[-1] in ('find_degree', 'get_degree', 'degree'):
            return const(k)
    empty = alg.St()
    G = alg.Alg.__new__(alg.Alg)
    for c, t in p.st.facts.items():
        if not alg.isb(c):
            sure = False
            continue
        parts = [subst(x, deg) if isp(x) else x for x in c[2:]]
        c2 = alg.eq(parts[0], const(0)) if c[1] == 'zero' else alg.lt(parts[0], parts[1]) if c[1] == 'lt' else None
        if c2 is None:
            if c[1] != 'unit':
                sure = False
            continue
        tv = G.truth(empty, c2)
        if tv is not None:
            if tv != t:
                return False
            continue
        if t or c[1] == 'lt':
            # an equation or order the degree does not settle
            if any(y for x in parts if isp(x) for y in atoms_in(x)):
                sure = False
    return True if sure else None


def inverse_of_unit(v, p, x, m, ch):
    """v*x reduced modulo m, using Bezout's identity and the facts of the path"""
    prod = reduce_mod(mul(v, x, ch), m, ch)
    out = const(0)
    b1 = T.ids.get(('BZ1', x, m))
    g = alg.gcd(x, m)
    xi = alg.single(x)
    for mono, c in prod[1]:
        mono = list(mono)
        t = const(c)
        if b1 is not None and b1 in mono and xi in mono:
            mono.remove(b1)
            mono.remove(xi)
            t = mul(t, g)
        for i in mono:
            t = mul(t, ('P', (((i,), 1),)))
        out = add(out, t)
    # a common divisor of degree zero is its own constant coefficient
    gi = alg.single(g)
    degzero = all(shared_factor(p, g, k) is False for k in DEGREES)
    if degzero:
        c0 = None
        for i in atoms_in(out):
            k = T.keys[i]
            if k[0] == 'INV' and alg.key_of(k[1]) and alg.key_of(k[1])[0] == 'APP' and len(alg.key_of(k[1])) == 4 \
                    and alg.key_of(k[1])[2] == g and alg.key_of(k[1])[3] == const(0):
                c0 = (i, alg.single(k[1]))
        d = const(0)
        for mono, c in out[1]:
            mono = list(mono)
            if gi in mono:
                if c0 is None and ch == 2:
                    mono.remove(gi)
                elif c0 is not None and c0[0] in mono:
                    mono.remove(gi)
                    mono.remove(c0[0])
            d = add(d, mul(const(c), ('P', ((tuple(mono), 1),))))
        out = d
    return reduce_mod(p.n(alg.modch(out, ch)), p.n(m), ch)


def residue_values(W, R, want=None):
    """+ - * / and negation of residue classes compute the residue of the exact result; mixed moduli never return"""
    for name in RESIDUE:
        c = W.cls(name)
        if c is None:
            raise AnalysisBroken('class %s not found' % name)
        ch = 2 if alg.CHAR2.search(c) else 0
        for f in W.methods(c):
            sn = short(f)
            sg = sig(f)
            if f.get('static') or f.get('acc') == 'private' or sn.startswith('~'):
                continue
            for al in ([None, 1] if sg == [c] and sn != c.split('::')[-1] else [None]):
                try:
                    one_residue(W, R, c, ch, f, sn, sg, al)
                except alg.Undecided as e:
                    R.und(f, e)


def one_residue(W, R, c, ch, f, sn, sg, al):
    same = sg == [c]
    op = BIN.get(sn)
    spec = None
    if op and same:
        spec = 'bin'
    elif sn == 'operator-' and not sg:
        spec = 'neg'
    elif sn == 'recip' and same:
        spec = 'recip'
    elif op in ('+', '-', '*') and len(sg) == 1 and sg[0] != 'int' and not W.I.is_repo_class(sg[0]):
        return
    elif op in ('+', '-', '*') and len(sg) == 1 and not same:
        spec = 'scalar'
    elif sn in ('operator==', 'operator!=') and same:
        spec = 'eq'
    elif sn in ('operator==', 'operator!=') and len(sg) == 1:
        spec = 'eqint'
    elif sn in ('operator<', 'operator>', 'operator<=', 'operator>=') and same:
        spec = 'ord'
    elif sn in ('operator%', 'operator%=') and same:
        spec = 'mod'
    elif sn == c.split('::')[-1] and sg == [c] or sn == 'operator=' and same:
        spec = 'copy'
    elif sn == c.split('::')[-1] and len(sg) == 2 and sg[0] == sg[1]:
        spec = 'make'
    if spec is None:
        return
    noin = [] if spec == 'recip' else ['recip']
    if spec != 'exp':
        noin.append('exp')
    r = Run(W, f, [c], noin, residue_summaries(c, W), al, ch)
    R.paths += len(r.paths)
    X = r.operands(c, RES)
    what = sn + (' (aliased)' if al else '')
    fine = True
    if not r.paths:
        R.violations.append(viol(W, f, 'never-returns', 'exits', 'no normal exit: every path raises an error'))
        return
    for p in r.paths:
        if spec == 'make':
            a = [v for v, dt in r.vals[1:]]
            a = [r.G.argval(r.s0, v, dt) for v, (v_, dt) in zip(a, r.vals[1:])]
            x, m = a
            y = my = None
        else:
            x, m = X[0]
            y, my = X[1] if len(X) > 1 and X[1] is not None else (None, None)
        if spec == 'eq' and al is None and not p.known(alg.eq(m, my)):
            if p.rv == (alg.FALSE if sn == 'operator==' else alg.TRUE):
                continue
            fine = False
            if opaque_cond(p.rv):
                R.und(f, 'comparison of different moduli')
            else:
                R.violations.append(viol(W, f, 'mixed-moduli', 'modulus check', 'may call elements of different rings equal'))
            continue
        if spec in ('bin', 'ord', 'mod') and al is None:
            if not p.known(alg.eq(m, my)):
                fine = False
                R.violations.append(viol(W, f, 'mixed-moduli', 'modulus check',
                                         'returns normally without having established that both operands have the same modulus'))
                continue
        if spec == 'bin' and op == '/' or spec == 'mod':
            if not any(t and k[1] == 'unit' and p.n(k[2]) == p.n(y) for k, t in p.st.facts.items()):
                fine = False
                R.violations.append(viol(W, f, 'zero-divisor', 'unit check',
                                         'returns normally without having established that the divisor is a unit'))
                continue
        if spec in ('eq', 'ord', 'eqint'):
            v = p.rv
            if spec == 'eqint':
                y = r.G.argval(r.s0, *r.vals[1])
                if y is None or not isp(y):
                    fine = False
                    R.und(f, 'operand of the comparison')
                    continue
            a, b = p.n(x), p.n(y)
            if spec in ('eq', 'eqint'):
                good = alg.eq(a, b)
                if sn == 'operator!=':
                    good = alg.bnot(good)
            else:
                good = (alg.lt(a, b), alg.lt(b, a), alg.bnot(alg.lt(b, a)), alg.bnot(alg.lt(a, b)))[alg.ORDER[sn]]
            e = truth_matches(p, v, good)
            if e is None:
                fine = False
                R.und(f, 'comparison %s' % show(v))
            elif not e:
                fine = False
                R.violations.append(viol(W, f, 'comparison', 'result', 'answers %s where %s is what the operands say' % (show(p.n(v)), show(good))))
            continue
        if spec == 'recip':
            if p.rv == alg.FALSE:
                continue
            if p.rv != alg.TRUE:
                R.und(f, 'return value')
                fine = False
                continue
            gx, gm = r.obs(p.st, r.vals[1][0], c, RES)
            if isp(p.n(x)) and not p.n(x)[1]:
                fine = False
                R.violations.append(viol(W, f, 'zero-divisor', 'unit check', 'hands back a reciprocal of zero'))
                continue
            d = inverse_of_unit(gx, p, x, m, ch)
            if not p.known(alg.eq(gm, m)):
                if opaque(p.n(gm)):
                    R.und(f, 'modulus of the reciprocal')
                else:
                    R.violations.append(viol(W, f, 'value', 'modulus', 'the reciprocal has modulus %s' % show(gm)))
                fine = False
            d1 = add(d, const(1), -1, ch)
            if not d1[1]:
                continue
            # a path that checked the product itself
            chk = add(reduce_mod(mul(gx, x, ch), m, ch), const(1), -1)
            if any(t and k[1] == 'zero' and const(0) in (reduce_mod(add(k[2], chk, 1), m), reduce_mod(add(k[2], chk, -1), m))
                   for k, t in p.st.facts.items()):
                continue
            if p.n(m) == const(2) and p.n(gx) == p.n(x) and p.nonzero(x):
                continue        # 1 is its own reciprocal
            fine = False
            k = next((k for k in DEGREES if not p.left and shared_factor(p, alg.gcd(x, m), k)), None)
            if k is not None:
                R.violations.append(viol(W, f, 'zero-divisor', 'unit check',
                                         'hands back a reciprocal for an element that shares a factor of degree %d with the modulus' % k))
            elif opaque(d1) or p.left:
                R.und(f, 'reciprocal times operand: %s' % show(d))
            else:
                R.violations.append(viol(W, f, 'value', 'residue', 'reciprocal times operand is %s modulo the modulus, not 1' % show(d)))
            continue
        place = r.vals[0][0] if sn == c.split('::')[-1] or sn == 'operator=' else r.result(p, c)
        if place is None:
            R.und(f, 'no result object')
            fine = False
            continue
        gx, gm = r.obs(p.st, place, c, RES)
        if spec == 'mod':
            want = const(0)
        elif spec == 'bin':
            want = add(x, y, 1, ch) if op == '+' else add(x, y, -1, ch) if op == '-' else mul(x, y, ch) if op == '*' else mul(x, A('INV', y), ch)
        elif spec == 'neg':
            want = neg(x, ch)
        elif spec in ('copy',):
            x, m = X[1]
            want = x
        elif spec == 'make':
            want = x
        elif spec == 'scalar':
            k = r.G.argval(r.s0, *r.vals[1])
            if k is None or not isp(k):
                R.und(f, 'scalar operand')
                fine = False
                continue
            want = add(x, k, 1, ch) if op == '+' else add(x, k, -1, ch) if op == '-' else mul(x, k, ch)
            if sg[0] == 'int' and not c.endswith('intmod_t'):
                k2 = int_mod_char(p, k, ch)
                if k2 is not None:
                    want = mul(x, const(k2), ch)
                # k * x is k-fold addition; a loop decides it, see engine assumptions
                if opaque(gx):
                    R.und(f, 'repeated addition')
                    fine = False
                    continue
        if not p.known(alg.eq(gm, m)):
            fine = False
            if opaque(p.n(gm)):
                R.und(f, 'modulus of the result')
            else:
                R.violations.append(viol(W, f, 'value', 'modulus', 'the result has modulus %s' % show(p.n(gm))))
            continue
        if spec == 'copy' and (gx == want or p.n(gx) == p.n(want)):
            continue
        d = reduce_mod(p.n(alg.modch(add(gx, want, -1), ch)), p.n(m), ch)
        if not d[1]:
            continue
        fine = False
        if opaque(d) or p.left:
            R.und(f, 'value %s' % show(d))
        else:
            R.violations.append(viol(W, f, 'value', 'residue', 'leaves residue %s where %s is required (modulo the modulus)' % (show(p.n(gx)), show(p.n(want)))))
        # same object on both sides
    if fine:
        R.ok(f, what)


def int_mod_char(p, k, ch):
    """what the facts of a path say the integer k is modulo the characteristic: 0, 1 or None"""
    for c, t in p.st.facts.items():
        if c[1] != 'zero':
            continue
        if ch == 2:
            for i in atoms_in(c[2]):
                key = T.keys[i]
                if key[0] == 'and' and k in key[1:] and const(1) in key[1:] or key[0] in ('CREM', 'REM', 'MODM') and key[1] == k and key[2] in (const(2), const(-2)):
                    d = c[2]
                    if alg.single(d) == i:
                        return 0 if t else 1
                    if t and alg.single(add(d, const(1), 1)) == i or alg.single(add(const(1), d, -1)) == i:
                        return 1
        elif t:
            for i in atoms_in(c[2]):
                key = T.keys[i]
                if key[0] in ('CREM', 'REM') and key[1] == k and alg.key_of(key[2]) and 'get_characteristic' in str(alg.key_of(key[2])[1]):
                    if reduce_mod(c[2], key[2]) in (k, neg(k)):
                        return 0
    return None


def truth_matches(p, v, good):
    """does condition v agree with condition good on path p?  None: cannot tell"""
    if v is None:
        return None
    G = alg.Alg.__new__(alg.Alg)
    st = alg.St()
    for k, t in p.st.facts.items():
        k2 = p.n(k)
        st.facts[k2] = t
        st.facts[k] = t
    v = renorm(p, v)
    good = renorm(p, good)
    if v == good:
        return True
    tv, tg = G.truth(st, v), G.truth(st, good)
    if tv is not None and tg is not None:
        return tv == tg
    if isp(v) and isconst(v):
        tv = bool(cval(v))
        if tg is not None:
            return tv == tg
    if tv is not None and tg is None or tv is None and tg is not None:
        if p.left or any(opaque_cond(k) for k in p.st.facts) or opaque_cond(v):
            return None
        return False
    if opaque_cond(v) or p.left or any(opaque_cond(k) for k in p.st.facts):
        return None
    return False


def renorm(p, c):
    """re-canonicalise a condition under the path's equalities"""
    if not alg.isb(c):
        return c
    if c[1] == 'not':
        return alg.bnot(renorm(p, c[2]))
    if c[1] == 'zero':
        return alg.eq(p.n(c[2]), const(0), p.ch)
    if c[1] == 'lt':
        return alg.lt(p.n(c[2]), p.n(c[3]))
    return p.n(c)


def opaque_cond(c):
    if not alg.isb(c):
        return True
    if c[1] in ('app', 'val', 'top'):
        return True
    return any(opaque(x) for x in c[2:] if isp(x)) or any(opaque_cond(x) for x in c[2:] if alg.isb(x))


# ------------------------------------------------------------------ canonical residues
def methods_and_friends(W, c):
    out = list(W.methods(c))
    for f in W.P.funcs.values():
        if not f.get('cls') and f['file'].startswith(W.C.repo + '/') and not W.C.helper(f):
            if any(strip(t) == c for t in (f.get('dts') or [])):
                if '<' not in f['dem'].split('(')[0]:
                    out.append(f)
    return out


def factor_out(v):
    """monomials of v as (coefficient, atoms)"""
    return [(c, m) for m, c in v[1]]


def canonical_residue(r, p, gx, gm, canon, ch):
    """True / False / None: is the observed residue reduced modulo the observed modulus?"""
    gx, gm = p.n(gx), p.n(gm)
    rows = factor_out(gx)
    verdict = True
    for c, mono in rows:
        if not mono:
            continue            # a constant
        red = [i for i in mono if T.keys[i][0] == 'REM' and p.n(T.keys[i][2]) == gm or i in canon.get(gm, ())]
        rest = [i for i in mono if i not in red]
        scalar = [i for i in rest if scalar_atom(T.keys[i])]
        if len(red) == 1 and len(scalar) == len(rest):
            continue
        if len(mono) == 1 and T.keys[mono[0]][0] == 'OUT' and 'operator>>(std::' in str(T.keys[mono[0]][2:3]):
            return False        # whatever the text says
        if any(T.keys[i][0] in OPAQUE or T.keys[i][0] in ('ctor', 'POW') for i in atoms_in(('P', ((tuple(mono), 1),)))):
            verdict = None if verdict is not False else False
            # a product that visibly is not reduced stays a violation
            continue
        if len(mono) == 1 and T.keys[mono[0]][0] == 'INV':
            continue            # delivered by recip, itself checked
        return False
    return verdict


def scalar_atom(key):
    """coefficient ring elements do not change the degree"""
    if key[0] == 'init' and isinstance(key[1], tuple):
        return key[1][0] == 'arg' and key[1][2] in ('int', I_ + 'intmod_t')
    if key[0] in ('and', 'CREM') and all(isp(x) for x in key[1:]):
        return True
    return False


def residue_canonical(W, R):
    """every residue-class object an operation leaves behind is reduced modulo its modulus"""
    for name in RESIDUE[1:]:
        c = W.cls(name)
        if c is None:
            raise AnalysisBroken('class %s not found' % name)
        ch = 2 if alg.CHAR2.search(c) else 0
        for f in methods_and_friends(W, c):
            if f.get('acc') == 'private':
                continue
            same = [k for k, t in enumerate(sig(f)) if t == c]
            for al in ([None] + ([1] if same == [0] and f.get('cls') == c and short(f) != c.split('::')[-1] else [])):
                try:
                    one_canonical(W, R, c, ch, f, al)
                except alg.Undecided as e:
                    R.und(f, e)


def one_canonical(W, R, c, ch, f, al):
    sn = short(f)
    noin = [x for x in ('recip', 'exp') if x != sn]
    r = Run(W, f, [c], noin, residue_summaries(c, W), al, ch)
    if sn == c.split('::')[-1] and not sig(f):
        return          # the default constructor makes a placeholder
    R.paths += len(r.paths)
    X = r.operands(c, RES)
    fine = n = 0
    for p in r.paths:
        canon = {}
        for x in X:
            if x is not None and isp(x[0]) and isp(x[1]) and alg.single(x[0]) is not None:
                canon.setdefault(p.n(x[1]), set()).add(alg.single(x[0]))
        for what, place in r.outs(p, c):
            if what != 'its result' and alg.isptr(place) and sn == c.split('::')[-1]:
                pass
            gx, gm = r.obs(p.st, place, c, RES)
            if gx is None or gm is None or not isp(gx) or not isp(gm):
                R.und(f, what)
                continue
            n += 1
            k = canonical_residue(r, p, gx, gm, canon, ch)
            if k:
                fine += 1
            elif k is None:
                R.und(f, '%s has residue %s' % (what, show(gx)))
            else:
                R.violations.append(viol(W, f, 'not-reduced', what, '%s is left with residue %s, which is not reduced modulo %s'
                                         % (what, show(p.n(gx)), show(p.n(gm)))))
    if n and fine == n:
        R.ok(f, 'reduced' + (' (aliased)' if al else ''))


# ------------------------------------------------------------------ fractions
FRA = ('get_numerator', 'get_denominator')


def quotient(v):
    k = alg.key_of(v)
    return k if k and k[0] in ('QUO', 'CDIV') else None


def pos_den(p, d):
    """is the integer denominator known positive on this path?"""
    d = p.n(d)
    if isconst(d):
        return cval(d) > 0
    for k, t in p.st.facts.items():
        if k[1] == 'lt':
            a, b = p.n(k[2]), p.n(k[3])
            # a < b is t
            for s, lo, hi in ((1, a, b),):
                pass
            if t and isconst(a) and cval(a) >= 0 and b == d:
                return True
            if t and isconst(b) and cval(b) <= 0 and neg(a) == d:
                return True
            if not t and isconst(b) and cval(b) >= 0 and a == d:        # a >= b: with d != 0
                return True if cval(b) > 0 or p.nonzero(d) else None
            if not t and isconst(a) and cval(a) <= 0 and neg(b) == d:   # b <= a
                return True if cval(a) < 0 or p.nonzero(d) else None
            if not t and isconst(a) and cval(a) <= 0 and b == neg(d):
                return True if p.nonzero(d) else None
            if t and isconst(b) and cval(b) <= 0 and a == d:
                return False
            if t and isconst(a) and cval(a) >= 0 and neg(b) == d:
                return False
            if not t and isconst(a) and cval(a) <= 0 and b == d:        # d <= a <= 0
                return False
    return None


def lowest_terms(p, n, d, inits, integer, ch):
    """(verdict, reason): is n/d a normalised fraction?"""
    n, d = p.n(n), p.n(d)
    for (a, b) in inits:
        a, b = p.n(a), p.n(b)
        if d == b and (n == a or integer and n == neg(a) or ch == 2 and alg.modch(add(n, a), 2) == const(0)):
            return True, ''
    if isconst(d) and cval(d) == 1:
        return True, ''
    k = alg.key_of(d)
    if k and k[0] == 'APP' and 'prime_subfield_element' in str(k[1]) and k[-1] == const(1):
        return True, ''
    qn, qd = quotient(n), quotient(d)
    if qn and qd and qn[2] == qd[2] and alg.gcd(qn[1], qd[1]) == qn[2]:
        if not p.nonzero(qd[1]):
            if opaque(qd[1]) and p.left:
                return None, 'denominator'
            return False, 'its denominator %s is not known to be nonzero' % show(qd[1])
        if integer:
            s = pos_den(p, qd[1])
            if s is not True:
                return False, 'its denominator %s is not known to be positive' % show(qd[1])
        return True, ''
    if opaque(n) or opaque(d):
        return None, 'fraction %s / %s' % (show(n), show(d))
    if (qn or qd) and p.left:
        return None, ''
    return False, 'it is %s over %s, not reduced to lowest terms' % (show(n), show(d))


def value_of_fraction(n, d):
    """undo division of both by a common factor"""
    qn, qd = quotient(n), quotient(d)
    if qn and qd and qn[2] == qd[2]:
        return qn[1], qd[1], qn[2]
    return n, d, None


def fractions(W, R, what):
    for name in FRACTION:
        c = W.cls(name)
        if c is None:
            raise AnalysisBroken('class %s not found' % name)
        ch = 2 if alg.CHAR2.search(c) else 0
        for f in methods_and_friends(W, c):
            if f.get('acc') == 'private':
                continue
            sg = sig(f)
            for al in ([None] + ([1] if sg == [c] and f.get('cls') == c and short(f) != c.split('::')[-1] else [])):
                try:
                    (one_fraction if what == 'canon' else one_fraction_value)(W, R, c, ch, f, al)
                except alg.Undecided as e:
                    R.und(f, e)


def fraction_canonical(W, R):
    fractions(W, R, 'canon')


def fraction_values(W, R):
    fractions(W, R, 'value')


def one_fraction(W, R, c, ch, f, al):
    sn = short(f)
    if sn == c.split('::')[-1] and not sig(f):
        return
    noin = ['exp'] if sn != 'exp' else []
    r = Run(W, f, [c], noin, {}, al, ch)
    R.paths += len(r.paths)
    X = [x for x in r.operands(c, FRA) if x is not None]
    n = fine = 0
    integer = c.endswith('intrat_t')
    for p in r.paths:
        if impossible(p, X):
            continue
        for what, place in r.outs(p, c):
            gn, gd = r.obs(p.st, place, c, FRA)
            if gn is None or gd is None or not isp(gn) or not isp(gd):
                R.und(f, what)
                continue
            n += 1
            k, why = lowest_terms(p, gn, gd, X, integer, ch)
            if k:
                fine += 1
            elif k is None:
                R.und(f, '%s: %s' % (what, why))
            else:
                R.violations.append(viol(W, f, 'not-normalised', what, '%s is not a normalised fraction: %s' % (what, why)))
    if n and fine == n:
        R.ok(f, 'normalised' + (' (aliased)' if al else ''))


def one_fraction_value(W, R, c, ch, f, al):
    sn, sg = short(f), sig(f)
    op = BIN.get(sn)
    same = sg == [c]
    if f.get('cls') != c:
        return
    if op and same:
        spec = 'bin'
    elif sn == 'operator-' and not sg:
        spec = 'neg'
    elif sn in ('operator%', 'operator%=') and same:
        spec = 'mod'
    elif sn in ('operator==', 'operator!=', 'operator<', 'operator>', 'operator<=', 'operator>=') and same:
        spec = 'cmp'
    elif sn in ('operator==', 'operator!=') and len(sg) == 1:
        spec = 'cmp1'
    elif sn == c.split('::')[-1] and same or sn == 'operator=' and same:
        spec = 'copy'
    elif sn == c.split('::')[-1] and len(sg) == 2 and sg[0] == sg[1]:
        spec = 'make'
    elif (sn == c.split('::')[-1] or sn == 'operator=') and len(sg) == 1 and sg[0] != 'int':
        spec = 'embed'
    elif (sn == c.split('::')[-1] or sn == 'operator=') and sg == ['int'] and c.endswith('intrat_t'):
        spec = 'embed'
    else:
        return
    r = Run(W, f, [c], ['exp'], {}, al, ch)
    R.paths += len(r.paths)
    X = r.operands(c, FRA)
    fine = True
    if not r.paths:
        R.violations.append(viol(W, f, 'never-returns', 'exits', 'no normal exit: every path raises an error'))
        return
    for p in r.paths:
        if impossible(p, X):
            continue
        a, b = X[0] if X[0] else (None, None)
        n2, d2 = X[1] if len(X) > 1 and X[1] else (None, None)
        if spec in ('bin', 'mod') and (op == '/' or spec == 'mod'):
            nz = p.nonzero(n2) or any(not t and k[1] == 'zero' and divides(n2, p.n(k[2])) for k, t in p.st.facts.items()) \
                or any(zero_test(p, k, t, n2, d2) for k, t in p.st.facts.items())
            if not nz:
                fine = False
                R.violations.append(viol(W, f, 'zero-divisor', 'zero check',
                                         'returns normally without having established that the divisor is nonzero'))
                continue
        if spec == 'cmp1':
            n2, d2 = r.G.argval(r.s0, *r.vals[1]), const(1)
            if n2 is None or not isp(n2):
                R.und(f, 'operand of the comparison')
                fine = False
                continue
        if spec in ('cmp', 'cmp1'):
            if sn in ('operator==', 'operator!='):
                e1, e2 = alg.eq(p.n(a), p.n(n2), ch), alg.eq(units(p.n(b)) if spec == 'cmp1' else p.n(b), p.n(d2), ch)
                for k, t in p.st.facts.items() if spec == 'cmp1' else ():
                    if k[1] == 'zero' and isp(k[2]) and units(k[2]) in (add(b, d2, -1), add(d2, b, -1), alg.modch(add(b, d2), ch)):
                        e2 = alg.TRUE if t else alg.FALSE
                v = p.rv
                if v in (alg.TRUE, alg.FALSE):
                    says = (v == alg.TRUE) == (sn == 'operator==')
                    isn = e1 == alg.TRUE and e2 == alg.TRUE or p.known(alg.eq(mul(a, d2), mul(b, n2)))
                    isnt = e1 == alg.FALSE or e2 == alg.FALSE or p.nonzero(add(a, n2, -1)) or p.nonzero(add(b, d2, -1)) \
                        or p.nonzero(add(mul(a, d2), mul(b, n2), -1)) or p.nonzero(add(n2, a, -1)) or p.nonzero(add(d2, b, -1))
                    if says and not isn or not says and not isnt:
                        fine = False
                        if any(opaque_cond(k) for k in p.st.facts) or p.left:
                            R.und(f, 'comparison')
                        else:
                            R.violations.append(viol(W, f, 'comparison', 'result', 'may call %s fractions %s' % (('different', 'equal') if says else ('equal', 'different'))))
                    continue
                # a residual condition: the other component must be known equal
                want = e2 if e1 == alg.TRUE else e1 if e2 == alg.TRUE else None
                x = renorm(p, v)
                if sn == 'operator!=':
                    x = alg.bnot(x)
                if want is not None and x == want:
                    continue
                if x in (alg.eq(p.n(mul(a, d2)), p.n(mul(b, n2)), ch),):
                    continue
                fine = False
                if opaque_cond(v) or p.left:
                    R.und(f, 'comparison')
                else:
                    R.violations.append(viol(W, f, 'comparison', 'result', 'equality is decided by %s' % show(v)))
                continue
            l, g = p.n(mul(a, d2, ch)), p.n(mul(b, n2, ch))
            good = (alg.lt(l, g), alg.lt(g, l), alg.bnot(alg.lt(g, l)), alg.bnot(alg.lt(l, g)))[alg.ORDER[sn]]
            e = truth_matches(p, p.rv, good)
            if e is None:
                fine = False
                R.und(f, 'comparison %s' % show(p.rv))
            elif not e:
                fine = False
                R.violations.append(viol(W, f, 'comparison', 'result', 'answers %s where %s is what the operands say' % (show(p.rv), show(good))))
            continue
        place = r.vals[0][0] if spec in ('copy', 'make', 'embed') else r.result(p, c)
        if place is None:
            R.und(f, 'no result object')
            fine = False
            continue
        gn, gd = r.obs(p.st, place, c, FRA)
        if gn is None or gd is None:
            R.und(f, 'result')
            fine = False
            continue
        if not (isp(gn) and isp(gd)):
            R.und(f, 'result')
            fine = False
            continue
        if spec == 'mod':
            wn, wd = const(0), const(1)
        elif spec == 'bin':
            wn, wd = {'+': (add(mul(a, d2), mul(b, n2)), mul(b, d2)), '-': (add(mul(a, d2), mul(b, n2), -1), mul(b, d2)),
                      '*': (mul(a, n2), mul(b, d2)), '/': (mul(a, d2), mul(b, n2))}[op]
        elif spec == 'neg':
            wn, wd = neg(a), b
        elif spec == 'copy':
            wn, wd = n2, d2
        elif spec == 'make':
            wn, wd = [r.G.argval(r.s0, v, dt) for v, dt in r.vals[1:]]
        else:
            wn, wd = r.G.argval(r.s0, *r.vals[1]), const(1)
            k = alg.key_of(gd)
            if k and k[0] == 'APP' and 'prime_subfield_element' in str(k[1]) and k[-1] == const(1):
                gd = const(1)
        if not (isp(wn) and isp(wd)):
            R.und(f, 'operand')
            fine = False
            continue
        gn, gd = units(gn), units(gd)
        vn, vd, g = value_of_fraction(p.n(gn), p.n(gd))
        d = p.n(alg.modch(add(mul(vn, wd), mul(wn, vd), -1), ch))
        if not d[1]:
            continue
        fine = False
        if opaque(d) or p.left:
            R.und(f, 'value %s' % show(d))
        else:
            R.violations.append(viol(W, f, 'value', 'result', 'leaves %s / %s where %s / %s is required' % (show(vn), show(vd), show(wn), show(wd))))
    if fine:
        R.ok(f, sn + (' (aliased)' if al else ''))


def units(v):
    """zero and one, made from an element of the ring"""
    def go(k):
        if k[0] == 'APP' and 'prime_subfield_element' in str(k[1]) and k[-1] in (const(0), const(1)):
            return k[-1]
    return subst(v, go)


def impossible(p, X):
    """a normalised zero has denominator one"""
    for x in X:
        if x is not None and p.n(x[0]) == const(0) and (p.nonzero(add(x[1], const(1), -1)) or p.nonzero(add(const(1), x[1], -1))):
            return True
        if x is not None and p.n(x[1]) == const(0):
            return True
    return False


def divides(x, v):
    """is x a factor of every monomial of v?"""
    i = alg.single(x)
    return i is not None and v[1] and all(i in m for m, c in v[1])


def zero_test(p, k, t, n2, d2):
    """a comparison with a computed zero that was refuted"""
    if t or k[1] != 'zero':
        return False
    d = p.n(k[2])
    q = [i for i in atoms_in(d) if T.keys[i][0] in ('QUO', 'CDIV')]
    # n2 - 0/..: quotients of zero vanish
    v = subst(d, lambda key: const(0) if key[0] in ('QUO', 'CDIV') and not key[1][1] else None)
    return v in (n2, neg(n2)) or divides(n2, v)
