"""Loops that compute a power, a gcd or Bezout cofactors: recurrence analysis.

alg.py leaves, for every loop, its transfer function: what each cell that changes enters with and what it goes round
with, as terms.  Here that recurrence is solved against what the operation is for.

* proof: an inductive invariant of the recurrence implies the definition at every exit (powers: R * X^E is constant,
  the parity fact of each way round deciding the step; cofactors: every row (x, y, z) keeps x = y*a + z*b; gcd: the pair
  goes to a pair generating the same ideal);
* refutation: the recurrence, solved for a particular exponent or a particular sequence of quotients with the operands
  left as free variables, ends in a polynomial in those variables which is not the one the definition gives.

A recurrence which is neither is undecided."""
import alg, absint, specs
from alg import A, T, add, mul, const, isp, isconst, cval, neg, show, single, atoms_in, mk
from absint import strip, params, is_ptr, is_const_ref
from specs import Run, RES, FRA, RESIDUE, FRACTION, I_, P_, short, loc, viol
from ir import AnalysisBroken

ROUNDS = 40


class Unknown(Exception):
    pass


class NoReturn(Exception):
    """a division by zero: the path does not return"""


def V(n):
    return A('V', n)


# ------------------------------------------------------------------ recurrences
class Rec:
    """one operation, with the transfer functions of its loops"""

    def __init__(self, W, f, opened=(), noinline=(), summ=None, ch=0, rounds=False):
        self.W, self.f, self.ch = W, f, ch
        alg.reset()
        self.r = object.__new__(Run)
        r = self.r
        r.W, r.f = W, f
        r.G = W.alg(list(opened), noinline, summ)
        r.G.keep = {}
        r.G.rounds = rounds
        r.cur = None
        r.s0, r.args, r.vals, r.sret = W.start(r.G, f, None)
        self.rets = r.G.run(f, r.args, r.s0.copy())
        r.rt = strip((f.get('dts') or ['void'])[0])
        self.loops = r.G.keep
        self.cells = {}
        for i, key in enumerate(T.keys):
            if key[0] == 'PHI':
                self.cells.setdefault(key[1], {})[i] = key[2]

    def at(self, K, st, env, cell):
        if isinstance(cell, tuple) and cell and cell[0] == 'r':
            return env.get(cell[1])
        return st.mem.get(cell)

    def mentions(self, *vs):
        """the loops whose cells the values mention"""
        out = set()
        for v in vs:
            for i in atoms_in(v):
                if T.keys[i][0] == 'PHI':
                    out.add(T.keys[i][1])
        return out

    def value(self, st, ptr, c):
        return self.r.G.objval(st, ptr, c)


class Model:
    """what the operands are: atom -> value; plus how uninterpreted operations act on such values"""

    def __init__(self, rec, subst, ch=0):
        self.rec, self.sub, self.ch = rec, dict(subst), ch
        self.exponent = set()       # atoms which count something
        self.zch = 0                # characteristic of everything else

    def ev(self, v, sig):
        """value of term v with the loop cells as in sig"""
        if v in (None, alg.TRUE, alg.FALSE):
            return v
        if isp(v):
            r = const(0)
            for mono, c in v[1]:
                t = const(c)
                for i in mono:
                    t = mul(t, self.atom(i, sig))
                r = add(r, t)
            return alg.modch(r, self.ch) if self.ch else r
        if isinstance(v, tuple):
            return tuple(self.ev(y, sig) if isinstance(y, tuple) else y for y in v)
        return v

    def atom(self, i, sig):
        if i in self.sub:
            return self.sub[i]
        key = T.keys[i]
        if key[0] == 'PHI':
            v = sig.get(i)
            return v if isp(v) else A('LOST', i)
        if key[0] in ('V', 'LOST', 'TOP'):
            return ('P', (((i,), 1),))
        args = tuple(self.ev(y, sig) if isinstance(y, tuple) else y for y in key)
        r = self.op(args, i)
        return r if r is not None else A(*args)

    def op(self, k, i):
        h = k[0]
        if h == 'lshr' and isconst(k[1]) and isconst(k[2]) and cval(k[1]) >= 0:
            return const(cval(k[1]) >> cval(k[2]))
        if h == 'ashr' and isconst(k[1]) and isconst(k[2]):
            return const(cval(k[1]) >> cval(k[2]))
        if h == 'TRUNC' and isp(k[2]) and isconst(k[2]):
            x = cval(k[2]) & ((1 << k[1]) - 1)
            return const(x - (1 << k[1]) if x >> (k[1] - 1) else x)
        if h == 'and' and all(isconst(x) for x in k[1:]):
            return const(cval(k[1]) & cval(k[2]))
        if h == 'APP' and 'prime_subfield_element(' in str(k[1]) and isconst(k[-1]) and cval(k[-1]) in (0, 1):
            return k[-1]
        if h == 'ctor' and len(k) == 4 and k[2] == 'int' and isp(k[3]) and isconst(k[3]) and cval(k[3]) in (0, 1):
            return k[3]
        if h == 'APP' and 'find_degree()' in str(k[1]) and isp(k[2]) and self.generic(k[2]):
            return const(0) if isconst(k[2]) or k[2] == V('u') else A('V', ('degree', k[2]))
        if h == 'times':
            return mul(k[1], k[2])
        if h in ('CDIV', 'QUO', 'CREM', 'REM'):
            if isp(k[2]) and isconst(k[2]) and cval(k[2]) in (1, -1):
                return (k[1] if cval(k[2]) == 1 else neg(k[1])) if h in ('CDIV', 'QUO') else const(0)
            if isp(k[1]) and isconst(k[1]) and isp(k[2]) and isconst(k[2]) and cval(k[2]) and h[0] == 'C':
                a, b = cval(k[1]), cval(k[2])
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return const(q if h == 'CDIV' else a - q * b)
        if h in ('CDIV', 'CREM') and all(isp(x) and isconst(x) for x in k[1:3]):
            return None
        return None

    cycle = 0

    def cyclic(self, v):
        """v when the base is an element of order `cycle`: how large exponents are told apart"""
        if not self.cycle or not isp(v):
            return v
        x = single(V('x'))
        r = {}
        for m, c in v[1]:
            k = m.count(x)
            m = tuple(sorted([i for i in m if i != x] + [x] * (k % self.cycle)))
            r[m] = r.get(m, 0) + c
        return ('P', tuple(sorted((m, c) for m, c in r.items() if c)))

    # conditions
    def generic(self, v):
        """is v a polynomial in the free variables only?"""
        return isp(v) and all(T.keys[i][0] == 'V' for i in atoms_in(v))

    def truth(self, c, sig):
        """True / False / None"""
        h = c[1]
        if h == 'true':
            return True
        if h == 'false':
            return False
        if h == 'not':
            t = self.truth(c[2], sig)
            return None if t is None else not t
        if h in ('and', 'or'):
            x, y = self.truth(c[2], sig), self.truth(c[3], sig)
            if h == 'and':
                return False if x is False or y is False else None if x is None or y is None else True
            return True if x is True or y is True else None if x is None or y is None else False
        if h == 'zero':
            v = self.ev(c[2], sig)
            if not isp(v):
                return None
            if self.zch and not self.counts(c[2]):
                v = alg.modch(v, self.zch)
            if not v[1]:
                return True
            if isconst(v):
                return False
            if self.generic(v):
                return False
            return None
        if h == 'lt':
            a, b = self.ev(c[2], sig), self.ev(c[3], sig)
            if not (isp(a) and isp(b)):
                return None
            d = add(b, a, -1)
            if self.generic(d):
                if all(e > 0 for m, e in d[1]):
                    return bool(d[1])
                if all(e < 0 for m, e in d[1]):
                    return False
            return None
        if h == 'unit':
            return True
        return None

    def counts(self, v):
        return any(i in self.exponent or T.keys[i][0] in ('lshr', 'ashr', 'and') for m, c in v[1] for i in m)

    def consistent(self, facts, sig):
        """False: the path is not taken; True: taken; Unknown when that cannot be told"""
        und = None
        for c, t in facts.items():
            try:
                x = self.truth(c, sig)
            except NoReturn:
                return False
            if x is None:
                und = c
            elif x is not t:
                return False
        if und is not None:
            raise Unknown('condition %s' % (str(und[1]) + ' ' + ','.join(show(self.ev(x, sig))[:60] for x in und[2:] if isp(x))))
        return True


def trace(rec, model, K):
    """every valuation of the cells of loop K with which its head is reached for the last time, with the operands as in the model"""
    H, ein, eback = rec.loops[K]
    cells = rec.cells.get(K, {})
    out, work = [], []
    for st, env in ein:
        if rec.mentions(*[x for c in st.facts for x in c[2:] if isinstance(x, tuple)]):
            raise Unknown('a loop after another')
        if model.consistent(st.facts, {}):
            work.append({i: model.ev(rec.at(K, st, env, c), {}) for i, c in cells.items()})
    seen = set()
    for _ in range(ROUNDS):
        nxt = []
        for sig in work:
            k = tuple(sorted((i, v) for i, v in sig.items()))
            if k in seen:
                continue
            seen.add(k)
            on = False
            for st, env in eback:
                if model.consistent(st.facts, sig):
                    on = True
                    nxt.append({i: model.cyclic(model.ev(rec.at(K, st, env, c), sig)) for i, c in cells.items()})
            if not on:
                out.append(sig)
        work = nxt
        if not work:
            return out
        if len(seen) > 200:
            break
    raise Unknown('the recurrence does not end')


def outcomes(rec, model, results):
    """[(values of results(state, returned value))] of every exit taken when the operands are as in the model.
    A loop entered but never left is no outcome."""
    out = []
    traces = {}
    for st, rv in rec.rets:
        if st.weak & 1:
            raise Unknown('an exit put together from several')
        res = results(st, rv)
        ks = rec.mentions(*res, *[x for c in st.facts for x in c[2:] if isinstance(x, tuple)])
        if len(ks) > 1:
            # a loop passed before the one that matters leaves facts behind: only its last cells are of interest
            ks2 = rec.mentions(*res)
            if len(ks2) != 1:
                raise Unknown('two loops')
            ks = ks2
        if not ks:
            if model.consistent(st.facts, {}):
                out.append(tuple(model.ev(x, {}) for x in res))
            continue
        K = ks.pop()
        if K not in rec.loops:
            raise Unknown('a loop left out')
        if K not in traces:
            traces[K] = trace(rec, model, K)
        for sig in traces[K]:
            if model.consistent(st.facts, sig):
                out.append(tuple(model.cyclic(model.ev(x, sig)) for x in res))
    return out


# ------------------------------------------------------------------ powers
CYCLE = 101
EXPS = (1, 2, 3, 4, 5, 6, 7, 11, 13, 300, 65537, (1 << 30) + 1, 0, -1, -2, -3, -5, -6)


def power(v, n):
    r = const(1)
    for _ in range(n):
        r = mul(r, v)
    return r


class ResidueModel(Model):
    def __init__(self, rec, sub, m, x, ch=0):
        Model.__init__(self, rec, sub, ch)
        self.m, self.x = m, x

    def op(self, k, i):
        if k[0] in ('REM', 'CREM') and k[2] == self.m:
            return k[1]
        if k[0] in ('INV', 'BZ1') and k[1] == V('x'):
            return V('j')
        return Model.op(self, k, i)


def monomial(v):
    return isp(v) and len(v[1]) == 1


def mgcd(a, b):
    """gcd of two monomials in the free variables"""
    import math
    (m, c), (n, d) = a[1][0], b[1][0]
    n = list(n)
    g = []
    for i in m:
        if i in n:
            n.remove(i)
            g.append(i)
    return ('P', ((tuple(sorted(g)), math.gcd(c, d)),))


def mquo(a, b):
    (m, c), (n, d) = a[1][0], b[1][0]
    m = list(m)
    for i in n:
        if i not in m:
            return None
        m.remove(i)
    if c % d:
        return None
    return ('P', ((tuple(sorted(m)), c // d),))


class FractionModel(Model):
    """numerator and denominator are different primes"""

    def op(self, k, i):
        if k[0] in ('GCD', 'QUO', 'CDIV') and all(isp(x) for x in k[1:3]):
            a, b = k[1], k[2]
            if k[0] == 'GCD':
                if not a[1]:
                    return self.unit(b)
                if not b[1]:
                    return self.unit(a)
                if monomial(a) and monomial(b) and self.generic(a) and self.generic(b):
                    return mgcd(a, b)
            elif not a[1]:
                return const(0)
            elif monomial(a) and monomial(b) and self.generic(a) and self.generic(b):
                q = mquo(a, b)
                if q is not None:
                    return q
        return Model.op(self, k, i)

    def unit(self, b):
        return ('P', ((b[1][0][0], abs(b[1][0][1])),)) if monomial(b) else None


def exponent_param(f):
    ps = params(f)[1]
    return [k for k, (n, dt) in enumerate(ps) if strip(dt) == 'int' and not is_ptr(dt)]


def powers(W, R):
    todo = []
    for name in RESIDUE:
        todo.append((W.cls(name), 'exp', 'residue'))
    for name in FRACTION:
        todo.append((W.cls(name), 'exp', 'fraction'))
    for name in ('f2_poly_t', 'f2n_poly_t', 'fp_poly_t', 'fpn_poly_t', 'q_poly_t'):
        todo.append((W.cls(P_ + name), 'exp', 'ring'))
    todo.append((W.cls('spffl::bits::bit_matrix_t'), 'posexp', 'matrix'))
    for c in sorted(W.P.classes):
        if c.startswith('tmatrix<'):
            todo.append((c, 'posexp', 'matrix'))
    for c, sn, kind in todo:
        if c is None:
            raise AnalysisBroken('a class with powers is gone')
        for f in W.methods(c):
            if short(f) == sn and len(params(f)[1]) >= 2:
                one(R, f, lambda: one_power(W, R, c, f, kind))
    for f in W.P.funcs.values():
        if not f.get('cls') and f['file'].startswith(W.C.repo + '/'):
            if short(f) == 'int_power':
                one(R, f, lambda: one_power(W, R, None, f, 'int'))
            elif f['sn'].split('<')[0] == 'clo_exp':
                one(R, f, lambda: one_power(W, R, None, f, 'given'))


def one(R, f, go):
    try:
        go()
    except (alg.Undecided, Unknown) as e:
        R.und(f, e)


def one_power(W, R, c, f, kind):
    ch = 2 if c and alg.CHAR2.search(c) else 0
    if kind == 'residue':
        noin = ['recip']
        summ = {k: v for k, v in specs.residue_summaries(c, W).items() if k[1] == 'recip'}
        rec = Rec(W, f, [c], noin, summ, ch)
    elif kind == 'fraction':
        rec = Rec(W, f, [c], [], {}, ch)
    else:
        rec = Rec(W, f, [], [], {}, ch)
    r = rec.r
    R.paths += len(rec.rets)
    ek = exponent_param(f)
    if not ek:
        raise AnalysisBroken('%s takes no exponent' % f['dem'])
    E = single(r.vals[ek[-1]][0])
    base = {}
    zero = {}
    consts = {}
    if kind == 'residue':
        gx, gm = r.obs(r.s0, r.vals[0][0], c, RES)
        base = {single(gx): V('x'), single(gm): V('m')}
        zero = {single(gx): const(0), single(gm): V('m')}
        gm = V('m')
        results = lambda st, rv: r.obs(st, r.args[r.sret] if r.sret is not None else rv, c, RES)
        make = lambda sub: ResidueModel(rec, sub, gm, gx)
        want = lambda n: (power(V('x'), n) if n >= 0 else power(V('j'), -n), gm)
        want0 = lambda n: (const(0), gm)
    elif kind == 'fraction':
        gn, gd = r.obs(r.s0, r.vals[0][0], c, FRA)
        base = {single(gn): V('n'), single(gd): V('d')}
        zero = {single(gn): const(0), single(gd): const(1)}
        results = lambda st, rv: r.obs(st, r.args[r.sret] if r.sret is not None else rv, c, FRA)
        make = lambda sub: FractionModel(rec, sub)
        want = lambda n: (power(V('n' if n >= 0 else 'd'), abs(n)), power(V('d' if n >= 0 else 'n'), abs(n)))
        want0 = lambda n: (const(0), const(1))
    else:
        k0 = 0
        if kind == 'given':
            ks = [k for k in range(len(r.vals)) if k != ek[-1] or True]
            x = r.vals[0][0]
        def val(k):
            v, dt = r.vals[k]
            return v if isp(v) else rec.value(r.s0, v, strip(dt))
        x = val(0)
        others = [k for k in range(1, len(r.vals)) if k != ek[-1]]
        base = {single(x): V('x')}
        zero = {single(x): const(0)}
        if kind == 'matrix':
            for k in others:
                consts[single(val(k))] = const(1)
        if kind == 'given':
            # (value, exponent, zero, one)
            ek = [1]
            E = single(r.vals[1][0])
            for k in (2, 3):
                consts[single(val(k))] = const(k - 2)
        rt = r.rt
        results = lambda st, rv: ((rv if isp(rv) else rec.value(st, r.args[r.sret] if r.sret is not None else rv, rt)),)
        make = lambda sub: Model(rec, sub)
        want = lambda n: (power(V('x'), n),)
        want0 = lambda n: (const(0),)
    if E is None or None in base or None in consts:
        raise Unknown('the operand is not a single value')
    inverse = kind in ('residue', 'fraction')
    counters = {E}
    for K, (H, ein, eback) in rec.loops.items():
        for i, cell in rec.cells.get(K, {}).items():
            if any(isp(x) and E in atoms_in(x) for x in [rec.at(K, st, env, cell) for st, env in ein]):
                counters.add(i)
    proved = refuted = 0
    whys = []
    for n in EXPS:
        for label, b in (('generic', base), ('zero', zero)):
            if n < 0 and kind in ('int', 'matrix', 'given'):
                continue            # no meaning given
            if label == 'zero' and (n == 0 and kind not in ('residue', 'fraction', 'ring') or kind == 'matrix'):
                continue
            expect = None
            if n > 0 or n == 0 and label == 'generic':
                expect = want(n if n < 100 else n % CYCLE) if label == 'generic' else want0(n)
            elif n < 0 and label == 'generic' and inverse:
                expect = want(n)
            elif n < 0 and label == 'generic':
                expect = None       # not invertible
            if n > 100 and kind in ('fraction', 'int'):
                continue
            m = make(dict(b) | {E: const(n)} | consts)
            m.exponent, m.zch = counters, ch
            m.cycle = 0 if n < 100 else CYCLE
            try:
                outs = outcomes(rec, m, results)
            except Unknown as e:
                whys.append('exponent %d, %s operand: %s' % (n, label, e))
                continue
            if expect is None:
                if outs and all(all(m.generic(x) for x in o) for o in outs):
                    refuted += 1
                    R.violations.append(viol(W, f, 'power', 'result', 'exponent %d of a %s: returns %s where the power is undefined'
                                             % (n, label if label == 'zero' else 'value without an inverse', show(outs[0][0]))))
                elif not outs:
                    proved += 1
                else:
                    whys.append('exponent %d, %s operand: returns %s' % (n, label, show(outs[0][0])[:80]))
                continue
            if not outs:
                whys.append('exponent %d, %s operand: no exit found' % (n, label))
                continue
            bad = [o for o in outs if not agree(o, expect, kind, ch)]
            if not bad:
                proved += 1
            elif any(all(m.generic(x) or x == e for x, e in zip(o, expect)) for o in bad):
                o = [o for o in bad if all(m.generic(x) or x == e for x, e in zip(o, expect))][0]
                refuted += 1
                R.violations.append(viol(W, f, 'power', 'result', 'exponent %d of %s: the recurrence ends in %s, not in %s'
                                         % (n, 'zero' if label == 'zero' else 'x', ' / '.join(show(x)[:80] for x in o if isp(x)), ' / '.join(show(x)[:60] for x in expect if isp(x)))))
            else:
                whys.append('exponent %d, %s operand: result %s' % (n, label, show(bad[0][0])[:100]))
    if refuted:
        return
    m = make(base | consts)
    m.exponent, m.zch = counters, ch
    inv = power_invariant(rec, m, ch)
    if whys or not inv:
        R.und(f, '; '.join(whys[:3]) or 'no invariant found')
    else:
        R.ok(f, 'power: R*X^E unchanged every way round %d loop(s), %d instances' % (inv, proved))


def agree(o, expect, kind, ch):
    if kind == 'fraction':
        d = add(mul(o[0], expect[1]), mul(expect[0], o[1]), -1)
        if ch:
            d = alg.modch(d, ch)
        return not d[1] and bool(o[1][1])
    for x, e in zip(o, expect):
        d = add(x, e, -1)
        if ch:
            d = alg.modch(d, ch)
        if d[1]:
            return False
    return True


class Projective(Model):
    """values up to what the operation may divide out: the modulus in residues, a common factor in fractions"""

    def atom(self, i, sig):
        return ('P', (((i,), 1),)) if T.keys[i][0] == 'PHI' else Model.atom(self, i, sig)

    def op(self, k, i):
        if k[0] in ('REM', 'CREM') and k[2] == self.m:
            return k[1]
        if k[0] in ('QUO', 'CDIV') and isp(k[2]):
            g = single(k[2])
            if g is not None and T.keys[g][0] == 'GCD' and any(k[1] in (x, neg(x)) for x in T.keys[g][1:3]):
                return k[1]
        return Model.op(self, k, i)


def power_invariant(rec, m0, zch):
    """every loop that counts an exponent down has cells R, X, E with R * X^E unchanged every way round and is left with
    E = 0.  Returns the number of such loops, or None when one of them is not of this kind."""
    n = 0
    for K, (H, ein, eback) in rec.loops.items():
        cells = rec.cells.get(K, {})
        M = Projective(rec, m0.sub, 0)
        M.m = getattr(m0, 'm', None)
        atom = lambda i: ('P', (((i,), 1),))
        back = [({i: M.ev(rec.at(K, st, env, c), {}) for i, c in cells.items()}, st) for st, env in eback]
        if not back:
            continue
        E = None
        for i in cells:
            if i in m0.exponent and all(b[i] in (A('lshr', atom(i), const(1)), A('ashr', atom(i), const(1)), A('CDIV', atom(i), const(2)), add(atom(i), const(1), -1)) for b, st in back):
                E = i
        if E is None:
            if any(i in m0.exponent for i in cells):
                return None
            continue
        live = [i for i in cells if i != E and all(isp(b[i]) for b, st in back)]
        rows = []
        for b, st in back:
            half = b[E] != add(atom(E), const(1), -1)
            # which parities of E the conditions of this way round allow
            low = [single(A('and', const(1), atom(E))), single(A('and', atom(E), const(1))), single(A('CREM', atom(E), const(2)))]
            may = []
            for bit in (0, 1):
                facts = [(('b', c[1]) + tuple(subst_atoms(x, {i: const(bit) for i in low}, 0) if isp(x) else x for x in c[2:]), t)
                         for c, t in st.facts.items()]
                if not any(c[1] in ('zero', 'lt') and all(isp(x) and isconst(x) for x in c[2:]) and
                           (cval(c[2]) == 0 if c[1] == 'zero' else cval(c[2]) < cval(c[3])) is not t for c, t in facts):
                    may.append(bit)
            odd = may == [1] if len(may) == 1 else None
            if half and odd is None:
                return None
            rows.append((b, 1 if not half else 1 if odd else 0, half))
        sq = [i for i in live if all(any(b[i] == s for s in signs(mul(atom(i), atom(i)) if half else atom(i))) for b, o, half in rows)]
        rs = [i for i in live if i not in sq and any(all(any(b[i] == s for s in signs(mul(atom(i), atom(x)) if o else atom(i))) for b, o, half in rows) for x in sq)]
        if not sq or not rs:
            return None
        for st, rv in rec.rets:
            if K in rec.mentions(*[x for c in st.facts for x in c[2:] if isinstance(x, tuple)]):
                if st.facts.get(('b', 'zero', atom(E))) is not True and st.facts.get(('b', 'lt', const(0), atom(E))) is not False:
                    return None
        n += 1
    return n


def signs(v):
    return (v, neg(v))


# ------------------------------------------------------------------ gcd
def gcds(W, R):
    todo = []
    for name in ('f2_poly_t', 'f2n_poly_t', 'fp_poly_t', 'fpn_poly_t', 'q_poly_t'):
        c = W.cls(P_ + name)
        if c is None:
            raise AnalysisBroken('class %s not found' % name)
        for f in W.methods(c):
            if short(f) in ('gcd', 'ext_gcd'):
                todo.append((c, f))
    for f in W.P.funcs.values():
        if not f.get('cls') and f['file'].startswith(W.C.repo + '/') and short(f) in ('int_gcd', 'int_ext_gcd'):
            todo.append((None, f))
    for c, f in todo:
        one(R, f, lambda: one_gcd(W, R, c, f))


class EuclidModel(Model):
    """operands r0 = q1*r1 + r2, r1 = q2*r2 + r3, ..., with the quotients q and the last r free variables"""

    def __init__(self, rec, sub, rows, ch):
        Model.__init__(self, rec, sub, ch)
        self.tab = {}
        for a, b, q, r in rows:
            for s in (1, -1):
                for t in (1, -1):
                    self.tab[sc(a, s, ch), sc(b, t, ch)] = (sc(q, s * t, ch), sc(r, s, ch))
                    if a != b:
                        self.tab.setdefault((sc(b, t, ch), sc(a, s, ch)), (const(0), sc(b, t, ch)) if q[1] else None)

    def op(self, k, i):
        if k[0] in ('CDIV', 'QUO', 'CREM', 'REM') and isp(k[1]) and isp(k[2]):
            if not k[2][1]:
                raise NoReturn
            if not k[1][1]:
                return const(0)
            x = self.tab.get((k[1], k[2]))
            if x is not None:
                return x[0] if k[0] in ('CDIV', 'QUO') else x[1]
        return Model.op(self, k, i)


def sc(v, s, ch):
    v = v if s == 1 else neg(v)
    return alg.modch(v, ch) if ch else v


def euclid(n, first, ch, g='g'):
    """rows of a Euclidean algorithm of n divisions; first: 0 when the smaller operand comes first"""
    c, d = mul(V('q%d' % n), V(g)), V(g)
    rows = [(c, d, V('q%d' % n), const(0))]
    for k in range(n - 1, 0, -1):
        a = add(mul(V('q%d' % k), c), d)
        rows.insert(0, (a, c, V('q%d' % k), d))
        c, d = a, c
    if first == 0:
        rows.insert(0, (d, c, const(0), d))
        c, d = d, c
    return c, d, rows


def one_gcd(W, R, c, f):
    ch = 2 if c and alg.CHAR2.search(c) else 0
    rec = Rec(W, f, [], ['quot_and_rem', 'operator/', 'operator%'], {}, ch)
    r = rec.r
    R.paths += len(rec.rets)
    ext = 'ext' in short(f)

    def val(k):
        v, dt = r.vals[k]
        return v if isp(v) else rec.value(r.s0, v, strip(dt))
    a, b = single(val(0)), single(val(1))
    if a is None or b is None:
        raise Unknown('operands')
    t = strip(r.vals[0][1])

    def results(st, rv):
        d = rv if isp(rv) else rec.value(st, r.args[r.sret] if r.sret is not None else rv, t)
        if not ext:
            return (d,)
        return (d,) + tuple(rec.value(st, r.vals[k][0], t) for k in (2, 3))
    cases = []
    for n in (1, 2, 3, 4):
        for first in (1, 0):
            A0, B0, rows = euclid(n, first, ch)
            cases.append(('%d division(s)%s' % (n, '' if first else ', smaller operand first'), A0, B0, rows, 'g'))
            if c and n > 1:
                cases.append(('%d division(s)%s, constant gcd' % (n, '' if first else ', smaller operand first'),) + euclid(n, first, ch, 'u') + ('u',))
    cases.append(('second operand zero', V('g'), const(0), [], 'g'))
    cases.append(('first operand zero', const(0), V('g'), [], 'g'))
    cases = [x + (s,) for x in cases for s in ([(1, 1)] if c else [(1, 1), (-1, 1), (1, -1), (-1, -1)])]
    whys, good, bad = [], 0, 0
    for label, A0, B0, rows, g, sg in cases:
        m = EuclidModel(rec, {a: sc(A0, sg[0], ch), b: sc(B0, sg[1], ch)}, rows, ch)
        m.zch = ch
        label += ''.join(', %s operand negative' % w for w, t in zip(('first', 'second'), sg) if t < 0)
        try:
            outs = outcomes(rec, m, results)
        except Unknown as e:
            whys.append('%s: %s' % (label, e))
            continue
        if not outs:
            if rows:
                whys.append('%s: no exit found' % label)
            continue
        for o in outs:
            if not all(m.generic(x) for x in o):
                whys.append('%s: result %s' % (label, show(o[0])[:80]))
                continue
            if o[0] not in (V(g), sc(V(g), -1, ch)):
                bad += 1
                R.violations.append(viol(W, f, 'gcd', 'result', 'operands with gcd %s after %s: the recurrence ends in %s' % (g, label, show(o[0])[:120])))
                break
            if ext:
                d = add(add(o[0], mul(o[1], m.sub[a]), -1), mul(o[2], m.sub[b]), -1)
                if ch:
                    d = alg.modch(d, ch)
                if d[1]:
                    bad += 1
                    R.violations.append(viol(W, f, 'cofactors', 'result', '%s: gcd - m*a - n*b is %s, not 0' % (label, show(d)[:120])))
                    break
            good += 1
    if bad:
        return
    if whys:
        R.und(f, '; '.join(whys[:3]))
    elif not ideal_invariant(rec, ext, a, b, ch, results):
        R.und(f, 'no invariant found')
    else:
        R.ok(f, 'gcd' + (' and cofactors' if ext else ''))


class Linear(Model):
    """remainders written as dividend minus quotient times divisor"""

    def atom(self, i, sig):
        return ('P', (((i,), 1),)) if T.keys[i][0] == 'PHI' else Model.atom(self, i, sig)

    def op(self, k, i):
        if k[0] in ('REM', 'CREM') and isp(k[1]) and isp(k[2]):
            return add(k[1], mul(k[2], A('QUO' if k[0] == 'REM' else 'CDIV', k[1], k[2])), -1)
        return Model.op(self, k, i)


def subst_atoms(v, rules, ch):
    """top-level substitution of atoms (quotients stay names)"""
    r = const(0)
    for mono, c in v[1]:
        t = const(c)
        for i in mono:
            t = mul(t, rules.get(i, ('P', (((i,), 1),))))
        r = add(r, t)
    return alg.modch(r, ch) if ch else r


def ideal_invariant(rec, ext, a, b, ch, results):
    """the pair the loop works on always generates the ideal of the operands, and (ext) every row x = y*a + z*b"""
    atom = lambda i: ('P', (((i,), 1),))
    M = Linear(rec, {}, 0)
    plain = Projective(rec, {}, 0)
    plain.m = None
    for K, (H, ein, eback) in rec.loops.items():
        cells = rec.cells.get(K, {})
        ins = [{i: rec.at(K, st, env, c) for i, c in cells.items()} for st, env in ein]
        backs = [({i: rec.at(K, st, env, c) for i, c in cells.items()}, st) for st, env in eback]
        live = [i for i in cells if all(isp(x[i]) for x in ins) and all(isp(x[i]) for x, st in backs)]
        # the pair
        pair = None
        for x in live:
            for y in live:
                if x == y or not all({frozenset(signs(e[x])), frozenset(signs(e[y]))} == {frozenset(signs(atom(a))), frozenset(signs(atom(b)))} for e in ins):
                    continue
                if all(e[x] in signs(atom(y)) and any(e[y] in signs(A(h, atom(x), atom(y))) for h in ('REM', 'CREM')) for e, st in backs):
                    pair = (x, y)
        if pair is None:
            return False
        x, y = pair
        for st, rv in rec.rets:
            res = results(st, rv)
            if K not in rec.mentions(*res, *[z for c in st.facts for z in c[2:] if isinstance(z, tuple)]):
                continue
            z0 = [c[2] for c, t in st.facts.items() if t and c[1] == 'zero']
            if res[0] in signs(atom(y)) and any(A(h, atom(x), atom(y)) in z0 for h in ('REM', 'CREM')):
                continue
            if res[0] in signs(atom(x)) and atom(y) in z0:
                continue
            return False
        if not ext:
            continue
        ins = [{i: M.ev(e[i], {}) for i in live} for e in ins]
        backs = [({i: M.ev(e[i], {}) for i in live}, st) for e, st in backs]
        red = (lambda v: alg.modch(v, ch)) if ch else (lambda v: v)
        row = lambda e, t: red(add(add(e[t[0]], mul(e[t[1]], atom(a)), -1), mul(e[t[2]], atom(b)), -1))
        rows = [(p, q, s) for p in pair for q in live for s in live if len({p, q, s}) == 3 and all(not row(e, (p, q, s))[1] for e in ins)]
        while True:
            keep = []
            for t in rows:
                okay = True
                for e, st in backs:
                    v = row(e, t)
                    # rewrite by the rows that hold before the round
                    best = False
                    for pick in choices(rows, v):
                        if not subst_atoms(v, {p: add(mul(atom(q), atom(a)), mul(atom(s), atom(b))) for p, q, s in pick}, ch)[1]:
                            best = True
                            break
                    okay = okay and best
                if okay:
                    keep.append(t)
            if keep == rows:
                break
            rows = keep
        for st, rv in rec.rets:
            res = tuple(M.ev(z, {}) for z in results(st, rv))
            v = red(add(add(res[0], mul(res[1], atom(a)), -1), mul(res[2], atom(b)), -1))
            if not any(not subst_atoms(v, {p: add(mul(atom(q), atom(a)), mul(atom(s), atom(b))) for p, q, s in pick}, ch)[1] for pick in choices(rows, v)):
                zr = {single(c[2]): const(0) for c, t in st.facts.items() if t and c[1] == 'zero' and single(c[2]) is not None}
                if subst_atoms(v, zr, ch)[1]:
                    return False
    return True


def choices(rows, v):
    """ways of choosing one row for every first column v mentions"""
    import itertools
    top = {i for m, c in v[1] for i in m}
    by = {}
    for t in rows:
        if t[0] in top:
            by.setdefault(t[0], []).append(t)
    if not by:
        return [()]
    return itertools.islice(itertools.product(*by.values()), 4096)


def loop_identities(W, R):
    powers(W, R)
    gcds(W, R)
