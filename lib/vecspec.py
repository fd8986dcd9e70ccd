"""What the operations of vectors and matrices have to leave behind, element by element."""
import alg, absint, specs
from alg import A, const, add, mul, neg, isp, isconst, cval, atoms_in, T
from absint import params, strip
from specs import Run, Path, short, sig, viol, atoms_in

LEN = ('get_num_elements',)
DIM = ('get_num_rows', 'get_num_cols')


def kind(W, c):
    """vector, matrix or neither; and the class of the elements"""
    def at():
        for f in W.methods(c):
            if short(f) == 'operator[]' and sig(f) == ['int'] and f.get('const'):
                return strip(f['dts'][0])
        for f in W.methods(c):
            if short(f) == 'operator[]' and sig(f) == ['int']:
                return strip(f['dts'][0])
    if '<' not in c:
        return None, None, None
    if all(W.find(c, x, 1) for x in DIM):
        r = at()
        if r and W.find(r, LEN[0], 1):
            return 'm', r, kind(W, r)[2]
    elif W.find(c, LEN[0], 1):
        return 'v', None, at()
    return None, None, None


class Shape:
    """reading dimensions and elements through the public interface"""
    def __init__(self, W, c):
        self.W, self.c = W, c
        self.k, self.row, self.el = kind(W, c)

    def dims(self, run, st, ptr):
        return run.obs(st, ptr, self.c, LEN if self.k == 'v' else DIM)

    def at(self, run, st, ptr, idx):
        """(value, state) of the element at idx in state st"""
        W, G = self.W, run.G
        f = W.find(self.c, 'operator[]', 2)
        if f is None:
            raise alg.Undecided('no operator[]')
        st = st.copy()
        sret, ps = params(f)
        args = [('ptr', ('null',), const(0))] * len(f['args'])
        args[ps[0][0]] = ptr
        args[ps[1][0]] = idx[0]
        rec, G.recording = G.recording, False
        try:
            r = G.run(f, args, st, ('observe',))
        finally:
            G.recording = rec
        if len(r) != 1:
            raise alg.Undecided('operator[] has %d outcomes' % len(r))
        s2, rv = r[0]
        if not alg.isptr(rv):
            raise alg.Undecided('operator[] yields no reference')
        if self.k == 'm':
            rv = G.elemptr(rv, idx[1])
        return G.get(s2, rv[1], rv[2])


def place(name):
    return A('init', ('glob', '#' + name), 0, name)


def bound(G, st, i, n):
    G.assume(st, alg.lt(i, n), True)
    G.assume(st, alg.lt(i, const(0)), False)
    return st


# ------------------------------------------------------------------ definitions
class Goal:
    """what one object has to hold afterwards: dims (None: whatever they are), elements, and further positions to look at"""
    def __init__(self, where, dims, fn, parts=()):
        self.where, self.dims, self.fn, self.parts = where, dims, fn, parts


def rowlen(G, v):
    """the number of elements of a vector value"""
    for _ in range(9):
        i = alg.single(v) if v is not None and isp(v) else None
        k = T.keys[i] if i is not None else None
        if k and k[0] == 'ROW':
            v = k[1]
        elif k and k[0] == 'ctor' and len(k) == 4 and k[2] == 'int':
            return k[3]
        elif k and k[0] == 'ctor' and len(k) == 6 and k[3] == 'int':
            return k[5]
        else:
            return None


OPS = {'operator+': '+', 'operator-': '-', 'operator*': '*', 'operator+=': '+', 'operator-=': '-', 'operator*=': '*', 'mult_by': '*'}
NAMES = set(OPS) | {'operator=', 'transpose', 'flip_horiz', 'flip_vert', 'flip_horiz_vert', 'dot', 'get_column', 'put_column', 'make_I',
                    'paste', 'paste_vector', 'split', 'accum_row_mul'}
last = lambda n, i: add(add(n, i, -1), const(1), -1)


def goals(S, c, f, run):
    """([goal], pairs of sizes that have to agree) for operation f, or None"""
    W, G = S.W, run.G
    sn, sg = short(f), sig(f)
    if f.get('cls') != c or f.get('static'):
        return None
    s0 = run.s0
    me = run.vals[0][0]
    isctor = sn == c.split('<')[0].split('::')[-1]
    V = c if S.k == 'v' else S.row
    ch = G.char(S.el)
    bop = OPS.get(sn)
    place_ = 'result' if strip((f.get('dts') or ['void'])[0]) in (c, V) else 'this'

    def val(k):
        """element-typed (or integer) parameter k"""
        v, dt = run.vals[k]
        return G.get(s0, v[1], v[2]) if alg.isptr(v) else v

    def own(ptr):
        D = S.dims(run, s0, ptr)

        def get(st, idx):
            for i, n in zip(idx, D):
                bound(G, st, i, n)
            return S.at(run, st, ptr, idx)
        return D, get

    def vec(ptr):
        """a vector operand of a matrix operation"""
        v = G.objval(s0, ptr, V)
        n = A('APP', next(iter(G.lengths(V)), 'length'), v)
        return n, lambda st, i: G.get(st, *G.elemptr(ptr, i)[1:])

    def ap(x, y):
        if x is None or y is None:
            return None
        return add(x, y, 1, ch) if bop == '+' else add(x, y, -1, ch) if bop == '-' else mul(x, y, ch)
    if isctor:
        if sg == [c]:
            D, g = own(run.vals[1][0])
            return [Goal('this', D, g), Goal(1, D, g)], []
        if S.k == 'v' and sg == [S.el, 'int'] or S.k == 'm' and sg == [S.el, 'int', 'int']:
            ds = tuple(val(k) for k in range(2, len(run.vals)))
            return [Goal('this', ds, lambda st, idx: val(1))], []
        if sg in (['int'], ['int', 'int']) and len(sg) == (1 if S.k == 'v' else 2):
            return [Goal('this', tuple(val(k) for k in range(1, len(run.vals))), None)], []
        return None
    if sn not in NAMES:
        return None
    D, g = own(me)
    same = Goal('this', D, g)           # the object itself is left alone
    if sn == 'operator=' and sg == [c]:
        D2, g2 = own(run.vals[1][0])
        return [Goal('this', D2, g2), Goal('result', D2, g2), Goal(1, D2, g2)], []
    if sn == 'operator=' and sg == [S.el]:
        return [Goal('this', None, lambda st, idx: val(1)), Goal('result', None, lambda st, idx: val(1))], []

    def put(D, fn, eqs):
        if sn.endswith('=') or sn == 'mult_by':
            return [Goal('this', D, fn), Goal('result', D, fn)], eqs
        return [same, Goal('result', D, fn)], eqs
    if bop and sg == [c] and (S.k == 'v' or bop != '*'):
        D2, g2 = own(run.vals[1][0])
        o = put(D, lambda st, idx: ap(g(st, idx), g2(st, idx)), list(zip(D, D2)))
        if run.vals[1][0] != me:
            o[0].append(Goal(1, D2, g2))
        return o
    if sn == 'operator-' and not sg:
        return put(D, lambda st, idx: neg(g(st, idx), ch), [])
    if bop == '*' and sg == [S.el]:
        return put(D, lambda st, idx: ap(g(st, idx), val(1)), [])
    if S.k == 'v':
        if sn == 'dot' and sg == [c]:
            D2, g2 = own(run.vals[1][0])
            k = A('IDX', 'sum')
            return [same, Goal('scalar', (), lambda st, idx: alg.mksum(mul(g(st, (k,)), g2(st, (k,)), ch), D[0], 'sum'))], list(zip(D, D2))
        if sn == 'accum_row_mul' and sg == [S.el, S.el, c]:
            D2, g2 = own(run.vals[3][0])
            o = [Goal('this', D, lambda st, idx: add(mul(g(st, idx), val(1), ch), mul(g2(st, idx), val(2), ch), -1, ch))]
            return o + ([Goal(3, D2, g2)] if run.vals[3][0] != me else []), list(zip(D, D2))
        return None
    if sn == 'transpose' and not sg:
        return put((D[1], D[0]), lambda st, idx: g(st, (idx[1], idx[0])), [])
    if sn == 'flip_horiz' and not sg:
        return put(D, lambda st, idx: g(st, (idx[0], last(D[1], idx[1]))), [])
    if sn == 'flip_vert' and not sg:
        return put(D, lambda st, idx: g(st, (last(D[0], idx[0]), idx[1])), [])
    if sn == 'flip_horiz_vert' and not sg:
        return put(D, lambda st, idx: g(st, (last(D[0], idx[0]), last(D[1], idx[1]))), [])
    i, j = place('i'), place('j')
    k = A('IDX', 'sum')
    if bop == '*' and sg == [c]:
        D2, g2 = own(run.vals[1][0])
        fn = lambda st, idx: alg.mksum(mul(g(st, (idx[0], k)), g2(st, (k, idx[1])), ch), D[1], 'sum')
        return put((D[0], D2[1]), fn, [(D[1], D2[0])])
    if sn == 'operator*' and sg == [V]:
        n, g2 = vec(run.vals[1][0])
        return [same, Goal('row', (D[0],), lambda st, idx: alg.mksum(mul(g(st, (idx[0], k)), g2(st, k), ch), D[1], 'sum'))], [(D[1], n)]
    if bop in ('+', '-') and sg == [S.el]:
        # on the diagonal only
        parts = [((i, i), [], lambda st: ap(g(st, (i, i)), val(1))),
                 ((i, j), [(alg.eq(i, j), False)], lambda st: g(st, (i, j)))]
        o, eqs = put(D, None, [(D[0], D[1])])
        for x in o:
            if x.fn is None:
                x.parts = parts
        return o, eqs
    if sn == 'make_I' and sg == [S.el, S.el]:
        return [same, Goal('result', D, None, [((i, i), [], lambda st: val(2)), ((i, j), [(alg.eq(i, j), False)], lambda st: val(1))])], [(D[0], D[1])]
    if sn == 'get_column' and sg == ['int']:
        return [same, Goal('row', (D[0],), lambda st, idx: g(st, (idx[0], val(1))))], []
    if sn == 'put_column' and sg == ['int', V]:
        n, g2 = vec(run.vals[2][0])
        cc = val(1)
        return [Goal('this', D, None, [((i, cc), [], lambda st: g2(st, i)), ((i, j), [(alg.eq(j, cc), False)], lambda st: g(st, (i, j)))])], [(D[0], n)]
    if sn == 'paste' and sg == [c]:
        D2, g2 = own(run.vals[1][0])
        return [same, Goal('result', (D[0], add(D[1], D2[1])), None, [
            ((i, j), [(alg.lt(j, D[1]), True)], lambda st: g(st, (i, j))),
            ((i, add(D[1], j)), [(alg.lt(j, D2[1]), True)], lambda st: g2(st, (i, j)))])], [(D[0], D2[0])]
    if sn == 'paste_vector' and sg == [V]:
        n, g2 = vec(run.vals[1][0])
        return [same, Goal('result', (D[0], add(D[1], const(1))), None, [
            ((i, j), [(alg.lt(j, D[1]), True)], lambda st: g(st, (i, j))),
            ((i, D[1]), [], lambda st: g2(st, i))])], [(D[0], n)]
    if sn == 'split' and sg == [c, c, 'int']:
        cc = val(3)
        return [same, Goal(1, (D[0], cc), lambda st, idx: g(st, idx)),
                Goal(2, (D[0], add(D[1], cc, -1)), lambda st, idx: g(st, (idx[0], add(idx[1], cc))))], []
    return None


def clear(v, ok):
    """interpreted through and through: nothing but parameters, elements of parameters and arithmetic"""
    if v is None:
        return False
    for i in atoms_in(v):
        if i in ok:
            continue
        k = T.keys[i]
        if k[0] == 'APP' and len(k) == 3 and 'get_num_elements' in k[1]:
            continue
        if k[0] in specs.OPAQUE or k[0] == 'ROW' or (k[0] == 'SEL' and alg.lostbase(k[1])):
            return False
        if k[0] == 'SEL' and k[1][0] != 'base':
            return False
    return True


def asbuilt(v):
    """a value no statement of the operation chose: the element as constructed"""
    if v is None:
        return False
    ks = [T.keys[i][0] for i in atoms_in(v)]
    return bool(ks) and ('ctor' in ks or 'OUT' in ks) and not {'PHI', 'TOP'} & set(ks) and not any(
        T.keys[i][0] == 'SEL' and T.keys[i][1][0] != 'base' for i in atoms_in(v))


def has(v, kind):
    return any(T.keys[i][0] == kind for i in atoms_in(v))


def settle(v, facts, depth=0):
    """[(facts, value)]: every choice in v made, in each way the facts leave open"""
    from polyspec import Lin
    pick = []

    def f(key):
        if key[0] == 'SELECT' and not pick and not any(T.keys[i][0] == 'BIX' for i in atoms_in(key[1])):
            pick.append(key)
        return None
    alg.subst(v, f)
    if not pick:
        return [(facts, v)]
    if depth > 6:
        raise alg.Undecided('too many choices')
    key = pick[0]
    if key[1][1] not in ('lt', 'zero'):
        raise alg.Undecided('choice by another condition')
    out = []
    for t, x in ((True, key[2]), (False, key[3])):
        more = facts + [(key[1], t)]
        if Lin({}, more).dead():
            continue
        w = alg.subst(v, lambda k: x if k == key else None)
        if t and key[1][1] == 'zero' and isp(key[1][2]):
            w = given(w, key[1][2])
        out += settle(w, more, depth + 1)
    return out


def given(v, z):
    """v, knowing that z is zero"""
    for m, c in z[1]:
        if len(m) == 1 and c in (1, -1) and T.keys[m[0]][0] not in ('IDX',):
            k, r = T.keys[m[0]], mul(const(-c), add(z, A(*T.keys[m[0]]), -c))
            if m[0] not in atoms_in(r):
                return alg.subst(v, lambda key: r if key == k else None)
    return v


def choices(diff, facts, ok):
    """is the difference zero whatever is chosen (True), nonzero for some choice that occurs (False), or neither"""
    res = True
    for f, d in settle(diff, facts):
        if has(d, 'SELECT'):
            tot, n = const(0), None
            j = A('IDX', 90)
            for mono, c in d[1]:
                k = T.keys[mono[0]] if len(mono) == 1 else ('',)
                if k[0] != 'SUM' or n not in (None, k[2]):
                    return None
                n = k[2]
                tot = add(tot, mul(const(c), alg.subst(k[1], lambda key: j if key == ('BIX', k[3]) else None)))
            for f2, t in settle(tot, f + [(alg.lt(j, const(0)), False), (alg.lt(j, n), True)]):
                if t == const(0):
                    continue
                if clear(t, ok) and occurs(f2):
                    return False
                res = None
        elif d != const(0):
            if clear(d, ok) and occurs(f):
                return False
            res = None
    return res


def numeral(k):
    """a quantity that is a number: a position or a size"""
    return k[0] == 'IDX' or k[0] == 'APP' and len(k) == 3 and 'get_num_' in k[1] or k[0] == 'init' and isinstance(k[1], tuple) and (k[1][0] == 'glob' or 'num' in str(k[-1]))


def direct(c):
    """the quantities compared by a condition"""
    return [i for p in c[2:] if isp(p) for m, k in p[1] for i in m]


def occurs(facts):
    """are there small numbers that satisfy these conditions, all of them about numbers only?"""
    import itertools
    ids = []
    for c, t in facts:
        for i in direct(c):
            if not numeral(T.keys[i]):
                return False
            if i not in ids:
                ids.append(i)
    if len(ids) > 5:
        return False
    for w in itertools.product(range(0, 6), repeat=len(ids)):
        at = dict(zip(ids, w))

        def ev(p):
            r = 0
            for m, c in p[1]:
                for i in m:
                    c *= at[i]
                r += c
            return r
        if all((ev(c[2]) < ev(c[3]) if c[1] == 'lt' else ev(c[2]) == 0) == t for c, t in facts):
            return True
    return False


def one(W, R, c, f, al):
    S = Shape(W, c)
    if short(f) not in NAMES and short(f) != c.split('<')[0].split('::')[-1]:
        return
    what = short(f) + '(' + ', '.join(sig(f)) + ')' + (' on itself' if al is not None else '')
    try:
        run = Run(W, f, [c], alias=al, ch=2 if alg.CHAR2.search(S.el or "") else 0)
        d = goals(S, c, f, run)
    except alg.Undecided as e:
        R.und(f, e)
        return
    if d is None:
        return
    todo, same = d
    good = True
    for p in run.paths:
        R.paths += 1
        if al is not None and any(t and k[1] == 'isnull' for k, t in p.st.facts.items()):
            continue        # an empty object: there are no elements to speak of
        for x, y in same:
            if p.n(x) != p.n(y) and not p.known(alg.eq(x, y)) and al is None:
                good = False
                R.violations.append(viol(W, f, 'elementwise', what, 'returns normally without having checked that the sizes %s and %s agree' % (alg.show(x), alg.show(y))))
        for g in todo:
            try:
                ok = element_check(W, R, S, f, run, p, g, same, what)
            except alg.Undecided as e:
                R.und(f, '%s: %s' % (g.where, e))
                ok = None
            if ok is not True:
                good = False
    if good and run.paths:
        R.ok(f, what)


def element_check(W, R, S, f, run, p, g, same, what):
    G = run.G
    D, fn = g.dims, g.fn
    name = {'this': '*this', 'result': 'its result', 'row': 'its result', 'scalar': 'its result'}.get(g.where) or 'parameter %d' % g.where
    bad = lambda msg: R.violations.append(viol(W, f, 'elementwise', what, msg))
    if g.where == 'scalar':
        ptr = None
        got = ()
    elif g.where == 'row':
        ptr = run.args[run.sret] if run.sret is not None else None
        if ptr is None:
            raise alg.Undecided('result not found')
        got = (rowlen(G, G.objval(p.st, ptr, S.row)),)
        if got[0] is None:
            raise alg.Undecided('length of the result not known')
    else:
        ptr = run.result(p, S.c) if g.where == 'result' else run.vals[0][0] if g.where == 'this' else run.vals[g.where][0]
        if ptr is None and g.where == 'result' and strip((f.get('dts') or ['void'])[0]) != S.c:
            return True         # returns something else (void, or a row)
        if ptr is None:
            raise alg.Undecided('result not found')
        got = S.dims(run, p.st, ptr)
    if D is None:
        D = got         # any size will do
    for x, y, lab in zip(got, D, ('number of elements',) if len(D) == 1 else ('number of rows', 'number of columns')):
        if not p.known(alg.eq(x, y)) and p.n(x) != p.n(y):
            if clear(p.n(x), atoms_in(p.n(y))):
                bad('%s of %s is %s, not %s' % (lab, name, alg.show(p.n(x)), alg.show(p.n(y))))
            else:
                R.und(f, '%s of %s is %s' % (lab, name, alg.show(p.n(x))[:60]))
            return False
    names = ('i', 'j')[:len(D)]
    sym = tuple(place(n) for n in names)
    trials = []
    if fn is not None:
        if D == ():
            trials = [((), [], lambda st: fn(st, ()))]
        elif any(isconst(n) for n in D):
            z = (const(0),) * len(D)
            trials = [(z, [], lambda st: fn(st, z))]
        else:
            trials = [(sym, [], lambda st: fn(st, sym))]
            for k in range(len(D)):
                for b in {const(0), add(D[k], const(1), -1)}:
                    x = sym[:k] + (b,) + sym[k + 1:]
                    trials.append((x, [], lambda st, x=x: fn(st, x)))
    trials += list(g.parts)
    res = True
    for idx, cond, f2 in trials:
        st = p.st.copy()
        s0 = run.s0.copy()
        s0.facts.update(p.st.facts)
        for k, (i, n) in enumerate(zip(idx, D)):
            alts = {n, got[k]} | {x for a in same for x in a if p.n(x) == p.n(n)}
            for m in alts:
                for q in (st, s0):
                    bound(G, q, i, m)
                    G.assume(q, alg.lt(const(0), m), True)
        for i in sym:
            for q in (st, s0):
                G.assume(q, alg.lt(i, const(0)), False)
        for cc, t in cond:
            for q in (st, s0):
                G.assume(q, cc, t)
        want = f2(s0)
        if g.where == 'scalar':
            have = p.rv if run.sret is None else G.get(st, *run.args[run.sret][1:])
        elif g.where == 'row':
            have = G.get(st, *G.elemptr(ptr, idx[0])[1:])
        else:
            have = S.at(run, st, ptr, idx)
        if want is None:
            raise alg.Undecided('operand element not readable')
        want = p.n(G.resolve(st, want))
        h = p.n(G.resolve(st, have)) if have is not None else None
        if h == want:
            continue
        ok = set(atoms_in(want))
        if h is not None and has(h, 'SELECT'):
            v = choices(add(h, want, -1), [x for x in st.facts.items() if x[0][1] in ('lt', 'zero') and all(numeral(T.keys[i]) for i in direct(x[0]))], ok)
            if v is True:
                continue
            if v is False:
                bad('element (%s) of %s is %s instead of %s' % (', '.join(alg.show(x) for x in idx), name, alg.show(h)[:260], alg.show(want)[:160]))
                return False
            R.und(f, '%s at %s: %s instead of %s' % (name, [alg.show(x) for x in idx], alg.show(h)[-160:], alg.show(want)[-160:]))
            res = None if res else res
            continue
        if h is None or not clear(h, ok):
            if idx is not sym and h is not None and asbuilt(h):
                pass
            else:
                R.und(f, '%s at %s: %s instead of %s' % (name, [alg.show(x) for x in idx], alg.show(h)[-160:] if h is not None else 'nothing known', alg.show(want)[-160:]))
                res = None if res else res
                continue
        bad('element (%s) of %s is %s instead of %s' % (', '.join(alg.show(x) for x in idx), name, alg.show(h)[:160], alg.show(want)[:160]))
        return False
    return res


def vectors(W, R, only=None):
    for c in sorted(W.P.classes):
        if only and c != only or not W.I.is_repo_class(c):
            continue
        k, row, el = kind(W, c)
        if not k:
            continue
        for f in W.methods(c):
            als = [None] + [i + 1 for i, t in enumerate(sig(f)) if t == c and short(f) != c.split('<')[0] and short(f) != 'split']
            for al in als:
                alg.reset()
                W._obs.clear()
                one(W, R, c, f, al)
