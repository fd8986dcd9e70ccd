"""What the analysis knows about this code base: the representation invariants of its
value classes (resolved by member, with a fall-back on member types), and which calls
are analysed in the caller's state."""
import re
import absint as A
from absint import Lin, INF, ZERO, ATOMS, Ptr, lsub, ladd, lscale, _off, cellkey
from ir import REPO, AnalysisBroken, is_header_declared


def base(cls):
    out, d = '', 0
    for ch in cls:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out += ch
    return out.split('::')[-1].strip()


MAXN = 2**30 - 1      # objects handed in are assumed to hold at most this many elements (never checked)


class Inv:
    """array members: [(pointer member, f(state values) -> count Lin)], scalar facts"""

    def __init__(self, cls):
        self.cls = cls
        self.arrays = []      # (ptr offset, count offset, plus, element size, exact kind)
        self.ranges = []      # (offset, lo, hi)
        self.les = []         # (offset a, offset b, c): a - b <= c
        self.cond = []        # (guard, concl) builders for intmod
        self.words = None     # (words off, num_words off, num_bits off)
        self.maybe_null = set()
        self.caps = []        # further counts subject to the MAXN assumption

    def owns(self, path):
        return True

    # ---- assume on a fresh object
    def assume(self, I, s, r, b, key, name):
        def cell(o):
            return s.get(r, _off(b, o))
        for (o, lo, hi) in self.ranges:
            v = cell(o)
            if isinstance(v, Lin):
                if lo is not None:
                    s.assume_le(ladd(Lin(lo), v, -1))
                if hi is not None:
                    s.assume_le(ladd(v, Lin(-hi)))
        for o in self.caps:
            v = cell(o)
            if isinstance(v, Lin):
                s.assume_le(Lin(v.c - MAXN, v.t))
        for (x, y, c) in self.les:
            v, w = cell(x), cell(y)
            if isinstance(v, Lin) and isinstance(w, Lin):
                d = lsub(v, w)
                s.assume_le(Lin(d.c - c, d.t))
        if self.words:
            wo, no, bo = self.words
            nb = cell(bo)
            if isinstance(nb, Lin):
                s.assume_le(Lin(nb.c - MAXN, nb.t))
                q = I.divatom(s, Lin(nb.c + 63, nb.t), 64)
                s.set(r, _off(b, no), q)
                p = cell(wo)
                if isinstance(p, Ptr):
                    s.rsz[p.r] = lscale(q, 8)
        for (po, co, plus, es) in self.arrays:
            p, n = cell(po), cell(co)
            if isinstance(p, Ptr) and isinstance(n, Lin):
                s.assume_le(Lin(n.c - MAXN, n.t))
                k = key + ('cap', po)
                cap = I.fresh(s, k, 0, INF, (p.r.name or 'array') + '.capacity')
                d = lsub(Lin(n.c + plus, n.t), cap)
                s.assume_le(d)
                s.rsz[p.r] = lscale(cap, es)
                if plus > 0:
                    s.null[p.r] = 'nonnull'
        for (ro, mo) in self.cond:
            v, m = cell(ro), cell(mo)
            if isinstance(v, Lin) and isinstance(m, Lin):
                g = ladd(Lin(1), m, -1)                       # 1 - m <= 0
                s.imp = s.imp + ((g, lscale(v, -1)), (g, Lin(lsub(v, m).c + 1, lsub(v, m).t)))

    # ---- check on an object: list of (what, ok)
    def check(self, I, s, r, b):
        out = []

        def cell(o):
            return s.get(r, _off(b, o))

        def nm(o):
            for (fo, sz, dt, path, ow) in I.layout(self.cls):
                if fo == o:
                    return path
            return '+%d' % o
        for (o, lo, hi) in self.ranges:
            v = cell(o)
            if v is None:
                continue
            if not isinstance(v, Lin):
                if isinstance(v, A.B):
                    ok = lo is not None and lo <= 0 and (hi is None or hi >= 1)
                    out.append(('range', nm(o), ok, '%s not shown to be in [%s,%s]' % (nm(o), lo, hi)))
                    continue
                out.append(('range', nm(o), False, '%s not shown to be in [%s,%s]' % (nm(o), lo, hi)))
                continue
            ok = (lo is None or s.le(ladd(Lin(lo), v, -1))) and (hi is None or s.le(ladd(v, Lin(-hi))))
            out.append(('range', nm(o), ok, '%s not shown to be in [%s,%s]' % (nm(o), lo, hi)))
        for (x, y, c) in self.les:
            v, w = cell(x), cell(y)
            if isinstance(v, Lin) and isinstance(w, Lin):
                d = lsub(v, w)
                out.append(('order', nm(x), s.le(Lin(d.c - c, d.t)), '%s not shown to be within %s' % (nm(x), nm(y))))
        arrs = [(po, co, plus, es, None) for (po, co, plus, es) in self.arrays]
        if self.words:
            arrs.append((self.words[0], self.words[1], 0, 8, self.words[2]))
        for (po, co, plus, es, bo) in arrs:
            p, n = cell(po), cell(co)
            if p is None and n is None:
                continue
            if not isinstance(p, Ptr) or not isinstance(n, Lin):
                out.append(('array', nm(po), False, '%s unknown' % nm(po)))
                continue
            if p.r.kind == 'null' or s.null.get(p.r) == 'null':
                ok = s.le(Lin(n.c + plus, n.t))
                out.append(('array', nm(po), ok, '%s is null but %s is not shown to be zero' % (nm(po), nm(co))))
                continue
            sz = I.size_of_region(s, p.r)
            if s.st.get(p.r) in ('freed', 'maybe'):
                out.append(('dangling', nm(po), False, '%s left pointing at released memory' % nm(po)))
                continue
            if sz is None:
                continue
            d = lsub(lscale(Lin(n.c + plus, n.t), es), sz)
            ok = p.off == Lin(0) and s.le(d)
            out.append(('array', nm(po), ok, '%s not shown to hold %s%s elements' % (
                nm(po), nm(co), '+%d' % plus if plus else '')))
            if bo is not None:
                nb = cell(bo)
                if isinstance(nb, Lin):
                    x = Lin(nb.c + 63, nb.t)
                    d1 = lsub(x, lscale(n, 64))         # nb+63 <= 64 n + 63
                    ok = s.le(Lin(d1.c - 63, d1.t)) or n == Lin(0, ((ATOMS.by.get(('div', x, 64), -1), 1),))
                    out.append(('words', nm(co), ok, '%s not shown to cover %s' % (nm(co), nm(bo))))
        for (ro, mo) in self.cond:
            v, m = cell(ro), cell(mo)
            if v is None and m is None:
                continue
            ok = False
            if isinstance(v, Lin) and isinstance(m, Lin):
                if s.le(m) and s.le(lscale(m, -1)):
                    ok = True          # modulus not specified
                else:
                    ok = self.canon(s, v, m)
            out.append(('canonical', nm(ro), ok, '%s not shown to be in [0, %s)' % (nm(ro), nm(mo))))
        return out

    @staticmethod
    def canon(s, v, m):
        d = lsub(v, m)
        if s.le(lscale(v, -1)) and s.le(Lin(d.c + 1, d.t)):
            return True
        t = s.copy()
        if not t.assume_le(ladd(Lin(1), m, -1)):
            return True
        if t.le(lscale(v, -1)) and t.le(Lin(d.c + 1, d.t)):
            return True
        return False


class Cfg:
    repo = REPO
    maxdepth = 6

    def __init__(self, P):
        self._usage = {}
        self.P = P
        self._inv = {}

    # ------------------------------------------------ invariants
    def members(self, I, cls):
        return [(o, sz, dt, path) for (o, sz, dt, path, ow) in I.layout(cls)]

    def inv(self, I, cls):
        if cls in self._inv:
            return self._inv[cls]
        v = None
        b = base(cls)
        c = self.P.classes.get(cls)
        if c and I.is_repo_class(cls):
            fn = getattr(self, 'inv_' + b, None)
            if fn:
                v = Inv(cls)
                fn(I, cls, v, {m['n']: m for m in c['m']}, c['m'])
        self._inv[cls] = v
        return v

    def _pick(self, by, ms, name, types, nth=0):
        if name in by:
            return by[name]
        l = [m for m in ms if any(re.search(t, m['t']) for t in types)]
        if len(l) <= nth:
            raise AnalysisBroken('member %s not found' % name)
        return l[nth]

    def _es(self, I, m):
        return I.sizeof(A.strip_one(m['t']))

    def inv_tvector(self, I, cls, v, by, ms):
        e = self._pick(by, ms, 'elements', [r'\*$'])
        n = self._pick(by, ms, 'num_elements', ['^int$', '^unsigned', '^size_t'])
        v.ranges.append((n['o'], 0, None))
        v.arrays.append((e['o'], n['o'], 0, self._es(I, e)))

    def inv_tstack(self, I, cls, v, by, ms):
        e = self._pick(by, ms, 'elements', [r'\*$'])
        n = self._pick(by, ms, 'num_allocated', ['^int$'], 0)
        f = self._pick(by, ms, 'freeidx', ['^int$'], 1)
        v.ranges.append((f['o'], 0, None))
        v.ranges.append((n['o'], 0, None))
        v.les.append((f['o'], n['o'], 0))
        v.arrays.append((e['o'], n['o'], 0, self._es(I, e)))

    def inv_tfacinfo(self, I, cls, v, by, ms):
        e = self._pick(by, ms, 'pfactors_and_counts', [r'\*$'])
        d = self._pick(by, ms, 'num_distinct', ['^int$'], 0)
        n = self._pick(by, ms, 'num_allocated', ['^int$'], 1)
        v.ranges.append((d['o'], 0, None))
        v.ranges.append((n['o'], 0, None))
        v.les.append((d['o'], n['o'], 0))
        v.arrays.append((e['o'], n['o'], 0, self._es(I, e)))

    def inv_tmatrix(self, I, cls, v, by, ms):
        e = self._pick(by, ms, 'rows', [r'\*$'])
        n = self._pick(by, ms, 'num_rows', ['^int$'], 0)
        c = self._pick(by, ms, 'num_cols', ['^int$'], 1)
        v.ranges.append((n['o'], 0, None))
        v.ranges.append((c['o'], 0, None))
        v.caps.append(c['o'])
        v.arrays.append((e['o'], n['o'], 0, self._es(I, e)))

    inv_bit_matrix_t = inv_tmatrix

    def inv_bit_vector_t(self, I, cls, v, by, ms):
        w = self._pick(by, ms, 'words', [r'\*$'])
        n = self._pick(by, ms, 'num_words', ['^int$'], 0)
        b = self._pick(by, ms, 'num_bits', ['^int$'], 1)
        v.ranges.append((b['o'], 0, None))
        v.words = (w['o'], n['o'], b['o'])

    def inv_bit_t(self, I, cls, v, by, ms):
        v.ranges.append((ms[0]['o'], 0, 1))

    def inv_intmod_t(self, I, cls, v, by, ms):
        r = self._pick(by, ms, 'residue', ['^int$'], 0)
        m = self._pick(by, ms, 'modulus', ['^int$'], 1)
        v.ranges.append((m['o'], 0, None))
        v.cond.append((r['o'], m['o']))

    def _poly(self, I, cls, v, by, ms):
        e = self._pick(by, ms, 'coeffs', [r'\*$'])
        d = self._pick(by, ms, 'degree', ['^int$'])
        v.ranges.append((d['o'], 0, None))
        v.arrays.append((e['o'], d['o'], 1, self._es(I, e)))

    inv_fp_poly_t = inv_f2n_poly_t = inv_fpn_poly_t = inv_q_poly_t = _poly

    # ------------------------------------------------ calls
    def inline(self, I, fr, g):
        sn = g.get('sn', '')
        rel = g.get('rel') or ''
        if not g.get('file', '').startswith(self.repo + '/'):
            return False
        n = g['ninstr']
        loopfree = not g['heads']
        e = I.entry
        ec = e.get('cls')
        if self.helper(g):
            if I.level < 0 and (g.get('cls') != ec if g.get('cls') else g.get('file') != e.get('file')):
                return loopfree and n <= 150
            return n < 3000
        if I.level < 0:
            if ec and g.get('cls') == ec:
                return loopfree and n <= 60
            return loopfree and n <= 25
        if loopfree and n <= 60:
            return True
        if I.level == 0:
            if ec and g.get('cls') == ec and loopfree:
                return n <= 250
            if sn.startswith('~'):
                return n <= 100
            return loopfree and n <= 100 and fr.depth <= 1
        if n <= 90 and not g.get('cls') and all(a['t'] != 'p' for a in g['args']) and fr.depth <= 4:
            return True         # small arithmetic routine: its result matters to the caller
        if ec and g.get('cls') == ec:
            if loopfree:
                return n <= 400
            return n <= 260 and fr.depth <= 2
        if sn.startswith('~'):
            return n <= 100
        return loopfree and n <= 120 and fr.depth <= 2

    def helper(self, g):
        """not reachable from outside its class / file: only ever analysed in its callers"""
        if g.get('cls'):
            return g.get('acc') in ('private', 2, 'prot', 'protected', 1)
        return not is_header_declared(g)

    def noreturn_ptr_call(self, I, fr, ins):
        """a handler calling the usage function it was handed: usage functions end the process (decided separately, property P17)"""
        f = fr.f
        if '/cli/spiff/' not in f['file'] or ins.get('at') != ['p'] or ins['t'] != 'v':
            return False
        if f['key'] not in self._usage:
            slots, vals = set(), set()
            fp = {n for n, a in enumerate(f['args']) if (f.get('dts') or [''] * 9)[n + 1:n + 2] == ['fn*']}
            for b in f['bbs']:
                for i in b['i']:
                    if i['op'] == 'store' and i['ops'][0][0] == 'a' and i['ops'][0][1] in fp and i['ops'][1][0] == 'i':
                        slots.add(i['ops'][1][1])
                    elif i['op'] == 'load' and i['ops'][0][0] == 'i' and i['ops'][0][1] in slots:
                        vals.add(i['id'])
            self._usage[f['key']] = (fp, vals)
        fp, vals = self._usage[f['key']]
        fv = ins['fv']
        return fv[0] == 'i' and fv[1] in vals or fv[0] == 'a' and fv[1] in fp
