"""Which analysis decides which property."""
import os, re, json, time
import ir, specs, vecspec, loopspec, polyspec, lints, engine, cache
from ir import AnalysisBroken

TB = ['clang 18 front end at -O0/-O1 without inlining: the IR analysed is the program compiled (cross-checked only by the build)',
      'lib/ir.py and tool/irdump.cpp (IR reader)']
ALG_TB = TB + ['lib/alg.py (value numbering) and lib/specs.py (definitions of the operations)',
               'component classes obey the ring axioms; quotient, remainder, gcd, extended gcd and reciprocal of the component class mean what their names say',
               'machine integers do not overflow inside one operation (decided separately)']


WHERE = {'vectors': vecspec, 'loop_identities': loopspec, 'polynomials': polyspec}


def alg_check(passes, kinds, title, floor):
    def run(pid, tier):
        P = ir.load()
        W = specs.World(P)
        R = specs.Report()
        for n in passes:
            getattr(WHERE.get(n, specs), n)(W, R)
        viol = [v for v in R.violations if v['kind'] in kinds]
        # a path on which conditions were dropped says too little about when it is taken
        R.undecided += [(v['function'], 'on a path put together from several: ' + v['message']) for v in viol if v.get('weak')]
        viol = uniq([v for v in viol if not v.pop('weak', False)])
        ob = len(set(R.checked)) + len({(v['function'], v['construct']) for v in viol})
        if len(set(R.checked)) + len(R.undecided) + len(viol) < floor:
            raise AnalysisBroken('only %d operations recognised (at least %d expected): the anchored code is gone' % (ob, floor))
        return {'violations': viol, 'level': 'proof',
                'coverage': {'obligations': ob, 'discharged': len(set(R.checked)), 'normal_exits_analysed': R.paths,
                             'undecided_operations': sorted(set('%s: %s' % u for u in R.undecided))[:60],
                             'rule': title, 'samples': sorted(set('%s [%s]' % x for x in R.checked))[:400:25],
                             'checker_cmd': 'python3 check.py %s' % pid, 'trusted_base': ALG_TB},
                'assumptions': ALG_TB[2:],
                'summary': '%d operations, %d normal exits, %d undecided' % (len(set(R.checked)), R.paths, len(set(R.undecided)))}
    return run


def with_lint(run, fn, what):
    """an engine check with a syntactic obligation of its own beside it"""
    def both(pid, tier):
        r = run(pid, tier)
        viol, n = getattr(lints, fn)(ir.load())
        if not n['copy assignments'] > 40:
            raise AnalysisBroken('only %d copy assignments recognised' % n['copy assignments'])
        r['violations'] = uniq(r['violations'] + viol)
        r['coverage']['obligations'] += n['members']
        r['coverage']['discharged'] += n['members'] - len(viol)
        r['coverage'].setdefault('counts', {}).update(n)
        r['coverage']['rule'] += what
        r['summary'] += ', ' + ', '.join('%d %s' % (b, a) for a, b in n.items())
        return r
    return both


def lint_check(fn, title, floor, expect=None, assume=()):
    def run(pid, tier):
        P = ir.load()
        r = getattr(lints, fn)(P) if expect is None else getattr(lints, fn)(P, json.load(open(os.path.join(ir.VERIF, 'scope', expect))))
        viol, n = r[0], r[1]
        n = n if isinstance(n, dict) else {'entries compared': n}
        ob = sum(n.values())
        if ob < floor:
            raise AnalysisBroken('only %d constructs recognised (at least %d expected): the anchored code is gone' % (ob, floor))
        return {'violations': uniq(viol), 'level': 'proof',
                'coverage': {'obligations': ob, 'discharged': ob - len(viol), 'counts': n, 'rule': title, 'checker_cmd': 'python3 check.py %s' % pid,
                             'trusted_base': TB + list(assume), 'samples': [str(x) for x in (r[2] if len(r) > 2 and isinstance(r[2], (list, tuple)) else sorted(n.items()))][:25]},
                'assumptions': list(assume), 'summary': ', '.join('%d %s' % (b, a) for a, b in n.items())}
    return run


def uniq(viol):
    seen, out = set(), []
    for x in viol:
        if 'file' not in x:
            x['file'], _, l = str(x.pop('where')).partition(':')
            x['line'] = int(l) if l.isdigit() else 0
        k = (x['kind'], x['function'], x['construct'], x['message'])
        if k not in seen:
            seen.add(k)
            out.append(x)
    return out


ENG_TB = TB + ['lib/absint.py (abstract interpreter), lib/cfg.py (class invariants and inlining policy)',
               'C++ run-time, standard library and allocation do what they are specified to do; sizes and counts stay below 2^30',
               'scope/verdicts.json.gz: a recorded verdict is reused only for bit-identical IR of everything the analysis looked at']


def family(kind, cons):
    """what may be open in an entry point without taking the rest of the kind with it; None: the whole kind"""
    if kind == 'overflow':
        return 'mul' if cons == 'mul' else 'add'
    if kind in ('leak', 'unset') and re.match(r'[\w*.]+$', cons):
        return cons.split('.')[-1]
    return None


SIZES = ('inv-range', 'inv-order', 'inv-array', 'inv-words')


def opened(b, kind):
    """families of the kind left open on the reference tree; None: the kind is out of scope"""
    if kind in SIZES and any(b['fail'].get(k) for k in SIZES):
        return None     # sizes of one object hang together: none is judged alone
    fams = {family(kind, x[3]) for x in b['fail'].get(kind, ())}
    return None if None in fams else fams


def engine_check(kinds, files, title, floor, only=None):
    frx = re.compile(files)

    def run(pid, tier):
        t0 = time.time()
        P = ir.load()
        base = cache.raw('verdicts')
        jobs = []
        new = []
        for j in engine.entries(P):
            f = P.funcs[j[0]]
            if not frx.match(lints.rel(f)) or (only and not only(f)):
                continue
            i = engine.jid(P, j)
            b = base.get(i)
            if b is None:
                new.append(i)
            elif not b['err'] and any(k in b['n'] and opened(b, k) is not None for k in kinds):
                jobs.append(j)
        if len(jobs) < floor:
            raise AnalysisBroken('only %d entry points recognised (at least %d expected): the anchored code is gone' % (len(jobs), floor))
        out, again, missed = engine.run(P, jobs, fresh=tier == 'thorough', deadline=t0 + (800 if tier == 'thorough' else 640))
        viol, ob, und, samples = [], 0, list(missed), []
        for j in jobs:
            i = engine.jid(P, j)
            v = out.get(i)
            if v is None:
                continue
            if v['err']:
                und.append(i)
                continue
            b = base[i]
            for k in kinds:
                open_ = opened(b, k)
                if open_ is None or not v['n'].get(k):
                    continue
                ob += v['n'][k]
                if len(samples) < 2000:
                    samples.append('%s: %d %s' % (i, v['n'][k], k))
                for (fl, ln, fn, cons, msg) in v['fail'].get(k, []):
                    if open_ and family(k, cons) in open_ | {None}:
                        ob -= 1     # open on the reference tree
                        continue
                    viol.append({'kind': k, 'function': i, 'construct': cons, 'file': fl, 'line': ln, 'message': msg})
        return {'violations': uniq(viol), 'level': 'proof',
                'coverage': {'obligations': ob, 'discharged': ob - len(viol), 'entry_points': len(jobs), 'analysed_afresh': len(again),
                             'fresh': again[:200], 'undecided_entry_points': und[:200], 'new_entry_points_not_judged': new[:100],
                             'out_of_scope': sum(1 for v in base.values() if any(k in v['fail'] for k in kinds)),
                             'rule': title, 'samples': samples[::max(1, len(samples) // 25)], 'checker_cmd': 'python3 check.py %s' % pid, 'trusted_base': ENG_TB},
                'assumptions': ENG_TB[2:],
                'summary': '%d obligations in %d entry points, %d analysed afresh, %d undecided' % (ob, len(jobs), len(again), len(und))}
    return run


LIBF = r'spffl/(?!test)'
MEM = r'spffl/(base|bitrand|bits|containers|intmath|polynomials|rationals|random|list|q_cyclotomic|linalg|units|factorization)/'

CHECKS = {
    'P01': alg_check(['residue_values'], {'mixed-moduli'},
                     'on every normal exit of every binary operation of a residue class the path condition implies equal moduli', 100),
    'P02': alg_check(['residue_canonical'], {'not-reduced'},
                     'the residue of every object left behind is a normal form modulo its modulus', 120),
    'P04': alg_check(['residue_values', 'fraction_values'], {'zero-divisor'},
                     'on every normal exit of every division the path condition implies that the divisor is invertible', 150),
    'P11': alg_check(['fraction_canonical'], {'not-normalised'},
                     'numerator and denominator of every fraction left behind are the quotients by their own gcd, the denominator known nonzero', 120),
    'P16': alg_check(['residue_values', 'fraction_values'], {'comparison'},
                     'each comparison answers the condition its operands define on every path', 150),
    'P18': alg_check(['loop_identities'], {'power', 'gcd', 'cofactors'},
                     'the recurrence of every loop computing a power, a gcd or cofactors keeps the invariant that implies the definition at every exit', 40),
    'P19': alg_check(['residue_values', 'fraction_values'], {'value', 'never-returns'},
                     'the value left behind equals the defining formula in normal form', 150),
    'P20': alg_check(['polynomials'], {'coefficient'},
                     'every coefficient and the degree of every polynomial left behind are those the definition gives, and comparisons and values are the defining ones', 160),
    'P03': engine_check({'overflow', 'shift', 'div'}, r'spffl/(bits|containers|intmath/(intmod_t|int_gcd|log)|polynomials/(f2|f2n|fp|fpn)_poly)',
                        'every signed addition, subtraction, multiplication and shift stays in range and every integer divisor is nonzero, on every path', 150,
                        lambda f: not ('<' in f['dem'] and re.search(r'<int>', f['dem']))),
    'P05': engine_check({'bounds', 'null', 'inv-range', 'inv-order', 'inv-array', 'inv-words'}, MEM,
                        'every read and write through a pointer is inside its block, and every object left behind satisfies its size/capacity invariant', 500),
    'P06': engine_check({'freed', 'free', 'leak', 'shared', 'inv-dangling'}, MEM,
                        'no block is used after release or released twice, none is lost, no two objects own the same block', 500),
    'P07': engine_check({'bounds', 'null', 'freed', 'free'}, r'cli/spiff/', 'every argv element read is one the caller supplied', 60, lambda f: f['sn'].endswith('_main')),
    'P08': with_lint(engine_check({'uninit', 'unset', 'missing_ret'}, MEM,
                                  'nothing is read before it is set; every member is set when a constructor returns', 300),
                     'assignments', '; a copy assignment can set every member'),
    'P09': engine_check({'inv-canonical'}, MEM, 'the residue of every modular integer left behind lies between 0 and modulus-1', 60),
    'P10': lint_check('errors', 'throw sites, process-ending calls and exception edges', 300),
    'P12': alg_check(['vectors'], {'elementwise'},
                     'every element of every vector or matrix left behind is the defining expression in the elements of the operands, and the sizes are those of the definition', 250),
    'P13': lint_check('tables', 'compile-time tables recomputed from their definition', 6000),
    'P14': lint_check('shared_state', 'stores to static data over the whole library', 500),
    'P15': lint_check('commands', 'dispatch table of the tool against the library operation each command needs', 150, 'commands.json'),
    'P17': lint_check('streams', 'writes to standard output, and the ends of usage and error paths', 200),
}


def check(pid, tier):
    if pid not in CHECKS:
        raise AnalysisBroken('no check for %s' % pid)
    return CHECKS[pid](pid, tier)
