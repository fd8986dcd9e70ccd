"""Whole-program rules over the call graph, the static data and the exception edges."""
import re, math
from ir import AnalysisBroken, REPO
import ir

ENDERS = {'exit', 'abort', '_exit', '_Exit', 'quick_exit', 'at_quick_exit', 'raise', 'kill', '__assert_fail', '__assert',
          '_ZSt9terminatev', 'longjmp', '_longjmp', 'siglongjmp'}
THROWS = {'__cxa_throw', '__cxa_rethrow', '_Unwind_Resume', '__cxa_bad_cast', '__cxa_bad_typeid',
          '__cxa_throw_bad_array_new_length', '__cxa_pure_virtual', '__clang_call_terminate'}
STDTHROW = re.compile(r'^_ZSt\d+__throw_|^_ZNSt7__cxx11\d+sto|^_ZN9__gnu_cxx6__stoa|E6substrE|E2atE[mNl]')
EXC = '_ZTIN5spffl11exception_tE'
NONREENTRANT = {'strtok', 'rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48', 'mrand48', 'srand48', 'asctime', 'ctime',
                'gmtime', 'localtime', 'setlocale', 'strerror', 'getenv', 'putenv', 'setenv', 'tmpnam', 'ttyname'}


def calls(f):
    for b in f['bbs']:
        for i in b['i']:
            if i['op'] in ('call', 'invoke'):
                yield b, i


def rel(f):
    return f.get('rel') or f['file'].replace(REPO + '/', '')


def lib_funcs(P):
    return [f for f in P.funcs.values() if f['file'].startswith(REPO + '/spffl/')]


def cli_funcs(P):
    return [f for f in P.funcs.values() if f['file'].startswith(REPO + '/cli/')]


def where(f, i=None):
    return '%s:%d' % (rel(f), (i or {}).get('l') or f['line'])


def v(f, i, kind, construct, msg):
    return {'kind': kind, 'function': f['dem'], 'construct': construct, 'where': where(f, i), 'message': msg}


def callee(i):
    return i.get('fn') or i.get('callee')


def resolve(P, f, name):
    return P.funcs.get(name)


# ------------------------------------------------------------------ P10
def term_blocks(f):
    """blocks that end the program because an exception would leave a function that promised not to throw"""
    out = set()
    for n, b in enumerate(f['bbs']):
        if any(i['op'] in ('call', 'invoke') and callee(i) == '__clang_call_terminate' for i in b['i']):
            out.add(n)
    return out


def always_throws(g):
    return not any(i['op'] == 'ret' for b in g['bbs'] for i in b['i'])


def catches_repo(f):
    """landing pads that catch"""
    for b in f['bbs']:
        for i in b['i']:
            if i['op'] == 'landingpad' and any(c for c in i.get('clauses', ()) if c):
                return True
    return False


def errors(P):
    viol, n = [], {'throws': 0, 'calls': 0, 'no-throw edges': 0, 'functions': 0, 'tool exits': 0}
    lib = lib_funcs(P)
    for f in lib:
        n['functions'] += 1
        for b, i in calls(f):
            c = callee(i)
            if c is None:
                continue
            n['calls'] += 1
            if c == '__cxa_throw':
                n['throws'] += 1
                ti = i['args'][1]
                nm = ti[1] if ti and ti[0] == 'g' else None
                if nm is None or not derives(P, nm):
                    viol.append(v(f, i, 'foreign-exception', 'throw', 'throws %s, not the library\'s exception type' % tyname(nm)))
            elif c in ENDERS:
                viol.append(v(f, i, 'ends-process', 'call to %s' % c, 'a library function ends the process instead of raising the library\'s error'))
            elif STDTHROW.search(c):
                viol.append(v(f, i, 'foreign-exception', 'call to %s' % c, 'calls a standard function whose failure is not the library\'s exception'))
    # exceptions leaving a function that may not throw
    for f in list(lib) + cli_funcs(P):
        tb = term_blocks(f)
        if not tb:
            continue
        for b, i in calls(f):
            if i['op'] == 'invoke' and i.get('un') in tb:
                n['no-throw edges'] += 1
                g = P.funcs.get(callee(i) or '')
                # the callee raises directly, with no test of its own in front: value-independent
                if callee(i) == '__cxa_throw' or (g is not None and always_throws(g)):
                    viol.append(v(f, i, 'throw-in-nothrow', 'call to %s' % (g['dem'] if g else 'throw'),
                                  'an exception raised here cannot be caught: it ends the process'))
    # the tool
    mains = [f for f in cli_funcs(P) if f['dem'].split('(')[0] == 'main' and '/cli/spiff/' in f['file']]
    if not mains:
        raise AnalysisBroken('no main() found')
    for f in mains:
        if not any(i['op'] == 'landingpad' and any(caught(P, c) for c in i.get('clauses', ())) for b in f['bbs'] for i in b['i']):
            viol.append(v(f, None, 'uncaught', 'main', 'main lets the library\'s exception escape'))
            continue
        for (val, i, w) in handler_returns(P, f):
            n['tool exits'] += 1
            if val == 0:
                viol.append(v(f, i, 'exit-status', 'return after a caught exception', 'a failed command ends with status 0'))
    return viol, n


def tyname(n):
    return n or 'an unknown type'


def derives(P, ti):
    return ti == EXC or ti.split('@')[0] == EXC


def caught(P, c):
    if c is None:
        return False
    s = str(c)
    return EXC in s or s in ('null', 'None', "['n']", '0') or 'null' in s


def handler_returns(P, f):
    """constants stored to the return slot / passed to exit in blocks reachable only through a catch"""
    succ = {}
    for n, b in enumerate(f['bbs']):
        t = b['i'][-1]
        s = list(t.get('to') if isinstance(t.get('to'), list) else ([t['to']] if t.get('to') is not None else []))
        succ[n] = (s, [t['un']] if t.get('un') is not None else [])
    lp = [n for n, b in enumerate(f['bbs']) if any(callee(i) == '__cxa_begin_catch' for i in b['i'] if i['op'] in ('call', 'invoke'))]
    # the value returned: follow stores of constants into the slot loaded by ret
    slots = set()
    for b in f['bbs']:
        for i in b['i']:
            if i['op'] == 'ret' and i.get('ops') and i['ops'][0] and i['ops'][0][0] == 'i':
                slots.add(i['ops'][0][1])
    loads = {i['id']: i for b in f['bbs'] for i in b['i'] if i['op'] == 'load'}
    slot = {loads[s]['ops'][0][1] for s in slots if s in loads and loads[s]['ops'][0][0] == 'i'}
    out = []
    for st in lp:
        seen, work = set(), [(st, None)]
        while work:
            n, cur = work.pop()
            if (n, str(cur)) in seen:
                continue
            seen.add((n, str(cur)))
            for i in f['bbs'][n]['i']:
                if i['op'] == 'store' and i['ops'][1][0] == 'i' and i['ops'][1][1] in slot:
                    o = i['ops'][0]
                    cur = (o[1] if o[0] == 'c' else None, i)
                if i['op'] in ('call', 'invoke') and callee(i) in ENDERS and i['args'] and i['args'][0][0] == 'c':
                    out.append((i['args'][0][1], i, 'exit'))
                    cur = ('x', i)
                if i['op'] == 'ret' and cur is not None and cur[0] != 'x':
                    out.append((cur[0], cur[1], 'return'))
            work += [(m, cur) for m in succ[n][0]]
    return out


# ------------------------------------------------------------------ P14
EXEMPT_STATE = re.compile(r'/(bitrand|random|q_cyclotomic)/')


def shared_state(P):
    viol, n = [], {'functions': 0, 'accesses to static data': 0, 'mutable statics': 0}
    lib = [f for f in lib_funcs(P) if not EXEMPT_STATE.search(f['file'])]
    written = {}
    ptrs = {}
    for f in P.funcs.values():
        if not f['file'].startswith(REPO + '/'):
            continue
        derived = {}
        for b in f['bbs']:
            for i in b['i']:
                if i['op'] == 'gep' and i['ops'][0][0] == 'g':
                    derived[i['id']] = i['ops'][0][1]
                elif i['op'] in ('gep', 'bitcast') and i['ops'][0][0] == 'i' and i['ops'][0][1] in derived:
                    derived[i['id']] = derived[i['ops'][0][1]]

        def base(o):
            if not o:
                return None
            if o[0] == 'g':
                return o[1]
            if o[0] == 'i':
                return derived.get(o[1])
            return None
        for b in f['bbs']:
            for i in b['i']:
                if i['op'] == 'store':
                    g = base(i['ops'][1])
                    if g:
                        written.setdefault(g, []).append((f, i))
                    g = base(i['ops'][0])
                    if g:
                        written.setdefault(g, []).append((f, i))      # address taken
                elif i['op'] in ('call', 'invoke'):
                    for a, x in enumerate(i.get('args') or []):
                        g = base(x)
                        if g and passes_mutable(P, f, i, a):
                            written.setdefault(g, []).append((f, i))
    for g, l in sorted(written.items()):
        G = P.globals.get(g)
        if G is None or G.get('const') or G.get('tls'):
            continue
        if not G.get('file', '').startswith(REPO + '/'):
            continue            # the standard streams: synchronised by the library that owns them
        n['mutable statics'] += 1
        for (f, i) in l:
            if f in lib and not f['sn'].startswith('__cxx_global') and not f['sn'].startswith('_GLOBAL_'):
                viol.append(v(f, i, 'shared-state', G.get('sn') or G.get('dem') or g,
                              'writes static storage shared by every thread: unrelated calls influence each other'))
    for f in lib:
        n['functions'] += 1
        for b, i in calls(f):
            c = callee(i)
            if c in NONREENTRANT:
                viol.append(v(f, i, 'shared-state', 'call to %s' % c, 'relies on hidden process-wide state'))
            for x in i.get('args') or []:
                if x and x[0] == 'g':
                    n['accesses to static data'] += 1
        for b in f['bbs']:
            for i in b['i']:
                n['accesses to static data'] += sum(1 for o in i.get('ops') or [] if o and o[0] == 'g')
    return viol, n


def passes_mutable(P, f, i, a):
    c = callee(i)
    g = resolve(P, f, c) if c else None
    if g is None:
        if c in P.decls:
            g = P.decls[c]
    if g is not None and g.get('dts') and len(g['dts']) == len(g['args']) + 1:
        t = g['dts'][a + 1]
        if t.startswith('const ') or t in ('int', 'bool', 'double'):
            return False
        if a == 0 and (g.get('const') or g['dem'].endswith(' const')):
            return False
        return True
    if c and (c.startswith('llvm.memcpy') or c.startswith('llvm.memmove')):
        return a == 0
    if c and c.startswith('__cxa_guard'):
        return False
    if c and c.startswith(('_ZStls', '_ZNSo', '_ZStrs', 'printf', 'fprintf', 'llvm.threadlocal', '__cxa_atexit', '_ZNKS', 'llvm.dbg')):
        return False
    if c in ('strlen', 'strcmp', 'strcpy', 'strchr', 'strstr'):
        return c == 'strcpy' and a == 0
    return False


# ------------------------------------------------------------------ P13
def ints(g):
    """the array of unsigned integers a global is initialised with"""
    m = re.match(r'(?:const )?(unsigned char|unsigned int|unsigned short|int|unsigned|char|long|unsigned long)(?: const)?(?:\[(\d+)\])?$', g.get('ty') or '')
    init = g.get('init')
    if not m or not isinstance(init, list):
        return None
    w = {'char': 1, 'unsigned char': 1, 'unsigned short': 2, 'long': 8, 'unsigned long': 8}.get(m.group(1), 4)
    n = int(m.group(2) or 1)
    out = [0] * n
    for (off, sz, x) in init:
        if x[0] == 'c':
            if off % w or off // w >= n:
                return None
            out[off // w] = x[1] % (1 << (8 * w))
        elif x[0] == 's':
            raw = bytes.fromhex(x[1])
            for k in range(0, len(raw) - w + 1, w):
                out[(off + k) // w] = int.from_bytes(raw[k:k + w], 'little')
        elif x[0] not in ('z', 'n'):
            return None
    return out


# Press et al., Numerical Recipes in C, 2nd edition, section 7.5
PSDES = {'c1': [0xbaa96887, 0x1e17d32c, 0x03bcdc3c, 0x0f33d1b2], 'c2': [0x4b0f3b58, 0xe874f0c3, 0x6955c5a6, 0x55a7ca46],
         'jflone': [0x3f800000], 'jflmask': [0x007fffff]}


def tables(P):
    viol, n = [], {'tables': 0, 'entries': 0}
    G = {'function': 'static data'}

    def bad(g, k, got, want):
        viol.append({'kind': 'table', 'function': g.get('dem') or g['n'], 'construct': '%s[%d]' % (g.get('sn') or g['n'], k),
                     'where': '%s:%d' % (g.get('file', '').replace(REPO + '/', ''), g.get('line', 0)),
                     'message': 'entry %d is %s, should be %s' % (k, got, want)})

    def check(g, xs, want):
        n['tables'] += 1
        for k, w in enumerate(want):
            n['entries'] += 1
            if k >= len(xs):
                bad(g, k, 'missing', w)
                return
            if xs[k] != w:
                bad(g, k, xs[k], w)
    found = 0
    sieve = bytearray([1]) * 65536
    sieve[0] = sieve[1] = 0
    for p in range(2, 256):
        if sieve[p]:
            sieve[p * p::p] = bytes(len(sieve[p * p::p]))
    primes = [p for p in range(65536) if sieve[p]]
    for g in P.globals.values():
        if not g.get('file', '').startswith(REPO + '/'):
            continue
        sn = g.get('sn') or ''
        xs = ints(g)
        if xs is None:
            continue
        if sn == 'primes_16':
            found += 1
            m = len(xs)
            nz = xs[:-1] if xs and xs[-1] == 0 else xs
            check(g, nz, primes)
            for k in range(len(primes), len(nz)):
                bad(g, k, nz[k], 'nothing')
        elif sn == 'numprimes16':
            found += 1
            check(g, xs, [len(primes)])
        elif sn == 'byte_num_one_bits':
            found += 1
            check(g, [x & 255 for x in xs], [bin(k).count('1') for k in range(256)])
        elif sn == 'u4_table':
            found += 1
            check(g, xs, [xs[0]] + [(k.bit_length() - 1) for k in range(1, 16)])
        elif sn == 'l4_table':
            found += 1
            check(g, xs, [xs[0]] + [((k & -k).bit_length() - 1) for k in range(1, 16)])
        elif sn in PSDES and '/bitrand/' in g['file']:
            found += 1
            check(g, xs, PSDES[sn])
    return viol, n, found


# ------------------------------------------------------------------ P15
def literal(P, o):
    if not o or o[0] != 'g':
        return None
    g = P.globals.get(o[1])
    if not g or not g.get('const') or not g.get('init'):
        return None
    x = g['init'][0][2]
    if x[0] != 's':
        return None
    return bytes.fromhex(x[1]).split(b'\0')[0].decode('latin-1')


def command_table(P):
    """[(name, handler key, usage key or None, instruction, function)] in the order the table is built"""
    out = []
    for f in cli_funcs(P):
        if not f['sn'].startswith('__cxx_global_var_init') or '/cli/spiff/' not in f['file']:
            continue
        cur = None
        for b in f['bbs']:
            for i in b['i']:
                if i['op'] in ('call', 'invoke'):
                    for a in i.get('args') or []:
                        s = literal(P, a)
                        if s is not None:
                            cur = [s, None, None, i, f]
                        elif a and a[0] == 'f' and cur is not None and not (callee(i) or '').startswith('__cxa'):
                            add_fn(P, cur, a, out)
                elif i['op'] == 'store' and cur is not None:
                    add_fn(P, cur, i['ops'][0], out)
    for g in P.globals.values():              # a table laid out by the compiler
        if '/cli/spiff/' in g.get('file', '') and any(t[2][0] == 'f' for t in g.get('init') or []):
            cur = None
            for t in sorted(g['init'], key=lambda t: t[0]):
                s = literal(P, t[2])
                if s is not None:
                    cur = [s, None, None, {'l': g.get('line')}, {'dem': g['n'], 'file': g['file'], 'line': g.get('line', 0)}]
                elif cur is not None:
                    add_fn(P, cur, t[2], out)
    return out


def add_fn(P, cur, o, out):
    if not o or o[0] != 'f' or o[1] not in P.funcs:
        return
    n = len(P.funcs[o[1]]['args'])
    if n == 3 and cur[1] is None:
        cur[1] = o[1]
        out.append(cur)
    elif n == 1 and cur[1] is not None and cur[2] is None:
        cur[2] = o[1]


def short_callee(P, name):
    g = P.funcs.get(name) or P.decls.get(name)
    if not g or '/spffl/' not in g.get('file', ''):
        return None
    d = g['dem'].split('(')[0]
    return re.sub(r'^\w[\w ]* ', '', re.sub(r'spffl::\w+::', '', d))


def direct(P, key):
    """library functions a handler calls itself or through other functions of the tool"""
    seen, work, out = set(), [key], {}
    while work:
        k = work.pop()
        if k in seen or k not in P.funcs:
            continue
        seen.add(k)
        for b, i in calls(P.funcs[k]):
            c = callee(i)
            if not c:
                continue
            s = short_callee(P, c)
            if s:
                out.setdefault(s, (P.funcs[k], i))
            elif c in P.funcs and '/cli/' in P.funcs[c]['file']:
                work.append(c)
    return out


def reach(P, key):
    seen, work, out = set(), [key], set()
    while work:
        k = work.pop()
        if k in seen or k not in P.funcs:
            continue
        seen.add(k)
        for b, i in calls(P.funcs[k]):
            c = callee(i)
            if c:
                s = short_callee(P, c)
                if s:
                    out.add(s)
                work.append(c)
    return out


def uses_param_as_callee(f, n):
    """does the function call through its n-th argument, or hand it on?"""
    slots, vals = set(), set()
    for b in f['bbs']:
        for i in b['i']:
            if i['op'] == 'store' and i['ops'][0] == ['a', n] and i['ops'][1][0] == 'i':
                slots.add(i['ops'][1][1])
            elif i['op'] == 'load' and i['ops'][0][0] == 'i' and i['ops'][0][1] in slots:
                vals.add(i['id'])
            elif i['op'] in ('call', 'invoke'):
                for o in [i.get('fv') or i.get('callee_v')] + list(i.get('ops') or []) + list(i.get('args') or []):
                    if o and ((o[0] == 'i' and o[1] in vals) or o == ['a', n]):
                        return i
    return None


def dispatches(P, key, names):
    """a handler that tells several commands apart by the name it was called with"""
    return any(literal(P, a) in names for b, i in calls(P.funcs[key]) for a in i.get('args') or [])


def commands(P, expect):
    viol, n = [], {'commands': 0, 'handlers with a required operation': 0}
    T = command_table(P)
    if len(T) < 60:
        raise AnalysisBroken('only %d commands recognised in the dispatch table' % len(T))
    names = {}
    for (nm, h, u, i, f) in T:
        n['commands'] += 1
        if nm in names:
            viol.append(v(f, i, 'duplicate', nm, 'the command is registered twice: its second handler can never run'))
        names[nm] = (h, u, i, f)
    allreq = {}
    for nm, req in expect.items():
        for r in req:
            allreq.setdefault(r, set()).add(nm)
    exists = {short_callee(P, k) for k in P.funcs}
    for nm, req in sorted(expect.items()):
        if nm not in names:
            viol.append({'kind': 'missing', 'function': 'command table', 'construct': nm, 'where': 'cli/spiff/spiff_main.cpp',
                         'message': 'the command is no longer registered'})
            continue
        h, u, i, f = names[nm]
        live = [r for r in req if r in exists]
        if not live:
            continue
        n['handlers with a required operation'] += 1
        D = direct(P, h)
        if any(r in D for r in live):
            continue
        other = sorted(r for r in D if r in allreq and nm not in allreq[r])
        if other or not (set(live) & reach(P, h)):
            viol.append(v(P.funcs[h], None, 'wrong-operation', nm, 'the handler of this command never calls %s%s' % (
                ' / '.join(live), '; it calls ' + ', '.join(other[:3]) if other else '')))
    mains = {P.funcs[h]['sn']: nm for nm, (h, u, i, f) in names.items()}
    users = {}
    for nm, (h, u, i, f) in sorted(names.items()):
        users.setdefault(h, []).append(nm)
    tool = {g['sn'] for g in P.funcs.values() if '/cli/spiff/' in g['file']}
    for nm, (h, u, i, f) in sorted(names.items()):
        other = P.funcs[h]['sn'][:-5] if P.funcs[h]['sn'].endswith('_main') else None
        if other != nm and other in names and nm + '_main' in tool and not dispatches(P, h, names):
            viol.append(v(f, i, 'wrong-handler', nm, 'registered with the handler of another command (%s)' % other))
        elif len(users[h]) > 1 and users[h][0] != nm and not dispatches(P, h, names) and expect.get(nm) and \
                expect.get(nm) != expect.get(users[h][0]):
            viol.append(v(f, i, 'shared-handler', nm, 'registered with the handler that already serves %s' % users[h][0]))
    usn = {g['sn']: k for k, g in P.funcs.items() if '/cli/spiff/' in g['file']}
    for nm, (h, u, i, f) in sorted(names.items()):
        H = P.funcs[h]
        x = uses_param_as_callee(H, 2)
        if u is None and x is not None:
            viol.append(v(H, x, 'null-usage', nm, 'the handler calls its usage function, but the command is registered without one'))
        if u is not None and H['sn'].endswith('_main'):
            own = H['sn'][:-5] + '_usage'
            if own in usn and P.funcs[u]['sn'] != own and P.funcs[u]['sn'].endswith('_usage') and \
                    P.funcs[u]['sn'][:-6] + '_main' in mains:
                viol.append(v(f, i, 'wrong-usage', nm, 'registered with the usage text of another command (%s)' % P.funcs[u]['sn']))
    return viol, n


# ------------------------------------------------------------------ P17
def stdout_writes(P, f):
    for b, i in calls(f):
        c = callee(i)
        if c in ('printf', 'puts', 'putchar', 'vprintf') or any(
                x and x[0] == 'g' and x[1] in ('_ZSt4cout', 'stdout') for x in i.get('args') or []):
            yield b, i


def stderr_writes(f):
    for n, b in enumerate(f['bbs']):
        for k, i in enumerate(b['i']):
            if i['op'] in ('call', 'invoke') and any(x and x[0] == 'g' and x[1] == '_ZSt4cerr' for x in i.get('args') or []):
                yield n, k, i


def streams(P):
    viol, n = [], {'library functions': 0, 'usage and error paths': 0}
    T = command_table(P)
    for f in lib_funcs(P):
        n['library functions'] += 1
        if '/cli_parser/' in f['file'] or f['sn'] in NARRATES:
            continue
        for b, i in stdout_writes(P, f):
            viol.append(v(f, i, 'stdout', 'write to standard output', 'a library function prints on standard output, which carries the command\'s result'))
            break
    usage = {u for (_, h, u, _, _) in T if u}
    for k in sorted(usage):
        f = P.funcs[k]
        n['usage and error paths'] += 1
        for b, i in stdout_writes(P, f):
            viol.append(v(f, i, 'stdout', 'usage text on standard output', 'the usage message goes to standard output'))
            break
        ends = [i for b, i in calls(f) if callee(i) in ENDERS]
        for i in ends:
            if i['args'] and i['args'][0] == ['c', 0, 32]:
                viol.append(v(f, i, 'exit-status', 'exit(0)', 'misuse of a command ends with status 0'))
        if any(i['op'] == 'ret' for b in f['bbs'] for i in b['i']) and f['sn'].endswith('_usage') and reachable_ret(f):
            viol.append(v(f, None, 'usage-returns', f['sn'], 'the usage function returns: the handler carries on with missing arguments'))
    # an error message followed by a successful status
    for f in cli_funcs(P):
        if '/cli/spiff/' not in f['file'] or f['key'] in usage:
            continue
        pts = list(stderr_writes(f))
        if pts:
            n['usage and error paths'] += len(pts)
            for (val, i) in returns_after(f, pts):
                if val == 0:
                    viol.append(v(f, i, 'exit-status', 'return 0 after an error message', 'a failure reported on standard error ends with status 0'))
            for b, i in calls(f):
                if callee(i) == 'exit' and i['args'] and i['args'][0] == ['c', 0, 32] and after(f, pts, i):
                    viol.append(v(f, i, 'exit-status', 'exit(0)', 'a failure reported on standard error ends with status 0'))
    return viol, n


NARRATES = {'f2_polymod_matrix_is_diagonalizable'}     # prints its reasoning by design


def succs(f, n, unwind=False):
    t = f['bbs'][n]['i'][-1]
    to = t.get('to')
    s = list(to) if isinstance(to, list) else ([to] if to is not None else [])
    for c in t.get('cases') or []:
        if isinstance(c, list):
            s.append(c[-1])
    if t.get('def') is not None:
        s.append(t['def'])
    if unwind and t.get('un') is not None:
        s.append(t['un'])
    return [x for x in s if isinstance(x, int)]


def reachable_ret(f):
    seen, work = set(), [0]
    while work:
        n = work.pop()
        if n in seen:
            continue
        seen.add(n)
        stop = False
        for i in f['bbs'][n]['i']:
            if i['op'] in ('call', 'invoke') and (i.get('nr') or callee(i) in ENDERS):
                stop = True
                break
            if i['op'] == 'ret':
                return True
        if not stop:
            work += succs(f, n)
    return False


def after(f, pts, ins):
    for (n, k, i) in pts:
        seen, work = set(), [(n, k)]
        while work:
            b, s = work.pop()
            if b in seen and s == 0:
                continue
            if s == 0:
                seen.add(b)
            for x in f['bbs'][b]['i'][s:]:
                if x is ins:
                    return True
            work += [(m, 0) for m in succs(f, b)]
    return False


def returns_after(f, pts):
    """constants the function can return on a path that passes one of the points (the last store to the result wins)"""
    loads = {i['id']: i for b in f['bbs'] for i in b['i'] if i['op'] == 'load'}
    slot = set()
    out = []
    for b in f['bbs']:
        for i in b['i']:
            if i['op'] == 'ret' and i.get('ops') and i['ops'][0] and i['ops'][0][0] == 'i' and i['ops'][0][1] in loads:
                o = loads[i['ops'][0][1]]['ops'][0]
                if o[0] == 'i':
                    slot.add(o[1])
    for (n, k, i0) in pts:
        seen, work = set(), [(n, k, None)]
        while work:
            b, s, cur = work.pop()
            key = (b, s, id(cur[1]) if cur else None)
            if key in seen:
                continue
            seen.add(key)
            stop = False
            for i in f['bbs'][b]['i'][s:]:
                if i['op'] == 'store' and i['ops'][1][0] == 'i' and i['ops'][1][1] in slot:
                    o = i['ops'][0]
                    cur = (o[1] if o[0] == 'c' else None, i)
                elif i['op'] in ('call', 'invoke') and (callee(i) in ENDERS or i.get('fvt') == 'usage'):
                    stop = True
                    break
                elif i['op'] == 'ret':
                    o = (i.get('ops') or [None])[0]
                    if o and o[0] == 'c':
                        out.append((o[1], i))
                    elif cur:
                        out.append(cur)
                    stop = True
            if not stop:
                work += [(m, 0, cur) for m in succs(f, b)]
    u = {}
    for val, i in out:
        u[(val, i.get('l'))] = (val, i)
    return list(u.values())


# ------------------------------------------------------------------ P08: members an assignment leaves out
ALL = 'all'


def member_writes(P, key, n, memo, stack=()):
    """byte offsets of the object its n-th argument points to which a function, or anything it calls, can set; ALL when it cannot be told"""
    if key in stack:
        return ALL
    if (key, n) in memo:
        return memo[key, n]
    f = P.funcs.get(key)
    if f is None or not f['bbs']:
        return ALL
    off, slots, out = {('a', n): 0}, {}, set()

    def at(o):
        return off.get((o[0], o[1])) if o and o[0] in 'ai' and len(o) > 1 else None
    local = {i['id'] for b in f['bbs'] for i in b['i'] if i['op'] == 'alloca' and i.get('t') == 'p'}
    whole, more = False, True
    while more:
        more = False
        for b in f['bbs']:
            for i in b['i']:
                d = None
                if i['op'] == 'gep' and at(i['ops'][0]) is not None:
                    if i.get('var'):
                        whole = True
                    else:
                        d = at(i['ops'][0]) + i['off']
                elif i['op'] in ('bitcast', 'freeze', 'phi', 'select'):
                    for o in i.get('ops') or []:
                        o = o[0] if o and isinstance(o[0], list) else o
                        if at(o) is not None:
                            d = at(o)
                    for o in i.get('in') or []:
                        if o and isinstance(o[0], list) and at(o[0]) is not None:
                            d = at(o[0])
                elif i['op'] == 'store' and at(i['ops'][0]) is not None and i['ops'][1][0] == 'i':
                    if i['ops'][1][1] not in local or slots.setdefault(i['ops'][1][1], at(i['ops'][0])) != at(i['ops'][0]):
                        whole = True        # kept where this walk does not follow it (a closure, a list)
                elif i['op'] == 'load' and i['ops'][0][0] == 'i' and i['ops'][0][1] in slots:
                    d = slots[i['ops'][0][1]]
                if d is not None and ('i', i['id']) not in off:
                    off[('i', i['id'])] = d
                    more = True
    for b in f['bbs']:
        for i in b['i']:
            if i['op'] == 'store':
                d = at(i['ops'][1])
                if d is not None:
                    out |= set(range(d, d + i.get('sz', 8)))
            elif i['op'] in ('call', 'invoke'):
                c = callee(i)
                for m, a in enumerate(i.get('args') or []):
                    d = at(a)
                    if d is None:
                        continue
                    if c and c.startswith(('llvm.lifetime', 'llvm.dbg')):
                        continue
                    if c and c.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset', 'memcpy', 'memset', 'memmove')):
                        z = (i['args'][2] if len(i['args']) > 2 else None) or ['?']
                        if m == 0:
                            if z[0] == 'c':
                                out |= set(range(d, d + z[1]))
                            else:
                                whole = True
                        continue
                    w = member_writes(P, c, m, memo, stack + (key,)) if c else ALL
                    g = P.funcs.get(c) or P.decls.get(c) or {}
                    if w == ALL and re.search(r'\) const$', g.get('dem', '')) and m == 0:
                        continue
                    if w == ALL and (d or (g.get('cls') or '').startswith('std::')) and '/spffl/' not in g.get('file', ''):    # a member with a type of its own (std::string ...)
                        out |= set(range(d, d + member_size(P, f, d)))
                        continue
                    if w == ALL:
                        whole = True
                    else:
                        out |= {d + x for x in w}
    r = ALL if whole else frozenset(out)
    if not stack:
        memo[key, n] = r
    return r


def member_size(P, f, d):
    for m in (P.classes.get(f.get('cls')) or {}).get('m', ()):
        if m['o'] == d:
            return m['s']
    return 8


def leaves(P, cls, off=0, path=''):
    c = P.classes.get(cls)
    out = []
    for m in (c or {}).get('m', ()):
        t = m['t'][6:] if m['t'].startswith('const ') else m['t']
        s = P.classes.get(t)
        if s and s.get('file', '').startswith(REPO):
            out += leaves(P, t, off + m['o'], path + m['n'] + '.')
        else:
            out.append((off + m['o'], m['s'], path + m['n']))
    return out


def assignments(P):
    """a copy assignment must be able to set every member"""
    viol, n, memo = [], {'copy assignments': 0, 'members': 0}, {}
    for f in lib_funcs(P):
        c = f.get('cls')
        if f['sn'] != 'operator=' or not c or not f['bbs'] or len(f['args']) != 2 or (f.get('dts') or ['', '', ''])[2] not in ('const %s&' % c, '%s&&' % c, c):
            continue
        w = member_writes(P, f['key'], 0, memo)
        L = leaves(P, c)
        n['copy assignments'] += 1
        n['members'] += len(L)
        if w == ALL:
            continue
        for (o, z, nm) in L:
            if not any(x in w for x in range(o, o + max(z, 1))):
                viol.append(v(f, None, 'member-not-assigned', nm, 'the assignment never sets this member: the object keeps the old value'))
    return viol, n
