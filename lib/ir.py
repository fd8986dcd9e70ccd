"""Build the resolved program (LLVM IR at -O0 with debug info) of /repo's current
working tree and load it.  Nothing of /repo is executed."""
import os, sys, json, subprocess, tempfile, shutil, hashlib, re, atexit
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('SPFFL_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOOL = os.path.join(VERIF, 'build', 'irdump')
CXX = 'clang++-18' if shutil.which('clang++-18') else 'clang++'


class AnalysisBroken(Exception):
    pass


def ensure_tool():
    if not os.path.exists(TOOL):
        subprocess.check_call(['bash', os.path.join(VERIF, 'setup.sh')], stdout=subprocess.DEVNULL)


def sources():
    out = []
    for top in ('spffl', 'cli'):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            for f in sorted(fs):
                if f.endswith('.cpp'):
                    out.append(os.path.join(d, f))
    return sorted(out)


class Program:
    pass


def _one(src, outdir, prefixes):
    h = hashlib.sha1(src.encode()).hexdigest()[:12]
    bc = os.path.join(outdir, h + '.bc')
    r = subprocess.run([CXX, '-std=c++20', '-O0', '-g', '-Xclang', '-disable-O0-optnone',
                        '-fno-discard-value-names', '-w', '-emit-llvm', '-c', '-I', REPO, src, '-o', bc],
                       capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisBroken('cannot compile %s: %s' % (src, r.stderr[:2000]))
    r = subprocess.run([TOOL, bc, prefixes], capture_output=True)
    if r.returncode != 0:
        raise AnalysisBroken('irdump failed on %s: %s' % (src, r.stderr[:2000]))
    os.unlink(bc)
    return json.loads(r.stdout)


_HDRS = None


def header_text():
    global _HDRS
    if _HDRS is None:
        t = []
        for top in ('spffl', 'cli'):
            for d, ds, fs in os.walk(os.path.join(REPO, top)):
                for f in sorted(fs):
                    if f.endswith('.h'):
                        t.append(open(os.path.join(d, f), errors='replace').read())
        _HDRS = set(re.findall(r'[A-Za-z_]\w*', re.sub(r'//[^\n]*|/\*.*?\*/', ' ', '\n'.join(t), flags=re.S)))
    return _HDRS


def load(only=None, harness=True):
    """only: predicate on a path relative to REPO (None: everything)."""
    ensure_tool()
    srcs = sources()
    if len(srcs) < 60:
        raise AnalysisBroken('only %d source files found under %s' % (len(srcs), REPO))
    if only:
        srcs = [s for s in srcs if only(os.path.relpath(s, REPO))]
    if harness:
        srcs = [os.path.join(VERIF, 'tool', 'instantiate.cpp')] + srcs
    tmp = tempfile.mkdtemp(prefix='spffl-ir-')
    try:
        with ThreadPoolExecutor(8) as ex:
            mods = list(ex.map(lambda s: _one(s, tmp, REPO + '/spffl:' + REPO + '/cli'), srcs))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    P = Program()
    P.sources = srcs
    P.funcs = {}      # key -> function with body
    P.decls = {}      # name -> any record
    P.globals = {}
    P.classes = {}
    for m, s in zip(mods, srcs):
        P_mod = os.path.relpath(s, REPO)
        for c, v in m['classes'].items():
            P.classes.setdefault(c, v)
        loc_f = {f['n'] for f in m['functions'] if f['int']} | {'main'}     # one main per tool
        loc_g = {g['n'] for g in m['globals'] if g['int']}

        def kf(n):
            return n + '@' + P_mod if n in loc_f else n

        def kg(n):
            return n + '@' + P_mod if n in loc_g else n
        for g in m['globals']:
            g['key'] = kg(g['n'])
            if 'init' in g:
                for t in g['init']:
                    if t[2][0] == 'f':
                        t[2] = ['f', kf(t[2][1])]
                    elif t[2][0] == 'g':
                        t[2] = ['g', kg(t[2][1]), t[2][2]]
            old = P.globals.get(g['key'])
            if old is None or (old['decl'] and not g['decl']):
                P.globals[g['key']] = g
        for f in m['functions']:
            f['key'] = kf(f['n'])
            f['mod'] = P_mod
            old = P.decls.get(f['key'])
            if old is None or (f['def'] and not old['def']):
                P.decls[f['key']] = f
            if not f['def'] or f['key'] in P.funcs:
                continue
            # resolve local names

            def fix(v):
                if v and v[0] == 'f':
                    return ['f', kf(v[1])]
                if v and v[0] == 'g':
                    return ['g', kg(v[1]), v[2]]
                return v
            for b in f['bbs']:
                for i in b['i']:
                    if 'ops' in i:
                        i['ops'] = [fix(v) for v in i['ops']]
                    if 'args' in i:
                        i['args'] = [fix(v) for v in i['args']]
                    if 'fn' in i:
                        i['fn'] = kf(i['fn'])
                    if 'in' in i:
                        i['in'] = [[fix(v), b2] for v, b2 in i['in']]
                    if 'cond' in i:
                        i['cond'] = fix(i['cond'])
            prepare(f)
            P.funcs[f['key']] = f
    # complete-object constructors / destructors emitted as aliases of the base-object ones
    ali = {}
    for k in P.decls:
        if k in P.funcs:
            continue
        m = re.match(r'(_ZN.*?)([CD])1((?:E|I).*)$', k)
        if m:
            for m in re.finditer(r'([CD])1(?=E)', k):
                k2 = k[:m.start()] + m.group(1) + '2' + k[m.end():]
                if k2 in P.funcs:
                    ali[k] = k2
    if ali:
        for f in P.funcs.values():
            for b in f['bbs']:
                for i in b['i']:
                    if i.get('fn') in ali:
                        i['fn'] = ali[i['fn']]
    P.aliases = ali
    for f in P.decls.values():
        f['rel'] = os.path.relpath(f['file'], REPO) if f.get('file') else ''
    return P


def prepare(f):
    bbs = f['bbs']
    n = len(bbs)
    succ = [[] for _ in range(n)]
    missing = []
    for k, b in enumerate(bbs):
        t = b['i'][-1]
        if t['op'] == 'br':
            succ[k] = list(t['to'])
        elif t['op'] == 'switch':
            succ[k] = [t['def']] + [c[1] for c in t['cases']]
        elif t['op'] == 'invoke':
            if not t['nr']:
                succ[k] = [t['to']]
        elif t['op'] == 'unreachable':
            prev = b['i'][-2] if len(b['i']) > 1 else None
            # clang -O0 ends a fall-off path with llvm.trap; a bare unreachable is a cleanup dispatch default
            if prev is not None and prev.get('fn', '').startswith('llvm.trap'):
                missing.append(k)
    _cfg(f, succ, missing)
    # compiler-generated loops over array elements (new[]/delete[]): one step
    gen = [h for h in f['heads'] if bbs[h]['n'].startswith(('arrayctor.loop', 'arraydestroy.body', 'arrayinit.body'))]
    if gen:
        for h in gen:
            loop = f['loops'][h]
            ex = []
            for x in loop:
                for y in succ[x]:
                    if y not in loop and y not in ex:
                        ex.append(y)
            for y in ex:
                for i in bbs[y]['i']:
                    if i['op'] == 'phi':
                        i['in'] = [[v, h if q in loop else q] for v, q in i['in']]
            succ[h] = ex
            bbs[h]['skip'] = True
        _cfg(f, succ, missing)
    f['ninstr'] = sum(len(b['i']) for b in bbs)


def _cfg(f, succ, missing):
    bbs = f['bbs']
    n = len(bbs)
    f['succ'] = succ
    preds = [[] for _ in range(n)]
    for k in range(n):
        for s in set(succ[k]):
            preds[s].append(k)
    f['preds'] = preds
    # reachable over normal edges
    reach = set()
    st = [0]
    while st:
        x = st.pop()
        if x in reach:
            continue
        reach.add(x)
        st.extend(succ[x])
    f['reach'] = reach
    rets = [k for k in range(n) if bbs[k]['i'][-1]['op'] == 'ret']
    live = set()
    st = list(rets)
    while st:
        x = st.pop()
        if x in live:
            continue
        live.add(x)
        st.extend(preds[x])
    f['live'] = live & reach          # blocks on a path entry -> normal return
    f['missing_ret'] = [k for k in missing if k in reach]
    # rpo + loop heads
    color = {}
    order = []
    heads = set()
    back = set()
    stack = [(0, iter(succ[0]))]
    color[0] = 1
    while stack:
        x, it = stack[-1]
        for y in it:
            if color.get(y, 0) == 0:
                color[y] = 1
                stack.append((y, iter(succ[y])))
                break
            elif color[y] == 1:
                heads.add(y)
                back.add((x, y))
        else:
            color[x] = 2
            order.append(x)
            stack.pop()
    order.reverse()
    f['rpo'] = {b: i for i, b in enumerate(order)}
    f['heads'] = heads
    f['back'] = back
    # natural loop bodies
    loops = {}
    for (x, h) in back:
        body = loops.setdefault(h, {h})
        st = [x]
        while st:
            y = st.pop()
            if y in body:
                continue
            body.add(y)
            st.extend(preds[y])
    f['loops'] = loops


def is_header_declared(f):
    if f.get('sn', '').startswith('operator') and not f['int']:
        return True                 # declared as a friend in a class body
    return f.get('sn', '').split('<')[0] in header_text()
