"""Incremental analysis: a verdict recorded for an entry point is reused only when the IR of every function the
analysis looked at (line numbers aside), every class layout, every referenced global and the analyser itself are
bit-for-bit what they were.  Anything else is analysed afresh."""
import os, json, hashlib, gzip
from ir import VERIF

PATH = os.path.join(VERIF, 'scope', 'verdicts.json.gz')
ENGINE = ['absint.py', 'cfg.py', 'driver.py', 'ir.py', 'cache.py']


def engine_digest(extra=()):
    h = hashlib.sha256()
    for f in list(ENGINE) + list(extra):
        h.update(open(os.path.join(VERIF, 'lib', f), 'rb').read())
    h.update(open(os.path.join(VERIF, 'tool', 'irdump.cpp'), 'rb').read())
    return h.hexdigest()[:24]


class Hasher:
    def __init__(self, P):
        self.P = P
        self.fh = {}
        self.gh = {}
        h = hashlib.sha256()
        for c in sorted(P.classes):
            v = P.classes[c]
            h.update(json.dumps([c, v.get('m'), v.get('size'), v.get('bases')], sort_keys=True).encode())
        self.layout = h.hexdigest()

    def glob(self, k):
        v = self.gh.get(k)
        if v is None:
            g = self.P.globals.get(k)
            v = self.gh[k] = hashlib.sha256(json.dumps(
                [k, g.get('init'), g.get('const'), g.get('size'), g.get('ty')] if g else [k]).encode()).hexdigest()
        return v

    def func(self, k, body=True):
        v = self.fh.get((k, body))
        if v is not None:
            return v
        f = self.P.funcs.get(k) or self.P.decls.get(k)
        h = hashlib.sha256()
        if f is None:
            h.update(b'?')
        else:
            h.update(json.dumps([k, f.get('args'), f.get('dts'), f.get('cls'), f.get('const'), f.get('acc'), f.get('nr'),
                                 f.get('rt'), f.get('sn'), bool(f.get('live'))], sort_keys=True).encode())
            if body and 'bbs' in f:
                for b in f['bbs']:
                    h.update(b['n'].encode())
                    for i in b['i']:
                        h.update(json.dumps({x: y for x, y in i.items() if x != 'l'}, sort_keys=True).encode())
                        for o in (i.get('ops') or []) + (i.get('args') or []):
                            if o and o[0] == 'g':
                                h.update(self.glob(o[1]).encode())
        v = self.fh[(k, body)] = h.hexdigest()
        return v

    def closure(self, key, deps):
        h = hashlib.sha256(self.layout.encode())
        h.update(self.func(key).encode())
        for k, body in sorted(set(map(tuple, deps))):
            h.update(self.func(k, bool(body)).encode())
        return h.hexdigest()[:24]


def raw(tag):
    """what is recorded, whatever analyser recorded it (used for the list of what was decidable on the reference tree)"""
    with gzip.open(PATH.replace('verdicts', tag), 'rt') as f:
        return json.load(f)['v']


def load(tag, extra=()):
    """verdicts recorded for exactly this analyser, or nothing"""
    p = PATH.replace('verdicts', tag)
    try:
        with gzip.open(p, 'rt') as f:
            d = json.load(f)
    except (OSError, ValueError):
        return {}
    return d['v'] if d.get('engine') == engine_digest(extra) else {}


def save(tag, verdicts, extra=()):
    p = PATH.replace('verdicts', tag)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    raw = json.dumps({'engine': engine_digest(extra), 'v': verdicts}, sort_keys=True).encode()
    with open(p, 'wb') as f:
        with gzip.GzipFile(fileobj=f, mode='wb', mtime=0, filename='') as g:
            g.write(raw)
