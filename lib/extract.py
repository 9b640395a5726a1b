"""Mechanical source transformations done on every run (what they drop is stated in DESIGN.md)."""
import json, os, subprocess, re
from vlib import REPO, SHIM, BASEDEF


def clang_ast(path, extra=()):
    cmd = ['clang', '-fsyntax-only', '-w'] + [d for d in BASEDEF if d != '-DOPENSKY_VERIF'] + list(extra) + \
          ['-I' + SHIM + '/plain', '-I' + REPO + '/src', '-I' + REPO + '/src/core', '-I' + REPO + '/src/util',
           '-I' + os.path.dirname(path), '-Xclang', '-ast-dump=json', path]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    if p.returncode != 0:
        return None, p.stderr.decode('utf-8', 'replace')[-500:]
    return json.loads(p.stdout), ''


def walk(n, f, anc=()):
    f(n, anc)
    for c in n.get('inner', []) or []:
        if isinstance(c, dict) and c:
            walk(c, f, anc + (n,))


def off(loc):
    """file offset of a plain (non-macro) location, else None"""
    if not loc or 'expansionLoc' in loc or 'spellingLoc' in loc:
        return None
    return loc.get('offset')


def static_locals(rel, gen, outname, cdefs=()):
    """In functions that use goto, gives block-scope locals static storage
    (declaration `T x = e;` becomes `static T x; x = e;`). CBMC 6.11 merges the values of block-scope
    locals wrongly when a backward goto crosses their declaration."""
    path = os.path.join(REPO, rel)
    ast, err = clang_ast(path, cdefs)
    if ast is None:
        return 'clang cannot parse %s: %s' % (rel, err)
    text = open(path, 'rb').read()
    edits = []

    def per_fn(fn):
        found = []
        walk(fn, lambda n, a: found.append(n) if n.get('kind') == 'GotoStmt' else None)
        if not found:
            return

        def visit(n, anc):
            if n.get('kind') != 'DeclStmt':
                return
            vs = [v for v in n.get('inner', []) if v.get('kind') == 'VarDecl']
            if len(vs) != 1 or vs[0].get('storageClass'):
                return
            v = vs[0]
            b = off(n['range']['begin'])
            nm = off(v.get('loc', {}))
            if b is None or nm is None:
                return
            name = v['name']
            if text[nm:nm + len(name)] != name.encode():
                return
            init = v.get('init')
            if init and '[' in v['type']['qualType']:
                return
            if 'const' in v['type']['qualType'].split('*')[-1]:
                return
            edits.append((b, b'static '))
            if init:
                e = nm + len(name)
                edits.append((e, b'; ' + name.encode()))
        walk(fn, visit)

    cur = [None]

    def top(n):
        for c in n.get('inner', []):
            if c.get('kind') == 'FunctionDecl' and any(x.get('kind') == 'CompoundStmt' for x in c.get('inner', []) or []):
                # only functions of this file: the body must lie where the text says so
                b = off(c.get('loc', {}))
                nm = c.get('name', '').encode()
                if b is not None and text[b:b + len(nm)] == nm:
                    per_fn(c)
    top(ast)
    out = text
    for o, ins in sorted(edits, key=lambda x: -x[0]):
        out = out[:o] + ins + out[o:]
    hdr = ('#line 1 "%s"\n' % path).encode()
    with open(os.path.join(gen, outname), 'wb') as f:
        f.write(hdr + out)
    return None
