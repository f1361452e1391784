"""Helpers of the demonstrations: runs the built program in a scratch directory, as an unprivileged user."""
import os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
import nz, nntp

BIN = os.path.join(os.getcwd(), '_build', 'nzbget')


def server(opts=None, extra=None, shim=None, **kw):
    o = {'DupeCheck': 'no'}
    o.update(opts or {})
    return nz.Nz(BIN, shim, opts=o, extra=extra, **kw)


def shimlib(root):
    out = os.path.join(root, 'vpshim.so')
    subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-w', '-o', out, os.path.join(HERE, 'shim.c'), '-ldl', '-lpthread'], check=True)
    return out


def files(prefix, spec, date=1600000000):
    """spec: {name: number of articles or list of sizes}; deterministic content"""
    import random
    out = []
    for i, (n, parts) in enumerate(spec.items()):
        r = random.Random(prefix + n)
        ps = [r.randbytes(s) for s in (parts if isinstance(parts, list) else [500 + i] * parts)]
        out.append(nntp.NzbFileDef(n, ps, date=date + 60 * i, prefix=prefix))
    return out


def post(srv, fs, modes=None):
    for f in fs:
        for mid, lines in f.articles():
            srv.articles[mid] = nntp.Article(lines, (modes or {}).get(mid, 'ok'))


def names(n):
    return [g['NZBName'] for g in n.groups()]


def check(cond, text):
    if not cond:
        print('FAILED: ' + text)
        sys.exit(1)


def done():
    print('ok')
    sys.exit(0)
