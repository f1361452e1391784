"""Running TLC: exhaustive checks, generation of behaviours, validation of traces."""
import json, os, re, shutil, subprocess, tempfile, time
from . import build

SPEC = os.path.join(build.VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TlcError(Exception):
    pass


def errors(out):
    i = out.find('Error: ')
    return out[i:i + 1500] + "\n....\n" + out[-3500:] if i >= 0 else out[-4000:]


def workdir():
    d = tempfile.mkdtemp(prefix='vp-tlc-', dir=os.environ.get('VP_TMP', '/tmp'))
    for f in os.listdir(SPEC):
        if f.endswith('.tla'):
            shutil.copy(os.path.join(SPEC, f), d)
    return d


def run(module, cfg, data=None, workers=1, extra=(), timeout=600, keep=False, heap='3g', files=None):
    """returns (exit status text, output, workdir contents read by reader)"""
    d = workdir()
    try:
        with open(os.path.join(d, 'MC.cfg'), 'w') as f:
            f.write(cfg)
        if data is not None:
            with open(os.path.join(d, 'data.json'), 'w') as f:
                json.dump(data, f)
        for k, v in (files or {}).items():
            with open(os.path.join(d, k), 'w') as f:
                f.write(v)
        cmd = ['java', '-Xmx' + heap, '-Xss512m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=%d' % max(2, min(8, workers)),
               '-cp', JARS, 'tlc2.TLC', '-workers', str(workers), '-config', 'MC.cfg', '-metadir', os.path.join(d, 'meta'),
               '-noGenerateSpecTE'] + list(extra) + [module + '.tla']
        try:
            r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            out = r.stdout.decode('utf-8', 'replace')
            rc = r.returncode
        except subprocess.TimeoutExpired as e:
            out = (e.stdout or b'').decode('utf-8', 'replace')
            rc = -1
        res = {}
        for f in os.listdir(d):
            if f.endswith('.json') and f != 'data.json' or f.endswith('.out'):
                res[f] = open(os.path.join(d, f)).read()
        return rc, out, res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def stats(out):
    m = re.search(r'(\d+) states generated, (\d+) distinct states found', out)
    if m:
        return int(m.group(1)), int(m.group(2))
    m = re.findall(r'(\d+) states checked', out)      # simulation
    return (int(m[-1]), int(m[-1])) if m else (0, 0)


def validate(module, traces, consts='', timeout=600, inv='ModelInv', heap='3g', chunk=None):
    """traces: list of {.., ev: [...]}.  Returns (list of (trace index, first rejected event index, detail), stats)"""
    if chunk and len(traces) > chunk:
        bad, gen, dis = [], 0, 0
        import concurrent.futures as cf
        jobs = [(i, traces[i:i + chunk]) for i in range(0, len(traces), chunk)]
        with cf.ThreadPoolExecutor(4) as ex:
            for (i, _), (b, s) in zip(jobs, ex.map(lambda j: validate(module, j[1], consts, timeout, inv, heap), jobs)):
                bad += [(i + t, k, d) for t, k, d in b]
                gen += s[0]
                dis += s[1]
        return bad, (gen, dis)
    cfg = 'SPECIFICATION Spec\nCONSTRAINT Note\nPOSTCONDITION Report\nCHECK_DEADLOCK FALSE\n'
    if inv:
        cfg += 'INVARIANT %s\n' % inv
    cfg += consts
    rc, out, res = run(module, cfg, traces, timeout=timeout, heap=heap)
    if 'result.json' not in res:
        if inv and re.search(r'Invariant %s is violated' % inv, out):
            m = re.findall(r'/\\ t = (\d+)', out)
            n = re.findall(r'/\\ l = (\d+)', out)
            return [(int(m[-1]) - 1, max(0, int(n[-1]) - 2), 'the model state violates %s\n%s' % (inv, out[-3000:]))], stats(out)
        raise TlcError('TLC failed (%s):\n%s' % (rc, errors(out)))
    prog = json.loads(res['result.json'])
    bad = []
    for i, tr in enumerate(traces):
        if prog[i] < len(tr['ev']):
            bad.append((i, prog[i], None))
    return bad, stats(out)


def explain(module, trace, at, consts='', timeout=300):
    """the model state(s) from which event `at` (0-based) of the trace was rejected"""
    tr = dict(trace)
    tr['focus'], tr['at'] = 1, at + 1
    cfg = 'SPECIFICATION Spec\nINVARIANT Stuck\nCHECK_DEADLOCK FALSE\n' + consts
    rc, out, _ = run(module, cfg, [tr], timeout=timeout)
    i = out.rfind('\nState ')
    if i < 0:
        i = max(0, len(out) - 3000)
    return out[i:i + 20000]


def check(module, cfg, timeout=600, workers=8, extra=(), heap='6g', files=None, data=None):
    """exhaustive check; returns (ok, generated, distinct, output)"""
    rc, out, res = run(module, cfg, data, workers=workers, timeout=timeout, extra=extra, heap=heap, files=files)
    g, d = stats(out)
    ok = 'Model checking completed. No error has been found' in out
    return ok, g, d, out


def generate(module, cfg, num, depth, seed, timeout=300, data=None, files=None):
    """behaviours generated by TLC in simulation mode; the module writes one JSON line per behaviour to gen.out"""
    rc, out, res = run(module, cfg, data, workers=1, timeout=timeout, files=files,
                       extra=['-simulate', 'num=%d' % num, '-depth', str(depth), '-seed', str(seed)])
    if 'gen.out' not in res:
        raise TlcError('TLC generated nothing (%s):\n%s' % (rc, errors(out)))
    walks = []
    for l in res['gen.out'].splitlines():
        if l.strip():
            w = json.loads(l)
            w = json.loads(w) if isinstance(w, str) else w
            if w not in walks:
                walks.append(w)
    return walks, out
