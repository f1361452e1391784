"""Queue commands: histories generated by TLC from the model, replayed against the program, what was
observed validated by TLC against the same model."""
import concurrent.futures as cf, os, random, re
import time
from .. import build, nz, nntp, tlc


# ---- static facts about strings used by the spec ------------------------------------------------

def attr_of(names):
    order = sorted(set(names), key=lambda s: s.encode())
    rank = {n: i + 1 for i, n in enumerate(order)}
    out = {}
    for n in set(names):
        lo = n.lower()
        m = re.search(r'\.(rar|r\d\d)$', n)
        ek = 'other' if not m else ('rar' if m.group(1) == 'rar' else 'rNN')
        stem = n[:-4] if m else n
        par = '.par2' in lo
        pcol = re.sub(r'\.vol\d+\+\d+\.par2$|\.par2$', '', lo) if par else n
        out[n] = dict(rank=rank[n], stem=stem, ek=ek, len=len(n), vol='.vol' in lo, pcol=pcol)
    return out


def file_def(name, arts, missing=(), time=1600000000):
    """model record of a file (without id); arts: sizes of the articles, missing: indexes not in the nzb"""
    present = [s for i, s in enumerate(arts) if i not in missing]
    one = present[0]
    missz = one * len(missing)
    sz = sum(present) + missz
    return dict(name=name, sz=sz, rem=sz - missz, time=time, paused=False, par='.par2' in name.lower(), tot=len(arts), miss=len(missing),
                missz=missz, ok=0, bad=0, badsz=0)


def nzb_of(prefix, files):
    """nzb text for [(name, arts, missing, time)]"""
    o = ['<?xml version="1.0" encoding="UTF-8"?>', '<nzb xmlns="http://www.newzbin.com/DTD/2003/nzb">']
    for name, arts, missing, tm in files:
        o.append('<file poster="vp" date="%d" subject="%s"><groups><group>alt.test</group></groups><segments>' %
                 (tm, nntp.esc('[1/1] - "%s" yEnc (1/%d)' % (name, len(arts)))))
        for i, s in enumerate(arts):
            if i not in missing:
                o.append('<segment bytes="%d" number="%d">%s.%s.%d@vp</segment>' % (s, i + 1, prefix, name, i + 1))
        o.append('</segments></file>')
    o.append('</nzb>')
    return '\n'.join(o)


def universe(rnd, ndefs, hard=False):
    """collections to add, and the strings used by commands"""
    names = ['alpha', 'beta', 'Gamma', 'delta one', 'x.y', 'Zeta-2']
    cats = ['', 'movies', 'tv', 'My Cat']
    defs, used = [], set()
    for d in range(ndefs):
        name = 'nzb%d' % d if rnd.random() < .6 else rnd.choice(names) + str(d)
        if hard and rnd.random() < .5:
            name = re.sub(r'[<>:"/\\|?*]', '_', rnd.choice(HARD)) + str(d)  # a collection gets a name valid for files
        fs, szs = [], set()
        stem = 'f%d' % d
        cand = [stem + '.rar', stem + '.r00', stem + '.r01', stem + '.nfo', stem + '-sample.mkv', 'a' + stem + '.bin',
                stem + '.par2', stem + '.vol0+1.par2', stem + '.vol1+2.par2', stem + '.vol3+4.PAR2', 'other%d.par2' % d]
        rnd.shuffle(cand)
        for nm in cand[:rnd.randint(2, 6)]:
            while True:
                k = rnd.randint(1, 4)
                arts = [rnd.randint(100, 900) for _ in range(k)]
                missing = tuple(i for i in range(k - 1) if rnd.random() < .2) if rnd.random() < .4 else ()
                f = file_def(nm, arts, missing)
                if f['sz'] not in szs:
                    break
            szs.add(f['sz'])
            tm = 1500000000 + rnd.randint(0, 10 ** 6) * 100
            fs.append((nm, arts, missing, tm))
        defs.append(dict(name=name, cat=rnd.choice(cats), prio=rnd.choice([0, 0, 50, -50, 100]), dk=rnd.choice(['', '', 'key%d' % d]),
                         ds=rnd.choice([0, 0, 10]), dm=rnd.choice(['SCORE', 'ALL', 'FORCE']), par=[['*Unpack:', 'no']],
                         files=[file_def(*f) for f in fs], _src=fs))
    if hard:
        names = names + [re.sub(r'[<>:"/\\|?*]', '_', x) for x in HARD]
        return dict(defs=defs, names=names + [''], cats=cats + ['K\u00e4t & <x>', "o'c"], dkeys=['', 'k1', 'imdb=tt 1,2', 'k' * 1500, ' k '],
                    pnames=['p1', 'P1', 'p2:', 'My Param', '*X:', '\u00fcber'],
                    pvalues=['', 'v', 'a b=c', 'x' * 1023, 'y' * 1024, 'z' * 3000, ' v ', '%s%n', '"q"', 'a,b;c', '\u65e5\u672c', '=', '\\n'])
    return dict(defs=defs, names=names + [''], cats=cats, dkeys=['', 'k1', 'k2'], pnames=['p1', 'P1', 'p2:', 'My Param'],
                pvalues=['', 'v', 'yes', 'a b=c'])


HARD = ['\u00dcn\u00efc\u00f6de', '\u65e5\u672c\u8a9e', 'a & b <c>', 'q"uo\'te', '100% %s %n', 'com,ma;semi', '[x] {y}', 'a=b', 'x' * 180, '-dash', '~', '#1', 'a  b']

CMDS = ['GroupMoveOffset', 'GroupMoveOffset', 'GroupMoveTop', 'GroupMoveBottom', 'GroupMoveBefore', 'GroupMoveAfter', 'GroupPause', 'GroupResume',
        'GroupPauseAllPars', 'GroupPauseExtraPars', 'GroupSetPriority', 'GroupSetCategory', 'GroupSetName', 'GroupSetDupeKey',
        'GroupSetDupeScore', 'GroupSetDupeMode', 'GroupSetParameter', 'GroupMerge', 'GroupSort', 'GroupSort', 'GroupSortFiles', 'GroupDelete',
        'GroupDupeDelete', 'GroupFinalDelete', 'GroupParkDelete', 'FileMoveOffset', 'FileMoveOffset', 'FileMoveTop', 'FileMoveBottom', 'FilePause',
        'FileResume', 'FilePauseAllPars', 'FilePauseExtraPars', 'FileReorder', 'FileDelete', 'FileSplit', 'FileSplit', 'GroupApplyCategory']


def rpc_edit(n, c, gid, fid):
    isfile = c['cmd'].startswith('File')
    ids = [(fid if isfile else gid).get(i, i) for i in c['ids']]
    cmd, arg = c['cmd'], c['arg']
    if cmd in ('GroupMoveOffset', 'FileMoveOffset', 'GroupSetPriority', 'GroupSetDupeScore'):
        arg = str(c['off'])
    elif cmd in ('GroupMoveBefore', 'GroupMoveAfter'):
        arg = str(gid.get(c['off'], c['off']))
    elif cmd == 'GroupSetParameter':
        arg = c['arg'] + '=' + c['arg2']
    elif cmd == 'GroupSort':
        arg = c['arg'] + {'asc': '+', 'desc': '-', 'auto': ''}[c['arg2']]
    rc = dict(c, ids=ids)
    if cmd in ('GroupMoveBefore', 'GroupMoveAfter'):
        rc['off'] = gid.get(c['off'], c['off'])
    return n.edit(cmd, arg, ids), rc


def observe(n):
    """projection of the observable queue and history"""
    gs, fs, hs, st = n.groups(), n.files(0), n.history(), n.status()
    by = {}
    for f in fs:
        by.setdefault(f['NZBID'], []).append(f)
    q = []
    for g in gs:
        q.append(dict(id=g['NZBID'], name=g['NZBName'], cat=g['Category'], prio=g['MaxPriority'], dk=g['DupeKey'], ds=g['DupeScore'],
                      dm=g['DupeMode'], par=[[p['Name'], p['Value']] for p in g['Parameters']],
                      files=[dict(id=f['ID'], name=f['Filename'], sz=f['FileSizeLo'], rem=f['RemainingSizeLo'], time=f['PostTime'],
                                  paused=f['Paused'], act=f['ActiveDownloads'], prog=f['Progress']) for f in by.get(g['NZBID'], [])],
                      fc=g['FileCount'], size=g['FileSizeLo'], remsz=g['RemainingSizeLo'], psize=g['PausedSizeLo'], rfc=g['RemainingFileCount'],
                      rpc=g['RemainingParCount'], tot=g['TotalArticles'], ok=g['SuccessArticles'], bad=g['FailedArticles'], health=g['Health'],
                      crit=g['CriticalHealth'], mint=g['MinPostTime'], maxt=g['MaxPostTime'], dest=g['DestDir'].replace(n.main, ''),
                      status=g['Status'], kind=g['Kind'], act=g['ActiveDownloads']))
    h = [dict(id=x['NZBID'], name=x['Name'], cat=x.get('Category', ''), status=x['Status'],
              acc=[x['FileCount'], x['FileSizeLo'], x['Health'], x['TotalArticles'], x['SuccessArticles'], x['FailedArticles']]) for x in hs]
    return dict(q=q, h=h, remaining=st['RemainingSizeLo'], forced=st['ForcedSizeLo'])


def replay(env, uni, ops, i):
    """run one generated history against a fresh instance; returns the trace"""
    ev = []
    gid, fid = {}, {}
    prev_nf = [0]
    err = None
    with nz.Nz(env[0], env[1], opts={'DupeCheck': 'no', 'FlushQueue': 'no'}) as n:
        n.start()
        n.call('pausedownload')
        nfmodel = 0
        try:
            for op in ops:
                if op['e'] == 'add':
                    d = uni['defs'][op['def'] - 1]
                    ret = n.append(d['name'] + '.nzb', nzb_of('t%d-%d' % (i, op['def']), d['_src']), d['cat'], d['prio'], op['top'], op['paused'],
                                   d['dk'], d['ds'], d['dm'])
                    o = observe(n)
                    gid[op['id']] = ret
                    g = [x for x in o['q'] if x['id'] == ret]
                    if g:
                        for k, f in enumerate(g[0]['files']):
                            fid[nfmodel + k + 1] = f['id']
                    nfmodel += len(d['files'])
                    ev.append(dict(e='add', ret=ret, top=op['top'], paused=op['paused'],
                                   **{'def': {k: v for k, v in d.items() if k != '_src'}}, o=o))
                elif op['e'] == 'edit':
                    before = {x['id'] for x in ev[-1]['o']['q']} if ev else set()
                    ret, rc = rpc_edit(n, op['c'], gid, fid)
                    o = observe(n)
                    new = [x['id'] for x in o['q'] if x['id'] not in before]
                    if op['newId'] and len(new) == 1:
                        gid[op['newId']] = new[0]
                    ev.append(dict(e='edit', c=rc, ret=ret, o=o))
                elif op['e'] == 'restart':
                    n.restart()
                    ev.append(dict(e='restart', o=observe(n)))
        except nz.Dead as ex:
            err = 'the program stopped: %s after %r' % (ex, ops[len(ev)])
        except nz.RpcError as ex:
            err = 'invalid answer: %s after %r' % (ex, ops[len(ev)])
        log = n.logtext()[-3000:] if err else ''
    return dict(ev=ev, ops=ops, err=err, log=log)


def strings(uni):
    ns = set(uni['names']) | set(uni['cats']) | {d['name'] for d in uni['defs']} | {f['name'] for d in uni['defs'] for f in d['files']}
    rank = {n: i + 1 for i, n in enumerate(sorted(ns, key=lambda s: s.encode()))}
    attr = attr_of([f['name'] for d in uni['defs'] for f in d['files']])
    pn = set(uni['pnames']) | {p[0] for d in uni['defs'] for p in d['par']}
    return dict(attr=attr, rank=rank, lname={p: p.lower() for p in pn})


def run_queue(ctx, view, cmds, walks, depth, restart=False, nuni=4, hard=False, restartp=3):
    env = build.build()
    rnd = random.Random(ctx.seed)
    traces, src = [], []
    unis = [universe(rnd, 7, hard) for _ in range(nuni)]
    gens = []
    for u, uni in enumerate(unis):
        st = strings(uni)
        data = dict(defs=[{k: v for k, v in d.items() if k != '_src'} for d in uni['defs']], names=uni['names'], cats=uni['cats'],
                    dkeys=uni['dkeys'], pnames=uni['pnames'], pvalues=uni['pvalues'], cmds=cmds, fill=4, restart=restart, restartp=restartp, **st)
        gens.append((u, data))
    with cf.ThreadPoolExecutor(4) as ex:
        outs = list(ex.map(lambda a: tlc.generate('QueueGen', 'SPECIFICATION Spec\nCONSTRAINT Emit\nINVARIANT Inv\nCONSTANT Depth = %d\nCHECK_DEADLOCK FALSE\n' % depth,
                                                  walks // nuni, depth + 3, ctx.seed * 100 + a[0], data=a[1]), gens))
    jobs = []
    for (u, data), (walks_, out) in zip(gens, outs):
        g, _ = tlc.stats(out)
        ctx.add(transitions=g, states=g)
        for w in walks_:
            jobs.append((u, w))
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda a: replay(env, unis[a[1][0]], a[1][1], a[0]), enumerate(jobs)))
    allow = []
    for (u, w), r in zip(jobs, res):
        if r['err'] and len(ctx.violations) < 3:
            r2 = replay(env, unis[u], w, 0)
            if r2['err']:
                ctx.violation(r['err'], dict(ops=w, log=r['log'], trace=r['ev'][-2:]), key=None)
        allow.append(dict(strings(unis[u]), ev=r['ev']))
        ctx.add(commands=len(r['ev']))
    validate_queue(ctx, view, allow, [w for _, w in jobs], rerun=lambda i: replay(env, unis[jobs[i][0]], jobs[i][1], i))


def validate_queue(ctx, view, traces, ops, rerun=None):
    consts = 'CONSTANT View = "%s"\n' % view
    bad, (g, d) = tlc.validate('QueueTrace', traces, consts, chunk=max(4, (len(traces) + 5) // 6))
    ctx.add(states=d, transitions=g, traces_validated_against_impl=len(traces))
    for t, at, det in bad[:3]:
        if rerun:
            r = rerun(t)
            tr2 = dict(traces[t], ev=r['ev'])
            b2, _ = tlc.validate('QueueTrace', [tr2], consts)
            if not b2 and not r['err']:
                ctx.cov['unconfirmed'] = ctx.cov.get('unconfirmed', 0) + 1
                if os.environ.get('VP_DEBUG'):
                    import json
                    json.dump(dict(tr=traces[t], at=at), open('/tmp/unconf.json', 'w'))
                continue
        e = traces[t]['ev'][at]
        det = det or tlc.explain('QueueTrace', traces[t], at, consts)
        ctx.violation('history rejected by the model at step %d: %s -> result %s' % (at + 1, e.get('c', e['e']), e.get('ret')),
                      dict(step=at, event=e, before=traces[t]['ev'][at - 1]['o'] if at else None, ops=ops[t][:at + 1], model=det[:8000]))
    if traces:
        ctx.sample(dict(ops=ops[0][:6]))


def p01(ctx):
    run_queue(ctx, 'edit', CMDS, ctx.pick(120, 1500), ctx.pick(28, 40), nuni=ctx.pick(4, 12))


def p02(ctx):
    from . import download
    run_queue(ctx, 'totals', CMDS, ctx.pick(100, 1500), ctx.pick(28, 40), restart=True, nuni=ctx.pick(4, 12))
    download.run_order(ctx, 'totals', ctx.pick(32, 400), 4, ctx.pick(20, 30), 0.25, restarts=.04)


def p03(ctx):
    from . import download
    run_queue(ctx, 'ids', CMDS, ctx.pick(100, 1500), ctx.pick(28, 40), restart=True, nuni=ctx.pick(4, 12))
    download.run_order(ctx, 'ids', ctx.pick(32, 400), 4, ctx.pick(20, 30), 0.25, restarts=.1)
