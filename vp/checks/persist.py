"""Restarts: what the remote API shows before a regular shutdown and after the next start, validated with Persist.tla."""
import concurrent.futures as cf, random, time
from .. import build, nz, nntp
from . import download as D, queue as Q


def text(v):
    if isinstance(v, list):
        return [text(x) for x in v]
    if isinstance(v, dict):
        return {k: text(x) for k, x in v.items()}
    return str(v)


def flat(r):
    """a record of strings; lists of records (parameters, scripts, servers) become one text"""
    return {k: (v if isinstance(v, str) else repr(text(v))) for k, v in r.items()}


def snapshot(n):
    gs, fs, hs, sv = n.groups(), n.files(0), n.history(True), n.call('servervolumes')
    msgs = []
    for x in gs + hs:
        if x['Kind'] == 'NZB':
            for m in n.call('loadlog', x['NZBID'], 0, 10000):
                msgs.append(dict(NZBID=x['NZBID'], Kind=m['Kind'], Time=m['Time'], Text=m['Text']))
    vol = [dict(ServerID=v['ServerID'], FirstDay=v['FirstDay'], Total=v['TotalSizeLo'], Custom=v['CustomSizeLo'], CustomTime=v['CustomTime'],
                Days=[d['SizeLo'] for d in v['BytesPerDays']]) for v in sv]
    return {k: [flat(r) for r in x] for k, x in dict(groups=gs, files=fs, history=hs, messages=msgs, volumes=vol).items()}


EDITS = ['GroupMoveTop', 'GroupPause', 'GroupResume', 'GroupPauseAllPars', 'GroupSetPriority', 'GroupSetCategory', 'GroupSetName', 'GroupSetDupeKey',
         'GroupSetDupeScore', 'GroupSetDupeMode', 'GroupSetParameter', 'GroupMerge', 'GroupSort', 'GroupDelete', 'GroupDupeDelete', 'GroupParkDelete',
         'GroupFinalDelete', 'FilePause', 'FileResume', 'FileDelete', 'FileMoveBottom', 'FileReorder', 'FileSplit']
HIST = ['HistoryDelete', 'HistoryFinalDelete', 'HistoryReturn', 'HistoryRedownload', 'HistoryRetryFailed', 'HistorySetParameter', 'HistorySetDupeKey',
        'HistorySetDupeScore', 'HistorySetDupeMode', 'HistorySetDupeBackup', 'HistoryMarkBad', 'HistoryMarkGood', 'HistoryMarkSuccess',
        'HistorySetCategory', 'HistorySetName', 'HistoryDelete', 'HistorySetName']


def session(env, seed, steps):
    r = random.Random(seed)
    opts = {'DupeCheck': r.choice(['yes', 'no']), 'UrlRetries': '1', 'HealthCheck': r.choice(['none', 'park', 'delete']), 'UrlTimeout': '5',
            'DirectWrite': r.choice(['yes', 'no']), 'ArticleCache': r.choice(['0', '10']), 'ParCheck': r.choice(['manual', 'auto'])}
    srv2 = nntp.Server('s2')
    s = D.Session(env, seed, opts=opts, conns=2, fail=.2, extra=srv2.conf(2, 1, level=1))
    n = s.n
    n.argv = ['-P']
    n.call_url = 'http://127.0.0.1:9/%d.nzb'
    ev, err = [], None
    did = []

    def idle():
        gs, st = n.groups(), n.status()
        if st['PostJobCount'] or any(g['ActiveDownloads'] or g['Status'] not in ('QUEUED', 'PAUSED', 'DOWNLOADING') for g in gs):
            return False
        return True

    def download(t):
        n.call('resumedownload')
        end = time.time() + t
        while time.time() < end and any(g['Status'] in ('QUEUED', 'DOWNLOADING') for g in n.groups()):
            time.sleep(.02)
        n.call('pausedownload')
        settle()
        time.sleep(.03)

    def settle():
        # a par-check may wait for further par-files, which are not downloaded while paused
        for _ in range(8):
            if n.wait(idle, 1.5, 'idle'):
                return True
            if any(g['Status'] == 'LOADING_PARS' for g in n.groups()):
                n.call('resumedownload')
                n.wait(lambda: not any(g['Status'] == 'LOADING_PARS' for g in n.groups()), 3, 'par-files')
                n.call('pausedownload')
        return n.wait(idle, 10, 'idle')

    def restart():
        if not settle():
            raise nz.Dead('the program does not become idle: %s %s' % ([(g['NZBName'], g['Status'], g['ActiveDownloads']) for g in n.groups()], n.status()['PostJobCount']))
        # statistics of connections and volumes settle
        a = snapshot(n)
        for _ in range(100):
            time.sleep(.05)
            b = snapshot(n)
            if a == b:
                break
            a = b
        ev.append(dict(e='down', s=a, did=list(did)))
        del did[:]
        rc = n.stop()
        if rc != 0:
            raise nz.Dead('regular shutdown ended with %s' % rc)
        n.start()
        ev.append(dict(e='up', s=snapshot(n)))

    try:
        try:
            n.start()
            for step in range(steps):
                gs, hs = n.groups(), n.history(True)
                x = r.random()
                if x < .25 or not (gs or hs):
                    d = s.make_def()
                    hard = r.random() < .5
                    if hard:
                        d['name'] = r.choice(Q.HARD) + str(s.k)
                    ps = [(r.choice(['p1', 'P 2', '\u00fcber', '*X:']), r.choice(['', 'v', 'a=b', 'x' * r.choice([1023, 1024, 3000]), '"q" <&>', ' v ', '%s%n', '\u65e5\u672c']))
                          for _ in range(r.randint(0, 2))]
                    rm = n.append(d['name'] + '.nzb', Q.nzb_of(d['_prefix'], d['_src']), r.choice(['', 'movies', 'K\u00e4t & <x>', "o'c"]), min(d['prio'], 100), r.random() < .3,
                                  r.random() < .2, r.choice(['', '', 'k1', 'imdb=tt 1,2', 'k' * 1500]), r.choice([0, 0, 5, 10, -3]),
                                  r.choice(['SCORE', 'ALL', 'FORCE']), ps)
                    did.append(['add', d['name'], rm])
                elif x < .32:
                    rm = n.append(r.choice(['u%d.nzb', '\u00fc %d.nzb', '']).replace('%d', str(step)), r.choice(['http://127.0.0.1:9/%d.nzb', 'http://127.0.0.1:9/a?b=%d&c=<x>', 'http://u:p@127.0.0.1:9/%d']) % step,
                                  r.choice(['', 'movies']), r.choice([0, 50, -50]), False, False, r.choice(['', 'uk']), 0, 'SCORE')
                    did.append(['url', rm])
                elif x < .55:
                    t = r.choice([.05, .2, 1.5])
                    download(t)
                    did.append(['download', t])
                elif x < .75 and gs:
                    cmd = r.choice(EDITS)
                    isf = cmd.startswith('File')
                    if isf:
                        fs = n.files(0)
                        if not fs:
                            continue
                        f0 = r.choice(fs)
                        pool = [f['ID'] for f in fs if f['NZBID'] == f0['NZBID']]
                    else:
                        pool = [g['NZBID'] for g in gs]
                    ids = r.sample(pool, r.randint(1, min(2, len(pool))))
                    arg = arg_of(cmd, r)
                    did.append([cmd, arg, ids, n.edit(cmd, arg, ids)])
                elif x < .9 and hs:
                    cmd = r.choice(HIST)
                    ids = r.sample([h['NZBID'] for h in hs], r.randint(1, min(2, len(hs))))
                    arg = arg_of(cmd, r)
                    did.append([cmd, arg, ids, n.edit(cmd, arg, ids)])
                    settle()
                elif x < .93:
                    did.append(['reset', n.call('resetservervolume', r.choice([0, 1, 2]), 'CUSTOM')])
                else:
                    restart()
            restart()
        except (nz.Dead, nz.RpcError) as e:
            err = '%s after %s' % (e, did[-3:])
        return dict(ev=ev), err
    finally:
        s.close()
        srv2.close()


def arg_of(cmd, r):
    k = cmd.replace('Group', '').replace('History', '').replace('File', '')
    return {'SetPriority': lambda: r.choice(['-100', '0', '50', '101']), 'SetCategory': lambda: r.choice(['', 'movies', 'K\u00e4t & <x>']),
            'SetName': lambda: r.choice(Q.HARD), 'SetDupeKey': lambda: r.choice(['', 'k1', ' k ', 'k' * 1500]), 'SetDupeScore': lambda: r.choice(['0', '7', '-7']),
            'SetDupeMode': lambda: r.choice(['SCORE', 'ALL', 'FORCE']), 'SetParameter': lambda: r.choice(['p1=', 'p1=v', 'P 2=a=b', '*X:=' + 'z' * 2000, '\u00fcber=\u65e5\u672c']),
            'SetDupeBackup': lambda: r.choice(['yes', 'no', '1', '0']), 'Sort': lambda: r.choice(['name+', 'size-']), 'Split': lambda: r.choice(Q.HARD)}.get(k, lambda: '')()


def p04(ctx):
    Q.run_queue(ctx, 'all', Q.CMDS, ctx.pick(48, 800), ctx.pick(24, 40), restart=True, nuni=ctx.pick(4, 12), hard=True, restartp=12)
    D.run_order(ctx, 'all', ctx.pick(16, 300), 4, ctx.pick(16, 30), 0.25, restarts=.12)
    env = build.build()
    seeds = [ctx.seed * 100000 + 50000 + i for i in range(ctx.pick(32, 500))]
    fn = lambda sd: session(env, sd, 20)
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(fn, seeds))
    ctx.add(restarts=sum(1 for t, _ in res for e in t['ev'] if e['e'] == 'up'))
    D.validate(ctx, 'Persist', '', seeds, res, fn, consts=' ')
