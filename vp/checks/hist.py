"""Queue and history: random histories of adding, downloading (with articles missing or back again), deleting, history
actions and passing days, against the program; what was seen is validated with History.tla."""
import concurrent.futures as cf, os, random, time
from .. import build, nz, nntp, tlc
from . import download as D, queue as Q

NAMES = ['alpha', 'Alpha', 'beta', 'gamma one', 'delta', 'DELTA']
KEYS = ['', 'k1', 'K1', 'k2']
CATS = ['', 'tv']
PN = ['p1', 'P1', 'x y']
LOW = {x: x.lower() for x in NAMES + KEYS + PN}


class Session:
    def __init__(self, env, seed, check, dupes=False):
        self.rnd = random.Random(seed)
        self.names = ['alpha', 'Alpha', 'beta'] if dupes else NAMES
        self.keys = ['', 'k1', 'K1'] if dupes else KEYS
        self.dupes = dupes
        self.srv = nntp.Server('s1')
        self.check = check
        opts = {'DupeCheck': 'yes' if check else 'no', 'ReorderFiles': 'no', 'FileNaming': 'nzb', 'ParIgnoreExt': '.nfo', 'KeepHistory': '7', 'NzbCleanupDisk': 'yes',
                'ArticleRetries': '0', 'ArticleInterval': '0', 'HealthCheck': 'none', 'DeleteCleanupDisk': None, 'AppendCategoryDir': 'yes'}
        self.n = nz.Nz(env[0], env[1], opts={k: v for k, v in opts.items() if v is not None}, extra=self.srv.conf(1, 1))
        self.n.ctl.time_mode = 1
        self.n.ctl.time_val = 0
        self.n.start()
        self.t0 = time.time()
        self.day = 0
        self.ev, self.k, self.contents, self.hashes = [], 0, [], {}
        self.gone = set()
        self.paused = False
        self.mids = {}

    def close(self):
        self.n.close()
        self.srv.close()

    # ---- contents
    def content(self):
        """[(suffix, [(size, message-id)])]: the articles"""
        r = self.rnd
        if self.contents and r.random() < (.12 if self.dupes else .25):
            base = r.choice(self.contents)
            if r.random() < .5:
                return base
            fs = [f for f in base if not f[0].endswith('.nfo')]
            if fs:
                c = sorted(fs + [self.file('z.nfo')])
                self.contents.append(c)
                return c
        c = [self.file(s) for s in sorted(r.sample(['a.bin', 'b.rar', 'c.mkv', 'z.nfo'], r.randint(1, 3)))]
        self.contents.append(c)
        return c

    def file(self, suffix):
        r = self.rnd
        self.k += 1
        arts = []
        for i in range(r.randint(1, 3)):
            sz = r.choice([60, 100, 400, 900])
            arts.append((sz, 'c%d.%s.%d@vp' % (self.k, suffix, i + 1)))
        for i, (sz, mid) in enumerate(arts):
            self.srv.articles[mid] = nntp.Article(nntp.yenc_article(suffix, D.payload(r, sz), i + 1, len(arts), sum(a[0] for a in arts[:i]), sum(a[0] for a in arts)), 'ok')
            self.mids[mid] = True
        return (suffix, arts)

    def hid(self, arts):
        return self.hashes.setdefault(tuple(arts), len(self.hashes) + 1)

    def nzb(self, files):
        o = ['<?xml version="1.0" encoding="UTF-8"?>', '<nzb xmlns="http://www.newzbin.com/DTD/2003/nzb">']
        for name, arts in files:
            o.append('<file poster="vp" date="1500000000" subject="%s"><groups><group>alt.test</group></groups><segments>' %
                     nntp.esc('[1/1] - "%s" yEnc (1/%d)' % (name, len(arts))))
            for i, (sz, mid) in enumerate(arts):
                o.append('<segment bytes="%d" number="%d">%s</segment>' % (sz, i + 1, mid[:-3] + '@vp'))
            o.append('</segments></file>')
        return '\n'.join(o + ['</nzb>'])

    # ---- events
    def set_gone(self, gone):
        self.gone = set(gone)
        for m in self.mids:
            self.srv.articles[m].mode = 'missing' if m in self.gone else 'ok'

    def add(self):
        r = self.rnd
        c = self.content()
        self.adds = getattr(self, 'adds', 0) + 1
        files = [('%s.%d.%s' % (s[0], self.adds, s), arts) for s, arts in c]
        name = r.choice(self.names)
        key = r.choice(self.keys if r.random() < .7 else [''])
        d = dict(name=name, cat=r.choice(CATS), dk=key, ds=r.choice([0, 0, 5, 10, -5, 20]), dm=r.choice(['SCORE'] * 6 + ['ALL', 'ALL', 'FORCE']),
                 par=[['*Unpack:', 'no']], src=[dict(name=n, arts=[dict(sz=s, mid=m) for s, m in arts]) for n, arts in files],
                 size=sum(s for _, arts in files for s, _ in arts))
        flat = [a for s, arts in sorted(c, reverse=True) for a in arts]
        filt = [a for s, arts in sorted(c, reverse=True) if not s.endswith('.nfo') for a in arts]
        d['fh'] = self.hid(flat)
        d['ff'] = self.hid(filt) if len(filt) >= len(files) // 2 and filt else 0
        top, paused = r.random() < .3, r.random() < .5
        # choose which articles are there before the download can start
        ret = self.n.append(name + '.nzb', self.nzb(files), d['cat'], 0, top, paused, key, d['ds'], d['dm'])
        self.put(e='add', ret=ret, top=top, paused=paused, **{'def': d})

    def put(self, **e):
        e['o'] = self.settled()
        self.ev.append(e)

    def settled(self):
        n = self.n

        def idle():
            st = n.status()
            gs = n.groups()
            if st['PostJobCount'] or any(g['ActiveDownloads'] or g['Status'] not in ('QUEUED', 'PAUSED') for g in gs):
                return False
            if not self.paused and any(g['RemainingFileCount'] and g['RemainingSizeLo'] > g['PausedSizeLo'] for g in gs):
                return False
            return True
        if not n.wait(idle, 15, 'idle'):
            raise nz.Dead('not idle: %s' % [(g['NZBID'], g['NZBName'], g['Status'], g['RemainingSizeLo'], g['PausedSizeLo']) for g in n.groups()])
        return self.observe()

    def observe(self):
        n = self.n
        gs, fs, hs = n.groups(), n.files(0), n.history(True)
        pr = lambda x: [[p['Name'], p['Value']] for p in x['Parameters']]
        q = [dict(id=g['NZBID'], name=g['NZBName'], cat=g['Category'], dk=g['DupeKey'], ds=g['DupeScore'], dm=g['DupeMode'], par=pr(g), health=g['Health'],
                  files=[dict(name=f['Filename'], paused=f['Paused'], rem=f['RemainingSizeLo']) for f in fs if f['NZBID'] == g['NZBID']]) for g in gs]
        h = []
        for x in hs:
            d = dict(k=x['Kind'], id=x['NZBID'], name=x['Name'], dk=x['DupeKey'], ds=x['DupeScore'], dm=x['DupeMode'],
                     status=x['DupStatus'] if x['Kind'] == 'DUP' else x['Status'], day=int((x['HistoryTime'] - self.t0 + 43200) // 86400))
            if x['Kind'] != 'DUP':
                d.update(cat=x['Category'], par=pr(x), health=x['Health'], parked=x['RemainingFileCount'], retry=x['RetryData'])
            h.append(d)
        disk = []
        for top in ('int', 'dst'):
            b = os.path.join(n.main, top)
            for dp, ds, ff in os.walk(b):
                for f in ff:
                    disk.append([top + '/' + os.path.relpath(dp, b), f])
        self.obs = dict(q=q, h=h, disk=sorted(disk))
        return self.obs

    def hist(self, cmd=None, ids=None, arg='', arg2='', num=0):
        r = self.rnd
        hs = self.obs['h']
        if not hs:
            return self.add()
        if self.dupes:
            cmd = r.choice(['HistoryDelete', 'HistoryMarkBad', 'HistoryMarkBad', 'HistoryMarkGood', 'HistoryMarkSuccess', 'HistorySetDupeScore', 'HistorySetDupeKey', 'HistorySetDupeMode',
                            'HistorySetDupeBackup', 'HistorySetDupeBackup', 'HistoryRedownload'])
        cmd = cmd or r.choice(['HistoryDelete', 'HistoryDelete', 'HistoryFinalDelete', 'HistoryReturn', 'HistoryReturn', 'HistoryRedownload', 'HistoryRedownload', 'HistoryRetryFailed',
                               'HistoryRetryFailed', 'HistoryProcess', 'HistorySetParameter', 'HistorySetCategory', 'HistorySetName', 'HistorySetDupeKey', 'HistorySetDupeScore', 'HistorySetDupeMode',
                               'HistorySetDupeBackup', 'HistorySetDupeBackup', 'HistoryMarkBad', 'HistoryMarkBad', 'HistoryMarkBad', 'HistoryMarkGood', 'HistoryMarkSuccess'])
        pick = [x['id'] for x in hs]
        if cmd in ('HistoryReturn', 'HistoryRetryFailed'):
            pref = [x['id'] for x in hs if x.get('retry')]
            if pref and r.random() < .8:
                pick = pref
        if ids is None:
            one = cmd in ('HistoryReturn', 'HistoryRedownload', 'HistoryRetryFailed', 'HistoryProcess') and not self.paused
            ids = r.sample(pick, 1 if one else r.randint(1, min(3, len(pick))))
            if cmd == 'HistoryMarkBad' and not self.paused:
                ids = ids[:1]
            if r.random() < .05:
                ids.append(r.choice([999, max(pick) + 7]))
        if cmd == 'HistorySetParameter':
            arg, arg2 = r.choice(PN), r.choice(['', 'v', 'a=b'])
        elif cmd == 'HistorySetCategory':
            arg = r.choice(CATS)
        elif cmd == 'HistorySetName':
            arg = r.choice(NAMES + [''])
        elif cmd == 'HistorySetDupeKey':
            arg = r.choice(KEYS)
        elif cmd == 'HistorySetDupeScore':
            num = r.choice([0, 5, 10, -5, 30])
        elif cmd == 'HistorySetDupeMode':
            arg = r.choice(['SCORE', 'ALL', 'FORCE'])
        elif cmd == 'HistorySetDupeBackup':
            arg = r.choice(['yes', 'no'])
        a = arg + '=' + arg2 if cmd == 'HistorySetParameter' else str(num) if cmd == 'HistorySetDupeScore' else arg
        ret = self.n.edit(cmd, a, ids)
        self.put(e='hist', cmd=cmd, ids=ids, arg=arg, arg2=arg2, n=num, ret=ret)

    def queue(self, cmd=None, ids=None):
        r = self.rnd
        qs = self.obs['q']
        if not qs:
            return self.add()
        cmd = cmd or r.choice(['GroupResume'] * 6 + ['GroupPause', 'GroupDelete', 'GroupDelete', 'GroupParkDelete', 'GroupParkDelete', 'GroupDupeDelete', 'GroupFinalDelete'])
        if ids is None:
            ids = r.sample([g['id'] for g in qs], r.randint(1, min(2, len(qs))) if cmd != 'GroupResume' or self.paused else 1)
        self.n.edit(cmd, '', ids)
        self.put(e='queue', cmd=cmd, ids=ids)

    def pause(self, on):
        if not on:      # only one collection at a time is downloaded: what is downloaded first is then certain
            act = [g['id'] for g in self.obs['q'] if any(not f['paused'] for f in g['files'])]
            if len(act) > 1:
                self.queue('GroupPause', act[1:])
        self.n.call('pausedownload' if on else 'resumedownload')
        self.paused = on
        self.put(e='pause', on=on)

    def server(self):
        r = self.rnd
        p = r.choice([0, .1, .3, .6, 1])
        self.set_gone([m for m in self.mids if r.random() < p])
        self.put(e='server', gone=sorted(self.gone))

    def days(self):
        n = self.rnd.choice([1, 3, 3, 6])
        rc = self.n.stop()
        if rc != 0:
            raise nz.Dead('regular shutdown ended with %s' % rc)
        self.day += n
        self.n.ctl.time_val = self.day * 86400 + self.day * 60
        was = self.paused
        self.n.argv = ['-P'] if was else []
        self.n.start()
        self.n.wait(lambda: len(self.n.groups()) + len(self.n.history(True)) > 0, .5, 'queue')
        # the service which looks for old items runs every hour
        self.n.ctl.time_val += 7200
        old = lambda: any(x['Kind'] != 'DUP' and self.n.ctl.time_val + time.time() - x['HistoryTime'] > 7 * 86400 for x in self.n.history(True))
        self.n.wait(lambda: not old(), 8, 'expiry')
        self.put(e='days', n=n)

    def trace(self):
        return dict(ev=self.ev, check=self.check, low=LOW)


def walk(s, steps):
    r = s.rnd
    s.observe()
    for _ in range(steps):
        x = r.random()
        if s.dupes:
            s.add() if x < .4 else s.queue() if x < .66 else s.hist() if x < .84 else s.server() if x < .95 else s.pause(not s.paused)
        elif x < .28:
            s.add()
        elif x < .5:
            s.queue()
        elif x < .82:
            s.hist()
        elif x < .91:
            s.server()
        elif x < .94:
            s.days()
        else:
            s.pause(not s.paused)


def run_walk(env, seed, steps, dupes=False):
    s = Session(env, seed, check=dupes or seed % 5 != 4, dupes=dupes)
    err = None
    try:
        try:
            walk(s, steps)
        except (nz.Dead, nz.RpcError) as e:
            err = str(e)
        return s.trace(), err
    finally:
        s.close()


def run(ctx, num, steps, base, dupes):
    env = build.build()
    seeds = [ctx.seed * 100000 + base + i for i in range(num)]
    fn = lambda sd: run_walk(env, sd, steps, dupes)
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(fn, seeds))
    D.validate(ctx, 'HistoryTrace', '', seeds, res, fn, consts=' ')
    ctx.add(runs=len(seeds))


def model(ctx, which):
    cfg = 'SPECIFICATION Spec\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\nCONSTANTS Adds=%d Scores=%s Modes=%s Marks=%s\n'
    for name, inv, consts in which:
        ok, g, d, out = tlc.check('HistoryMC', cfg % ((inv,) + consts), timeout=3000)
        ctx.model('HistoryMC ' + name, ok, g, d, out)


def p11(ctx):
    model(ctx, [('score mode', 'Place AllKept OnlyOne NotAgain Waits Taken', ctx.pick((4, '{0,5}', '{"SCORE"}', 'FALSE'), (5, '{0,5,10}', '{"SCORE"}', 'FALSE'))),
                ('all modes', 'Place AllKept Taken', (ctx.pick(3, 4), '{0,5}', '{"SCORE","ALL","FORCE"}', 'FALSE'))])
    run(ctx, ctx.pick(60, 800), ctx.pick(30, 45), 50000, True)


def p13(ctx):
    model(ctx, [('history actions', 'Place Taken', (2, '{0,5}', ctx.pick('{"SCORE","ALL"}', '{"SCORE","ALL","FORCE"}'), 'TRUE'))])
    run(ctx, ctx.pick(60, 800), ctx.pick(30, 45), 0, False)
