"""Files on disk after downloads in every write mode, with lost articles, retries, pauses, moves and restarts; validated with Writer.tla."""
import concurrent.futures as cf, os, random, time
from .. import build, nz, nntp, tlc
from . import download as D, queue as Q


class Run:
    def __init__(self, env, seed):
        r = self.r = random.Random(seed)
        self.direct = r.random() < .5
        self.cache = r.choice([0, 1, 1, 20])
        self.conns = r.choice([1, 2, 4, 8])
        self.big = r.random() < .25
        self.srv = [nntp.Server('s1'), nntp.Server('s2')]
        self.n = nz.Nz(env[0], env[1], opts={
            'DirectWrite': 'yes' if self.direct else 'no', 'ArticleCache': str(self.cache), 'DupeCheck': r.choice(['yes', 'no']), 'CrcCheck': 'yes',
            'WriteBuffer': r.choice(['0', '1', '100']), 'ParCheck': 'manual', 'HealthCheck': 'none', 'FlushQueue': 'no', 'ArticleRetries': r.choice(['0', '1', '2']),
            'InterDir': r.choice(['${MainDir}/int', '']), 'AppendCategoryDir': r.choice(['yes', 'no']), 'PostStrategy': 'balanced', 'AccurateRate': r.choice(['yes', 'no'])},
            extra=self.srv[0].conf(1, self.conns) + self.srv[1].conf(2, r.choice([1, self.conns]), level=1))
        self.n.argv = ['-P']
        self.files = []       # (collection, name, enc, parts, delivered, missing in the nzb)
        self.ev = []
        for s in self.srv:
            s.pieces = r if r.random() < .3 else None
            s.behave = self.behave
        self.plan = {}        # mid -> answers of the servers

    def behave(self, srv, mid):
        if self.r.random() < .5:
            time.sleep(self.r.random() * (.02 if self.r.random() < .2 else .004))
        return self.plan[mid][srv.name]

    def post(self, k, nf):
        """a collection with nf files"""
        r = self.r
        src = []
        for i in range(nf):
            enc = 'uu' if r.random() < .1 else 'yenc'
            name = 'c%df%d.%s' % (k, i, r.choice(['bin', 'rar', 'nfo', 'r00']))
            np = r.choice([1, 2, 3, 5, 9, 14])
            if self.big and r.random() < .3:
                lens = [r.randint(60000, 120000)] * (np - 1) + [r.randint(1, 60000)]
            else:
                m = r.choice([5, 130, 3000])
                lens = [r.randint(1, m) for _ in range(np)]
            if enc == 'uu':      # the lines of 45 bytes are not divided between articles
                lens = [45 * r.choice([1, 2, 10, 50, 1000 if self.big else 3]) for _ in range(np - 1)] + [r.randint(45, 3000)]
            kind = r.choice(['rnd', 'rnd', 'dots', 'esc', 'mix'])
            def data(n):
                if kind == 'rnd' or n > 10000:
                    return r.randbytes(n)
                return bytes(r.choice({'dots': [4], 'esc': [214, 224, 227, 19], 'mix': [4, 214, 224, 227, 19, 65, 0, 255, 10, 13]}[kind]) for _ in range(n))
            parts = [data(n) for n in lens]
            bad = r.choice([0, 0, .3]) if enc == 'yenc' else 0
            absent = tuple(j for j in range(np) if r.random() < bad * .3)
            if len(absent) == np:
                absent = ()
            got, off, width = set(), 0, r.choice([128, 128, 64, 200, 256])
            for j, p in enumerate(parts):
                mid = 'g%d.%s.%d@vp' % (k, name, j + 1)
                art = nntp.yenc_article(name, p, j + 1, np, off, sum(lens), width=width) if enc == 'yenc' else nntp.uu_article(name, p, j == 0, j == np - 1)
                off += len(p)
                if j in absent:
                    continue
                fails = ['missing', 'missing', 'crc', 'cut', 'wrongtrunc', 'code501'] if enc == 'yenc' else ['missing', 'code501']
                fails = [f for f in fails if f != 'crc' or len(p) > 20 and kind == 'rnd']
                fails = [f for f in fails if f not in ('wrongtrunc', 'cut') or len(p) > 300]
                if r.random() < bad:
                    a, b = r.choice(fails), r.choice(fails)
                elif r.random() < .25:
                    a, b = r.choice(fails), 'ok'
                else:
                    a, b = 'ok', 'ok'
                self.plan[mid] = dict(s1=a, s2=b)
                if 'ok' in (a, b):
                    got.add(j)
                for s in self.srv:
                    s.articles[mid] = nntp.Article(art)
            src.append((name, lens, absent, 1600000000 + r.randint(0, 10 ** 6)))
            self.files.append((k, name, enc, parts, got))
        return self.n.append('c%d.nzb' % k, Q.nzb_of('g%d' % k, src), self.r.choice(['', 'movies']), self.r.choice([0, 50, -50]), dupemode='FORCE' if False else 'ALL', dupekey='')

    def run(self):
        r, n = self.r, self.n
        n.start()
        ids = {}
        for k in range(r.randint(2, 4)):
            ids[self.post(k, r.randint(1, 5))] = k
        n.call('resumedownload')
        restarts = r.choice([0, 1, 1, 2, 3])
        end = time.time() + 60
        while True:
            gs, st = n.groups(), n.status()
            if not gs and not st['PostJobCount'] and len([h for h in n.history(True) if h['NZBID'] in ids]) == len(ids):
                break
            if time.time() > end:
                raise nz.Dead('the downloads do not end: %s' % [(g['NZBName'], g['Status'], g['RemainingSizeLo'], g['ActiveDownloads']) for g in gs])
            x = r.random()
            time.sleep(r.random() * .03)
            if not gs:
                continue
            g = r.choice(gs)
            if x < .25 and restarts:
                restarts -= 1
                if n.stop() != 0:
                    raise nz.Dead('regular shutdown failed')
                for s in self.srv:
                    s.drop_all()
                n.argv = []
                n.start()
            elif x < .35:
                n.call('pausedownload')
                time.sleep(r.random() * .04)
                n.call('resumedownload')
            elif x < .45:
                n.edit('GroupPause', '', [g['NZBID']])
                time.sleep(r.random() * .04)
                n.edit('GroupResume', '', [g['NZBID']])
            elif x < .5:
                n.edit('GroupSetName', r.choice(['other name', 'x']) + str(g['NZBID']), [g['NZBID']])
            elif x < .55:
                n.edit('GroupSetCategory', r.choice(['', 'tv', 'movies']), [g['NZBID']])
            elif x < .6:
                n.edit(r.choice(['GroupMoveTop', 'GroupMoveBottom']), '', [g['NZBID']])
            elif x < .62:
                n.call('rate', r.choice([0, 0, 500, 5000]))
            else:
                time.sleep(.02)
        n.call('rate', 0)
        hist = {ids[h['NZBID']]: h for h in n.history(True) if h['NZBID'] in ids}
        dirs = {k: (h['FinalDir'] or h['DestDir']) for k, h in hist.items()}
        for i, (k, name, enc, parts, got) in enumerate(self.files):
            self.ev.append(dict(e='post', enc=enc, len=[len(p) for p in parts]))
            self.ev += [dict(e='art', id=i + 1, i=j + 1, ok=j in got) for j in range(len(parts))]
        for i, (k, name, enc, parts, got) in enumerate(self.files):
            if k not in dirs:
                raise nz.Dead('collection %d is not in the history' % k)
            p = os.path.join(dirs[k], name)
            ex = os.path.exists(p)
            b = open(p, 'rb').read() if ex else b''
            st, off = [], 0
            for x in parts:
                y = b[off:off + len(x)]
                off += len(x)
                st.append('exact' if y == x else 'absent' if not y else 'zero' if not any(y) else 'wrong')
            self.ev.append(dict(e='file', id=i + 1, exists=ex, size=len(b), st=st))
        for k, d in sorted(dirs.items()):
            have = set(os.listdir(d)) if os.path.isdir(d) else set()
            self.ev.append(dict(e='extra', names=sorted(have - {f[1] for f in self.files if f[0] == k}) if len(set(dirs.values())) == len(dirs) else []))
        for d in ('int', 'tmp'):
            left = [os.path.join(x, f) for x, _, fs in os.walk(os.path.join(n.main, d)) for f in fs]
            self.ev.append(dict(e='extra', names=left if d == 'tmp' else [f for f in left if os.path.dirname(f) not in dirs.values()]))


def session(env, seed):
    x = Run(env, seed)
    err = None
    try:
        try:
            x.run()
        except (nz.Dead, nz.RpcError, OSError) as e:
            err = str(e)
        if os.environ.get('VP_DEBUG') and err:
            open('/tmp/w.%d.log' % seed, 'w').write(x.n.logtext())
            print(seed, err, x.n.groups()[:3] if x.n.alive() else '')
        return dict(direct=x.direct, ev=x.ev), err
    finally:
        x.n.close()
        for s in x.srv:
            s.close()


def p08(ctx):
    env = build.build()
    for direct in ('TRUE', 'FALSE'):
        for cache in (0, 1, ctx.pick(3, 4)):
            ok, g, d, out = tlc.check('Writer', 'SPECIFICATION Spec\nINVARIANTS Exact Kept\nCHECK_DEADLOCK FALSE\nCONSTANTS N=%d Direct=%s Cache=%d\n' %
                                      (ctx.pick(4, 6), direct, cache))
            ctx.model('Writer Direct=%s Cache=%d' % (direct, cache), ok, g, d, out)
    seeds = [ctx.seed * 100000 + 80000 + i for i in range(ctx.pick(80, 1500))]
    fn = lambda s: session(env, s)
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(fn, seeds))
    ctx.add(files=sum(1 for t, _ in res for e in t['ev'] if e['e'] == 'file'))
    D.validate(ctx, 'WriterTrace', '', seeds, res, fn, ' ')
