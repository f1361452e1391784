"""News server failover and connection limits: requests seen by scripted servers validated with FailoverTrace.tla."""
import concurrent.futures as cf, random, time
from .. import build, nz, nntp, tlc
from . import download as D

MODES = {'nf': ['missing', 'code430', 'code423', 'code420'], 'crc': ['crc'], 'fail': ['wrongtrunc', 'nodata', 'code501', 'badpart'], 'cut': ['cut'],
         'cerr': ['drop', 'code400', 'code499']}


class Walk:
    def __init__(self, env, seed, slow=False):
        r = self.r = random.Random(seed)
        self.slow = slow
        ns = r.choice([1, 2, 2, 3, 3, 4])
        lv = r.choice([[0], [0, 1], [0, 1, 2], [1, 5]])
        C = [dict(level=r.choice(lv), group=r.choice([0, 0, 1, 2]), opt=r.random() < .25, ret=r.random() < .2, conns=r.choice([1, 1, 2, 3]),
                  act=r.random() < .85) for _ in range(ns)]
        mn = min(c['level'] for c in C)
        if not any(c['level'] == mn and c['act'] for c in C):
            r.choice([c for c in C if c['level'] == mn])['act'] = True
        self.C = C
        self.R = r.choice([0, 1, 2, 3])
        self.block = r.random() < .5
        self.srv = [nntp.Server('s%d' % (i + 1)) for i in range(ns)]
        self.files, self.idx, self.old = [], {}, []
        now = int(time.time())
        for f in range(r.choice([1, 2, 3])):
            name = 'f%d.bin' % f
            old = r.random() < .4
            k = r.randint(1, 3)
            parts = [r.randbytes(r.randint(150, 600)) for _ in range(k)]
            d = nntp.NzbFileDef(name, parts, date=now - (1000 * 86400 if old else 3600), prefix='w')
            self.files.append(d)
            for mid, lines in d.articles():
                self.old.append(old)
                self.idx[mid] = len(self.old)
                for s in self.srv:
                    s.articles[mid] = nntp.Article(lines)
        extra = []
        for i, (c, s) in enumerate(zip(C, self.srv)):
            s.hold = lambda mid: True
            s.behave = self.behave
            extra += s.conf(i + 1, c['conns'], level=c['level'], Group=c['group'], Optional='yes' if c['opt'] else 'no',
                            Retention=100 if c['ret'] else 0, Active='yes' if c['act'] else 'no')
        self.n = nz.Nz(env[0], env[1], opts={'DupeCheck': 'no', 'ArticleRetries': str(self.R), 'ArticleInterval': '60' if self.block else '0',
                                             'ArticleTimeout': '600', 'HealthCheck': 'none', 'ParCheck': 'manual'}, extra=extra)
        self.ev, self.err = [], None
        self.mode = {}
        self.glog = []
        for s in self.srv:
            s.log = self.glog
        self.seen = 0
        self.cerr = 0

    def behave(self, srv, mid):
        return self.mode.get((srv.name, mid), 'ok')

    def close(self):
        self.n.close()
        for s in self.srv:
            s.close()

    def held(self):
        return [(i, m) for i, s in enumerate(self.srv) for m, _ in list(s.held.values())]

    def settle(self):
        """wait until no request comes any more"""
        base = 1.0 if self.slow else .06
        end, lastn = time.time() + base, None
        lim = time.time() + (20 if self.slow else 8)
        while time.time() < end and time.time() < lim:
            time.sleep(.005)
            cur = (sum(1 for x in self.glog if x[3] == 'req'), len(self.held()))
            if cur != lastn:
                lastn, end = cur, time.time() + base
        with nntp.Server.glock:
            log = self.glog[self.seen:]
            self.seen = len(self.glog)
        for _, name, mid, what in log:
            if what == 'req':
                self.ev.append(dict(e='req', a=self.idx[mid], s=int(name[1:])))

    def counts(self):
        gs = self.n.groups()
        if len(gs) == 1 and gs[0]['Status'] in ('QUEUED', 'DOWNLOADING'):
            return gs[0]['SuccessArticles'], gs[0]['FailedArticles']
        return -1, -1

    def quiet(self):
        self.settle()
        if any(e['e'] == 'quiet' for e in self.ev[-1:]):
            return
        # an article without a server left has ended, a new one may be taken every 2 seconds when nothing runs
        if not self.held():
            for _ in range(60 if not (self.down or self.cerr) else 4):
                if not self.n.groups():
                    return
                time.sleep(.05)
                if self.held():
                    break
            self.settle()
        ok, bad = self.counts()
        self.ev.append(dict(e='quiet', ok=ok, bad=bad))

    def run(self):
        r, n = self.r, self.n
        n.start()
        self.down = set()
        n.append('w.nzb', nntp.make_nzb(self.files))
        n.wait(lambda: self.held(), 3 if not all(c['ret'] for c in self.C) else .5, 'first request')
        self.quiet()
        step = 0
        while n.groups():
            step += 1
            if step > 80:
                raise nz.Dead('the download does not end')
            x = r.random()
            if x < .06 and step < 30 and not self.down and not self.cerr:
                i = r.randrange(len(self.C))
                mn = min(c['level'] for c in self.C)
                on = not self.C[i]['act']
                if on or any(c['act'] and c['level'] == mn for j, c in enumerate(self.C) if j != i) or self.C[i]['level'] != mn:
                    self.C[i]['act'] = on
                    if self.ev[-1]['e'] != 'quiet':
                        self.quiet()
                    n.call('editserver', i + 1, on)
                    self.ev.append(dict(e='set', s=i + 1, on=on))
            elif x < .11 and step < 30 and len(self.down) < 2:
                i = r.randrange(len(self.C))
                if i not in self.down:
                    self.srv[i].refuse = True
                    self.down.add(i)
                    self.ev.append(dict(e='down', s=i + 1))
            elif x < .2 or not self.held():
                if self.down or self.cerr:
                    for s in self.srv:
                        s.refuse = False
                    self.down.clear()
                    time.sleep(.1)
                    n.ctl.time_mode, n.ctl.time_val = 1, n.ctl.time_val + 70
                    self.ev.append(dict(e='clear'))
                    self.cerr = 0
                    time.sleep(.1)
            else:
                h = self.held()
                for i, mid in r.sample(h, r.randint(1, len(h)) if r.random() < .3 else 1):
                    res = r.choices(['ok', 'nf', 'fail', 'crc', 'cerr', 'cut'], [45, 22, 14, 8, 6 if step < 40 else 0, 5 if step < 40 else 0])[0]
                    if step > 50 and res == 'fail':
                        res = 'ok'
                    self.mode[('s%d' % (i + 1), mid)] = 'ok' if res == 'ok' else r.choice(MODES[res])
                    self.ev.append(dict(e='res', a=self.idx[mid], s=i + 1, r=res, mode=self.mode[('s%d' % (i + 1), mid)]))
                    self.cerr += res in ('cerr', 'cut')
                    self.srv[i].release(mid)
            self.quiet()
        h = n.wait(lambda: n.history(), 5, 'history')
        if not h:
            raise nz.Dead('the collection is lost')
        h = h[0]
        st = {x['ServerID']: [x['SuccessArticles'], x['FailedArticles']] for x in h['ServerStats']}
        self.ev.append(dict(e='final', ok=h['SuccessArticles'], bad=h['FailedArticles'], stats=[st.get(i + 1, [0, 0]) for i in range(len(self.C))]))


def run_walk(env, seed, slow=False):
    w = Walk(env, seed, slow)
    C0 = [dict(c) for c in w.C]
    err = None
    try:
        try:
            w.run()
        except (nz.Dead, nz.RpcError) as e:
            err = str(e)
        return dict(R=max(1, w.R), block=w.block, servers=C0, arts=w.old, ev=w.ev), err
    finally:
        w.close()


def run(ctx, view, num):
    env = build.build()
    seeds = [ctx.seed * 100000 + 70000 + i for i in range(num)]
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda sd: run_walk(env, sd), seeds))
    D.validate(ctx, 'FailoverTrace', view, seeds, res, lambda sd: run_walk(env, sd, True))


def model(ctx):
    cfg = 'SPECIFICATION Spec\nINVARIANTS FailedAtEnd NeverAsked Once InOrder NoDead\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\nCONSTANTS NS=%d R=2 MaxConnErr=%d\n'
    for ns, ce in ctx.pick([(2, 1)], [(2, 2), (3, 0)]):
        ok, g, d, out = tlc.check('FailoverMC', cfg % (ns, ce), timeout=3000)
        ctx.model('FailoverMC %d servers %d lost connections' % (ns, ce), ok, g, d, out)


def p09(ctx):
    model(ctx)
    run(ctx, 'order', ctx.pick(150, 2000))


def p10(ctx):
    run(ctx, 'conn', ctx.pick(150, 2000))
