"""Download histories: random commands while the news server holds the running article, what was requested and
observed is validated by TLC against Download.tla."""
import concurrent.futures as cf, os, random, time
from .. import build, nz, nntp, tlc
from . import queue as Q

WORDS = ['alpha', 'beta', 'Gamma', 'delta one', 'x.y', 'Zeta-2']


def payload(rnd, n):
    return rnd.randbytes(n)


class Session:
    """one instance with one scripted news server"""

    def __init__(self, env, seed, opts=None, conns=1, fail=0.0, extra=None, files=None, restarts=0):
        self.rnd = random.Random(seed)
        self.seed = seed
        self.srv = nntp.Server('s1')
        self.fail = fail
        self.conns = conns
        self.ev = []
        self.mids = {}        # mid -> (group prefix, file name)
        self.out = {}         # mid -> ok | bad
        self.nfiles = 0
        self.taken = {}       # file name -> mids requested and not given back
        self.total = {}
        self.names = set(WORDS) | {''}
        self.restarts = restarts
        self.fnames = set()
        o = {'DupeCheck': 'no', 'FlushQueue': 'no', 'ArticleRetries': '1', 'ParCheck': 'manual', 'HealthCheck': 'none', 'ArticleTimeout': '600'}
        o.update(opts or {})
        self.n = nz.Nz(env[0], env[1], opts=o, extra=self.srv.conf(1, conns) + (extra or []), files=files)
        self.held = []
        self.data = {}
        self.err = None
        self.pd = False
        self.k = 0

    def start(self):
        self.n.start()
        self.n.call('pausedownload')
        self.pd = True
        self.ev.append(dict(e='pause', o=self.observe()))

    def close(self):
        self.n.close()        # first: the port of the server may be given to another one
        self.srv.close()

    def observe(self):
        self.obs = Q.observe(self.n)
        return self.obs

    def quiet(self, held, timeout=20):
        """wait until nothing changes any more while `held` articles are held"""
        def ok():
            gs, st = self.n.groups(), self.n.status()
            if st['PostJobCount'] or any(g['Status'] not in ('QUEUED', 'PAUSED', 'DOWNLOADING') for g in gs):
                return False
            return sum(g['ActiveDownloads'] for g in gs) == held
        r = self.n.wait(ok, timeout, 'quiescence', step=0.01)
        return bool(r)

    def make_def(self, nf=None, parts=None, size=(200, 900), pars=True, missing=0.1):
        """a collection with real articles"""
        r = self.rnd
        self.k += 1
        d = self.k
        nm = (r.choice(['n%d' % d, r.choice(WORDS) + str(d)]))
        cand = ['f%d.rar' % d, 'f%d.r00' % d, 'f%d.r01' % d, 'f%d.nfo' % d, 'af%d.bin' % d]
        if pars:
            cand += ['f%d.par2' % d, 'f%d.vol0+1.par2' % d, 'f%d.vol1+2.par2' % d]
        r.shuffle(cand)
        src, files, defs, szs = [], [], [], set()
        for fn in cand[:nf or r.randint(1, 4)]:
            while True:
                k = r.randint(*(parts or (1, 3)))
                arts = [r.randint(*size) for _ in range(k)]
                miss = tuple(i for i in range(k - 1) if r.random() < missing)
                f = Q.file_def(fn, arts, miss, 1500000000 + r.randint(0, 10 ** 6) * 100)
                if f['sz'] not in szs:
                    break
            szs.add(f['sz'])
            prefix = 't%d' % d
            datas = [payload(r, a) for a in arts]
            al = []
            off = 0
            for i, a in enumerate(arts):
                mid = '%s.%s.%d@vp' % (prefix, fn, i + 1)
                if i not in miss:
                    al.append(dict(mid=mid, sz=a, st='u'))
                    self.mids[mid] = fn
                    self.out[mid] = 'bad' if r.random() < self.fail else 'ok'
                    art = nntp.Article(nntp.yenc_article(fn, datas[i], i + 1, k, off, sum(arts)),
                                       'ok' if self.out[mid] == 'ok' else r.choice(['missing', 'crc']))
                    self.srv.articles[mid] = art
                off += a
            self.total[fn] = len(al)
            self.taken[fn] = set()
            self.fnames.add(fn)
            self.data[fn] = (datas, miss)
            f['arts'] = al
            files.append(f)
            src.append((fn, arts, miss, f['time']))
        self.names.add(nm)
        return dict(name=nm, cat=r.choice(['', 'movies']), prio=r.choice([0, 0, 0, 50, -50, 100, 900]), dk='', ds=0, dm='SCORE',
                    par=[['*Unpack:', 'no']], files=files, _src=src, _prefix=prefix)

    def add(self, d=None, top=None, paused=None):
        d = d or self.make_def()
        top = self.rnd.random() < .3 if top is None else top
        paused = self.rnd.random() < .2 if paused is None else paused
        ret = self.n.append(d['name'] + '.nzb', Q.nzb_of(d['_prefix'], d['_src']), d['cat'], d['prio'], top, paused, d['dk'], d['ds'], d['dm'])
        self.ev.append(dict(e='add', ret=ret, top=top, paused=paused, **{'def': {k: v for k, v in d.items() if k[0] != '_'}},
                            o=self.observe()))
        return ret

    def available(self):
        """only a hint how long to wait: number of articles which can be requested or are held"""
        o = self.obs
        n = len(self.held)
        for g in o['q']:
            if self.pd and g['prio'] < 900:
                continue
            for f in g['files']:
                if not f['paused']:
                    n += max(0, self.total[f['name']] - len(self.taken[f['name']]))
        return n

    def settle(self):
        """wait until the connections are busy (or nothing is left to request); records what was newly requested"""
        end = time.time() + 5
        while True:
            want = min(self.conns, self.available())
            m = self.srv.wait_held(want, 0.1 if want else 0.02)
            if m is not None and len(m) >= want:
                if self.conns > want:
                    self.srv.wait_held(want + 1, 0.3)
                break
            if time.time() > end:
                break
            self.observe()       # the estimate may be outdated
        if not self.quiet(len(self.srv.held)):
            raise nz.Dead('no quiescence with %s held: %s' % (len(self.srv.held), [(g['NZBName'], g['Status'], g['ActiveDownloads']) for g in self.n.groups()]))
        cur = [m for m, _ in self.srv.held.values()]
        new = [m for m in cur if m not in self.held]
        for m in new:
            self.taken[self.mids[m]].add(m)
        self.held = cur
        self.ev.append(dict(e='settle', mids=new, o=self.observe()))

    def release(self, *mids):
        self.ev.append(dict(e='done', mids=list(mids), res=[self.out[m] for m in mids]))     # take effect in any order
        for mid in mids:
            prio = [g['prio'] for g in self.obs['q'] if any(f['name'] == self.mids[mid] for f in g['files'])]
            if self.out[mid] == 'bad' and self.pd and prio and prio[0] < 900:
                self.taken[self.mids[mid]].discard(mid)
            self.held.remove(mid)
        for mid in mids:
            self.srv.release(mid)

    DELS = ('FileDelete', 'GroupDelete', 'GroupParkDelete', 'GroupDupeDelete', 'GroupFinalDelete')

    def edit(self, cmd, arg, ids, c):
        """returns True if running articles were cancelled by it"""
        ret = self.n.edit(cmd, arg, ids)
        self.ev.append(dict(e='edit', c=c, ret=ret))
        if self.held and cmd in self.DELS:
            # wait until running articles of what was deleted are cancelled
            isf = cmd == 'FileDelete'
            def settled():
                fs = self.n.files(0)
                names = {f['Filename'] for f in fs}
                if any(f['ID'] in ids for f in fs) if isf else any(g['NZBID'] in ids for g in self.n.groups()):
                    return False
                return all(self.mids[m] in names for m, _ in list(self.srv.held.values()))
            if not self.n.wait(settled, 10, 'deletion'):
                raise nz.Dead('%s %s is not carried out' % (cmd, ids))
            cur = [m for m, _ in self.srv.held.values()]
            gone = [m for m in self.held if m not in cur]
            if gone:
                self.held = [m for m in self.held if m in cur]
                return True
        self.ev[-1]['o'] = self.observe()
        return False

    def random_edit(self):
        r = self.rnd
        o = next(e['o'] for e in reversed(self.ev) if 'o' in e)
        gids = [g['id'] for g in o['q']]
        fids = [f['id'] for g in o['q'] for f in g['files']]
        gf = [[f['id'] for f in g['files']] for g in o['q']]
        cmd = r.choice(self.cmds)
        isf = cmd.startswith('File')
        pool = r.choice(gf) if isf and gf else gids
        if not pool:
            return False
        ids = r.sample(pool, r.randint(1, min(3, len(pool))))
        busy = {self.mids[m] for m in self.held}
        hot = [f['id'] for g in o['q'] for f in g['files'] if f['name'] in busy]
        if isf and hot and r.random() < .35:
            ids = [r.choice(hot)]       # a file which is just being downloaded
        off, arg, arg2, a = 0, '', '', ''
        if cmd.endswith('MoveOffset'):
            off = r.choice([-3, -2, -1, 1, 2, 3])
            a = str(off)
        elif cmd in ('GroupMoveBefore', 'GroupMoveAfter'):
            off = r.choice(gids)
            a = str(off)
        elif cmd == 'GroupSetPriority':
            off = r.choice([-100, -50, 0, 0, 50, 100, 900])
            a = str(off)
        elif cmd == 'GroupSetCategory':
            a = arg = r.choice(['', 'movies', 'tv'])
        elif cmd in ('GroupSetName', 'FileSplit'):
            a = arg = r.choice(WORDS)
        elif cmd == 'GroupSort':
            arg, arg2 = r.choice(['name', 'size', 'left', 'priority']), r.choice(['asc', 'desc'])
            a = arg + {'asc': '+', 'desc': '-'}[arg2]
        return self.edit(cmd, a, ids, dict(cmd=cmd, ids=ids, off=off, arg=arg, arg2=arg2))

    cmds = ['GroupMoveOffset', 'GroupMoveTop', 'GroupMoveBottom', 'GroupMoveBefore', 'GroupMoveAfter', 'GroupPause', 'GroupResume', 'GroupResume',
            'GroupPauseAllPars', 'GroupPauseExtraPars', 'GroupSetPriority', 'GroupSetPriority', 'GroupSetPriority', 'GroupSetCategory',
            'GroupSetName', 'GroupMerge', 'GroupSort', 'GroupDelete', 'FileMoveOffset', 'FileMoveTop', 'FileMoveBottom', 'FilePause',
            'FilePause', 'FileResume', 'FileReorder', 'FileDelete', 'FileSplit']

    def set_pause(self, p):
        self.n.call('pausedownload' if p else 'resumedownload')
        self.pd = p
        self.ev.append(dict(e='pause' if p else 'resume'))

    def restart(self):
        rc = self.n.stop()
        if rc != 0:
            raise nz.Dead('regular shutdown ended with %s' % rc)
        for m in self.held:
            self.taken[self.mids[m]].discard(m)
        self.srv.drop_all()
        self.srv.release()
        self.held = []
        self.n.start()
        self.pd = False
        self.ev.append(dict(e='restart', pd=False))

    def trace(self):
        allf = self.fnames
        ns = self.names | {'movies', 'tv'} | allf
        rank = {x: i + 1 for i, x in enumerate(sorted(ns, key=lambda s: s.encode()))}
        return dict(attr=Q.attr_of(allf), rank=rank, lname={'*Unpack:': '*unpack:'}, conns=self.conns, ev=self.ev)


def walk(s, groups, steps, edits=2):
    """the running articles are held; in between commands, then some of them are released"""
    r = s.rnd
    s.srv.hold = lambda mid: True
    s.start()
    for _ in range(groups):
        d = s.make_def()
        d['prio'] = min(d['prio'], 100)      # nothing must be requested yet
        s.add(d)
    s.set_pause(False)
    s.settle()
    for _ in range(steps):
        n = r.randint(0, edits)
        if len(s.held) < s.conns:
            n = 1
        for _ in range(n):
            x = r.random()
            if x < (.15 if s.restarts else .08):
                s.add()
            elif x < .15 + s.restarts:
                s.restart()
                break
            elif x < .2 + s.restarts:
                s.set_pause(not s.pd)
                if len(s.held) == s.conns:
                    s.ev[-1]['o'] = s.observe()
            else:
                cancelled = s.random_edit()
                if cancelled:
                    break
            if len(s.held) < s.conns:
                break
        else:
            if s.held:
                m = r.choice(s.held)
                pre = m.split('.')[0]
                same = [x for x in s.held if x.split('.')[0] == pre and x != m]
                s.release(m, *(r.sample(same, r.randint(0, len(same))) if r.random() < .4 else []))
        s.settle()


def run_walk(env, seed, groups, steps, edits=2, **kw):
    s = Session(env, seed, **kw)
    try:
        try:
            walk(s, groups, steps, edits)
        except (nz.Dead, nz.RpcError) as e:
            s.err = str(e)
            s.log = s.n.logtext()[-3000:]
        return s.trace(), s.err
    finally:
        s.close()


def ctx_dump(p, x):
    import json
    json.dump(x, open(p, 'w'))


def validate(ctx, module, view, jobs, res, rerun, consts=None):
    """jobs: descriptions (seeds), res: [(trace, err)]"""
    consts = consts or 'CONSTANT View = "%s"\n' % view
    for j, (tr, err) in zip(jobs, res):
        if err and len(ctx.violations) < 3:
            tr2, err2 = rerun(j)
            if err2:
                ctx.violation('the program does not go on: %s' % err, dict(job=j, events=tr['ev'][-6:]))
    traces = [tr for tr, _ in res]
    bad, (g, d) = tlc.validate(module, traces, consts, chunk=max(3, (len(traces) + 5) // 6))
    ctx.add(states=d, transitions=g, traces_validated_against_impl=len(traces), events=sum(len(t['ev']) for t in traces))
    n = 0
    for t, at, det in bad:
        if n >= 3:
            break
        tr, k = traces[t], at
        for _ in range(3):       # the schedule is not fully under control: a rejected history has to be seen again
            tr2, err2 = rerun(jobs[t])
            b2, _ = tlc.validate(module, [tr2], consts)
            if b2 or err2:
                break
        if not b2 and not err2:
            ctx.add(unconfirmed=1)
            if os.environ.get('VP_DEBUG'):
                import json
                ctx_dump('/tmp/unconf-%d.json' % t, dict(what='unconfirmed', replay=dict(job=jobs[t], history=[{x: y for x, y in v.items() if x not in ('o', 'def')} for v in tr['ev'][:k + 1]], event=tr['ev'][k], model=tlc.explain(module, tr, k, consts))))
            continue
        n += 1
        if b2:
            tr, k, det = tr2, b2[0][1], b2[0][2]
        det = det or tlc.explain(module, tr, k, consts)
        e = tr['ev'][k]
        ctx.violation('history rejected by the model at event %d: %s' % (k + 1, {x: y for x, y in e.items() if x not in ('o', 's', 'def')}),
                      dict(job=jobs[t], step=k, event=e, history=[{x: y for x, y in v.items() if x not in ('o', 'def')} for v in tr['ev'][:k + 1]],
                           model=det[:12000]))
    if traces:
        ctx.sample([{x: y for x, y in v.items() if x not in ('o', 'def')} for v in traces[0]['ev'][:30]])


def run_order(ctx, view, num, groups, steps, fail, **kw):
    env = build.build()
    seeds = [ctx.seed * 100000 + i for i in range(num)]
    fn = lambda sd: run_walk(env, sd, groups, steps, fail=fail, conns=[1, 1, 2, 4][sd % 4], **kw)
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(fn, seeds))
    validate(ctx, 'DownloadTrace', view, seeds, res, fn)


def p06(ctx):
    run_order(ctx, "order", ctx.pick(60, 800), 4, ctx.pick(20, 30), 0.0)


def p07(ctx):
    run_order(ctx, 'all', ctx.pick(50, 600), 4, ctx.pick(20, 30), 0.25, restarts=.03)
