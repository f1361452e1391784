"""Scheduled tasks, pause states, timed resume: the real program with a frozen clock which is moved in steps; what the API and
started processes show after each step is validated with Clock.tla."""
import concurrent.futures as cf, os, random, time
from .. import build, nz, tlc
from . import download as D

CMDS = [('download', False, ['PauseDownload', 'Pause']), ('download', True, ['UnpauseDownload', 'ResumeDownload', 'Unpause', 'Resume']),
        ('post', False, ['PausePostProcess', 'PausePost']), ('post', True, ['UnpausePostProcess', 'ResumePostProcess', 'UnpausePost', 'ResumePost']),
        ('scan', False, ['PauseScan']), ('scan', True, ['UnpauseScan', 'ResumeScan']),
        ('rate', True, ['DownloadRate', 'SetDownloadRate', 'Rate', 'Speed']),
        ('server', True, ['ActivateServer', 'ActivateServers']), ('server', False, ['DeactivateServer', 'DeactivateServers']),
        ('process', True, ['Process'])]
SERVERS = {1: 'one', 2: 'second server', 3: '3rd'}
BASE = 1700000000


class Session:
    def __init__(self, env, seed, tasks=True):
        r = self.rnd = random.Random(seed)
        self.procs = False
        self.tasks, extra = [], []
        minutes = list(range(60))
        r.shuffle(minutes)
        base = BASE + r.randrange(0, 86400 * 400)
        self.corr = r.choice([0, 0, 60, -3, 5, 90, -600, -90])     # hours up to 24, otherwise minutes
        tz, tzoff = r.choice([('UTC', 0), ('UTC', 0), ('AAA-2', 7200), ('BBB+5:30', -19800)])
        self.off = tzoff + (self.corr * 3600 if abs(self.corr) <= 24 else self.corr * 60)
        start = set()
        for n in range(1, (r.randint(1, 5) if tasks else 0) + 1):
            kind, on, names = r.choice(CMDS)
            arg, param = [], ''
            if kind == 'rate':
                arg = [r.choice([0, 100, 2000])]
                param = str(arg[0])
            elif kind == 'server':
                ids = r.sample(sorted(SERVERS), r.randint(1, 3))
                arg = ids
                param = r.choice([',', ';', ', ']).join(r.choice([str(i), SERVERS[i]]) for i in ids)
            elif kind == 'process':
                self.procs = True
                param = '${MainDir}/run.sh %d' % n
            times, ents = [], []
            for _ in range(r.randint(1, 3)):
                x = r.random()
                if x < .1 and kind not in start:
                    start.add(kind)
                    times.append('*')
                    ents.append((-1, 0))
                elif x < .4:
                    m = minutes.pop()
                    times.append('*:%02d' % m)
                    ents += [(h, m) for h in range(24)]
                else:
                    m = minutes.pop()
                    h = ((base + self.off) // 3600 + r.choice([0, 0, 1, 1, 2, 3, 5, 12])) % 24 if r.random() < .7 else r.randrange(24)
                    times.append(r.choice(['%02d:%02d', '%d:%02d']) % (h, m))
                    ents.append((h, m))
            wd = r.choice(['', '', '1-7', '1-5', '6,7', '1-3,5', '5, 7', '2', '1,3-4,7', '7'])
            days = set()
            for p in wd.replace(' ', '').split(',') if wd else []:
                days |= set(range(int(p[0]), int(p[-1]) + 1))
            extra += ['Task%d.Time=%s' % (n, r.choice([',', ';', ', ']).join(times) if '*' not in times else ','.join(times)), 'Task%d.WeekDays=%s' % (n, wd), 'Task%d.Command=%s' % (n, r.choice(names)), 'Task%d.Param=%s' % (n, param)]
            self.tasks += [dict(h=h, m=m, days=sorted(days), cmd=kind, on=on, arg=arg, id=n) for h, m in ents]
        self.tasks.sort(key=lambda k: (k['h'], k['m']))
        act = {i: r.random() < .7 for i in SERVERS}
        for i, nm in SERVERS.items():
            extra += ['Server%d.Active=%s' % (i, 'yes' if act[i] else 'no'), 'Server%d.Name=%s' % (i, nm), 'Server%d.Host=127.0.0.1' % i, 'Server%d.Port=9' % i, 'Server%d.Connections=1' % i]
        self.srv = sorted(i for i in act if act[i])
        self.rate = r.choice([0, 0, 500])
        self.n = nz.Nz(env[0], env[1], opts={'TimeCorrection': str(self.corr), 'DownloadRate': str(self.rate)}, extra=extra,
                       files={'run.sh': '#!/bin/sh\necho $1 >> "$NZBOP_MAINDIR/runs"\n'})
        os.chmod(os.path.join(self.n.main, 'run.sh'), 0o755)
        e = self.n.env
        self.n.env = lambda: dict(e(), TZ=tz)
        self.paused = r.random() < .3
        self.n.argv = ['-P'] if self.paused else []
        self.now = base
        self.ev = []
        self.clock()

    def clock(self):
        self.n.ctl.time_val = self.now
        self.n.ctl.time_mode = 2

    def close(self):
        self.n.close()

    def boot(self, e):
        if self.now % 60 > 50:
            self.now += 20
            self.clock()
        self.n.start()
        self.n.call('scan', True)       # answered when the queue was loaded
        self.now += 2                   # the tasks are looked at again if they were not because the queue was not loaded
        self.clock()
        self.put(e=e, now=self.now)
        self.now += 60 - self.now % 60
        self.clock()
        self.put(e='at', now=self.now)

    def put(self, **e):
        n = self.n
        if e['e'] != 'cmd':
            # the services run one after the other: when the second scan is done, the tasks have been looked at
            n.call('scan', True)
            n.call('scan', True)
        cnt = lambda: open(n.main + '/runs').read().split() if os.path.exists(n.main + '/runs') else []
        if self.procs and e['e'] != 'cmd':
            last, t = cnt(), time.time()
            while time.time() - t < .35:
                time.sleep(.02)
                c = cnt()
                if c != last:
                    last, t = c, time.time()
        runs = cnt()
        st = n.status()
        e['o'] = dict(dl=st['DownloadPaused'], post=st['PostPaused'], scan=st['ScanPaused'], rate=st['DownloadLimit'] // 1024, resume=st['ResumeTime'],
                      srv=sorted(x['ID'] for x in st['NewsServers'] if x['Active']), n=[runs.count(str(i)) for i in range(1, 10)])
        self.ev.append(e)

    def step(self):
        r = self.rnd
        x = r.random()
        if x < .62:
            y = r.random()
            self.now += (r.choice([1, 20, 59, 60, 61, 90]) if y < .3 else r.choice([300, 600, 900, 1800, 3600]) if y < .7 else r.choice([5340, 5399, 5400, 5401, 5460, 7200]) if y < .8 else
                         60 - self.now % 60 if y < .87 else r.choice([86400, 3 * 86400, 8 * 86400, 86400 - 300]) if y < .93 else -r.choice([30, 61, 600, 4000, 86400, 9 * 86400]))
            self.clock()
            self.put(e='at', now=self.now)
        elif x < .97:
            cmd = r.choice(['pausedownload', 'resumedownload', 'pausepost', 'resumepost', 'pausescan', 'resumescan', 'rate', 'scheduleresume', 'scheduleresume', 'scheduleresume', 'serveron', 'serveroff'])
            arg = 0
            if cmd == 'rate':
                arg = r.choice([0, 50, 3000])
                self.n.call('rate', arg)
            elif cmd == 'scheduleresume':
                arg = r.choice([0, 1, 60, 300, 1000, 3600, 7200])
                self.n.call('scheduleresume', arg)
            elif cmd.startswith('server'):
                arg = r.choice(sorted(SERVERS))
                self.n.call('editserver', arg, cmd == 'serveron')
            else:
                self.n.call(cmd)
            self.put(e='cmd', cmd=cmd, arg=arg)
        else:
            if self.n.stop() != 0:
                raise nz.Dead('shutdown failed')
            self.boot('restart')

    def trace(self):
        return dict(off=self.off, tasks=self.tasks, paused=self.paused, rate=self.rate, srv=self.srv, ev=self.ev)


def run_walk(env, seed, steps, tasks=True):
    s = Session(env, seed, tasks)
    err = None
    try:
        try:
            s.boot('start')
            for _ in range(steps):
                s.step()
        except (nz.Dead, nz.RpcError) as e:
            err = str(e)
        return s.trace(), err
    finally:
        s.close()


def run(ctx, num, steps, base, tasks):
    env = build.build()
    seeds = [ctx.seed * 100000 + base + i for i in range(num)]
    fn = lambda sd: run_walk(env, sd, steps, tasks)
    with cf.ThreadPoolExecutor(24) as ex:
        res = list(ex.map(fn, seeds))
    D.validate(ctx, 'ClockTrace', '', seeds, res, fn, consts=' ')
    ctx.add(runs=len(seeds))


def p15(ctx):
    for off in ('= 0', '<- NegOff'):
        ok, g, d, out = tlc.check('ClockMC', 'SPECIFICATION Spec\nINVARIANTS Once State State2 Late\nCHECK_DEADLOCK FALSE\nCONSTANT Off %s\n' % off, timeout=600)
        ctx.model('ClockMC Off %s' % off, ok, g, d, out)
    run(ctx, ctx.pick(80, 1500), ctx.pick(40, 80), 0, True)


def p22(ctx):
    run(ctx, ctx.pick(40, 400), ctx.pick(40, 80), 50000, False)
    run(ctx, ctx.pick(20, 400), ctx.pick(40, 80), 60000, True)
