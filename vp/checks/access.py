"""Access to the remote API: every kind of request (enumerated by TLC from Access.tla) sent to the real program, answers and
effects validated with AccessTrace.tla."""
import base64, concurrent.futures as cf, http.client, json, os, random, re, socket, struct, time
from .. import build, nz, tlc
from . import download as D

CONFS = [dict(cu='boss', cp='secret-c', ru='resi', rp='secret-r', au='adder', ap='secret-a', form=False, ips=False),
         dict(cu='boss', cp='secret-c', ru='resi', rp='secret-r', au='adder', ap='secret-a', form=True, ips=True),
         dict(cu='', cp='secret-c', ru='resi', rp='secret-r', au='', ap='', form=False, ips=True),
         dict(cu='boss', cp='secret-c', ru='', rp='', au='adder', ap='', form=True, ips=False),
         dict(cu='boss', cp='', ru='resi', rp='secret-r', au='', ap='secret-a', form=False, ips=False),
         dict(cu='boss', cp='secret-c', ru='boss', rp='secret-r', au='resi', ap='secret-c', form=False, ips=False)]
SECRETS = [b'server-secret', b'/cert-secret']
NZB = ('<?xml version="1.0"?><nzb><file poster="p" date="1500000000" subject="&quot;f.bin&quot; yEnc (1/1)"><groups><group>g</group></groups>'
       '<segments><segment bytes="100" number="1">a%d@x</segment></segments></file></nzb>')


class Client:
    """a keep-alive connection"""

    def __init__(self, dst, src):
        self.dst, self.src, self.s = dst, src, None

    def close(self):
        if self.s:
            self.s.close()
        self.s = None

    def send(self, data, http=True, timeout=20):
        if self.s is None:
            self.s = socket.socket()
            self.s.settimeout(timeout)
            self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            self.s.bind((self.src, 0))
            self.s.connect(self.dst)
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_QUICKACK, 1)
        self.s.sendall(data)
        buf = b''
        try:
            if not http:
                while True:
                    c = self.s.recv(65536)
                    if not c:
                        break
                    buf += c
                return 0, {}, buf
            while b'\r\n\r\n' not in buf:
                c = self.s.recv(65536)
                self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_QUICKACK, 1)
                if not c:
                    return 0, {}, buf
                buf += c
            head, _, body = buf.partition(b'\r\n\r\n')
            ls = head.decode('latin-1').split('\r\n')
            hd = {}
            for l in ls[1:]:
                k, _, v = l.partition(':')
                hd.setdefault(k.strip().lower(), []).append(v.strip())
            n = int((hd.get('content-length') or ['0'])[0])
            while len(body) < n:
                c = self.s.recv(65536)
                if not c:
                    break
                body += c
            if 'keep-alive' not in (hd.get('connection') or [''])[0]:
                self.close()
            return int(ls[0].split()[1]), hd, body
        except (ConnectionResetError, BrokenPipeError):
            self.close()
            return -1, {}, buf
        finally:
            if not http:
                self.close()


def xml(m, params):
    def v(x):
        if isinstance(x, bool):
            return '<boolean>%d</boolean>' % x
        if isinstance(x, int):
            return '<i4>%d</i4>' % x
        if isinstance(x, list):
            return '<array><data>%s</data></array>' % ''.join('<value>%s</value>' % v(y) for y in x)
        if isinstance(x, dict):
            return '<struct>%s</struct>' % ''.join('<member><name>%s</name><value>%s</value></member>' % (k, v(y)) for k, y in x.items())
        return '<string>%s</string>' % x
    return '<?xml version="1.0"?><methodCall><methodName>%s</methodName><params>%s</params></methodCall>' % (
        m, ''.join('<param><value>%s</value></param>' % v(x) for x in params))


class Session:
    def __init__(self, env, ci, cases, seed):
        r = self.r = random.Random(seed)
        self.c = CONFS[ci]
        self.cases = cases
        self.host = '127.%d.%d.%d' % (r.randint(10, 250), r.randint(1, 250), r.randint(1, 250))
        self.inip, self.outip = '127.9.8.%d' % r.randint(1, 250), '127.9.7.%d' % r.randint(1, 250)
        c = self.c
        self.n = nz.Nz(env[0], env[1], opts={
            'ControlIP': self.host, 'ControlPort': '6789', 'ControlUsername': c['cu'], 'ControlPassword': c['cp'], 'RestrictedUsername': c['ru'],
            'RestrictedPassword': c['rp'], 'AddUsername': c['au'], 'AddPassword': c['ap'], 'FormAuth': 'yes' if c['form'] else 'no',
            'AuthorizedIP': '10.0.0.1; 127.9.8.*' if c['ips'] else '', 'CertStore': '/cert-secret', 'DupeCheck': 'no', 'CertCheck': 'no',
            'WriteLog': 'append', 'LogBuffer': '100000', 'UrlForce': 'no'},
            extra=['Server1.Host=127.0.0.1', 'Server1.Username=u', 'Server1.Password=server-secret', 'Server1.Active=no', 'Task1.Time=00:00',
                   'Task1.Command=PauseDownload', 'Task1.WeekDays=1'], files={'web/index.html': 'page', 'web/x/a.js': 'page'})
        self.n.argv = ['-P']
        self.cl = {}
        self.tokens = {}
        self.seq = 0
        self.ev = []
        self.nlog = 0

    def client(self, addr):
        if addr not in self.cl:
            self.cl[addr] = Client((self.host, 6789), self.inip if addr == 'in' else self.outip)
        return self.cl[addr]

    def http(self, r):
        """the request in bytes"""
        hd = ['Host: x', 'Connection: keep-alive']
        path, body, v = '/', '', r['v']
        m = r['m']
        if self.r.random() < .2:
            m = m.upper() if self.r.random() < .5 else m.capitalize()
        args = {'rate': [v], 'append': ['n%d.nzb' % v, base64.b64encode((NZB % v).encode()).decode(), '', 0, False, True, '', 0, 'ALL'],
                'appendurl': ['n%d.nzb' % v, 'http://127.0.0.1:1/%d.nzb' % v, '', 0, False, True, '', 0, 'ALL'], 'writelog': ['INFO', 'wl%d' % v],
                'saveconfig': [[dict(Name='MainDir', Value=self.n.main), dict(Name='Server1.Password', Value='server-secret'), dict(Name='Marker', Value=str(v))]]}.get(r['m'], [])
        if r['proto'] == 'multi' and r['m'] == 'saveconfig':
            args = []
        if r['proto'] == 'file':
            path = self.r.choice(['/', '/index.html', '/x/a.js', '/combined.js?index.html+x/a.js'])
            body = 'x'
        else:
            path = {'json': '/jsonrpc', 'xml': '/xmlrpc', 'jsonp': '/jsonprpc', 'multi': '/xmlrpc'}[r['proto']]
            if r['http'] == 'GET' or r['http'] == 'OPTIONS':
                if r['proto'] == 'multi':
                    m = 'system.multicall'
                flat = []
                for a in args:
                    if isinstance(a, list):
                        flat += [y for x in a for k, v2 in x.items() for y in ([k, v2] if r['proto'] == 'jsonp' else [v2])]
                    else:
                        flat.append(str(a).lower() if isinstance(a, bool) else a)
                if r['proto'] == 'jsonp':
                    flat = ['cb'] + flat
                path += '/' + m + ('?' + '&'.join('p=%s' % str(a).replace('=', '%3D').replace('+', '%2B') for a in flat) if flat else '')
            elif r['proto'] == 'json':
                body = json.dumps({'id': 1, 'method': m, 'params': args})
            elif r['proto'] == 'xml':
                body = xml(m, args)
            else:
                calls = [dict(methodName=m, params=args)]
                body = xml('system.multicall', [calls])
        if r['via'] == 'basic' or r['via'] == 'xauth':
            hd.append('%sAuthorization: Basic %s' % ('X-' if r['via'] == 'xauth' else '', base64.b64encode(('%s:%s' % (r['user'], r['pw'])).encode()).decode()))
        elif r['via'] == 'url':
            path = '/%s:%s%s' % (r['user'], r['pw'], path)
        elif r['via'] == 'cookie':
            hd.append('Cookie: Auth-Type=form; Auth-Token=%s' % self.tokens.get(r['tok'], 'x' * 48))
        if self.r.random() < .3 and r['proto'] != 'file':
            path = '/nzbget' + path
        if r['http'] == 'POST':
            hd.append('Content-Length: %d' % len(body))
        return ('%s %s HTTP/1.1\r\n%s\r\n\r\n%s' % (r['http'], path, '\r\n'.join(hd), body if r['http'] == 'POST' else '')).encode()

    def binary(self, r):
        d = struct.pack('>iii32s32s', 0x6E7A6231, 76 + (4 if r['m'] == 'rate' else 0), 10 if r['m'] == 'version' else 4, r['user'].encode(), r['pw'].encode())
        return d + (struct.pack('>i', r['v'] * 1024) if r['m'] == 'rate' else b'')

    def kind(self, r, st, hd, body):
        if r['http'] == 'BIN':
            return 'ok' if body else 'closed'
        if r['http'] == 'OPTIONS':
            return 'options' if st == 200 else str(st)
        if st == 200 and r['proto'] == 'file':
            return 'file' if body.startswith(b'page') else '?'
        if st != 200:
            return str(st)
        b = body.decode('utf-8', 'replace')
        if 'Not safe procedure' in b:
            return 'notsafe'
        if 'Access denied' in b and '401' in b:
            return 'denied'
        if '"error"' in b or '<fault>' in b or 'faultString' in b:
            return 'fault'
        if r['m'] in ('config', 'loadconfig'):
            return 'masked' if '***' in b else 'full'
        return 'ok'

    def admin(self, m, *p):
        c = self.client('admin')
        b = json.dumps({'id': 1, 'method': m, 'params': list(p)})
        c.close()
        for _ in range(2):
            st, hd, body = c.send(('POST /jsonrpc HTTP/1.1\r\nHost: x\r\nConnection: keep-alive\r\nAuthorization: Basic %s\r\nContent-Length: %d\r\n\r\n%s' % (
                base64.b64encode(('%s:%s' % (self.c['cu'] or 'boss', self.c['cp'])).encode()).decode(), len(b), b)).encode())
            if st == 200:
                return json.loads(body.decode('utf-8', 'replace'))['result'], hd
        raise nz.Dead('no answer to the control user: %s' % st)

    def start(self):
        self.n.start(wait=False)
        t = time.time()
        while True:
            try:
                self.admin('version')
                break
            except OSError:
                self.client('admin').close()
                if time.time() - t > 20 or not self.n.alive():
                    raise nz.Dead('nzbget does not start')
                time.sleep(.02)
        # the tokens of the three levels
        for lv, u, p in (('control', self.c['cu'] or 'boss', self.c['cp']), ('restricted', self.c['ru'], self.c['rp']), ('add', self.c['au'], self.c['ap'])):
            if u and self.c['cp'] and (u, p) not in [(self.c['cu'], self.c['cp'])] or lv == 'control':
                st, hd, _ = self.client('out').send(b'GET /jsonrpc/version HTTP/1.1\r\nHost: x\r\nAuthorization: Basic %s\r\n\r\n' % base64.b64encode(('%s:%s' % (u, p)).encode()))
                tok = self.token(hd)
                if tok and tok not in self.tokens.values():
                    self.tokens[lv] = tok

    @staticmethod
    def token(hd):
        for x in hd.get('set-cookie', []):
            if x.startswith('Auth-Token='):
                return x[11:].split(';')[0]
        return ''

    def observe(self):
        if not self.n.alive():
            return dict(rate=0, queue=0, conf=0, log=0, alive=False)
        st, _ = self.admin('status')
        q, _ = self.admin('listgroups', 0)
        txt = open(self.n.conf).read()
        m = re.search(r'^Marker=(\d+)', txt, re.M)
        try:
            log = open(os.path.join(self.n.main, 'nzbget.log'), errors='replace').read()
        except OSError:
            log = ''
        return dict(rate=st['DownloadLimit'] // 1024, queue=len(q), conf=int(m.group(1)) if m else 0, log=len(re.findall(r'INFO\s+wl\d+', log)), alive=True)

    def run(self):
        self.start()
        lev = {v: k for k, v in self.tokens.items()}
        for i, r0 in enumerate(self.cases):
            r = dict(r0, v=i + 1)
            if r['via'] == 'cookie' and r['tok'] != 'bogus' and r['tok'] not in self.tokens:
                continue
            c = self.client(r['addr'])
            if r['http'] == 'BIN':
                c.close()
                st, hd, body = c.send(self.binary(r), http=False)
            else:
                for _ in range(3):
                    st, hd, body = c.send(self.http(r))
                    if st > 0:
                        break
                    c.close()
                if r['http'] != 'OPTIONS' and (st in (401, 400)):
                    c.close()      # the body of the request is still there
            if self.r.random() < .1:
                c.close()
            tok = self.token(hd)
            eff = r['m'] in ('rate', 'append', 'appendurl', 'saveconfig', 'writelog', 'shutdown')
            if eff or i == 0 or i == len(self.cases) - 1:
                if r['m'] == 'shutdown':
                    time.sleep(.02)
                self.obs = self.observe()
            self.ev.append(dict(r, ans=self.kind(r, st, hd, body), tok2=lev.get(tok, '?') if tok else '', leak=any(x in body for x in SECRETS), len=len(body) > 0,
                                obs=self.obs))

    def close(self):
        for c in self.cl.values():
            c.close()
        self.n.close()


def session(env, job):
    ci, cases, seed = job
    s = Session(env, ci, cases, seed)
    err = None
    try:
        try:
            s.run()
        except (nz.Dead, OSError, KeyError) as e:
            err = repr(e)
        return dict(c=s.c, ev=s.ev), err
    finally:
        s.close()


def p17(ctx):
    env = build.build()
    rc, out, res = tlc.run('AccessGen', 'SPECIFICATION Spec\nINVARIANT OnlyAllowedInv\nCHECK_DEADLOCK FALSE\n', CONFS, workers=6, timeout=400)
    if 'cases.json' not in res:
        raise tlc.TlcError(tlc.errors(out))
    g, d = tlc.stats(out)
    ctx.model('AccessGen', 'No error has been found' in out, g, d, out)
    r = random.Random(ctx.seed)
    cases = []
    for x in json.loads(res['cases.json']):
        for f in x['forms']:
            for k in x['bin'] if f['http'] == 'BIN' else x['creds']:
                cases += [dict(f, **k, c=x['c'], addr=a) for a in x['addrs']]
        cases += x['shutdown']
    ctx.cov['request_kinds'] = len(cases)
    jobs = []
    for _ in range(ctx.pick(1, 6)):      # every kind of request, in histories of random order
        r.shuffle(cases)
        for ci in range(len(CONFS)):
            cs = [x for x in cases if x['c'] == ci + 1]
            for i in range(0, len(cs), 200):
                jobs.append((ci, cs[i:i + 200], ctx.seed * 1000 + len(jobs)))
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: session(env, j), jobs))
    D.validate(ctx, 'AccessTrace', '', jobs, res, lambda j: session(env, j), ' ')
