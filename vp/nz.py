"""Drives one real nzbget process (server mode) inside a scratch directory of its own.

The process runs as an unprivileged user, with the shim preloaded: its clock can be set, mutating
file operations are counted (and can be made the point of a crash), and every mutating operation
outside the scratch directory is refused and recorded.
"""
import base64, ctypes, http.client, json, mmap, os, shutil, signal, socket, struct, subprocess, tempfile, time

NOBODY = 65534
_F = ['time_mode', 'time_val', 'op_count', 'crash_at', 'crash_mode', 'arm', 'free_mb', 'fail_at', 'denied']


class Ctl:
    def __init__(self, path):
        with open(path, 'wb') as f:
            f.write(b'\0' * 4096)
        self.f = open(path, 'r+b')
        self.m = mmap.mmap(self.f.fileno(), 4096)
        self.free_mb = -1

    def __getattr__(self, n):
        if n in _F:
            return struct.unpack_from('<q', self.m, _F.index(n) * 8)[0]
        raise AttributeError(n)

    def __setattr__(self, n, v):
        if n in _F:
            struct.pack_into('<q', self.m, _F.index(n) * 8, v)
        else:
            object.__setattr__(self, n, v)

    def close(self):
        self.m.close()
        self.f.close()


class RpcError(Exception):
    pass


class Dead(Exception):
    """the process under test is gone (or does not answer)"""


def scratch(prefix='vp-'):
    base = os.environ.get('VP_TMP', '/tmp')
    d = tempfile.mkdtemp(prefix=prefix, dir=base)
    os.chmod(d, 0o755)
    return d


class Nz:
    def __init__(self, binary, shim, opts=None, extra=None, root=None, log_ops=False, files=None, argv=None):
        self.own = root is None
        self.root = root or scratch()
        self.main = os.path.join(self.root, 'm')
        self.log_ops = log_ops
        self.argv = argv or []
        for d in ('', 'dst', 'int', 'queue', 'nzb', 'tmp', 'scripts', 'web'):
            os.makedirs(os.path.join(self.main, d), exist_ok=True)
        self.bin = os.path.join(self.root, 'nzbget')
        if not os.path.exists(self.bin):
            try:
                os.link(binary, self.bin)
            except OSError:
                shutil.copy2(binary, self.bin)
        self.shim = os.path.join(self.root, 'shim.so')
        if shim and not os.path.exists(self.shim):
            shutil.copy2(shim, self.shim)
        self.preload = bool(shim)
        self.sock = os.path.join(self.main, 'rpc.sock')
        self.conf = os.path.join(self.main, 'nzbget.conf')
        self.opts = {
            'MainDir': self.main, 'DestDir': '${MainDir}/dst', 'InterDir': '${MainDir}/int',
            'QueueDir': '${MainDir}/queue', 'NzbDir': '${MainDir}/nzb', 'TempDir': '${MainDir}/tmp',
            'ScriptDir': '${MainDir}/scripts', 'LogFile': '${MainDir}/nzbget.log', 'LockFile': '${MainDir}/nzbget.lock',
            'WebDir': '${MainDir}/web',
            'WriteLog': 'append', 'ControlIP': self.sock, 'ControlPassword': '', 'ControlUsername': '',
            'DetailTarget': 'log', 'InfoTarget': 'both', 'WarningTarget': 'both', 'ErrorTarget': 'both',
            'DebugTarget': 'none', 'NzbDirInterval': '0', 'FlushQueue': 'no', 'ParCheck': 'manual', 'ParRename': 'no', 'ContinuePartial': 'yes',
            'RarRename': 'no', 'Unpack': 'no', 'DupeCheck': 'yes', 'HealthCheck': 'none', 'KeepHistory': '7',
            'ArticleInterval': '0', 'UrlInterval': '0', 'DiskSpace': '0', 'OutputMode': 'log', 'CrashTrace': 'no',
            'CrashDump': 'no', 'LogBuffer': '2000', 'UpdateCheck': 'none', 'NzbLog': 'yes', 'UnrarCmd': '/usr/bin/unrar',
            'SevenZipCmd': '/usr/bin/7z',
        }
        self.opts.update(opts or {})
        self.extra = extra or []
        self.ctlpath = os.path.join(self.root, 'ctl')
        self.ctl = Ctl(self.ctlpath)
        self.oplog = os.path.join(self.root, 'oplog')
        self.proc = None
        self.starting = False
        self.write_conf()
        self.starts = 0
        for k, v in (files or {}).items():
            p = os.path.join(self.main, k)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(v if isinstance(v, bytes) else v.encode())

    def write_conf(self):
        with open(self.conf, 'w') as f:
            for k, v in self.opts.items():
                if v is not None:
                    f.write('%s=%s\n' % (k, v))
            for l in self.extra:
                f.write(l + '\n')

    def chown(self):
        for d, ds, fs in os.walk(self.root):
            os.lchown(d, NOBODY, NOBODY)
            for x in fs:
                p = os.path.join(d, x)
                if x not in ('nzbget', 'shim.so'):
                    os.lchown(p, NOBODY, NOBODY)

    def env(self):
        e = {'PATH': '/usr/local/bin:/usr/bin:/bin', 'HOME': self.main, 'LC_ALL': 'C.UTF-8', 'TZ': 'UTC',
             'VP_CTL': self.ctlpath, 'VP_ROOT': self.root}
        if self.preload:
            e['LD_PRELOAD'] = self.shim
        if self.log_ops:
            e['VP_OPLOG'] = self.oplog
        return e

    def start(self, wait=True, timeout=30):
        if os.path.exists(self.sock):
            os.unlink(self.sock)
        if os.geteuid() == 0:
            self.chown()
            user = dict(user=NOBODY, group=NOBODY, extra_groups=[])
        else:
            user = {}
        self.starts += 1
        self.starting = True
        self.out = open(os.path.join(self.root, 'stdout.log'), 'ab')
        self.proc = subprocess.Popen([self.bin, '-c', self.conf, '-s'] + self.argv, cwd=self.main, env=self.env(),
                                     stdin=subprocess.DEVNULL, stdout=self.out, stderr=subprocess.STDOUT,
                                     start_new_session=True, **user)
        self.out.close()
        if not wait:
            self.starting = False
        if wait:
            t = time.time()
            while True:
                try:
                    v = self.call('version')
                    self.starting = False
                    return v
                except Dead:
                    raise
                except (OSError, http.client.HTTPException, RpcError):
                    if time.time() - t > timeout:
                        raise Dead('nzbget does not start')
                    time.sleep(0.01)

    def alive(self):
        return self.proc is not None and self.proc.poll() is None

    def raw(self, data, timeout=30):
        """one HTTP exchange; returns (status, headers, body)"""
        s = socket.socket(socket.AF_UNIX)
        s.settimeout(timeout)
        try:
            s.connect(self.sock)
            s.sendall(data)
            buf = b''
            while b'\r\n\r\n' not in buf:
                c = s.recv(65536)
                if not c:
                    break
                buf += c
            head, _, body = buf.partition(b'\r\n\r\n')
            lines = head.decode('latin-1').split('\r\n')
            if not lines[0].startswith('HTTP/'):
                raise http.client.HTTPException('bad response %r' % buf[:80])
            st = int(lines[0].split()[1])
            hd = {}
            for l in lines[1:]:
                k, _, v = l.partition(':')
                hd[k.strip().lower()] = v.strip()
            n = int(hd.get('content-length', '0') or 0)
            while len(body) < n:
                c = s.recv(65536)
                if not c:
                    break
                body += c
            if hd.get('content-encoding') == 'gzip':
                import gzip
                body = gzip.decompress(body)
            return st, hd, body
        finally:
            s.close()

    def post(self, path, body, headers=None, timeout=30):
        if isinstance(body, str):
            body = body.encode()
        h = 'POST %s HTTP/1.1\r\nHost: x\r\nContent-Type: application/json\r\nContent-Length: %d\r\n' % (path, len(body))
        for k, v in (headers or {}).items():
            h += '%s: %s\r\n' % (k, v)
        return self.raw(h.encode() + b'\r\n' + body, timeout)

    def get(self, path, headers=None, timeout=30):
        h = 'GET %s HTTP/1.1\r\nHost: x\r\n' % path
        for k, v in (headers or {}).items():
            h += '%s: %s\r\n' % (k, v)
        return self.raw(h.encode() + b'\r\n', timeout)

    def call(self, method, *params, timeout=30):
        try:
            st, hd, body = self.post('/jsonrpc', json.dumps({'id': 1, 'method': method, 'params': list(params)}),
                                     timeout=timeout)
        except socket.timeout:
            raise Dead('no answer to %s within %ds' % (method, timeout))
        except (OSError, http.client.HTTPException):
            if self.proc and not self.starting:
                try:
                    self.proc.wait(3)
                except subprocess.TimeoutExpired:
                    pass
            if not self.alive():
                raise Dead('nzbget died (exit %s) in %s' % (self.proc.poll() if self.proc else None, method))
            raise
        if st != 200:
            raise RpcError('HTTP %d' % st)
        try:
            r = json.loads(body.decode('utf-8', 'replace'))
        except ValueError:
            raise RpcError('invalid JSON in response to %s: %r' % (method, body[:300]))
        if 'error' in r:
            raise RpcError(json.dumps(r['error']))
        return r['result']

    def append(self, name, nzb, cat='', prio=0, top=False, paused=False, dupekey='', dupescore=0, dupemode='SCORE',
               params=None):
        if isinstance(nzb, str) and nzb.startswith('http'):
            c = nzb
        else:
            c = base64.b64encode(nzb if isinstance(nzb, bytes) else nzb.encode()).decode()
        a = [name, c, cat, prio, top, paused, dupekey, dupescore, dupemode]
        if params:
            flat = []
            for k, v in params:
                flat += [k, v]
            a += flat
        return self.call('append', *a)

    def edit(self, cmd, args, ids):
        return self.call('editqueue', cmd, args, list(ids))

    def groups(self):
        return self.call('listgroups', 0)

    def files(self, nzbid):
        return self.call('listfiles', 0, 0, nzbid)

    def history(self, hidden=True):
        return self.call('history', hidden)

    def status(self):
        return self.call('status')

    def wait(self, cond, timeout=30, what='condition', step=0.01):
        t = time.time()
        while True:
            r = cond()
            if r:
                return r
            if not self.alive():
                raise Dead('nzbget died (exit %s) waiting for %s' % (self.proc.poll(), what))
            if time.time() - t > timeout:
                return None
            time.sleep(step)

    def kill(self):
        if self.proc:
            try:
                os.killpg(self.proc.pid, signal.SIGKILL)
            except OSError:
                pass
            self.proc.wait()

    def stop(self, timeout=30):
        """graceful shutdown; returns exit code, None if it hung (then killed)"""
        if not self.alive():
            return self.proc.poll() if self.proc else None
        try:
            self.call('shutdown')
        except (OSError, http.client.HTTPException, RpcError, Dead):
            pass
        try:
            return self.proc.wait(timeout)
        except subprocess.TimeoutExpired:
            self.kill()
            return None

    def restart(self):
        rc = self.stop()
        self.start()
        return rc

    def logtext(self):
        try:
            return open(os.path.join(self.main, 'nzbget.log'), errors='replace').read()
        except OSError:
            return ''

    def close(self):
        self.kill()
        self.ctl.close()
        if self.own and self.root.startswith(os.environ.get('VP_TMP', '/tmp') + '/vp-'):
            shutil.rmtree(self.root, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
