"""A scripted news server: serves yEnc articles, records every request in one global order, and can
hold, refuse, corrupt or cut the answer of any article."""
import binascii, os, socket, threading, time, itertools

_ESC = {0, 10, 13, 61}
_TR = bytes((i + 42) & 255 for i in range(256))


def yenc_lines(data, width=128):
    enc = data.translate(_TR)
    out, line = [], bytearray()
    for c in enc:
        if c in _ESC or (c == 46 and not line):
            line.append(61)
            line.append((c + 64) & 255)
        else:
            line.append(c)
        if len(line) >= width:
            out.append(bytes(line))
            line = bytearray()
    if line:
        out.append(bytes(line))
    return out


def uu_article(name, data, first, last):
    ls = [b'begin 644 ' + name.encode()] if first else []
    ls += [binascii.b2a_uu(data[i:i + 45]).rstrip(b'\n') for i in range(0, len(data), 45)]
    return ls + ([b'`', b'end'] if last else [])


def yenc_article(name, data, part=None, total=None, begin=0, filesize=None, crc_xor=0, subject=None, width=128):
    """body of an article (list of lines without CRLF). begin is 0-based"""
    filesize = len(data) if filesize is None else filesize
    ls = []
    if part is None or total == 1:
        ls.append(b'=ybegin line=%d size=%d name=%s' % (width, filesize, name.encode()))
        ls += yenc_lines(data, width)
        ls.append(b'=yend size=%d crc32=%08x' % (len(data), (binascii.crc32(data) ^ crc_xor) & 0xffffffff))
    else:
        ls.append(b'=ybegin part=%d total=%d line=%d size=%d name=%s' % (part, total, width, filesize, name.encode()))
        ls.append(b'=ypart begin=%d end=%d' % (begin + 1, begin + len(data)))
        ls += yenc_lines(data, width)
        ls.append(b'=yend size=%d part=%d pcrc32=%08x' % (len(data), part, (binascii.crc32(data) ^ crc_xor) & 0xffffffff))
    return ls


class Article:
    """what the server does when asked for a message id"""
    __slots__ = ('lines', 'mode', 'sizes')

    def __init__(self, lines, mode='ok'):
        self.lines = lines
        self.mode = mode     # ok | missing | cut (connection lost in the middle) | crc ...


class Server:
    """one NNTP server on an ephemeral port of 127.0.0.1"""
    _seq = itertools.count(1)
    glock = threading.Lock()

    def __init__(self, name='s', log=None, auth=None, greeting=b'200 ready', port=0):
        self.name = name
        self.auth = auth
        self.greeting = greeting
        self.articles = {}
        self.log = log if log is not None else []       # shared list of (seq, server, msgid, event)
        self.hold = None              # function(msgid) -> bool: hold the answer
        self.held = {}                # token -> (msgid, Event)
        self.pieces = None            # a random source: answers are sent in pieces of random length
        self.behave = None            # function(server, msgid) -> mode or None
        self.active = 0
        self.max_active = 0
        self.conns = 0
        self.closed = False
        self.hold_greeting = False
        self.greet_ev = threading.Event()
        self.refuse = False
        self.cv = threading.Condition()
        self.sent_bytes = 0
        self.groups = []
        self.ls = socket.socket()
        self.ls.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        # an address of its own: a port given free must not be reached by another instance
        self.host = '127.%d.%d.%d' % tuple(os.urandom(3)[i] % 253 + 1 for i in range(3))
        self.ls.bind((self.host, port))
        self.port = self.ls.getsockname()[1]
        self.ls.listen(64)
        self.socks = set()
        threading.Thread(target=self._accept, daemon=True).start()

    def _accept(self):
        while not self.closed:
            try:
                s, _ = self.ls.accept()
            except OSError:
                return
            threading.Thread(target=self._serve, args=(s,), daemon=True).start()

    def rec(self, msgid, ev):
        with Server.glock:
            n = len(self.log) + 1
            self.log.append((n, self.name, msgid, ev))
        return n

    def _serve(self, s):
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        with self.cv:
            self.active += 1
            self.conns += 1
            self.max_active = max(self.max_active, self.active)
            self.socks.add(s)
            self.cv.notify_all()
        try:
            self.rec('', 'connect')
            if self.refuse:
                s.sendall(b'502 too many connections\r\n')
                return
            s.sendall(self.greeting + b'\r\n')
            if not self.greeting.startswith(b'2'):
                return
            f = s.makefile('rb')
            authed = self.auth is None
            user = None
            while not self.closed:
                l = f.readline()
                if not l:
                    return
                cmd = l.decode('latin-1').strip()
                up = cmd.upper()
                if up.startswith('AUTHINFO USER'):
                    user = cmd.split(None, 2)[2]
                    s.sendall(b'381 more\r\n')
                elif up.startswith('AUTHINFO PASS'):
                    if self.auth is None or (user, cmd.split(None, 2)[2]) == self.auth:
                        authed = True
                        s.sendall(b'281 ok\r\n')
                    else:
                        self.rec('', 'badauth')
                        s.sendall(b'482 bad\r\n')
                elif up == 'QUIT':
                    s.sendall(b'205 bye\r\n')
                    return
                elif not authed:
                    s.sendall(b'480 auth\r\n')
                elif up.startswith('GROUP'):
                    self.rec(cmd.split()[1], 'group')
                    s.sendall(b'211 1 1 1 ' + cmd.split()[1].encode() + b'\r\n')
                elif up.startswith('BODY') or up.startswith('ARTICLE'):
                    mid = cmd.split()[1].strip('<>')
                    if not self._article(s, mid, up.startswith('ARTICLE')):
                        return
                else:
                    s.sendall(b'500 what\r\n')
        except OSError:
            pass
        finally:
            try:
                s.close()
            except OSError:
                pass
            with self.cv:
                self.active -= 1
                self.socks.discard(s)
                self.cv.notify_all()

    def _send(self, s, data):
        r = self.pieces
        if r is None or len(data) > 20000:
            s.sendall(data)
            return
        i = 0
        while i < len(data):
            n = r.choice([1, 2, 3, 10, 100, 1000, 5000])
            s.sendall(data[i:i + n])
            i += n
            if r.random() < .3:
                time.sleep(0.0005)

    def _article(self, s, mid, full):
        self.rec(mid, 'req')
        gone = False
        if self.hold and self.hold(mid):
            ev = threading.Event()
            tok = object()
            with self.cv:
                self.held[tok] = (mid, ev)
                self.cv.notify_all()
            while not ev.wait(0.004):
                # has the client closed the connection?
                try:
                    if s.recv(1, socket.MSG_PEEK | socket.MSG_DONTWAIT) == b'':
                        gone = True
                        break
                except BlockingIOError:
                    pass
                except OSError:
                    gone = True
                    break
            with self.cv:
                self.held.pop(tok, None)
                self.cv.notify_all()
            if gone:
                self.rec(mid, 'gone')
                return False
        a = self.articles.get(mid)
        mode = self.behave(self, mid) if self.behave else None
        if mode is None:
            mode = a.mode if a else 'missing'
        if mode == 'missing' or a is None:
            self.rec(mid, 'missing')
            s.sendall(b'430 no such article\r\n')
            return True
        if mode == 'drop':
            self.rec(mid, 'drop')
            return False
        if mode.startswith('code'):
            self.rec(mid, mode)
            s.sendall(mode[4:].encode() + b' no\r\n')
            return True
        lines = a.lines
        out = b'222 body\r\n' if not full else b'220 article\r\nMessage-ID: <%s>\r\nSubject: x\r\n\r\n' % mid.encode()
        body = b'\r\n'.join((b'.' + x) if x.startswith(b'.') else x for x in lines) + b'\r\n'
        if mode == 'cut':
            self.rec(mid, 'cut')
            s.sendall(out + body[:len(body) // 2])
            return False
        if mode == 'crc':
            # flip one payload byte: decoded size is right, crc is wrong
            ls = list(lines)
            k = 2 if ls[1].startswith(b'=ypart') else 1
            b = bytearray(ls[k])
            i = next(i for i in range(len(b)) if b[i] not in (61, 13, 10, 0) and (i == 0 or b[i - 1] != 61) and b[i] != 46)
            b[i] = b[i] ^ 1 if (b[i] ^ 1) not in (61, 13, 10, 0, 46) else b[i] ^ 2
            ls[k] = bytes(b)
            body = b'\r\n'.join((b'.' + x) if x.startswith(b'.') else x for x in ls) + b'\r\n'
        elif mode == 'wrongtrunc':
            # server ends the article properly, but the data lines at the end are missing
            ls = list(lines)
            body = b'\r\n'.join((b'.' + x) if x.startswith(b'.') else x for x in ls[:max(2, len(ls) // 2)]) + b'\r\n'
        elif mode == 'badpart':
            body = b'=ybegin part=1 total=2 line=128 size=100 name=x\r\nabcdefg\r\n=yend size=7 part=1\r\n'
        elif mode == 'nodata':
            body = b'this is not an article\r\n'
        self._send(s, out + body + b'.\r\n')
        with self.cv:
            self.sent_bytes += len(out) + len(body) + 3
        self.rec(mid, 'sent-' + mode)
        return True

    # -- schedule control
    def wait_held(self, n=1, timeout=15):
        """wait until n requests are held; returns their message ids"""
        end = time.time() + timeout
        with self.cv:
            while len(self.held) < n:
                left = end - time.time()
                if left <= 0:
                    return None
                self.cv.wait(left)
            return [m for m, _ in self.held.values()]

    def release(self, mid=None):
        with self.cv:
            for tok, (m, ev) in list(self.held.items()):
                if mid is None or m == mid:
                    ev.set()
                    if mid is not None:
                        self.held.pop(tok, None)
                        break
            if mid is None:
                self.held.clear()

    def requests(self):
        return [x for x in self.log if x[3] == 'req' and x[1] == self.name]

    def drop_all(self):
        for s in list(self.socks):
            try:
                s.shutdown(2)
            except OSError:
                pass

    def close(self):
        self.closed = True
        try:
            self.ls.close()
        except OSError:
            pass
        self.hold = None
        self.release()
        self.drop_all()

    def conf(self, n, connections=1, level=0, **kw):
        d = {'Active': 'yes', 'Name': self.name, 'Level': level, 'Host': self.host, 'Port': self.port,
             'Connections': connections, 'Encryption': 'no'}
        if self.auth:
            d.update(Username=self.auth[0], Password=self.auth[1])
        d.update(kw)
        return ['Server%d.%s=%s' % (n, k, v) for k, v in d.items()]


# ---- nzb generation -------------------------------------------------------------------------

class NzbFileDef:
    """one file of a generated nzb; articles: list of payload bytes"""

    def __init__(self, name, parts, date=1600000000, groups=('alt.test',), prefix='', subject=None, posted=True):
        self.name, self.parts, self.date, self.groups = name, parts, date, groups
        self.prefix = prefix
        self.subject = subject
        self.data = b''.join(parts)
        self.posted = posted

    def mid(self, k):
        return '%s.%s.p%d@vp' % (self.prefix, self.name, k + 1)

    def articles(self):
        off = 0
        for k, p in enumerate(self.parts):
            yield self.mid(k), yenc_article(self.name, p, k + 1, len(self.parts), off, len(self.data))
            off += len(p)


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;').replace('"', '&quot;')


def make_nzb(files, meta=None, seg_bytes=None):
    o = ['<?xml version="1.0" encoding="UTF-8"?>',
         '<!DOCTYPE nzb PUBLIC "-//newzBin//DTD NZB 1.1//EN" "http://www.newzbin.com/DTD/nzb/nzb-1.1.dtd">',
         '<nzb xmlns="http://www.newzbin.com/DTD/2003/nzb">']
    if meta:
        o.append('<head>' + ''.join('<meta type="%s">%s</meta>' % (k, esc(v)) for k, v in meta) + '</head>')
    for f in files:
        subj = f.subject or '[1/1] - "%s" yEnc (1/%d)' % (f.name, len(f.parts))
        o.append('<file poster="vp" date="%d" subject="%s">' % (f.date, esc(subj)))
        o.append('<groups>' + ''.join('<group>%s</group>' % g for g in f.groups) + '</groups><segments>')
        for k, p in enumerate(f.parts):
            n = len(p) if seg_bytes is None else seg_bytes(f, k)
            o.append('<segment bytes="%d" number="%d">%s</segment>' % (n, k + 1, esc(f.mid(k))))
        o.append('</segments></file>')
    o.append('</nzb>')
    return '\n'.join(o)
