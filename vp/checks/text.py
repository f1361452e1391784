"""Texts and formats of the remote API: what is given in one request format has to come back exactly in each answer format,
every answer is well formed and says the same in JSON and XML; decided with Text.tla / TextTrace.tla."""
import base64, concurrent.futures as cf, json, random, re, urllib.parse
import xml.etree.ElementTree as ET
from .. import build, nz, nntp, tlc
from . import download as D, queue as Q

TOKENS = ['a', '"', '\\', '/', '<', '&', "'", '\n', '\t', '\x01', '\u00e9', '\u20ac', '\U0001f600', '%', ';', '&#', 'u0041', '\x7f', '\u0080', ' ', '>',
          '&amp;', '%41', ']]>']


class Bad(Exception):
    pass


# ---- encoding of requests ---------------------------------------------------------------------

def jesc(s, mode):
    o = ''
    for c in s:
        k = ord(c)
        if mode == 'raw':
            o += {'"': '\\"', '\\': '\\\\', '\n': '\\n', '\r': '\\r', '\t': '\\t', '\b': '\\b', '\f': '\\f'}.get(c) or (c if k >= 32 else '\\u%04x' % k)
        elif c in '"\\/\n\t':
            o += {'"': '\\"', '\\': '\\\\', '/': '\\/', '\n': '\\n', '\t': '\\t'}[c]
        elif k > 0xffff:
            o += '\\u%04x\\u%04x' % (0xd800 + ((k - 0x10000) >> 10), 0xdc00 + ((k - 0x10000) & 0x3ff))
        elif k < 32 or k > 126 or (mode == 'all' and not c.isalnum()):
            o += '\\u%04X' % k
        else:
            o += c
    return o


def xesc(s, mode):
    o = ''
    for c in s:
        k = ord(c)
        if mode in ('dec', 'hex') and not (k < 128 and c.isalnum()):
            o += '&#%d;' % k if mode == 'dec' else '&#x%x;' % k
        else:
            o += {'<': '&lt;', '>': '&gt;', '&': '&amp;', '"': '&quot;', "'": '&apos;'}.get(c, c)
    return o


FORMS = ['json-raw', 'json-late', 'json-esc', 'xml-raw', 'xml-dec', 'xml-hex']


def carries(form, s):
    return bool(s) and (form.startswith('json') or '\x01' not in s)


def request(form, method, params):
    """body and path of a request"""
    if form == 'jsonp':
        q = '&'.join('p%d=%s' % (i, urllib.parse.quote(jesc(p, 'all'), safe='') if isinstance(p, str) else ('true' if p else 'false') if isinstance(p, bool) else str(p))
                     for i, p in enumerate(params))
        return '/jsonprpc/%s?callback=cb&%s' % (method, q), None
    if form.startswith('json'):
        def v(x):
            if isinstance(x, str):
                return '"%s"' % jesc(x, form[5:])
            if isinstance(x, list):
                return '[%s]' % ','.join(v(y) for y in x)
            return 'true' if x is True else 'false' if x is False else str(x)
        ps = ','.join(v(p) for p in params)
        if form == 'json-late':     # other order of the members, other white space
            return '/jsonrpc', '{"jsonrpc": "2.0", "method": "%s",\r\n\t"params": [ %s ], "id": "x"}' % (method, ps.replace(',"', ' ,\n "'))
        return '/jsonrpc', '{"id":1,"method":"%s","params":[%s]}' % (method, ps)

    def v(x):
        if isinstance(x, bool):
            return '<boolean>%d</boolean>' % x
        if isinstance(x, int):
            return '<i4>%d</i4>' % x
        if isinstance(x, list):
            return '<array><data>%s</data></array>' % ''.join('<value>%s</value>' % v(y) for y in x)
        return '<string>%s</string>' % xesc(x, form[4:])
    return '/xmlrpc', '<?xml version="1.0"?><methodCall><methodName>%s</methodName><params>%s</params></methodCall>' % (
        method, ''.join('<param><value>%s</value></param>' % v(p) for p in params))


# ---- decoding of answers ------------------------------------------------------------------------

def xval(e):
    """<value> -> python"""
    k = list(e)
    if not k:
        return e.text or ''
    if len(k) != 1:
        raise Bad('value with %d elements' % len(k))
    k = k[0]
    if k.tag in ('i4', 'int'):
        return int(k.text)
    if k.tag == 'double':
        return float(k.text)
    if k.tag == 'boolean':
        if k.text not in ('0', '1', 'true', 'false'):
            raise Bad('boolean %r' % k.text)
        return k.text in ('1', 'true')
    if k.tag == 'string':
        return k.text or ''
    if k.tag == 'array':
        if [x.tag for x in k] != ['data']:
            raise Bad('array')
        return [xval(v) for v in k[0]]
    if k.tag == 'struct':
        r = []
        for m in k:
            if m.tag != 'member' or [x.tag for x in m] != ['name', 'value']:
                raise Bad('struct')
            r.append((m[0].text, xval(m[1])))
        return Pairs(r)
    raise Bad('element %s' % k.tag)


class Pairs(list):
    pass


def answer(n, form, method, params):
    """(kind, value) of the answer, strictly parsed"""
    path, body = request(form, method, params)
    try:
        st, hd, b = n.post(path, body) if body is not None else n.get(path)
    except OSError as x:
        raise Bad('no answer of %s %s(%s): %r' % (form, method, str(params)[:200], x))
    if st != 200:
        raise Bad('HTTP %d for %s %s' % (st, form, method))
    try:
        t = b.decode('utf-8')
        if form == 'jsonp':
            m = re.fullmatch(r'cb\((.*)\);?\s*', t, re.S)
            if not m:
                raise Bad('not a call')
            t = m.group(1)
        if form.startswith('json'):
            v = json.loads(t, object_pairs_hook=Pairs)
            d = dict(v)
            if 'error' in d:
                e = dict(d['error'])
                return 'error', [e['code'], e['message']]
            return 'result', d['result']
        e = ET.fromstring(b)
        if e.tag != 'methodResponse' or len(e) != 1:
            raise Bad('no methodResponse')
        if e[0].tag == 'fault':
            d = dict(xval(e[0][0]))
            return 'error', [d['faultCode'], d['faultString']]
        if e[0].tag != 'params' or [x.tag for x in e[0]] != ['param'] or [x.tag for x in e[0][0]] != ['value']:
            raise Bad('params')
        return 'result', xval(e[0][0][0])
    except (ValueError, KeyError, TypeError, ET.ParseError, Bad) as x:
        raise Bad('malformed answer of %s %s(%s): %s: %s' % (form, method, str(params)[:200], x, b[:1500]))


def call(n, form, method, *params):
    k, v = answer(n, form, method, params)
    if k == 'error':
        raise Bad('%s %s failed: %s' % (form, method, v))
    return v


codes = lambda s: [ord(c) for c in s]


def flat(v, path=''):
    if isinstance(v, Pairs):
        r = [dict(path=path, kind='d', text=[])]
        for k, x in v:
            r += flat(x, path + '/' + k)
        return r
    if isinstance(v, list):
        r = [dict(path=path, kind='l', text=[len(v)])]
        for i, x in enumerate(v):
            r += flat(x, '%s/%d' % (path, i))
        return r
    if isinstance(v, str):
        return [dict(path=path, kind='s', text=codes(v))]
    if isinstance(v, bool) or v is None:
        return [dict(path=path, kind='b', text=codes(str(v)))]
    return [dict(path=path, kind='n', text=codes('%.6g' % v if isinstance(v, float) and v != int(v) else str(int(v))))]


# ---- sessions ----------------------------------------------------------------------------------

def params_of(v):
    """parameters of the only collection, in order of the numbers in their names"""
    g = dict(v[0])
    ps = [(dict(p)['Name'], dict(p)['Value']) for p in g['Parameters']]
    return [x for _, x in sorted((int(k[1:]), x) for k, x in ps if re.fullmatch('v\\d+', k))]


READ = {'json': 'json-raw', 'jsonp': 'jsonp', 'xml': 'xml-raw'}
NZB = base64.b64encode(Q.nzb_of('x', [('f.bin', [100], [], 1500000000)]).encode()).decode()


def bulk(env, job):
    """parameters of a collection carry the texts"""
    form, chunks, seed = job
    ev, err = [], None
    with nz.Nz(env[0], env[1], opts={'DupeCheck': 'no'}) as n:
        n.argv = ['-P']
        try:
            n.start()
            for ts in chunks:
                flatp = []
                for i, s in enumerate(ts):
                    flatp += ['v%d' % i, s]
                ident = call(n, form, 'append', 'n.nzb', NZB, '', 0, False, False, '', 0, 'SCORE', *flatp)
                if ident <= 0:
                    raise Bad('not added')
                ev.append(dict(e='set', form=form, items=[dict(text=codes(s)) for s in ts]))
                for a, f in READ.items():
                    ev.append({'e': 'got', 'as': a, 'items': [dict(text=codes(x)) for x in params_of(call(n, f, 'listgroups', 0))]})
                if not call(n, form, 'editqueue', 'GroupFinalDelete', '', [ident]):
                    raise Bad('not deleted')
        except (nz.Dead, nz.RpcError, Bad, OSError) as x:
            err = str(x)
    return dict(ev=ev), err


def channels(env, job):
    """every place which takes a text: parameter, its name, category, dupe key, log message, name of an extension option"""
    texts, seed = job
    r = random.Random(seed)
    ev, err = [], None
    with nz.Nz(env[0], env[1], opts={'DupeCheck': 'no', 'LogBuffer': '100', 'WriteLog': 'append'}) as n:
        n.argv = ['-P']
        try:
            n.start()
            ident = call(n, 'json-raw', 'append', 'n.nzb', NZB, '', 0, False, False, '', 0, 'SCORE')
            for _ in range(len(texts) // 8):
                form = r.choice(FORMS + ['jsonp'])
                pick = lambda: r.choice([s for s in (r.choice(texts) for _ in range(20)) if carries('json' if form == 'jsonp' else form, s)])
                val, cat, key, log = pick(), pick(), pick(), pick()
                pname = pick().replace('=', '') + 'n'
                if form == 'jsonp':
                    pname, cat, key = 'n', 'c', 'k'      # no lists in GET requests: only the log
                    call(n, 'json-raw', 'editqueue', 'GroupSetParameter', 'n=' + val, [ident])
                    call(n, 'json-raw', 'editqueue', 'GroupSetCategory', cat, [ident])
                    call(n, 'json-raw', 'editqueue', 'GroupSetDupeKey', key, [ident])
                else:
                    for cmd, s in (('Parameter', pname + '=' + val), ('Category', cat), ('DupeKey', key)):
                        if not call(n, form, 'editqueue', 'GroupSet' + cmd, s, [ident]):
                            raise Bad('%s not set' % cmd)
                call(n, form, 'writelog', 'INFO', log)
                ev.append(dict(e='set', form='json-raw' if form == 'jsonp' else form, items=[dict(text=codes(s)) for s in (val, pname, cat, key, log)]))
                for a, f in READ.items():
                    g = dict(call(n, f, 'listgroups', 0)[0])
                    ps = [(dict(p)['Name'], dict(p)['Value']) for p in g['Parameters']]
                    p = [x for x in ps if x[0] != '*Unpack:'] or [('', '')]
                    m = [dict(x)['Text'] for x in call(n, f, 'log', 0, 100) if dict(x)['Kind'] == 'INFO' ]
                    ev.append({'e': 'got', 'as': a, 'items': [dict(text=codes(x)) for x in (p[0][1], p[0][0], g['Category'], g['DupeKey'], m[-1])]})
                if not call(n, 'json-esc', 'editqueue', 'GroupSetParameter', pname + '=', [ident]):
                    raise Bad('not erased')
        except (nz.Dead, nz.RpcError, Bad, IndexError, OSError) as x:
            err = str(x)
    return dict(ev=ev), err


VOLATILE = re.compile('/(ThreadCount|FreeDiskSpace.*|ServerTime|UpTimeSec|AverageDownloadRate|CustomTime|DataTime)$')


def methods(r, n):
    ids = [g['NZBID'] for g in n.groups()] + [h['NZBID'] for h in n.history(True)]
    b = lambda: r.random() < .5
    i = r.choice(ids + [99999])
    m = [('version',), ('status',), ('listgroups', r.choice([0, 5])), ('listgroups',), ('listfiles', 0, 0, r.choice([0, i])), ('listfiles',), ('history', True),
         ('history', False), ('history',), ('postqueue', 0), ('postqueue', 10), ('urlqueue',), ('log', 0, 500), ('log', r.randint(1, 30), 0), ('loadlog', i, 0, 50),
         ('config',), ('loadconfig',), ('configtemplates', b()), ('feeds',), ('system.listMethods',), ('nosuchmethod',), ('viewfeed', 1, b()), ('viewfeed', 5, False),
         ('logscript', 0, 10), ('logupdate', 0, 10), ('editqueue', 'GroupNoSuch', '', [1]), ('editqueue',), ('editqueue', 'GroupPause'),
         ('append',), ('append', 'x'), ('saveconfig',), ('loadlog',), ('rate', 'x'), ('writelog', 'NOSUCH', 'x'), ('scheduleresume',), ('resetservervolume', 0, 'x'),
         ('startscript',), ('testserver', '127.0.0.1', 9, '', '', False, '', 1), ('testserver',), ('editserver', 1), ('previewfeed',), ('servervolumes',),
         ('servervolumes', b(), b(), b(), b()), ('servervolumes', b(), b(), b(), False), ('viewfeed',), ('startupdate', 'x'), ('resetservervolume', 9, 'CUSTOM')]
    return r.sample(m, 24)


def answers(env, seed):
    """the same question in both formats, in rich states"""
    r = random.Random(seed)
    ev, err = [], None
    hard = ['\u00dcn\u00ef', 'a & b', "o'c", '100% %s', '\u65e5', '\U0001f600', '"q"', '\\', '\x01', '\t']
    srv = nntp.Server('s1')
    with nz.Nz(env[0], env[1], opts={'DupeCheck': r.choice(['yes', 'no']), 'UrlRetries': '1', 'UrlTimeout': '5', 'ParCheck': 'manual', 'KeepHistory': '30',
                                     'Category2.Name': 'K\u00e4t "x" <y> & z', 'Task1.Time': '*:30', 'Task1.Command': 'PauseDownload', 'WriteLog': 'append'},
               extra=srv.conf(1, 2) + ['Feed1.Name=F \u00fc & <>', 'Feed1.URL=http://127.0.0.1:9/f?a=b&c=<"\'', 'Feed1.Interval=0', 'Feed1.Filter=A: x & y%R: "<z>"']) as n:
        n.argv = ['-P']
        try:
            n.start()
            for step in range(8):
                x = r.random()
                gs, hs = n.groups(), n.history(True)
                if x < .4 or not gs:
                    fs = [('%sf%d.%s' % (r.choice(hard), i, r.choice(['bin', 'rar', 'vol0+1.par2'])), [r.randint(50, 3000) for _ in range(r.randint(1, 3))], [], 1500000000 + i)
                          for i in range(r.randint(1, 4))]
                    n.append(r.choice(hard) + str(step) + '.nzb', Q.nzb_of('p%d' % step, fs), r.choice(['', 'movies'] + hard), r.choice([0, 50, -50, 900]), False, r.random() < .5,
                             r.choice(['', r.choice(hard)]), r.choice([0, 5]), r.choice(['SCORE', 'ALL', 'FORCE']), [(r.choice(hard) + 'p', r.choice(hard)) for _ in range(r.randint(0, 3))])
                elif x < .5:
                    n.append(r.choice(hard) + '.nzb', 'http://127.0.0.1:9/%s?a=<b>&c="%%20' % r.choice(hard), r.choice(hard))
                elif x < .7:
                    n.edit(r.choice(['GroupDelete', 'GroupParkDelete', 'GroupDupeDelete', 'GroupPause', 'GroupPauseAllPars', 'GroupResume']), '', [r.choice(gs)['NZBID']])
                elif x < .8 and hs:
                    n.edit(r.choice(['HistoryDelete', 'HistoryMarkBad', 'HistoryMarkGood', 'HistorySetName']), r.choice(hard), [r.choice(hs)['NZBID']])
                elif x < .9:
                    n.call('writelog', r.choice(['INFO', 'WARNING', 'ERROR', 'DETAIL', 'DEBUG']), ''.join(r.choice(hard) for _ in range(r.randint(0, 3))))
                else:
                    n.call('resumedownload')
                    n.wait(lambda: not any(g['Status'] in ('DOWNLOADING', 'QUEUED') for g in n.groups()), r.choice([.1, .5]))
                    n.call('pausedownload')
                n.wait(lambda: not any(g['ActiveDownloads'] or g['Status'] not in ('QUEUED', 'PAUSED') for g in n.groups()), 4)
                for m in methods(r, n):
                    ask = lambda f: (lambda k, v: flat([k, v]))(*answer(n, f, m[0], m[1:]))
                    j1, xx, j2 = ask('json-raw'), ask('xml-raw'), ask('json-esc')
                    if m[0] in ('readurl', 'testserver', 'writelog', 'editqueue', 'viewfeed'):   # each call writes a message
                        j2 = j1
                    if len(j1) == len(j2) == len(xx):
                        keep = [i for i in range(len(j1)) if j1[i] == j2[i] and not VOLATILE.search(j1[i]['path'])]
                        j1, xx = [j1[i] for i in keep], [xx[i] for i in keep]
                    elif len(j1) != len(j2):
                        continue        # it changed meanwhile
                    ev.append(dict(e='same', m=str(m), a=j1, b=xx))
        except (nz.Dead, nz.RpcError, Bad, OSError) as x:
            err = str(x)
    srv.close()
    # leave only what differs to keep the traces small: equal texts without special characters say nothing
    return dict(ev=[small(e) for e in ev]), err


def small(e):
    if e['e'] != 'same' or len(e['a']) != len(e['b']):
        return e
    keep = [i for i in range(len(e['a'])) if e['a'][i] != e['b'][i] or any(c < 32 or c > 126 for c in e['a'][i]['text'])][:400]
    return dict(e, a=[e['a'][i] for i in keep], b=[e['b'][i] for i in keep])


def p25(ctx):
    env = build.build()
    r = random.Random(ctx.seed)
    mx = ctx.pick(3, 4)
    rc, out, res = tlc.run('TextGen', 'SPECIFICATION Spec\nINVARIANT ViewInv\nCHECK_DEADLOCK FALSE\n',
                           [dict(tokens=[codes(t) for t in TOKENS], max=mx)], workers=6, timeout=600, heap='6g')
    if 'texts.json' not in res:
        raise tlc.TlcError(tlc.errors(out))
    g, d = tlc.stats(out)
    ctx.model('TextGen', 'No error has been found' in out, g, d, out)
    texts = sorted({''.join(TOKENS[i - 1] for i in x) for x in json.loads(res['texts.json'])})
    r.shuffle(texts)
    jobs = []
    given = 0
    for f in FORMS:
        ts = [s for s in texts if carries(f, s)]
        if mx == 4:
            ts = ts[:60000]
        given += len(ts)
        ch = [ts[i:i + 150] for i in range(0, len(ts), 150)]
        jobs += [('bulk', (f, ch[i:i + 12], i)) for i in range(0, len(ch), 12)]
    jobs += [('channels', (r.sample(texts, 400), ctx.seed * 1000 + i)) for i in range(ctx.pick(16, 200))]
    jobs += [('answers', ctx.seed * 1000 + 500 + i) for i in range(ctx.pick(24, 300))]
    fn = lambda j: {'bulk': bulk, 'channels': channels, 'answers': answers}[j[0]](env, j[1])
    with cf.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(fn, jobs))
    ctx.cov['texts'] = given
    D.validate(ctx, 'TextTrace', '', [j if j[0] == 'answers' else (j[0], str(j[1])[:300]) for j in jobs] if False else jobs, res, fn, ' ')
