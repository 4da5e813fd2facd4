import calendar, datetime, fnmatch, hashlib, io, json, os, pathlib, stat, sys
import numpy as np
from dv.ctx import contract
from contracts.c26 import Patched, Entry, put, calmonth, ym
import gravity_toolkit.utilities as U
from gravity_toolkit.harmonics import harmonics
from gravity_toolkit.spatial import spatial
from gravity_toolkit.geocenter import geocenter
N = 'gravity_toolkit.utilities'
W = 'abcdefgXYZ0123456789_-+.'

@contract('rounding to even and up', [N + '.even', N + '.ceil'])
def rounding(ctx):
    v = ctx.real('v', draw=(-60.0, 60.0))
    e = U.even(v); c = U.ceil(v)
    k = ctx.floor(v * ctx.lit('0.5')) if hasattr(ctx, 'floor') else np.floor(v / 2)
    ctx.check(e <= v, 'even number below'); ctx.check(v < e + 2, 'nearest even number'); ctx.eq(e, 2 * k, 'even number', tol=0)
    ctx.check(c >= v, 'integer above'); ctx.check(c < v + 1, 'nearest integer'); ctx.eq(c, -np.floor(-v), 'integer', tol=0)

def word(ctx, name, n=12): return ''.join(ctx.rng.choice(W[:20]) for _ in range(ctx.int(name, 1, n)))
def content(ctx):
    n = ctx.choice('size', [0, 1, 100, 8191, 8192, 8193, 40000, 65537, 2 ** 20 + 1, 5 * 10 ** 6])
    return ctx.rng.randbytes(n)

@contract('digests are those of the bytes of a file', N + '.get_hash', symbolic=False, bounded='drawn files of up to five million bytes', samples=80)
def digests(ctx):
    b = content(ctx); p = pathlib.Path(ctx.tmpdir()) / word(ctx, 'name')
    a = ctx.choice('algorithm', [None, 'md5', 'sha1', 'sha256', 'sha512', 'blake2b']); kw = {} if a is None else {'algorithm': a}
    want = hashlib.new(a or 'md5', b).hexdigest()
    ctx.check(U.get_hash(p, **kw) == '' and U.get_hash(str(p), **kw) == '', 'no digest of missing files')
    p.write_bytes(b)
    ctx.check(U.get_hash(p, **kw) == want, 'digest of a path'); ctx.check(U.get_hash(str(p), **kw) == want, 'digest of text')
    f = io.BytesIO(b); f.seek(len(b) // 2); ctx.check(U.get_hash(f, **kw) == want, 'digest of bytes in memory')
    ctx.check(p.read_bytes() == b, 'file is unchanged'); ctx.check(U.get_hash(None, **kw) == '' and U.get_hash(['x'], **kw) == '', 'no digest of other objects')
    for v in (p, str(p), io.BytesIO(b)): ctx.raises((ValueError,), lambda: U.get_hash(v, algorithm='none such'), 'unknown algorithm')

@contract('copies have the bytes and times of their files', [N + '.copy', N + '.create_unique_file'], symbolic=False, bounded='drawn files of up to five million bytes', samples=80)
def copies(ctx):
    b = content(ctx); d = pathlib.Path(ctx.tmpdir()); p, q = d / ('a' + word(ctx, 'name')), d / ('b' + word(ctx, 'other'))
    how = ctx.choice('how', [str, pathlib.Path]); p.write_bytes(b); t = 1.0e9 + ctx.int('t', 0, 10 ** 8); os.utime(p, (t, t)); m = ctx.choice('mode', [0o600, 0o644, 0o755]); p.chmod(m)
    if ctx.choice('present', [True, False]): q.write_bytes(b'old contents')
    move = ctx.choice('move', [None, False, True])
    U.copy(how(p), how(q), **({} if move is None else {'move': move}))
    ctx.check(q.read_bytes() == b, 'bytes of the copy'); s = q.stat(); ctx.check(s.st_mtime == t and stat.S_IMODE(s.st_mode) == m, 'time and permissions of the copy')
    ctx.check(p.exists() != bool(move), 'the file moves only if asked for')
    if not move: ctx.check(p.read_bytes() == b, 'file is unchanged')
    # names that are free
    stem, sfx = 'c' + word(ctx, 'stem').replace('.', ''), ctx.choice('suffix', ['', '.txt', '.nc']); k = ctx.int('taken', 0, 4)
    have = [stem + sfx] + ['%s_%d%s' % (stem, i, sfx) for i in range(1, 6)]
    for i in range(k): (d / have[i]).write_bytes(b'taken %d' % i)
    f = U.create_unique_file(how(d / have[0])); f.write(b); f.close()
    ctx.check(pathlib.Path(f.name) == d / have[k] and (d / have[k]).read_bytes() == b, 'first free name')
    ctx.check(all((d / have[i]).read_bytes() == b'taken %d' % i for i in range(k)), 'files present are kept')

@contract('paths are split, joined and relative to their roots', [N + '.' + k for k in ('url_split', 's3_bucket', 's3_key', 'get_data_path', 'convert_arg_line_to_args')], symbolic=False, bounded='drawn names', samples=150)
def paths(ctx):
    import posixpath
    kind = ctx.choice('scheme', ['http://', 'https://', 'ftp://', 's3://', '']); n = ctx.int('parts', 1, 6)
    parts = [word(ctx, 'part %d' % i) for i in range(n)]
    x = U.url_split(kind + '/'.join(parts))
    ctx.check(list(x) == [kind + parts[0]] + parts[1:], 'parts of the path'); ctx.check(posixpath.join(*x) == kind + '/'.join(parts), 'joined again')
    if n > 1: ctx.check(U.s3_bucket('s3://' + '/'.join(parts)) == parts[0], 'bucket'); ctx.check(U.s3_key('s3://' + '/'.join(parts)) == '/'.join(parts[1:]), 'key')
    root = pathlib.Path(U.__file__).absolute().parent
    for v in (parts, '/'.join(parts), pathlib.Path('/'.join(parts))): ctx.check(U.get_data_path(v) == root.joinpath(*parts), 'path within the package')
    # arguments of a line
    args = [word(ctx, 'arg %d' % i) for i in range(ctx.int('args', 0, 5))]; note = ctx.choice('comment', ['', '# a comment --x', '#']); gap = ctx.choice('gap', [' ', '  ', '\t'])
    ctx.check(list(U.convert_arg_line_to_args(gap.join(args) + (gap if args else '') + note)) == args, 'arguments without comments')

@contract('names are found without case and shortened to the home directory', ['gravity_toolkit.%s.%s.%s' % (m, m, k) for m in ('harmonics', 'spatial', 'geocenter') for k in ('case_insensitive_filename', 'compressuser') if m != 'geocenter' or k != 'compressuser'], symbolic=False, bounded='drawn names', samples=120)
def found(ctx):
    C = ctx.choice('object', [harmonics, spatial, geocenter]); d = pathlib.Path(ctx.tmpdir()) / 'case'; os.makedirs(d)
    w = 'q' + word(ctx, 'name', 8) + ctx.choice('suffix', ['', '.txt', '.nc']); how = ctx.choice('how', [str, pathlib.Path])
    other = [w + '.bak', 'x' + w, w[:-1], w.replace('.', '_') if '.' in w else w + '_', w + '~']
    for v in other:
        if ctx.rng.random() < 0.6: (d / v).write_text('other')
    mine = ''.join(ctx.rng.choice([str.upper, str.lower])(k) for k in w)
    x = C()
    if ctx.choice('present', [True, True, False]):
        (d / mine).write_text('mine')
        x.case_insensitive_filename(how(d / w))
        ctx.check(pathlib.Path(x.filename) == d / mine, 'the file of the name')
    else: ctx.raises((FileNotFoundError,), lambda: x.case_insensitive_filename(how(d / w)), 'missing files are refused')
    ctx.check(C().case_insensitive_filename(ctx.choice('nothing', [None, ''])).filename is None, 'no name')
    if C is geocenter: return
    home = pathlib.Path.home(); rel = pathlib.Path(*[word(ctx, 'dir %d' % i) for i in range(ctx.int('dirs', 1, 3))])
    ctx.check(pathlib.Path(C().compressuser(how(home / rel))) == pathlib.Path('~') / rel and C().compressuser(how(home / rel)).expanduser() == home / rel, 'within the home directory')
    ctx.check(pathlib.Path(C().compressuser(how(d / w))) == d / w, 'elsewhere')

@contract('times are those named', [N + '.get_unix_time', N + '.isoformat'], symbolic=False, bounded='drawn dates from 1970 to 2100', samples=150)
def times(ctx):
    t = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=ctx.int('s', 0, 4102444800)); sec = (t - datetime.datetime(1970, 1, 1)).total_seconds()
    f = ctx.choice('format', [None, '%Y-%m-%d %H:%M', '%Y%m%d%H%M%S', '%Y-%m-%dT%H:%M:%S.%fZ', '%d-%b-%Y %H:%M'])
    x = U.get_unix_time(t.strftime(f or '%Y-%m-%d %H:%M:%S') + ctx.choice('end', ['', ' ', '\n']), **({} if f is None else {'format': f}))
    ctx.check(x == (sec if f is None or '%S' in f else sec - t.second), 'seconds since 1970')
    ctx.check(U.get_unix_time(t.strftime('%Y-%m-%dT%H:%M:%S+00:00')) == sec, 'other formats'); ctx.check(U.isoformat(t.strftime('%d %b %Y %H:%M:%S')) == t.isoformat(), 'date in ISO format')
    for v in ('no date', '20x1'): ctx.check(U.get_unix_time(v) is None and U.isoformat(v) is None, 'no date')

class Web:
    """stands in for urllib.request: responses of a host"""
    class HTTPError(Exception): pass
    class URLError(Exception): pass
    def __init__(self, pages): self.pages, self.asked = pages, []
    class Request:
        def __init__(self, url): self.url, self.headers = url, {}
        def add_header(self, k, v): self.headers[k] = v
    def urlopen(self, r, timeout=None, context=None):
        self.asked.append(r.url)
        if r.url not in self.pages: raise Web.URLError(r.url)
        return io.BytesIO(self.pages[r.url])
    def HTTPCookieProcessor(self, j): return None
    def HTTPSHandler(self, context=None): return None
    def build_opener(self, *h):
        web = self
        class Opener:
            def open(self, r):
                web.asked.append(r.url); x = web.query(r)
                f = io.BytesIO(json.dumps(x[0]).encode()); f.info = lambda: x[1]
                return f
        return Opener()

class Ftp:
    """stands in for ftplib: files of a host"""
    class error_perm(Exception): pass
    def __init__(self, host, files): self.host, self.files, self.closed = host, files, 0
    def FTP(self, host, timeout=None):
        if host != self.host: raise IOError(host)
        return self
    def login(self, u, p): self.who = (u, p)
    def nlst(self, d): return [k for k in self.files if os.path.dirname(k) == d]
    def sendcmd(self, c):
        f = c.split(' ', 1)[1]
        if self.files[f] is None: raise Ftp.error_perm(f)
        return '213 ' + self.files[f][1]
    def retrbinary(self, c, write, blocksize=0):
        b = self.files[c.split(' ', 1)[1]][0]
        for i in range(0, len(b), blocksize): write(b[i:i + blocksize])
    def close(self): self.closed += 1

@contract('listings of a host give the matching names with their times', [N + '.' + k for k in ('http_list', 'ftp_list', 'icgem_list')], symbolic=False, bounded='drawn listings of up to 8 names; the host enters by a stand-in', samples=120)
def listings(ctx):
    import re
    n = ctx.int('n', 0, 8); names = list(dict.fromkeys(word(ctx, 'name %d' % i) + ctx.rng.choice(['.gz', '.txt', '', '/']) for i in range(n)))
    t = [datetime.datetime(2002, 1, 1) + datetime.timedelta(minutes=ctx.rng.randrange(10 ** 7)) for _ in names]
    sec = [(v - datetime.datetime(1970, 1, 1)).total_seconds() for v in t]
    pattern = ctx.choice('pattern', ['', r'gz$', r'^a|b', r'\d{2}']); sort = ctx.choice('sort', [False, True]); listed = ctx.choice('host as', ['list', 'text'])
    kind = ctx.choice('kind', ['http', 'ftp', 'icgem'])
    want = [(a, b) for a, b in zip(names, sec) if not pattern or re.search(pattern, a)]
    if sort: want.sort(key=lambda v: v[0])
    kw = dict(sort=sort); kw.update({'pattern': pattern} if pattern else {})
    if kind == 'http':
        html = '<html><body><table><tr><th><a href="?C=N">Name</a></th><th>Last</th></tr>' + ''.join('<tr><td valign="top"><img src="x"></td><td><a href="%s">%s</a></td><td align="right">%s  </td><td align="right">1.2M</td></tr>' % (a, a, b.strftime('%Y-%m-%d %H:%M')) for a, b in zip(names, t)) + '</table></body></html>'
        web = Web({'https://host/data/x': html.encode()})
        with Patched(ctx, {(N, 'urllib2'): web}):
            x = U.http_list(['https://host', 'data', 'x'] if listed == 'list' else 'https://host/data/x', **kw)
            ctx.raises((Exception,), lambda: U.http_list(['https://host', 'none']), 'missing pages are refused')
        ctx.check(list(zip(*x)) == want and web.asked[0] == 'https://host/data/x', 'names and times')
    elif kind == 'ftp':
        names = [v.rstrip('/') for v in names]; names = list(dict.fromkeys(names)); m = {v: k for v, k in zip(names, range(len(names)))}
        folder = {v: ctx.rng.random() < 0.2 for v in names}; base = ctx.choice('basename', [False, True])
        files = {'data/x/' + v: None if folder[v] else (b'', t[m[v]].strftime('%Y%m%d%H%M%S')) for v in names}
        ftp = Ftp('host', files)
        with Patched(ctx, {(N, 'ftplib'): ftp}): x = U.ftp_list(['host', 'data', 'x'] if listed == 'list' else 'ftp://host/data/x' if False else ['host', 'data', 'x'], basename=base, **kw)
        full = [(v if base else 'data/x/' + v, None if folder[v] else sec[m[v]]) for v in names]
        want = [q for q in full if not pattern or re.search(pattern, q[0])]
        if sort: want.sort(key=lambda v: v[0])
        ctx.check(list(zip(*x)) == want and ftp.closed == 1, 'names and times')
    else:
        gfc = ['model%d' % i for i in range(n)]
        html = '<table>' + ''.join('<tr><td class="tom-cell-modelfile"><a href="%s">gfc</a><a href="/x/%s.zip">zip</a></td><td><a href="/y/%s.gfc">n</a></td></tr>' % ('/getmodel/gfc/%d/%s.gfc' % (i, v), v, v) for i, v in enumerate(gfc)) + '</table>'
        web = Web({'http://icgem.gfz-potsdam.de/tom_longtime': html.encode()})
        with Patched(ctx, {(N, 'urllib2'): web}): x = U.icgem_list()
        ctx.check(list(x) == gfc and all(list(x[v]) == ['getmodel', 'gfc', str(i), v + '.gfc'] for i, v in enumerate(gfc)), 'models and their files')

@contract('transfers give the bytes of the host', [N + '.' + k for k in ('from_http', 'from_ftp', 'from_json')], symbolic=False, bounded='drawn files of up to five million bytes; the host enters by a stand-in', samples=100)
def transfers(ctx):
    b = content(ctx); kind = ctx.choice('kind', ['http', 'ftp', 'json']); host = ['https://host', 'data', 'f.gz']; log = io.StringIO()
    if kind == 'json':
        v = {'a': [1, 2, word(ctx, 'v')], 'b': None}
        with Patched(ctx, {(N, 'urllib2'): Web({'https://host/data/f.gz': json.dumps(v).encode()})}):
            ctx.check(U.from_json(ctx.choice('host as', [host, '/'.join(host)])) == v, 'contents'); ctx.raises((Exception,), lambda: U.from_json(['https://host', 'none']), 'missing pages are refused')
        return
    p = pathlib.Path(ctx.tmpdir()) / 'deep' / 'er' / 'local.gz'; state = ctx.choice('local', ['none', 'new', 'same', 'other', 'stale'])
    if state in ('same', 'other', 'stale'):
        os.makedirs(p.parent); p.write_bytes(b if state == 'same' else b'old' + b[:10])
        os.utime(p, (5e8, 5e8))
    kw = {} if state == 'none' else {'local': ctx.choice('how', [str, pathlib.Path])(p), 'hash': U.get_hash(p)}
    if ctx.choice('chunk', [False, True]): kw['chunk'] = 1000
    with Patched(ctx, {(N, 'urllib2'): Web({'https://host/data/f.gz': b}), (N, 'ftplib'): Ftp('host', {'data/f.gz': (b, '20100305060708')})}):
        x = U.from_http(ctx.choice('host as', [host, '/'.join(host)]), fid=log, **kw) if kind == 'http' else U.from_ftp(['host', 'data', 'f.gz'], fid=log, **kw)
        if kind == 'http': ctx.raises((Exception,), lambda: U.from_http(['https://host', 'none'], fid=log), 'missing files are refused')
        else: ctx.raises((RuntimeError,), lambda: U.from_ftp(['no', 'none'], fid=log), 'missing hosts are refused')
    ctx.check(x.read() == b and x.filename == 'f.gz', 'bytes and name')
    if state == 'none': ctx.check(not p.parent.exists(), 'nothing is written')
    else:
        ctx.check(p.read_bytes() == b, 'bytes of the local file')
        m = p.stat().st_mtime
        if state == 'same': ctx.check(m == 5e8, 'files with the digest are left')
        elif kind == 'ftp': ctx.check(m == calendar.timegm((2010, 3, 5, 6, 7, 8)), 'time of the remote file')

@contract('patterns select the files of a product', [N + '.' + k for k in ('compile_regex_pattern', 'cmr_product_shortname', 'cmr_readable_granules')], symbolic=False, bounded='listed products, drawn names', samples=200)
def patterns(ctx):
    proc = ctx.choice('centre', ['CSR', 'GFZ', 'JPL']); dset = ctx.choice('product', ['GSM', 'GSM', 'GAC', 'GAA', 'GAB', 'GAD']); mission = ctx.choice('mission', ['GRAC', 'GRFO']); who = {'CSR': 'UTCSR', 'GFZ': 'GFZOP', 'JPL': 'JPLEM'}
    sol = ctx.choice('solution', ['BA01', 'BB01', 'BC01']); ver = ctx.choice('version', [None, 0, 2, '1', '03'])
    g = ctx.int('month', 4, 250); y, m = ym(g); span = '%04d%03d-%04d%03d' % (y, 1, y, 31)
    def name(d=dset, mi=mission, w=who[proc], s=sol, v=0): return '%s-2_%s_%s_%s_%s_06%02d' % (d, span, mi, w, s, v)
    rx = U.compile_regex_pattern(proc, 'RL06', dset, mission=mission, solution=sol, **({} if ver is None else {'version': ver}))
    hit = lambda v: rx.search(v) is not None
    for v in (0, 1, 2, 3, 11):
        for sfx in ('', '.gz'): ctx.check(hit(name(v=v) + sfx) == (dset != 'GSM' or ver is None or int(ver) == v), 'versions of the product')
    ctx.check(not hit(name(mi='GRFO' if mission == 'GRAC' else 'GRAC')), 'files of the other mission')
    for d in ('GSM', 'GAC', 'GAA', 'GAB', 'GAD'):
        if d != dset: ctx.check(not hit(name(d=d)), 'files of other products')
    if dset == 'GSM':
        for s in ('BA01', 'BB01', 'BC01'):
            if s != sol: ctx.check(not hit(name(s=s)), 'files of other solutions')
        for c in who:
            if c != proc: ctx.check(not hit(name(w=who[c])), 'files of other centres')
        ctx.check(not hit(name() + '.gz.aux'), 'files about files')
    for rel, good, bad in (('RL05', {'CSR': '%s-2_%s_0030_UTCSR_0060_0005.gz', 'GFZ': '%s-2_%s_0030_EIGEN_G---_005a.gz', 'JPL': '%s-2_%s_0030_JPLEM_0001_0005.gz'}, {'CSR': '%s-2_%s_0030_UTCSR_0096_0005.gz', 'GFZ': '%s-2_%s_0030_EIGEN_G---_0005.gz', 'JPL': '%s-2_%s_0030_JPLEM_0001_0004.gz'}),
            ('RL04', {'CSR': '%s-2_%s_0030_UTCSR_0060_0004', 'GFZ': '%s-2_%s_0030_EIGEN_G---_0004', 'JPL': '%s-2_%s_0030_JPLEM_0001_0004'}, {'CSR': '%s-2_%s_0030_UTCSR_0060_0005', 'GFZ': '%s-2_%s_0030_EIGEN_GK2-_0004', 'JPL': '%s-2_%s_0030_JPLEM_0001_0005'})):
        r = U.compile_regex_pattern(proc, rel, 'GSM')
        ctx.check(r.search(good[proc] % ('GSM', span)) is not None and r.search(bad[proc] % ('GSM', span)) is None, 'files of earlier releases')
    r = U.compile_regex_pattern('CNES', 'RL01', dset); ctx.check(r.search('%s-2_%s_0010_GRGS_VER4_0001.txt.gz' % (dset, span)) is not None and r.search('%s-2_%s_0030_UTCSR_0060_0005.gz' % (dset, span)) is None, 'files of CNES')
    for v in (dict(mission='X'), ): ctx.raises((ValueError,), lambda: U.compile_regex_pattern(proc, 'RL06', dset, **v), 'unknown mission')
    ctx.raises((ValueError,), lambda: U.compile_regex_pattern('X', 'RL06', dset), 'unknown centre'); ctx.raises((ValueError,), lambda: U.compile_regex_pattern(proc, 'RL06', 'X'), 'unknown product')
    # names of a product in the metadata repository
    pr = ctx.choice('products', [None, 'GSM', ['GSM', 'GAD'], ['GAA', 'GAC']]); kw = {} if pr is None else {'product': pr}
    x = U.cmr_product_shortname('grace', proc, 'RL06', **kw)
    ctx.check(x == ['%s_L2_GRAV_%s_RL06' % (v, proc) if False else 'GRACE_%s_L2_GRAV_%s_RL06' % (v, proc) for v in ([pr] if isinstance(pr, str) else pr or ['GAA', 'GAB', 'GAC', 'GAD', 'GSM']) if proc != 'CSR' or v not in ('GAA', 'GAB')], 'names of GRACE products')
    v = ctx.choice('level two version', ['0', '2', '3']); ctx.check(U.cmr_product_shortname('grace-fo', proc, 'RL06', version=v) == ['GRACEFO_L2_%s_MONTHLY_006%s' % (proc, v)], 'names of GRACE-FO products')
    for bad in (('x', proc, 'RL06'), ('grace', 'x', 'RL06'), ('grace', proc, 'RL03')): ctx.raises((Exception,), lambda: U.cmr_product_shortname(*bad), 'unknown products')
    q = U.cmr_readable_granules(dset, solution=sol, version=v); s = sol if dset == 'GSM' else 'BC01'
    ctx.check(fnmatch.fnmatchcase(name(s=s, v=int(v)), q) and not fnmatch.fnmatchcase(name(s=s, v=int(v) + 1), q) and not fnmatch.fnmatchcase(name(s='BX01', v=int(v)), q), 'pattern of granules')
    ctx.check(fnmatch.fnmatchcase('AOD1B_2004-01-01_X_06.asc.gz', U.cmr_readable_granules('AOD1B', level='L1B')) and fnmatch.fnmatchcase('grace_1B_2004.tgz', U.cmr_readable_granules('GSM', level='L1A')), 'pattern of level one')

@contract('queries give the granules of every page', [N + '.' + k for k in ('cmr', 'cmr_metadata', 'cmr_filter_json', 'cmr_metadata_json')], symbolic=False, bounded='drawn responses of up to 4 pages; the host enters by a stand-in', samples=100)
def queries(ctx):
    rel = {k: 'http://esipfed.org/ns/fedsearch/1.1/%s#' % k for k in ('data', 's3', 'documentation')}; end = ctx.choice('endpoint', ['data', 's3'])
    pages = []; want = []
    for k in range(ctx.int('pages', 0, 4)):
        e = []
        for i in range(ctx.rng.randint(1, 4)):
            t = datetime.datetime(2003, 1, 1) + datetime.timedelta(seconds=ctx.rng.randrange(10 ** 8)); n = 'G%d_%d' % (k, i)
            links = [{'rel': rel[r], 'href': '%s://%s/%d' % (r, n, j)} for r in rel for j in range(2)]; ctx.rng.shuffle(links)
            e.append({'title': n, 'updated': t.strftime('%Y-%m-%dT%H:%M:%S.123Z'), 'links': links}); want.append((n, [v['href'] for v in links if v['rel'] == rel[end]][0], calendar.timegm(t.timetuple())))
        pages.append({'feed': {'entry': e}})
    # pages of the repository carry a header until one is empty
    web = Web({}); at = [0]
    last = ctx.choice('last page', [{'feed': {'entry': []}}, {'feed': {}}, {}])
    def query(r):
        ctx.check(r.headers.get('CMR-Search-After') == (None if at[0] == 0 else 'token %d' % at[0]), 'pages follow each other')
        k = at[0]; at[0] += 1
        return (pages[k], {'CMR-Search-After': 'token %d' % at[0]}) if k < len(pages) else (last, {})
    web.query = query
    start = ctx.choice('start', [None, '2004-01-01']); stop = ctx.choice('stop', [None, '2005-02-03T00:00:00'])
    with Patched(ctx, {(N, 'urllib2'): web}):
        x = U.cmr(mission='grace', center='JPL', release='RL06', product='GSM', start_date=start, end_date=stop, endpoint=end, fid=io.StringIO())
        ctx.check([list(v) for v in x] == [[v[j] for v in want] for j in range(3)], 'granules, addresses and times of every page')
        url = web.asked[0]
        ctx.check('&temporal=%s,%s' % ('2004-01-01T00:00:00' if start else '', stop or '') in url and '&short_name=GRACE_GSM_L2_GRAV_JPL_RL06' in url and '&readable_granule_name[]=GSM-2_' in url, 'dates and names of the query')
        ctx.check('/search/granules.json?' in url and 'provider=POCLOUD' in url, 'host of the query')
        at[0] = 0; e2 = ctx.choice('metadata', ['data', 's3', 'documentation']); pattern = ctx.choice('pattern', ['', '_1/'])
        y = U.cmr_metadata(mission='grace', center='JPL', release='RL06', endpoint=e2, pattern=pattern, fid=io.StringIO())
        ctx.check('/search/collections.json?' in web.asked[-1] and 'provider=POCLOUD' in web.asked[-1] and '&short_name=GRACE_GSM_L2_GRAV_JPL_RL06' in web.asked[-1], 'query of the collection')
        v = ctx.choice('version', ['0', '2', '3']); own = ctx.choice('provider', ['POCLOUD', 'PODAAC']); at[0] = 0; web.asked = []
        for ask, kw in ((U.cmr, {'solution': 'BA01'}), (U.cmr_metadata, {})):
            ask(mission='grace-fo', center='GFZ', release='RL06', version=v, provider=own, fid=io.StringIO(), **kw)
            ctx.check('provider=' + own in web.asked[-1] and '&short_name=GRACEFO_L2_GFZ_MONTHLY_006' + v in web.asked[-1], 'names of the version asked for'); at[0] = 0
    one = (pages + [last])[0]; urls = [l['href'] for e in one.get('feed', {}).get('entry', []) for l in e['links'] if l['rel'] == rel[e2]]
    ctx.check(y == [v for v in urls if pattern in v], 'addresses of the collection')
    ctx.check(tuple(map(list, U.cmr_filter_json(last))) == ([], [], []), 'no granules of empty responses')
