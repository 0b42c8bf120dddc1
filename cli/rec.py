"""Record files, values and processes for the program monitors (standard library only)."""
import gzip, math, os, resource, shutil, signal, struct, subprocess, tempfile, zlib
from fractions import Fraction


def f32(x):
    """Nearest single-precision value of a decimal text or a number."""
    if isinstance(x, str):
        d = float(x)
        if math.isinf(d) or math.isnan(d) or d == 0:
            return d
        f = struct.unpack('<f', struct.pack('<f', d))[0] if abs(d) < 3.4028235677973366e38 else math.copysign(math.inf, d)
        if struct.unpack('<Q', struct.pack('<d', d))[0] & 0x1fffffff != 0x10000000 or math.isinf(f):
            return f
        # Halfway between two values: double rounding is avoided by comparing with the exact value.
        exact, best = Fraction(x.strip()), f
        bits = struct.unpack('<I', struct.pack('<f', f))[0]
        for b in (bits - 1, bits + 1):
            if 0 <= b < 2 ** 32:
                c = struct.unpack('<f', struct.pack('<I', b))[0]
                if math.isfinite(c) and abs(Fraction(c) - exact) < abs(Fraction(best) - exact):
                    best = c
        return best
    return struct.unpack('<f', struct.pack('<f', x))[0]


def varint(n):
    n &= (1 << 64) - 1
    out = bytearray()
    while n >= 128:
        out.append(n & 127 | 128)
        n >>= 7
    out.append(n)
    return bytes(out)


def message(fields):
    """fields: list of (number, value); int -> varint, float -> fixed32, list -> repeated floats."""
    out = b''
    for num, v in fields:
        if isinstance(v, list):
            for x in v:
                out += varint(num << 3 | 5) + struct.pack('<f', x)
        elif isinstance(v, int):
            out += varint(num << 3) + varint(v)
        else:
            out += varint(num << 3 | 5) + struct.pack('<f', v)
    return out


def delimited(messages):
    return b''.join(varint(len(m)) + m for m in messages)


def get_varint(b, p):
    n = s = 0
    while True:
        if p >= len(b) or s > 63:
            raise ValueError('truncated varint')
        c = b[p]
        p += 1
        n |= (c & 127) << s
        s += 7
        if c < 128:
            return n, p


def parse(b):
    """One message -> {field: [values]}."""
    d, p = {}, 0
    while p < len(b):
        k, p = get_varint(b, p)
        num, w = k >> 3, k & 7
        if w == 0:
            v, p = get_varint(b, p)
            if v >= 1 << 63:
                v -= 1 << 64
            d.setdefault(num, []).append(v)
        elif w == 5:
            if p + 4 > len(b):
                raise ValueError('truncated float')
            d.setdefault(num, []).append(struct.unpack('<f', b[p:p + 4])[0])
            p += 4
        elif w == 2:
            n, p = get_varint(b, p)
            if p + n > len(b) or n % 4:
                raise ValueError('bad packed field')
            d.setdefault(num, []).extend(struct.unpack('<%df' % (n // 4), b[p:p + n]))
            p += n
        else:
            raise ValueError('unexpected wire type %d' % w)
    return d


def split(b):
    out, p = [], 0
    while p < len(b):
        n, p = get_varint(b, p)
        if p + n > len(b):
            raise ValueError('truncated record')
        out.append(parse(b[p:p + n]))
        p += n
    return out


KINDS = {'price': (1, 2, 3), 'ohlc': (1, 2, 3, 4, 5, 6)}


def write_file(path, kind, records, rng):
    write_raw(path, encode(kind, records), rng)


def encode(kind, records):
    """records: tuples; side: (t, [signals])."""
    if kind == 'side':
        ms = [message([(1, r[0]), (2, list(r[1]))]) for r in records]
    else:
        ms = [message([(n, v) for n, v in zip(KINDS[kind], r) if v is not None]) for r in records]
    return delimited(ms)


def write_raw(path, body, rng):
    level = rng.choice((0, 1, 6, 9))
    with open(path, 'wb') as f:
        f.write(gzip.compress(body, level))


def read_file(path, kind):
    """Complete gzip members of delimited records, else ValueError."""
    raw = open(path, 'rb').read()
    body = b''
    if not raw:
        raise ValueError('empty file')
    while raw:
        d = zlib.decompressobj(31)
        body += d.decompress(raw)
        if not d.eof:
            raise ValueError('gzip stream is not complete')
        raw = d.unused_data
    out = []
    for m in split(body):
        if kind == 'side':
            if set(m) - {1, 2} or len(m.get(1, [])) != 1:
                raise ValueError('unexpected fields %s' % sorted(m))
            out.append((m[1][0], tuple(m.get(2, []))))
        else:
            if set(m) - set(KINDS[kind]) or any(len(v) != 1 for v in m.values()):
                raise ValueError('unexpected fields %s' % sorted(m))
            out.append(tuple(m.get(n, [0])[0] for n in KINDS[kind]))
    return out


def _limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.setpgid(0, 0)


def run(env, prog, flavour, args, cwd, fsize=None, timeout=60):
    """Returns (exit status or 'hang', stdout, stderr)."""
    def pre():
        _limits()
        if flavour not in ('asan', 'tsan'):
            resource.setrlimit(resource.RLIMIT_DATA, (3 << 30, 3 << 30))
        if fsize is not None:
            signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
    so, se = tempfile.TemporaryFile(), tempfile.TemporaryFile()
    if fsize is not None:
        so.close(); se.close()
        so = se = subprocess.PIPE
    p = subprocess.Popen([env['bins'][prog + '/' + flavour]] + args, cwd=cwd, env=env['san'], stdin=subprocess.DEVNULL, stdout=so, stderr=se,
                         preexec_fn=pre, restore_signals=fsize is None)
    try:
        if fsize is not None:
            o, e = p.communicate(timeout=timeout)
            rc = p.returncode
        else:
            rc = p.wait(timeout)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        return 'hang', '', ''
    if fsize is None:
        so.seek(0); se.seek(0)
        o, e = so.read(), se.read()
        so.close(); se.close()
    return rc, o.decode('utf-8', 'replace'), e.decode('utf-8', 'replace')


class Dir:
    def __init__(self, env):
        self.d = tempfile.mkdtemp(prefix='case-', dir=env['scratch'])

    def __enter__(self):
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def time_text(rng, t):
    """A documented text form of the UNIX time t (UTC)."""
    import datetime
    d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)
    forms = ['%04d-%02d-%02d %02d:%02d:%02d' % (d.year, d.month, d.day, d.hour, d.minute, d.second)]
    off = rng.choice((0, 60, -330, 765))
    e = d + datetime.timedelta(minutes=off)
    z = '%s%02d:%02d' % ('-' if off < 0 else '+', abs(off) // 60, abs(off) % 60)
    s = '%04d-%02d-%02d' % (e.year, e.month, e.day), '%02d:%02d:%02d' % (e.hour, e.minute, e.second)
    forms += ['%s %s %s' % (s[0], s[1], z), '%sT%s%s' % (s[0], s[1], z)]
    if t % 86400 == 0:
        forms.append(forms[0][:10])
    return rng.choice(forms)


def utc(t):
    import datetime
    return (datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=t)).strftime('%Y-%m-%d %H:%M:%S')
