"""Monitors of the converter program: faithful conversion (C01), rejection of
invalid input (C02), memory safety of both workloads (M01)."""
import gzip, math, os, random, re, zlib
from . import rec
from .rec import f32

FLAGS = {('price', 'csv'): '--input_price_history_csv_file', ('price', 'rec'): '--input_price_history_delimited_proto_file',
         ('ohlc', 'csv'): '--input_ohlc_history_csv_file', ('ohlc', 'rec'): '--input_ohlc_history_delimited_proto_file',
         ('side', 'csv'): '--input_side_history_csv_file'}
OUT = {'price': '--output_price_history_delimited_proto_file', 'ohlc': '--output_ohlc_history_delimited_proto_file',
       'side': '--output_side_history_delimited_proto_file'}
BASE = 1483228800   # 2017-01-01
DEF_END = 1609459200  # 2021-01-01


# ----------------------------------------------------------------- generators

def fnum(rng, x):
    """A text of about x and the single-precision value it denotes."""
    s = rng.choice(['%.2f', '%.3f', '%.6g', '%.4e', '%.8f', '%.9g', '%d']) % x
    if f32(s) <= 0 or float(s) == 0:
        s = '%.9g' % x
    if rng.random() < 0.02:
        s = '+' + s
    return s, f32(s)


def times(rng, n, start, strict):
    t, out = start, []
    style = rng.choice(['dense', 'minutes', 'gaps', 'mixed', 'mixed', 'days']) if rng.random() < 0.97 else 'eras'
    for _ in range(n):
        out.append(t)
        if style == 'dense':
            step = rng.randint(0, 3)
        elif style == 'minutes':
            step = rng.randint(0, 120)
        elif style == 'gaps':
            step = rng.choice([0, 1, 59, 60, 61, 299, 300, 301, 600, 3600])
        elif style == 'days':
            step = rng.choice([0, rng.randint(1, 100), rng.randint(1, 7200), 86399, 86400, 86401, rng.randint(86400, 3000000), 360000])
        elif style == 'eras':
            step = int(10 ** rng.uniform(0, 9.7)) if n < 10 else int(10 ** rng.uniform(0, 8))
        else:
            step = rng.choice([0, rng.randint(1, 10), rng.randint(1, 1000), rng.randint(1000, 40000)])
        if strict:
            step = max(step, 1)
        t += step
    return out


def history(rng, kind, n, start):
    """Records [(time, ...)] and CSV lines."""
    recs, lines = [], []
    price = math.exp(rng.uniform(math.log(1e-2), math.log(1e5)))
    vol = rng.choice([0.0005, 0.01, 0.1])
    nsig = rng.choice([1, 1, 2, 5, 20]) if n > 200 or rng.random() < 0.98 else rng.randint(20, 800)
    jump = rng.choice([0, 0.01, 0.05, 0.05, 0.15])
    spike = 1.0
    for t in times(rng, n, start, kind == 'side'):
        price = min(max(price * math.exp(rng.gauss(0, vol)), 1e-3), 1e7)
        if rng.random() < jump / 5:
            price *= rng.choice([0.5, 2.0])
        spike = rng.choice([0.3, 0.5, 0.9, 1.1, 2, 10]) if rng.random() < jump else (spike if spike != 1 and rng.random() < 0.5 else 1.0)
        if kind == 'price':
            p, pv = fnum(rng, price * spike)
            v, vv = ('0', 0.0) if rng.random() < 0.1 else fnum(rng, rng.expovariate(1) + 1e-3)
            recs.append((t, pv, vv))
            cols = [str(t), p, v]
        elif kind == 'ohlc':
            w = rng.choice([0, 0.001, 0.05])
            (o, ov), (c, cv) = fnum(rng, price), fnum(rng, price * math.exp(rng.gauss(0, w or 1e-9)))
            hs, hv = fnum(rng, max(ov, cv) * (1 + w))
            ls, lv = fnum(rng, min(ov, cv) / (1 + w))
            if hv < max(ov, cv):
                hs, hv = (o, ov) if ov > cv else (c, cv)
            if lv > min(ov, cv):
                ls, lv = (o, ov) if ov < cv else (c, cv)
            v, vv = ('0', 0.0) if rng.random() < 0.1 else fnum(rng, rng.expovariate(0.1) + 1e-3)
            recs.append((t, ov, hv, lv, cv, vv))
            cols = [str(t), o, hs, ls, c, v]
        else:
            sig = []
            for _ in range(nsig):
                x = rng.choice([0, 1, -1, 50, rng.gauss(0, 1), rng.gauss(0, 1e6), rng.randint(-100, 100)])
                s = rng.choice(['%d' % x, '%.3f' % x, '%.7g' % x, '%e' % x])
                sig.append((s, f32(s)))
            recs.append((t, tuple(x[1] for x in sig)))
            cols = [str(t)] + [x[0] for x in sig]
        lines.append(cols)
    return recs, lines


def write_csv(path, lines, rng, kind):
    extra = kind != 'side' and rng.random() < 0.1
    eol = '\r\n' if rng.random() < 0.1 else '\n'
    txt = eol.join(','.join(c) + (',extra' if extra else '') for c in lines)
    if lines and rng.random() < 0.9:
        txt += eol
    with open(path, 'w', newline='') as f:
        f.write(txt)


# -------------------------------------------------------------------- oracles

def remove_outliers(recs, dev):
    """Indices kept, indices removed; None when a decision is too close to call."""
    kept, removed = [], []
    for i, (t, p, v) in enumerate(recs):
        if not kept:
            kept.append(i)
            continue
        pt, ref = recs[kept[-1]][:2]
        f = (1 + dev) * math.sqrt(max(1.0, (t - pt) / 60))
        up, down = ref * f, ref / f
        if abs(p / up - 1) < 2e-6 or abs(p / down - 1) < 2e-6:
            return None
        if down <= p <= up:
            kept.append(i)
            continue
        lim = 0.8 * (up if p > up else down) + 0.2 * ref
        n = 0
        for q in recs[i + 1:i + 11]:
            if abs(q[1] / lim - 1) < 2e-6:
                return None
            n += q[1] > lim if p > up else q[1] < lim
        (kept if n >= 3 else removed).append(i)
    return kept, removed


def resample(recs, rate):
    out = []
    for t, p, v in recs:
        b = t // rate * rate
        while out and out[-1][0] + rate < b:
            c = out[-1][4]
            out.append([out[-1][0] + rate, c, c, c, c, 0.0])
        if not out or out[-1][0] < b:
            out.append([b, p, p, p, p, v])
        else:
            o = out[-1]
            o[2], o[3], o[4], o[5] = max(o[2], p), min(o[3], p), p, o[5] + v
    return [tuple(x) for x in out]


def same(a, b):
    return len(a) == len(b) and all(x == y for x, y in zip(a, b))


def same_ticks(a, b, records):
    if len(a) != len(b):
        return 'has %d ticks instead of %d' % (len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        if x[:5] != y[:5] or abs(x[5] - y[5]) > 1e-7 * (records + 2) * abs(y[5]):
            return 'tick %d is %s instead of %s' % (i, x, y)
    return None


def diff(a, b):
    i = 0
    while i < min(len(a), len(b)) and a[i] == b[i]:
        i += 1
    return '%d records instead of %d; record %d is %s instead of %s' % (len(a), len(b), i, a[i:i + 1], b[i:i + 1])


def gaps(recs, n):
    g = sorted(((a[0] - b[0]), -b[0], b[0], a[0]) for b, a in zip(recs, recs[1:]))
    return sorted((x[2], x[3]) for x in g[::-1][:n])


class Fail(Exception):
    pass


# ------------------------------------------------------------------------ C01

def window(rng, ts):
    """(start flag or None, end flag or None, lo, hi) around the times ts."""
    pick = lambda: rng.choice([ts[0], ts[-1], rng.choice(ts), rng.choice(ts) + rng.choice([-1, 0, 1]), ts[0] - rng.randint(0, 10 ** 6), ts[-1] + rng.randint(1, 10 ** 6)])
    k = rng.random()
    if k < 0.2 and ts[0] > 0:   # unbounded
        return '1970-01-01', '1970-01-01', None, None
    a, b = pick(), pick()
    if k < 0.8 and a > b:
        a, b = b, a
    if k < 0.35:
        a = ts[0] - rng.randint(0, 1000)
        b = ts[-1] + rng.randint(1, 1000)
    return a, b, a, b


def numbers(pattern, text):
    return [tuple(int(y) for y in (x if isinstance(x, tuple) else (x,))) for x in re.findall(pattern, text)]


def case_c01(rng, env, fl, ev):
    kind = rng.choice(['price', 'price', 'ohlc', 'side'])
    n = rng.choice([1, 2, 5, 20, 100, 400]) if env['tier'] == 'quick' or rng.random() < 0.97 else 20000
    n = rng.randint(1, n)
    start = rng.choice([BASE + rng.randint(0, 10 ** 8), BASE + 86400 * rng.randint(0, 1400), rng.randint(1, 10 ** 9), 2 ** 32 + rng.randint(-1000, 10 ** 9)])
    recs, lines = history(rng, kind, n, start)
    ts = [r[0] for r in recs]
    dflt = rng.random() < 0.1
    if dflt:
        args, lo, hi = [], BASE, DEF_END
    else:
        a, b, lo, hi = window(rng, ts)
        args = ['--start_time=' + (a if isinstance(a, str) else rec.time_text(rng, a)), '--end_time=' + (b if isinstance(b, str) else rec.time_text(rng, b))]
        lo = None if lo is not None and lo <= 0 else lo
        hi = None if hi is not None and hi <= 0 else hi
    want = [r for r in recs if (lo is None or r[0] >= lo) and (hi is None or r[0] < hi)]
    dev, rate = 0.05, 300
    if kind == 'price' and rng.random() < 0.8:
        dev, rate = rng.choice([0.01, 0.05, 0.1, 0.5, 1.0]), rng.choice([1, 7, 60, 300, 3600, 86400])
        if rng.random() < 0.2:
            rate = rng.choice([900, 14400, 604800, 2592000, 31536000, 31536001, 2 ** 31 - 1, rng.randint(1, 10 ** 4), int(10 ** rng.uniform(3, 9))])
        if rng.random() < 0.1:
            dev = rng.choice([0, 0.001, 3, 20, round(rng.uniform(0, 2), 4)])
        limit = 100000 if rng.random() < 0.005 else 3000
        while want and rate < 86400 and (want[-1][0] - want[0][0]) / rate > limit:
            rate *= 7
        args += ['--max_price_deviation_per_min=%g' % dev, '--sampling_rate_sec=%d' % rate]
    topn, lastn = 50, 20
    if kind == 'price' and rng.random() < 0.5:
        topn, lastn = rng.choice([0, 1, 3, 10, 100, 1000, 10 ** 6]), rng.choice([0, 1, 3, 10, 50, 200, 10 ** 6])
        args += ['--top_n_gaps=%d' % topn, '--last_n_outliers=%d' % lastn]
    if kind == 'price' and want and (want[-1][0] - want[0][0]) / rate > 120000:
        return None, None
    out_kind = {'price': rng.choice(['price', 'ohlc', 'ohlc', 'both']), 'ohlc': 'ohlc', 'side': 'side'}[kind]
    desc = '%s x %d, window [%s, %s), %s' % (kind, n, lo, hi, out_kind)

    def convert(d, src, flag, tag, outs, compress, windowed=True):
        paths = {k: os.path.join(d, 'out-%s-%s' % (tag, k)) for k in outs}
        a = list(args) if windowed else [x for x in args if not x.startswith(('--start', '--end'))] + ['--start_time=1970-01-01', '--end_time=1970-01-01']
        if compress is not None:
            a.append('--compress=%s' % ('true' if compress else 'false') if rng.random() < 0.7 else '--compress' if compress else '--nocompress')
        a += [flag + '=' + src] + [OUT[k] + '=' + p for k, p in paths.items()]
        rng.shuffle(a)
        if want and rng.random() < 0.2:
            # Older outputs are replaced.
            for p in paths.values():
                with open(p, 'wb') as f:
                    f.write(rng.randbytes(int(2 ** rng.uniform(0, 18))))
            ev['overwritten_files'] += 1
        rc, so, se = rec.run(env, 'convert', fl, a, d)
        if rc == 'hang':
            raise Fail('hang', '%s: %s does not terminate' % (desc, ' '.join(a)))
        if rc != 0:
            raise Fail('crash' if rc < 0 or rc >= 90 else 'failed', '%s: %s exits with %s: %s' % (desc, ' '.join(a), rc, se[:1500]))
        res = {}
        for k, p in paths.items():
            if not os.path.exists(p):
                res[k] = []
                continue
            try:
                res[k] = rec.read_file(p, k)
            except (ValueError, zlib.error) as e:
                raise Fail('bad-output', '%s: %s: output is not a record file: %s' % (desc, ' '.join(a), e))
        ev['conversions'] += 1
        return res, so, paths

    outs = ['price', 'ohlc'] if out_kind == 'both' else [out_kind]
    with rec.Dir(env) as d:
        csv, recf = os.path.join(d, 'in.csv'), os.path.join(d, 'in.rec')
        write_csv(csv, lines, rng, kind)
        comp = rng.choice([None, True, False])
        src = 'csv'
        if kind != 'side' and rng.random() < 0.35:
            src = 'rec'
            # Records without a volume have none.
            stored = [tuple(None if i == len(r) - 1 and x == 0 and rng.random() < 0.3 else x for i, x in enumerate(r)) for r in recs]
            rec.write_file(recf, kind, stored, rng)
        got, so, paths = convert(d, csv if src == 'csv' else recf, FLAGS[(kind, src)], 'a', outs, comp)
        ref = {kind: want}
        clear = True
        if kind == 'price' and 'ohlc' in outs:
            r = remove_outliers(want, dev)
            clear = r is not None
            if clear:
                kept, removed = r
                ref['ohlc'] = resample([want[i] for i in kept], rate)
                ev['outliers'] += len(removed)
        for k in outs:
            if k == kind:
                if not same(got[k], want):
                    raise Fail('records', '%s: output contains %s' % (desc, diff(got[k], want)))
            elif clear:
                e = same_ticks(got[k], ref[k], len(want))
                if e:
                    raise Fail('resampled', '%s, deviation %g, rate %d: OHLC output %s' % (desc, dev, rate, e))
                ev['resampled_ticks'] += len(ref[k])
            if not want and os.path.exists(paths[k]):
                ev['empty_outputs'] += 1
        ev['records'] += len(want)
        # Reported numbers.
        loaded = numbers(r'Loaded (\d+) ', so)
        if loaded != [(len(want),)]:
            raise Fail('report-loaded', '%s: reports %s loaded records instead of %d' % (desc, loaded, len(want)))
        written = sorted(x[0] for x in numbers(r'Writing (\d+) records', so))
        if want and written != sorted(len(got[k]) for k in outs):
            raise Fail('report-written', '%s: reports %s written records instead of %s' % (desc, written, sorted(len(got[k]) for k in outs)))
        if kind == 'price' and want:
            g = [(x[0], x[2]) for x in re.findall(r'(?m)^(\d+) \[([^\]]*)\] - (\d+) \[([^\]]*)\]: (\d+):(\d\d):(\d\d)$', so)]
            exp = gaps(want, topn)
            if [(int(x), int(y)) for x, y in g] != exp:
                raise Fail('report-gaps', '%s, top %d: reports gaps %s instead of %s' % (desc, topn, g[:5], exp[:5]))
            for x in re.findall(r'(?m)^(\d+) \[([^\]]*)\] - (\d+) \[([^\]]*)\]: (\d+):(\d\d):(\d\d)$', so):
                if int(x[2]) - int(x[0]) != int(x[4]) * 3600 + int(x[5]) * 60 + int(x[6]) or x[1] != rec.utc(int(x[0])) or x[3] != rec.utc(int(x[2])):
                    raise Fail('report-gaps', '%s: wrong gap line %s' % (desc, x))
            ev['reported_gaps'] += len(g)
            if 'ohlc' in outs and clear:
                rem = numbers(r'Removed (\d+) outliers', so)
                if rem != [(len(removed),)]:
                    raise Fail('report-removed', '%s: reports %s removed outliers instead of %d' % (desc, rem, len(removed)))
                rs = numbers(r'Resampled (\d+) records to (\d+) OHLC', so)
                if rs != [(len(kept), len(ref['ohlc']))]:
                    raise Fail('report-resampled', '%s: reports resampling %s instead of %s' % (desc, rs, (len(kept), len(ref['ohlc']))))
                xs = [(int(t), float(p)) for t, p in re.findall(r'(?m)^ x (\d+) \[[^\]]*\]: ([\d.]+) ', so)]
                expx = [want[i] for i in (removed if lastn == 0 else removed[-lastn:])]
                rows = re.findall(r'(?m)^ [ x] (\d+) \[([^\]]*)\]: ([\d.]+) \[([\d.]+)\]$', so)
                # Every reported outlier with its neighbours, in order, once.
                shown = sorted({j for i in (removed if lastn == 0 else removed[-lastn:]) for j in range(max(0, i - 5), min(len(want), i + 6))})
                for j, x in zip(shown, rows):
                    r = want[j]
                    if not (r[0] == int(x[0]) and abs(r[1] - float(x[2])) <= 0.0051 + 1e-6 * r[1] and abs(r[2] - float(x[3])) <= 0.000051 + 1e-6 * r[2] and x[1] == rec.utc(r[0])):
                        raise Fail('report-context', '%s, last %d: outlier report row %s instead of record %d: %s' % (desc, lastn, x, j, r))
                if len(rows) != len(shown):
                    raise Fail('report-context', '%s, last %d: outlier report has %d rows instead of %d' % (desc, lastn, len(rows), len(shown)))
                ev['outlier_report_rows'] += len(rows)
                # Older outliers may appear as context of the last ones.
                if len(xs) != len(expx) or any(x[0] != r[0] or abs(x[1] - r[1]) > 0.0051 + 1e-6 * r[1] for x, r in zip(xs, expx)):
                    raise Fail('report-outliers', '%s, last %d: reports outliers %s instead of %s' % (desc, lastn, xs[:5], expx[:5]))
        # The other way must give the same: through a record file, other compression.
        if want and rng.random() < 0.5:
            if src == 'csv' and kind != 'side' and rng.random() < 0.7:
                first, _, p1 = convert(d, csv, FLAGS[(kind, 'csv')], 'b', [kind], rng.choice([True, False]))
                again, _, _ = convert(d, p1[kind], FLAGS[(kind, 'rec')], 'c', outs, rng.choice([None, True, False]), windowed=rng.random() < 0.5)
                if first[kind] != want:
                    raise Fail('records', '%s: output contains %s' % (desc, diff(first[kind], want)))
                ev['two_step_conversions'] += 1
            else:
                again, _, _ = convert(d, csv, FLAGS[(kind, 'csv')], 'c', outs, rng.choice([True, False]))
            if again != got:
                k = next(k for k in outs if again[k] != got[k])
                raise Fail('other-way', '%s: converting another way gives %s' % (desc, diff(again[k], got[k])))
    if not want:
        ev['empty_windows'] += 1
    return ('%s %s %s %s %s' % (kind, out_kind, src, sorted(args), zlib.crc32(repr(want).encode())) if want else None), desc


# ------------------------------------------------------------------------ C02

def spoil(rng, kind, src, recs, lines, i):
    """Makes record i invalid; returns a description (None: not possible here)."""
    r, c = list(recs[i]), list(lines[i])
    kinds = ['time-zero', 'time-negative', 'time-back']
    if kind == 'price':
        kinds += ['price-zero', 'price-negative', 'price-nonfinite', 'volume-negative', 'volume-nonfinite']
    elif kind == 'ohlc':
        kinds += ['price-zero', 'price-negative', 'price-nonfinite', 'volume-negative', 'volume-nonfinite', 'inconsistent', 'inconsistent', 'inconsistent']
    else:
        kinds += ['time-repeated', 'no-signals', 'fewer-signals', 'more-signals', 'signal-nonfinite']
    if src == 'csv':
        kinds += ['missing', 'garbage', 'garbage', 'blank', 'tail', 'text', 'empty']
    k = rng.choice(kinds)
    note = k
    f = lambda x: '%.9g' % x
    if k == 'time-zero':
        r[0] = 0
        c[0] = '0'
    elif k == 'time-negative':
        r[0] = -rng.choice([1, 100, recs[i][0], 2 ** 40])
        c[0] = str(r[0])
    elif k == 'time-back':
        if i == 0 or recs[i - 1][0] < 2:
            return None
        r[0] = rng.choice([recs[i - 1][0] - 1, rng.randint(1, recs[i - 1][0] - 1)])
        c[0] = str(r[0])
    elif k == 'time-repeated':
        if i == 0:
            return None
        r[0] = recs[i - 1][0]
        c[0] = str(r[0])
    elif k in ('price-zero', 'price-negative', 'price-nonfinite'):
        j = 1 if kind == 'price' else rng.randint(1, 4)
        x = {'price-zero': rng.choice([0.0, -0.0]), 'price-negative': -abs(r[j]) * rng.choice([1, 1e-3]), 'price-nonfinite': rng.choice([math.inf, -math.inf, math.nan])}[k]
        r[j] = f32(x)
        c[j] = {'inf': rng.choice(['inf', 'INF', 'infinity', '1e39']), '-inf': '-inf', 'nan': 'nan'}.get(str(x), f(x))
        note += ' in column %d' % j
    elif k in ('volume-negative', 'volume-nonfinite'):
        x = -rng.choice([1, 1e-6, 1e9]) if k == 'volume-negative' else rng.choice([math.inf, math.nan])
        r[-1] = f32(x)
        c[-1] = f(x)
    elif k == 'inconsistent':
        t, o, h, l, cl, v = r
        m = rng.randint(0, 4)
        up, dn = 1 + rng.choice([1e-5, 0.01, 3]), 1 / (1 + rng.choice([1e-5, 0.01, 3]))
        if m == 0:
            h = max(o, cl) * dn                      # high below open or close
            l = min(l, h)
        elif m == 1:
            l = min(o, cl) * up                      # low above open or close
            h = max(h, l)
        elif m == 2:
            h, l = min(o, cl) * dn, max(o, cl) * up  # exchanged
        elif m == 3:
            cl = h * up                              # close above high
        else:
            o = l * dn                               # open below low
        r = [t, f32(o), f32(h), f32(l), f32(cl), v]
        t, o, h, l, cl, v = r
        if l <= o <= h and l <= cl <= h:
            return None
        c[1:5] = [f(x) for x in r[1:5]]
        note += ' kind %d' % m
    elif k == 'no-signals':
        r[1] = ()
        c = c[:1]
    elif k in ('fewer-signals', 'more-signals'):
        if len(recs) < 2:
            return None
        if k == 'fewer-signals':
            if len(c) < 3:
                return None
            c = c[:-rng.randint(1, len(c) - 2)]
        else:
            c += ['1.5'] * rng.randint(1, 3)
    elif k == 'signal-nonfinite':
        c[rng.randint(1, len(c) - 1)] = rng.choice(['nan', 'inf', '-inf', '1e39'])
    elif k == 'missing':
        c = c[:rng.randint(1, len(c) - 1)]
        if kind == 'side' and len(c) > 1 and len(recs) < 2:
            return None
        if rng.random() < 0.3 and kind != 'side':
            c.append('')
    elif k == 'empty':
        j = rng.randint(0, len(c) - 1)
        e = rng.choice(['', '', ' '])
        if kind == 'side' and rng.random() < 0.7:   # as many values as on the other lines
            c.insert(rng.randint(0, len(c)), e)
        else:
            c[j] = e
    elif k == 'garbage':
        j = rng.randint(0, len(c) - 1)
        c[j] = rng.choice(['x', 'abc', '?', 'N/A', 'null', 'x' + c[j], '"' + c[j] + '"', '--1', '.', '-'])
        note += ' in column %d' % j
    elif k == 'tail':
        j = rng.randint(0, len(c) - 1)
        c[j] = c[j] + rng.choice(['x', 'abc', '?', '%', ':00'])
        note += ' in column %d' % j
    elif k == 'blank':
        if i == len(recs) - 1:
            return None
        c = ['']
    elif k == 'text':
        c = [rng.choice(['timestamp,price,volume', 'Hello World', '#', ';;;', '2017-01-01,100,1,2,3,4,5', '\x00\x01\x02'])]
    return note, tuple(r), c


def case_c02(rng, env, fl, ev):
    k = rng.random()
    if k < 0.62:
        return invalid_record(rng, env, fl, ev)
    if k < 0.78:
        return outside_window(rng, env, fl, ev)
    return bad_options(rng, env, fl, ev)


def outside_window(rng, env, fl, ev):
    """Whatever lies outside the window does not matter."""
    kind = rng.choice(['price', 'ohlc', 'side'])
    src = 'csv' if kind == 'side' or rng.random() < 0.55 else 'rec'
    far = src == 'rec' and rng.random() < 0.06   # damage far behind the end of the window
    n = rng.randint(12000, 20000) if far else rng.randint(2, rng.choice([3, 30, 300]))
    recs, lines = history(rng, kind, n, BASE + rng.randint(0, 10 ** 8))
    ts = [r[0] for r in recs]
    i, j = sorted((rng.randint(0, n // 9 if far else n), rng.randint(0, n // 8 if far else n)))
    if rng.random() < 0.3:
        i = 0
    if not far and rng.random() < 0.3:
        j = n
    # The window covers the records [i, j); equal times belong together.
    lo = None if i == 0 and rng.random() < 0.5 else ts[i] if i < n else ts[-1] + 1
    hi = None if j == n and rng.random() < 0.5 else ts[j] if j < n else ts[-1] + 1
    inside = [x for x in range(n) if (lo is None or ts[x] >= lo) and (hi is None or ts[x] < hi)]
    before = [x for x in range(n) if lo is not None and ts[x] < lo]
    after = [x for x in range(n) if hi is not None and ts[x] >= hi]
    if not before and not after:
        return None, None
    want = [recs[x] for x in inside]
    clean = [lines[x] for x in inside]
    notes = []
    for x in rng.sample(before, min(len(before), rng.choice([1, 1, 2, 10]))) if before else []:
        s = spoil(rng, kind, src, recs, lines, x)
        note = s and s[0].split()[0]
        # Such a line must have a time, and the columns of a price must be there.
        if s is None or (note in ('missing', 'garbage', 'tail', 'empty') and kind != 'side') or note in ('blank', 'text') or s[1][0] >= lo:
            continue
        if note in ('garbage', 'tail', 'empty') and s[2][0] != lines[x][0]:
            continue
        recs[x], lines[x] = s[1], s[2]
        notes.append('before: ' + s[0])
        ev['unjudged_before_window'] += 1
    tail = b''
    if after:
        # The first record at or behind the end has its time, the others are not read.
        for x in rng.sample(after, min(len(after), rng.choice([1, 1, 2, 10]))) if not far else []:
            s = spoil(rng, kind, src, recs, lines, x)
            if s is None or (x == after[0] and (s[0].split()[0] in ('missing', 'garbage', 'tail', 'empty', 'blank', 'text') or s[1][0] < hi)):
                continue
            recs[x], lines[x] = s[1], s[2]
            notes.append('behind: ' + s[0])
            ev['unjudged_behind_window'] += 1
        if inside and rng.random() < 0.4 and not far:   # the window's times again
            y = rng.choice(inside)
            recs.append(recs[y])
            lines.append(lines[y])
            notes.append('behind: a time of the window')
            ev['unjudged_behind_window'] += 1
        if not far and rng.random() < 0.3:
            tail = rng.choice([b'\xff' * rng.randint(1, 12), b'\x05\x08', rng.randbytes(rng.randint(1, 100))])
            notes.append('behind: garbage')
            ev['unjudged_behind_window'] += 1
    if not notes and not far:
        return None, None
    out_kind = kind if kind != 'price' else rng.choice(['price', 'price', 'ohlc'])
    desc = '%s %s x %d, window [%s, %s) of records [%d, %d), %s%s' % (kind, src, n, lo, hi, i, j, '; '.join(notes[:6]), ' file damaged far behind it' if far else '')
    with rec.Dir(env) as d:
        f = os.path.join(d, 'in')
        if src == 'csv':
            write_csv(f, lines, rng, 'side')
            with open(f, 'ab') as o:
                o.write(tail if not tail or open(f, 'rb').read().endswith(b'\n') else b'\n' + tail)
        elif far:
            body = rec.encode(kind, recs)
            stored = len(rec.encode(kind, recs[:j + 1]))
            raw = gzip.compress(body, 0)
            if len(raw) < stored + 2 * 10 ** 5:
                return None, None
            cut = rng.randint(stored + 18 * 10 ** 4, len(raw) - 100)
            with open(f, 'wb') as o:
                o.write(raw[:cut] if rng.random() < 0.6 else raw[:cut] + rng.randbytes(50) + raw[cut + 50:])
            ev['damaged_far_behind_window'] += 1
        else:
            rec.write_raw(f, rec.encode(kind, recs) + tail, rng)
        win = ['--start_time=' + ('1970-01-01' if lo is None else rec.time_text(rng, lo)), '--end_time=' + ('1970-01-01' if hi is None else rec.time_text(rng, hi))]

        def convert(path, flag, out):
            a = win + [flag + '=' + path, OUT[out_kind] + '=' + out]
            rng.shuffle(a)
            rc, so, se = rec.run(env, 'convert', fl, a, d)
            if rc == 'hang':
                raise Fail('hang', desc + ': does not terminate')
            if rc != 0:
                raise Fail('crash' if rc < 0 or rc >= 90 else 'judges-outside', '%s: exits with %s: %s' % (desc, rc, se[:800]))
            if not os.path.exists(out):
                return []
            try:
                return rec.read_file(out, out_kind)
            except (ValueError, zlib.error) as e:
                raise Fail('bad-output', '%s: output is not a record file: %s' % (desc, e))
        got = convert(f, FLAGS[(kind, src)], os.path.join(d, 'out'))
        ev['conversions_with_invalid_records_outside'] += 1
        if out_kind == kind:
            if not same(got, want):
                raise Fail('outside-matters', '%s: output contains %s' % (desc, diff(got, want)))
        else:
            f2 = os.path.join(d, 'in.csv')
            with open(f2, 'w') as o:
                o.write(''.join(','.join(c) + '\n' for c in clean))
            ref = convert(f2, FLAGS[(kind, 'csv')], os.path.join(d, 'out2'))
            if got != ref:
                raise Fail('outside-matters', '%s: output differs from that of the window alone: %s' % (desc, diff(got, ref)))
    return '%s %s %s %s' % (kind, src, notes, i), desc


def expect_error(env, fl, args, d, outs, desc, ev, **kw):
    before = {p: rng_content(p) for p in outs}
    rc, so, se = rec.run(env, 'convert', fl, args, d, **kw)
    if rc == 'hang':
        raise Fail('hang', desc + ': does not terminate')
    if rc < 0 or rc >= 90:
        raise Fail('crash', '%s: dies with %s: %s' % (desc, rc, se[:1500]))
    if rc == 0:
        raise Fail('accepted', '%s: exits successfully\n%s' % (desc, so[-800:]))
    if not se.strip():
        raise Fail('no-message', '%s: fails with status %d without an error message' % (desc, rc))
    for p in outs:
        if rng_content(p) != before[p]:
            raise Fail('output-written', '%s: fails but %s output file %s' % (desc, 'changes the' if before[p] is not None else 'writes an', p))
    ev['rejections'] += 1
    return rc, so, se


def rng_content(p):
    try:
        return open(p, 'rb').read()
    except OSError:
        return None


def invalid_record(rng, env, fl, ev):
    kind = rng.choice(['price', 'ohlc', 'side'])
    src = 'csv' if kind == 'side' or rng.random() < 0.65 else 'rec'
    n = rng.randint(1, rng.choice([1, 3, 30, 300])) if rng.random() < 0.92 else rng.randint(300, 9000)
    recs, lines = history(rng, kind, n, BASE + rng.randint(0, 10 ** 8))
    if n <= 300:
        return invalid_variant(rng, env, fl, ev, kind, src, n, recs, lines)
    # Large files are costly to make: several places of the defect each.
    res = None, None
    for _ in range(8):
        x = invalid_variant(rng, env, fl, ev, kind, src, n, list(recs), list(lines))
        res = x if x[0] else res
    return res


def invalid_variant(rng, env, fl, ev, kind, src, n, recs, lines):
    i = rng.choice([0, n - 1, rng.randint(0, n - 1)])
    if n > 300 and rng.random() < 0.7:
        unit = rng.choice([100, 1000, 1000, 1024, 4096, 5000, 2 ** rng.randint(8, 13)])
        i = min(n - 1, max(0, rng.randint(min(1, n // unit), n // unit) * unit + rng.choice([-2, -1, -1, 0, 0, 0, 1])))
    s = spoil(rng, kind, src, recs, lines, i)
    for _ in range(20):   # defects that depend on earlier lines
        if n <= 300 or i == 0 or (s and s[0].split('-')[0] in (('fewer', 'more') if kind == 'side' else ('time',))) or rng.random() < 0.2:
            break
        s = spoil(rng, kind, src, recs, lines, i)
    if s is None:
        return None, None
    note, r, c = s
    # The window: unbounded, or one that contains everything up to the record.
    ts = [x[0] for x in recs]
    lo = hi = None
    if rng.random() < 0.5 and note.split()[0] in ('price-zero', 'price-negative', 'price-nonfinite', 'volume-negative', 'volume-nonfinite', 'inconsistent', 'signal-nonfinite', 'no-signals', 'time-repeated'):
        lo, hi = rng.choice([ts[0], ts[i], max(1, ts[0] - 100)]), rng.choice([ts[-1] + 1, ts[i] + 1])
        if note == 'time-repeated' and lo > ts[i - 1]:
            lo = ts[0]
    if note == 'fewer-signals' or note == 'more-signals' or note == 'time-back':
        if i > 0 and rng.random() < (0.5 if n < 300 else 0.7):   # all later records follow suit
            for j in range(i + 1, n):
                if note == 'time-back':
                    t = r[0] + recs[j][0] - recs[i][0]
                    if t < 1:
                        continue
                    recs[j] = (t,) + tuple(recs[j][1:])
                    lines[j] = [str(t)] + lines[j][1:]
                else:
                    lines[j] = (lines[j] + c[1:] * len(c))[:len(c)]
    recs[i], lines[i] = r, c
    out_kind = kind if kind != 'price' else rng.choice(['price', 'ohlc', 'both'])
    desc = '%s %s x %d, record %d: %s %s' % (kind, src, n, i, note, ','.join(c)[:60] if src == 'csv' else r)
    with rec.Dir(env) as d:
        f = os.path.join(d, 'in')
        if src == 'csv':
            write_csv(f, lines, rng, 'side')   # no extra columns
        else:
            rec.write_file(f, kind, recs, rng)
        outs = {k: os.path.join(d, 'out-' + k) for k in (['price', 'ohlc'] if out_kind == 'both' else [out_kind])}
        if rng.random() < 0.2:
            for p in outs.values():
                open(p, 'w').write('precious')
        args = ['--start_time=' + ('1970-01-01' if lo is None else rec.time_text(rng, lo)), '--end_time=' + ('1970-01-01' if hi is None else rec.time_text(rng, hi)),
                FLAGS[(kind, src)] + '=' + f] + [OUT[k] + '=' + p for k, p in outs.items()]
        rng.shuffle(args)
        rc, so, se = expect_error(env, fl, args, d, list(outs.values()), desc, ev)
        row = re.search(r'line (\d+)', se)
        if src == 'csv' and row and not (kind == 'side' and i == 0) and int(row.group(1)) != i + 1:
            raise Fail('wrong-line', '%s: the error names line %s instead of %d: %s' % (desc, row.group(1), i + 1, se[:300]))
        ev['invalid_' + note.split()[0]] += 1
    return '%s %s %s %d %d %s' % (kind, src, note, n, i, lines[i]), desc


def bad_options(rng, env, fl, ev):
    recs, lines = history(rng, 'price', 5, BASE + 1000)
    trecs, tlines = history(rng, 'ohlc', 5, BASE + 1000)
    srecs, slines = history(rng, 'side', 5, BASE + 1000)
    with rec.Dir(env) as d:
        p = lambda x: os.path.join(d, x)
        write_csv(p('p.csv'), lines, rng, 'side')
        write_csv(p('o.csv'), tlines, rng, 'side')
        write_csv(p('s.csv'), slines, rng, 'side')
        rec.write_file(p('p.rec'), 'price', recs, rng)
        rec.write_file(p('o.rec'), 'ohlc', trecs, rng)
        ins = {k: v + '=' + p({'price': 'p', 'ohlc': 'o', 'side': 's'}[k[0]] + '.' + k[1]) for k, v in FLAGS.items()}
        kind = rng.choice(['price', 'ohlc', 'side'])
        src = 'csv' if kind == 'side' else rng.choice(['csv', 'rec'])
        outs = [p('out')]
        out = OUT[kind] + '=' + outs[0]
        kw = {}
        m = rng.randint(0, 9)
        if m == 0:
            what, args = 'no input', [out]
        elif m == 1:
            a, b = rng.sample(sorted(ins), 2)
            what, args = 'two inputs %s %s' % (a, b), [ins[a], ins[b], OUT[rng.choice([a, b])[0]] + '=' + outs[0]]
        elif m == 2:
            a = rng.sample(sorted(ins), rng.randint(3, 5))
            what, args = '%d inputs' % len(a), [ins[x] for x in a] + [out]
        elif m == 3:
            bad = rng.choice(['', 'x', '2017-13-01', '2017-02-30', '2017-01-01 25:00:00', 'yesterday', '2017', '01/02/2017', '2017-01-01x'])
            which = rng.choice(['start', 'end'])
            what, args = '%s time "%s"' % (which, bad), [ins[(kind, src)], out, '--%s_time=%s' % (which, bad)]
        elif m == 4:
            v = rng.choice(['0', '-1', '-300', '-2147483648', 'x', '', '1.5', '99999999999'])
            what, args = 'sampling rate ' + v, [ins[('price', 'csv')], OUT['ohlc'] + '=' + outs[0], '--sampling_rate_sec=' + v]
        elif m == 5:
            bad = rng.choice(['missing', 'missing/x', '.', 'out-dir'])
            os.mkdir(p('out-dir'))
            what, args = 'input file "%s"' % bad, [FLAGS[(kind, src)] + '=' + p(bad), out]
        elif m == 6:
            bad = rng.choice(['no/such/dir/out', '.', 'out-dir'])
            os.mkdir(p('out-dir'))
            what, args = 'output file "%s"' % bad, [ins[(kind, src)], OUT[kind] + '=' + p(bad)]
            outs = []
        elif m == 7:
            if not os.access('/dev/full', os.W_OK):
                return None, None
            what, args = 'output to a full device', [ins[(kind, src)], OUT[kind] + '=/dev/full', rng.choice(['--compress', '--nocompress'])]
            outs = []
        elif m == 8:
            what, args = 'file size limit', [ins[(kind, src)], out]
            outs, kw = [], dict(fsize=rng.randint(0, 40))
        else:
            bad = rng.choice(['--no_such_option=1', '--top_n_gaps=x', '--compress=maybe', '--max_price_deviation_per_min=abc', '--last_n_outliers=1.5'])
            what, args = bad, [ins[(kind, src)], out, bad]
        if not any(x.startswith('--start') for x in args):
            args.append('--start_time=1970-01-01')
        if not any(x.startswith('--end') for x in args):
            args.append('--end_time=2100-01-01')
        rng.shuffle(args)
        expect_error(env, fl, args, d, outs, '%s (%s)' % (what, ' '.join(args)), ev, **kw)
        ev['bad_options'] += 1
        ev['bad_options_%d' % m] += 1
    return 'option %d %s %s %s' % (m, what, kind, src), what


# ---------------------------------------------------------------------- entry

def directed(prop, env):
    return 0


class Counter(dict):
    def __missing__(self, k):
        return 0


def case(prop, seed, env):
    rng = random.Random('%s-%s-%s' % (env['work'], seed[0], seed[1]))
    ev = Counter()
    work = env['work']
    fl = 'asan' if prop == 'M01' else 'plain'
    env = dict(env, san=dict(env['san'], TZ=env['zones'][seed[1] % len(env['zones'])]))
    if work == 'convert':
        work = rng.choice(['C01', 'C02'])
    try:
        h, sample = (case_c01 if work == 'C01' else case_c02)(rng, env, fl, ev)
    except Fail as e:
        key, msg = e.args
        if prop == 'M01':
            return ev, None, None, [('crash', msg)] if key in ('crash', 'hang') else []
        return ev, None, None, [(key, msg)]
    return ev, (zlib.crc32(h.encode()) if h else None), sample, []
