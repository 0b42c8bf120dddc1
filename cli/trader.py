"""Monitors of the trader program (C03): what it prints and logs is what the
evaluation of the selected ticks yields; bad inputs are errors."""
import math, os, random, re, zlib
from . import rec
from .rec import f32
from .convert import Counter, Fail

OHLC, SIDE = '--input_ohlc_history_delimited_proto_file=', '--input_side_history_delimited_proto_file='
ELOG, TLOG = '--output_exchange_log_file=', '--output_trader_log_file='


def ticks(rng, n, start, step):
    out, price, t = [], math.exp(rng.uniform(*rng.choice([(0, math.log(50000)), (0, math.log(50000)), (math.log(1e-5), 0), (math.log(50000), math.log(1e7))]))), start
    vol = rng.choice([0.001, 0.01, 0.05])
    drift = rng.gauss(0, vol / 5)
    for _ in range(n):
        if rng.random() < 0.05 and out:
            c = out[-1][4]
            out.append((t, c, c, c, c, 0.0))
        else:
            o = f32(price * math.exp(rng.gauss(0, vol / 10)))
            c = f32(o * math.exp(rng.gauss(drift, vol)))
            h = f32(max(o, c) * (1 + abs(rng.gauss(0, vol / 2))))
            l = f32(min(o, c) / (1 + abs(rng.gauss(0, vol / 2))))
            out.append((t, o, max(h, o, c), min(l, o, c), c, f32(rng.choice([1e-30, 1e-40, 1e-9, 1e9]) if rng.random() < 0.01 else rng.expovariate(1 / rng.choice([0.001, 1, 1000])) + 1e-4)))
            price = min(max(c, 1e-6), 1e8)
        t += step if rng.random() < 0.97 else step * rng.randint(1, 40)
    return out


def selected(recs, lo, hi):
    return [r for r in recs if (lo <= 0 or r[0] >= lo) and (hi <= 0 or r[0] < hi)]


def near(text, value, half):
    try:
        x = float(text)
    except ValueError:
        return False
    if not math.isfinite(value):
        return text.strip('-+').lower() == str(abs(value))
    return abs(x - value) <= half + 2e-6 * abs(value)


def printed_fields(text, title):
    """The fields of the message printed (in the protobuf text format) after the line `title`."""
    fields, path, found = {}, [], False
    for line in text.splitlines():
        line = line.strip()
        if not found:
            found = line == title
        elif line.endswith('{'):
            path.append(line[:-1].strip())
        elif line == '}':
            path.pop()
        else:
            m = re.match(r'(\w+): (\S+)$', line)
            if not m:
                break
            fields['.'.join(path + [m.group(1)])] = m.group(2)
    return fields


def check_config(desc, text, base, quote, liq, ratio, lo, hi, months):
    want = {'start_base_balance': base, 'start_quote_balance': quote, 'base_unit': 0.00001, 'quote_unit': 0.01, 'market_liquidity': liq, 'max_volume_ratio': ratio}
    for o in ('market', 'stop', 'limit'):
        want.update({o + '_order_fee_config.' + k: v for k, v in (('relative_fee', 0.005), ('fixed_fee', 0), ('minimum_fee', 0))})
    got = printed_fields(text, 'Trader AccountConfig:')
    for k, v in want.items() if got else ():
        if not abs(float(got.get(k, 0)) - v) <= 1e-6 * abs(v):
            raise Fail('config', '%s: reports %s = %s, expected %r' % (desc, k, got.get(k), v))
    got = printed_fields(text, 'Trader EvaluationConfig:')
    for k, v in (('start_timestamp_sec', lo), ('end_timestamp_sec', hi), ('evaluation_period_months', months)) if got else ():
        if int(got.get(k, 0)) != v:
            raise Fail('config', '%s: reports %s = %s, expected %r' % (desc, k, got.get(k), v))


def case_report(rng, env, fl, ev):
    months = rng.choice([0, 0, 0, 0, 1, 2, 6, 12, rng.randint(1, 48)])
    batch = rng.random() < 0.2
    which = rng.choice([None, 'stop', 'rebalancing', 'rebalancing'])
    n = rng.randint(1, rng.choice([60, 60, 400]) if batch else rng.choice([1, 5, 100, 600]))
    if rng.random() < 0.004:
        n = rng.randint(5000, 1500 if batch else 30000) if not batch else rng.randint(500, 1500)
    step = rng.choice([300, 3600, 86400, 86400 * 5]) if months else rng.choice([1, 300, 300, 3600, 86400])
    start = rng.choice([1483228800, 1483228800 + rng.randint(0, 10 ** 8), 86400 * rng.randint(16000, 18000)])
    tk = ticks(rng, n, start, step)
    span = tk[-1][0] - tk[0][0]
    sel = rng.random()
    args = []
    if sel < 0.1:
        lo, hi = 1483228800, 1609459200
    else:
        t = lambda: rng.choice([tk[0][0], tk[-1][0], tk[-1][0] + 1, rng.choice(tk)[0], rng.choice(tk)[0] + rng.choice([-1, 1]), tk[0][0] + rng.randint(-span // 3 - 9, span * 4 // 3 + 9)])
        lo, hi = t(), t()
        if lo > hi and rng.random() < 0.9:
            lo, hi = hi, lo
        if sel < 0.5:
            lo, hi = tk[0][0] - rng.randint(0, 100000), tk[-1][0] + rng.randint(1, 10 ** 7)
        if months and rng.random() < 0.7:
            lo = lo // 86400 * 86400
        lo, hi = max(lo, 1), max(hi, 1)
        if rng.random() < 0.05:
            lo = 0 if months else rng.choice([0, -1, -86400 * 365])
        args += ['--start_time=' + rec.time_text(rng, lo), '--end_time=' + rec.time_text(rng, hi)]
    base, quote = rng.choice([(1, 0), (0, 1000), (2.5, 100), (0.1, 5000), (100, 1), (round(rng.uniform(0, 10), 3), round(rng.uniform(1, 9000), 2)), (0, rng.uniform(10, 5000)), (rng.uniform(0, 3), rng.uniform(0, 100) + 0.01)])
    if rng.random() < 0.08:   # large balances
        base, quote = rng.choice([(0, round(10 ** rng.uniform(3, 12), 2)), (round(10 ** rng.uniform(0, 8), 5), 0), (10 ** rng.randint(0, 7), 10 ** rng.randint(0, 11))])
    liq, ratio = rng.choice([0, 0.5, 1, round(rng.random(), 3)]), rng.choice([0, 0.5, 0.01, round(rng.random(), 3), round(rng.random(), 3), 3.5])
    if rng.random() < 0.15:
        base, quote, liq, ratio = 1, 0, 0.5, 0.5
    else:
        args += ['--start_base_balance=%r' % base, '--start_quote_balance=%r' % quote, '--market_liquidity=%r' % liq, '--max_volume_ratio=%r' % ratio]
    if months or rng.random() < 0.2:
        args.append('--evaluation_period_months=%d' % months)
    if which:
        args.append('--trader=' + which)
    if batch:
        args.append(rng.choice(['--evaluate_batch', '--evaluate_batch=true']))
    want = selected(tk, lo, hi)
    side, wside = None, []
    if rng.random() < 0.4:
        ns, st = rng.randint(1, 4), tk[0][0] - rng.randint(0, 100000)
        side = []
        for _ in range(rng.randint(1, 50)):
            side.append((max(1, st), tuple(f32(rng.gauss(0, 50)) for _ in range(ns))))
            st = side[-1][0] + rng.randint(1, max(2, span // 20))
        wside = selected(side, lo, hi)
    desc = '%s%s x %d ticks (%d selected), [%d, %d), %d months' % ('batch of ' if batch else '', which or 'default', n, len(want), lo, hi, months)
    with rec.Dir(env) as d:
        p = lambda x: os.path.join(d, x)
        rec.write_file(p('t.rec'), 'ohlc', tk, rng)
        args.append(OHLC + p('t.rec'))
        if side is not None:
            rec.write_file(p('s.rec'), 'side', side, rng)
            args.append(SIDE + p('s.rec'))
        logs = []
        if not months and not batch and rng.random() < 0.7:
            logs = [x for x in ('exchange', 'trader') if rng.random() < 0.8]
            args += [{'exchange': ELOG, 'trader': TLOG}[x] + p('log.' + x) for x in logs]
        with open(p('t.txt'), 'w') as f:
            f.writelines('%d %s\n' % (t[0], ' '.join('%.9g' % x for x in t[1:])) for t in want)
        with open(p('s.txt'), 'w') as f:
            f.writelines('%d %s\n' % (s[0], ' '.join('%.9g' % x for x in s[1])) for s in wside)
        for x in logs:
            if rng.random() < 0.3:   # older logs are replaced
                with open(p('log.' + x), 'wb') as f:
                    f.write(b'older,log\n' * int(2 ** rng.uniform(0, 16)))
        rng.shuffle(args)
        cmd = ' '.join(args)
        rc, so, se = rec.run(env, 'trader', fl, args, d)
        if rc == 'hang':
            raise Fail('hang', '%s: %s does not terminate' % (desc, cmd))
        if rc != 0:
            raise Fail('crash' if rc < 0 or rc >= 90 else 'failed', '%s: %s exits with %s: %s' % (desc, cmd, rc, se[:1500]))
        if fl == 'asan':
            ev['trader_runs'] += 1
            return None, None
        rc, ref, err = rec.run(env, 'reftool', fl, ['batch' if batch else 'one', which or 'stop', str(lo), str(hi), str(months), repr(base), repr(quote), repr(liq), repr(ratio),
                                                    p('t.txt'), p('s.txt'), p('ref') if logs else '-'], d)
        if rc != 0:
            raise Fail('reference', '%s: evaluation through the library fails with %s: %s' % (desc, rc, err[:1500]))
        ref = [x.split('\t') for x in ref.splitlines()]
        lines = so.splitlines()
        check_config(desc, so, base, quote, liq, ratio, lo, hi, months)
        ev['configurations'] = ev.get('configurations', 0) + 1
        # Selected records.
        exp = [(len(tk), len(want))] + ([(len(side), len(wside))] if side is not None else [])
        loaded = [int(x) for x in re.findall(r'(?m)^- Loaded (\d+) records', so)]
        chosen = re.findall(r'(?m)^- Selected (\d+) records within the time period: \[(.*) - (.*)\)$', so)
        if loaded != [x[0] for x in exp] or chosen != [(str(x[1]), rec.utc(lo), rec.utc(hi)) for x in exp]:
            raise Fail('selection', '%s: reports loaded %s and selected %s, expected %s' % (desc, loaded, chosen, exp))
        if not batch:
            name = ref[0][1]
            if name + ' evaluation:' not in lines:
                raise Fail('trader', '%s: does not evaluate %s' % (desc, name))
            got = re.findall(r'(?m)^\[(\d+-\d\d-\d\d \d\d:\d\d:\d\d) - (\d+-\d\d-\d\d \d\d:\d\d:\d\d)\): +(\S+)% +(\S+)% +(\S+) +(\S+) +(\S+)$', so)
            per = [x for x in ref if x[0] == 'period']
            if len(got) != len(per):
                raise Fail('periods', '%s: prints %d periods instead of %d' % (desc, len(got), len(per)))
            for g, r in zip(got, per):
                gain, bgain, tv, bv = map(float, r[3:7])
                if g[0] != rec.utc(int(r[1])) or g[1] != rec.utc(int(r[2])):
                    raise Fail('periods', '%s: prints period [%s - %s) instead of [%s - %s)' % (desc, g[0], g[1], rec.utc(int(r[1])), rec.utc(int(r[2]))))
                ok = near(g[2], (gain - 1) * 100, 0.0051 + 2e-5) and near(g[3], (bgain - 1) * 100, 0.0051 + 2e-5) and near(g[4], gain / bgain, 0.00051) and \
                    near(g[5], tv, 0.00051) and near(g[6], bv, 0.00051)
                if not ok:
                    raise Fail('figures', '%s: prints %s, expected gains %.4f%% %.4f%% score %.4f volatilities %.4f %.4f' % (desc, g, (gain - 1) * 100, (bgain - 1) * 100, gain / bgain, tv, bv))
                ev['periods'] += 1
                ev['executed_orders'] += int(r[7])
        else:
            sc = {}
            for x in ref:
                if x[0] == 'trader':
                    sc.setdefault(x[1], []).append(float(x[2]))
            got = []
            for l in lines:
                m = re.match(r'(.*): (-?[\d.]+|-?nan|-?inf)$', l)
                if m and m.group(1) in sc:
                    got.append((m.group(1), m.group(2)))
            best = sorted((v for vs in sc.values() for v in vs), reverse=True)[:20]
            if len(got) != len(best):
                raise Fail('batch-size', '%s: prints %d traders instead of %d' % (desc, len(got), len(best)))
            for i, (g, b) in enumerate(zip(got, best)):
                if not any(near(g[1], v, 0.0000051) for v in sc[g[0]]):
                    raise Fail('batch-score', '%s: prints score %s for %s, expected %s' % (desc, g[1], g[0], sc[g[0]]))
                if not near(g[1], b, 0.0000051):
                    raise Fail('batch-order', '%s: rank %d has score %s, expected %.6f' % (desc, i + 1, g[1], b))
                sc[g[0]].remove(min(sc[g[0]], key=lambda v: abs(v - float(g[1]))))
                if not sc[g[0]]:
                    sc[g[0]] = [math.inf] if False else []
            ev['batches'] += 1
            ev['ranked_traders'] += len(got)
        for x in logs:
            a, b = open(p('log.' + x), 'rb').read(), open(p('ref.' + x), 'rb').read()
            if a != b:
                k = next((i for i, (u, v) in enumerate(zip(a.splitlines(), b.splitlines())) if u != v), min(a.count(b'\n'), b.count(b'\n')))
                raise Fail('log', '%s: %s log (%d lines instead of %d) differs at line %d: %r instead of %r' % (desc, x, a.count(b'\n'), b.count(b'\n'), k + 1, a.splitlines()[k:k + 1], b.splitlines()[k:k + 1]))
            if x == 'exchange':
                rows = [l.split(',') for l in a.decode().splitlines()]
                if [int(r[0]) for r in rows if r[9] == ''] != [t[0] for t in want]:
                    raise Fail('log', '%s: exchange log does not contain exactly the selected ticks' % desc)
            ev['log_rows'] += a.count(b'\n')
    return ('%s %s' % (desc, sorted(args)[:3]) if want else None), desc


def case_errors(rng, env, fl, ev):
    tk = ticks(rng, rng.randint(1, 40), 1483228800, 3600)
    with rec.Dir(env) as d:
        p = lambda x: os.path.join(d, x)
        rec.write_file(p('t.rec'), 'ohlc', tk, rng)
        rec.write_file(p('s.rec'), 'side', [(1483228800 + i, (1.0,)) for i in range(5)], rng)
        os.mkdir(p('dir'))
        args = []
        m = rng.randint(0, 8)
        inp, kw = OHLC + p('t.rec'), {}
        if m == 0:
            bad = rng.choice(['', 'x', '2017-13-01', '2017-02-30', '2017-01-01 25:00:00', 'yesterday', '2017'])
            args, what = ['--%s_time=%s' % (rng.choice(['start', 'end']), bad)], 'invalid time'
        elif m == 1:
            inp, what = rng.choice([None, OHLC, OHLC + p('missing'), OHLC + p('dir'), OHLC + p('dir/x/y')]), 'unreadable ticks'
        elif m == 2:
            args, what = [SIDE + rng.choice([p('missing'), p('dir'), p('dir/x/y')])], 'unreadable side inputs'
        elif m in (3, 4):
            f = rng.choice(['t.rec', 's.rec'])
            body = rec.delimited([rec.message([(1, 1483228800 + i), (2, 1.5), (3, 2.0)]) for i in range(30)])
            import gzip
            good = gzip.compress(body)
            how = rng.randint(0, 2)
            if how == 0:
                bad = good[:-rng.randint(1, 8)] + b''
                bad = bad[:-8] + bytes([bad[-8] ^ 0x55]) + bad[-7:] if len(bad) == len(good) else good[:-8] + bytes(8)   # checksum
            elif how == 1:
                bad = bytes(rng.randrange(256) for _ in range(rng.randint(20, 400)))
                bad = b'\x00' + bad
            else:
                bad = gzip.compress(body[:-rng.randint(1, 10)])
            open(p(f), 'wb').write(bad)
            if f == 's.rec':
                args = [SIDE + p('s.rec')]
            what = 'damaged %s (%d)' % (f, how)
        elif m == 5:
            args = ['--evaluation_period_months=%d' % rng.choice([1, 6]), rng.choice([ELOG, TLOG]) + p('log')]
            what = 'log of several periods'
        elif m == 6:
            args, what = [rng.choice([ELOG, TLOG]) + rng.choice([p('dir'), p('no/such/log')])], 'unwritable log'
        elif m == 7:
            args, what = [rng.choice(['--no_such_option=1', '--start_base_balance=x', '--evaluation_period_months=1.5', '--evaluate_batch=maybe', '--market_liquidity=abc'])], 'bad option'
        else:
            args, what = [rng.choice([ELOG, TLOG]) + '/dev/full'], 'log on a full device'
            if not os.access('/dev/full', os.W_OK):
                return None, None
        args = args + ([inp] if inp else []) + ['--trader=' + rng.choice(['stop', 'rebalancing'])]
        rng.shuffle(args)
        desc = '%s (%s)' % (what, ' '.join(args))
        rc, so, se = rec.run(env, 'trader', fl, args, d)
        if rc == 'hang':
            raise Fail('hang', desc + ': does not terminate')
        if rc < 0 or rc >= 90:
            raise Fail('crash', '%s: dies with %s: %s' % (desc, rc, se[:1500]))
        if rc == 0:
            raise Fail('accepted', '%s: exits successfully' % desc)
        if not se.strip():
            raise Fail('no-message', '%s: fails without an error message' % desc)
        if m == 5 and os.path.exists(p('log')):
            raise Fail('log-written', '%s: writes the log' % desc)
        ev['rejections'] += 1
        ev['error_%d' % m] += 1
    return what + ' ' + ' '.join(sorted(x.replace(d, '') for x in args)), what


def directed(prop, env):
    return 0


def case(prop, seed, env):
    rng = random.Random('%s-%s-%s' % (env['work'], seed[0], seed[1]))
    ev = Counter()
    fl = 'asan' if prop == 'M01' else 'plain'
    env = dict(env, san=dict(env['san'], TZ=env['zones'][seed[1] % len(env['zones'])]))
    try:
        h, sample = (case_report if rng.random() < 0.75 else case_errors)(rng, env, fl, ev)
    except Fail as e:
        key, msg = e.args
        if prop == 'M01':
            return ev, None, None, [('crash', msg)] if key in ('crash', 'hang') else []
        return ev, None, None, [(key, msg)]
    return ev, (zlib.crc32(h.encode()) if h else None), sample, []
