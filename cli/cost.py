"""Cost monitors of both programs (P01): work counted by compiler
instrumentation must be proportional to the records of the input."""
import os, random, zlib
from . import rec
from .convert import BASE, Counter, Fail, FLAGS, OUT, history
from .trader import ELOG, OHLC, SIDE, TLOG, ticks
from .rec import f32

FACTOR = 8


def measured(env, prog, args, d, desc):
    out = os.path.join(d, 'work')
    if os.path.exists(out):
        os.unlink(out)
    rc, so, se = rec.run(dict(env, san=dict(env['san'], VERIF_WORK_OUT=out)), prog, 'work', args, d)
    if rc == 'hang':
        raise Fail('hang', '%s: %s does not terminate' % (desc, ' '.join(args)))
    if rc != 0:
        raise Fail('failed', '%s: %s exits with %s: %s' % (desc, ' '.join(args), rc, se[:1500]))
    try:
        return int(open(out).read())
    except (OSError, ValueError):
        raise Fail('failed', '%s: no work was reported' % desc)


def judge(desc, w, grow, slack):
    if w[1] > w[0] * grow * 1.6 + slack:
        raise Fail('program-cost', '%s: work %d and %d, more than proportional' % (desc, w[0], w[1]))


def case_convert(rng, env, d, ev):
    kind = rng.choice(['price', 'price', 'ohlc', 'side'])
    src = rng.choice(['csv', 'rec']) if kind != 'side' else 'csv'
    n1 = rng.randint(300, 900)
    n2 = n1 * FACTOR
    while True:
        recs, lines = history(rng, kind, n2, BASE + rng.randint(0, 10 ** 7))
        # The empty intervals of sparse histories count as well: no sparse ones here.
        if recs[-1][0] - recs[0][0] < n2 * 200:
            break
    prefix = rng.random() < 0.3
    args = ['--start_time=1970-01-01']
    args.append('--end_time=' + (rec.time_text(rng, recs[n1 // 2][0] + 1) if prefix else '1970-01-01'))
    if kind == 'price':
        args += ['--sampling_rate_sec=%d' % rng.choice([60, 300, 3600]), '--max_price_deviation_per_min=%g' % rng.choice([0.01, 0.05])]
        if rng.random() < 0.5:
            args += ['--top_n_gaps=%d' % rng.choice([1, 20]), '--last_n_outliers=%d' % rng.choice([1, 20])]
    outs = {'price': rng.choice([['price'], ['ohlc'], ['price', 'ohlc']]), 'ohlc': ['ohlc'], 'side': ['side']}[kind]
    desc = 'convert %s from %s, %d and %d records%s to %s' % (kind, src, n1, n2, ' (first ones only)' if prefix else '', '+'.join(outs))
    w = []
    for n in (n1, n2):
        p = os.path.join(d, 'in')
        if src == 'csv':
            with open(p, 'w') as f:
                f.writelines(','.join(l) + '\n' for l in lines[:n])
        else:
            rec.write_file(p, kind, recs[:n], rng)
        w.append(measured(env, 'convert', args + [FLAGS[(kind, src)] + '=' + p] + [OUT[k] + '=' + os.path.join(d, 'out-' + k) for k in outs], d, desc))
    ev['program_runs'] += 2
    ev['blocks_counted'] += sum(w)
    judge(desc, w, 1 if prefix else FACTOR, 40000)
    return desc, '%s: work %d and %d' % (desc, w[0], w[1])


def case_trader(rng, env, d, ev):
    n1 = rng.randint(300, 900)
    n2 = n1 * FACTOR
    step = rng.choice([60, 300, 3600])
    while True:
        tk = ticks(rng, n2, BASE, step)
        if all(t[4] > 1e-3 for t in tk):
            break
    which = rng.choice(['stop', 'rebalancing'])
    months = rng.choice([0, 0, 1]) if step == 3600 else 0
    logs = not months and rng.random() < 0.5
    side = rng.random() < 0.5
    desc = 'trader %s, %d and %d ticks%s%s, %d months' % (which, n1, n2, ', logged' if logs else '', ', side input' if side else '', months)
    w = []
    for n in (n1, n2):
        p = os.path.join(d, 'in')
        rec.write_file(p, 'ohlc', tk[:n], rng)
        a = [OHLC + p, '--trader=' + which, '--start_time=2017-01-01', '--end_time=' + rec.utc(tk[n - 1][0] + 1), '--evaluation_period_months=%d' % months]
        if side:
            s = os.path.join(d, 'side')
            rec.write_file(s, 'side', [(t[0], (1.0, 2.0)) for t in tk[:n:7]], rng)
            a.append(SIDE + s)
        if logs:
            a += [ELOG + os.path.join(d, 'e'), TLOG + os.path.join(d, 't')]
        w.append(measured(env, 'trader', a, d, desc))
    ev['program_runs'] += 2
    ev['blocks_counted'] += sum(w)
    judge(desc, w, FACTOR, 40000 + (w[0] * FACTOR if months else 0))
    return desc, '%s: work %d and %d' % (desc, w[0], w[1])


def directed(prop, env):
    return 0


def case(prop, seed, env):
    rng = random.Random('%s-%s-%s' % (env['work'], seed[0], seed[1]))
    ev = Counter()
    try:
        with rec.Dir(env) as d:
            h, sample = (case_convert if rng.random() < 0.6 else case_trader)(rng, env, d, ev)
    except Fail as e:
        return ev, None, None, [e.args]
    return ev, zlib.crc32(h.encode()), sample, []
