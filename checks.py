"""Registry: which programs, flavours and sizes decide which property."""
import hashlib, os
_B = ['-std=c++17', '-O1', '-g1', '-w', '-DHAVE_ZLIB', '-pthread']
_V = os.path.dirname(os.path.abspath(__file__))
_WRT = os.path.join(_V, 'harness', 'work_rt.h')
_WRT_HASH = hashlib.sha256(open(_WRT, 'rb').read()).hexdigest()[:8]
FLAVOURS = {
    'work': dict(flags=_B + ['-D_GLIBCXX_ASSERTIONS', '-U_FORTIFY_SOURCE', '-fsanitize-coverage=trace-pc', '-include', _WRT, '-DVERIF_WRT=0x' + _WRT_HASH]),
    'plain': dict(flags=_B + ['-D_GLIBCXX_ASSERTIONS']),
    'asan': dict(flags=_B + ['-D_GLIBCXX_ASSERTIONS', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']),
    'tsan': dict(flags=_B + ['-fsanitize=thread']),
}

CHECKS = {}


def check(pid, rule, runs, **kw):
    CHECKS[pid] = dict(rule=rule, runs=runs, **kw)


_ACC = ('One case = one account configuration and a history of 8-60 (sometimes 600) orders on random ticks, every order judged; a case class is '
        'counted once per distinct (order type, side, amount kind, trigger relation, outcome, cap, fee regime, unit regime, liquidity, price relation) '
        'that executed, touched its trigger price exactly or was rejected after triggering.')
_ACC_T = 'runtime monitoring: online shadow-exchange monitor (interval arithmetic, exact on dyadic configurations) over random order histories'
_ACC_N = ('Every order of every generated history is judged by an independent reference; exact (zero tolerance) on dyadic configurations, within single-precision '
          'rounding otherwise. Trusts the reference, which is written from the documented order semantics. Sampled, not exhaustive.')
for _p in ('A01', 'A02', 'A03', 'A04'):
    check(_p, _ACC, [dict(prog='p_account', flavour='plain', quick=4000000, thorough=60000000)], technique=_ACC_T, note=_ACC_N)

_EVN = ('Every execution is judged by monitors over the recorded trace (every trader update, emission, log row and result); worlds (histories with gaps, '
        'zero-volume ticks, side inputs, fees, units) are random and trader scripts react to every bit they are given. Sampled, not exhaustive; order fills are '
        'taken from the account code (decided by A01-A04).')


def _ev(pid, rule, technique, quick, thorough):
    check(pid, rule, [dict(prog='p_eval', flavour='plain', quick=quick, thorough=thorough)], technique='runtime monitoring: ' + technique, note=_EVN)


_ev('E01', 'One case = one world executed twice with identical data up to a cut and different data after it; counted when both have updates after the cut.',
    'differential trace monitor: identical-prefix worlds must have identical trace prefixes', 800000, 15000000)
_ev('E02', 'One case = one execution replayed from its recorded emissions through a shadow exchange; counted when at least one order executed.',
    'offline trace checker replaying recorded emissions through a shadow exchange (exactly-once, order, conservation)', 1000000, 15000000)
_ev('E03', 'One case = one execution (slow, fast, with and without logger) whose summary is recomputed from the recorded trace; counted when at least one order executed.',
    'offline checker recomputing the summary from the recorded trace', 450000, 8000000)
_ev('E04', 'One case = one evaluation whose window list and per-window traces are compared with an independent civil-calendar reference; counted per distinct window set-up with a window or an empty one.',
    'trace monitor against an independent calendar reference, plus hang watchdog', 240000, 6000000)
_ev('E05', 'One case = one evaluation whose gains and averages are recomputed from the reported periods in double precision.',
    'online result oracle recomputing every derived number', 450000, 8000000)
_ev('E07', 'One case = a sequence of look-ups with every admissible hint against a linear scan, or one execution whose handed-over signals are recomputed.',
    'online oracle: linear-scan reference for every look-up and every handed-over signal list', 2000000, 25000000)
_ev('L01', 'One case = one execution logged through a recording logger and through the CSV logger, compared row by row with the trace; counted when at least one order executed.',
    'offline log checker: log rows against the recorded trace, CSV text against an independent formatter', 200000, 5000000)
check('E06', 'One case = one batch evaluated twice and often by several threads at once, compared with evaluating each trader alone; counted when the batch has at least two traders.',
      [dict(prog='p_batch', flavour='plain', quick=2500, thorough=60000),
       dict(prog='p_batch', flavour='tsan', quick=500, thorough=8000)],
      technique='runtime monitoring: ThreadSanitizer (happens-before race detector) plus differential oracle batch-versus-alone under injected delays',
      note='Every result is compared byte by byte with the lone evaluation; races are detected on the schedules executed (TSan sees the repository and harness code; '
           'protobuf and abseil are not instrumented). Sampled schedules, not exhaustive.')

_HN = 'Random and boundary-placed histories; the oracle recomputes the documented result independently for every case. Sampled, not exhaustive.'


def _h(pid, rule, technique, quick, thorough):
    check(pid, rule, [dict(prog='p_history', flavour='plain', quick=quick, thorough=thorough)], technique='runtime monitoring: ' + technique, note=_HN)


_h('H01', 'One case = one price history resampled; counted per distinct (rate, records, ticks, gap ticks).', 'online recomputation and volume-conservation oracle', 2500000, 30000000)
_h('H02', 'One case = one cleaned history, every keep/remove decision re-derived; counted when at least one jump out of the band occurred, per distinct removal pattern.',
   'online decision oracle following the observed decisions, band-edge boundary workload', 3000000, 40000000)
_h('H03', 'One case = one gap report or one outlier-context report compared with a full recomputation; counted per distinct parameter combination with a non-empty report.',
   'online recomputation oracle', 10000000, 120000000)
_h('H04', 'One case = six windows over one history, view and copy compared with a linear filter; counted per distinct (record kind, size, selected, bound kinds).',
   'online linear-filter oracle', 4000000, 40000000)

_IN = ('Every getter is read after every update. Streams are random (constant, trending, jumping, alternating, spiking, with gaps and duplicates); the reference '
       'recomputes in double precision and allows only what single-precision rounding of the documented recursion can contribute. Sampled, not exhaustive.')


def _i(pid, rule, technique, quick, thorough):
    check(pid, rule, [dict(prog='p_indicators', flavour='plain', quick=quick, thorough=thorough)], technique='runtime monitoring: ' + technique, note=_IN)


_i('I01', 'One case = one tick stream fed into one window (and into fine/coarse indicator pairs), contents and announcements compared after every tick; counted per distinct (N, granularity, aggregate ticks, filled ticks).',
   'online reference aggregator checking contents and announcements, and differential fine-versus-coarse monitor', 550000, 9000000)
_i('I02', 'One case = one stream through all indicators, or one value sequence with revisions through the helpers; counted per distinct (parameters, stream kind, length).',
   'online recomputation oracle in double precision with running rounding bounds', 1500000, 20000000)
_i('I03', 'One case = one degenerate or hostile stream through all indicators, every output range-checked; counted per distinct (parameters, stream kind, length).',
   'online range assertions under degenerate, hostile and long workloads', 400000, 6000000)

_TN = ('Every emitted order is judged against an independent reference written from the stated rule, in isolation and inside executions; comparisons allow '
       'single-precision rounding only. Sampled, not exhaustive.')


def _t(pid, rule, technique, quick, thorough):
    check(pid, rule, [dict(prog='p_traders', flavour='plain', quick=quick, thorough=thorough)], technique='runtime monitoring: ' + technique, note=_TN)


_t('R01', 'One case = one rebalancing trader driven through an execution or 1-12 updates around the band edges; counted per distinct (alpha, epsilon, order pattern).',
   'online order oracle (share restored, band edge prices and sizes) plus fresh-instance differential', 1500000, 25000000)
_t('R02', 'One case = one stop trader driven through an execution or up to 2000 updates; counted per distinct sequence of (start, mode change, gap, held, moved at rate, moved to margin).',
   'online reference automaton following the emitted stop prices', 600000, 16000000)
_t('R03', 'One case = the whole catalogue, a custom parameter grid, or several interleaved instances; counted per distinct catalogue entry or interleaving.',
   'catalogue behaviour monitor and interleaved-versus-alone differential monitor', 400000, 8000000)

check('U01', 'One case = one record sequence of one type written both ways and read back by list, stream and callback readers; counted per distinct (type, content, length).',
      [dict(prog='p_io', flavour='plain', quick=30000, thorough=500000)],
      technique='runtime monitoring: round-trip monitor with an independent gzip and framing decoder',
      note='Records are random over every field of six record types (unset, default, special values); file bytes are judged by zlib and an independent framing decoder. Sampled, not exhaustive.')
check('U02', 'One case = one file with every truncation and every bit flip, or 40 random damages, framing damage, garbage, or write and read faults; counted per distinct file content.',
      [dict(prog='p_io', flavour='plain', quick=80000, thorough=1500000)],
      technique='runtime monitoring: fault injection (truncation, corruption, I/O errors, full devices, size limits) with an outcome oracle',
      note='Small files are damaged exhaustively (every truncation, every bit), larger ones at random; every outcome must be an error or exactly the original records '
           '(an empty file is a valid empty sequence).')
check('U03', 'One case = one instant in every documented form, printed, shifted by months, and one malformed text; counted per distinct (instant, offset).',
      [dict(prog='p_time', flavour='plain', quick=6000000, thorough=80000000)],
      technique='runtime monitoring: online oracle against an independent calendar',
      note='Random and boundary instants of years 1 to 9999. Sampled, not exhaustive.')

_CN = ('Real program runs on generated files, judged by an independent reader, writer and recomputation of the documented conversion (Python). Sampled, not exhaustive.')
check('C01', 'One case = one generated history and window converted (often in two ways); counted per distinct (kind, output, source, options, selected records) with a non-empty window.',
      [dict(cli='convert', work='C01', needs=[('convert', 'plain')], quick=9000, thorough=150000)],
      technique='runtime monitoring: end-to-end output and report oracle over program runs, differential conversions', note=_CN)
check('C02', 'One case = one valid history with one injected defect, or one bad option set; counted per distinct (kind, source, defect, size, position, text).',
      [dict(cli='convert', work='C02', needs=[('convert', 'plain')], quick=9000, thorough=300000)],
      technique='runtime monitoring: fault injection into input files and options with an outcome oracle (exit status, message, output untouched)', note=_CN)
check('C03', 'One case = one trader program run (single or batch, with logs) compared with the same evaluation through the library, or one error case; counted per distinct run with selected ticks.',
      [dict(cli='trader', work='C03', needs=[('trader', 'plain'), ('reftool', 'plain')], quick=10000, thorough=120000)],
      technique='runtime monitoring: differential oracle program-versus-library over program runs, error injection with an outcome oracle',
      note='Ticks and side inputs are selected independently (Python) and evaluated by the library on plain text input; printed figures, rankings and log files must agree. '
           'The evaluation itself is decided by E01-E07. Sampled, not exhaustive.')

check('P01', 'One case = one operation measured at two sizes (window, records or history), or a trader over 4000-40000 updates; counted per distinct (operation, parameters, stream kind).',
      [dict(prog='p_cost', flavour='work', quick=6000, thorough=200000, budget=dict(quick=60, thorough=400)),
       dict(cli='cost', work='P01', needs=[('convert', 'work'), ('trader', 'work')], quick=160, thorough=4000, budget=dict(quick=40, thorough=200))],
      technique='runtime monitoring: cost monitors (executed basic blocks counted by compiler instrumentation, bytes allocated, moved and held) compared between two input sizes',
      note='Costs are counted, not timed, so they are the same on every machine; constant factors may change freely, only growth with the input is judged. Code inside protobuf, abseil and '
           'zlib is seen only through its allocations and copies. Sampled, not exhaustive.')


def _m(prog, quick, thorough, flavour='asan', work='all', **kw):
    return dict(prog=prog, flavour=flavour, work=work, quick=quick, thorough=thorough, budget=dict(quick=15, thorough=150), **kw)


_VG = ['valgrind', '-q', '--error-exitcode=96', '--leak-check=full', '--errors-for-leak-kinds=definite', '--undef-value-errors=yes', '--num-callers=20']
check('M01', 'One case = one workload of another property (random, hostile or degenerate) executed under AddressSanitizer, LeakSanitizer and UndefinedBehaviorSanitizer with checked containers '
      'and live internal assertions, or under memcheck; counted per distinct input class of that workload.',
      [_m('p_account', 16000, 800000, work='A01'), _m('p_eval', 3000, 150000), _m('p_history', 8000, 400000), _m('p_indicators', 5000, 250000),
       _m('p_traders', 5000, 250000), _m('p_io', 1500, 60000), _m('p_time', 20000, 1000000), _m('p_batch', 100, 4000, work='E06'),
       _m('p_account', 160, 4000, 'plain', work='A01', wrap=_VG), _m('p_eval', 48, 1000, 'plain', wrap=_VG), _m('p_history', 80, 2000, 'plain', wrap=_VG),
       _m('p_indicators', 64, 1500, 'plain', wrap=_VG), _m('p_traders', 200, 4000, 'plain', wrap=_VG), _m('p_io', 40, 800, 'plain', wrap=_VG),
       dict(cli='convert', work='convert', needs=[('convert', 'asan')], quick=700, thorough=30000),
       dict(cli='trader', work='trader', needs=[('trader', 'asan')], quick=500, thorough=20000)],
      technique='runtime monitoring: AddressSanitizer, LeakSanitizer, UndefinedBehaviorSanitizer, libstdc++ assertions and valgrind memcheck over all workloads and both programs',
      note='Every executed path of the repository code is instrumented; protobuf, abseil and zlib are not (memcheck sees them). Internal assertions are enabled. '
           'Says nothing about paths no workload executes. Sampled, not exhaustive.')
