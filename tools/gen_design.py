import json,glob,os
props={}
for l in open('/verif/properties.jsonl'):
    d=json.loads(l); props[d['id']]=d
seeded={}
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d=json.load(open(m)); seeded.setdefault(d['property'],[]).append((os.path.basename(os.path.dirname(m)),d['needs'],d['what_it_breaks']))
HEAD='''# Runtime monitoring of petercerno/trader-backtest

Technique family: **runtime monitoring and sanitizers**. The real code, rebuilt from `/repo`'s
working tree on every run, is executed under generated realistic, boundary and hostile workloads;
oracles written here (shadow models, trace checkers, offline log checkers) and compiler sanitizers
decide. Nothing is proved; each check states in its evidence file what its monitors observed
(executions, events by kind, distinct case classes, samples).

## Layout and mechanics

* `properties.jsonl` - the 30 properties (generated by `tools/gen_properties.py`); `MANIFEST.json` by `tools/gen_manifest.py`.
* `check.py ID [--tier quick|thorough] [--seed N]` - finds the library sources of the working tree (every non-test
  `.cc` and `.proto`), builds the needed flavour (content-hashed cache under `build/`, ignored by git), runs the harness in 8 shards,
  judges crashes, hangs, sanitizer reports and monitor verdicts, writes `evidence/ID.json`, prints `VIOLATION` / `KNOWN-FINDING`.
  `--replay FILE` re-runs one reported case.
* `checks.py` - the registry: program, flavour and number of cases per property and tier.
* `harness/common.h` (driver: seeds, shards, per-case watchdog, evidence), `interval.h` (interval arithmetic for float tolerance),
  `world.h` (random histories, accounts, side inputs, scripted traders, recording logger), `p_*.cc` (workloads + monitors),
  `reftool.cc` (library evaluation from plain text, for C03).
* `cli/*.py` - checks driving the real `convert` and `trader` programs; `cli/rec.py` is an independent Python codec for record files.
* `known-findings.txt` - genuine defects: `fixed:` (repaired in /repo); none is open.

Flavours: `plain` (-O1, assertions of the repository on, libstdc++ assertions), `asan` (AddressSanitizer, LeakSanitizer, UBSan with
float-cast-overflow, no recovery), `tsan` (ThreadSanitizer), `work` (every basic block counted). Every case runs from its own 64-bit seed derived from
`--seed`/`VERIF_SEED`, so any violation replays alone. A crash, failed internal assertion or watchdog timeout in any harness is a violation of the
property being run. The time zone of the process varies between shards (the code must not depend on it).
No hooks were needed in /repo: the public interfaces (logger, trader, emitter callbacks, files, program output) expose every event the monitors need.

Cost: 6-45 s per quick check on 8 cores (M01 about 90 s including three builds, fewer when cached); thorough 5-12 minutes.

Why this reaches what the tests cannot: the tests fix a handful of hand-written inputs per function. The monitors judge every order, update,
row, window, tick, record or output of 10^4-10^6 generated executions per run, and the generators aim at the boundaries where
such code goes wrong: balances exactly at the cost or one unit off, prices exactly on tick extremes, times exactly on window edges and beyond
32 bits, empty and single-element inputs, gaps from one interval to centuries, thousands of orders in one tick, hundreds of traders in a batch, files cut or
flipped at every byte. Rare sizes (long histories, large files, large batches) are drawn with low probability in every run.

## How each property is decided
'''
T={
'A01':('p_account','Random order histories (8-600 orders) on one account; configurations with dyadic units (all arithmetic exact in float: zero tolerance) and with decimal units (interval arithmetic). Boundary generator: amounts exactly at balance, cost +/- one unit or one ulp, `nextafter`/x1.000001 above the balance with and without base unit.','Signs of both balances, unchanged state after refusal, refusal of what is not covered, monotone fee; per order.'),
'A02':('p_account','As A01, plus fee regimes (relative, fixed, minimum, mixed, zero, separate schedules per order type).','Shadow ledger: cost, proceeds, fee recomputed from the fill observed; unit-multiple invariant.'),
'A03':('p_account','As A01 with prices exactly at open/high/low/close, one ulp beside them, stop prices the market has jumped over, liquidity 0..1.','Trigger predicate and fill price recomputed from the tick; decision must match in both directions outside the rounding interval.'),
'A04':('p_account','As A01 with caps at, below, above the amount; zero-volume ticks; quote amounts near fee and unit.','Size recomputed; completeness (covered orders must execute) and no executed nothing. Quote-limit: one quote unit of float slack, as the statement says.'),
'E01':('p_eval','Pairs of executions which agree up to tick k and differ after it (cut, other ticks, other side inputs, other volatility), scripted and shipped traders, with evaluation windows.','Updates, rows, states up to k must be identical; every fill must be explained by an order emitted at an earlier tick (shadow replay up to the final balances); a history that ends at k must end with the balances the longer one has there.'),
'E02':('p_eval','Worlds of up to 200 ticks (gaps, zero-volume ticks with prices, floods of up to 1100 orders per update, identical orders repeated, last orders re-emitted).','Offline trace checker: emissions replayed through a second account must give every balance handed over, the sequence of rows, the count and the fees.'),
'E03':('p_eval','Slow/fast x logged/unlogged execution of the same world; some histories of 400-15000 four-hour or daily ticks.','Summary recomputed from the recorded trace; volatility as two-pass standard deviation in double over day values. Days without update may be valued with the balances before or after the gap (the statement does not fix it).'),
'E04':('p_eval','Random evaluation configurations: holes, empty histories, empty/inverted windows, periods of 0-300 months, start days 1-31, up to 80 years of history; watchdog for non-termination.','Window list from an independent civil calendar; every period compared with a stand-alone execution. For start days above 28 either the last day of the month or the overflow into the next one is accepted, but no drift.'),
'E05':('p_eval','Evaluations with up to hundreds of periods, extreme gains.','Gains, score (in log domain), averages recomputed in double; copied configurations compared byte by byte. Century-long workloads use one-month periods so that float portfolio values do not overflow.'),
'E06':('p_batch','Batches of 1-300 emitters with injected delays, spin and yields inside the traders, several batches from several threads at once over shared history and side input; plain and TSan builds.','TSan reports; byte equality with evaluating each trader alone, in order; start/finish log reports the overlap achieved in evidence.'),
'E07':('p_eval','Side histories x query sequences x every admissible hint; executions with side inputs older than the first tick, very old, repeated, many per tick.','Linear scan gives index, signals (bit for bit) and age.'),
'L01':('p_eval','Executions logged through a recording logger and through CsvLogger (each combination of streams), very large numbers, long states with special characters, empty or rarely changing states.','Rows against the shadow replay; CSV text against an independent formatter; results with and without logging byte-identical.'),
'H01':('p_history','Random histories (rates 1 s to days, duplicates, records on interval edges, times beyond 2^32, gaps up to 300000 intervals, NaN-free hostile volumes).','Independent resampling; volume conservation within float rounding; alignment and no holes.'),
'H02':('p_history','Jumps placed exactly at the band edge +/- ulps, persistent/reverting/alternating jumps, invalid records interleaved, gaps of minutes to weeks, with and without the index output.','Each keep/remove decision re-derived in interval arithmetic following the observed decisions; undecidable within rounding is skipped and counted.'),
'H03':('p_history','Random times with ties, equal times, optional start/end, N from 0 up; unsorted and repeated outlier lists.','Full recomputation. Ties prefer earlier gaps as the comparator documents.'),
'H04':('p_history','Three record types, windows with edges on, beside and between records, unbounded sides, inverted, beyond 32 bits.','Linear filter; view and copy both.'),
'I01':('p_indicators','Streams with gaps, quiet ticks with prices, period sizes 1 s to weeks, N 1..many; all indicators fed fine versus coarse.','Reference aggregator for contents and announcements; differential for indicator values.'),
'I02':('p_indicators','All indicators on constant, trending, alternating, spiking streams with low- and high-priced assets, window sizes from 1, helpers with revisions.','Recomputation from scratch in double after every update with running rounding bounds (drift of %D capped at 0.1). Volatility keeps balances over gap days.'),
'I03':('p_indicators','Degenerate, hostile and long streams.','Finite and in-range assertions on every getter after every update.'),
'R01':('p_traders','Rebalancing trader in isolation around band edges, repeated identical updates, and in executions; alpha in [0.01, 0.999], epsilon in [0.001, 0.99].','Share-restoring size, edge prices, sizes and omission rules recomputed; fresh-instance differential shows it depends on the current tick only.'),
'R02':('p_traders','Stop trader in isolation (up to 2000 updates; constant price, exact equality of both halves, gaps of exactly one hour +/- 1 s and beyond 2^31/2^32 s) and in executions.','Reference automaton that follows the emitted price.'),
'R03':('p_traders','The whole catalogue, custom grids, several interleaved instances.','Name grid, behaviour of each member against its stated parameters, interleaved-versus-alone differential, state strings.'),
'U01':('p_io','Six record types with unset, default and special values, 0 to thousands of records, 70-80 MB files; list, stream and callback readers.','Byte-exact round trip; independent gzip + framing decoder; early stop and failing readers.'),
'U02':('p_io','Every truncation and bit flip of small files, random damage of larger ones, framing damage, garbage, read faults, full devices, size limits.','Outcome oracle: error or exactly the original; hang watchdog; write errors must be reported.'),
'U03':('p_time','Instants of years 1-9999 in every documented form, months -5000..5000, malformed texts; several process time zones.','Independent proleptic Gregorian calendar. Forms whose status is not documented ("+hh" offsets, surrounding white space) are not judged.'),
'C01':('cli/convert.py','Generated CSV/record files x windows x options, converted directly and in two steps.','Python re-implementation: output records, reports (counts, gaps, outlier context) and exit status.'),
'C02':('cli/convert.py','One defect per file at varied positions (also in files of thousands of lines), every numeric field, bad options.','Exit status, message naming the problem, no output file. Blank last line and the row numbers of side inputs are not judged.'),
'C03':('cli/trader.py + reftool','Program runs (single, batch, logs, balances, windows) and error cases.','Selection re-done in Python, evaluated by the library under the documented configuration, compared with printed figures, ranking, logs. An unknown trader name (internal assertion) is outside the statement.'),
'P01':('p_cost (flavour `work`), cli/cost.py','Each operation at two sizes: indicators with small and large windows over thousands of ticks (seven stream kinds, gaps, revisions), look-ups near and far from the hint, executions and evaluations of n and 8n ticks with and without log, side inputs and periods, shipped traders over up to 40000 updates, history passes, record streams, both programs.','Work = executed basic blocks (compiler instrumentation `-fsanitize-coverage=trace-pc`) + (bytes allocated + bytes moved)/16, counted exactly, not timed; the ratio between the sizes must stay below the documented growth times 1.6-3 plus a constant. Live and peak bytes from replaced allocation functions. Constant factors are free to change. Batches (threads) are not measured.'),
'M01':('all harnesses, convert, trader','All other workloads under ASan+LSan+UBSan and a subset under valgrind memcheck; both programs under ASan+UBSan.','Sanitizer/memcheck reports, internal assertions, libstdc++ assertions.'),
}
out=[HEAD]
for pid,(prog,wl,orc) in T.items():
    out.append('### %s %s\n\n*Program*: `%s`. *Workload*: %s *Oracle*: %s\n'%(pid,props[pid]['title'],prog,wl,orc))
assert set(T)==set(props)
out.append(open('/verif/tools/design_tail.md').read())
out.append('\n## Planted changes (`seeded/`) and what catches them\n\nEvery change below compiles, passes the 110 tests, has a demonstration that fails with it, and is reported by the quick check of its property (seed 1).\n\n| property | change | needs |\n|---|---|---|\n')
for p in sorted(seeded):
    for i,n,b in seeded[p]: out.append('| %s | %s | %s |\n'%(p,i,n.replace('|','/')))
open('/verif/DESIGN.md','w').write(''.join(o if o.endswith('\n') else o+'\n' for o in out))
