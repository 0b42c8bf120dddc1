import json
P=[]
def p(id,title,st,over,q,why,files,mech,obs,state=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    assert len(title)<=80,(id,len(title)); P.append(d)
ACC=['base/account.cc','base/account.h','base/base.proto']
p('A01','Orders never overdraw the account and failed orders change nothing',
 'However orders are sequenced, no order ever leaves a negative base or quote balance: a buy whose cost plus fee exceeds the quote balance, or a sell larger than the base balance, is not executed. An order reported as not executed leaves both balances and the accumulated fee exactly as they were. The accumulated fee never decreases.',
 ['inputs','histories','configurations'],'every account configuration with non-negative fees, every sequence of valid orders (type x side x base/quote amount) on every well-formed OHLC tick, including exact-balance boundaries, zero-volume ticks and amounts below one unit',
 'account_test.cc pins single orders with a handful of hand-picked amounts; it never drives one account through long mixed order sequences nor sweeps the exact-affordability boundary.',
 ACC,[('affordability test before any balance update','base/account.cc: BuyBase, SellBase, BuyAtQuote, SellAtQuote')],['balances, accumulated fee and return value around every executed order'],
 [('balances and accumulated fee','money held by the simulated trader','base/account.h: Account')])
p('A02','Executed orders balance the ledger and charge the scheduled fee',
 'Every executed order changes base and quote in opposite directions so that, at the fill price, a buy costs the traded value rounded up to the quote unit plus the fee and a sell yields the traded value rounded down to the quote unit minus the fee. The fee is the larger of the minimum fee and the fixed fee plus the relative fee on the traded quote value, rounded up to the quote unit, taken from the schedule configured for that type of order, and added to the accumulated fee. Balances that start as whole multiples of the configured units stay whole multiples (up to float precision).',
 ['inputs','histories','configurations'],'every executed order under every fee schedule (different for market, stop and limit orders), unit setting (including unused units) and starting balances that are whole multiples of the units',
 'Tests use the same fee schedule and a few amounts; agreement must hold for every combination of schedule, unit, price and amount and after any history.',
 ACC,[('rounding helpers and fee computation','base/account.cc: Floor, Ceil, Round, GetFee'),('selection of the fee schedule','base/account.cc: ExecuteOrder')],['balance and fee deltas around every executed order'])
p('A03','Orders trigger only when the tick reaches them and fill at the right price',
 'A market buy (sell) fills at the opening price moved towards the high (low) of the tick in proportion to the missing market liquidity. A stop buy (sell) executes only if the high (low) of the tick reaches the stop price, and fills at the worse of the stop price and the opening price, moved towards the high (low) in the same proportion. A limit buy (sell) executes only if the low (high) of the tick reaches the limit price, and fills exactly at the limit price; reaching a price includes touching it exactly.',
 ['inputs','configurations'],'every OHLC tick, every liquidity in [0, 1], every stop and limit price relative to the tick including exact equality with open, high, low or close, for both sides and both amount kinds',
 'account_test.cc samples a few prices per order kind; the trigger boundary and the interpolation must be right for every relative position of price and tick.',
 ACC,[('trigger comparisons','base/account.cc: Stop*/Limit* methods'),('fill price interpolation','base/account.cc: GetMarketBuyPrice .. GetStopSellPrice')],['return value and implied fill price of every order'])
p('A04','Fill sizes: requested amount, quote limit, volume cap and completeness',
 'An order for a base amount fills that amount rounded to the base unit; an order for a quote amount fills the whole number of base units (rounded down) that the amount, less (buy) or plus (sell) the fee on it, is worth at the fill price, so a buy never spends and a sell never receives more than the stated quote amount (up to float precision, which may tip one quote unit). A limit order never fills more than the configured fraction of the volume of the tick, rounded down to the base unit, and is filled partially up to that cap. A triggered order that amounts to at least one unit and is covered by the balance is always executed, and an order that amounts to nothing is never reported as executed.',
 ['inputs','configurations'],'every order kind, amount, unit, fee schedule, volume and volume ratio (0 = no cap), including zero volume and unused units',
 'The tests cover a few partial fills; the size rules must hold for every mix of cap, fee, unit and balance.',
 ACC,[('size computation and caps','base/account.cc: BuyAtQuote, SellAtQuote, Limit*, GetMaxBaseAmount')],['base balance delta of every order'])
EV=['eval/eval.cc','eval/eval.h','base/trader.h']
p('E01','No look-ahead: decisions never depend on future ticks or side inputs',
 'When a trader is updated at a tick it has been given nothing derived from any later tick or later side input record: replaying with arbitrarily different data after some point in time yields identical updates, orders, fills, balances and log rows for everything up to and including that point. Orders emitted at a tick are never executed on that same tick, only on following ticks. This holds for the shipped traders as well as for user-written ones.',
 ['inputs','histories'],'every pair of OHLC histories / side histories that agree up to some time and differ arbitrarily afterwards (changed, removed, appended), for scripted and shipped traders, with and without side inputs',
 'No test compares two executions; a single expected-output test cannot distinguish a result that used the future from one that did not.',
 EV+['base/side_input.cc','traders/stop_trader.cc','traders/rebalancing_trader.cc'],[('execute pending orders first, update trader afterwards','eval/eval.cc: ExecuteTrader')],['trader updates, emitted orders, logger callbacks of paired executions'])
p('E02','Order lifecycle: emitted orders run once on the next tick, in order',
 'At every tick the exchange first executes exactly the pending orders, in emission order, against that tick, and then, if the tick has volume, discards them and updates the trader exactly once with that tick and the resulting balances, starting from the configured starting balances. On a zero-volume tick the trader is not updated and the pending orders stay pending. No other order is ever executed, and none is dropped, duplicated or reordered.',
 ['histories','inputs','configurations'],'every OHLC history (including runs of zero-volume ticks, at the start, middle and end), every stream of emitted orders (none, one, many per tick) and every account configuration',
 'eval_test.cc runs one small history with one order per tick and no zero-volume tick.',
 EV,[('pending order vector and zero-volume handling','eval/eval.cc: ExecuteTrader')],['sequence of logger callbacks and trader updates (event trace)'],[('pending orders','orders emitted at the last update','eval/eval.cc: ExecuteTrader')])
p('E03','Execution summary is truthful; fast evaluation only omits volatilities',
 'The summary of an execution reports the starting and ending balances, the closing prices of the first and last tick, portfolio values computed from them, the number of orders actually executed and the total fee actually charged. Its volatilities are the standard deviations of the daily logarithmic returns of the baseline and of the portfolio, multiplied by the square root of 365. Fast evaluation and the presence of a logger change nothing in the summary except that fast evaluation leaves out the volatilities.',
 ['inputs','histories','configurations'],'every history, trader and account configuration, including zero-volume first/last ticks, single-tick histories and multi-day gaps',
 'Tests compare two expected summaries; agreement with the actual trace must hold for every execution.',
 EV+['indicators/volatility.cc','eval/eval.proto'],[('result assembly','eval/eval.cc: ExecuteTrader')],['returned summary against the recorded trace'])
p('E04','Evaluation windows: sliding months, fresh start each, always terminates',
 'With a positive evaluation period, the windows start at the configured start time plus 0, 1, 2, ... calendar months, last that many months, and every window that ends no later than the configured end and contains at least one tick is evaluated, and no other; with period zero there is exactly the one window [start, end) if it contains a tick. Every window is evaluated on exactly the ticks inside it, with a fresh trader and the configured starting balances, and yields what evaluating that window alone would yield. Evaluation terminates for every history and configuration, including empty histories and windows without ticks.',
 ['inputs','configurations'],'every history (empty, with multi-month holes, ending early or late), start/end time (including inverted and unbounded) and period length',
 'Tests use one 12-month history with full coverage and 6-month windows.',
 EV+['base/base.h','util/time.cc'],[('month loop and history subset','eval/eval.cc: EvaluateTrader; base/base.h: HistorySubset')],['reported periods, trader creations and first updates per window'])
p('E05','Gains, score and averages follow from the reported periods',
 'For every evaluated period the gain is ending value over starting value and the baseline gain is ending price over starting price. The score is the geometric mean over periods of gain divided by baseline gain, and the reported average gains, executed orders and fees are arithmetic means over the periods; with no periods they are zero. The result also carries the account configuration, evaluation configuration and trader name it was computed with.',
 ['inputs','configurations'],'every evaluation whose values and prices are positive and whose gains are within float range, with any number of periods',
 'One expected result is compared; the identities must hold for all evaluations and period counts.',
 EV+['eval/eval.proto'],[('averaging helpers','eval/eval.cc: GetAverage, GetGeometricAverage')],['returned evaluation result'])
p('E06','Batch evaluation is deterministic, ordered and free of data races',
 'Evaluating a batch of traders in parallel returns, for every trader and in the order given, exactly the result that evaluating that trader alone returns. Repeating the batch, or running several batches concurrently over the same history and side input, gives the same results. No two threads access shared data without synchronisation.',
 ['schedules','inputs'],'every batch size (0 to hundreds, with duplicates and traders of very different cost), thread interleaving, shared side input, and concurrent batches',
 'The unit test runs one batch of a few traders once on whatever schedule occurs, without a race detector.',
 EV+['base/side_input.cc','traders/trader_factory.cc'],[('one asynchronous task per trader, joined in order','eval/eval.cc: EvaluateBatchOfTraders')],['batch results under thread sanitizer with injected delays; start/finish event log of trader instances'])
p('E07','Side inputs: latest record at or before the tick, with its true age',
 'At every update the trader receives the signals of the latest side input record whose time is not after the tick, in their original order, followed by the age of that record in seconds at the tick; before the first record it receives an empty list. The lookup gives the same answer whether or not a hint about the previous position is supplied, and after any number of skipped or repeated records. Signals reach the trader unchanged.',
 ['inputs','histories'],'every side history with increasing positive timestamps (1 to thousands of records, any number of signals), every tick sequence (denser, sparser, before, between, far after the records) and every valid hint',
 'side_input_test.cc looks up a few timestamps in a five-record history.',
 ['base/side_input.cc','base/side_input.h','eval/eval.cc'],[('binary search with O(1) hint','base/side_input.cc: GetSideInputIndex'),('age signal','eval/eval.cc: ExecuteTrader')],['signals received by the trader at each update; direct lookups'])
p('L01','Logs are faithful, complete and free of side effects',
 'For every tick the exchange log contains one row with that tick and the account as it was before any of its orders executed, followed by one row per executed order, in order, with the account right after it; the trader log contains one row with the internal state after every update. In the CSV form each row has the documented columns in the documented order, each value shows its number to three decimals, and absent order fields are empty. Logging never changes the results.',
 ['histories','inputs'],'every execution, every order kind, magnitudes from 0.001 to 1e9 and timestamps beyond 32 bits, with either or both log outputs enabled',
 'csv_logger_test.cc prints four rows; the correspondence between log and execution is not tested for other executions.',
 ['logging/csv_logger.cc','logging/logger.h','eval/eval.cc'],[('row formatting','logging/csv_logger.cc'),('log calls','eval/eval.cc: ExecuteTrader')],['logger callbacks and CSV text against the recorded trace'])
HI=['base/history.cc','base/history.h','base/base.h']
p('H01','Resampling preserves the price history in fixed-rate OHLC ticks',
 'Resampling yields consecutive ticks aligned to multiples of the sampling rate from the first to the last record, one per interval and without holes. A tick whose interval contains records has their first price as open, last as close, extreme prices as high and low and the sum of their volumes as volume; an interval without records becomes a zero-volume tick at the previous close. Hence low <= open, close <= high, and the total volume is conserved.',
 ['inputs'],'every price history with non-decreasing positive timestamps (duplicates, dense bursts, long gaps, interval-edge times, timestamps beyond 32 bits) and every sampling rate',
 'history_test.cc resamples one small history at a few rates.',
 HI,[('interval bucketing and gap filling','base/history.cc: Resample')],['output ticks against an independent recomputation'])
p('H02','Outlier removal keeps genuine prices and removes exactly the outliers',
 'The cleaned history is the input with exactly the reported outlier positions removed, order and contents unchanged, positions ascending; asking for the positions does not change the result. Records with non-positive price or negative volume are always removed; the first remaining record is always kept. Any other record is removed if and only if its price leaves the band around the last kept price, (1 + allowed deviation per minute) times the square root of the elapsed minutes (at least one), and fewer than three of the next ten valid records stay on the far side of the jump, measured at 80% of the band edge plus 20% of the last kept price.',
 ['inputs'],'every price history with finite values and non-decreasing timestamps and every positive allowed deviation, including outliers at both ends, consecutive outliers, persistent jumps, gaps and invalid records inside the look-ahead',
 'history_test.cc checks a few hand-made series of about ten records.',
 HI,[('band and look-ahead rule','base/history.cc: RemoveOutliers')],['cleaned history and reported positions against an independent recomputation'])
p('H03','Gap and outlier-context reports are complete and correct',
 'The gap report lists the N largest gaps between consecutive records (and to the optional start and end of the period), never more than N, in chronological order, preferring earlier gaps among equally long ones. The outlier context report covers the last M outliers (all if M is zero) together with up to the requested number of neighbours on either side inside the history, and marks exactly the covered outliers as outliers.',
 ['inputs'],'every price history, N, period bounds, outlier list, context sizes and M, including N = 0, ties, N larger than the number of gaps and outliers at the ends',
 'history_test.cc samples a few N and contexts on one history.',
 HI,[('bounded priority queue','base/history.cc: GetPriceHistoryGaps'),('context map','base/history.cc: GetOutlierIndicesWithContext')],['returned gap list and index map'])
p('H04','Time-window selection is exact, half-open and safe',
 'Selecting the window [start, end) of a time-ordered history returns exactly the records with start <= time < end, in order and unchanged; a non-positive bound means unbounded on that side. Copying a window gives the same records as the view of it. Empty histories, empty windows and inverted windows give an empty selection.',
 ['inputs'],'every history with non-decreasing timestamps (price, OHLC and side records, duplicates included) and every pair of bounds, including bounds equal to record times, before, after and inverted',
 'base_test.cc samples a few bounds on a small history.',
 ['base/base.h'],[('binary search on time','base/base.h: HistorySubset, HistorySubsetCopy')],['returned range'])
IN=['indicators/last_n_ohlc_ticks.cc','indicators/util.cc']
p('I01','Tick aggregation is exact and independent of update granularity',
 'Feeding ticks of any finer granularity into an N-tick window of a given period keeps exactly the last N period-aligned aggregate ticks: first open, extreme high and low, last close and total volume of the fed ticks in the period, with missing periods filled by zero-volume ticks at the previous close. Every change is announced exactly once, as an update of the latest tick, an added tick, or an added tick with the removed oldest one. Consequently every indicator gives the same value after feeding fine ticks as after feeding the equivalent coarse ticks.',
 ['inputs','histories'],'every tick stream with non-decreasing timestamps whose granularity divides the period, any N and period, including gaps of many periods, duplicates of a timestamp and streams starting mid-period',
 'The tests feed two fixed granularities of a 12-tick example.',
 IN+['indicators/*.cc'],[('period alignment and backfill','indicators/last_n_ohlc_ticks.cc: Update')],['window contents and callback trace after every update; indicator values for coarse versus fine feeds'])
p('I02','Indicators equal their textbook definitions at every step',
 'After every update, the simple moving average equals the mean of the last N closing prices; the exponential moving average, MACD (fast minus slow average, its signal average and their difference) and RSI (50 when no price has changed) equal their standard recursions over the closing prices of the aggregated ticks; the stochastic oscillator reports the lowest low and highest high of the last N ticks, %K (50 when they are equal), and its 3-period averages; volatility equals the standard deviation of the logarithmic returns in the window. Each indicator reports the number of ticks seen (for the simple moving average: in the window). The window mean, variance, minimum, maximum and exponential average helpers likewise equal a direct recomputation, also when the current value is revised any number of times.',
 ['inputs','histories'],'every tick stream, window length (including 1 and longer than the history) and period, with price levels from 0.01 to 1e6 (flat stretches, jumps, trends) over histories of thousands of ticks, within single-precision rounding',
 'Tests check one 12-tick example; errors that need long histories, revisions or particular window positions stay invisible.',
 ['indicators/simple_moving_average.cc','indicators/exponential_moving_average.cc','indicators/moving_average_convergence_divergence.cc','indicators/relative_strength_index.cc','indicators/stochastic_oscillator.cc','indicators/volatility.cc','indicators/util.cc'],[('incremental O(1) updates','indicators/util.cc and callbacks of each indicator')],['indicator getters after every update against recomputation from scratch in double precision'])
p('I03','Indicator outputs are always finite and inside their ranges',
 'For every sequence of valid ticks all indicator outputs are finite numbers: RSI, %K, %D-fast and %D-slow lie within [0, 100], variance, standard deviation and volatility are never negative, moving averages lie within the range of the prices averaged, and the reported low and high bracket the current tick. This holds on flat, monotone, extremely volatile and very long histories and before any update.',
 ['inputs','histories'],'every well-formed tick stream with prices from 1e-3 to 1e7, including constant prices, constant daily returns, spikes of many orders of magnitude and long runs, up to single-precision rounding',
 'The tests have no flat or degenerate series long enough to accumulate rounding, where the failures (negative variance, division by zero) arise.',
 ['indicators/*.cc'],[('guards for degenerate spans and rounding','indicators/util.cc, indicators/relative_strength_index.cc, indicators/stochastic_oscillator.cc')],['indicator getters after every update'])
p('R01','Rebalancing trader restores the target allocation',
 'When the base share of the portfolio at the closing price is above (below) the allowed band of (1 +/- epsilon) times alpha, the rebalancing trader emits exactly one market sell (buy) whose size at that price brings the share back to alpha. Inside the band it emits at most one limit sell above and one limit buy below the current price, at the prices where the share reaches the upper and lower edge of the band, each sized base balance times epsilon / (1 + epsilon) for the sell and epsilon / (1 - epsilon) for the buy, and omits a side only when a balance is negligible (at most 0.000001), the edge cannot be reached, or that price is not on its side of the current price or is more than a factor 100 away from it. Every emitted order is valid, and depends only on the current tick and balances.',
 ['inputs','histories','configurations'],'every alpha in (0, 1), epsilon in (0, 1), positive closing price and non-negative balances that are not both zero, after any history of previous updates',
 'There is no test of any shipped trader.',
 ['traders/rebalancing_trader.cc','traders/trader_config.proto'],[('band test and order sizing','traders/rebalancing_trader.cc: Update')],['orders emitted at each update, in isolation and inside executions'])
p('R02','Stop trader emits one trailing stop that only ratchets within its limits',
 'At every update the stop trader emits exactly one stop order: a stop sell of the whole base balance when at least half of the portfolio is in the base currency, otherwise a stop buy for the whole quote balance. After a start, a change of mode, or a gap of an hour or more since the last update, the stop price is the closing price less (sell) or plus (buy) the stop margin. Otherwise a sell stop never decreases and a buy stop never increases; it moves only when it is at or beyond the move margin from the closing price, never past that margin, and never faster than the configured relative rate per day in proportion to the elapsed time.',
 ['inputs','histories','configurations'],'every price path, update spacing, balance evolution (including mode flips) and configuration with margins and daily rates in (0, 1)',
 'There is no test of any shipped trader.',
 ['traders/stop_trader.cc','traders/stop_trader.h','traders/trader_config.proto'],[('mode, gap and ratchet rules','traders/stop_trader.cc: Update, UpdateStopOrderPrice')],['order emitted at each update against a reference automaton'],[('stop price and mode','trailing stop state','traders/stop_trader.h')])
p('R03','Trader catalogue: names identify configurations, instances are independent',
 'Each shipped trader and each member of a shipped batch is identified by a name that states its kind and its actual parameters to three decimals; the batches cover every combination of their documented parameter values exactly once. Every instance obtained for evaluation starts fresh: instances of the same or different configuration never influence each other, however their updates interleave. The internal-state string reports the last seen time, balances, closing price and, for the stop trader, mode and stop price.',
 ['inputs','histories','schedules'],'every catalogue entry, every parameter grid, and every interleaving of updates of several instances',
 'There is no test of the factory or of the shipped traders.',
 ['traders/trader_factory.cc','traders/rebalancing_trader.cc','traders/stop_trader.cc'],[('emitters and batches','traders/trader_factory.cc; GetBatchOfTraders of each trader')],['emitter names, orders of interleaved versus isolated instances, internal-state strings'])
p('U01','Record files round-trip losslessly and in order',
 'Any sequence of records written to a (compressed or uncompressed) record file or stream is read back as exactly the same sequence: same number, order and field values, including presence of unset fields and special values. Both settings yield valid gzip files of length-delimited records that other tools can read, and the compressed one is not larger for repetitive data. A reader that stops early has seen exactly the records up to that point, and the error of a failing reader is reported.',
 ['inputs'],'every sequence (empty, one, many thousands, records larger than the stream buffers, empty records) of every record type, compress on and off, reading into a list or through a callback that continues, stops or fails at any record',
 'proto_test.cc round-trips a few small messages.',
 ['util/proto.h'],[('gzip and delimited framing','util/proto.h')],['file bytes decoded by an independent decoder; records read back'])
p('U02','Damaged files and failed writes are reported, never silently wrong',
 'Reading a record file that has been truncated, bit-flipped or otherwise damaged either reports an error or returns exactly the original records; it never returns altered or invented records and never crashes or hangs (an empty file is a valid empty sequence). Opening a missing file is an error. A write that cannot be completed is reported as an error.',
 ['inputs','fault_sequences','crash_points'],'every truncation point and byte/bit corruption of valid files (compressed and not), arbitrary garbage input, unreadable paths, and write failures at any point (device full, file size limit)',
 'proto_test.cc reads one broken file; faults at every byte position and failed writes are not exercised.',
 ['util/proto.h'],[('parse status, checksum and stream state checks','util/proto.h')],['status and records returned for every damaged file; status of failing writes'])
p('U03','Times parse, print and shift by calendar months exactly',
 'Every documented date-time form is parsed to the instant it denotes, honouring the UTC offset and defaulting to UTC; text that is not a date-time (fields out of range, missing or left-over parts, other characters) is rejected with an error naming it; printing an instant gives the UTC date and time of the second it lies in, and parsing that text gives the instant back. Adding N months keeps the day and time of day and moves the calendar month by N across year ends and leap years; adding M then N months equals adding M + N, for days that exist in every month.',
 ['inputs'],'every instant from year 1 to 9999 (seconds, and fractions of them for printing), every whole-minute offset, every documented form, malformed variants of them, and month counts of either sign',
 'time_test.cc checks a few dates.',
 ['util/time.cc','util/time.h'],[('format list and civil-time arithmetic','util/time.cc')],['returned instants and strings against an independent proleptic Gregorian calendar'])
CV=['convert.cc','base/history.cc','util/proto.h']
p('C01','The converter faithfully converts every valid input',
 'From a valid CSV or record file the converter writes, for the half-open time window asked for, exactly the records of that window in order with unchanged values (a bound at or before 1970-01-01 means no bound; for an empty window no file or an empty one); price histories are converted to OHLC by outlier removal with the given deviation and resampling at the given rate. Converting directly from CSV, or first to a record file and then from it, compressed or not, gives the same output. It reports the numbers of records read, removed and written, the largest gaps and the last outliers truthfully and exits successfully.',
 ['inputs','configurations'],'every valid price, OHLC and side-input file (CSV with or without final newline, record file), window, sampling rate, deviation and compression setting, including equal timestamps and windows that select nothing',
 'convert.cc has no tests.',
 CV,[('readers, conversion and writers','convert.cc')],['output files decoded independently, exit status and printed counts'])
p('C02','The converter rejects invalid input instead of writing wrong data',
 'If a record inside the requested window is malformed (missing or unparsable fields), has a non-positive or backward-moving time, a non-positive or non-finite price, inconsistent OHLC prices, a negative or non-finite volume, or (side inputs) no, unparsable or non-finite signals, a different number of signals or a repeated time, the converter fails with an error message naming the problem and writes no output file. Contradictory or missing options, unreadable files and unparsable times are likewise errors. Records outside the window are not judged: earlier ones are skipped and reading stops at the first one at or beyond its end. It never crashes or hangs.',
 ['inputs','configurations'],'every single invalid record of each class at any position of an otherwise valid file, both input formats, and every invalid combination of options',
 'convert.cc has no tests.',
 ['convert.cc'],[('validation in the readers','convert.cc')],['exit status, standard error and absence of the output file'])
p('C03','The trader program reports exactly what the evaluation yields',
 'The trader program evaluates the selected trader (or its whole batch) on exactly the ticks and side inputs inside [start, end) of its input files, with the balances, liquidity, volume ratio and evaluation period given as options and the documented fees (0.5% for every order type) and units (0.00001 base, 0.01 quote). The configuration, periods, gains, scores and volatilities it prints are those of that evaluation; a batch prints the 20 best traders by descending score. Its log files contain that execution; logging is refused when several periods are evaluated, and unreadable inputs, unwritable logs or invalid times make it exit with an error.',
 ['inputs','configurations'],'every input history, time window, option combination and shipped trader, including empty selections and histories with gaps',
 'trader.cc has no tests.',
 ['trader.cc','traders/trader_factory.cc','eval/eval.cc','logging/csv_logger.cc'],[('flag to configuration mapping and reporting','trader.cc')],['standard output, log files and exit status of the real program'])
p('P01','Cost stays proportional to the input and streaming needs constant memory',
 'Updating or reading an indicator or sliding-window helper costs, amortised, the same for every window length and however many ticks were seen before (gaps aside), and no helper holds more than its window. A side-input look-up costs O(log N), with a hint close to the answer O(1); fetching signals does not depend on the record. Executing a trader costs time proportional to the ticks executed; evaluating a window of a longer history costs no more than that window plus a binary search. Resampling, outlier removal, gap and outlier reports, reading and writing records, the converter and the trader program take time proportional to their input and output (a reader that stops early or a time window that ends early saves the rest). Execution, evaluation, logging, the shipped traders and record reading and writing with callbacks and iterators hold no memory that grows with the history.',
 ['inputs','histories','configurations'],'every indicator and helper with windows from 1 to thousands of ticks on constant, trending, repeating, spiking and random streams with and without revisions, every history length, side-input size, evaluation window, shipped trader, logger setting, input format',
 'Unit tests feed a dozen values and look at results only; a linear scan per tick or a buffer that is never trimmed passes all of them and makes the 47-million-record histories of the documentation unusable.',
 ['indicators','base/side_input.cc','base/history.cc','base/base.h','eval/eval.cc','util/proto.h','logging/csv_logger.cc','traders','convert.cc','trader.cc'],[('O(1) and amortised O(1) comments','indicators/*.h'),('hinted look-up','base/side_input.h'),('views instead of copies','base/base.h: HistorySubset'),('streaming reader','util/proto.h')],['executed basic blocks, bytes allocated, moved and held around every call, compared between two input sizes'])
p('M01','No memory errors or undefined behaviour on any valid workload',
 'On every workload the other properties quantify over, the library and both programs perform no out-of-bounds or use-after-free access, no read of uninitialised memory, no signed overflow, invalid conversion, division by zero or other undefined behaviour, leak no memory, and violate none of their own internal assertions. This includes empty and single-element histories, windows of size one, histories with timestamps beyond 32 bits, many-thousand-record files, damaged files and many parallel traders.',
 ['inputs','histories','schedules','configurations'],'all generated workloads of the other checks plus degenerate sizes and hostile file contents',
 'Unit tests run without sanitizers on small regular inputs.',
 ['base','eval','indicators','logging','traders','util','convert.cc','trader.cc'],[('bounds, lifetimes and arithmetic of the whole code','all sources')],['AddressSanitizer, UndefinedBehaviorSanitizer, LeakSanitizer, libstdc++ assertions, valgrind memcheck, internal assertions'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
