# The property table: the source of properties.jsonl and MANIFEST.json (gen/make_manifest.py).
F = 'ta-lib-rt/c/src/ta_func/'; A = 'ta-lib-rt/c/src/ta_abstract/'; C = 'ta-lib-rt/c/src/ta_common/'; I = 'ta-lib-rt/c/include/'
P = []
def add(id, title, statement, over, quant, why, files, mech, tech, note, **k):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, tech=tech, note=note, **k))

PBT = 'property-based testing: '
TRUST = ' Seeded search within the stated sizes, no exhaustiveness; trusts the harness, its glue (generated once from the public header) and gcc with ASan/UBSan.'

add('C01', 'Streaming gives what the batch call gives, bar by bar',
    'Feeding a series bar by bar to the streaming form of an indicator yields, at every bar past the warm-up, the values the batch call computes for that bar over the same series, parameters and settings, and "need more data" at every earlier bar. The warm-up ends at exactly the same bar in both forms. (Which of several equal extremes an index output names is not specified.)',
    ['inputs', 'histories', 'configurations'],
    'All 165 indicators, every valid parameter combination, every series (ties, flat stretches, gaps, volume zero), every unstable period, compatibility mode and candle setting in force from before the state was created.',
    'The streaming tests feed one 252-bar series with default parameters and default settings; parameters at the edges, other settings and degenerate data are never streamed.',
    [F + 'ta_*.c', C + 'ta_memory.h'], [('per-indicator state step', 'TA_*_State in ta_func/ta_*.c'), ('history ring and circular buffers', 'ta_memory.h')],
    PBT + 'differential test of the streaming against the batch form',
    'Real outputs are compared within the rounding sensitivity of the batch result (recomputed on inputs disturbed by 1e-12), integers exactly except where they flip under that noise.' + TRUST,
    observe=['return code and outputs of every state call'])
add('C02', 'Feeding a state in chunks equals feeding it bar by bar',
    'However a series is cut into chunks fed through the chunk call of a state, mixed with single-bar calls, every bar gives exactly the values and every chunk the return code that single-bar feeding gives. Bars without a value are marked (not-a-number, or the largest integer), and each chunk reports the range it was given; an empty chunk succeeds and changes nothing.',
    ['inputs', 'histories'],
    'All indicators, parameters and settings, every way to cut a series into chunks, with chunks at any offset of their arrays.',
    'The tests feed one chunk over one fixed series.',
    [F + 'ta_*.c', 'ta-lib-rt/c/src/tools/gen_code/gen_code.c'], [('generated chunk loop', 'TA_*_BatchState in ta_func/ta_*.c')],
    PBT + 'metamorphic test over random chunkings, bit-exact', 'Bit-exact comparison of two states of the same library.' + TRUST)
add('C03', 'Saving and restoring a state is transparent',
    'A state saved to a file at any bar and restored continues with exactly the values the original would have given, whether it replaces the original or runs beside it, and however many other states share the file. A load consumes exactly the bytes its save wrote, a saved null state restores as a null state, and a load never overwrites an existing state.',
    ['histories', 'inputs', 'crash_points'],
    'All indicators, parameters and settings; every bar to save at (before the first, in the warm-up, after it, repeatedly).',
    'The tests save once, at one point of one series with default parameters.',
    [F + 'ta_*.c', C + 'ta_memory.h'], [('generated field by field save and load', 'TA_*_StateSave, TA_*_StateLoad'), ('nested states and circular buffers', 'hand-written parts of the composite indicators; CIRCBUF_STRUCT_SAVE/LOAD')],
    PBT + 'round trip at random points of a history, bit-exact', 'Bit-exact comparison with an undisturbed state.' + TRUST)
add('C04', 'States are independent and free what they own',
    'States of the same or different indicators, interleaved in any order with each other, with batch calls, with being freed and re-created or saved and restored, each behave as if they were alone. Freeing a state releases everything it owns and clears the pointer, and freeing an already freed state is harmless.',
    ['histories', 'inputs'],
    'Any set of up to four states over all indicators and parameters, any interleaving of feeding, freeing, re-creating, saving, restoring and batch calls.',
    'The tests run one state at a time and do not count allocations.',
    [F + 'ta_*.c'], [('all history is held in the state object', 'struct TA_*_State'), ('release of nested states', 'TA_*_StateFree')],
    PBT + 'stateful interleaving test against each state run alone', 'Bit-exact; memory accounting by wrapping the allocator, invalid accesses found by ASan.' + TRUST)
add('C05', 'A failed save or load is reported, leaks nothing and spoils nothing',
    'When the file ends early or the device fills up at any byte, loading or saving a state reports an I/O failure, never success. A failed load leaves something that can be freed without leaking, and a failed save leaves the state working unchanged.',
    ['fault_sequences', 'crash_points', 'histories'],
    'All indicators, parameters and bars; a short read or short write at every field boundary of the file, one byte either side of it, and at random offsets; and a single write or read that fails while the later ones succeed.',
    'No test injects an I/O failure.',
    [F + 'ta_*.c', C + 'ta_memory.h'], [('checked reads and writes', 'TA_*_StateSave, TA_*_StateLoad, CIRCBUF_STRUCT_SAVE/LOAD')],
    PBT + 'fault injection at every field boundary of generated states', 'Fault points per case are enumerated at field boundaries (up to 60 of them) and sampled elsewhere; the file is an in-memory stdio stream.' + TRUST, level='fault_enumeration')
add('C06', 'A batch call fills exactly the promised range, and nothing else matters',
    'A valid batch call over a range succeeds and reports values from the first bar of the range that has the lookback behind it to the end of the range: the number of values and the first bar follow from range and lookback alone. It reads no bar after the range, changes no input, writes only into that many output elements, and every value it reports is computed: none depends on what the output buffers held before.',
    ['inputs', 'configurations'],
    'All 165 indicators, every valid parameter combination and setting, every range (starting before, at and after the lookback, of one bar or many).',
    'The tests call a few ranges of one 252-bar series in buffers larger than the output.',
    [F + 'ta_*.c', F + 'ta_utility.c'], [('range clipping against the lookback', 'start of TA_* in ta_func/ta_*.c'), ('lookback', 'TA_*_Lookback')],
    PBT + 'invariant over random ranges in exactly sized, differently filled buffers', 'Buffers have exactly the size of the range, so ASan reports any access outside.' + TRUST)
add('C07', 'Only the range and its lookback decide the values: no look-ahead',
    'The values reported for a range depend only on the bars from the lookback before the first reported bar up to each bar itself: bars after a bar, and bars before the lookback, never influence it, whatever they contain (also not-a-number or huge values).',
    ['inputs', 'configurations'],
    'All indicators, parameters and settings (with the Metastock setting only the absence of look-ahead: its averages start at the first bar), every range, every content of the bars outside.',
    'No test changes bars outside of the range it asks for.',
    [F + 'ta_*.c'], [('window of each indicator', 'TA_* and TA_*_Lookback')],
    PBT + 'metamorphic test: bars outside replaced, range cut short, bit-exact', 'Bit-exact comparison.' + TRUST)
add('C08', 'Values do not depend on where the range or the series starts',
    'Dropping leading bars beyond the lookback shifts the result and changes nothing else (index outputs shift along). For indicators of finite memory, the value of a bar is the same in every range that contains it as in the whole series.',
    ['inputs', 'configurations'],
    'All indicators, parameters and settings, every range; the second part for all functions without recursion (as listed in p_batch.cpp).',
    'Most tests call one range starting at zero or compare ranges with a percentage tolerance.',
    [F + 'ta_*.c'], [('bars are addressed relative to the start of the range', 'TA_* in ta_func/ta_*.c'), ('running sums primed over the lookback', 'TA_* in ta_func/ta_*.c')],
    PBT + 'metamorphic test: shifted series bit-exact, sub-ranges within rounding', 'Sub-ranges are compared within the rounding sensitivity of the result.' + TRUST)
add('C09', 'Single precision entry points agree with the double ones',
    'For prices that are exactly representable in single precision, the single precision form of an indicator returns the same code, range and values as the double form.',
    ['inputs', 'configurations'],
    'All 165 indicators, parameters and settings, every range, every series on a grid of single precision numbers.',
    'No test calls the single precision forms beyond a default run.',
    [F + 'ta_*.c'], [('generated single precision copy of each function', 'TA_S_* in ta_func/ta_*.c')],
    PBT + 'differential test of the two entry points', 'Compared within rounding sensitivity; the five functions that do float arithmetic between inputs (CCI, NVI, PVI, PVT, DIV) within single precision.' + TRUST)
add('C11', 'Output buffers may be the input buffers',
    'Giving input buffers as output buffers (each at most once) gives the values that separate buffers give, in the batch and in the chunk call.',
    ['inputs', 'configurations'],
    'All indicators with real outputs, every placement of outputs on inputs, parameters, settings and ranges.',
    'The tests share buffers for a few functions over one series.',
    [F + 'ta_*.c'], [('temporary buffers where outputs overlap inputs', 'ARRAY_ALLOC and the outReal==inReal tests in ta_func/ta_*.c')],
    PBT + 'metamorphic test over buffer placements, bit-exact', 'Bit-exact comparison.' + TRUST)
add('C10', 'Bad arguments are refused with their code; defaults mean the documented value',
    'Every function refuses a bad range, a missing buffer and a parameter outside of its documented limits with the code for each, before touching any output, in the batch, single precision, lookback and state forms alike. Asking for the default of a parameter gives exactly what its documented default value gives, and no valid parameter, however large, makes a form misbehave.',
    ['inputs', 'configurations'],
    'All 165 functions; every parameter at, inside and outside of both limits and asking for the default, every combination of bad range, null buffers and parameters.',
    'The tests never pass an invalid parameter and rely on default values without comparing.',
    [F + 'ta_*.c', 'ta-lib-rt/ta_func_api.xml'], [('generated parameter checks', 'start of TA_*, TA_S_*, TA_*_Lookback, TA_*_StateInit')],
    PBT + 'invariant over valid and invalid arguments, limits from an independent table', 'The table of parameters (spec/functions.json) was taken once from the documented interface.' + TRUST)
add('C12', 'Calls through the abstract interface are the direct calls',
    'Looking a function up by name, filling a parameter holder and calling it gives exactly what the direct call gives: the lookback, the batch values and range, and the state form fed by bars or chunks, saved, loaded, freed or moved to another holder, also through the function pointers. Parameters left unset have their documented defaults, and refused calls return the code of the direct call.',
    ['inputs', 'histories', 'configurations'],
    'All 165 functions, every parameter (valid or not, set or left), series, range and feeding order.',
    'The tests call every function once through the interface, with default parameters, without comparing values.',
    [A + 'ta_abstract.c', A + 'frames/ta_frame.c', A + 'tables/table_*.c'], [('generated frames', 'TA_*_FramePP* in frames/ta_frame.c'), ('parameter holder', 'TA_ParamHolderAlloc, TA_CallFunc, TA_CallFuncState, ... in ta_abstract.c')],
    PBT + 'differential test against the direct call', 'Bit-exact, including the untouched part of the buffers.' + TRUST)
add('C13', 'The description of every function is true, complete and findable',
    'Every function is found under its exact name only, is in exactly one group and visited exactly once; its description (group, hint, flags, inputs, parameters with limits and defaults, outputs) is the documented one, and the XML description says the same as the tables and the C interface. Unknown names, groups, indexes and invalid handles are refused with their code.',
    ['inputs', 'configurations'],
    'All 165 functions and all their parameters; lookups with exact, mutated, empty and foreign names, any index, invalid handles and null arguments.',
    'The tests count the functions and look some up.',
    [A + 'ta_abstract.c', A + 'tables/table_*.c', A + 'ta_def_ui.c', A + 'ta_group_idx.c', 'ta-lib-rt/ta_func_api.xml', 'ta-lib-rt/c/src/tools/gen_code/gen_code.c'], [('tables by first letter', 'tables/table_*.c'), ('names by group', 'ta_group_idx.c'), ('XML description', 'ta_func_api.xml, generateFuncAPI_C')],
    PBT + 'lookups and descriptions against an independent table of the interface', 'The table (spec/functions.json) was taken once from the documented interface; suggested values and state fields are compared between XML and tables only.' + TRUST)
add('C14', 'A parameter holder accepts and refuses calls by one protocol',
    'Whatever the sequence of calls on parameter holders, each setting is accepted or refused with its documented code by type, index and null check; a function runs only when all its inputs and outputs are set, with the last accepted settings; a refused call changes nothing; holders do not influence each other and free what they own.',
    ['histories', 'inputs'],
    'Every sequence of setting, calling, state and freeing operations on two holders of any functions, with wrong types, indexes, nulls and invalid holders.',
    'The tests use each holder once, correctly.',
    [A + 'ta_abstract.c', A + 'frames/ta_frame.c'], [('bitmaps of what is set', 'TA_ParamHolderPriv inBitmap/outBitmap in ta_abstract.c'), ('type and index checks', 'TA_SetInputParam*, TA_SetOptInputParam*, TA_SetOutputParam*')],
    PBT + 'stateful model of the parameter holder', 'Every call is mirrored by the direct call on the settings of the model, bit-exact.' + TRUST)
add('C15', 'Settings take effect exactly as set, and only where they belong',
    'The unstable periods, the compatibility and the candle settings read back as the last set or restored, whatever the sequence of calls; bad identifiers and values are refused and change nothing. Results depend on the settings in force only, not on how they came about, and initialising the library again resets them.',
    ['histories', 'configurations'],
    'Every sequence of setting, restoring, reading and resetting calls, with valid and invalid arguments, mixed with indicator calls.',
    'The tests set one setting at a time and reset it.',
    [C + 'ta_global.c', F + 'ta_utility.c', I + 'ta_common.h'], [('global settings', 'TA_Globals, TA_SetUnstablePeriod, TA_SetCompatibility'), ('candle settings', 'TA_SetCandleSettings, TA_RestoreCandleDefaultSettings')],
    PBT + 'stateful model of the settings', 'After each sequence an indicator is compared, bit by bit, with one run after only setting the final values.' + TRUST)
add('C16', 'A failed memory allocation is reported, and nothing is lost by it',
    'When an allocation fails, the call (batch, single precision, StateInit, StateLoad, holder, table) returns TA_ALLOC_ERR without a crash; nothing stays allocated, apart from a partly built state, which StateFree releases completely; later calls are not affected. State and BatchState calls allocate nothing.',
    ['fault_sequences', 'inputs', 'configurations'],
    'Every allocation (up to 40 per call) of every indicator, with any valid parameters, settings and series.',
    'The tests never see an allocation fail.',
    [F + 'ta_*.c', C + 'ta_memory.h', A + 'ta_abstract.c'], [('ARRAY_ALLOC and the checks after it', 'ta_func/ta_*.c'), ('TA_Calloc in StateInit and StateLoad', 'generated sections 6 and 11 of ta_func/ta_*.c')],
    PBT + 'fault injection: each allocation of a generated call fails in turn', 'malloc, calloc and realloc of the library are replaced by counting ones that fail on demand.' + TRUST)
add('C17', 'Extreme values never make the library misbehave',
    'Whatever the values of a series (not-a-number, infinities, the largest and the smallest numbers, negative prices, zeros), every indicator returns, with the promised range, without invalid memory access or undefined arithmetic, in the batch and in the state form, and index outputs stay within the series.',
    ['inputs', 'configurations'],
    'All 165 indicators, every valid parameter and setting, series with any special values at any place.',
    'The tests use ordinary prices only.',
    [F + 'ta_*.c'], [('guards against division by zero and index arithmetic', 'TA_* and TA_*_State in ta_func/ta_*.c')],
    PBT + 'random series of special values under ASan and UBSan', 'Which values come out is not specified, only that the call is well behaved.' + TRUST)
add('C18', 'Calls have no memory: same arguments, same results, in any thread',
    'A run of an indicator, batch or stream, gives the same result before and after any other runs, and while other threads run indicators at the same time; runs do not touch any common data.',
    ['histories', 'schedules', 'inputs'],
    'All indicators, parameters and settings; any other runs before or at the same time in up to five threads.',
    'The tests run in one thread and each indicator a few times.',
    [F + 'ta_*.c', C + 'ta_global.c'], [('no static data in the indicators', 'ta_func/ta_*.c'), ('settings are read only', 'TA_Globals')],
    PBT + 'metamorphic test of histories and threads, with ThreadSanitizer', 'Bit-exact; schedules are those the machine produces, ThreadSanitizer finds unordered accesses in all of them.' + TRUST.replace('ASan/UBSan', 'ThreadSanitizer'))
add('C19', 'Results scale with prices and volumes as their dimension says',
    'Multiplying all prices or all volumes by a power of two multiplies results that are prices, ranges or volumes by the same factor (or its square, for variances), leaves ratios, percentages, indexes and periods unchanged, and never changes which candle patterns are found.',
    ['inputs', 'configurations'],
    'All indicators with a dimension (134 of 165: all but the elementary functions and some mixed ones), every parameter, setting and series, factors from 1/16 to 4096, mostly down to 2^-30 and, for functions without a fixed threshold for zero, from 2^-330 to 2^300.',
    'The tests use series of one magnitude.',
    [F + 'ta_*.c', F + 'ta_utility.h'], [('only relative quantities are compared', 'TA_*, TA_REALBODY, TA_CANDLEAVERAGE'), ('thresholds for zero', 'TA_IS_ZERO in ta_utility.h')],
    PBT + 'metamorphic test under scaling', 'Compared within the rounding sensitivity; a correlation that is zero by the threshold of 1e-14 at one scale only is skipped.' + TRUST)
add('C20', 'Bounded indicators stay within their bounds',
    'Oscillators stay within their documented limits, averages within the range of the inputs they average, bands keep their order and distances, index outputs point at the extreme of their window, deviations and ranges are never negative, and patterns take only documented values.',
    ['inputs', 'configurations'],
    'All functions with a bound (some 100 of 165), every parameter, setting and series, in the batch and in the stream.',
    'Bounds are never asserted by the tests.',
    [F + 'ta_*.c'], [('guards and clamps of each formula', 'TA_* and TA_*_State in ta_func/ta_*.c')],
    PBT + 'invariant of the outputs', 'With slack for rounding (1e-7 of 100, 1e-11 of the largest input for averages).' + TRUST)
add('C30', 'The unstable period delays the first value and nothing else',
    'An unstable period lengthens the lookback of the functions it is documented for by exactly that many bars and of no other; values that remain are those of a run that started the period earlier, so that a recursive function reports the same value for a bar whether it was warmed up by an unstable period or by a longer range.',
    ['configurations', 'inputs'],
    'All indicators, every unstable period, alone and together with parameters, ranges and other settings.',
    'The tests compare a few recursive functions for a few periods with a percentage tolerance.',
    [F + 'ta_*.c', C + 'ta_global.c'], [('unstable period added to the lookback', 'TA_*_Lookback, TA_GLOBALS_UNSTABLE_PERIOD')],
    PBT + 'metamorphic test over unstable periods', 'Compared within rounding sensitivity.' + TRUST)
add('C21', 'Price transforms, arithmetic and simple differences give the defined values',
    'Element-wise math, price transforms, balance of power, momentum and rate of change, sums, and the minimum and maximum of a window (with positions) have their textbook value at every bar; a rate of change against zero is zero, and so is a balance of power of a bar without range. A reported position is one where the extreme value of the window occurs.',
    ['inputs', 'configurations'],
    'All functions of these groups, every valid period, every start bar and series (ties, negative numbers, zeros).',
    'The tests compare a handful of values of one series.',
    [F + 'ta_ACOS.c', F + 'ta_MAX.c', F + 'ta_MINMAXINDEX.c', F + 'ta_ROC.c', F + 'ta_SUM.c', F + 'ta_BOP.c', F + 'ta_AVGPRICE.c'], [('window extremes with cached position', 'ta_MAX.c, ta_MIN.c, ta_MINMAX.c, ta_*INDEX.c'), ('running sum', 'ta_SUM.c')],
    PBT + 'differential test against a naive reference model', 'The reference computes every value afresh from its definition, in long double where sums matter. A difference counts beyond what input noise of 1e-12 produces.' + TRUST)
add('C22', 'Every moving average is the average it is named after',
    'Simple, exponential, weighted, double and triple exponential, triangular, adaptive (Kaufman), T3 and Wilder averages, the generic average, the variable period average and the triple exponential oscillator follow their published formula, seeded by the plain average of the first period (by the first value in Metastock mode), after as many extra bars as the unstable period says.',
    ['inputs', 'configurations'],
    'All average types, every valid period and parameter, unstable period, compatibility mode, start bar and series.',
    'The tests compare a handful of values for a few periods of one series.',
    [F + 'ta_SMA.c', F + 'ta_EMA.c', F + 'ta_WMA.c', F + 'ta_DEMA.c', F + 'ta_TEMA.c', F + 'ta_TRIMA.c', F + 'ta_KAMA.c', F + 'ta_T3.c', F + 'ta_WLMA.c', F + 'ta_MA.c', F + 'ta_MAVP.c', F + 'ta_TRIX.c'], [('running sums and recursions', 'ta_<average>.c'), ('choice of the average', 'ta_MA.c')],
    PBT + 'differential test against a naive reference model', 'The reference computes every value afresh from its definition, in long double where sums matter. A difference counts beyond what input noise of 1e-12 produces.' + TRUST)
add('C23', 'Bands, midpoints and parabolic stops give the defined values',
    'Acceleration bands, Bollinger bands (any average, deviations up and down), midpoints, and the parabolic stop and reverse in its plain and its extended form (start value, offset on reversal, separate accelerations) follow their published rules at every bar, including reversals.',
    ['inputs', 'configurations'],
    'All parameters, average types, settings, start bars and series, including flat and gapping ones.',
    'The tests compare a handful of values of one series; most parameters of the extended stop keep their default.',
    [F + 'ta_ACCBANDS.c', F + 'ta_BBANDS.c', F + 'ta_MIDPOINT.c', F + 'ta_MIDPRICE.c', F + 'ta_SAR.c', F + 'ta_SAREXT.c'], [('stop and reverse state machine', 'ta_SAR.c, ta_SAREXT.c'), ('deviation around any average', 'ta_BBANDS.c')],
    PBT + 'differential test against a naive reference model', 'The reference computes every value afresh from its definition, in long double where sums matter. A difference counts beyond what input noise of 1e-12 produces. Deviations below about 1e-7 of the price level are not compared.' + TRUST)
add('C24', 'Oscillators and momentum indicators give the defined values',
    'Price oscillators, the three forms of MACD, RSI and CMO, the stochastics (plain, fast, of RSI), Williams %R, Aroon, intraday momentum, money flow, the ultimate oscillator and the commodity channel index follow their published formula at every bar, zero where a denominator vanishes. Fast and slow periods given in the wrong order are swapped.',
    ['inputs', 'configurations'],
    'All parameters, average types, unstable periods, compatibility modes, start bars and series, including flat stretches and ties.',
    'The tests compare a handful of values of one series, mostly with default parameters.',
    [F + 'ta_APO.c', F + 'ta_PPO.c', F + 'ta_MACD.c', F + 'ta_MACDEXT.c', F + 'ta_MACDFIX.c', F + 'ta_RSI.c', F + 'ta_CMO.c', F + 'ta_STOCH.c', F + 'ta_STOCHF.c', F + 'ta_STOCHRSI.c', F + 'ta_WILLR.c', F + 'ta_AROON.c', F + 'ta_AROONOSC.c', F + 'ta_IMI.c', F + 'ta_MFI.c', F + 'ta_ULTOSC.c', F + 'ta_CCI.c'], [('alignment of the two averages', 'TA_INT_PO in ta_APO.c, TA_INT_MACD in ta_MACD.c'), ('cached window extremes', 'ta_STOCH.c, ta_WILLR.c, ta_AROON.c'), ('ring of money flows', 'ta_MFI.c')],
    PBT + 'differential test against a naive reference model', 'The reference computes every value afresh from its definition, in long double where sums matter. A difference counts beyond what input noise of 1e-12 produces.' + TRUST)
add('C25', 'Directional movement indicators give the values Wilder defined',
    'Plus and minus directional movement and indicator, the directional index, its average and the average rating follow Wilder: only the larger of the two movements counts, sums are smoothed by one period-th, and bars without range or movement keep the previous directional index and leave the average unchanged.',
    ['inputs', 'configurations'],
    'Every period including one, every unstable period, start bar and series, including flat stretches.',
    'The tests compare a handful of values of one series.',
    [F + 'ta_PLUS_DM.c', F + 'ta_MINUS_DM.c', F + 'ta_PLUS_DI.c', F + 'ta_MINUS_DI.c', F + 'ta_DX.c', F + 'ta_ADX.c', F + 'ta_ADXR.c'], [('smoothing of movement and range', 'ta_DX.c, ta_ADX.c and the others')],
    PBT + 'differential test against a naive reference model', 'The reference computes every value afresh from its definition, in long double where sums matter. A difference counts beyond what input noise of 1e-12 produces.' + TRUST)
add('C26', 'Statistics of a window have their defined values',
    'Variance and standard deviation (of the population), mean absolute deviation, the linear regression family with its forecast, the correlation coefficient and beta equal their definition over exactly the bars of the window; where a denominator vanishes the value is zero.',
    ['inputs', 'configurations'],
    'Every period and deviation factor, every start bar and series, including constant and strongly correlated ones.',
    'The tests compare a handful of values of one series.',
    [F + 'ta_VAR.c', F + 'ta_STDDEV.c', F + 'ta_AVGDEV.c', F + 'ta_LINEARREG.c', F + 'ta_LINEARREG_SLOPE.c', F + 'ta_LINEARREG_INTERCEPT.c', F + 'ta_LINEARREG_ANGLE.c', F + 'ta_TSF.c', F + 'ta_CORREL.c', F + 'ta_BETA.c'], [('running sums of squares and products', 'ta_VAR.c, ta_CORREL.c, ta_BETA.c')],
    PBT + 'differential test against a naive reference model', 'The reference computes every value afresh from its definition, in long double where sums matter. A difference counts beyond what input noise of 1e-12 produces. Windows whose spread is within rounding of nothing are not compared for correlation and beta.' + TRUST)
add('C27', 'Volume and volatility indicators give the defined values',
    'Accumulation and distribution with its oscillator, on balance volume, the negative and positive volume indexes, the price volume trend, true range and the average true range, plain and normalised, follow their published recursion from the first bar of the requested range.',
    ['inputs', 'configurations'],
    'Every period, unstable period, start bar and series, including zero volume, gaps and bars without range.',
    'The tests compare a handful of values of one series; three of these functions have no value test at all.',
    [F + 'ta_AD.c', F + 'ta_ADOSC.c', F + 'ta_OBV.c', F + 'ta_NVI.c', F + 'ta_PVI.c', F + 'ta_PVT.c', F + 'ta_TRANGE.c', F + 'ta_ATR.c', F + 'ta_NATR.c'], [('running totals', 'ta_AD.c, ta_OBV.c, ta_NVI.c, ta_PVI.c, ta_PVT.c'), ('Wilder smoothing', 'ta_ATR.c, ta_NATR.c')],
    PBT + 'differential test against a naive reference model', 'The reference computes every value afresh from its definition, in long double where sums matter. A difference counts beyond what input noise of 1e-12 produces.' + TRUST)
add('C28', 'Cycle indicators follow the Hilbert transform pipeline of Ehlers',
    'Dominant cycle period and phase, phasor, sine wave, trend line and trend mode, and the MESA adaptive averages equal a direct evaluation of the pipeline (four bar smoother, discriminator with amplitude correction, homodyne period estimate with its limits) started at the first bar of the lookback.',
    ['inputs', 'configurations'],
    'Every limit pair, unstable period, start bar and series (cyclic, trending, flat, noisy).',
    'The tests compare a handful of values of one series.',
    [F + 'ta_HT_DCPERIOD.c', F + 'ta_HT_DCPHASE.c', F + 'ta_HT_PHASOR.c', F + 'ta_HT_SINE.c', F + 'ta_HT_TRENDLINE.c', F + 'ta_HT_TRENDMODE.c', F + 'ta_MAMA.c'], [('odd and even Hilbert buffers', 'ta_utility.h'), ('period estimate', 'ta_HT_*.c, ta_MAMA.c')],
    PBT + 'differential test against a naive reference model', 'The reference computes every value afresh from its definition, in long double where sums matter. A difference counts beyond what input noise of 1e-12 produces. Bars that hang on rounding (seen by disturbing inputs or the smoothed prices) are not compared.' + TRUST)
add('C29', 'Each candlestick pattern is reported exactly where its definition holds',
    'Each of the 61 candlestick functions reports its documented signal at exactly those bars where its documented definition holds over the preceding bars, under the candle settings in force, and zero elsewhere. Its lookback is what the definition needs.',
    ['inputs', 'configurations'],
    'Every pattern, every candle setting (range type, averaging period, factor), penetration, and every series of bars, including exact ties with the thresholds.',
    'The tests check that a few patterns occur in one series; most conditions of most patterns are never both met and just missed.',
    [F + 'ta_CDL*.c', F + 'ta_utility.h'], [('candle averages', 'TA_CANDLEAVERAGE and friends in ta_utility.h'), ('pattern conditions', 'TA_CDL*')],
    PBT + 'reference model of the 61 definitions, bars by hill climbing', 'The reference computes every average afresh from the definition. Bars are generated on a dyadic grid where all arithmetic is exact, so that ties decide, and elsewhere comparisons within rounding of the threshold are skipped.' + TRUST)
NOT_APPLICABLE = []
NOTES = 'One harness (src/) is built from /repo by check.py, with sanitizers, for every check. See DESIGN.md.'
