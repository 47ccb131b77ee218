#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) from the table
below.  Run it after editing a property."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe,
         state=None):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': files, 'state': state or [],
                    'mechanism': [{'name': n, 'where': w} for n, w in mech],
                    'observe_at': observe, 'hook_needed': None}})


F, M, U, A, PL = ('anticipy/forecast.py', 'anticipy/forecast_models.py',
                  'anticipy/model_utils.py', 'anticipy/app.py',
                  'anticipy/forecast_plot.py')

prop('C01', 'Normalization keeps every sample, in canonical order, and its input',
     'Normalizing an input table or series yields every sample exactly once, with its value, weight, date and source unchanged, ordered by source and then by x. The x of a sample is the given x column; without one, the whole days from the Monday of the week of its source\'s first listed date; without dates, the numeric index of a single-source input, else the sample\'s position within its source. An empty input gives no result, unknown columns are dropped, and the caller\'s object is never modified.',
     ['inputs', 'configurations'],
     'all tables/series with any subset of the optional columns (date column or date index, x, weight, source), custom column names, any row order, duplicates, time-of-day dates, null values',
     'tests normalize a handful of already sorted frames of ten rows; row order, duplicates, several sources and mutation of the input are not crossed',
     [F, U], [('normalize_df', F), ('get_normalized_x_from_date', U)],
     ['forecast.normalize_df'])

prop('C02', 'The forecast does not depend on how the input table is written',
     'Two inputs that describe the same samples give the same forecast, fits and chosen model: custom column names against the default ones, dates in a column or in the index, dates as text or as timestamps, a series against a one-column table, integer against float values, additional unrelated columns, weights of 1 against no weights, any index labels when x or dates are given, and, up to solver tolerance, any order of the rows of a series that has one sample per date and is daily or sparser.',
     ['inputs', 'configurations'],
     'all pairs of equivalent encodings of one time series, for every series and model list',
     'tests compare outputs of different encodings only through normalize_df and on sorted data; end-to-end equality over encodings is not asserted',
     [F, U], [('run_forecast / normalize_df', F)], ['forecast.run_forecast'])

prop('C03', 'Each source is forecast on its own samples only',
     'Forecasting a table with several sources gives, for every source, exactly the actuals, fits, chosen model and forecast that the same call gives for that source\'s rows alone, with all its output rows labelled with that source. This holds for any number, order and interleaving of sources and whatever the other sources contain, including sources that cannot be forecast (too few samples, no usable sample, no sample after the start date). With all fits reported, every source appears in the output metadata, and each source\'s prediction interval is derived from its own residuals.',
     ['inputs', 'configurations'],
     'all multi-source tables: number, names, interleaving, lengths and contents of the other sources, including failing ones',
     'tests run two copies of nearly the same clean series; leakage between different sources (spans, failing neighbours, interleaved rows) is not sampled',
     [F], [('run_forecast per-source loop, aggregate_forecast_dict_results', F), ('get_pi groupby', F)],
     ['forecast.run_forecast', 'forecast.get_pi'])

prop('C04', 'Ignored samples have no influence on the fit',
     'Samples with a null value, samples with zero, negative or missing weight, and samples before the start date (or numeric start index) do not influence any fit, error measure, model choice or extrapolated trend: replacing their values, or removing them when that leaves the dates of the remaining samples regular, gives the same result. Samples at or after the start date with a positive weight and a value are all used. The weight-zero samples still appear among the actuals of the output; samples before the start do not.',
     ['inputs', 'configurations'],
     'all series, all placements of null, zero-weight and pre-start samples (first, last, adjacent, all), any garbage in the ignored values',
     'tests place one or two ignored samples and check fits visually or by length; independence from the ignored values is never asserted',
     [F], [('run_forecast_single date filter and weight filter', F), ('fit_model null and weight filters', F)],
     ['forecast.run_forecast', 'forecast.fit_model'])

prop('C05', 'Fits minimise the weighted squared residuals',
     'Fitting a model that is linear in its parameters returns the parameters that minimise the sum of squared weighted residuals, where each residual is multiplied by the weight of its sample divided by the number of usable samples that share its x; the reported cost is half of that minimum. Models with parameter bounds never return parameters outside of them. Scaling all the values scales the fitted parameters, and scaling all the weights does not change them. Both hold up to the absolute tolerances of the solver, for values of moderate size (about 1e-2 to 1e6).',
     ['inputs', 'configurations'],
     'all series of moderate size, weights and multiplicities of x for the constant, linear, step-date, spike-date, dummy and weekday models and their sums',
     'tests fit noiseless generated series with unit weights and one sample per x, where any weighting gives the same optimum',
     [F], [('fit_model residual normalization', F), ('get_residuals, optimize_least_squares', F)],
     ['forecast.fit_model'])

prop('C06', 'The candidate models are exactly those the configuration and data allow',
     'The candidates for a source are the naive models plus every combination of trend with seasonality, added, multiplied or both as requested, then combined with the calendar models if any. By default the trend is linear, plus a piecewise linear trend when usable samples span more than 730 days; seasonality is a choice of none, weekly (at most daily spacing, span over 10.5 days) and yearly (at most 92 days spacing, span over 547.5 days) and their combination; calendar models need at most daily spacing and a span over 365 days; the naive model is weekday-seasonal for daily data. Every candidate is tried exactly once and reported, and spans and spacings consider only samples with positive weight.',
     ['inputs', 'configurations'],
     'all spans and spacings around every threshold, every combination of explicit and default model lists and composition modes, duplicates and zero-weight samples',
     'tests check a few configurations far from the thresholds with unit weights',
     [F, M], [('get_list_model, run_forecast_single model selection', F), ('get_l_model_auto_season', M)],
     ['forecast.run_forecast (metadata)', 'forecast_models.get_l_model_auto_season', 'forecast.get_list_model'])

prop('C07', 'Every candidate gets a truthful status and failing ones never abort',
     'A candidate is reported as empty if the source has no usable sample, else too short if usable samples number fewer than its parameters plus two, else invalid input if one of its (component\'s) validations rejects the samples, else fitted or not fitted depending on the solver\'s success. Only fitted candidates produce forecast rows, and they have parameters as many as the model has, a finite cost and an error criterion. Candidates that cannot be fitted, including those where the solver fails numerically, never stop the other candidates or sources from being forecast.',
     ['inputs', 'fault_sequences', 'configurations'],
     'all sample counts around the threshold, all mixes of fitting, rejecting and failing candidates, in any order',
     'tests cover one failing candidate at a time and only a few counts',
     [F, M], [('fit_model status branches', F), ('optimize_least_squares LinAlgError handler', F), ('ForecastModel.validate_input', M)],
     ['forecast.run_forecast (metadata, data)', 'forecast.fit_model'])

prop('C08', 'The chosen model is the fitted candidate with the least error criterion',
     'For each source, at most one model is marked best: a fitted candidate whose error criterion (AICc) is minimal among all fitted candidates of that source, and one is marked whenever some candidate fits. The choice and its forecast do not depend on the order of the model lists, on duplicates in them, or on whether all fits are reported; without all fits, exactly the best model\'s metadata and rows remain. The simplified output is the forecast table of the full output.',
     ['inputs', 'configurations'],
     'all score assignments (distinct, tied, minus infinity, failing), all orders of candidates and sources, both output modes',
     'tests check that the expected model wins on generated data with one clear winner',
     [F], [('run_forecast_single df_best_fit', F)], ['forecast.run_forecast'])

prop('C09', 'The error criterion is the AICc of the usable samples',
     'For every fit with cost E, n usable samples and k parameters, n > k + 1, the error criterion equals n*ln(E/n) + 2k + 2k(k+1)/(n-k-1); it is strictly increasing in E and in k. A perfect fit (E = 0) counts as an error of 1e-320, or as minus infinity for one-parameter models, for any n, and series too short for it (n <= k + 1) are rejected.',
     ['inputs'],
     'all E >= 0, all n and k, including perfect fits of long series',
     'tests check a few values with tolerance and never n beyond 20 or the perfect-fit branch for large n',
     [U, F], [('get_aic_c', U), ('fit_model', F)], ['model_utils.get_aic_c', 'forecast.run_forecast (metadata)'])

prop('C10', 'The output tables account for every sample and forecast date once',
     'The data table holds every input sample from the start date on exactly once as an actuals row with its date, value and weight (1 if none was given), and, for each reported fitted model, one row per date of the forecast horizon with a non-null value. The forecast table holds the actuals with a value plus the rows of the best model with the same dates and values as in the data table, or only the actuals if nothing could be fitted (or the best model has no value at any usable sample\'s date). Every row is labelled with its source, its model name (or "actuals") and whether it is an actual.',
     ['inputs', 'configurations'],
     'all series (gaps, nulls, weights, numeric or dated, one or more sources), horizons, model lists and output modes',
     'tests check shapes and column names for fixed series; row-level accounting with nulls, weights and gaps is not checked',
     [F], [('get_df_actuals_clean, _get_df_fcast_clean, run_forecast_single output', F), ('_get_pi_single_source', F)],
     ['forecast.run_forecast'])

prop('C11', 'The forecast grid continues the sampling grid for the requested horizon',
     'The sampling frequency is derived from the minimum spacing of distinct dates: hourly, daily (23 hours up to any other spacing), weekly anchored on the weekday of the first date (exactly 7 days), month start or end (28-31 days), quarter start or end (89-92 days), year start or end (365-366 days), unknown below an hour-23 hours gap. Forecast dates start at the first used sample, step by that frequency without gaps or repeats, cover every sample on the grid, and end floor(years*units) samples after the last one, with 365 days, 52 weeks, 12 months, 4 quarters, 1 year or 8760 hours per year. Series without dates continue in steps of 1 for floor(100*years) samples, with x equal to the sample index.',
     ['inputs', 'configurations'],
     'all frequencies, start dates, lengths, gap patterns and horizons including fractional and zero',
     'tests check daily, weekly, MS and YS with one start date; end-of-month, leap years, fractional horizons are not covered',
     [U, F], [('detect_freq, get_s_x_extrapolate', U), ('extrapolate_model', F)],
     ['model_utils.detect_freq', 'model_utils.get_s_x_extrapolate', 'forecast.extrapolate_model', 'forecast.run_forecast'])

prop('C12', 'Gap filling completes the grid and keeps every sample',
     'Filling the gaps of a series without repeated dates, sampled on the grid of its frequency, returns one row per grid point from its first to its last sample, in order: the original samples with x and value unchanged, and added rows whose x is interpolated by position and whose value is null or, if requested, linearly interpolated by position. Regular series are returned unchanged, the optional mask marks exactly the added rows, and irregular series with repeated dates are rejected instead of silently losing samples.',
     ['inputs', 'configurations'],
     'all gap patterns over hourly/daily/weekly/monthly/quarterly/yearly grids and numeric x, with and without interpolation and mask',
     'tests check one daily and one numeric gap pattern',
     [U], [('interpolate_df', U)], ['model_utils.interpolate_df'])

prop('C13', 'Naive forecasts repeat the last usable observation and never look ahead',
     'At every point, the naive model gives the last usable value strictly before that point (the first usable value where there is none before), and the weekday-seasonal naive model gives the last usable value on the same weekday strictly before it, nothing where there is none; after the end they repeat the last usable value, respectively that of the same weekday. Unusable samples (null or zero weight) and gaps are bridged, and a value at one date never changes the model\'s output at that date or earlier, except through the initial backfill.',
     ['inputs', 'configurations'],
     'all series, gap patterns, null and zero-weight placements and start weekdays',
     'tests check one short series per model and one gap',
     [M, F, U], [('_f_model_naive, _f_model_snaive_wday, _fillna_wday', M), ('df_actuals_interpolated in run_forecast_single', F)],
     ['forecast.run_forecast', 'forecast_models.model_naive', 'forecast_models.model_snaive_wday'])

prop('C14', 'Model composition is pointwise addition and multiplication',
     'A composed model\'s output is the pointwise sum or product of its two parts, each called with its own slice of the parameters and told whether it is added or multiplied by the operator it is directly under; the null model is the identity of both. Parameter count, initial values and bounds are the concatenation of those of the parts, its validations and cached variables their union, and its name determines equality, order and hash. This holds for any nesting, and composing never changes the parts.',
     ['programs', 'inputs'],
     'all expression trees over models with + and *, all parameters and inputs',
     'tests compose two or three specific models',
     [M], [('ForecastModel.__add__/__mul__ and helper closures', M)],
     ['ForecastModel call, f_init_params, f_bounds, validate_input, init_cache'])

prop('C15', 'Fixing parameters only removes the fixed degrees of freedom',
     'A model with some parameters fixed behaves as the original with the fixed values inserted at their positions: same output for every choice of the free parameters and inputs, free initial values and bounds in order, and a parameter count equal to the number of free ones. When fitting, parameters whose lower and upper bounds coincide are fixed to that value, at any position and in compositions, and the forecast is the one of the model with those values.',
     ['programs', 'inputs', 'histories'],
     'all models and compositions, all subsets of fixed parameters, repeated evaluation',
     'tests fix one or two parameters of a simple model and evaluate once',
     [M, F], [('fix_params_fmodel, simplify_model, get_fixed_model', M), ('fit_model, run_forecast_single', F)],
     ['forecast_models.fix_params_fmodel', 'forecast_models.simplify_model', 'forecast.run_forecast'])

prop('C16', 'Caching never changes results',
     'For every model, simple or composed, evaluating it with the precomputed cache variables of the same inputs gives exactly the same output as evaluating it without, and fitting with and without the cache gives the same fit. The cache holds one entry per variable needed by any component, also when several components share or define variables.',
     ['programs', 'inputs', 'configurations'],
     'all predefined and composed models, date arrays in any order, parameters',
     'tests compare cached and uncached for a few models on one date range',
     [M, F], [('ForecastModel.init_cache, _dict_f_cache, mask kwargs in dummy models', M), ('optimize_least_squares use_cache', F)],
     ['ForecastModel call', 'ForecastModel.init_cache', 'forecast.run_forecast(use_cache)'])

prop('C17', 'Calendar and dummy models hit exactly the listed or ruled dates',
     'A dummy or calendar model adds its parameter (or multiplies by 1 plus it) exactly on the dates or x values given by its list, function or holiday rules, and leaves all other samples unchanged, with one parameter per list or calendar. The UK, US and Italian calendars follow their rules: fixed days with their weekend shifts, nth weekdays, and Easter-based days, in any year and for dates in any order or range.',
     ['inputs', 'programs'],
     'all dates 1980-2060, all ranges and orders of dates, all lists',
     'tests check a few holidays of 2017-2018 on sorted daily ranges',
     [M], [('get_model_dummy, get_model_from_calendars, get_model_from_datelist, Calendar classes', M)],
     ['forecast_models.model_calendar_uk/us/ita', 'forecast_models.get_model_dummy'])

prop('C18', 'Prediction intervals are the bootstrap quantiles of centred residuals',
     'The forecast table keeps each source\'s actuals and best-fit rows and adds four quantile columns that are ordered, bracket nothing for actuals, and depend only on the residuals of usable actuals minus their mean. Past rows have a width that follows the residual distribution alone; future rows widen by one more accumulated residual at every full widening period (converted to samples by the sampling frequency) after the last usable actual. Residuals pair every usable actual with the forecast of its date. Constant residuals give a zero-width interval and residuals scaled by a factor scale the interval\'s width.',
     ['inputs', 'configurations'],
     'all residual sets, quantile pairs, widening periods, sampling frequencies, horizons and sources; random draws quantified by exact distribution bounds',
     'tests only check that the columns exist and are plotted; values are random',
     [F], [('get_pi, _get_pi_single_source, _df_add_pi_percentiles', F)], ['forecast.get_pi', 'forecast.run_forecast'])

prop('C19', 'Outlier detection flags isolated spikes and steps, and only those',
     'A change between consecutive samples (in a forecast: consecutive usable samples) is an outlier if it lies more than 1.5 interquartile ranges outside of the quartiles of all changes; outliers within the window are grouped. A group whose changes cancel out is a spike, masking its samples from its first change to before its last; a group with a net change beyond the thresholds is a step. Series without such changes give empty masks, masks have one entry per sample, repeated dates are rejected, and when the forecast looks for outliers the spike samples get weight zero and all others keep theirs.',
     ['inputs', 'configurations'],
     'all series: any number, place, sign, size and duration of spikes and steps, with or without dates',
     'tests check a handful of hand-made series',
     [M, F], [('get_model_outliers, get_iqr_thresholds', M), ('run_forecast_single find_outliers', F)],
     ['forecast_models.get_model_outliers', 'forecast.run_forecast(find_outliers)'])

prop('C20', 'Automatic composition is multiplicative only when variance follows the mean',
     'Automatic choice of composition picks multiplicative only if the series has dates spanning at least 60 days, only positive values and at least four usable samples, and the correlation between monthly mean and monthly residual variance around a linear fit is at least 0.8; in every other case it is additive. The candidates and the recorded composition of every fit then follow that choice.',
     ['inputs', 'configurations'],
     'all series around each exception and on both sides of the correlation threshold',
     'tests check one additive and one multiplicative series and some exceptions',
     [U, F], [('is_multiplicative, _get_mult_sum_stats', U), ('run_forecast_single season_add_mult', F)],
     ['model_utils.is_multiplicative', 'forecast.run_forecast(season_add_mult="auto")'])

prop('C21', 'Results do not depend on earlier calls',
     'Every call to the library gives the result it gives in a fresh process: earlier forecasts, fits, model compositions, fixings, evaluations or failed calls, in any order and with any arguments, never change a later result, except through the random state. No call modifies the tables, arrays, lists or models it is given.',
     ['histories', 'inputs'],
     'all sequences of calls over a pool of shared models, tables and configurations, including repeated and failing calls',
     'each test makes its calls once from a fresh fixture; no test compares a result after different histories',
     [F, M, U], [('copy() discipline in normalize_df/fit_model/run_forecast_single', F), ('shared model objects and caches', M)],
     ['all public entry points'],
     state=[{'name': 'module-level models and cache function table', 'meaning': 'shared, must behave as constants', 'where': M}])

prop('C22', 'A noise-free series is recovered and continued exactly',
     'If the actuals follow one of the candidate structures exactly (linear, plus step, weekday pattern, calendar effect or sums of them; or linear times weekday pattern) the forecast reproduces them and continues the same formula over the whole horizon, up to solver tolerance. This holds for any start date, unit of time, scale, gaps and row order.',
     ['inputs', 'configurations'],
     'all parameters, start dates, lengths, frequencies and gaps of the noise-free families',
     'tests look at fit parameters on the actuals for a few series, not at the continuation',
     [F, M, U], [('fit_model, extrapolate_model', F), ('model functions', M)], ['forecast.run_forecast'])

prop('C23', 'The command line produces what the API returns',
     'Running the command line tool on a CSV file writes, in the requested folder (or beside the input), a data table and a metadata table equal to those of the API call with the same options, and a plot in the requested format. Column names, horizon and all-fits options have the same meaning as in the API, and the input file is left unchanged.',
     ['inputs', 'configurations'],
     'all CSV inputs and option combinations',
     'no test runs the command line tool',
     [A, F], [('run_forecast_app, main', A)], ['python anticipy/app.py', 'app output files'])

prop('C24', 'Plots show every source, its actuals and its best forecast',
     'A plot has one panel per source of the table, in order of appearance and with the source as title if there are several; each panel shows that source\'s actuals and its forecast with exactly the table\'s dates and values, and, on request, the bounds of the requested prediction intervals where present. Plotting reports success if and only if it produced output in the requested format under the requested name; unknown formats, missing paths and missing libraries fail without output. The table is never modified.',
     ['inputs', 'configurations'],
     'all forecast tables: number and names of sources, with and without intervals, weights, all formats',
     'tests check that files are written',
     [PL], [('plot_forecast, _matplotlib_forecast_create, _plotly_forecast_create', PL)], ['forecast_plot.plot_forecast'])

prop('C25', 'Each predefined model evaluates its documented formula',
     'Each predefined model returns, for every x, date, parameters and composition role, the value of its formula: null, constant, linear, quasilinear, exponential, decay, step, two steps, spike, dated spike and step, sigmoid step, ramp, weekday, weekend, month and yearly Fourier seasonality. The output has one value per input sample, does not depend on the other samples, and seasonal models repeat with their period.',
     ['inputs', 'programs'],
     'all x, dates, in-domain parameters and both composition roles',
     'tests evaluate most models once with one parameter vector on ten consecutive samples',
     [M], [('_f_model_* functions', M)], ['ForecastModel call'])

prop('C26', 'Every predefined model can start its fit on any valid series',
     'For every predefined model and composition, and every series it accepts with at least its number of parameters plus two samples at distinct x, the initial parameters are as many as the model has, finite, and within the model\'s bounds, so that fitting never fails for reasons of its own starting point; without a series, initial parameters are as many and finite as well. Bounds follow the shape of the model and the range of the series: a ramp starts away from the first and last samples, a sigmoid step within the range of x and with a height of at most twice the range of the values. The non-decreasing linear model never yields a negative slope and the decay model never a growing exponent.',
     ['inputs', 'programs'],
     'all series (constant, negative, large offset, any x origin), all predefined models and pairs of them',
     'tests check initial values for three series',
     [M, F], [('_f_init_params_*, f_bounds_*, validate_initial_guess', M), ('optimize_least_squares assertion', F)],
     ['ForecastModel.f_init_params / f_bounds', 'forecast.fit_model'])

prop('C27', 'The tables of a forecast agree with each other and with its fits',
     'Every candidate of a source has exactly one row in the optimizer table, whether all fits are reported or not, and it agrees with its metadata in success, cost, parameters and long source. Metadata state the sampling frequency of the source, the range of the weights of its samples from the start date on, and the first and last usable date or x. The rows of every reported fit are the values of the reported model at the reported parameters, x continuing that of the samples, and the reported cost is half the sum of the squared weighted differences between the usable samples and the rows of the fit.',
     ['inputs', 'configurations'],
     'all series, weights, start dates, model lists',
     'tests print the tables, and check a few of their columns for one series',
     [F], [('run_forecast_single, fit_model, _get_df_fit_model, extrapolate_model', F)], ['forecast.run_forecast'])

prop('C28', 'A list of forecast inputs gives the results of its inputs in order',
     'Forecasting a list of inputs, each with its own source, samples, model lists and start date, gives the concatenation, in the order of the list, of the tables that forecasting each of them alone with the same options gives, with rows numbered from 0. Inputs without samples contribute nothing and do not affect the others; if no input has samples there is no result. A single input is a list of one, an input without trend uses the linear model, and a table of several sources gives the same as the list of its sources.',
     ['inputs', 'configurations'],
     'all lists of inputs: number, order, kinds of series, repeated source names, model lists, options',
     'tests forecast lists with one input, and one list of two',
     [F], [('run_l_forecast, aggregate_forecast_dict_results, ForecastInput', F)], ['forecast.run_l_forecast'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
for p in P:
    assert len(p['title']) <= 80, (p['id'], len(p['title']))
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
