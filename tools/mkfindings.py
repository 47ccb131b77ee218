"""Writes known_findings.json."""
import json
import os

FINDINGS = [
    dict(property='C12', key='monthly-mid-month',
         clauses=['fill: one row per grid point'],
         what='interpolate_df of a monthly series sampled on a day other '
              'than the first or last of the month raises '
              'IntCastingNaNError (input 2020-01-15 .. 2020-06-15): its '
              'samples are not on the detected month-end grid'),
    dict(property='C05', key='large-values',
         clauses=['fit: optimal parameters', 'fit: optimal predictions',
                  'fit: cost of the optimum'],
         what='fit_model(model_linear) of the values 0, 3, 5, 16, 32, 35, 35 '
              'times 1e10 keeps the intercept 0: numerical derivatives by a '
              'parameter that starts at 0 are lost in the rounding of '
              'values of this size'),
    dict(property='C27', key='hourly-start',
         clauses=['rep: cost is that of the rows'],
         what='run_forecast(model_linear) of hourly samples from '
              '2020-01-06 00:00 with date_start_actuals 2020-01-06 12:00: '
              'x is the number of whole days, in the fit since the midnight '
              'of the Monday, in the forecast since the first used sample; '
              'rows at the dates of samples are not the fitted values'),
]
FIXED = [
    ('C24', '29ad26d', 'plot_forecast reported success if the plotting '
     'library is missing'),
    ('C24', '8f9a225', 'png plots without width and height crashed'),
    ('C24', '1ac9f47', 'plot_forecast returned None for notebook plots'),
    ('C24', '22ff4a3', 'sources without actuals were not plotted; a table of '
     'such sources crashed'),
    ('C24', '90a0a63', 'png plots ignored the percentages of the requested '
     'prediction intervals'),
    ('C05', '52cb724', 'decreasing series were left unfitted by the '
     'non-decreasing linear model'),
    ('C05', '0235fb0', 'linear fits stayed at zero for large series that begin '
     'and end at zero'),
    ('C05', '098b910', 'weekday seasonality of large values was not fitted'),
    ('C19', 'a114177', 'get_model_outliers crashed on series without '
     'outliers'),
    ('C11', '1a55327', 'forecast of numeric series was shifted when x does '
     'not start at 0 (x_start added twice)'),
    ('C11', '685f7bd', 'forecast of numeric series did not cover the last '
     'actuals sample'),
    ('C11', 'bfcbe6a', 'horizon in months, quarters, years: fractional years '
     'crashed, quarterly series crashed, month-end series one sample short'),
    ('C18', 'c2cede7', 'get_pi crashed if the sampling frequency is unknown'),
    ('C03', '2a9c56a', 'run_forecast crashed if a source has no samples '
     'after date_start_actuals'),
    ('C11', 'd09268a', 'run_forecast crashed on series sampled at the start '
     'of each quarter'),
    ('C09', '1651cbd', 'get_aic_c crashed on a perfect fit of a long series'),
    ('C15', '33c22d6', 'simplify_model crashed if bounds are lists'),
    ('C15', '89d99f4', 'run_forecast extrapolated models with fixed bounds '
     'using the wrong model'),
    ('C01', '6e329bd', 'normalize_df rejected a series without a name'),
    ('C04', '0bf1c90', 'date_start_actuals was ignored in series without '
     'dates'),
    ('C07', 'a367968', 'run_forecast crashed on series without dates and '
     'without valid samples'),
    ('C01', '00405dd', 'normalize_df ignored the numeric index of a series '
     'without x, date'),
    ('C23', '9ff14a5', 'app wrote its output next to the folder in path_out'),
    ('C25', '546e802', 'model_spike returned arrays of the wrong size with '
     'fractional positions'),
    ('C26', '3445ffd', 'model_sigmoid_step initial parameters could be '
     'outside its bounds'),
    ('C26', '7314ab4', 'model_ramp initial parameters could be outside its '
     'bounds with duplicate samples'),
    ('C12', '986b2ba', 'interpolate_df did not mark gap-filled hourly '
     'samples'),
    ('C13', 'c77f832', 'model_naive repeated one sample per day on hourly '
     'series'),
    ('C04', 'bc9713c', 'ignored samples that share x with a used sample '
     'affected the naive models'),
    ('C16', 'bf36562', 'naive models crashed if composed with models that '
     'use cache variables'),
    ('C15', 'b1ed4a2', 'models with fixed parameters did not pass on '
     'df_actuals'),
    ('C13', '5736e68', 'model_snaive_wday crashed if x of a sample is not '
     'its number of days'),
    ('C25', '91777ec', 'model_spike used positions instead of x'),
    ('C14', 'b938b2c', 'validation functions that return False did not '
     'reject the input'),
    ('C14', 'ca0d349', 'fit_model crashed on compositions of models without '
     'parameters'),
    ('C06', '239ba1a', 'models listed twice, e.g. as naive and trend model, '
     'were tried and reported twice'),
    ('C07', '49f6e72', 'a model without finite residuals or derivatives, '
     'e.g. model_quasilinear on negative x, aborted the whole forecast'),
    ('C02', '6d040bf', 'with custom column names, unrelated columns that '
     'have a default name replaced or broke the named ones'),
    ('C04', '71bcbff', 'values of ignored samples decided between additive '
     'and multiplicative composition (season_add_mult=auto)'),
    ('C07', '5bc4840', 'model_linear, and with it the default forecast, '
     'crashed if all samples share x, e.g. hourly samples of one day'),
    ('C07', 'cd54005', 'model_ramp aborted the forecast of series with less '
     'than 4 distinct x'),
    ('C07', '6b147bc', 'yearly seasonality models aborted the forecast of '
     'series without dates'),
    ('C19', '1640401', 'outlier changes at the last samples were not '
     'grouped: a spike at the last but one sample was seen as a step, steps '
     'at the end were missed'),
    ('C19', 'd58312d', 'outliers of series with fractional x were masked at '
     'the wrong samples'),
    ('C19', '08cbab3', 'null and zero-weight samples affected the search '
     'for outliers of run_forecast'),
    ('C18', '493ea81', 'prediction intervals of hourly series widened after '
     '365 samples instead of 365 days'),
    ('C18', '9183a7f', 'prediction intervals used residuals of samples with '
     'missing or negative weight and of samples that share the date of a '
     'used one, and repeated those of repeated dates'),
    ('C18', '8befa05', 'get_pi crashed on tables without source column and '
     'without residuals'),
    ('C23', '4642d67', 'app could not be imported or run as a module of the '
     'package'),
    ('C28', '5152cec', 'run_l_forecast crashed if an input has no samples'),
    ('C24', 'e3ff4cd', 'plot_forecast crashed on forecasts of series without '
     'dates'),
    ('C26', 'de3e57d', 'model_spike had one initial parameter instead of '
     'three without series'),
    ('C26', 'cd8ff9f', 'monthly seasonality could not be fitted to series '
     'without samples in some month'),
    ('C07', '1dbaf6b', 'models that need dates (calendars, step_date, '
     'spike_date, date dummies, fixed models) aborted the forecast of series '
     'without dates'),
]

if __name__ == '__main__':
    p = os.path.join(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))), 'known_findings.json')
    json.dump(dict(findings=FINDINGS, fixed=[
        'fixed: property=%s %s %s' % f for f in FIXED]), open(p, 'w'),
        indent=1)
