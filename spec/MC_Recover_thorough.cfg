INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Fams = {"lin", "lin+step", "lin+spike", "lin+wday", "lin+step+wday", "lin*wday", "wday", "lin+uk", "lin+us", "lin+ita", "lin+wday+uk", "lin+workdays", "lin+monthstart", "lin+month", "lin+dummy"}
 Starts = {16071, 17000, 17338, 17897, 18263, 18320, 19056}
 Seeds = {2, 5, 15, 21, 31, 36, 41}
 Sizes = {17, 20, 39, 62}
 Horizons = {1}
INVARIANTS Determined Best Shifted Gen
