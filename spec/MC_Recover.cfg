INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANTS
 Fams = {"lin", "lin+step", "lin+spike", "lin+wday", "lin+step+wday", "lin*wday", "wday", "lin+uk", "lin+us", "lin+ita", "lin+wday+uk", "lin+workdays", "lin+monthstart", "lin+month", "lin+dummy"}
 Starts = {17000, 17338, 18263}
 Seeds = {5, 21, 31}
 Sizes = {17, 39}
 Horizons = {1}
INVARIANTS Determined Best Shifted Gen
