import json
S="src/climate_indices/"
def P(id,title,st,over,qt,why,files,state,mech,obs):
    return dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=[S+f for f in files],state=[dict(name=a,meaning=b,where=S+c) for a,b,c in state],
      mechanism=[dict(name=a,where=S+b) for a,b in mech],observe_at=obs,hook_needed=None))
C="compute.py";I="indices.py";M="__main__.py";X="__spi__.py";PA="palmer.py";U="utils.py";E="eto.py";LM="lmoments.py"
fit=[("fitted parameters","one set per calendar month or day",C+": gamma_parameters, pearson_parameters"),("probability of zero","share of zero totals per calendar step",C+": transform_fitted_gamma, calculate_time_step_params")]
L=[
P("C01","The SPI is the fitted-probability z-score of each accumulated total",
 "For every precipitation series, accumulation scale, monthly or daily step and distribution (gamma or Pearson type III), each SPI value is the standard-normal quantile of p0 + (1-p0)*F(total): F is the distribution fitted to that calendar step's totals within the calibration years (gamma: maximum-likelihood approximation on the non-zero totals; Pearson: L-moments) and p0 is that step's share of zero totals, the result being limited to [-3.09, 3.09]. Negative precipitation counts as zero, also when other values are missing; a missing total gives a missing value, a zero total gives a missing value with gamma and the dry end with Pearson, and the result has as many values as the input, whatever its shape (one- or two-dimensional, whole or partial last year). Totals at or beyond the fitted Pearson distribution's bound take F = 0.0005 (lower bound) or 0.9995 (upper bound), totals under 0.0005 otherwise take F = 0 when zeros occurred in the calibration sample and 0.0005 when not, and a series without any data stays missing.",
 ["inputs","configurations"],"all series (missing values anywhere, zeros, negatives, partial final years), scales, distributions, periodicities and calibration periods",
 "tests compare one fixture series at a few scales; the formula has to hold for each combination of zero pattern, missing pattern, skew sign, scale and calibration period",
 [I,C,LM],fit,[("spi",I+": spi"),("Pearson mixing",C+": _pearson_fit"),("gamma transform",C+": transform_fitted_gamma"),("L-moments",LM+": fit")],["indices.spi return value"]),
P("C02","The SPEI applies the SPI transform to the accumulated water balance",
 "For every pair of precipitation and potential-evapotranspiration series, each SPEI value is the fitted-probability z-score (gamma or Pearson type III, per calendar step, limited to [-3.09, 3.09]) of the accumulated totals of precipitation minus PET plus 1000 mm per step, with negative precipitation counted as zero first. A step with a missing value in either series makes every window that contains it missing, the result has as many values as the input, and a precipitation series without any data stays missing. Series of different sizes are refused.",
 ["inputs","configurations"],"all pairs of series, scales, distributions, periodicities and calibration periods",
 "tests compare one fixture pair per distribution; missing values in only one of the series, partial years, 2-D inputs and other calibration periods are not sampled",
 [I,C,LM],fit,[("spei",I+": spei"),("transforms",C+": transform_fitted_gamma, transform_fitted_pearson")],["indices.spei return value"]),
P("C03","Fitting uses only the calibration years of the same calendar step",
 "Distribution parameters for a calendar month or day depend only on the values of that same month or day in the years from the first to the last calibration year inclusive: values outside those years or of other calendar steps never change them. When the calibration period starts before the data or ends after the data's last (possibly partial) year, the whole record is the calibration period, and a period that ends exactly with the data is used as given. Gamma parameters are the maximum-likelihood approximation on the non-zero values, Pearson parameters the L-moment estimates with the zero share; missing values are ignored.",
 ["inputs","configurations"],"all series, all calibration periods relative to the data period, monthly and daily steps",
 "tests fit one fixture with one calibration period; off-by-one years or leakage only shows with particular periods and record lengths",
 [C,LM],fit,[("calibration window",C+": gamma_parameters, pearson_parameters, adjust_calibration_years"),("estimators",LM+": fit")],["compute.gamma_parameters and compute.pearson_parameters return values","indices.spi / spei return values"]),
P("C04","Fitted parameters can be saved and reused in place of fitting",
 "Passing to the SPI or SPEI the parameters that fitting the same scaled data produced gives the same values as fitting inside the call, and with parameters given the calibration years no longer matter. The parameters are used for the calendar step they belong to, also on a different data series, and the SPEI accepts the deprecated plural parameter names with the same result as the current names. Giving some but not all Pearson parameters is refused.",
 ["inputs","histories"],"all fit-then-apply histories over data series, scales, distributions and both naming schemes",
 "tests never pass fitted parameters to spi/spei; equality over fit/apply histories is a relation between calls",
 [I,C],[("fitting parameters","alpha, beta / prob_zero, loc, scale, skew by calendar step",I+": spi, spei")],[("parameter use",I+": spi, spei, _norm_fitdict"),("partial parameters",C+": transform_fitted_pearson")],["indices.spi/spei with fitting_params","compute.gamma_parameters/pearson_parameters/scale_values"]),
P("C05","Library calls never modify their inputs and depend on nothing else",
 "No library computation (indices, PET, Palmer, fitting, scaling, calendar conversion, L-moments) changes the arrays or parameter dictionaries it is given. The result of a call is determined by its arguments alone: repeating it, in any order and after any other calls, also failed ones, gives the same result.",
 ["histories","inputs"],"all sequences of library calls sharing input arrays",
 "tests call each function once on a fresh copy or ignore the array afterwards",
 [I,C,E,PA,U,LM],[("caller's arrays","input arrays shared between calls",I+": all functions")],[("copies before in-place edits",C+": gamma_parameters, transform_fitted_gamma"),("temperature copy",E+": eto_thornthwaite")],["argument arrays before/after each call","return values of repeated calls"]),
P("C06","Accumulated totals are the exact sliding window sums",
 "For every scale k, the accumulated value at step i is the sum of the k values ending at i; the first k-1 steps, and exactly the windows that contain a missing value, are missing, and a scale longer than the series gives all missing. Scale 1 is the series itself. Before scaling for fitting, negative values count as zero, also when other values are missing, and the result is arranged in whole years with the last year padded by missing values.",
 ["inputs"],"all series, missing patterns and scales, monthly and daily",
 "tests cover two short arrays",
 [C,U],[("scaled values","sliding sums by step",C+": sum_to_scale, scale_values")],[("sliding sum",C+": sum_to_scale"),("year layout",U+": reshape_to_2d")],["compute.sum_to_scale / compute.scale_values return values"]),
P("C07","Percentage of normal divides each total by its calendar step's calibration mean",
 "Each value is the accumulated total divided by the mean accumulated total of the same calendar month or day over the calibration years, ignoring missing totals; it is missing where the total is missing or that mean is not positive. The position in the calendar follows the series, so calibration years are located relative to the data's first year, for monthly and daily data alike. A scale below one, or a calibration period that starts before the data or is longer than it, is refused.",
 ["inputs","configurations"],"all series, scales, calibration periods and both periodicities",
 "tests use one fixture series with few scales",
 [I],[("calendar step means","one mean per step",I+": percentage_of_normal")],[("percentage_of_normal",I+": percentage_of_normal")],["indices.percentage_of_normal return value"]),
P("C08","The precipitation concentration index uses true monthly totals",
 "For a year of daily rainfall, 365 or 366 values without missing ones, the index is 100 times the sum of the squared monthly totals over the square of the annual total, with the months of a common or leap year respectively. It therefore lies between 100/12 and 100, reaches 100 when all rain falls in one month, and does not change when the rain is redistributed within months or multiplied by a constant. Any other length, or any missing value, is refused, and a year with no data at all stays missing.",
 ["inputs"],"all daily rainfall years of either length",
 "tests check two fixed arrays; month boundaries only show for rain on specific days",
 [I],[("month boundaries","cumulative day numbers",I+": pci")],[("pci",I+": pci")],["indices.pci return value"]),
P("C09","Calendar conversions to and from 366-day years lose and move no day",
 "Converting daily data to 366-day years keeps every real day's value on its calendar day, inserts as 29 February of each common year the mean of its neighbours, and pads an unfinished last common year with missing values. Converting back drops exactly those inserted days, so a round trip over whole years returns the original, for every starting year including century years. The length conversion agrees with it: each whole year counts 366 steps and a trailing part counts its days.",
 ["inputs"],"all start years, numbers of years, lengths of the last year and series",
 "tests use one period; leap-century and partial-year cases are not sampled",
 [U],[("year positions","indices in both calendars",U+": transform_to_366day, transform_to_gregorian")],[("conversions",U+": transform_to_366day, transform_to_gregorian, gregorian_length_as_366day")],["utils.transform_to_366day, transform_to_gregorian, gregorian_length_as_366day return values"]),
P("C10","Month offsets count the true calendar days",
 "The day offset of each month is the number of days from 1 January of the reference year to the first of that month in the proleptic Gregorian calendar. Consecutive offsets differ by the length of the month, across year ends, leap years and century years, for any starting month.",
 ["inputs"],"all initial years, initial months, reference years and numbers of months",
 "tests check two short ranges",
 [U],[("offsets","days since the reference date",U+": compute_days")],[("compute_days",U+": compute_days")],["utils.compute_days return value"]),
P("C11","Monthly PET follows Thornthwaite's equation",
 "For every monthly temperature series and latitude between 90 degrees south and north inclusive, potential evapotranspiration is 16 * (L/12) * (N/30) * (10 T / I)^a with negative temperatures as zero, heat index I and exponent a from the mean temperature of each calendar month, N the days of that month and L its mean daylight hours, leap years having their own. Missing temperatures give missing values and are left out of the means, the result has as many values as the input, whole or partial last year, and a series without any data stays missing. A latitude that is missing or outside the range is refused.",
 ["inputs"],"all temperature series, latitudes and start years",
 "tests use one fixture station; leap-year placement, poles, southern latitudes and missing months are not sampled",
 [I,E],[("heat index and exponent","from calendar-month means",E+": eto_thornthwaite"),("daylight","mean hours per month, common and leap years",E+": _monthly_mean_daylight_hours")],[("pet",I+": pet"),("eto_thornthwaite",E+": eto_thornthwaite")],["indices.pet / eto.eto_thornthwaite return value"]),
P("C12","Daily PET follows the Hargreaves equation",
 "For every daily minimum, maximum and mean temperature series in 366-day years and every latitude, the result is 0.0023 (Tmean + 17.8) sqrt(Tmax - Tmin) * 0.408 Ra, with the extraterrestrial radiation Ra of that day of the year and latitude, including polar day and night. Each value depends only on that day's three temperatures, missing input gives a missing value, the result has as many values as the input, and series of different sizes are refused.",
 ["inputs"],"all daily temperature series, record lengths and latitudes",
 "tests use one short fixture at one latitude",
 [E],[("radiation","by day of year and latitude",E+": eto_hargreaves")],[("eto_hargreaves",E+": eto_hargreaves")],["eto.eto_hargreaves return value"]),
P("C13","Palmer drought indices follow the spell rules from the moisture anomaly",
 "Given the monthly moisture anomaly (Z) series, the PDSI, PHDI and PMDI of every month follow Palmer's spell accounting: incipient wet and dry spells and the established spell evolve by X = 0.897 X' + Z/3, an incipient spell is established at +1 or -1, an established one ends when its ending probability reaches 100 percent, and once the outcome is known the undecided months are assigned backwards to the spell that prevailed. The PHDI is the established spell's value, or the PDSI outside a spell, and the PMDI weights the spells by the ending probability. This holds for every sequence of wet and dry months, however long the outcome stays undecided and in whatever month the record ends.",
 ["inputs","histories"],"all Z sequences, in particular those which open, abandon, end and re-open spells, of any length",
 "the fixtures exercise some transitions; the spell accounting is a state machine with backtracking whose paths depend on long histories",
 [PA],[("spell state","x1, x2, x3, probability, pending months",PA+": _calc_zindex and helpers")],[("transitions",PA+": _statement_170 ... _statement_220"),("backtracking",PA+": _assign, _finish_up")],["palmer.pdsi return values"]),
P("C14","Palmer's soil water accounting conserves water and yields the Z index",
 "For every precipitation and PET series and available water capacity, the monthly Z index is the climatic weight of the month times precipitation minus the climatically appropriate precipitation, where coefficients and weights come from the two-layer soil water balance (one inch in the surface layer, the rest below) accumulated over the calibration years. Negative precipitation counts as zero, and the four returned coefficient sets are the calendar-month ratios of actual to potential evapotranspiration, recharge, runoff and loss, one for a zero-by-zero ratio except for loss (zero). A series without any data stays missing, and series of different sizes are refused.",
 ["inputs","configurations"],"all pairs of series (whole or partial last year), water capacities and calibration periods of whole years",
 "the fixtures have few stations with one capacity and calibration period each",
 [PA],[("soil moisture","surface and underlying layers",PA+": _calc_water_balances"),("coefficients","alpha, beta, gamma, delta, weights",PA+": _calc_cafec_coefficients, _calc_kfactors")],[("recharge and loss",PA+": _calc_recharge, _calc_potential_loss"),("Z",PA+": _calc_zindex")],["palmer.pdsi Z and parameters"]),
P("C15","A gridded run writes for every location what the library computes for it",
 "For every index and input layout (grid in either accepted order of the dimensions, climate divisions, or a single series), the processing command writes, at every location and time, the value the library function gives for the series of that location converted to millimetres or degrees Celsius (and its own latitude for PET). Each requested scale and distribution has its own file, named by index, distribution and scale, with the dimensions, coordinates and times of the input. PET computed on the way to the SPEI is the same as when requested by itself.",
 ["inputs","configurations"],"all grid shapes, both dimension orders, indices, scales, distributions and data, including locations without data",
 "the stable tests do not run the processing command at all",
 [M],[("shared arrays","flattened input and result per variable",M+": _compute_write_index"),("output dataset","dims and coordinates",M+": _compute_write_index")],[("parallel apply",M+": _parallel_process"),("index writing",M+": _compute_write_index"),("file naming",M+": _compute_write_index")],["NetCDF files written by the processing command"]),
P("C16","Results do not depend on how work is split between processes",
 "For every grid shape and number of worker processes (single, all but one, all, on any machine, including more workers than rows and a single location), each location is computed from its own series and the files written hold the same values. The same holds for the dedicated SPI command.",
 ["schedules","configurations"],"all worker counts against all sizes of the split dimension, and all completion orders",
 "the stable tests do not start the worker pool, and splitting errors show only for particular ratios of rows to workers",
 [M,X],[("work split","index ranges per worker",M+": _parallel_process")],[("split and merge",M+": _parallel_process"),("split and merge (SPI command)",X+": _parallel_process")],["NetCDF files written with different process counts"]),
P("C17","Unusable requests are refused before anything is written",
 "A run is refused with an error, leaving no output file, when an input needed for the index is not given, a named variable is not in its file, the dimensions are unsupported, no scales or a negative one are given for an index that needs them, PET is asked of non-monthly data, the SPEI is given neither PET nor temperature (or both), or the coordinates or times of two inputs do not match. With units of an input that are not recognised the run ends with an error too, and none of the files that use that input is written. Inputs whose coordinates match within tolerance are accepted.",
 ["configurations","inputs"],"all combinations of index, inputs given and mismatches between them",
 "the stable tests do not run argument validation",
 [M],[("arguments","requested index and inputs",M+": _validate_args")],[("validation",M+": _validate_args"),("unit conversion",M+": _compute_write_index")],["exit and error of the processing command; files present afterwards"]),
P("C18","Saved SPI parameters reproduce the run that saved them",
 "When the SPI command saves fitting parameters, the file holds for each scale, distribution and location the parameters that fitting that location's calibration data gives, and a later run that loads the file for the same grid writes the same SPI values for the same data. Loaded parameters are used whatever calibration years the later run names, an existing parameter file is replaced only when overwriting was allowed, and naming a file to load that does not exist is refused.",
 ["histories","configurations"],"all sequences of save, load, overwrite runs over grids, scales and periodicities",
 "the stable tests do not run the SPI command; the property relates several runs through a file",
 [X],[("fitting file","variables per parameter and scale",X+": build_dataset_fitting_gamma, build_dataset_fitting_pearson")],[("save and load",X+": _compute_write_index"),("overwrite guard",X+": _validate_args, main")],["NetCDF files written by the SPI command"]),
P("C19","Daily runs use 366-day years and write the real calendar",
 "For daily input on a grid, each location's series is put into 366-day years before an index is computed and the result is converted back, so that the output has exactly the input's days and each value belongs to its own date, through leap and century years and for any first year. The last year may be unfinished when it is a common year; a record that ends within a leap year is refused. The value written is the daily index of the library on the converted series, converted back.",
 ["inputs","configurations"],"all start years, whole-year record lengths, grids and indices on daily data",
 "the stable tests do not run the processing command; day shifts only show after a leap day",
 [M,X,U],[("calendar of the arrays","366-day or Gregorian",M+": _compute_write_index")],[("conversion in the run",M+": _compute_write_index"),("conversions",U+": transform_to_366day, transform_to_gregorian")],["NetCDF files written for daily input"]),
P("C20","Runs are independent of each other and leave their inputs alone",
 "Running the processing or the SPI command never changes its input files or the request object it is given, and what a run writes is determined by its inputs and request: it is the same after any other runs in the same process, for any order of scales, after runs that failed, when inputs or outputs of an earlier run under the same names are replaced, and when another run goes on at the same time in another process, writing other files. A run that ends well leaves no temporary files behind. A run for several scales or distributions writes the same values as separate runs for each.",
 ["histories"],"all sequences of runs in one process over different indices, shapes and inputs",
 "the stable tests do not run the commands; leftovers of shared process-wide arrays only show in sequences of runs",
 [M,X],[("process-wide arrays","shared arrays by name",M+": _global_shared_arrays")],[("array reuse",M+": _compute_write_index"),("request handling",M+": process_climate_indices")],["files and request objects before and after runs"]),
P("C21","Standardized indices are ordered, bounded and independent of units",
 "Every SPI or SPEI value is missing or within [-3.09, 3.09], and within one calendar step a larger accumulated total never has a smaller index (up to the probability of 0.0005 that C01 assigns to totals at a Pearson distribution's bounds). Multiplying all precipitation by a positive constant leaves the gamma SPI unchanged, shifting the years of data and calibration together changes nothing, and reordering whole years inside a calibration period that covers the record reorders the scale-1 values accordingly.",
 ["inputs"],"all series, scales and distributions",
 "the laws relate different calls or all pairs of time steps",
 [I,C],fit,[("spi",I+": spi"),("spei",I+": spei")],["indices.spi / spei return values"]),
P("C22","The unit of the inputs does not matter",
 "A run over precipitation (or PET) in inches writes the same index values as over the same amounts in millimetres, and temperature in Fahrenheit or Kelvin gives the same PET and SPEI as in Celsius, for every spelling of the units that is accepted. The conversion is applied once to each input, however many scales or indices are computed, and does not alter the input file.",
 ["configurations","inputs"],"all accepted unit spellings per variable, indices and scale lists",
 "the stable tests do not run the commands",
 [M,X],[("units attribute","unit of each variable",M+": _compute_write_index")],[("conversion",M+": _compute_write_index"),("conversion (SPI command)",X+": _compute_write_index")],["NetCDF files written from inputs in different units"]),
P("C23","A location that fails fails the run",
 "If the computation for any location raises an error, the whole run ends with an error and the file of that computation is not written, no matter which worker met the error and how many workers there are; it is never written with part of its values left over or missing. Later runs in the same process still work.",
 ["fault_sequences","schedules"],"all positions of the failing location, worker counts and indices",
 "no test makes a worker fail",
 [M,X],[("worker results","shared result array",M+": _parallel_process")],[("error propagation",M+": _parallel_process"),("error propagation (SPI command)",X+": _parallel_process")],["exit of the commands and files present after a failure"]),
P("C24","Palmer coefficients are confined to the calibration years and can be reused",
 "The four coefficient sets returned depend only on what happened up to and in the calibration years: changing precipitation or PET after the last calibration year changes neither them nor the moisture anomalies of earlier months. Passing complete coefficient sets back reproduces the same indices, coefficients given are used and returned as given, and incomplete or wrongly sized sets are ignored in favour of calibration.",
 ["inputs","histories"],"all series, calibration periods and fit-then-apply histories",
 "the fixtures use one calibration period each and compare single calls",
 [PA],[("coefficients","alpha, beta, gamma, delta per calendar month",PA+": _calc_cafec_coefficients")],[("given coefficients",PA+": _validate_fitting_params"),("calibration sums",PA+": _calc_water_balances")],["palmer.pdsi return values"]),
P("C25","Both commands compute the same SPI",
 "For the same gridded input and request, the dedicated SPI command and the general processing command write the same SPI values at every location and time, monthly or daily, for every scale and distribution.",
 ["inputs","configurations"],"all gridded inputs, scales, periodicities and worker counts",
 "the stable tests run neither command",
 [M,X],[("output files","SPI by scale and distribution",M+": _compute_write_index")],[("SPI in the processing command",M+": _spi"),("SPI in the SPI command",X+": _spi")],["NetCDF files written by both commands"]),
P("C26","The helper functions and the L-moments fit hold for every array",
 "Rearranging a series into rows keeps every value in its place and completes the last row with missing values; values of divisions by months (whole years) are rearranged into years and months per division in the same way; arrays that already have the shape are returned as they are, and other shapes are refused. Zeros and non-missing values are counted exactly for every shape, a sign change is reported exactly where the signs of two equally sized arrays differ (zero having its own sign), an array counts as valid exactly when it is an array with at least one value that is not missing, and the root mean square error is that of all pairs of values. The coordinate tolerance is a tenth of the smallest spacing and always positive. The L-moments fit gives Hosking's Pearson type III location, scale and skew for the values present in any order, and refuses fewer than four values or values that do not vary.",
 ["inputs"],"all arrays, shapes, types, missing patterns and orders of values",
 "tests use one or two small arrays per function",
 [U,LM],[("row layout","years by months or days",U+": reshape_to_2d, reshape_to_divs_years_months"),("L-moments","sample moments of the sorted values",LM+": fit")],[("rearranging",U+": reshape_to_2d, reshape_to_divs_years_months"),("counting and comparing",U+": count_zeros_and_non_missings, sign_change, is_data_valid, rmse, get_tolerance"),("fit",LM+": fit")],["return values of the functions named"]),
P("C27","Output files say truthfully what they hold",
 "Every file the commands write holds one index variable whose long name states its index, its distribution and its accumulation (number of months or days), and none of the other ones that were requested. SPI and SPEI declare the valid range from -3.09 to 3.09 and PET declares millimetres, and no value of theirs lies beyond the declared range. The files of the SPI command state the extent of the grid and, in their description, their accumulation. A saved parameter file holds for each requested scale the six parameters and nothing else, by location and the 12 months or 366 days of the year, each described with what it is and the accumulation (months or days) it was fitted for.",
 ["inputs","configurations"],"all indices, layouts, grids, scales, distributions and monthly or daily steps",
 "the stable tests run neither command",
 [M,X],[("output variables","name, attributes and values of each file",M+": _get_variable_attributes"),("parameter file","variables, attributes and coordinates",X+": build_dataset_fitting_grid")],[("naming",M+": _get_variable_attributes"),("naming",X+": _get_variable_attributes, build_dataset_spi_grid"),("parameters",X+": _compute_write_index")],["attributes and coordinates of the NetCDF files written by both commands"]),
]
for p in L: assert len(p["title"])<=80,(p["id"],len(p["title"]))
open("/verif/properties.jsonl","w").write("".join(json.dumps(p)+"\n" for p in L))
