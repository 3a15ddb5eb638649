"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=["chainladder/" + f for f in files],
            mechanism=[dict(name=n, where="chainladder/" + w) for n, w in mech],
            state=[dict(name=n, meaning=m, where="chainladder/" + w) for n, m, w in state],
            observe_at=observe, hook_needed=None)))

CORE = "core/triangle.py"
p("C01", "Building a triangle conserves every claim record",
  "Constructing a triangle from a table of records places each record in exactly the cell addressed by its index labels, origin period, valuation (development) period and column, so every cell equals the sum of its records, cells without records are missing, no record is lost or counted twice, and column totals are preserved. The axes are complete (no gap in origin or development periods between the extremes), the grain and valuation date follow from the dates, and the input table is left unchanged.",
  ["inputs"], "every table of records: any record order, duplicates, missing periods, any number of index and value columns, yearly to monthly dates given as dates, integers, strings or split year/month fields",
  "The tests load fixed sample files; sparse tables with gaps, shuffled or duplicated rows and other date encodings are never compared with a record-level sum.",
  [CORE, "core/base.py"], [("record aggregation and date axis inference", "core/base.py:_aggregate_data/_get_grain/_get_date_axes"), ("triangle construction", "core/triangle.py:Triangle.__init__")],
  [("values", "4D array indexed by index, column, origin, development", "core/triangle.py")], ["Triangle(...) construction", "cell reads by label", "origin/development/valuation_date attributes"])

p("C02", "Cumulative and incremental views are exact inverses",
  "Converting a cumulative triangle to incremental gives the period-to-period differences of each origin, converting an incremental triangle to cumulative gives the running sums, and either conversion followed by the other restores every observed cell. Cells after the valuation date stay missing, other attributes (labels, valuation date) are kept, converting an already converted triangle changes nothing, and requesting the conversion in place has the same effect on the object itself; for patterns the analogous conversion between age-to-age and age-to-ultimate factors is the product to the right.",
  ["inputs", "histories"], "all triangles (any grain, index/column count, missing or zero cells, negative movements, either backend, development or valuation view) and all sequences of conversions",
  "Tests check a few round trips on dense sample data; interior gaps, negative increments, single-period triangles and repeated/in-place conversions are not enumerated.",
  [CORE], [("incr_to_cum / cum_to_incr", "core/triangle.py:Triangle.incr_to_cum, Triangle.cum_to_incr")],
  [("is_cumulative", "whether cells are running totals", "core/triangle.py")], ["incr_to_cum", "cum_to_incr", "cdf_"])

p("C03", "Development and valuation views hold the same amounts",
  "Re-expressing a triangle from development age to calendar valuation, or back, keeps each amount attached to the same origin and the same evaluation date, neither losing, duplicating nor moving any cell, and converting there and back restores the original triangle. In the valuation view a fully developed (rectangular) cumulative origin carries its last amount forward. Ultimate (beyond-horizon) amounts stay ultimate.",
  ["inputs", "configurations"], "all triangles of every origin/development grain combination, including ones with interior gaps, partial latest periods, ultimates or missing corners, in either storage backend",
  "The view change is index arithmetic on sparse coordinates that depends on grain, partial periods and emptiness; tests cover only a few sample shapes.",
  [CORE, "core/base.py"], [("dev_to_val / val_to_dev", "core/triangle.py:Triangle._val_dev")], [("ddims", "ages in months or valuation dates", "core/triangle.py")], ["dev_to_val", "val_to_dev", "valuation"])

p("C04", "Changing the grain equals re-aggregating the records",
  "Converting a triangle to a coarser origin and/or development grain gives the same cells as aggregating the underlying records directly at that grain, for cumulative and incremental triangles and in both the development and valuation views. The valuation date and latest-diagonal totals are unchanged by the conversion.",
  ["inputs", "configurations"], "all triangles and all admissible grain conversions (monthly, quarterly, semi-annual, yearly), including partial latest years, trailing year ends and origins that start mid-year",
  "Tests check a handful of conversions on one or two datasets; partial periods, late first origins and incremental triangles change which cells are picked.",
  [CORE], [("grain conversion", "core/triangle.py:Triangle.grain")], [("origin_grain, development_grain", "period lengths", "core/triangle.py")], ["grain", "latest_diagonal"])

p("C05", "Label, position and boolean selection pick exactly the addressed cells",
  "Selecting from a triangle by position, by label, by column name, by index filter or by an origin, development or valuation condition returns exactly the requested cells with their own labels, in the requested order, and never a cell that was not asked for. Assigning through a selection changes exactly the addressed cells of that triangle and nothing else.",
  ["inputs", "programs"], "all triangles and all selections: integers, negative positions, slices with any step, lists, labels, label slices, boolean masks, combinations over the four axes, in both backends",
  "Slices are rewritten into contiguous steps and composed over four axes; tests exercise isolated examples of each form.",
  ["core/slice.py"], [("iloc/loc/at/iat", "core/slice.py:_LocBase"), ("boolean and column selection", "core/slice.py:TriangleSlicer.__getitem__/__setitem__")], [("kdims, vdims, odims, ddims", "axis labels", "core/triangle.py")], ["iloc", "loc", "at", "iat", "[]"])

p("C06", "As-of filtering and the latest diagonal follow valuation dates",
  "Restricting a triangle to valuations up to a date yields precisely the triangle that the records known at that date would give, and its valuation date moves accordingly. The latest diagonal holds, for each origin, the amount at the valuation date and nothing evaluated at any other date; link ratios use only pairs of cells that are both observed.",
  ["inputs", "histories"], "all triangles, all cut-off dates (nested and repeated), all grains, views and backends",
  "Tests take one or two cut-offs on regular annual samples; off-grid cut-offs, chained cut-offs and triangles with missing latest cells are untested.",
  ["core/slice.py", CORE, "core/base.py"], [("valuation slicing", "core/slice.py:TriangleSlicer._slice_valuation"), ("latest diagonal, link ratio", "core/triangle.py:Triangle.latest_diagonal, Triangle.link_ratio")], [("valuation_date", "as-of date", "core/triangle.py")], ["X[X.valuation <= d]", "latest_diagonal", "link_ratio"])

p("C07", "Arithmetic aligns triangles by their labels",
  "Adding, subtracting, multiplying or dividing triangles combines cells that carry the same index, column, origin and development labels, whatever order the labels are stored in, and broadcasts only axes of length one or index levels that one operand lacks. Missing cells count as zero in sums and differences and stay missing in products and quotients; scalar operands apply to every cell, cells after the valuation date are not invented, and the operands are not modified.",
  ["inputs", "programs"], "all pairs of compatible triangles: permuted, nested or disjoint label sets, different origin or development ranges, extra index levels, either backend, nested expressions",
  "Alignment code has many branches (permute, union, group, broadcast) chosen by data; tests cover a few combinations and mostly identically labelled triangles.",
  ["core/dunders.py"], [("label alignment", "core/dunders.py:TriangleDunders._prep_index/_prep_columns/_prep_origin_development"), ("operators", "core/dunders.py")], [("kdims, vdims, odims, ddims", "axis labels used for matching", "core/triangle.py")], ["+ - * / ** and comparisons between triangles"])

p("C08", "Sums and group-bys partition the triangle",
  "Aggregating a triangle along an axis combines every observed cell of that axis exactly once, and grouping by any labels or function of labels assigns each member to exactly one group so that groups add back to the grand total. Sum, mean, median, min, max, product, variance, standard deviation, quantile and cumulative sum match their definition over the observed cells, with group labels and cells corresponding.",
  ["inputs"], "all triangles, axes, groupings (single or multiple index levels, columns, origin or development periods, callables) and aggregation functions, in both backends where supported",
  "Tests compare sums on sample data; other statistics with missing cells, unsorted group labels and multi-level groupings are not compared cell by cell.",
  ["core/pandas.py"], [("axis aggregation", "core/pandas.py:add_triangle_agg_func"), ("grouping", "core/pandas.py:TriangleGroupBy, add_groupby_agg_func")], [("kdims, vdims", "labels of groups", "core/triangle.py")], ["sum/mean/.../quantile", "groupby(...).agg"])

p("C09", "Results do not depend on the storage backend",
  "Every triangle operation gives the same labelled cells and the same metadata whether amounts are held densely or sparsely, and converting between the two representations changes no cell. Fitted methods return the same numbers for either representation.",
  ["programs", "configurations"], "all sequences of triangle operations and estimator fits executed under each backend and with automatic conversion on or off",
  "Most tests run on tiny triangles that are converted to dense automatically, so sparse code paths and mixed-backend programs are rarely executed.",
  ["utils/sparse.py", "core/common.py", "core/base.py"], [("backend conversion", "core/common.py:Common.set_backend"), ("sparse numeric functions", "utils/sparse.py")], [("array_backend", "current representation", "core/triangle.py")], ["public triangle operations on numpy and sparse twins"])

p("C10", "Triangles survive export and re-import",
  "Writing a triangle to a table, to its text serialisation or to a pickle file and reading it back gives a triangle with the same cells, labels, grain, valuation date, cumulative and pattern status and view. The exported table lists every observed cell once with its correct origin, development or valuation and value.",
  ["inputs", "configurations"], "all triangles: grains, views, backends, multi-level indices, several columns, ultimates, patterns, and triangles carrying fitted attributes",
  "Tests round-trip a few samples; valuation views, patterns, semi-annual grains, sparse storage and fitted triangles are mostly untested.",
  ["core/pandas.py", "core/io.py", "utils/utility_functions.py"], [("to_frame", "core/pandas.py:TrianglePandas.to_frame"), ("to_json/read_json/to_pickle/read_pickle", "core/io.py, utils/utility_functions.py")], [], ["to_frame", "to_json + read_json", "to_pickle + read_pickle"])

p("C11", "Operations never modify their inputs",
  "No operation, unless explicitly asked to work in place, changes the triangle, estimator settings, list, table or weights given to it, and a copy or result can be modified afterwards without altering the object it came from. An operation asked to work in place makes the object equal to what the out-of-place version returns.",
  ["histories", "programs"], "all sequences of public operations and estimator fits/predictions over shared triangles, followed by writes into results and copies",
  "Aliasing shows only in multi-step histories where the original is inspected after later operations; tests discard the inputs.",
  [CORE, "core/common.py", "core/slice.py", "methods/base.py"], [("copy semantics", "core/triangle.py:Triangle.copy"), ("estimator fit/transform copies", "development/base.py, methods/base.py")], [("values, kdims, ldf_ ...", "shared arrays and sub-triangles", "core/triangle.py")], ["deep snapshots of inputs before and after each public call"])

p("C12", "Concatenation keeps every labelled cell",
  "Joining triangles along any axis yields a triangle in which each input cell appears at its own labels exactly once and every other cell is missing, independent of the order of labels inside the inputs. Appending is joining along the index.",
  ["inputs"], "all sequences of triangles whose labels are identical, permuted, partially overlapping or disjoint on the other axes, for all four axes and both backends",
  "Tests join a couple of identically labelled triangles.",
  ["utils/utility_functions.py", "core/pandas.py"], [("concat", "utils/utility_functions.py:concat"), ("append", "core/pandas.py:TrianglePandas.append")], [], ["cl.concat", "Triangle.append"])

p("C13", "Development factors are the weighted averages of the selected links",
  "Each fitted development factor equals the chosen average (volume-weighted, simple or regression) of exactly those observed link ratios that the settings keep: the stated number of latest diagonals, minus dropped cells, dropped valuations, ranked high/low exclusions and above/below thresholds, with the preserve rule respected. Factors for different ages may use different settings, missing ratios are filled only when requested, cumulative factors are products of the remaining factors, and grouped fits use the group totals.",
  ["inputs", "configurations"], "all triangles and all combinations of averaging, period, drop, preserve, fill and grouping settings, per age or global, per index and column",
  "The settings multiply into far more combinations than the tests, which compare a few against R output on one triangle.",
  ["development/development.py", "development/base.py", "utils/weighted_regression.py"], [("link weights and drops", "development/base.py:DevelopmentBase._set_weight_func, _drop_adjustment"), ("weighted regression", "utils/weighted_regression.py")], [("w_", "inclusion weights", "development/development.py")], ["Development.fit: ldf_, cdf_, w_; transform: link_ratio"])

p("C14", "Development variability follows the weighted residuals",
  "The fitted sigma of each age is the weighted residual standard deviation of its selected links with n-1 degrees of freedom and the standard error of the factor follows from it, under each averaging rule; where only one link is available the requested extrapolation (log-linear or Mack) supplies the value. Sigma and standard error use the same selection of links as the factor.",
  ["inputs", "configurations"], "all triangles, averages, selection settings and sigma interpolation choices",
  "Tests compare sigma and standard errors on a few regular triangles without exclusions.",
  ["development/development.py", "development/base.py", "utils/weighted_regression.py"], [("sigma and std error", "utils/weighted_regression.py:WeightedRegression"), ("interpolation of the last sigma", "utils/weighted_regression.py")], [("sigma_, std_err_", "variability of factors", "development/development.py")], ["Development.fit: sigma_, std_err_"])

p("C15", "Ultimate, IBNR and completed triangles agree with each other",
  "For every reserving method, IBNR equals ultimate minus the latest diagonal for every origin, the completed triangle reproduces every observed cell, runs monotonically through its emergence pattern and ends at the ultimate, and the expected triangle equals ultimate divided by the cumulative factors. The chain-ladder ultimate is the latest diagonal times the cumulative factor at that age.",
  ["inputs", "configurations"], "all triangles (cumulative or incremental input), development and tail settings and reserving methods",
  "Tests compare totals for a few samples; identities between the outputs over arbitrary patterns, grains and partial triangles are not asserted.",
  ["methods/base.py", "methods/chainladder.py", "core/common.py"], [("ultimate selection by age", "methods/base.py:MethodBase._align_cdf, methods/chainladder.py"), ("completed triangle", "core/common.py:_get_full_triangle, _get_full_expectation")], [("ultimate_", "estimated ultimates", "methods/base.py")], ["ultimate_", "ibnr_", "full_triangle_", "full_expectation_"])

p("C16", "Mack standard errors follow Mack's recursion",
  "Process risk, parameter risk and total standard error by origin and in total obey Mack's recursion computed from the fitted factors, sigmas, standard errors and the completed triangle, process and parameter components combine in quadrature, and the summary shows the matching latest, IBNR, ultimate and error for each origin. Reported errors are zero or missing for fully developed origins and never negative.",
  ["inputs", "configurations"], "all triangles, averaging methods, sigma interpolations and tails accepted by the method",
  "Tests compare a few published triangles against R output.",
  ["methods/mack.py"], [("risk recursion", "methods/mack.py:MackChainladder")], [("full_std_err_, process_risk_, parameter_risk_", "variance components", "methods/mack.py")], ["MackChainladder.fit outputs"])

p("C17", "Expected-loss, Bornhuetter-Ferguson and Benktander share one recursion",
  "The expected-loss ultimate is apriori times exposure, and each Benktander iteration replaces the ultimate by latest plus unreported share times the previous ultimate, so zero iterations give expected loss, one gives Bornhuetter-Ferguson and many converge to chain ladder when every factor exceeds one. Exposure is matched to origin, index and column by label, and apriori randomness is reproducible for a fixed seed.",
  ["inputs", "configurations"], "all triangles, patterns, exposure vectors (single or multiple index/columns), aprioris and iteration counts",
  "Tests check one or two iteration counts on sample data.",
  ["methods/benktander.py", "methods/bornferg.py", "methods/expectedloss.py"], [("iteration", "methods/benktander.py:Benktander._get_benktander_aprioris/_get_ultimate")], [("expectation_", "apriori times exposure", "methods/base.py")], ["ultimate_, expectation_, ibnr_ of the three estimators"])

p("C18", "Cape Cod expected losses are the exposure-weighted trended averages",
  "The Cape Cod apriori of each origin is the decayed, used-up-exposure-weighted average of trended and on-levelled ultimates, the detrended apriori removes that origin's own trend and level, and the ultimate adds unreported exposure times the detrended apriori to the latest amount. With decay one and no trend all origins share one apriori; with decay zero each keeps its own chain-ladder ratio.",
  ["inputs", "configurations"], "all triangles, exposures, decay, trend, iteration, grouping and upstream trend/on-level settings",
  "Tests compare totals for a couple of settings on one dataset.",
  ["methods/capecod.py"], [("apriori and trend matrices", "methods/capecod.py:CapeCod._get_capecod_aprioris/_get_trended_aprioris")], [("apriori_, detrended_apriori_", "loss ratios", "methods/capecod.py")], ["CapeCod.fit: apriori_, detrended_apriori_, ultimate_"])

p("C19", "Tail factors are extrapolated, attached and multiplied consistently",
  "A tail estimator leaves the factors before its attachment age untouched and extends the pattern so that the cumulative factor at every earlier age is the product of the age-to-age factors times the tail. A constant tail applies the given value with its decay, a fitted curve tail equals the extrapolation of the curve regressed on the qualifying factors, and a Bondy tail follows the generalised Bondy decay; variability attached to the tail is positive and extends the fitted sigma and standard error.",
  ["inputs", "configurations"], "all patterns, grains and tail settings (type, attachment age, decay, projection and fit periods, thresholds)",
  "Tests compare few settings on one triangle, mostly at annual grain.",
  ["tails/base.py", "tails/constant.py", "tails/curve.py", "tails/bondy.py"], [("pattern extension", "tails/base.py:TailBase"), ("curve fit", "tails/curve.py:TailCurve"), ("Bondy", "tails/bondy.py")], [("tail_, ldf_, sigma_, std_err_", "extended pattern", "tails/base.py")], ["tail_, ldf_, cdf_, sigma_, std_err_ after fit"])

p("C20", "Each segment is estimated independently of the others",
  "Fitting a triangle with several index members or columns gives every segment the same result as fitting that segment alone, regardless of which other segments are present and in what order, unless grouping was requested. This holds for development, tail, adjustment and reserving estimators whose method treats segments separately.",
  ["inputs"], "all multi-segment triangles, all segment orders and subsets, all per-segment estimators",
  "Tests fit multi-segment triangles only for a few estimators and compare totals, so cross-talk between segments can pass.",
  ["development/base.py", "methods/base.py", "tails/base.py", "utils/weighted_regression.py"], [("vectorised regression over segments", "utils/weighted_regression.py"), ("per-segment pattern handling", "development/*.py, tails/*.py, methods/*.py")], [], ["fit on all segments versus fit on each segment"])

p("C21", "Predictions apply the fitted pattern to the new triangle",
  "Predicting with a fitted method on another triangle uses the fitted pattern at that triangle's own ages, so predicting on the training triangle reproduces the fit and predicting on a later, earlier, subset or aggregated triangle gives that triangle's latest amounts developed with the trained factors. Prediction never refits or alters the fitted estimator, and development transformers applied to a new triangle carry over their fitted pattern unchanged.",
  ["inputs", "histories"], "all fitted pipelines and all compatible new triangles: shorter, later diagonals, other index members, coarser index, different number of origins",
  "Tests predict on the training data or one earlier cut-off.",
  ["methods/base.py", "development/base.py", "methods/benktander.py"], [("pattern alignment by age", "methods/base.py:MethodBase._align_cdf"), ("predict", "methods/*.py")], [("ldf_", "fitted pattern carried to the new triangle", "methods/base.py")], ["fit(X).predict(Y), fit(X).transform(Y)"])

p("C22", "Bootstrap simulations are reproducible, unbiased in structure and complete",
  "With a fixed seed the bootstrap returns identical simulations in every run, process and memory state; without changing its input it returns the requested number of simulated triangles, each with observed cells exactly where the source has them and no future cell. Scaled residuals, degrees of freedom and scale follow from the fitted chain-ladder expectation and the requested exclusions.",
  ["inputs", "configurations", "histories"], "all triangles, seeds, simulation counts, process distributions, drop settings and heap contents",
  "Tests fix a seed and compare averages within one process; non-determinism across processes and uninitialised memory is invisible to them.",
  ["adjustments/bootstrap.py"], [("resampling", "adjustments/bootstrap.py:BootstrapODPSample")], [("hat_, resampled_triangles_, scale_", "bootstrap state", "adjustments/bootstrap.py")], ["fit outputs; same run repeated in perturbed subprocesses"])

p("C23", "Berquist-Sherman adjustments restate history at latest adequacy",
  "The adjusted triangles keep the latest diagonal of paid, incurred, reported and closed amounts, restate earlier case reserves from the latest average case reserve detrended by the given trend, and restate earlier closed counts at the latest disposal rates with payments interpolated accordingly. Nothing else in the triangle changes.",
  ["inputs", "configurations"], "all triangles with incurred, paid, reported and closed columns, and all trend settings",
  "Tests check one published example.",
  ["adjustments/berqsherm.py"], [("case adequacy and settlement rate adjustment", "adjustments/berqsherm.py:BerquistSherman")], [("adjusted_triangle_, disposal_rate_, a_, b_", "restated history", "adjustments/berqsherm.py")], ["BerquistSherman.fit / transform outputs"])

p("C24", "On-level factors equal current level over average earned level",
  "Parallelogram on-level factors equal the current cumulative rate level divided by the average level earned in each origin period under the policy term, in both the vertical-line and the parallelogram (continuous earning) case. Rate changes outside the experience window or of zero size leave the factors unchanged, the order of rate-change rows does not matter, and periods after all changes are earned have factor one.",
  ["inputs", "configurations"], "all rate histories (dates, sizes, order, per-index histories), policy lengths, origin grains and year ends",
  "Tests check one rate history; the earned level is an integral whose value depends on dates, leap years and policy length.",
  ["adjustments/parallelogram.py", "utils/utility_functions.py"], [("earned level computation", "utils/utility_functions.py:parallelogram_olf"), ("on-levelling", "adjustments/parallelogram.py:ParallelogramOLF")], [("olf_", "on-level factors", "adjustments/parallelogram.py")], ["ParallelogramOLF.fit/transform, parallelogram_olf"])

p("C25", "Trending scales cells by compound trend over the stated period",
  "Trending multiplies each cell by one plus the rate raised to the years between the cell's origin or valuation and the start date, limited to the stated interval, and successive trends over adjoining intervals compound. Detrending with the reciprocal rate restores the triangle and zero trend is the identity.",
  ["inputs", "configurations"], "all triangles, rates, axes, start and end dates, multi-period trend lists and ultimate lags",
  "Tests check one or two trends on one axis.",
  [CORE, "adjustments/trend.py"], [("Triangle.trend", "core/triangle.py"), ("Trend estimator", "adjustments/trend.py:Trend, TrendConstant")], [("trend_", "trend factors", "adjustments/trend.py")], ["Triangle.trend, Trend.fit/transform"])

p("C26", "Pipelines, grid searches and votings equal their parts run by hand",
  "A pipeline gives the same result as applying its steps one after another, a grid search reports for each parameter combination exactly the score obtained by fitting that combination alone, and a voting method returns the weighted average of its members' ultimates with weights matched to origin and index. None of them changes the settings of estimators the user supplied, and grid searches and votings leave those estimators unfitted (a pipeline fits its steps in place, as in scikit-learn).",
  ["programs", "configurations"], "all pipelines of transformers and methods, parameter grids, and weight specifications (none, list, array, dictionary, function)",
  "Tests run one grid and one voting setup.",
  ["workflow/gridsearch.py", "workflow/voting.py"], [("Pipeline/GridSearch", "workflow/gridsearch.py"), ("VotingChainladder", "workflow/voting.py")], [("estimators_, weights_, results_", "fitted members", "workflow/*.py")], ["Pipeline/GridSearch/VotingChainladder fit, predict, results_"])

p("C27", "Estimates scale with money and do not depend on calendar position",
  "Multiplying all monetary amounts (and exposures) by a positive constant multiplies ultimates, IBNR and standard errors by that constant and leaves factors unchanged; moving all dates by whole years leaves every estimate unchanged. Estimates also do not depend on the order in which records are supplied.",
  ["inputs"], "all triangles, estimators, positive scale constants and whole-year shifts",
  "Metamorphic relations between two runs are not asserted by example tests; absolute tolerances, thresholds or date arithmetic can break them silently.",
  ["development/base.py", "methods/base.py", "tails/base.py", "core/base.py"], [("factor estimation", "utils/weighted_regression.py"), ("date axes", "core/base.py")], [], ["fit on original versus transformed triangles"])

p("C28", "Munich adjustment couples paid and incurred with the stated correlation",
  "Munich chain-ladder factors equal the basic factor plus the correlation parameter times sigma ratio times the deviation of the paid-to-incurred ratio from its expected value, with ratios, variances and correlations as defined by Quarg and Mack. Ultimates for paid and incurred come from running those individual factors from the latest diagonal.",
  ["inputs", "configurations"], "all triangles with a paid and an incurred column, both sigma interpolations, several index members",
  "Tests check one published triangle.",
  ["development/munich.py"], [("Munich correlation and factors", "development/munich.py:MunichAdjustment")], [("lambda_, rho_, q_, munich_full_triangle_", "correlation state", "development/munich.py")], ["MunichAdjustment.fit: lambda_, rho_, q_, ldf_; Chainladder ultimates"])

p("C29", "GLM-based development reproduces its regression on the triangle",
  "The over-dispersed Poisson GLM with origin and development effects gives the volume-weighted chain-ladder ultimates, and every regression-based development method returns the factors implied by its own fitted predictions, which are those of that regression for every observed and future cell. Design terms, response, weights and lagged responses refer to the right cell of every segment, and a future lagged response is the earlier prediction of the same basis (incremental or cumulative).",
  ["inputs", "configurations"], "all triangles with positive column and row sums, design formulas, link/power settings",
  "Tests check equality on one or two triangles.",
  ["development/glm.py", "development/learning.py", "development/barnzehn.py"], [("GLM development", "development/glm.py:TweedieGLM, development/learning.py:DevelopmentML"), ("Barnett-Zehnwirth", "development/barnzehn.py")], [("triangle_ml_, coef_, ldf_", "fitted regression", "development/learning.py")], ["fit outputs versus closed-form chain ladder and an independent regression"])

p("C30", "Exposure-based and case-based developments follow their definitions",
  "The incremental additive method's ratios are the selected weighted averages of trended incremental amounts over exposure and its future increments are those ratios times exposure and trend; the case outstanding method's paid-to-prior-case and case-to-prior-case ratios are the averages of the observed ratios and its completed amounts run the latest case reserve through them. Known cells are never altered.",
  ["inputs", "configurations"], "all triangles, exposures, trends, averages, period and drop settings",
  "Tests check one example for each method.",
  ["development/incremental.py", "development/outstanding.py"], [("incremental additive", "development/incremental.py:IncrementalAdditive"), ("case outstanding", "development/outstanding.py:CaseOutstanding")], [("zeta_, incremental_, paid_to_prior_case_", "fitted ratios", "development/*.py")], ["fit outputs"])

p("C31", "Clark growth curves maximise their likelihood and define the factors",
  "The growth curves fitted by Clark's method give cumulative development equal to the reciprocal of the fitted growth at the average age of each period, their parameters are at least as likely as nearby parameters, and Cape Cod expected losses match the fitted expected loss ratio. The tail version extends the pattern by the same curve without altering earlier selections.",
  ["inputs", "configurations"], "all positive triangles, both curve families, with and without exposure, several segments and grains",
  "Tests check parameter values for one dataset; optimality and the factor identity on other data are untested.",
  ["development/clark.py", "tails/clark.py"], [("growth curve optimisation", "development/clark.py:ClarkLDF"), ("tail", "tails/clark.py:TailClark")], [("omega_, theta_, elr_, G_", "curve parameters", "development/clark.py")], ["ClarkLDF.fit: ldf_, G_, omega_, theta_, elr_, scale_"])

p("C32", "Fitting again depends only on the last data and settings",
  "Refitting an estimator, after any earlier fits, predictions or setting changes, gives the same results as a fresh estimator with the same settings fitted on the same data. Using one estimator or triangle never affects the results of another.",
  ["histories"], "all histories of fit, transform, predict and set_params calls on shared estimators and triangles",
  "Tests fit each estimator once; stale fitted state survives only in longer histories.",
  ["development/base.py", "methods/base.py", "tails/base.py", "workflow/voting.py"], [("fitted attributes", "development/*.py, methods/*.py, tails/*.py, adjustments/*.py, workflow/*.py")], [("attributes ending in underscore", "fitted state", "all estimators")], ["refit histories versus fresh estimators"])

p("C33", "Mack's independence tests follow their published statistics",
  "The development correlation test returns the weighted Spearman rank correlation statistic of successive link ratios with its stated expectation, variance and critical range, and the calendar-year test returns counts of small and large factors per diagonal with the stated expectation, variance and critical values. Links equal to the median are left out and the accept/reject answer follows from comparing statistic and range.",
  ["inputs", "configurations"], "all triangles with enough links, all critical levels, per-year and total variants, several segments",
  "Tests check two published triangles.",
  ["core/correlation.py"], [("DevelopmentCorrelation, ValuationCorrelation", "core/correlation.py")], [("t, t_expectation, t_variance, z, z_expectation, z_variance", "test statistics", "core/correlation.py")], ["development_correlation(), valuation_correlation()"])

p("C34", "Estimators and pipelines persist faithfully",
  "An estimator or pipeline restored from its text serialisation has the same type, settings and step order and yields the same results when fitted, and one restored from a pickle file, fitted or not, behaves identically including its fitted results and predictions. Cloning an estimator keeps its settings and none of its fitted state.",
  ["inputs", "configurations"], "all estimators and pipelines with non-default settings including nested estimators, lists and dictionaries",
  "Tests round-trip a couple of default-configured estimators.",
  ["core/io.py", "utils/utility_functions.py", "workflow/gridsearch.py"], [("EstimatorIO", "core/io.py"), ("read_json/read_pickle", "utils/utility_functions.py")], [], ["to_json/read_json, to_pickle/read_pickle, clone"])

p("C35", "Computed columns always reflect the current data",
  "A column defined as a function of other columns equals that function of the current triangle after every later slicing, aggregation, arithmetic, grain or view change, and after changes to its source columns; a slice without those keeps the amounts. Definitions belong to one triangle: adding, replacing or removing one on a copy or slice leaves other triangles alone.",
  ["histories", "programs"], "all triangles with computed columns and all sequences of operations on them",
  "Tests define one computed column and read it once or twice.",
  ["core/slice.py", "core/triangle.py"], [("virtual columns", "core/slice.py:VirtualColumns, TriangleSlicer.__setitem__")], [("virtual_columns", "column definitions", "core/slice.py")], ["reads of a computed column after random operation sequences"])

p("C36", "Internally parallel operations are deterministic and race-free",
  "Operations that the library splits over worker threads or processes give the same labelled result as the sequential computation under every scheduling of the workers, and several threads reading or computing from one shared triangle get the results a single thread would. No interleaving loses, repeats or mixes up pieces.",
  ["schedules"], "all interleavings of the worker threads used for sparse group-bys, arithmetic, accumulation and of concurrent readers of one triangle; all worker counts",
  "Tests run each operation once under one schedule and rarely reach the threaded paths.",
  ["core/dunders.py", "core/pandas.py", "core/triangle.py", "development/base.py"], [("threaded group-by, arithmetic and accumulation", "core/pandas.py, core/dunders.py, core/triangle.py"), ("parallel grid/regression workers", "workflow/gridsearch.py")], [], ["recorded piece order and results under perturbed thread schedules"])

p("C37", "Model diagnostics restate the fitted results",
  "The diagnostics produced for a fitted method report, for every index member, column and origin, exactly the latest amount, ultimate, IBNR, movements in the valuation month, quarter and year and expected emergence of the following periods implied by the fitted triangle, and leave the fitted model unchanged. Summarised by an index level they are the totals of the members of each group.",
  ["inputs", "configurations"], "all fitted reserving methods and triangles, with and without grouping",
  "Tests call the function once and check little of its content.",
  ["utils/utility_functions.py"], [("model_diagnostics", "utils/utility_functions.py:model_diagnostics")], [], ["model_diagnostics(model)"])

p("C38", "User-supplied patterns are applied exactly as given",
  "A pattern supplied by the user, as link ratios or cumulative factors, for all segments or per segment through a function, becomes the fitted pattern value by value at the stated ages. Any following tail or reserving method uses exactly those factors, with cumulative factors the running products and ultimates the latest amounts times the supplied cumulative factor.",
  ["inputs", "configurations"], "all triangles, all supplied patterns (dictionary or per-segment callable, link or cumulative style), all grains",
  "Tests check one dictionary on one triangle.",
  ["development/constant.py"], [("DevelopmentConstant", "development/constant.py")], [("ldf_", "supplied pattern", "development/constant.py")], ["DevelopmentConstant.fit/transform and following methods"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
