IN = ["inputs"]
prop("D01", "Mean direction, resultant length and moments are the weighted vector sum",
 """The mean direction, mean resultant length and the trigonometric moments (any order, centred or not, mean given or computed) are the direction,
 length and components of the weighted average of the unit vectors of the sample, and the length always lies in [0, 1].
 When the resultant vanishes the mean direction is reported as undefined (NaN), never as an arbitrary angle.
 The bin-width correction multiplies the length by (d/2)/sin(d/2).""",
 IN, "every sample (ungrouped, or angles with frequencies, integer or not, zeros included), moment order, centring option and bin size",
 "the tests check the book value of a few named data sets; the cancellations, zero weights, coincident and antipodal points that break vector sums are not in them",
 [D, B], [("circ_mean_and_r / circ_moment / convert_moment", D)])
prop("D02", "Descriptive summaries are equivariant under rotation and reflection",
 """Rotating every angle of a sample by the same amount rotates its mean, median, confidence limits and other directions by that amount and leaves lengths, dispersions,
 concentrations, skewness, kurtosis, ranges and deviations unchanged.
 Reflecting the sample reflects the directions (swapping lower and upper limits), negates the skewness and leaves every other measure unchanged.""",
 IN, "every sample and every rotation or reflection, in particular those that carry part of the sample across 0/2pi",
 "the tests use one recorded orientation of each data set, so a summary that depends on where zero lies passes them",
 [D], [("all circ_* summaries", D)])
prop("D03", "A sample is a multiset of directions: order, full turns and counts",
 """Reordering the observations or adding whole turns to any of them changes no descriptive summary.
 Giving an angle a frequency k is the same as repeating it k times, and giving it frequency 0 is the same as leaving it out.""",
 IN, "every sample, permutation, number of turns and vector of frequencies",
 "the tests pass angles in [0, 2pi) in file order and never compare frequencies with repetition",
 [D], [("weights handling in circ_*", D)])
prop("D04", "Variance, standard deviation, dispersion, skewness and kurtosis are as defined",
 """Circular variance is 1-r, angular variance 2(1-r), the two standard deviations sqrt(2(1-r)) and sqrt(-2 ln r), dispersion (1-rho2)/(2 r^2), and skewness and kurtosis
 Fisher's standardised second sine and cosine moments about the mean direction, all computed from the same weighted sample.
 The bin-width correction enters through the corrected resultant length only.""",
 IN, "every non-degenerate sample with or without frequencies and bin correction",
 "the tests compare three data sets with printed values of three digits", [D], [("circ_var, angular_std, circ_std, circ_dispersion, circ_skewness, circ_kurtosis", D)])
prop("D05", "The circular median minimises mean circular deviation and is well averaged",
 """Without averaging, the circular median of raw data is the set of observations of the requested kind that minimise the mean circular deviation (or bisect the sample), and every minimiser is reported.
 With averaging it is the circular mean of those candidates.
 For grouped data it is the interpolated median of the bin that splits the frequencies, whatever the orientation, and large samples processed in pieces give the same answer.""",
 IN, "every sample, with ties, antipodal points, clusters straddling zero, grouped data of every frequency vector, and samples beyond the internal chunk size",
 "the tests check one answer per method on three data sets; tie handling, wrap-around and the chunked path are not reached",
 [D], [("circ_median, _circ_median_grouped, compute_mean_deviation", D)])
prop("D06", "Angular distances and mean deviation measure the shorter arc",
 """Pairwise distances between angles are symmetric, lie in [0, pi], vanish exactly for equal directions, obey the triangle inequality and ignore whole turns; signed differences lie in (-pi, pi].
 The mean circular deviation of a sample about any direction is the average shorter arc, and the processing in pieces returns the same number for every piece size.""",
 IN, "every pair of angle vectors, metric option and chunk size", "the tests call the distance on small positive angles only",
 [D], [("circ_dist, circ_pairdist, circ_mean_deviation(_chuncked)", D)])
prop("D07", "Concentration estimates invert the mean resultant length",
 """The estimated concentration is a non-decreasing function of the resultant length, unbounded as the length tends to 1, that follows the published piecewise approximation and small-sample correction, never negative or NaN;
 A1 is the Bessel ratio in [0,1) and A1inv its inverse within the accuracy of the approximation.
 Every Circular object reports exactly that concentration for its own r and n.""",
 IN, "every resultant length in [0,1] and sample size", "the tests check two values of r", [D, U, B], [("circ_kappa", D), ("A1, A1inv", U), ("compute_smooth_params", D)])
prop("D08", "Confidence intervals of the mean contain the mean and follow their formula",
 """The interval for the mean direction is symmetric about the mean with the half-width of the named method (approximate or dispersion), wider for a higher confidence level, and its limits are angles in [0, 2pi).
 The bootstrap interval is the highest-density interval of the resampled means of exactly the observations given (frequencies included), reproducible and rotating with the data.""",
 ["inputs", "histories"], "every sample, level, method and sequence of random resamples",
 "the tests check one interval per method; resampling outcomes cannot be enumerated by seeding", [D], [("circ_mean_ci, _circ_mean_ci_bootstrap", D)],
 technique="explicit-state exploration; the resampling choices are enumerated through a stub of the random source")
prop("D09", "The median interval is the order-statistic interval around the median",
 """For a sample of n<16 the limits are the order statistics prescribed by the published table counted along the circle from the median, for larger samples by the normal approximation;
 they are observations of the sample, bracket the median and rotate with the data even when the sample straddles zero.
 The reported confidence is that of the rank used.""",
 IN, "every sample of up to 40 observations, orientation and level", "the tests check one orientation of two data sets", [D], [("circ_median_ci", D)])
prop("D10", "Range, quantiles, HDI and kernel density are those of the circle",
 """The circular range is the complement of the largest gap, quantiles are read in order along the circle, and the highest-density interval is the shortest arc holding the requested share of the sample; all are independent of the origin.
 The kernel density estimate is non-negative, integrates to one, is periodic and rotates with the data.""",
 IN, "every sample, probability, bandwidth and orientation", "the tests check single values on one data set", [D], [("circ_range, circ_quantile, compute_hdi, nonparametric_density_estimation", D)])
prop("U01", "Angle arithmetic is exact arithmetic modulo a full cycle",
 """Converting data in any unit or cycle to radians and back is the identity modulo the cycle, wrapping returns the representative in [0, 2pi) (or the requested base), rotation adds modulo the cycle,
 and range membership accepts exactly the angles on the stated arc.
 Time strings convert to the decimal hours they denote, and significance marks follow the stated thresholds.""",
 IN, "every angle (huge, negative, boundary), unit, cycle, arc and time of day", "the tests check a handful of conversions", [U], [("data2rad, rad2data, angmod, angrotate, is_within_circular_range, time2float", U)])
prop("U02", "Every shipped data set loads with exactly the values of its file",
 """Loading any data set of any shipped source returns every row and column of its file with the same numbers, repeated loads are independent of each other, and an unknown name is refused with an error.""",
 ["inputs", "histories"], "every shipped data set, both return forms, and any sequence of loads with mutation of earlier results",
 "the tests load a few of the data sets and never compare with the file", [U], [("load_data", U)])
prop("O01", "The Circular object agrees with the functional API",
 """Every statistic an analysis object exposes or prints equals the value the corresponding function returns for the object's own angles, frequencies, bin size and options.
 The automatic choices (confidence method by sample size, skipping intervals when the mean or median is undefined) follow the documented rules.""",
 ["inputs", "configurations"], "every sample (raw, grouped or binned), unit and combination of options", "the tests build a few objects and inspect one or two attributes", [B, D], [("Circular.__init__, Circular.summary", B)])
prop("O02", "The unit and cycle of the data, and binning, do not change the analysis",
 """Recording the same directions in degrees, hours, radians or any custom cycle gives the same dimensionless statistics and the same directions in radians, and directions reported in data units convert back consistently.
 Binning keeps every observation, in the bin that contains it.""",
 ["inputs", "configurations"], "every sample, unit, cycle length and number of bins", "the tests use one unit per data set", [B, U], [("Circular.__init__ (data2rad, np.histogram)", B)])
prop("O03", "Axial data are doubled, analysed and halved back",
 """An axial analysis gives the same result whichever end of each axis was recorded, reports the mean and median axis (and their limits) as half those of the doubled angles, in [0, pi], and the dimensionless statistics of the doubled sample.""",
 ["inputs", "configurations"], "every sample of axes, choice of ends, unit and rotation", "one test checks the mean of one data set", [B], [("Axial.__init__", B)])
prop("O04", "Using an analysis object never changes it, its inputs or later answers",
 """Printing, summarising, plotting, bootstrapping, testing or correlating an analysis object leaves its statistics and the caller's arrays and option dictionaries untouched.
 Every such operation gives the same answer however many operations preceded it, and building another object from the same containers gives the same object.""",
 ["histories", "inputs"], "every sequence of operations on every kind of object", "tests use each object once; aliasing and option dictionaries consumed by a first use need a history", [B, V], [("Circular.__init__, summary, plot", B), ("circ_plot", V)],
 technique="exhaustive exploration of operation sequences on the real objects")
prop("V01", "A plot shows the object's own statistics and depends only on its configuration",
 """A plot shows every observation (repeats stacked), a rose whose sector areas are proportional to the counts, the requested density, and the mean and median with their intervals drawn from lower to upper limit, and omits what the configuration disables.
 Plotting returns the Axes, and changes neither the object's statistics, nor the caller's configuration, nor the library defaults, so each plot is independent of the plots before it.""",
 ["histories", "configurations"], "every object and every sequence of plots with any configuration", "tests only check that a plot can be made and one merge of options", [V, B], [("_merge_dicts, circ_plot", V), ("Circular.plot", B)],
 technique="exhaustive exploration of plot histories, artists compared with a model of the figure")
prop("H01", "Every test returns a valid statistic and a p-value in [0, 1]",
 """Every hypothesis test answers every admissible sample with a finite, correctly signed statistic and a p-value in [0, 1]: it never returns NaN or a negative statistic for tied, coincident, antipodal, evenly spread, very large or very concentrated samples.
 It either answers or refuses the input with a ValueError, and the number of stars agrees with the p-value.""",
 IN, "every test in the library and every sample, size and concentration", "degenerate, tied and very large samples make the approximations leave [0, 1] or divide by zero; the tests use textbook data", [H], [("all *_test functions", H)])
prop("H02", "One-sample tests depend on the sample only, not on order, origin or orientation",
 """The statistic and p-value of every one-sample test are unchanged by permuting the observations, adding full turns to any of them, and (when the hypothesised direction moves along) rotating or reflecting the sample.
 The one-sample test rejects exactly when the hypothesised direction lies outside the confidence interval of the mean.""",
 IN, "every sample and every permutation, full turn, rotation and reflection", "the tests give each function one sorted sample in [0, 2pi)", [H], [("rayleigh_test ... circ_range_test", H)])
prop("H03", "Multi-sample tests do not depend on group order, labels, origin or orientation",
 """The statistic and p-value of every two- or multi-sample test are unchanged by exchanging the groups, permuting observations within a group, adding full turns and rotating or reflecting all samples together.""",
 IN, "every collection of samples and every such rearrangement", "the tests give each function one collection in one order; ties across groups and angles crossing zero are absent", [H], [("watson_williams_test ... angular_randomisation_test", H)])
prop("H04", "A grouped sample and the same observations listed one by one give the same test",
 """Wherever a test accepts frequencies, a sample given as angles with frequencies has the same statistic and p-value as the expanded list of observations; passing an analysis object is the same as passing its angles (and frequencies).""",
 IN + ["configurations"], "every test that accepts weights and every sample with integer frequencies", "the tests use either grouped or ungrouped data for a test, never both forms of the same sample", [H], [("w= arguments and Circular inputs of the tests", H)])
prop("H05", "One-sample statistics and p-values are those of the published definitions",
 """Rayleigh, V, omnibus (Hodges-Ajne), Batschelet, binomial, symmetry, one-sample mean, chi-square, Kuiper, Watson, Rao-spacing and range tests report the statistic and p-value of their published definitions for every sample:
 exact combinatorial probabilities where the definition is exact (binomial, Hodges-Ajne, range), the stated approximation otherwise, and the documented default parameters.""",
 IN, "every sample, weights, hypothesised direction and option", "tests check the one or two book examples of each test; the counts at ties and on half-circle boundaries and the choice of branch need exhaustive small samples", [H], [("one-sample *_test functions", H)])
prop("H06", "Multi-sample statistics and p-values are those of the published definitions",
 """Watson-Williams, Watson U2, Wheeler-Watson, Wallraff, common-median, equal-kappa, concentration and Rao homogeneity tests report the statistic and p-value of their published definitions on every collection of samples, ties within and across groups included.""",
 IN, "every collection of groups with any sizes and ties", "tests check the book example of each test", [H], [("multi-sample *_test functions", H)])
prop("H09", "The change-point test finds the split that separates the directions best",
 """The change-point test reports, for every ordered sequence, the extreme and average of the published statistics over all admissible split positions and the position (zero-based index of the last observation before the change) at which each is attained; rotation and reflection leave them unchanged.""",
 IN, "every ordered sequence of angles", "the test checks one data set", [H], [("change_point_test", H)])
prop("H07", "Randomisation p-values count the null samples at least as extreme",
 """The p-value of every randomised test is (1 + k)/(B + 1), where k is the number of the B generated null samples (uniform samples of the same size, or permutations of the pooled sample) whose statistic is at least as large as the observed one, ties included.
 The same seed, in any accepted form, gives the same answer whatever was computed before, and a test given a seed never touches the global random state.""",
 ["inputs", "histories", "configurations"], "every sample and every stream the generator can produce", "the tests run one seed on one sample; the exact p-value can only be known by enumerating the generator", [H], [("rayleigh_test(B=...), kuiper_test, watson_test, rao_spacing_test, angular_randomisation_test", H)],
 technique="exhaustive exploration with an enumerating random generator in place of the real one")
prop("H08", "Calling a test has no side effects and its result is an immutable record",
 """Every test gives the same answer quiet or verbose, first or after any sequence of other tests on the same containers, on read-only and non-contiguous arrays; it never changes the containers it is given, prints only when asked, and returns an immutable record consistent with its asdict() and significance().""",
 ["histories", "inputs"], "every test, container and sequence of calls", "each test function is called once on fresh arrays in the tests", [H], [("all *_test functions, TestResult", H)],
 technique="exhaustive exploration of call sequences on the real code")
prop("H10", "Two-way circular analysis is the Harrison-Kanji table of the design",
 """For every complete two-factor design the Harrison-Kanji test returns the published sums of squares, degrees of freedom, F or chi-square statistics and p-values, in the large- and small-concentration branches, with and without interaction.
 Exchanging the factors exchanges their rows; relabelling levels (numbers or strings), permuting observations, rotating, reflecting or adding full turns changes nothing.""",
 IN + ["configurations"], "every complete two-factor design", "the test compares one random design against a copy of the same code", [H], [("harrison_kanji_test", H)])
REF = "exhaustive within the stated bounds on the real code; trusts the documented density formulas as transcribed in mc/dist.py, their Gauss quadrature, and the parameter lattice"
prop("P01", "Densities are the documented formulas: non-negative, periodic, normalised",
 """Every distribution's density equals its documented formula at every angle and admissible parameter vector, edges of the domain and internal switch-over points included: finite, non-negative, periodic under full turns, of total mass one over a turn, and the log-density is its logarithm.""",
 IN, "every family, admissible parameter vector and angle", "tests evaluate a few interior parameter vectors; normalising constants and series fail at boundaries, at large concentrations and at branch points between approximations",
 [X], [("_pdf / _logpdf of the 14 families", X)], note=REF)
prop("P02", "Distribution functions are the integral of the density from zero",
 """For every distribution cdf(x) is the integral of the documented density from 0 to x for x in one turn, rises from 0 to 1, and sf, logcdf and logsf are the corresponding transforms of it; location, skewness and every other parameter take part in every branch.""",
 IN, "every family, admissible parameter vector and angle", "tests compare a handful of points away from the cut, the antimode and the approximation thresholds", [X], [("_cdf of the 14 families", X)], note=REF)
prop("P03", "Quantile functions invert the distribution functions",
 """For every distribution and every probability q, ppf(q) lies in [0, 2pi], has cumulative probability q, is non-decreasing in q with ppf(0)=0 and ppf(1)=2pi, and isf(q) is ppf(1-q).""",
 IN, "every family, parameter vector and probability, extreme tails included", "tests round-trip a few mid-range probabilities", [X], [("_ppf of the 14 families", X)], note=REF)
prop("P04", "Nested families agree on common members; location only turns a law",
 """Where two families, or two parameter vectors, denote the same law (special cases, limits, documented symmetries) density, distribution function, quantiles, moments, mean, variance and entropy agree.
 Moving the location of a located family by d turns its density and moments by d and changes no shape summary; stable laws are continuous in alpha.""",
 IN, "every pair of equivalent parametrisations and every location", "tests check two or three special cases at one location", [X], [("all families", X)], note=REF)
prop("P05", "Array arguments work elementwise or are refused; argument forms agree",
 """Evaluating any of pdf, logpdf, cdf, logcdf, sf, logsf, ppf, isf on an array gives, element by element and in the same shape, the value for the single point; array-valued parameters are either broadcast element by element or refused with an error, never silently reduced to one element.
 Positional and keyword parameters in any order and mixture give the same values.""",
 IN + ["configurations"], "every function, shape, subset of array-valued parameters and split of the arguments", "tests pass scalars or one vector of angles with scalar parameters", [X], [("CircularContinuous argument handling; _pdf/_cdf/_ppf of the families", X)], note=REF)
prop("P06", "Random variates have the requested shape, range and reproducibility",
 """For every distribution rvs returns variates in [0, 2pi] with the requested size, terminates for all admissible parameters, gives the same variates for the same seed in every accepted form and whatever was computed before, advances a shared generator, and never draws from the global random state when given a seed.""",
 ["inputs", "histories"], "every family, admissible parameter vector, size, seed and call history", "tests draw once with one seed and moderate parameters", [X], [("rvs / _rvs of the 14 families", X)],
 technique="exhaustive exploration of call sequences and configurations on the real code")
prop("P07", "Random variates follow the law they are drawn from",
 """Driven by an ideal source of uniform (and normal, integer, ...) draws, the variates of every distribution have exactly the distribution function of the law, for both locations and all shapes; in particular rejection, mixture and inversion steps use the right acceptance probabilities and branches.""",
 IN, "every sampler, parameter vector and point of the elementary draws' sample space", "a fixed-seed Kolmogorov-Smirnov test cannot see errors of a few per cent and checks one parameter vector", [X], [("_rvs of the 14 families", X)],
 technique="exhaustive exploration with an enumerating random generator in place of the real one")
prop("P08", "Evaluation history of a distribution object never shows",
 """The value of any function of a distribution depends only on its arguments: not on which functions or parameters were evaluated before on the same object, on fits, or on whether the object was pickled or copied; caches of normalising constants, tables and series are invisible.""",
 ["histories"], "every sequence of evaluations on one object", "tests call functions on module-level objects in one fixed order", [X], [("normalisation, table and series caches", X)],
 technique="exhaustive exploration of call sequences on the real code")
prop("P10", "A frozen distribution answers like its parent with those parameters",
 """Freezing parameters, positionally, by keyword or both, by calling the distribution or freeze(), gives an object whose every method returns what the distribution returns for these parameters, and interleaving calls on several frozen objects and their parent changes no answer.""",
 ["configurations", "histories"], "every method, form of freezing and interleaving of calls", "tests freeze one vector and call one or two methods", [X], [("CircularContinuousFrozen", X)],
 technique="exhaustive exploration of call sequences and configurations on the real code")
prop("P11", "Moments and summary statistics are those of the density",
 """trig_moment(p) is the p-th trigonometric moment of the documented density for every integer p, and mean, median, r, var, std, dispersion, skewness, kurtosis and stats() are the circular summaries defined from these moments (undefined or infinite only where the law has no direction).""",
 IN, "every family and parameter vector", "tests check means and variances of a few symmetric cases", [X], [("CircularContinuous.trig_moment, mean, median, var, std, dispersion, skewness, kurtosis, stats", X)], note=REF)
prop("P12", "Entropy, expectations, intervals and support are integrals of the density",
 """For every distribution the entropy, the expectation of any function over the circle or a range (conditional or not), the equal-tail interval of any confidence, the support [0, 2pi] and the negative log-likelihood are those of the documented density.""",
 IN, "every family, parameter vector, integrand, range and confidence", "tests hardly call these methods", [X], [("entropy, expect, interval, support, nnlf", X)], note=REF)
prop("P13", "Fits do not depend on origin, orientation, order or grouping of the data",
 """Rotating the data (across 0/2pi too) rotates the fitted location and leaves the shapes and the likelihood unchanged; reflecting it reflects the estimate; permuting, adding full turns, listing repeated observations instead of integer weights, adding observations of weight zero, or giving unit weights changes nothing. Neither does the container of the data or the spelling of the method; unknown methods, empty data and unusable weights are refused.""",
 IN, "every family, method, data set and rearrangement", "tests fit one simulated sample and check the estimate is near the truth", [X], [("fit of the 13 parametric families", X)])
prop("P14", "Fits are admissible, report their own likelihood and are not improvable",
 """Every fit returns admissible estimates (within the stated bounds); the reported log-likelihood is that of the documented density at the estimates; a maximum likelihood estimate is not beaten by any nearby parameter vector, by the method-of-moments start or by the generating parameters; moment estimates reproduce the sample moments they are defined from.""",
 IN, "every family, method and data set", "tests accept any estimate near the truth of one simulated sample, so a search stuck at its start or a wrong likelihood passes", [X], [("fit of the 13 parametric families", X)])
prop("P15", "Inadmissible arguments never produce a number",
 """Parameters outside the documented domain (or NaN) give NaN or an error from every function, never a plausible number or variate; so do NaN angles and probabilities outside [0, 1].
 loc and scale cannot be changed, missing and conflicting arguments are errors.""",
 ["inputs", "configurations"], "every function and every inadmissible argument", "tests check a few error messages", [X], [("_argcheck of the families; argument wrappers of CircularContinuous", X)])
prop("P16", "Kato-Jones parametrisations are equivalent and feasible exactly when f >= 0",
 """A Kato-Jones parameter vector is accepted exactly when its documented density is nowhere negative; converting (rho, lambda) to the second moment (alpha2, beta2) and back is the identity, agrees with the law's second trigonometric moment, and verification refuses exactly the infeasible points.
 Moment estimates have the sample's mean direction and resultant and the feasible second moment closest to the sample's.""",
 IN, "every parameter vector and every sample", "tests convert one or two interior points", [X], [("katojones_gen._argcheck, convert_rho_lambda, convert_alpha2_beta2, _fit_moments", X)])
MIX = "exhaustive within the stated bounds on the real code; trusts the component densities as transcribed in mc/dist.py and the scripted initial labelling (a stand-in generator that returns the enumerated labels for the first draw)"
prop("C01", "A fitted mixture reports one coherent model",
 """After fitting, a circular mixture model (von Mises, Kato-Jones or any supported component family) has weights that sum to one and admissible parameters; compute_gamma, predict_proba and predict are the posterior probabilities and their argmax under exactly these parameters, predict_density the mixture density over the whole cycle, nLL and bic the mixture likelihood of the data and its penalised form, in radians whatever the unit.
 Invalid arguments and unfitted models are refused.""",
 IN + ["configurations"], "every sample (coincident, antipodal, single points included), number of clusters, start and unit", "tests fit one easy two-cluster sample and check that the clusters are found", [C], [("MovM, MoCD, MoKJ", C)], note=MIX)
prop("C02", "Every iteration of a mixture fit is one EM step; stopping follows the rule",
 """Each iteration replaces the weights by the mean posterior and every component's parameters by their weighted estimate under the posteriors of the previous model (never a mixture of old and new values); for von Mises mixtures the likelihood never drops by more than the approximation of the concentration accounts for.
 The fit stops at the first iteration after the burn-in whose change in likelihood is below the threshold, or at n_iters, and converged, converged_iters and nLL describe exactly that run.""",
 ["inputs", "histories"], "every sample, start, iteration number, threshold and burn-in", "tests look at the final estimate of one sample, which a wrong step that still moves towards the clusters reaches", [C], [("MovM.fit, MoCD.fit, MoKJ.fit", C)],
 technique="exhaustive exploration of the EM iterations as a transition system on the real code, against a reference step", note=MIX)
prop("C03", "A clustering model depends only on its last data and start",
 """Fitting again, predicting, scoring, printing or failing in between leaves no trace: a refitted model equals a fresh one on the same data, queries change nothing, the caller's arrays are unchanged, and equal seeds give equal models.""",
 ["histories"], "every sequence of fits and queries on one object", "tests fit each object once", [C], [("MovM, MoCD, MoKJ, CircKMeans, CircHAC", C)],
 technique="exhaustive exploration of call sequences on the real code")
prop("C04", "Clusterings move with the data",
 """Rotating (across the cut too), reflecting, adding full turns, reordering the data, renaming the starting clusters or changing the unit moves centres, labels, posteriors and merge trees accordingly and changes no weight, shape, likelihood, inertia or merge distance.""",
 IN, "every sample, start, metric and sequence of transformations", "tests cluster well-separated groups far from the cut", [C], [("MovM, MoCD, CircKMeans, CircHAC", C)],
 technique="exhaustive exploration of transformation sequences on the real code")
prop("C05", "Circular k-means performs Lloyd's steps and reports a consistent partition",
 """From any starting centres each iteration assigns every angle to a nearest centre in the chosen metric and moves every centre to the mean direction of its members; inertia never rises and the fit stops at a fixed point or at max_iter.
 Labels, centres and inertia describe one partition; predict assigns new angles to the nearest final centre; fewer points than clusters, empty clusters and clusters without a mean direction give a valid model.""",
 ["inputs", "histories"], "every sample, start, metric, unit and iteration number", "tests cluster three separated groups", [C], [("CircKMeans", C)],
 technique="exhaustive exploration of Lloyd iterations as a transition system on the real code")
prop("C06", "Hierarchical clustering merges closest pairs and reports that tree",
 """Every merge of CircHAC joins a pair of current clusters whose centres are closest in the chosen metric, the recorded distance, size and ids are those of the merge, and labels and centres are the partition after the recorded merges with the requested number of clusters.
 The silhouette is the mean of (b-a)/max(a,b) over the observations, and the dendrogram draws the recorded tree.""",
 IN + ["configurations"], "every sample, number of clusters, metric and k-means pre-clustering", "tests cluster two obvious groups and check label counts", [C], [("CircHAC", C)])
prop("K01", "Circular-circular correlation follows its definition and its invariances",
 """The Fisher-Lee, Jammalamadaka-SenGupta and rank-based coefficients equal their definitions, lie in [-1, 1], are +-1 for perfect association in either orientation and come with the published test.
 Rotating either variable, adding full turns, reordering pairs or exchanging the variables changes nothing, reflecting one variable changes the sign; Circular objects and arrays agree; mismatched or degenerate input is refused, and strict mode refuses samples without a significant mean.""",
 IN, "every paired sample", "tests compare one book example per method", [K], [("circ_corrcc", K)])
prop("K02", "Circular-linear correlation is the multiple correlation on cosine and sine",
 """The coefficient is the multiple correlation of the linear variable with (cos, sin) of the angle, within [0, 1], with test statistic n times its square and its chi-square p-value; it does not depend on origin, orientation or turns of the angles, nor on shift, scale or sign of the linear variable, nor on the order of the pairs.
 Degenerate or mismatched input is refused.""",
 IN, "every paired sample", "tests compare one book example", [K], [("circ_corrcl", K)])
prop("R01", "Circular-linear regression reports a consistent stationary fit",
 """mu, kappa, log_likelihood, standard errors, AIC, BIC and predictions are those of the reported coefficients beta, alpha, gamma, also when max_iter stops the fit; max_iter=1 reports the starting values.
 A converged fit is a stationary point of the von Mises likelihood, reached without losing likelihood in the models with varying concentration; divergence is an error, never NaN.
 Rotating or reflecting the response, full turns, reordering observations or predictors, and rescaling predictors change the estimates accordingly and nothing else.""",
 ["inputs", "histories"], "every response, design, model type, start and iteration number", "tests fit one recorded data set per model type with loose tolerances", [R], [("CLRegression", R)])
prop("R02", "Circular-circular regression is the least-squares harmonic fit",
 """Coefficients are a least-squares fit of cos and sin of the response on the harmonics of all predictors up to the order, also when harmonics coincide on the observed directions; fitted directions, residuals, rho and labels are those of the coefficients; the higher-order p-values are the published chi-square tests with as many degrees of freedom as the next harmonics add, and the message follows them at the level.
 Results do not depend on origins, orientations, turns, order of observations or predictors; exact curves are recovered exactly.""",
 IN, "every response, set of predictor directions, order and level", "tests fit one recorded data set at one order", [R], [("CCRegression", R)])
prop("R03", "Regression accepts any form of input and prints what it reports",
 """Arrays, lists, frames, memory layouts and formulas (in any spacing and predictor order) give the same fit, repeatably, without changing the inputs; every number, row and significance mark printed by summary() is the one in the result; malformed input (missing values, mismatched or empty data, bad orders, levels, starts, columns) is refused.""",
 IN + ["configurations"], "every form of input and every reported table", "tests call summary() without reading it", [R], [("CLRegression, CCRegression: _parse_formula, _prepare_design, summary, AIC, BIC, predict", R)])
