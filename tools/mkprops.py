"""Writes /verif/properties.jsonl (one place for the texts; run by hand after an edit)."""
import json, os
P = []
TTS='quantfinlib/train_test_split/'
IND='quantfinlib/feature/indicators/'
MS='quantfinlib/feature/micro_structure/'
def p(id, title, st, over, q, why, files, mech, **kw):
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], **kw)))

p('C01','K-fold test folds partition the samples along group boundaries',
  'Whenever the time-aware K-fold splitter completes, its test folds are non-empty contiguous runs of sample positions, in time order, that together contain every sample exactly once, and no group of equal labels is shared between two folds. The number of splits it yields is the number it announces: the number of folds, or one less in look-forward mode, where the earliest fold is never tested. Group labels count by sample position, whatever container carries them.',
  ['inputs','configurations'],'every number of samples, number of folds, ascending group labels (integers or timestamps, with ties and gaps), embargo and purge, in both modes',
  'Tests run a few hundred random group vectors of 100 integer labels; a boundary rule that fails only for certain tie runs at a fold border, sample counts not divisible by the fold count, or Series containers is not reached.',
  [TTS+'kfoldpe.py',TTS+'_base.py'],[('equal split of positions, borders moved to group ends','TimeAwareKFold.split, _modify_fold_bounds'),('announced count','TimeAwareKFold.get_n_splits')])
p('C02','K-fold training sets are exactly the samples purge and embargo allow',
  'In every split of the time-aware K-fold splitter the training set consists exactly of the samples outside the test fold whose group label is neither within the purge distance after the last test group nor within the embargo distance before the first test group; in look-forward mode it additionally contains no sample later than the start of the test fold. Training and test positions are disjoint, each sorted and without repeats, and no training set is empty: a configuration that leaves none is rejected with an error.',
  ['inputs','configurations'],'every sample count, fold count, embargo, purge, ascending group labels and mode for which a split is produced',
  'Tests assert a handful of distances on sampled integer groups; off-by-one errors at the purge or embargo edge, or removal on the wrong side, need labels with particular gaps.',
  [TTS+'kfoldpe.py',TTS+'_base.py'],[('removal of labels after / before the test fold','_purge, _embargo'),('complement, look-forward restriction','_get_train_index_per_split')])
p('C03','Walk-forward training data always precedes its test data by the embargo',
  'In every split of the walk-forward splitter, every training sample belongs to a strictly earlier group than every test sample, and no training sample lies within the embargo distance before the first test group. No other sample of the training window is dropped, and neither set is empty.',
  ['inputs','configurations'],'every ascending group vector (integers or timestamps, with ties and gaps), train window, test window >= 1, embargo >= 0, expanding or rolling',
  'Tests only use gapless labels; on gapped labels (business days) the original code leaked the first test group into training.',
  [TTS+'walk_forward.py',TTS+'_base.py'],[('window bounds from sorted group search','WalkForward.split'),('embargo removal','_embargo')])
p('C04','Walk-forward test windows tile the data after the first training window',
  'The test windows of the walk-forward splitter follow each other without overlap or gap, start with the first group after the initial training window, end with the last group, and each spans at most the configured test window and is as long as the groups allow. Every training window ends with the last group before its test window; it starts with the first group when expanding, and covers exactly the labels of the configured train window up to its end when rolling. After each complete iteration the reported number of splits is the number of splits just produced, however often the splitter was used before.',
  ['inputs','configurations','histories'],'every ascending group vector, window sizes >= 1, mode, and every sequence of uses of one splitter object',
  'Tests check loose bounds (written with min - max, so always true) on gapless labels and one repeated use.',
  [TTS+'walk_forward.py'],[('window advance','WalkForward.split loop'),('split counter','WalkForward.n_splits')])
p('C05','No look-ahead: indicator values depend only on present and past data',
  'For every technical indicator, band and micro-structure feature, the value at a time t is unchanged by any change of the input series after t. This includes whether the value is missing.',
  ['inputs','configurations'],'every pair of input series that agree up to t, every t, every window or span',
  'Tests compare a few full series with stored values; a centred window, backfill or full-sample normalisation that leaves those values intact is not seen.',
  [IND+'_base.py',IND+'_bands.py',IND+'_macd.py',IND+'_rsi.py',MS+'_price_sequences.py',MS+'_strategic_trade_models.py',MS+'_sequential_trade_models.py'],
  [('trailing rolling / exponentially weighted windows, lagged differences','all public functions of feature.indicators and feature.micro_structure')])
p('C06','Indicators keep container, length and index, and never modify their inputs',
  'Every indicator and micro-structure feature returns an array for array inputs and a series on the same index for series inputs, of the same length, with equal values for equal data in either container, and leaves every input unchanged. Inputs that mix arrays and series, or are neither, are rejected.',
  ['inputs','configurations'],'every input length and values, every index, both containers, positional or keyword arguments',
  'Tests call a few functions with one container each.',
  [IND+'_base.py',IND+'_bands.py',MS+'_price_sequences.py',MS+'_strategic_trade_models.py',MS+'_sequential_trade_models.py'],[('container dispatch decorator','numpy_io_support')])
p('C07','Moving averages, extremes, momentum, MACD and ATR equal their definitions',
  'At every time with a full window, rolling mean, sample standard deviation, maximum, minimum and momentum equal the textbook function of exactly the last window values, and are missing before that. Exponentially weighted mean and deviation use weights decaying with the decay factor of the given span; MACD is the fast minus the slow average, its signal form subtracts the average of that line, and the average true range is the decaying average (factor 1/window) of the largest of high-low, |high-previous close| and |low-previous close|.',
  ['inputs','configurations'],'every series, every window, span and period, every time index',
  'Tests check stored values on one short series and default windows.',
  [IND+'_base.py',IND+'_macd.py'],[('pandas rolling/ewm calls and their parameters','rolling_*, ewm_*, macd, macd_signal, average_true_range')])
p('C08','RSI is the share of gains in [0, 100] and ignores units',
  'Both RSI forms equal 100 times the average gain divided by the sum of average gain and average loss over their window, hence lie in [0, 100] or are missing, are 100 when there is no loss and 0 when there is no gain, and are missing when the price did not move. Rescaling prices by a positive factor or shifting them by a constant changes nothing, and mirroring the price path turns v into 100 - v.',
  ['inputs','configurations'],'every price series, period and time index',
  'Tests check one stored series.',
  [IND+'_rsi.py'],[('gain/loss split and averages','rsi, ewm_rsi')])
p('C09','Bands are symmetric about their middle, ordered, and percent-b inverts them',
  'For every band type upper and lower lie at equal distance (multiplier times the band deviation) from the middle, lower <= middle <= upper for a non-negative multiplier, bandwidth is upper minus lower relative to the middle, and percent-b is the position of the price between lower (0) and upper (1). Bollinger bands use rolling mean and deviation, the exponential form the exponentially weighted ones, Keltner bands the exponential mean of the close and the average true range, and Donchian bands are exactly the rolling extremes and contain the price.',
  ['inputs','configurations'],'every price series, window, multiplier, time index and container',
  'Tests check stored values on one series.',
  [IND+'_bands.py',IND+'_base.py'],[('band algebra','GenericBands'),('choice of centre and width','BollingerBands, EwmBollingerBands, KeltnerBands, DonchianBands')])
p('C10','OHLC volatility estimators equal their published formulas and ignore units',
  'Close-close, high-low (Parkinson), Garman-Klass and Rogers-Satchell estimators equal, at every time with a full window, the average over exactly that window of their per-bar term (close-close: the sample variance of the price relatives), and Yang-Zhang combines overnight, open-close and Rogers-Satchell variances with its published window-dependent weight. On valid bars (positive prices, low <= open, close <= high) all except the Garman-Klass difference are non-negative, and multiplying all prices by a positive constant changes no estimate.',
  ['inputs','configurations'],'every valid bar series, window and time index',
  'Tests check stored numbers on one dataset or only shapes.',
  [MS+'_price_sequences.py'],[('per-bar terms and rolling averages','get_*_volatility')])
p('C11','Spread and range estimators equal their formulas, stay in range, ignore units',
  'The Corwin-Schultz spread, Becker-Parkinson volatility, Roll measure, Roll impact and EDGE spread equal their published formulas over the last window bars and are missing before the window is full. The Corwin-Schultz spread lies in [0, 2), the Becker-Parkinson volatility and the Roll measure are non-negative, and the EDGE spread is non-negative unless a signed estimate is asked for, whose magnitude is the unsigned estimate. Multiplying all prices by a positive constant leaves all of them but the impact measure unchanged.',
  ['inputs','configurations'],'every series of valid bars, window, time index and sign option',
  'The EDGE reference test needs the network; the others compare stored values or are only smoke tests (the original Corwin-Schultz sign error passed).',
  [MS+'_price_sequences.py'],[('beta, gamma, alpha, sigma terms','_get_beta, _get_gamma, _get_alpha, _get_sigma'),('EDGE estimator','_edge_spread, get_edge_spread'),('Roll','_roll_measure')])
p('C12','Trade-model features equal their definitions and stay in their ranges',
  'Kyle, Amihud and Hasbrouck lambdas equal the average over the last window bars of |price change| per volume, |return| per traded value, and |log return| per square root of traded value (Kyle and Hasbrouck: missing in windows with an unchanged price), and are never negative. The estimated buy volume is the volume times a probability that grows with the normalised price change, so it lies in [0, volume] and is half the volume when the price is unchanged. VPIN is the window average of |buy - sell| / volume and lies in [0, 1] whenever every buy volume is between zero and the volume.',
  ['inputs','configurations'],'every positive price and volume series, window and time index',
  'Tests check one stored series each.',
  [MS+'_strategic_trade_models.py',MS+'_sequential_trade_models.py'],[('ratios and rolling means','get_kyle_lambda, get_amihud_lambda, get_hasbrouck_lambda, get_vpin, estimate_buy_volume')])
p('C13','Correlation distances are bounded, symmetric, zero on the diagonal, monotone',
  'Each conversion of a correlation to a distance returns sqrt((1-c)/2), sqrt(1-|c|) or sqrt(1-c^2) with c clipped to [-1, 1], so values lie in [0, 1]; on matrices it is symmetric for symmetric input with an exactly zero diagonal, and leaves the input unchanged. Arrays that are not square, not symmetric (within the tolerance of numpy.allclose) or lack a unit diagonal, and unknown method names, are rejected; frames are converted cell by cell and keep their labels; a distance matrix computed from data is the conversion of the pairwise correlations in the column order of the data, in the container of the data.',
  ['inputs','configurations'],'every scalar, correlation matrix and data matrix of any size, every method',
  'Tests use a few 2x2 and 3x3 matrices and scalars.',
  ['quantfinlib/distance/correlation.py','quantfinlib/distance/distance_matrix.py'],[('clip, convert, clip, zero diagonal','_convert_correlation_to_distance, _conversion_function'),('dispatch','corr_to_dist, get_corr_distance_matrix')])
p('C14','Information distances combine the same entropies, symmetrically, in every cell',
  'Mutual information is H(x)+H(y)-H(x,y) (normalised by sqrt(H(x)H(y))) and variation of information is 2H(x,y)-H(x)-H(y) (normalised by H(x,y)), with marginal and joint entropies from histograms with the same bin count, so both are symmetric in x and y. The pairwise matrix holds at (i, j) and (j, i) the value for columns i and j, zero on the diagonal for variation of information and one for mutual information, labelled like the data. The default bin count depends on the sample size and, symmetrically, on the strength of the correlation, and is finite also for perfectly correlated or anti-correlated samples.',
  ['inputs','configurations'],'every pair of non-constant samples, bin count, normalisation flag, and every data matrix with any number of columns',
  'Tests check two or three fixed samples; the matrix loop is tested on three columns.',
  ['quantfinlib/distance/information.py','quantfinlib/distance/distance_matrix.py'],[('entropies','compute_entropies'),('pair loop','_get_info_distance_matrix'),('bin rule','_get_optimal_nb_bins, _get_nb_bins_from_xy')])
p('C15','Covariance / correlation conversions invert each other and stay in range',
  'Converting a covariance matrix to correlation and deviations returns deviations sqrt(max(variance, floor)) and correlations in [-1, 1] equal to cov_ij / (std_i std_j) clipped, symmetric for symmetric input; converting back reproduces the covariance wherever nothing was clipped or floored. Block correlation matrices have a unit diagonal, the block value inside each block and zero elsewhere, and no conversion changes its inputs.',
  ['inputs'],'every square matrix of any size, every list of blocks',
  'Tests use fixed small matrices.',
  ['quantfinlib/math/cov.py'],[('scaling by outer(std, std) and clipping','_cov_to_cor, _cor_to_cov'),('block layout','_cor_block_diagonal')])
p('C16','Eigenvalue denoising keeps signal and trace; Marchenko-Pastur support is exact',
  'Denoising keeps the leading k eigenvalues unchanged and replaces the rest by their average, so the sum is preserved, and leaves the array it was given unchanged; when k is not given it is the number of eigenvalues at or above the upper edge of the fitted noise distribution. The Marchenko-Pastur support is var(1 -/+ sqrt(assets/timesteps))^2, its density is non-negative, zero outside the open support and equal to the published density inside. Completing k < N eigenvalues fills the remainder so that all sum to N, and a matrix rebuilt from eigenpairs has a unit diagonal and entries in [-1, 1].',
  ['inputs','configurations'],'every eigenvalue vector, number of timesteps and assets, k and variance',
  'Tests use fixed random matrices.',
  ['quantfinlib/math/cov.py'],[('replacement of noise eigenvalues','_eigen_values_denoise'),('MP law','_marcenko_pastur_support, _marchenko_pastur_pdf'),('completion, rebuild','_eig_complete, _eig_to_cor')])
p('C17','Simulated paths start at x0 and follow the exact discretised dynamics',
  'Every simulated path has one row per step plus the start row, one column per variate and path, and starts exactly at the requested value. With the same standard-normal draws, correlated by the Cholesky factor of the correlation matrix, Brownian increments are drift dt + vol sqrt(dt) e, geometric Brownian log-returns are (drift - vol^2/2) dt + vol sqrt(dt) e, and Ornstein-Uhlenbeck steps are x e^(-k dt) + mean (1 - e^(-k dt)) + e sqrt(vol^2 (1 - e^(-2 k dt)) / (2k)), each variate with its own parameters on every path. Geometric paths stay positive.',
  ['inputs','configurations'],'every parameter set, x0, dt > 0, number of steps, paths and variates, and every noise realisation',
  'Tests check shapes and types of a few samples; several variates with several paths are never combined for the mean-reverting model (it crashed).',
  ['quantfinlib/sim/_base.py','quantfinlib/sim/_bm.py','quantfinlib/sim/_gbm.py','quantfinlib/sim/_ou.py'],[('noise fill','_fill_with_correlated_noise'),('recursions','_path_sample_np of each model'),('start row','SimBase.set_x0')])
p('C18','Equal seeds give equal results and no call disturbs the global random state',
  'Sampling paths twice with the same arguments and seed gives identical results whatever was drawn in between, different seeds start different noise streams, and neither sampling nor the gap statistic reads or changes the global random generator. The gap statistic is a deterministic function of its inputs and seed.',
  ['inputs','histories'],'every model, argument set and seed, every interleaving with other uses of random numbers',
  'Tests sample once, without a seed; reproducibility is never asserted.',
  ['quantfinlib/sim/_base.py','quantfinlib/sim/_bm.py','quantfinlib/sim/_gbm.py','quantfinlib/sim/_ou.py','quantfinlib/sim/_quasi_random.py','quantfinlib/clustering/metrics.py'],[('local generator from the seed','_fill_with_correlated_noise'),('local generators of reference samples','gap_statistic')])
p('C19','Fitting and likelihood use the same law that sampling simulates',
  'The negative log-likelihood of a path is minus the sum of the normal log-densities of its increments (log-returns for the geometric model, mean-reverting residuals for the Ornstein-Uhlenbeck model) under exactly the per-step mean, deviation and correlation used in simulation. Fitting solves for parameters whose simulated per-step mean, deviation (sample estimate) and mean-reversion regression reproduce those of the data, column by column; AIC is 2k + 2 nll and BIC k log n + 2 nll with k the number of free parameters.',
  ['inputs','configurations'],'every data path with any number of rows and columns, every dt > 0 and parameter set',
  'Tests only call nll, aic and bic and fit constant data.',
  ['quantfinlib/sim/_base.py','quantfinlib/sim/_bm.py','quantfinlib/sim/_gbm.py','quantfinlib/sim/_ou.py'],[('estimators','_fit_np'),('likelihood','_nll, SimNllMixin')])
p('C20','Simulation output carries the requested or fitted labels in the right container',
  'A sample is a plain array unless labels or columns were requested or the model was fitted on a labelled container; otherwise it is a series or frame whose columns are the given, fitted or default base names, repeated per path with the path number, whose dates start at the given start (else the start or end of the fit data, matching the chosen start value) and advance by the given or fitted frequency. Leaving out the start row removes exactly the first row, and starting from the first or last fitted value uses exactly that row and is refused on an unfitted model.',
  ['inputs','configurations','histories'],'every combination of fitted container, x0 form, label start, label frequency, column names, path count and start-row option',
  'Tests enumerate some combinations; several raised (unbound index, series without start row).',
  ['quantfinlib/sim/_base.py'],[('argument defaults','_preprocess_sim_path_args'),('labelling','_format_ans, _make_columns_names, _make_date_time_index')])
p('C21','Scoring and sampling leave a fitted model unchanged',
  'Computing a likelihood, AIC, BIC or sample changes neither the parameters of a model nor the record of its fit data (start and end values, dt, index, names, container), and none of them, nor fitting, modifies the data passed in. Fitting depends only on the data and dt of that call, not on earlier fits.',
  ['inputs','histories'],'every sequence of fit, nll, aic, bic and path sampling calls on one model',
  'Each test uses a fresh model for one call; after nll the original code sampled from the wrong start.',
  ['quantfinlib/sim/_base.py','quantfinlib/sim/_bm.py','quantfinlib/sim/_gbm.py','quantfinlib/sim/_ou.py'],[('preprocessing on a copy','SimNllMixin'),('record of the fit','SimBase._preprocess_fit_x_and_dt')])
p('C22','Time-series frequency detection follows calendar and spacing rules',
  'A frequency is reported only for objects with a datetime index of at least three entries, as the first match in the order year, quarter, month (end before start; at least two matching dates and at most two others), daily (at least two steps, all but at most two, of one day), business-daily (at least 90% of steps of one or three days), weekly (at least two steps, all but at most two, of seven days), else none. Every reportable frequency has a positive duration in years (one over 365, 252, 365/7, 12, 4, 1), and unknown frequencies have none.',
  ['inputs'],'every datetime index of any length, in every container; every frequency name',
  'Tests use regular date ranges with one or two perturbations.',
  ['quantfinlib/_datatypes/timeseries.py'],[('cascade of counts','time_series_freq'),('durations','time_series_freq_to_duration')])
p('C24','The chosen number of clusters optimises its criterion over 2..max',
  'With the silhouette criterion the chosen cluster count maximises mean over deviation of the silhouette samples among all counts from 2 to the maximum, the smallest on ties; with the gap criterion it is the smallest k from 2 whose gap is at least (strictly above) the next gap minus its deviation. The gap is the mean log within-cluster dispersion of the seeded reference matrices minus that of the data, dispersion being the sum of squared within-cluster distances over 4k, and its deviation is that of the reference logs.',
  ['inputs','configurations'],'every distance matrix, labelling, linkage, maximum and criterion',
  'Tests check two fixed data sets.',
  ['quantfinlib/clustering/hierarchical.py','quantfinlib/clustering/metrics.py'],[('criterion search','optimize_n_clusters'),('statistics','gap_statistic, silhouette_tstat')])
p('C25','CUSUM statistic is the largest standardised departure over all past starts',
  'For every time t >= 1 the CUSUM statistic is the maximum over all start points n < t of (log y_t - log y_n) / (sigma_t sqrt(t - n)), where sigma_t^2 is the mean of the squared log changes up to and including t, and the critical value is sqrt(4.6 + log(t - n*)) for the earliest maximising start n*; both are zero at t = 0. Neither depends on data after t nor on the unit of y, and the input is unchanged.',
  ['inputs'],'every positive series that moves before t, every t',
  'Tests check one short series.',
  ['quantfinlib/feature/structural_breaks/cusumtest.py'],[('loop over t','chu_stinchcombe_white_cusum_test')])
p('C26','Matrix divergences equal their definitions and need positive definiteness',
  'The log-det divergence of p from q is tr(p q^-1) - log det(p q^-1) - n and the von Neumann divergence is tr(p (log p - log q)) - tr p + tr q; both are zero for equal matrices and refuse matrices with a non-positive eigenvalue. Neither changes its inputs.',
  ['inputs'],'every pair of square matrices of any size',
  'Tests check two fixed pairs.',
  ['quantfinlib/distance/matrix_divergence.py'],[('trace and log-determinant terms','log_det_divergence, von_neuman_divergence'),('guard','_assert_positive_definite')])
p('C27','Logger configuration replaces earlier configurations completely',
  'After any history of configuration calls the library logger has exactly one stream handler, exactly one file handler (on the requested path) if and only if the last call asked for a file, and logger and handlers all have the verbosity of the last call.',
  ['histories'],'every sequence of configuration calls, starting from any set of handlers',
  'Tests configure once or twice.',
  ['quantfinlib/util/_logging.py'],[('remove all handlers, add new ones','configure_logger')])
p('C28','Validation rejects exactly the malformed arguments and passes all others through',
  'A function that validates one- or two-dimensional arguments raises for every checked argument that is not a series or array (frame or array), has the wrong number of dimensions, or is too short, whether given by position or by keyword, and otherwise calls through with the arguments unchanged and returns the result unchanged. Splitters reject negative or non-numeric embargo and purge, fewer than two folds, unknown modes, unsorted groups, and settings that leave no training samples.',
  ['inputs','configurations'],'every argument value, shape and calling form',
  'Tests check a handful of bad values.',
  ['quantfinlib/util/_validate.py',TTS+'_base.py',TTS+'kfoldpe.py',TTS+'walk_forward.py'],[('decorators','validate_series_or_1Darray, validate_frame_or_2Darray'),('constructor and split checks','BaseCV, TimeAwareKFold, WalkForward')])
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
