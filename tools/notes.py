BASE = ('Assumes: floats are exact reals, the contracts of numpy/pandas/scipy primitives listed in the evidence file (cross-checked by running the same contracts '
        'on the imported library), the engine in vc/, z3, cvc5. An obligation the solvers leave undecided on a changed tree is only evaluated concretely and listed under undecided.')
NOTES = {
 'C05': ('proof', 'Two symbolic runs of each feature on series agreeing up to t; every series length, window and t.'),
 'C06': ('proof', 'Container, length, index, equality across containers and frame conditions for every feature, every length.'),
 'C07': ('proof', 'Each moving average, extreme, momentum, MACD, ATR equals its definition at every time for every window.'),
 'C08': ('proof', 'Both RSI forms: formula, range, boundary cases, scale and shift invariance, missing-value rule.'),
 'C09': ('proof', 'Every band function: symmetry, order, bandwidth, percent-b; container handling.'),
 'C10': ('proof', 'Every estimator equals its formula over exactly the window and is scale invariant.'),
 'C11': ('proof', 'Proved for Corwin-Schultz, Becker-Parkinson, Roll measure, Roll impact and the range part of EDGE; the EDGE formula is only evaluated on random inputs (bounded).'),
 'C12': ('proof', 'Kyle, Amihud, Hasbrouck lambdas, buy volume and VPIN equal their definitions and stay in range, every length and window.'),
 'C13': ('proof', 'Every distance: value, range, symmetry, exact zero diagonal, rejection of bad matrices, labels and cells, any size.'),
 'C14': ('proof', 'Mutual information and variation of information in terms of uninterpreted histogram entropies, symmetry, default bins, every cell of the pairwise matrix for any number of columns.'),
 'C25': ('proof', 'CUSUM statistic, earliest maximiser, critical value, independence of later data and of the unit, every length.'),

 'C15': ('proof', 'Every conversion, floor, clip, block matrix and frame condition, any matrix size.'),
 'C16': ('proof', 'Support, density, denoising, completion and matrix rebuilding for any number of eigenvalues; the eigensolver and the fit of the noise variance are opaque dependencies.'),
 'C17': ('proof', 'Noise layout and the dynamics of the three models by induction over the steps, any number of steps, paths and variates.'),
 'C18': ('proof', 'Streams drawn from the global and from seeded generators are tracked symbolically; equal calls give equal symbolic results.'),
 'C19': ('proof', 'Likelihood, AIC, BIC, fitted parameters and parameter counts for the three models, any number of rows and columns; least squares, Cholesky factor and multivariate density are opaque functions of their whole argument.'),
 'C20': ('proof', 'Containers, names, dates and values of samples for every number of steps; limited to Brownian motion, at most two variates and two paths.'),
 'C21': ('proof', 'State of a model before and after every query, frame conditions on the data, and equality with a fresh fit, any number of rows (labels: at most two columns).'),
 'C22': ('proof', 'Inferred duration, years and annualised change against calendar spacing, every number of entries; pandas calendar flags are opaque dependencies.'),
 'C01': ('proof', 'Bounds of the folds by induction over the folds (integer and date labels), then contiguous runs, partition, group borders and number of splits for every number of samples and folds, ascending labels, purge, embargo and mode, in five label containers.'),
 'C02': ('proof', 'Membership of every sample in the training part of an arbitrary split decided by purge and embargo alone; the bounds of the test folds come from the contract proved under C01.'),
}
