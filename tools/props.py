"""single source of /verif/properties.jsonl and /verif/MANIFEST.json (python3-vt tools/gen.py)"""
PROPS = []
def p(id, title, statement, over, qtext, why, files, mech, observe=(), level='proof', note='', na=None, technique=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=list(files), mech=list(mech), observe=list(observe),
                      level=level, note=note, na=na, technique=technique))
B = 'pacal/'
p('C01', 'Affine images of a random variable have the affine image of its law',
  'For every random variable X and all real numbers a and b with a not zero, the density of a*X+b at y is the density of X at (y-b)/a divided by |a|, and every point mass of X at p becomes an equal point mass at a*p+b; the support is mapped end to end, infinite and singular ends included. Shifting, scaling, negating, adding or subtracting a number and multiplying or dividing by a number are all instances of it.',
  ['inputs'], 'all piecewise densities (finite, semi-infinite, poles, atoms), all slopes and shifts', 'the tests compare a few affine images of a few standard laws with closed forms; they do not range over segment kinds, signs of the slope and pole sides',
  [B+'segments.py', B+'distr.py'], [('affine image of each kind of segment', 'segments.py: Segment.shiftAndScale and its overrides'), ('affine image of the container', 'segments.py: PiecewiseFunction.copyShiftedAndScaled'), ('operators of the public class', 'distr.py: ShiftedScaledDistr, Distr.__add__/__sub__/__mul__/__truediv__')],
  ['PDF, samples and atoms of the result'])
p('C02', 'Monotone functions of a random variable follow the change of variables rule',
  'For every random variable X in the domain of exp, log, arctan, tan, 1/x, real powers or sigmoid, the density of the image at y is the density of X at the preimage divided by the absolute slope of the function there, point masses move to the image point with their weight, and there is nothing outside the image of the support. Samples of the image are the function applied to samples of X.',
  ['inputs'], 'all supports (finite, infinite, ending at a singular point of the function) and all densities on them', 'tests try each function on one or two laws; the end points of the support, poles, orientation and atoms multiply the cases',
  [B+'segments.py', B+'distr.py', B+'standard_distr.py'], [('image of a segment under an increasing or decreasing function', 'segments.py: probDirac, probInverse, composition methods'), ('function, inverse and derivative given by each operation', 'distr.py: FuncDistr and its subclasses')],
  ['PDF and samples of the image'])
p('C03', 'Square, absolute value, sign, sine and cosine add up all the preimages',
  'For every random variable X the density of the square, of the absolute value, and of sine and cosine on one period at y is the sum of the densities of X over all the preimages of y, each divided by the absolute slope there, with each preimage counted exactly once; the sign has exactly the three masses P(X<0), P(X=0) and P(X>0). Point masses keep their total weight.',
  ['inputs'], 'all densities, symmetric or not, supports on one or both sides of zero, atoms included', 'tests sample a few symmetric laws; a lost or double counted branch only shows for supports placed in a particular way',
  [B+'segments.py', B+'distr.py'], [('splitting at the branch points and image of every piece', 'segments.py: copySquareComposition, copyAbsComposition, copyCompositionNoninjective'), ('branches, inverses and slopes', 'distr.py: SquareDistr, AbsDistr, SinDistr, CosDistr, SignDistr')],
  ['PDF, CDF and atoms'])
p('C04', 'The density of a sum or difference is the full convolution, integrated once',
  'For independent X and Y the density of X+Y at z is the integral of the product of their densities over every point of the line x+y=z (x-y=z for the difference), every part of the line taken exactly once and nothing outside both supports counted; a point mass of one operand contributes a shifted copy of the other, and two point masses contribute one with the product of their weights.',
  ['inputs'], 'all pairs of piecewise laws and all points z', 'tests compare a few sums with closed forms; which pieces overlap the line depends on the arrangement of break points',
  [B+'indeparith.py', B+'segments.py'], [('choice of overlapping pairs', 'indeparith.py: _findSegList and its variants'), ('integration limits along the line', 'indeparith.py: conv_at_point, convmean strips'), ('break points of the result and atoms', 'indeparith.py: conv, convdiracs')],
  ['PDF of X+Y and X-Y'])
p('C05', 'The density of a product or quotient is the full integral, integrated once',
  'For independent X and Y the density of X*Y (of X/Y) at z is the integral over every point of the curve x*y=z (x/y=z) of the product of the densities weighted by the Jacobian, every part of the curve in the supports taken exactly once, for all sign combinations of the supports and with zero or infinity at their ends. Point masses contribute scaled copies and products of weights; an atom of X at 0 gives the product (and the quotient) an atom at 0 of the matching mass. The denominator has no atom at 0.',
  ['inputs'], 'all pairs of piecewise laws and all points z', 'tests check products and quotients of a few standard laws; quadrants, infinite strips and z=0 are hit only accidentally',
  [B+'indeparith.py', B+'segments.py'], [('overlapping pairs', 'indeparith.py: _findSegList, _findSegListDiv'), ('limits and Jacobian', 'indeparith.py: convprod_at_point, convdiv_at_point')],
  ['PDF of X*Y and X/Y'])
p('C06', 'Minimum and maximum of independent variables have the exact product law',
  'For independent X and Y the distribution function of max(X,Y) is F_X F_Y and of min(X,Y) is 1-(1-F_X)(1-F_Y) at every point, and the density is the derivative of it: f_X F_Y + f_Y F_X for the maximum and f_X (1-F_Y) + f_Y (1-F_X) for the minimum. Point masses have the matching jumps.',
  ['inputs'], 'all pairs of piecewise laws and all points', 'tests look at few arrangements of supports (overlapping, disjoint, nested, infinite)',
  [B+'indeparith.py', B+'segments.py', B+'distr.py'], [('density of the extreme on a common partition', 'indeparith.py: distr of max and min, fun_max/fun_min'), ('operators', 'distr.py: MinDistr, MaxDistr')],
  ['PDF and CDF of the extremes'])
p('C07', 'Piecewise functions combine and restrict pointwise, in order, without overlap',
  'Piecewise functions keep their pieces ordered and non-overlapping whatever is added; splitting changes no value; a restriction equals the function inside the interval and zero outside; the sum, difference, product and quotient of two piecewise functions equals the same operation on values at every point, with atoms added under addition. Reading a value outside all pieces gives zero.',
  ['inputs', 'histories'], 'all piecewise functions, all insertion orders, break points and intervals', 'tests build few partitions; coinciding, nested and infinite break points and gaps multiply',
  [B+'segments.py'], [('ordered insertion', 'segments.py: PiecewiseFunction.addSegment'), ('splitting, restriction, common partition and arithmetic', 'segments.py: splitByPoints, restrictToInterval, _makeCommonSegmentList, _operation__'), ('lookup', 'segments.py: findSegment, __call__')],
  ['values of piecewise functions'])
p('C08', 'Distribution functions integrate the density and quantiles invert them',
  'At every point the distribution function is the total mass to the left (the point included), so it is non-decreasing, right-continuous with jumps exactly at the point masses, constant in gaps, 0 before and 1 after the support; the complementary function is one minus it; the quantile of p is a point where it passes p.',
  ['inputs'], 'all piecewise densities, all points and all probability levels', 'tests evaluate a few points of a few laws',
  [B+'segments.py', B+'distr.py'], [('cumulative integral', 'segments.py: PiecewiseFunction.cumint, PiecewiseDistribution'), ('inverse', 'segments.py: CumulativePiecewiseFunction.inverse'), ('public functions', 'distr.py: cdf, ccdf, quantile')],
  ['cdf, ccdf, quantile'])
p('C09', 'Moments and probabilities are integrals of the density including atoms',
  'Mean, variance, moments, expectation of a function and probability of an interval of every random variable equal the corresponding integral of its density over all pieces plus the weighted values at all atoms; derived quantities (standard deviation, skewness, kurtosis, interquantile range, median) are the stated functions of them.',
  ['inputs'], 'all laws for which the integrals exist; all intervals, orders and centres', 'tests check few moments of standard laws',
  [B+'segments.py', B+'distr.py'], [('moments over pieces and atoms', 'segments.py: mean, var, meanf, moment'), ('public functions', 'distr.py: mean, var, std, skewness, kurtosis, moment, summary')],
  ['numbers returned to the user'])
p('C10', 'Variable transforms are inverse pairs and integrals cover the whole interval',
  'Each change of variable used for integration and interpolation is a bijection between its two intervals with the stated inverse and derivative, and every integration routine integrates f times the derivative over exactly the whole requested interval, finite or infinite, each part once and with the right sign.',
  ['inputs'], 'all intervals, exponents and integrands', 'tests compare a few integrals with known values within tolerance; a wrong derivative far from the centre is hidden by decay of the integrand',
  [B+'vartransforms.py', B+'integration.py'], [('transforms', 'vartransforms.py: all transform classes'), ('integration over finite, infinite and singular intervals', 'integration.py: integrate_* functions')],
  ['values of integrals'])
p('C11', 'Interpolants reproduce the nodes and all polynomials of their degree',
  'The interpolant returns the stored value at every node, never divides by zero there, depends linearly on values, and in exact arithmetic coincides everywhere with the polynomial through the nodes; node sets are nested, ordered and stay in the interval; adding nodes keeps the earlier data, points that a transform sends to infinity and arguments beyond a truncated tail give zero.',
  ['inputs', 'histories'], 'all node values, all points and all refinement sequences', 'tests sample smooth functions',
  [B+'interpolation.py', B+'utils.py', B+'bary_interp.pyx'], [('Chebyshev nodes, incremental nodes and barycentric formula', 'interpolation.py: ChebyshevInterpolator family; utils.py: cheb_nodes*'), ('compiled kernel', 'bary_interp.pyx')],
  ['values of interpolated functions'])
p('C12', 'Convergence control and root bracketing keep their promises on every history',
  'Whatever sequence of estimates is reported, the convergence controller reports success only if the last difference meets the absolute or relative tolerance, otherwise it continues or stops after the stated number of steps, and the result it offers is the best one seen; root bracketing always keeps a sign change between its ends, halves the bracket and returns a point of it.',
  ['histories', 'inputs'], 'all sequences of estimates and all monotone functions', 'tests only see the sequences produced by well behaved integrals',
  [B+'utils.py'], [('controller', 'utils.py: convergence_monitor'), ('bisection and inverse search', 'utils.py: bisect, findinv, estimateDegreeAtZero ...')],
  ['status, best result, root'])
p('C13', 'Joint samples agree with the expression that defines the variable',
  'When variables built from common ancestors (with dependence tracking on) are sampled together, each ancestor is drawn once and every derived value equals its defining operation applied to the values of its operands in the same draw; samples of conditional, mixture and function laws lie in their support.',
  ['inputs', 'programs'], 'all expressions over random variables and all sample sizes', 'tests compare histograms of a few variables',
  [B+'distr.py', B+'rv.py'], [('sampling with cache', 'distr.py: rand, rand_op, rand_raw, getId caches')],
  ['arrays of samples'])
p('C14', 'Discrete laws and mixtures carry exactly the right masses',
  'Operations on discrete laws give each attainable value the total of the products of weights over all pairs that produce it and nothing else; a mixture has the weighted sum of the component densities and masses; total mass is preserved.',
  ['inputs'], 'all finite sets of atoms, weights and operations', 'tests use a handful of dice',
  [B+'segments.py', B+'indeparith.py', B+'distr.py', B+'standard_distr.py'], [('combining atoms', 'indeparith.py: convdiracs'), ('discrete and mixture laws', 'distr.py, standard_distr.py: DiscreteDistr, MixDistr, ConstDistr')],
  ['atoms and masses'])
p('C15', 'Repeated independent combinations and order statistics follow the n-fold law',
  'Combining n independent copies of a law by an associative operation uses exactly n copies for every n; the k-th order statistic of n independent copies has density n C(n-1,k-1) F^(k-1) (1-F)^(n-k) f at every point for every 1<=k<=n.',
  ['inputs'], 'all n and k, all laws', 'tests try small n',
  [B+'stats/iid_ops.py'], [('doubling scheme', 'stats/iid_ops.py: iid_op'), ('order statistics', 'stats/iid_ops.py: iid_order_stat')],
  ['densities of results'])
p('C16', 'Conditioning restricts and renormalises the law',
  'The law of X given X>a, X<b or a<X<b has on the event the density and atoms of X divided by the probability of the event and zero elsewhere, is again a probability law, and its samples satisfy the event.',
  ['inputs'], 'all laws and thresholds, thresholds at break points, outside of the support or at atoms included', 'tests use a truncated normal',
  [B+'distr.py', B+'segments.py'], [('conditional laws', 'distr.py: CondGtDistr, CondLtDistr, CondIntervalDistr')],
  ['PDF, CDF, samples'])
p('C17', 'Symbolic expressions keep structure, and ranges contain every value',
  'The interval reported as the range of an expression contains every value the expression can take when its operands stay in their ranges; operands, ancestors and names of an expression are those it was written with; identities of variables are unique.',
  ['programs', 'inputs'], 'all expressions over variables and all ranges, infinite ends included', 'tests build few expressions',
  [B+'rv.py'], [('range arithmetic', 'rv.py: range methods of operations'), ('expression graph', 'rv.py: RV, OpRV, getParents*')],
  ['range(), getParents, names'])
p('C18', 'Copulas are distribution functions with uniform margins',
  'Every copula family gives C(u,..,1,..,1)=u, C=0 when an argument is 0, stays between the two Frechet bounds, and its density, conditional and generator functions are the matching derivatives and inverses; the joint density is the copula density at the marginal distribution functions times the marginal densities.',
  ['inputs'], 'all arguments in the unit cube, all admissible parameters and margins', 'tests plot them',
  [B+'depvars/copulas.py'], [('families', 'depvars/copulas.py: PiCopula, MCopula, WCopula, ArchimedeanCopulas')],
  ['cdf, pdf of copulas'])
p('C19', 'Adaptive sparse grids interpolate at every grid point',
  'For every function, number of variables, box and number of refinements the sparse grid interpolant equals the function at every grid point and elsewhere is the combination, with coefficients that add up to one above every subgrid, of the tensor product interpolants on the subgrids (so polynomials within the axis grids and sums of functions of one variable are reproduced like on the full axis grid); the function is asked once for each point, inside of the box, refinement only adds points, and arguments (scalars or arrays of any shape) are handled pointwise.',
  ['inputs', 'histories'], 'all functions, boxes, dimensions and numbers of refinements', 'tests sample a few smooth functions',
  [B+'depvars/sparse_grids.py', B+'bary_interp.pyx'], [('subgrids, coefficients, refinement', 'depvars/sparse_grids.py: AdaptiveSparseGridInterpolator'), ('dense kernel', 'bary_interp.pyx: c_dense_grid_interp')],
  ['interpolant values'])
p('C20', 'Joint laws marginalise, condition and combine by the integrals they stand for',
  'Eliminating a variable of a joint law integrates it out over its whole range, fixing one substitutes it (with the right variable in the right position), and products and normalisation of joint laws are pointwise.',
  ['inputs', 'programs'], 'all joint functions, numbers and orders of variables', 'tests use two or three variables in the default order',
  [B+'depvars/nddistr.py'], [('slices, marginals and products', 'depvars/nddistr.py: NDFun, NDDistr, NDFunFactor')],
  ['values of the joint law'])
p('C21', 'Models keep free, dependent and evidence variables consistent and describe one joint law',
  'For every expression graph: exchanging a free and a dependent variable, eliminating and conditioning leave every variable of the model in exactly one role with the joint law on the free ones and an acyclic equation for each dependent one; they keep the values of the remaining variables and the joint law (an exchange multiplies the density by the modulus of the derivative of the solution, conditioning puts the value everywhere, a free variable is integrated out only when nothing depends on it); what is refused changes nothing; inference leaves the model it starts from alone, ends with exactly the wanted variables, and conditions each given variable on its value instead of integrating it out.',
  ['programs', 'histories'], 'all expression graphs, equations and sequences of operations', 'tests run few short scripts',
  [B+'depvars/models.py', B+'depvars/nddistr.py'], [('bookkeeping', 'depvars/models.py: Model.varschange, eliminate, condition, inference, copy')],
  ['variables and equations of the model', 'values of its joint law'])
p('C22', 'Standard laws have their textbook densities and parameters',
  'Every standard law has, for all admissible parameters and arguments (scalars or arrays), exactly the textbook density or weights, zero outside its support, pieces that cover the support, and a sampler with the same parameters.',
  ['inputs', 'configurations'], 'all admissible parameters and arguments', 'tests check normalisation and moments for one or two parameter values',
  [B+'standard_distr.py'], [('density of each law and its pieces', 'standard_distr.py: *_pdf and init_piecewise_pdf of each class')],
  ['PDF and samples'])
p('C23', 'Adaptive quadrature and interpolation reach the requested floating point accuracy',
  'Densities, distribution functions and moments computed numerically differ from the exact ones by no more than the tolerance configured by the user.',
  ['inputs', 'configurations'], 'all laws and tolerances', 'tests compare a few laws',
  [B+'integration.py', B+'interpolation.py'], [('adaptive loops', 'integration.py, interpolation.py')], na='a bound on the discretisation and rounding error needs analytic assumptions on the integrand (analyticity in an ellipse) that no contract on the code can express; the contracts verify the exact-arithmetic identities (C10, C11) and the control logic (C12) instead')
p('C24', 'Parallel and sequential computation give the same results',
  'With parallel interpolation and arithmetic switched on, every computed law is identical to the one computed sequentially, for all schedules of workers.',
  ['schedules'], 'all schedules', 'tests run sequentially',
  [B+'utils.py', B+'params.py'], [('process pool', 'utils.py, parallel maps')], na='the schedules are those of the multiprocessing pool of the Python runtime, outside of the verified source; the repository only calls the pool\'s map, whose contract (same results, in order) would be assumed and is the whole property')
