"""per property: the level of the decision and what it assumes"""
META = {}
def m(pid, assumptions=(), trusted=(), level='proof', note=None):
    META[pid] = {'level': level, 'note': note, 'assumptions': list(assumptions), 'trusted': list(trusted)}

m('C01', ['PiecewiseFunction.addSegment keeps the segments of the container it is given (contract of C07)'])
m('C02', ['PiecewiseFunction.addSegment and splitByPoints are used through their contracts (C07)',
          'log of a symbolic zero is not modelled; the ends of the support equal to zero are separate cases with the concrete 0.0'])
m('C03', ['PiecewiseFunction.addSegment, splitByPoints, restrictToInterval and the sum of containers are used through their contracts (C07)',
          'sin and cos of arguments outside of one period are not covered (the library supports one period)'])

m('C07', ['the constructor is checked for 1 to 3 pieces (symbolic break points), all other contracts for any number of pieces and points',
          'bisect and insort have the contract of the standard library (position found by a monotone predicate); that the predicate is monotone is an obligation',
          'atoms are never added strictly inside of a continuous piece (precondition of addSegment)',
          'sum and difference of a piece with a left pole and a piece with a right pole on the same interval: the result has one pole only (the library has no piece with two poles)',
          'op_diracs, getBreaks and reading arrays of values are only checked on the running code (bounded)'])

m('C04', ['the pair contracts (one piece and one piece, every pair of kinds) and the contract for adding the contributions hold for any number of pieces; the whole operation is proved for operands of one or two pieces with symbolic break points (bounded in the number of pieces)',
          'interpolation returns the function it interpolates (C11) and quadrature the integral it is asked for (C10); the pole test is a heuristic and its answer is not part of the contract',
          'atoms of one operand nearer to each other than 1e-3 are left out of the whole-operation proofs'])

m('C06', ['the pair contracts and the contract for adding the contributions hold for any number of pieces; the whole operation is proved for operands of one or two pieces with symbolic break points (bounded in the number of pieces)',
          'interpolation returns the function it interpolates (C11) and quadrature the integral it is asked for (C10); the pole test is a heuristic and its answer is not part of the contract',
          'atoms of the two operands nearer to each other than 1e-3 but different are left out of the whole-operation proofs'])

m('C05', ['the pair contracts (pieces of one sign, with 0 or infinity at their ends) and the contract for adding the contributions hold for any number of pieces; the whole operation is proved for operands of one or two pieces with symbolic break points (bounded in the number of pieces)',
          'interpolation returns the function it interpolates (C11) and quadrature the integral it is asked for (C10); the pole test is a heuristic and its answer is not part of the contract',
          'the density at the single point z=0 is not part of the contract; the denominator has no atom at 0',
          'break points nearer to each other than params.segments.unique_eps (1e-14 relative) are merged by epsunique: the contract uses 0 for this rounding bound'])

m('C08', ['the cumulative function is proved piece by piece for any number of pieces; its evaluation through the real addSegment and __call__ for the listed shapes of at most three pieces and atoms (any break points), the quantile for cumulative functions of at most four pieces (bounded in the number of pieces)',
          'root finding (findinv, findinv_minf, findinv_pinf) returns a solution of the bracket it is given; that it is given a bracket is an obligation. The solvers themselves are checked on the running code (bounded)',
          'quadrature returns the integral it is asked for (C10)',
          'the level of the quantile is not required to be reached by a unique point: any point where the distribution function passes it is accepted'])

m('C09', ['quadrature returns the integral it is asked for, with a negligible error estimate (C10); moments that do not exist are outside of the contract',
          'mode, tail exponents, entropy, the L2 and Kullback-Leibler distances and the median absolute deviation are only checked on the running code (bounded); the median is the quantile at 1/2 (C08)'])

m('C16', ['conditional laws are proved for laws of at most three pieces and atoms of the listed shapes with symbolic break points and bounds (bounded in the number of pieces)',
          'sampling is proved for at most three rounds of the rejection loop (bounded)',
          'quadrature returns the integral it is asked for (C10)'])

m('C17', ['the contract of every operation holds for arbitrary ranges of its operands, so ranges of expressions of any depth follow by induction; rounding is treated as exact arithmetic',
          'names are proved to read as the value of the expression for every operation applied to operands of every class (two levels), with representative numbers; deeper nesting only changes the text of the operands',
          'uniqueness of id() is that of the Python interpreter (unique among live objects)',
          'sympy keeps the expressions it is given'])

m('C14', ['discrete laws with at most 3 atoms, operations on at most 2 x 2 atoms (product and quotient: 2 x 1): bounded, for all positions and weights; mixtures of at most 3 components with at most 2 pieces each: bounded',
          'atoms (and values of an operation) are equal or at least 1e-3 apart, because the code merges points nearer than its tolerance 1e-14',
          'binomial weights for n <= 6 and all p, Poisson weights for at most 4 terms and all rates, truncated sequences of at most 3 terms: bounded; exp is axiomatised',
          'interpolation is the identity (checked on the running code)'], level='other', note='contracts of the discrete operations, families and mixtures discharged for all positions, weights and parameters, but for a bounded number of atoms, components and terms (bounded, not counted as proved)')
m('C15', ['the n-fold combination is proved for every n: the operation is associative, and an element is the number of copies it combines; bin(n) is the sequence of binary digits of n',
          'the density of an order statistic is proved for all n and k, with at most 3 pieces and without atoms; C(n,k) is defined by its recursion in k, its symmetry is assumed; the distribution function is an arbitrary function with values in (0,1) (C08 establishes it)',
          'iid_unknown for n <= 3: bounded', 'interpolation is the identity (checked on the running code)'])
m('C13', ['expressions of any depth follow by induction from the contracts of the two samplers (Distr.rand, OpDistr.rand) and of every rand_op; representative compositions are checked as well',
          'numpy.random delivers independent draws of the requested laws; random.choice draws with the given weights',
          'sin and cos of arguments outside of one period are not covered (the library supports one period)',
          'mixture sampler: at most 3 components and 3 samples, every assignment (bounded)', 'discrete sampler: at most 3 points (bounded)'])
m('C22', ['densities are compared through the laws of exp, log and powers (every factor proved positive); numeric constants agree to 1e-11', 'lgamma and the normalising constant of the mollifier are not unfolded (the concrete driver compares with scipy.stats)',
          'numpy.random delivers the laws of its names: a sampler is checked to return the textbook transformation of these draws; semicircle: R sqrt(U) cos(pi V) is trusted to have the semicircle law',
          'binomial weights for n <= 5 and all p, Poisson weights for rates up to 1 and a coarse truncation, truncated sequences of at most 4 terms: bounded', 'Gumbel: values below exp(-exp(700)) are zero'])

m('C10', ['the basic rules (Fejer and Clenshaw-Curtis weights and their adaptive loop) are assumed to return the integral over the interval they are given; the concrete driver integrates polynomials up to the degree of the rule, n <= 257 (bounded)',
          'exponents 1, 2 and every other positive real; 1/exponent is exact; the differentiation of a formula term by term (rules of the chain, quotient and power) is trusted',
          'integrate_wide_interval: at most 4 parts (bounded); an infinite part further than 1e100 from the origin is not asked for',
          'a single value of the new variable (t = 0) is left out: a point of measure zero'])

m('C11', ['compiled kernel: verified on Python text extracted mechanically from bary_interp.pyx on every run (C types, casts, decorators, malloc/free are dropped; C integers and doubles treated as integers and reals)',
          'the quotient of the sums is proved for every number of nodes and the weights of the Chebyshev grids are proved to be the classical ones for every number of nodes; that the quotient with product weights is the polynomial through the nodes is proved for up to 3 nodes anywhere (bounded) and is a theorem (assumed) beyond, as is the product formula of the Chebyshev weights; both are checked on the running code for up to 14 nodes',
          'the cosine decreases on [0, pi], half angle formula, cos 0 = 1, cos pi = -1, pi treated as one rational; float rounding of nodes is not modelled',
          'the refinement is proved as one step from any number of nodes, for any function and controller; the sorting combination (Python sorted) is proved for at most 2 old and 2 new nodes (bounded) and used by its contract for grids of the first kind',
          'the numpy fallback of the kernel, derivatives, coefficients, trimmed copies and LogXChebyshevInterpolator (not a polynomial in x) are only checked on the running code'])
m('C12', ['machine arithmetic treated as mathematical: sequences with infinities or nan are only checked on the running code',
          'the first report has nothing to improve on and counts as one without an improvement (as in the code); the improvement of an estimate is measured against the last improving one',
          'scipy.optimize.brentq is assumed to return a root in the bracket it is given; findinv_minf and findinv_pinf: partial correctness, that they reach the level or infinity is checked on the running code (bounded)',
          'the adaptive rules are proved for every controller and every integrand up to 4 refinements (bounded), the node sets are those of C11',
          'that a bracket is halved n times is by induction on the iteration (width(i+1) = width(i)/2); float rounding of the midpoint is not modelled'])

m('C18', ['at most 4 (bounds) or 3 variables (bounded in the dimension); all arguments, parameters, generators and margins',
          'sympy computes derivatives, roots and numerical functions as named; the generators of Gumbel, Clayton and Frank families are verified with sympy.log and sympy.exp as the mathematical functions',
          'polynomial identities between densities and derivatives are decided by computer algebra (sympy) after the laws of exp, log and powers were applied term by term (arguments proved equal by z3)',
          'that the Archimedean families with a valid generator lie between the Frechet bounds is a theorem that is not re-proved (bounds are proved for Pi, M, W); margins and zero are proved for every generator',
          'marginal densities and distribution functions match (C08); the two dimensional Gumbel generator at 0 and 1 is only checked on the running code'])
m('C20', ['joint functions of at most 3 variables, products of two joint factors, one one-variable factor and constants over at most 4 variables (bounded in the dimension); every order of the factors\' variables, every list of eliminated or given variables of length at most the dimension (products: 2); all functions, ranges and values',
          'the interpolant of a joint function agrees with it on its box (C19), integrals are exact (C10, C12) and iterated integrals may be exchanged (Fubini)',
          'ranges of the variables are finite, apart from a single eliminated variable: the library cannot interpolate over an infinite box',
          'the normal law is proved for 2 and 3 variables with a symbolic positive definite matrix; matrix inverse, determinant and products are those of the mathematics; identities between rational functions are decided by computer algebra',
          'NDNoisyFun: the function is monotonic in the same direction in all variables unless its range is given, as its source says',
          'functions (not densities) with fixed arguments are proved for scalars, arrays of arguments are checked on the running code',
          'GausianCopula (marked TODO, its constructor always fails), regfun and mode (numerical searches) are not under contract'])

m('C19', ['bounded in size: subgrids and coefficients up to 5 dimensions and 4 refinements (the parameters allow level 7), values at grid points and the refinement loop up to 3 dimensions and 3 refinements from 3 (one dimension: 11) nodes an axis; within these sizes for all functions, boxes, nodes, values and arguments',
          'the nodes of an axis increase and are nested (contract of cheb_nodes, proved for every number of nodes in C11); the sums of weights over nodes do not vanish at an argument that is no node',
          'compiled kernel: verified on Python text extracted mechanically from bary_interp.pyx on every run (C types, casts, malloc/free are dropped; reads before writes and accesses outside of the blocks are obligations)',
          'that polynomials are reproduced is only checked on the running code; proved is that functions of one variable are interpolated on the finest grid of their axis'],
  level='proof')

m('C21', ['expression graphs of at most 3 free and 3 dependent variables (the 11 shapes listed in the contract: bounded in the shape); equations, joint densities and values are arbitrary (uninterpreted functions of the symbols)',
          'sympy substitutes, solves and differentiates as named: eq_solve returns solutions of the equation (the inverse exists where it is used), the joint law has the contracts of C20 (elimination integrates, conditioning fixes, a change of variables substitutes and multiplies by the Jacobian)',
          'an answer of inference is required for the listed shapes with one or two wanted and at most one given variable that is not wanted',
          'TwoVarsModel and inference_to_remove are only checked on the running code; plots and summaries are not covered; equations that are not monotone may have solutions that sympy does not find'])
