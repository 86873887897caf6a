#!/usr/bin/env python3
"""The list of properties. `python3 tools/props.py` rewrites properties.jsonl and MANIFEST.json."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
UV = "src/univariate/*.rs"

def P(id, title, statement, over, text, why, files, mech, observe=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                             observe_at=observe or [], hook_needed=None))

UVF = ["src/univariate/" + f + ".rs" for f in
       "arcsine beta beta_prime cauchy chi chi_sq cosine degenerate erlang exponential f_dist folded_normal frechet gamma gev gpd gumbel inverse_gamma inverse_normal kumaraswamy laplace levy logistic lognormal pareto rayleigh student_t triangular uniform weibull".split()] + ["src/normal/univariate.rs"]
DVF = ["src/univariate/" + f + ".rs" for f in
       "bernoulli beta_binomial binomial categorical degenerate geometric poisson uniform".split()]

PROPS = [
P("C01", "Constraint predicates decide exactly what they say",
  "Each parameter constraint (sign, order, interval, finiteness, shape, emptiness and their conjunctions, disjunctions, negations and element-wise liftings) accepts a value if and only if the mathematical predicate it is named for holds of that value. This is so for scalars of every supported type, for vectors, arrays and nested matrices, including NaN, infinities, signed zeros and empty collections.",
  ["inputs", "programs"], "every value and every combination of constraints",
  "One unit test looks at one constraint on three values; combinators, collections, NaN and the ends of intervals are never tried.",
  ["src/params/constraints.rs"], [("Constraint::is_satisfied_by and the combinators And, Or, Not, All", "src/params/constraints.rs")],
  ["result of is_satisfied_by and check"]),
P("C02", "Parameter types admit exactly the valid values",
  "Building a parameter (location, scale, rate, shape, degrees of freedom, count, correlation, concentration) succeeds if and only if the value satisfies every constraint that parameter type lists, and then holds the value unchanged. A refused value yields an error, never a panic or a silently altered parameter.",
  ["inputs"], "every candidate value of every parameter type",
  "The only test reads back one location parameter; no invalid value is ever offered.",
  ["src/params/mod.rs", "src/params/corr.rs", "src/params/concentrations.rs"],
  [("param!, params!, locscale_params! and shape_params! generated constructors", "src/params/mod.rs"), ("Corr::new, Concentrations::new", "src/params/corr.rs, src/params/concentrations.rs")],
  ["Ok/Err of new, Param::value, Param::constraints"]),
P("C03", "A constraint failure is reported faithfully",
  "When a constraint refuses a value, the error carries that very value, names the constraint that was violated and the target it was attached to, and different constraints have different names. A value that satisfies the constraint is returned unchanged.",
  ["inputs", "programs"], "every value and every constraint, including nested ones",
  "No existing test looks at an error at all.",
  ["src/params/constraints.rs"], [("Constraint::check, UnsatisfiedConstraintError, assert_constraint!", "src/params/constraints.rs")],
  ["fields and Display of UnsatisfiedConstraintError"]),
P("C04", "Factorials and binomial coefficients are exact",
  "The factorial of n and the binomial coefficient n over k equal the exact integers wherever those fit in 64 bits (zero when k exceeds n), and the logarithm of a factorial is accurate for every n.",
  ["inputs"], "every n and k whose value is representable; every n for the logarithm",
  "These helpers have no test; the sampled distributions in doc examples use n below 10.",
  ["src/utils.rs", "src/consts.rs"], [("factorial, factorial_exact, log_factorial_stirling, choose", "src/utils.rs"), ("FACTORIALS_16, LOG_FACTORIALS_255", "src/consts.rs")],
  ["return values"]),
P("C05", "Matrix kernels satisfy their defining equations",
  "For every symmetric positive definite matrix the Cholesky routine returns the lower triangular factor whose product with its transpose is the matrix, triangular inversion returns the inverse, and the triangular products equal the textbook products.",
  ["inputs"], "every positive definite matrix and every vector, for every dimension",
  "One 3 by 3 matrix is tested.",
  ["src/normal/linalg.rs"], [("cholesky, inverse_lt, mm_square, mv_mult", "src/normal/linalg.rs")],
  ["returned arrays"]),
P("C06", "A probability is a number between zero and one",
  "A probability can be built from a float exactly when the float lies in [0, 1], complement and multiplication give the mathematical result, and addition, subtraction, division and remainder of two probabilities give the mathematical result when it is a probability and an error otherwise. All by-value, by-reference and mixed float forms of an operator agree.",
  ["inputs"], "every pair of floats, including NaN, infinities and values one step outside the interval",
  "No existing test exercises probability arithmetic.",
  ["src/probability.rs"], [("Probability::new, TryFrom, is_valid and the impl_op! operators", "src/probability.rs")],
  ["Ok/Err and values of operations"]),
P("C07", "Probability vectors are valid and sampled by their weights",
  "A probability vector is accepted exactly when its entries are probabilities that sum to one (within the documented slack), its index sampler returns each index with its weight and never an index of weight zero, and a randomly drawn vector is itself a valid probability vector, uniformly distributed over the simplex.",
  ["inputs", "histories"], "every vector and every random stream",
  "The tests draw one index from one-hot vectors; random vectors are never looked at.",
  ["src/probability.rs"], [("SimplexVector::new, sample_index, sample, centre", "src/probability.rs")],
  ["accepted vectors, sampled indices and vectors"]),
P("C08", "Continuous distribution functions follow their law",
  "For every continuous univariate distribution, all valid parameters and every real argument, the cumulative probability equals the integral of that distribution's textbook density up to the argument: zero below the support, one above it, never NaN. The complementary and logarithmic forms equal one minus it and the logarithms.",
  ["inputs"], "every distribution, parameter vector and argument, including ends of the support, infinities and far tails",
  "Existing examples evaluate a few functions at a few points with convenient parameters such as alpha = 1, where several wrong formulas coincide with the right one.",
  UVF + ["src/lib.rs"], [("Distribution::cdf, ccdf, log_cdf, log_ccdf of each distribution", UV), ("default methods", "src/lib.rs")],
  ["cdf, ccdf, log_cdf, log_ccdf"]),
P("C09", "Discrete distribution functions follow their law",
  "For every discrete univariate distribution, all valid parameters and every integer argument, the cumulative probability equals the sum of the distribution's textbook mass over the integers up to and including the argument, zero before the support and one after it. The complementary and logarithmic forms agree with it.",
  ["inputs"], "every discrete distribution, parameter vector and integer",
  "No existing test evaluates a discrete distribution function beyond one or two points.",
  DVF + ["src/lib.rs"], [("Distribution::cdf, ccdf, log_cdf, log_ccdf of each distribution", UV)],
  ["cdf, ccdf, log_cdf, log_ccdf"]),
P("C10", "Densities equal the textbook density",
  "For every continuous univariate distribution, all valid parameters and every real argument, the density equals the textbook density of that distribution with those parameters, is zero outside the support and never negative or NaN, and the log-density is its logarithm. It therefore integrates to one and is the derivative of the cumulative function.",
  ["inputs"], "every distribution, parameter vector and argument",
  "Densities of a few standard members are compared with constants; other parameters, scales and arguments are not tried.",
  UVF + ["src/lib.rs"], [("ContinuousDistribution::pdf, log_pdf of each distribution", UV)], ["pdf, log_pdf"]),
P("C11", "Masses equal the textbook mass and sum to one",
  "For every discrete univariate distribution, all valid parameters and every integer argument, the mass equals the textbook probability (zero outside the support, except that a categorical law may refuse an index it does not have), is a valid probability, and the log-mass is its logarithm; the masses over the support sum to one. This includes counts so large that intermediate factors leave the floating-point or integer range.",
  ["inputs"], "every discrete distribution, parameter vector and argument",
  "Only a small binomial example is evaluated.",
  DVF + ["src/lib.rs"], [("DiscreteDistribution::pmf, log_pmf of each distribution", UV)], ["pmf, log_pmf"]),
P("C12", "The stated support is where the probability is",
  "For every distribution, univariate or multivariate, and all valid parameters, every point where the textbook density or mass is positive lies in the stated support, and wherever the stated support has an end, that end is the end of the set of possible outcomes.",
  ["inputs"], "every distribution and parameter vector",
  "Two supports are compared with constants.",
  UVF + DVF + ["src/mixture.rs", "src/normal/*.rs", "src/multivariate/*.rs"], [("Distribution::support, into_support of each distribution", UV)], ["support"]),
P("C13", "Means and variances are those of the law",
  "For every univariate distribution and all valid parameters, the mean, variance and standard deviation equal the integrals (or sums) that define them. They are infinite only when the integral diverges to infinity and refused as undefined only when no finite value exists.",
  ["inputs"], "every distribution and parameter vector",
  "Four or five distributions have a mean or variance compared at a few parameters.",
  UVF + DVF + ["src/statistics.rs"], [("UvMoments::mean, variance, standard_deviation", UV)], ["mean, variance, standard_deviation"]),
P("C14", "Skewness and kurtosis are those of the law",
  "For every univariate distribution and all valid parameters, skewness, kurtosis and excess kurtosis equal the standardised third and fourth central moments that define them, and kurtosis always exceeds excess kurtosis by exactly three. They are infinite or refused as undefined only when no finite value exists.",
  ["inputs"], "every distribution and parameter vector",
  "Kurtosis is never tested; skewness only for two distributions.",
  UVF + DVF + ["src/statistics.rs"], [("UvMoments::skewness, kurtosis, excess_kurtosis", UV)], ["skewness, kurtosis, excess_kurtosis"]),
P("C15", "Quantiles invert the distribution function",
  "Wherever a quantile is available, it is the smallest point at which the cumulative probability reaches the requested probability, the complementary quantile is the quantile of the complement, and quartiles, median, interquartile range and fences are derived from it consistently. Every median splits the law in half (to the accuracy of its documented approximation).",
  ["inputs"], "every distribution with quantiles, every parameter vector, every probability",
  "Medians of two distributions are compared at a few parameters; quantiles never.",
  UVF + DVF + ["src/statistics.rs"], [("Quantiles of each distribution and its default methods", "src/statistics.rs, " + UV)], ["quantile, cquantile, quartiles, median, iqr, fences"]),
P("C16", "Modes maximise the density or mass",
  "Every mode reported for a univariate distribution is a point of the support where the textbook density or mass attains its supremum, no mode is reported twice, and an attained, finite maximum is not left unreported.",
  ["inputs"], "every distribution and parameter vector, including boundary shapes",
  "Modes of the arcsine and categorical laws are compared at a few parameters.",
  UVF + DVF, [("Modes::modes of each distribution", UV)], ["modes"]),
P("C17", "Entropies are those of the law",
  "For every distribution that reports a Shannon entropy and all valid parameters, the value equals the expectation of minus the logarithm of the density or mass (in the unit that distribution uses, and to the accuracy of an asymptotic formula where the implementation states one).",
  ["inputs"], "every distribution with an entropy and every parameter vector",
  "No test evaluates an entropy.",
  UVF + DVF + ["src/normal/*.rs"], [("ShannonEntropy of each distribution", UV + ", src/normal/*.rs")], ["shannon_entropy"]),
P("C18", "Samples follow the stated law",
  "For every distribution with a sampler and all valid parameters, independent samples are distributed according to that distribution's law, for every random stream up to statistical fluctuation.",
  ["inputs", "histories"], "every distribution, parameter vector and random stream",
  "Tests never compare a sample with its law.",
  UVF + DVF + ["src/normal/*.rs", "src/multivariate/*.rs"], [("Distribution::sample of each distribution", UV)], ["sampled values"]),
P("C19", "Sampling is reproducible and stays in the support",
  "From the same random stream, drawing n samples at once, one after another, or through the sample iterator yields the same values, exactly as many as asked for and leaving the stream in the same state. Every sample lies in the stated support and the iterator never ends.",
  ["histories", "inputs"], "every distribution with a sampler, every stream and every way of splitting the draws",
  "No test uses the bulk or iterator forms.",
  ["src/lib.rs"] + UVF + DVF, [("Distribution::sample_n, sample_iter, Sampler", "src/lib.rs")], ["sequences of samples"]),
P("C20", "Likelihoods, scores and fits agree with the density",
  "The log-likelihood of every data set of points of the support is the sum of the log-densities of its points and the likelihood its exponential, the score is the gradient of the log-likelihood in the distribution's parameters, and a maximum-likelihood fit attains a likelihood no other parameters exceed. Scaling a gradient scales every component of it.",
  ["inputs"], "every distribution with a likelihood, every parameter vector and data set",
  "One fit of a normal to five points is tested.",
  ["src/fitting.rs", "src/univariate/bernoulli.rs", "src/univariate/beta.rs", "src/univariate/gamma.rs", "src/univariate/poisson.rs", "src/normal/univariate.rs", "src/normal/paired.rs"],
  [("Likelihood, Score, MLE implementations", "src/fitting.rs and the distributions")], ["log_likelihood, likelihood, score, fit_mle"]),
P("C21", "Fisher information is the variance of the score",
  "For every distribution that reports a Fisher information matrix and all valid parameters, the matrix equals the expected outer product of the gradient of the log-density in those parameters.",
  ["inputs"], "every distribution with Fisher information and every parameter vector",
  "No test evaluates it.",
  ["src/univariate/bernoulli.rs", "src/univariate/binomial.rs", "src/univariate/exponential.rs", "src/univariate/lognormal.rs", "src/univariate/pareto.rs", "src/univariate/poisson.rs", "src/normal/univariate.rs"],
  [("FisherInformation implementations", UV)], ["fisher_information"]),
P("C22", "Convolution is the law of the sum",
  "Whenever two or more distributions are convolved successfully, the result is the distribution of the sum of independent variables with those laws, whatever the order, and a convolution is refused exactly when the family is not closed under that sum. Convolving with a list equals convolving one by one.",
  ["inputs", "histories"], "every convolvable pair or list and every parameter vector",
  "Doc examples convolve one pair.",
  ["src/lib.rs", "src/univariate/bernoulli.rs", "src/univariate/binomial.rs", "src/univariate/cauchy.rs", "src/univariate/chi_sq.rs", "src/univariate/gamma.rs", "src/univariate/poisson.rs", "src/normal/univariate.rs"],
  [("Convolution::convolve, convolve_many", "src/lib.rs and the distributions")], ["parameters and moments of the result, Ok/Err"]),
P("C23", "Construction validates and parameters round-trip",
  "A distribution can be constructed exactly when its parameters satisfy their constraints; the parameters read back equal those given; rebuilding from them, or using the unchecked constructor or a named special case, gives a distribution that behaves identically.",
  ["inputs"], "every distribution and every parameter vector, valid or not",
  "Doc examples construct a few valid distributions.",
  UVF + DVF + ["src/normal/*.rs", "src/multivariate/*.rs", "src/mixture.rs"], [("new, new_unchecked, From<Params>, params, into_params", UV)], ["Ok/Err, params, behaviour of the rebuilt distribution"]),
P("C24", "The normal family is consistent",
  "For every mean and positive definite covariance, the univariate, paired, bivariate, isotropic, diagonal and full multivariate normals have the textbook density, Mahalanobis distance, mean, covariance and entropy, and two members that describe the same law agree on all of them. Every positive definite covariance is accepted, whatever the signs of its off-diagonal entries, and a matrix that is no covariance (a variance that is negative or not a number, not symmetric, not positive semi-definite) is refused.",
  ["inputs", "configurations"], "every mean, covariance, dimension and argument",
  "One full and one isotropic density are compared at the origin.",
  ["src/normal/mod.rs", "src/normal/univariate.rs", "src/normal/paired.rs", "src/normal/bivariate.rs", "src/normal/multivariate.rs", "src/distance.rs"],
  [("pdf, z, d_mahalanobis, covariance, shannon_entropy", "src/normal/*.rs")], ["pdf, log_pdf, distances, moments, entropy"]),
P("C25", "Other multivariate laws are the textbook laws",
  "For all valid parameters, the Dirichlet, multinomial and multivariate log-normal distributions have the textbook density or mass, mean, variance and covariance (and mode for the Dirichlet).",
  ["inputs"], "every parameter vector, dimension and argument",
  "Three tests look at one two-category multinomial's support, covariance and correlation.",
  ["src/multivariate/dirichlet.rs", "src/multivariate/multinomial.rs", "src/multivariate/lognormal.rs"],
  [("pdf, pmf, moments", "src/multivariate/*.rs")], ["pdf, log_pdf, pmf, log_pmf, mean, variance, covariance, modes"]),
P("C26", "Covariance and correlation matrices are coherent",
  "For every multivariate distribution and all valid parameters, the covariance matrix is symmetric and positive semi-definite with the variances on its diagonal, and the correlation matrix is the covariance normalised by the standard deviations, with unit diagonal and entries between minus one and one.",
  ["inputs"], "every multivariate distribution and parameter vector",
  "One two-category multinomial correlation is tested.",
  ["src/statistics.rs", "src/normal/*.rs", "src/multivariate/*.rs"], [("MvMoments::variance, covariance, correlation", "src/statistics.rs")], ["variance, covariance, correlation"]),
P("C27", "A mixture is the weighted average of its components",
  "For every list of components and weights, the mixture's cumulative function and density are the weighted averages of the components', its mean and variance those of that law, its support the smallest interval that contains the components' supports, and its samples come from component i with weight i. Parameters read back rebuild the same mixture, and a parameter list of the wrong length is refused.",
  ["inputs", "histories"], "every number of components, weights, component parameters and argument",
  "One two-component uniform mixture is tested.",
  ["src/mixture.rs"], [("Mixture", "src/mixture.rs")], ["cdf, pdf, mean, variance, support, sample, params"]),
P("C28", "Serialised parameters come back unchanged",
  "With serialisation enabled, every parameter set and probability vector that is written out and read back is equal to the original, in every field, for every valid value and dimension, and input of the wrong length is refused.",
  ["inputs"], "every serialisable parameter type, value and dimension",
  "The feature has no test.",
  ["src/utils.rs", "src/params/mod.rs", "src/probability.rs", "src/normal/mod.rs", "src/mixture.rs", "src/univariate/categorical.rs", "src/multivariate/multinomial.rs"],
  [("serde derives and serde_arrays", "src/utils.rs")], ["serialise then deserialise"]),
P("C29", "Derived methods agree with those a distribution defines",
  "A user-defined distribution that supplies only one of a pair of related methods (distribution function or its logarithm, density or log-density, mass or log-mass, variance or standard deviation, kurtosis or excess, quantile or complementary quantile, likelihood or log-likelihood, Mahalanobis distance or its square) gets the other one consistent with it, for every argument and parameter. Everything else the library derives (complements, quartiles and fences, variances and correlations from a covariance, repeated convolution, bulk and iterated sampling) follows from the supplied methods by its definition.",
  ["inputs", "histories"], "every user-defined distribution, parameter, argument and random stream",
  "No test defines a distribution of its own; the derived halves are reached only through a few concrete distributions.",
  ["src/lib.rs", "src/statistics.rs", "src/fitting.rs", "src/distance.rs"],
  [("provided methods of the public traits", "src/lib.rs"), ("provided methods of the statistics traits", "src/statistics.rs")], ["every provided trait method"]),
P("C30", "Evaluation has no memory",
  "What a distribution answers (probabilities, densities, moments, quantiles, modes, entropies, fits, draws from a given random stream) depends only on its parameters, the arguments and the stream. It does not depend on what was asked before, of it or of any other distribution, nor on what other threads ask at the same time: every history gives each question the answer that the same question gets alone.",
  ["histories", "schedules", "inputs"], "every sequence of calls on any distributions, from any number of threads",
  "Every test asks each question once, in one order; none looks at an earlier answer again or at two threads.",
  ["src/lib.rs", "src/utils.rs", "src/mixture.rs", "src/normal/bivariate.rs"] + UVF + DVF[:4],
  [("every method of a distribution that takes &self", "src/lib.rs"), ("shared helper functions", "src/utils.rs")], ["every public method, asked again after others"]),
P("C31", "The written form of a distribution identifies it",
  "Writing a distribution (its Display form) gives the symbol of its family and, in the family's order, the numbers that determine it: its parameters (the variance parameter where the family is parametrised by one), or the ends of its interval (and the mode) for the interval families. Read back from the text, the numbers are exactly those parameters, with no digits lost at any magnitude, so distributions of a family with different parameters are written differently and equal ones alike. A probability or a single parameter is written as its number.",
  ["inputs"], "every valid parameter of every family that has a written form",
  "No test writes a distribution.",
  ["src/probability.rs", "src/params/mod.rs", "src/normal/univariate.rs", "src/normal/paired.rs", "src/normal/bivariate.rs", "src/multivariate/dirichlet.rs", "src/multivariate/multinomial.rs", "src/multivariate/lognormal.rs"] + UVF + DVF,
  [("Display of the distributions", "src/univariate/gamma.rs"), ("Display of Probability", "src/probability.rs"), ("Display of the parameters", "src/params/mod.rs")], ["to_string of each distribution, probability and parameter"]),
]

CRATE = {**{p["id"]: "full" for p in PROPS}, "C01": "core", "C02": "core", "C03": "core", "C04": "core", "C05": "core", "C28": "serde"}
BUILT = set(open(os.path.join(HERE, "tools", "built.txt")).read().split())
ORACLE = json.load(open(os.path.join(HERE, "tools", "oracles.json")))

def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in PROPS:
        i = p["id"]
        if i not in BUILT:
            na.append(dict(property=i, reason="check not built yet"))
            continue
        c = CRATE[i]
        o = ORACLE.get(i, ["an independent reference model", ""])
        checks.append(dict(property=i, quick_cmd=f"./check.sh {c} {i}",
                           thorough_cmd=f"VERIF_TIER=thorough ./check.sh {c} {i}",
                           evidence_file=f"evidence/{i}.json",
                           technique="property-based testing: generated inputs with shrinking against " + o[0],
                           level="exploration",
                           level_note=("Holds on every generated case of the run (seeded, counted in the evidence file); not a proof. " + o[1]).strip()))
    man = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="Violations write replays/<property>-<signature>.json; re-run one with ./check.sh <core|full|serde> replay <file>. No hooks in /repo: the harnesses use public items and, for the crate-private modules utils and linalg, compile those source files in place.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")

main()
