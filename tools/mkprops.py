"""Writes properties.jsonl (kept as code so that the wording is reviewed in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe))))
T = 'maxlike/tensor/tensor.py'
p('C01', 'Sparse tensor arithmetic equals arithmetic on the dense arrays',
  'Adding, subtracting, multiplying, dividing or negating two tensors, or a tensor and a number or array, gives a tensor whose dense expansion is the broadcasted elementwise result on the dense expansions of the operands. It holds whatever sparse layout each operand uses (derivative axes tied diagonally to result axes, groups of axes absent, sums kept as lists of terms) and in either operand order; the only exception is division by an exact zero scalar, which raises.',
  ['inputs', 'configurations'], 'every pair of operands, every combination of layouts and maps, every axis length and value; divisors must not be diagonal in the group they divide',
  'tests/tensor_test.py samples a few fixed layouts with 3-5 element axes; the layouts combine multiplicatively and the result must hold for each of them.',
  [T], [('binary operations', T + ':Tensor.bin_op, GenericTensor.bin_op'), ('dense expansion', T + ':Tensor.toarray, arr_expand_diag'), ('numpy entry point', T + ':__array_ufunc__')],
  ['values of the tensor returned by an operator'])
p('C02', 'Tensor contractions equal the dense sums of products',
  'The inner products of tensors used by the chain rule - matrix by vector, vector by matrix, and the general product that selects between them - give a tensor whose dense expansion is the sum over the contracted axes of the products of the dense expansions of the operands. The result keeps exactly the uncontracted axes of both operands, whatever sparse layout each of them uses.',
  ['inputs', 'configurations'], 'every pair of tensors whose groups of axes can be contracted, every layout, map, axis length and value',
  'the tests contract a handful of layouts with fixed maps; partial, permuted and missing maps were never exercised and were broken.',
  [T], [('contractions', T + ':Tensor.dot, dot_left, dot_right; GenericTensor.*'), ('composition of maps', T + ':compose_mappings, unmapped_mappings')])
p('C03', 'Reshaping operations on tensors commute with the dense expansion',
  'Summing out value or extra axes, placing axes into a larger set of axes, reversing axes, swapping the two derivative groups and merging extra axes into value axes give a tensor whose dense expansion is the same operation applied to the dense expansion of the operand. An operation that the sparse layout cannot represent raises an error instead of returning a wrong tensor.',
  ['inputs', 'configurations'], 'every tensor and sum of tensors, every layout and map, every list of target axes, every axis length and value',
  'the tests check few target axes and mostly dense layouts; correctness depends on the interplay of permutation, broadcasting and maps.',
  [T], [('structural operations', T + ':sum, expand, flip, transpose, drop_dim, toarray'), ('map bookkeeping', T + ':compose_mappings')])
F = 'maxlike/func/'
p('C04', 'Derivatives of the elementary functions are exact',
  'For each elementary function (linear, quadratic, identity, constant, scalar, vector, exponential, logarithm, logistic, arctangent, Poisson and log-negative-binomial vectors) the reported gradient is the exact partial derivative of the value with respect to every entry of every parameter, and the reported Hessian the exact second derivative. It holds for parameters of any shape given as arrays, parameters or tensors.',
  ['inputs'], 'every parameter value inside the domain of the function, every shape, every constructor argument',
  'tests compare against finite differences or stored numbers at single points and for one-axis parameters.',
  [F + 'func.py', F + 'sigmoid.py', F + 'func_proba.py', F + 'func_base.py'],
  [('derivatives', F + 'func.py:*.grad, *.hess'), ('derivative tensors', F + 'func_base.py:grad_tensor, hess_tensor')])
p('C05', 'Tennis score distributions are proper and their derivatives exact',
  'The probabilities of the scores of a tennis game, tie-break and set are non-negative, and adding the probabilities of the two players at complementary skills gives exactly one. Their reported gradients and Hessians are the exact first and second derivatives of the probabilities, entry by entry, with one trailing score axis after the axes of the parameter.',
  ['inputs'], 'every probability of winning a point, game or tie-break strictly between 0 and 1, every shape of the parameters',
  'tests check one-axis parameters at some points by finite differences.',
  [F + 'tennis.py'], [('closed forms and derivatives', F + 'tennis.py:Game, TieBreak, Set')])
p('C06', 'Markov score models conserve mass and have exact derivatives',
  'The score distribution produced by the Markov matrix and Markov vector models sums to one for every cell of the parameters, for every size, number of steps and skew. The gradient and Hessian they report are the exact first and second derivatives of that distribution with respect to both intensities, and collapsing a score matrix onto conditions sums exactly the cells that satisfy each condition, with exact derivative.',
  ['inputs', 'configurations'], 'every pair of intensities allowed by the preconditions, every size, number of steps, skew and list of conditions',
  'tests compare stored numbers for one size and number of steps, and never pass conditions; the guarantee is an induction over the steps.',
  [F + 'matrix.py'], [('forward recursion with derivatives', F + 'matrix.py:MarkovMatrix.eval, MarkovVector.eval'), ('masks', F + 'matrix.py:CollapseMatrix')])
p('C07', 'Combining functions preserves exactness of the derivatives',
  'If the parts report exact derivatives, then so does every combination of them: scaling and shifting, composition with any number of inner functions, re-indexing of parameters and axes, weighted sums, products and axis collapses report exactly the first and second partial derivatives of the combined value with respect to every parameter. This includes parameters that are shared, repeated, given in any order or not used by a part, and parts that have no second derivative.',
  ['inputs', 'configurations', 'programs'], 'every tree of combinations, every assignment of parameters and axes to parts, every value',
  'tests use a few fixed trees with increasing parameter maps and check stored numbers or finite differences at one point.',
  [F + 'func_base.py', F + 'func_op.py'], [('chain rule', F + 'func_base.py:Compose, Affine'), ('sum and product rules', F + 'func_op.py:Sum, Product, FuncWrap, Collapse')])
p('C08', 'One-pass evaluation agrees with separate value, gradient and Hessian',
  'Evaluating any function in one pass returns the same value, the same gradient for every parameter and the same lower-triangular Hessian blocks as asking for value, gradient and Hessian separately. This holds for every elementary function and for every combination of functions.',
  ['inputs', 'configurations', 'programs'], 'every function, every tree of combinations, every parameters',
  'the one-pass evaluation is a second implementation of every derivative; the tests call only one of the two for most functions.',
  [F + 'func_base.py', F + 'func_op.py', F + 'matrix.py', F + 'func.py', F + 'sigmoid.py', F + 'func_proba.py'],
  [('one-pass evaluation', F + '*.py:eval'), ('default evaluation', F + 'func_base.py:FuncMeta')])
p('C09', 'Combined functions have the algebraic value their construction states',
  'The value of a scaled and shifted function, a weighted sum, a product, a composition, a re-indexed or collapsed function is the corresponding arithmetic on the values of the parts, placed on the stated result axes and reading the stated parameters. Adding a combination to another of the same kind, which is flattened internally, gives the same value as evaluating the nested combination.',
  ['inputs', 'configurations', 'programs'], 'every tree of combinations, weight, constant, parameter and axis assignment',
  'tests build a few flat sums with unit weights; nesting, weights of shifted parts and permuted axes are not sampled.',
  [F + 'func_base.py', F + 'func_op.py'], [('operators', F + 'func_base.py:Func.__add__ etc.'), ('flattening', F + 'func_op.py:Sum.add, Product.add')])
M = 'maxlike/maxlike.py'
B = 'maxlike/maxlike_base.py'
p('C10', 'Gradient and Hessian of every log-likelihood are exact',
  'For each of the six models (Poisson, zero-inflated Poisson, logistic, finite, normalized finite, negative binomial) the reported gradient and Hessian are the exact first and second derivatives of the log-likelihood the model reports, for any regression function whose own derivatives are exact.',
  ['inputs', 'configurations'], 'every data set, every regression function, every model hyper-parameter, every parameter value in the domain',
  'tests fit single data sets and compare fitted numbers at 1e-8; a wrong Hessian that still converges passes, and only cross-checked at one point.',
  [M], [('likelihood derivatives', M + ':*.grad_like, *.hess_like')])
p('C11', 'The reported log-likelihood is the log-probability of the data',
  'For each model, the reported log-likelihood of a cell observed once equals the logarithm of the probability mass the documented distribution gives to the observation; and for the finite models it is the count-weighted sum of the logarithms of the (normalized) probabilities.',
  ['inputs'], 'every observation, rate and hyper-parameter in the domain',
  'tests only use the fitted parameters and never compare with the mass function.',
  [M], [('log-likelihoods', M + ':*.like')])
p('C12', 'Flat and shaped parameter forms convert without loss or mixing',
  'Writing a flat vector of free values into the parameters and reading the free values back returns the same vector in the same order, and leaves every fixed entry at its value. Matrices over the free values are cut into one block per pair of parameters, whose free entries are exactly the corresponding entries of the matrix and whose fixed entries are the filler.',
  ['inputs', 'configurations'], 'every number of parameters, shape, pattern of fixed entries and values',
  'tests fix at most the first entry of one vector.',
  [B], [('conversion', B + ':MaxLike._reshape_array, _reshape_params, _reshape_matrix'), ('free entries', B + ':Param.compressed, count')])
p('C13', 'A successful fit never ends below the objective it started from',
  'Each accepted step of a Newton fit has an objective that is not lower than before the step, so a Newton fit that reports success stores parameters whose objective is at least the initial one. With either method a fit that reports success stores the parameters it ended with, with the fixed entries unchanged and a last relative change of the objective within the tolerance, and flags convergence. A fit that does not converge raises an error, leaves the stored parameters untouched and flags no convergence, and never performs more than the allowed number of steps.',
  ['inputs', 'histories'], 'every model, data set, starting point, tolerance and maximum number of steps',
  'tests run converging fits only; the property is an invariant of the iteration.',
  [B], [('Newton iteration with step halving', B + ':MaxLike.fit')])
p('C14', 'Flat gradient and Hessian are those of the penalised, constrained objective',
  'The flat gradient holds, in order, the derivatives of the log-likelihood minus the penalties with respect to each free parameter entry, followed by the values of the constraints; the flat Hessian is the symmetric matrix of the second derivatives bordered by the gradients of the constraints. Fixed entries contribute no row or column, and a constraint or penalty may act on any parameters in any order.',
  ['inputs', 'configurations'], 'every number and shape of parameters, pattern of fixed entries, list of constraints and penalties',
  'tests fit with one constraint and one penalty and compare fitted values only.',
  [B], [('assembly', B + ':MaxLike.flat_grad, flat_hess'), ('objective', B + ':MaxLike.g')])
C = F + 'copula.py'
p('C15', 'Copula joint distributions have the given marginals',
  'The joint distribution built by each copula from two unnormalized marginals sums along either axis to the other normalized marginal, so that it sums to one, and has no negative entry. A copula at its independence setting returns the outer product of the marginals.',
  ['inputs'], 'every pair of non-negative marginals with positive first entry and sum, every leading axes, every admissible dependence parameter',
  'tests use one pair of marginals with stored results, and check the marginals for that pair only.',
  [C], [('differences of the copula', C + ':copulaWrap'), ('copula formulas', C + ':Gaussian, Clayton, Gumbel, Frank, AkiMikhailHaq')])
S = 'maxlike/skellam.py'
p('C16', 'Poisson and Skellam tail probabilities, their derivatives and inverses agree',
  'The truncated Poisson and Skellam cumulative probabilities are the sums of the mass functions over the stated region, and the derivatives returned with them are their exact derivatives with respect to the rates. Each inverse returns rates whose own cumulative probability matches the target within the tolerance, and otherwise raises an error after a bounded number of steps; a target outside the open unit interval always raises.',
  ['inputs'], 'every rate, bound, target and tolerance in the domain',
  'tests invert two targets; termination and error behaviour of the loops were never exercised and were broken.',
  [S], [('truncated sums', S + ':poisson_vector, skellam_frame, skellam_cdf'), ('damped Newton inverses', S + ':*_root')])
R = 'maxlike/preprocessing.py'
p('C17', 'Preprocessing aggregates every observation exactly once',
  'The arrays produced from a series or table of observations hold in each cell the aggregate of exactly the observations whose labels are the labels of that cell, in the order of the returned axes, and zero in cells without observations, also for labels that were only added. Counting indicators put each observation into exactly one column: the one of its value, or the last one if it does not fit.',
  ['inputs', 'configurations'], 'every set of labels, order and repetition of observations, weights, added labels and number of columns',
  'tests use balanced tables in sorted order.',
  [R], [('grouping', R + ':prepare_series, prepare_dataframe'), ('indicators', R + ':df_count')])
p('C18', 'Information criteria and standard errors follow their formulas',
  'Akaike and Bayesian criteria equal their documented formulas in the number of free parameters less the constraints, the sample size and the mean log-likelihood. The reported covariance is the parameter block of the inverse of the negated (bordered) Hessian, the standard errors are the square roots of its diagonal, and both are laid out entry by entry over the parameters.',
  ['inputs', 'configurations'], 'every fitted model, number of constraints, fixed entries and extra parameters',
  'tests pin numbers for models with exactly one constraint.',
  [B], [('criteria', B + ':akaine_information_criterion, bayesian_information_criterion'), ('errors', B + ':error_matrix, std_error')])
p('C19', 'Operations never change their operands',
  'No operation on tensors, functions, parameters or models changes the numbers held by the tensors, parameters, arrays or observations passed to it, and repeating an operation on the same operands gives the same result. Tensors and parameters refuse assignment of attributes and of entries.',
  ['inputs', 'histories'], 'every operation, every operand, every sequence of operations',
  'tests use results once; aliasing shows only when an operand is reused after the operation.',
  [T, B, F + 'func_op.py', F + 'matrix.py', C], [('frozen values', T + ':Tensor.__init__, BaseTensor.__setattr__'), ('frozen parameters', B + ':Param')])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
