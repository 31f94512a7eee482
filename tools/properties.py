T5 = ('The tests compare first-order policy matrices of five fixed example models; ')

prop('P18', 'A solution is only returned under the Blanchard-Kahn conditions',
     'A linear model is solved only if the number of generalised eigenvalues outside of the unit circle (infinite ones included) equals the number of '
     'forward-looking variables and the block of the unitary matrix that belongs to them has full rank; otherwise, and when the static variables are not '
     'identified, solving raises the identification error, every time it is tried. A model that meets the conditions is never rejected by them.',
     'every Jacobian, every classification of variables, every ordering of eigenvalues, first and repeated attempts', ['inputs', 'histories'],
     T5 + 'all of them satisfy the conditions, so neither a rejection nor a repeated attempt is ever exercised.',
     ['core/solve/statespace.py', 'core/solve/first_order.py', 'utils/numpy.py'],
     [('gate of the solver', 'core/solve/statespace.py:StateSpace.verify'), ('ordered and partitioned QZ', 'utils/numpy.py:partitioned_qz'),
      ('solver', 'core/solve/first_order.py:solve_first_order')],
     ['Model.solve', 'Model.statespace'])

prop('P19', 'First-order policy matrices solve the linearised model',
     'For every model the structural matrices, the partition of the ordered generalised Schur form, and the first-order policy matrices of static, backward, '
     'mixed and forward variables and of the shocks are those of the solution of the linear rational expectations system given by the model\'s Jacobian '
     '(Villemot, 2011), with rows in the decision-rule order.',
     'every Jacobian and every combination of static, backward-looking, mixed and forward-looking variables, none of a kind included', ['inputs'],
     T5 + 'other combinations of variable types (no static, no mixed, only mixed, no backward variables) are not reached.',
     ['core/solve/statespace.py', 'core/solve/first_order.py', 'utils/numpy.py'],
     [('structural state space', 'core/solve/statespace.py:_compute_structural_state_space'), ('solver', 'core/solve/first_order.py:solve_first_order')],
     ['Model.solve(order=1).gy', 'Model.solve(order=1).gu'])

prop('P20', 'Second-order policy arrays solve the second-order perturbation system',
     'The second-order policy arrays (with respect to state pairs, state-shock pairs, shock pairs, and the correction for risk) are those of the solution of '
     'the second-order perturbation equations given by the model\'s Jacobian, Hessian, first-order solution and shock covariance, each with the one half of '
     'the expansion where the documentation says so. A model without forward-looking variables or with a single shock or state is no exception.',
     'every Jacobian, Hessian, classification of variables, number of states and shocks', ['inputs'],
     'The tests do not look at second-order solutions at all. ',
     ['core/solve/second_order.py', 'utils/numpy.py'],
     [('solver', 'core/solve/second_order.py:solve_second_order'), ('Kronecker product helper', 'utils/numpy.py:matrix_kronecker_product')],
     ['Model.solve(order=2).ghxx', 'ghxu', 'ghuu', 'del2'],
     note='The generalised Sylvester solver is uninterpreted: the equation handed to it is decided, its iteration is not. ')

prop('P21', 'Simulated paths follow the solved decision rule',
     'A simulated path starts at the steady state (or the given initial values) and from there on applies, period by period, the first- or second-order decision '
     'rule to last period\'s states and the innovation. The innovations, drawn or given, have the covariance of the model\'s '
     'shocks, and the path comes in levels and in declaration order, whether the model is solved on request or was before.',
     'every solution, number of periods, initial value, shock path, variable order', ['inputs'],
     T5 + 'no path is ever simulated.',
     ['simul.py', 'core/solve/base.py', 'utils/numpy.py'],
     [('simulation', 'simul.py:simulate'), ('first-order recursion', 'simul.py:LinearSimulator._simulate_first_order'),
      ('second-order recursion', 'simul.py:LinearSimulator._simulate_second_order'), ('shocks', 'simul.py:_generate_simul_shocks')],
     ['simulate(model).paths'])

prop('P22', 'Impulse responses are the solved response to one impulse',
     'The impulse response to a named shock (the first one by default) is the deviation from the steady state, over the periods asked for, of the path of the solved model when that '
     'shock, and no other, has the given size in standard deviations in the first period; the result reports the size and the number of periods.',
     'every solution, shock, size and number of periods', ['inputs'],
     T5 + 'no impulse response is ever computed.',
     ['impulse.py', 'simul.py', 'core/variables.py'],
     [('impulse response', 'impulse.py:impulse_response'), ('label lookup', 'core/variables.py:VarArray.get_loc')],
     ['impulse_response(model).impulse'])

prop('P24', 'Theoretical moments are those of the state space form of the solution',
     'Mean, variance, standard deviation, covariance, correlation, autocovariance and autocorrelation of the variables are the population moments implied '
     'by the first-order transition and observation equations of the solution and the covariance of the shocks (with the risk correction of the mean at second order), in '
     'declaration order, whether or not the model was solved before, and whether asked for directly or through the statistics interface of the model.',
     'every solution of first and second order, every number of lags', ['inputs'],
     T5 + 'no moment is ever computed.',
     ['stats/moments.py', 'stats/stats.py', 'core/solve/statespace.py'],
     [('moments', 'stats/moments.py:autocov'), ('state variance', 'core/solve/statespace.py:StateSpace.sigma'), ('interface', 'stats/stats.py:ModelStatistics')],
     ['Model.stats'])

prop('P25', 'The variance decomposition shares out each variance to the shocks',
     'The entry of the decomposition for a variable and a shock is the share of the variance of the variable that the orthogonalised shock alone '
     'produces, so that each row sums to one; selected variables and shocks come in the order asked for, and a name that does not exist is an error.',
     'every solution, number of shocks and selection', ['inputs'],
     T5 + 'the decomposition is never computed.',
     ['stats/var.py'], [('decomposition', 'stats/var.py:var_decomp')], ['Model.stats.var_decomp', 'var_decomp'])

prop('P01', 'Every expression is evaluated to its mathematical meaning',
     'Evaluating an expression gives, for every kind of node, the value of the operator, comparison, sign or function applied to the values of its '
     'parts; a variable has the value its scope gives to it, and one the scope does not know is an error instead of a value. The same meaning holds for '
     'free-standing expressions, parameter definitions, and steady-state and dynamic model equations, where leads and lags select the value '
     'of their period and an equation stands for its left minus its right side. A function that is not supported never silently gives a value.',
     'every expression (by induction over its nodes) and every scope', ['inputs'],
     'The tests evaluate a dozen expressions; most functions, comparisons, signs and missing names are not among them. ',
     ['parsing/base.py', 'parsing/api.py', 'core/expressions.py', 'core/variables.py'],
     [('evaluator', 'parsing/base.py:_BaseEvaluator'), ('interface', 'parsing/api.py:evaluate'), ('model functions', 'core/expressions.py:DynamicFunc'),
      ('parameters', 'core/variables.py:evaluate_parameter')],
     ['evaluate', 'Model.params', 'Model.steady_repr', 'Model.dynamic_repr'])

prop('P09', 'Parameters defined through others get the values their definitions imply',
     'Whatever the order in which parameters are written down, a parameter whose definition refers to other parameters has the value of its definition '
     'at the values of those parameters, through any chain of references; the definitions are evaluated in an order in which each comes after the ones it refers to, '
     'and definitions that go round in a circle are an error rather than a value. The values the model shows, and those its equations and steady state are evaluated at, are the same.',
     'every set of definitions and every order of writing them down', ['inputs'],
     'The tests calibrate models whose parameters are, but for one or two, numbers written in order; chains of definitions in other orders and circles are never tried. ',
     ['core/variables.py', 'core/generic.py'],
     [('order of evaluation', 'core/variables.py:order_precedence'), ('calibration', 'core/variables.py:ModelCalibration'), ('values', 'core/variables.py:solve_calibration')],
     ['Model.params', 'Model.calibration'])

prop('P12', 'What a model gives follows its current definition',
     'After any history of additions of variables, parameters, equations and shocks through the methods of a model (and of changes of parameter values), whether or not '
     'its quantities were looked at before, the variables, incidence, classification, steady and dynamic representations, derivatives, '
     'covariance, state space, steady state and solutions that the model gives are those of a model defined that way from the start.',
     'every order of definitions, changes and uses', ['histories', 'inputs'],
     'The tests define each model once and never change it; the property is about every order of changes and uses. ',
     ['core/generic.py', 'core/model.py', 'core/expressions.py', 'core/variables.py'],
     [('invalidation and rebuild', 'core/generic.py:DynamicModel.update, add_*'), ('solution', 'core/model.py:Model.update, solution'),
      ('calibration', 'core/variables.py:ModelCalibration')],
     ['the public attributes of Model'],
     technique='abstract interpretation of histories of public calls over an abstract heap, and relational comparison of the normal forms of what is observed')

prop('P13', 'A copy of a model is the same model, and a separate one',
     'The copy of a model gives the same quantities as the model (definition, boundary values, shocks, local parameters, representations, solutions), '
     'whatever was changed before, and later changes of one never show in the other.',
     'every model and history of changes', ['histories', 'inputs'],
     'No test copies a model and changes one of the two. ',
     ['core/generic.py', 'core/model.py'],
     [('copy', 'core/generic.py:DynamicModel.copy, _copy_arguments'), ('copy', 'core/model.py:Model._copy_arguments')],
     ['Model.copy'],
     technique='abstract interpretation over an abstract heap with aliasing, and relational comparison of the normal forms of what is observed')

prop('P14', 'Models share nothing with each other or with their arguments',
     'Changing a model never changes another model, defined by default or from the same arguments before or after, nor the arguments that it was defined from.',
     'every history of definitions and changes', ['histories'],
     'Tests define models from separate files and compare numbers of one model at a time; sharing only shows across models. ',
     ['core/generic.py', 'core/model.py', 'core/variables.py', 'core/expressions.py'],
     [('construction', 'core/model.py:Model.__init__'), ('parameters', 'core/variables.py:ModelCalibration'), ('equations', 'core/expressions.py:ModelExprs')],
     ['Model(...)'],
     technique='abstract interpretation over an abstract heap with aliasing (default values of parameters are locations), and relational comparison of normal forms')

prop('P15', 'Variables are classified by their leads and lags and ordered consistently',
     'A variable is static, purely backward, mixed or purely forward according to whether it appears with a lag and with a lead in any equation; the '
     'index sets, counts and masks built on this classification are mutually consistent, the decision-rule order is static, backward, mixed, forward, each '
     'in declaration order, its inverse restores the declaration order, and the lead-lag incidence array numbers the appearances column by column.',
     'every incidence array, every number of endogenous and exogenous variables', ['inputs'],
     T5 + 'these contain a few combinations of kinds of variables only, and never look at the order itself.',
     ['core/variables.py', 'core/generic.py'],
     [('classification', 'core/variables.py:VariableTyper'), ('indexes', 'core/variables.py:VariableIndexManager'), ('incidence', 'core/variables.py:TimedLLX')],
     ['Model.indexes'])

prop('P28', 'Sample moments of a simulation are those of its paths',
     'The correlations and autocorrelations of a simulation are the sample moments of the simulated paths after the dropped periods, for every lag asked for, with '
     'the lag one array relating each period to the one before.',
     'every path, number of dropped periods and of lags', ['inputs'],
     T5 + 'no simulation is ever made.',
     ['simul.py'], [('moments', 'simul.py:ModelSimulation.autocorr')], ['simulate(model).corr', 'simulate(model).autocorr'])

prop('P16', 'Model functions and derivatives are those of the equations',
     'The function of an equation gives left-hand side minus right-hand side at the values of its own endogenous variables and shocks, in the order of its '
     'signature (steady-state version: current values, no shocks), and rejects any other number of arguments. The rows of the Jacobian and Hessian are the first and '
     'second derivatives of the functions of the equations, in the order of the equations, at the steady state repeated in incidence order and zero shocks.',
     'every expression tree, incidence of variables and parameter value', ['inputs'],
     'The tests evaluate none of the functions or derivatives of a model. ',
     ['core/expressions.py', 'core/linearizing.py', 'parsing/base.py'],
     [('functions', 'core/expressions.py:dynamic_func'), ('representation', 'core/expressions.py:DynamicRepr'), ('Jacobian', 'core/linearizing.py:ModelJacobian'),
      ('substitution', 'parsing/base.py:_ASTSubstitution')],
     ['model.dynamic_repr.func_list', 'model.steady_repr.func_list', 'model.jacobian', 'model.hessian'],
     note='The numerical differentiation library is uninterpreted: what it is asked to differentiate, at which point, is decided. ')

prop('P17', 'Leads and lags are the periods at which variables appear',
     'The leads and lags recorded for an endogenous variable are exactly the periods at which it appears anywhere in any equation of the model, whatever the place in '
     'the expression, and nothing for a variable that does not appear.',
     'every expression tree, every set of equations', ['inputs'],
     T5 + 'variables with leads or lags under a function, a unary minus or on the left-hand side are only met by accident.',
     ['core/variables.py', 'parsing/ast.py'],
     [('collection', 'core/variables.py:read_lead_lags'), ('visitor', 'core/variables.py:LeadLagCounter'), ('storing', 'core/variables.py:set_lead_lags')],
     ['model.endog[i].lead_lag', 'read_lead_lags'])

prop('P11', 'The covariance of the shocks is the one declared',
     'The covariance matrix of the shocks of a model has the declared variance (the square of a declared standard error) of each shock on its diagonal and the declared '
     'covariance, or the declared correlation times the standard deviations, for each declared pair in both places, whatever the order of the declarations and '
     'of the shocks, in a shocks block or in the moments handed to the model.',
     'every set of declarations and numbers', ['inputs'],
     'The tests only have uncorrelated shocks declared by standard error or variance. ',
     ['core/generic.py', 'core/variables.py', 'parsing/factory.py'],
     [('matrix', 'core/generic.py:DynamicModel._define_sigma'), ('variables', 'core/variables.py:_create_stoch_vars'), ('block', 'parsing/factory.py:visit_ShocksBlock')],
     ['model.sigma'],
     note='Known finding: a shock named first in several pairs of a block keeps only the pair declared last. ')

prop('P02', 'Expressions read mean what they say',
     'An expression of the model language is read with the usual precedence and associativity (parentheses, then unary signs and powers, then products and quotients, then sums and '
     'differences), calls the functions that it names, and takes each variable at the period written, so that the expression and the equations it makes up evaluate to '
     'that value at all values of its variables.',
     'every expression, every value of its variables and numbers', ['programs', 'inputs'],
     'The tests parse five fixed models and never evaluate an expression. ',
     ['parsing/parser.py', 'parsing/base.py', 'parsing/ast.py', 'parsing/api.py'],
     [('grammar', 'parsing/parser.py:BaseParser.expr'), ('evaluation', 'parsing/base.py:_BaseEvaluator'), ('texts', 'parsing/api.py:parse')],
     ['parse_string', 'Model equations given as text'],
     note='The reader is analysed over token kinds with symbolic payloads: all shapes of expressions up to a bound, with every number and value symbolic. ',
     technique='abstract interpretation of parser and evaluator over sequences of token kinds with symbolic payloads, and comparison of the value\'s normal form with that of a reference reading')

prop('P03', 'Malformed texts are rejected, well-formed ones accepted',
     'A text that the grammar of the model language does not derive (a missing operand, parenthesis, semicolon, keyword or block end, a misplaced token) is rejected with the '
     'syntax error of the library, wherever the fault is, and never read as another model; a text that the grammar derives is never rejected.',
     'every sequence of tokens', ['programs'],
     'The tests have no malformed text. ',
     ['parsing/parser.py', 'parsing/lexer.py'],
     [('grammar of expressions', 'parsing/parser.py:BaseParser'), ('grammar of files', 'parsing/parser.py:DynareParser'), ('expected token', 'parsing/parser.py:BaseParser.eat')],
     ['Model.from_path', 'parse_string'],
     technique='abstract interpretation of the recursive-descent parsers over token kinds, comparing the set of outcomes (tree or kind of error) with a reference grammar')

prop('P10', 'A model file yields the model that it describes',
     'The model built from a file has the declared variables, shocks and parameters in order, the equations of its model block, the parameter values assigned, the '
     'values of its initval, endval and histval blocks as its initial, terminal and historical values, and the moments of its shocks block, whatever the '
     'order and presence of the blocks and the helper variables of the model block.',
     'every well-formed file, every number in it', ['programs', 'inputs'],
     'The tests look at the policy matrices of five fixed files only. ',
     ['parsing/parser.py', 'parsing/factory.py', 'core/model.py', 'core/variables.py', 'core/generic.py'],
     [('file parser', 'parsing/parser.py:DynareParser'), ('model factory', 'parsing/factory.py:DynareModelFactory'), ('model', 'core/model.py:Model.from_outline')],
     ['Model.from_path', 'parse_string'],
     technique='abstract interpretation of the whole reader from tokens to model, and comparison of the model\'s normal form with that of a reference reading of the file')

prop('P23', 'A model shows the solution asked for, of the current model',
     'The solution of a model is the one of the order last asked for (of the default one when none was), the first-order solution is always of the first order, and both belong to the '
     'current equations and parameters: solving, looking and changing the model in any order never makes an outdated solution or one of another order appear, and '
     'a rejected order changes nothing.',
     'every history of solving, looking and changing', ['histories'],
     'The tests solve each model once, at first order. ',
     ['core/model.py'],
     [('solve', 'core/model.py:Model.solve'), ('solution', 'core/model.py:Model.solution'), ('order', 'core/model.py:Model.solution_order'), ('first order', 'core/model.py:Model.first_order_solution')],
     ['Model.solve', 'Model.solution', 'Model.first_order_solution', 'Model.solution_order'],
     technique='abstract interpretation of method sequences over an abstract heap (typestate of the solution), and comparison of the normal forms shown')

prop('P04', 'Texts are split into the tokens of the language',
     'A text is split into the longest names, reserved words, numbers, quoted texts and symbols it is made of, each with its value and the line it stands in; blanks and comments (to the end of '
     'the line, or enclosed) only separate them. Characters that belong to no token, and quoted texts or comments without an end, are rejected, and '
     'reading a text always ends.',
     'every text', ['programs'],
     'The tests read five fixed files, without strange characters, unclosed comments or errors. ',
     ['parsing/lexer.py', 'parsing/api.py'],
     [('lexer', 'parsing/lexer.py:BaseLexer.next_token'), ('comments', 'parsing/lexer.py:DynareLexer'), ('names', 'parsing/lexer.py:BaseLexer._id'), ('numbers', 'parsing/lexer.py:BaseLexer._number')],
     ['parse_string', 'Model.from_path', 'line reported by a PynareSyntaxError'],
     note='Texts are sequences of character classes (any letter, digit, blank, other sign); all short sequences and many longer ones are covered. ',
     technique='abstract interpretation of the lexers over character classes, with detection of rounds of a loop that change nothing (divergence)')

prop('P07', 'Ill-formed models are rejected on purpose, well-formed ones are not',
     'A file that uses an undeclared name, declares a name twice, assigns to a variable that is no parameter, takes a parameter at another period, gives a boundary value '
     'to a variable that is not endogenous or a moment to one that is not a shock, or needs a value never assigned, is rejected with the error made for '
     'it, and never read as another model. A file that does none of this is read as the model it describes.',
     'every file that follows the grammar', ['programs'],
     'The tests have no ill-formed model. ',
     ['parsing/semantics.py', 'parsing/factory.py'],
     [('declarations', 'parsing/semantics.py:DynareSemanticAnalyzer'), ('values', 'parsing/factory.py:DynareModelFactory')],
     ['Model.from_path'],
     technique='abstract interpretation of the whole reader over token kinds, comparing the kinds of outcome with a reference of the rules')

prop('P06', 'The steady state is searched for as the root of the equations',
     'The search for the steady state minimizes the sum of the squared residuals of the current equations, with every variable at its steady value and the current parameters, starting at '
     'the initial values given (zero for the others), by the algorithm and with the options asked for; unknown algorithms are rejected. The values shown are those found, '
     'in the order of declaration.',
     'every model, parameter value, initial value and option', ['inputs', 'programs'],
     'The tests compare the steady states of fixed models with stored numbers, with the default algorithm. ',
     ['core/steady.py', 'core/model.py', 'core/expressions.py'],
     [('search', 'core/steady.py:SteadyState.compute'), ('objective', 'core/steady.py:_define_simple_least_squares'), ('algorithms', 'core/steady.py:_SteadyStateManager')],
     ['Model.steady_state', 'Model.ss', 'Model.steady'],
     note='What the optimizer of scipy makes of the objective is not analysed. ',
     technique='abstract interpretation of the search with scipy\'s optimizer uninterpreted; comparison of the normal forms of objective, start and options at an arbitrary point and at concrete ones')

prop('P27', 'Summaries show each value beside the names that it belongs to',
     'The printed summaries of models, statistics and solutions show each number in the row and column of the names that it belongs to, with the digits asked for: steady state, policy '
     'coefficients of both orders, moments, correlations, variance decomposition, eigenvalues, shocks and parameters. Only the parts asked for are shown, unknown parts are rejected, and '
     'rows are left out only if all their magnitudes are below the threshold.',
     'every model structure, every value and option of the summaries', ['inputs', 'programs'],
     'The tests print no summary. ',
     ['io/summary.py', 'core/solve/first_order.py', 'core/solve/second_order.py', 'stats/stats.py', 'core/model.py'],
     [('models', 'io/summary.py:ModelSummary'), ('statistics', 'io/summary.py:ModelStatisticsSummary'), ('first order', 'io/summary.py:FirstOrderSummary'),
      ('second order', 'io/summary.py:SecondOrderSummary')],
     ['Model.summary', 'FirstOrderSolution.summary', 'SecondOrderSolution.summary', 'ModelStatistics.summary'],
     note='Models of two to five variables and one to three shocks of every kind of timing; the numbers of blanks are not analysed. ',
     technique='abstract interpretation of the summaries of finite families of model structures with symbolic coefficients; the text is cut into words and formatted values and compared with the table of the names')

prop('P29', 'A model made from a path is the one written in that file',
     'A path yields the model of the text of that file, read in the language of its ending and named after it, and the name of an example yields that example when no such '
     'file exists; anything else is rejected. It makes no difference whether the path is a text or a path object.',
     'every path, whatever files exist', ['inputs', 'configurations'],
     'The tests read fixed files whose names have one ending. ',
     ['core/model.py', 'io/files.py', 'examples/__init__.py'],
     [('paths', 'core/model.py:Model.from_path'), ('files', 'io/files.py:read_file'), ('examples', 'io/files.py:read_example')],
     ['Model.from_path', 'read_file', 'read_example'],
     note='Paths of a family that covers directories, missing, several and upper-case endings, examples and absent files. ',
     technique='abstract interpretation with a symbolic file system; comparison of file opened, text read and name given')

prop('P31', 'Variables, and the values given for them, are found by their names',
     'Looking up variables by names, by variable objects or by a mixture yields their places, in the order in which they were asked for; unknown names are rejected. '
     'Membership, selection and the groups of a model (state, forward, static, mixed variables and so on) hold the variables of those names, and the initial, terminal and '
     'historical values and the shocks given by name, in whatever order, or once for all, reach the variables of those names.',
     'every model and every name', ['inputs', 'programs'],
     'The tests look up a few names in one order. ',
     ['core/variables.py', 'core/generic.py'],
     [('lookup', 'core/variables.py:VarArray.get_loc'), ('values', 'core/generic.py:DynamicModel'), ('variables', 'core/variables.py:EndogVar')],
     ['VarArray.get_loc', 'EndogVar', 'StochVar', 'DetermVar'],
     note='One to eight variables of each type, names that are prefixes of each other or absent, every structure of up to three or four variables, values given for all, some or no variables. ',
     technique='abstract interpretation; comparison of the places, names and values derived with those of the names')

prop('P05', 'The steady state that is found solves the equations',
     'The steady state reported by a model leaves no residual in any of its equations, up to the tolerance of the search.',
     'every model that has a steady state', ['inputs', 'programs'],
     'The tests look at fixed models. ',
     ['core/steady.py'], [('search', 'core/steady.py:SteadyState.compute')], ['Model.steady_state'],
     na='whether an iterative minimization ends at a root depends on its numerical convergence, which no static argument in reach bounds; that the right objective is minimized from the right start is decided as P06')

prop('P08', 'Solutions are accurate to rounding',
     'The policy matrices that are computed satisfy the linearized equations up to a small multiple of the rounding error.',
     'every model with a unique stable solution', ['inputs'],
     'The tests compare five fixed models with stored solutions. ',
     ['core/linearizing.py', 'core/solve/first_order.py', 'core/solve/second_order.py'],
     [('first order', 'core/solve/first_order.py:FirstOrderSolver'), ('second order', 'core/solve/second_order.py:SecondOrderSolver')], ['Model.solve'],
     na='the rounding errors of QZ, Sylvester and least-squares routines depend on the conditioning of the matrices of each model; the formulas themselves are decided in exact arithmetic as P16, P19 and P20')

prop('P26', 'Occasionally binding paths satisfy their constraints',
     'A simulated path under occasionally binding constraints solves the equations of the regime of each period, and its guess of regimes agrees with the constraints.',
     'every model with constraints and every path of shocks', ['inputs', 'histories'],
     'The tests have no such constraint. ',
     ['core/solve/binding.py', 'core/regimes.py'], [('solution', 'core/solve/binding.py:OccBinSolution')], ['Model.solve', 'OccBinSolution'],
     na='the fixed point of guess and verify is a property of the numbers met at run time, and the part of the code is unfinished (it cannot be run on a model without constraint expressions); its parts that are shared with linear models are decided elsewhere')

prop('P30', 'Random shocks have the distribution described',
     'Shocks drawn for simulations have zero mean and the covariance matrix of the model.',
     'every covariance matrix and every state of the random generator', ['inputs'],
     'The tests draw no shocks. ',
     ['simul.py', 'impulse.py'], [('draws', 'simul.py')], ['simulate'],
     na='a statement about the distribution of draws of a library generator; how drawn shocks enter the simulated path is decided as P21')

prop('P32', 'Figures show the paths and responses',
     'The figures of simulations and impulse responses show the values computed, in one panel per variable.',
     'every model', ['inputs'],
     'The tests draw no figure. ',
     ['plotting'], [('plots', 'plotting/__init__.py')], ['plot'],
     na='what a figure shows is decided by the rendering of matplotlib, which is outside of the source of this project')
