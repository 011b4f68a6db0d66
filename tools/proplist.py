P("C01", "Finite-difference operators equal their declared stencils on every field",
  "For every field and every uniform grid, each finite-difference derivative or Laplacian operator of the symbolic-"
  "regression back ends returns at every grid node exactly the declared finite-difference approximation of the "
  "declared order along the declared axis, including the one-sided values at the ends of the axis. It never modifies "
  "its input and derivatives along one axis leave every other axis position independent.",
  ["inputs"], "all real field values, all positive uniform spacings and origins; grid sizes 4..12 per axis, 1-3 "
  "spatial axes, every operator and differentiation order offered",
  "tests evaluate a handful of operators on one smooth field; a wrong coefficient at one boundary node, a wrong axis "
  "or a sign is invisible there",
  ["kd/model/discover/task/pde/utils_fd.py", "kd/model/sga/sgapde/PDE_find.py", "kd/utils/utils_fd.py",
   "kd/utils/solver.py"],
  [("Diff/Diff2/Diff3/Diff4/Laplace", "kd/model/discover/task/pde/utils_fd.py"),
   ("FiniteDiff", "kd/model/sga/sgapde/PDE_find.py"), ("second/third order FD", "kd/utils/utils_fd.py")],
  observe=["return value of each operator"],
  note="Bounded: sizes as stated, real arithmetic (no rounding). Trusts z3, numpy's object-array semantics and the "
       "reference stencils in checks/fdref.py; numba is off in the symbolic run and on in replays.")

P("C02", "Dataset container pairs every sampled, sliced or loaded value with its own point",
  "Every way of getting data out of a dataset container (random, uniform or spline sampling, full mesh, point "
  "access, range selection, derivative) returns values that belong to the coordinates they are returned with, in the "
  "requested amount, inside the domain, and leaves the stored data unchanged. A container is only created from "
  "arrays whose shapes match its axes, and loaders keep the (x, t) orientation of a file, square ones included.",
  ["inputs", "configurations"],
  "all field values, all increasing coordinate vectors and all random draws; grids up to 5x5 (thorough 7x6), every "
  "sample size",
  "tests draw one seed on one file; pairing errors appear for non-square grids, particular draws or boundary sizes",
  ["kd/dataset/_base.py", "kd/dataset/__init__.py", "kd/dataset/_info.py"],
  [("PDEDataset.sample/mesh/get_range/get_derivative", "kd/dataset/_base.py"), ("load_* loaders",
    "kd/dataset/__init__.py")],
  observe=["returned point/value arrays", "dataset attributes after the call", "constructor exceptions"],
  note="Bounded grid sizes; random generator replaced by an arbitrary one; spline interpolant uninterpreted "
       "(its fit quality is outside the claim).")

DNOTE = "Bounded: expression lengths and token libraries as stated per harness. Trusts z3 and the reference prefix-tree in " \
        "checks/disco.py; numba is off in the symbolic run and on in replays."

P("C03", "Adapters hand solvers the dataset's own values, correctly oriented",
  "For every dataset, the data bundle built for the solvers carries the dataset's own field, coordinate and parameter "
  "values in the declared axis order (time last where expected), with the true spacing, and no other values. Sampled or "
  "noisy subsets pair each value with its own point; ambiguous or inconsistent inputs are refused, and the dataset "
  "object is not modified.",
  ["inputs", "configurations"], "all field values and grids on 1-D to 3-D datasets up to 5 points per axis, axis orders, "
  "lhs axes, sampling draws",
  "tests use one symmetric dataset; swapped axes or spacings need unequal sizes and asymmetric values",
  ["kd/model/discover/adapter.py", "kd/model/sga/adapter.py", "kd/data.py"],
  [("DiscoverRegularAdapter/DiscoverSparseAdapter", "kd/model/discover/adapter.py"), ("SGADataAdapter", "kd/model/sga/adapter.py")],
  observe=["the data dict / context config given to the solver", "the dataset afterwards"],
  note="Bounded: grid sizes and axis orders as stated; time grids uniform unless stated. Trusts z3 and checks/c03.py reference.")

P("C04", "A token sequence denotes exactly one complete expression, everywhere",
  "Whatever token sequence is offered (by the policy, a string, a seed expression or the cache) the program built from "
  "it is the unique complete prefix expression it starts: surplus tokens are dropped, missing operands are filled with "
  "inputs, the token/arity counts agree and equal sequences share one program. Names, tokens and constants survive "
  "conversion to text, back, and pickling, and each library's tokens carry the declared name, arity and role.",
  ["inputs"], "all token sequences up to 6 tokens over mixed-arity libraries, all constant values and random draws",
  "tests build a few fixed traversals; truncation, padding or caching faults need unusual arities or repeated programs",
  ["kd/model/discover/program.py", "kd/model/discover/library.py", "kd/model/discover/functions.py"],
  [("from_tokens/_finish_tokens/from_str_tokens", "kd/model/discover/program.py"),
   ("Library", "kd/model/discover/library.py"), ("create_tokens", "kd/model/discover/functions.py")],
  state=[("Program.cache", "program per token string", "kd/model/discover/program.py")],
  observe=["Program.traversal", "Program.tokens", "Program.cache"], note=DNOTE)

P("C05", "Tree context shown to the policy is the true parent, sibling, ancestors",
  "At every step of sampling an expression, the parent, sibling, number of open slots and previous action reported to "
  "the policy, and the ancestor sets used by constraints, are those of the real prefix tree of the tokens chosen so "
  "far, for every row of the batch. The values recorded for earlier steps are not changed by later ones.",
  ["inputs", "histories"], "all prefixes of token sequences up to 7 tokens over mixed-arity libraries, batches of up to 2",
  "tests check one or two sequences; errors appear for particular arities, depths or second children",
  ["kd/model/discover/dso/subroutines.py", "kd/model/discover/task/task.py", "kd/model/discover/program.py"],
  [("parents_siblings/ancestors/get_position", "kd/model/discover/dso/subroutines.py"),
   ("HierarchicalTask.get_next_obs", "kd/model/discover/task/task.py")],
  observe=["observations passed to the policy"], note=DNOTE)

P("C06", "Grammar constraints forbid exactly the tokens that would violate them",
  "For every partial expression, each search constraint (child, sibling, descendant, uniqueness, inverse-operator, "
  "repetition, input-required, constants, derivative rules) masks a token if and only if choosing it next would break "
  "that rule; with several constraints active a token is allowed only if all allow it. The after-the-fact violation "
  "test of a constraint agrees with what its mask would have forbidden.",
  ["inputs", "configurations"], "all prefixes of up to 5 tokens over mixed libraries, for each constraint type and "
  "target set; joint masks of several constraints",
  "tests sample a few prefixes per constraint; a hole shows only in a particular tree position",
  ["kd/model/discover/dso/prior.py", "kd/model/discover/dso/subroutines.py"],
  [("RelationalConstraint/RepeatConstraint/...", "kd/model/discover/dso/prior.py"),
   ("jit_check_constraint_violation*", "kd/model/discover/dso/subroutines.py")],
  observe=["logit masks", "is_violated"], note=DNOTE)

P("C07", "Sampled expressions always complete within the declared length bounds",
  "Under a length constraint with a minimum and/or maximum, every expression the sampling loop can produce is complete "
  "and within the bounds, and at no step are all tokens forbidden. The constraint forbids a token only when choosing "
  "it would make the bounds unreachable, and the recorded observations and masks belong to the step they are stored for.",
  ["inputs", "histories"], "every choice sequence the masks allow, minima/maxima up to 6 (thorough 9), three libraries",
  "tests sample randomly; overrun or dead ends need specific arity sequences near the bound",
  ["kd/model/discover/dso/prior.py", "kd/model/discover/controller.py", "kd/model/discover/task/task.py"],
  [("LengthConstraint", "kd/model/discover/dso/prior.py"), ("Controller.sample_episodes",
    "kd/model/discover/controller.py")],
  observe=["sampled actions", "observations", "masks"], note=DNOTE)

P("C08", "Evaluating an expression gives its mathematical value on every field",
  "Executing any complete expression over operators, derivatives, fields, coordinates, parameters and constants gives "
  "at every grid node exactly the value of that expression tree, on 1-D and N-D fields, repeatably and without "
  "changing the stored data. The torch back end computes the same tree with true autograd derivatives, and the "
  "physics residual of the PINN is u_t minus exactly the fitted linear combination, term by term.",
  ["inputs"], "all expressions up to 3-6 tokens per operator family, all field, coordinate and parameter values on small "
  "grids, all fitted coefficients",
  "tests execute one or two expressions; operand order, axis choice or broadcasting is wrong only for others",
  ["kd/model/discover/functions.py", "kd/model/discover/execute.py", "kd/model/discover/stridge.py",
   "kd/model/discover/pinn.py"],
  [("create_tokens", "kd/model/discover/functions.py"), ("python_execute/python_execute_torch",
    "kd/model/discover/execute.py"), ("calculate_RHS", "kd/model/discover/stridge.py")],
  observe=["return value of Program.execute / STRidge.evaluate_terms / calculate_RHS"],
  note="Bounded: expression lengths, operator sets and grids as listed in the evidence. Transcendental functions and "
       "torch autograd are uninterpreted functions; the difference operators are decided in C01.")

P("C09", "The reported equation is the least-squares fit of exactly its own terms",
  "For every expression, the fitted columns are the values of its maximal summands in order (then default terms, then "
  "the optional constant), the coefficients are the least-squares answer for these columns and the returned prediction "
  "is their combination; a term with a negligible or huge coefficient makes the expression invalid. The equation that "
  "is printed pairs each term with its own coefficient, and forbidden terms (no field under a derivative, over-deep) "
  "are rejected.",
  ["inputs"], "all expressions up to 4-9 tokens, all data values, every answer of the least-squares routine, with and "
  "without constant, repeated calls",
  "tests fit a couple of expressions; term/coefficient mispairing needs nested sums, defaults or dropped constants",
  ["kd/model/discover/stridge.py", "kd/model/discover/program.py", "kd/model/discover/task/pde/pde.py"],
  [("STRidge.split_forest/evaluate_terms/calculate", "kd/model/discover/stridge.py"),
   ("str_expression/funcion_expression", "kd/model/discover/program.py")],
  observe=["STRidge.calculate result", "Program.str_expression", "Program.funcion_expression"], note=DNOTE)

P("C10", "The elite memory keeps the best distinct programs with their own data",
  "After every push the elite queue holds, up to its capacity, the highest-scoring distinct programs offered so far, "
  "each once and with its own score and its own sampled data; only the lowest scores are ever dropped. The best, the "
  "worst, ordered iteration, popping and sampled batches return stored rows whose fields all belong to one program.",
  ["histories", "inputs"], "every sequence of up to 4 (5) pushes over up to 4 (5) programs, every capacity, all scores, "
  "all random draws",
  "tests push a few items in one order; eviction and duplicate errors need particular orders, ties or a full queue",
  ["kd/model/discover/dso/memory.py"],
  [("UniquePriorityQueue.push/pop/iter_in_order", "kd/model/discover/dso/memory.py"),
   ("ProgramQueueMixin.push_batch/sample_batch", "kd/model/discover/dso/memory.py")],
  state=[("heap, unique_items", "stored programs and duplicate register", "kd/model/discover/dso/memory.py")],
  observe=["queue content after each operation", "batches returned"],
  note="Bounded: number of pushes, items and capacities as stated. Trusts z3 and the reference in checks/c10.py.")

P("C11", "The searcher trains on, remembers and reports the right programs",
  "In every search step exactly the valid programs at or above the requested reward quantile are kept, and every row "
  "handed to training (actions, observations, masks, length, reward) belongs to one of them. The reported best "
  "program, reward and expression belong together and are the best of the whole search; with a stability vote the "
  "candidate winning most tests is reported, and duplicate removal keeps one shortest program per value.",
  ["histories", "inputs"], "every batch of programs, all rewards and invalid flags, up to 3 steps and two searches, "
  "batches up to 3",
  "tests run one random search; pairing errors need invalid or equal-reward programs at particular batch positions",
  ["kd/model/discover/searcher.py", "kd/model/discover/ga_utils.py", "kd/model/discover/dso/memory.py"],
  [("Searcher.search_one_step/search", "kd/model/discover/searcher.py"), ("quantile_select",
    "kd/model/discover/searcher.py"), ("drop_duplicates", "kd/model/discover/ga_utils.py")],
  state=[("best_p, best_r, pq", "best program and elite memory", "kd/model/discover/searcher.py")],
  observe=["batches given to Controller.train_step", "search() result"],
  note="Bounded: batch sizes, steps and program pool as stated; the policy is an arbitrary sampler. Trusts z3; numba is off.")

P("C12", "Rewards rank programs by their declared fit measure",
  "The reward of a valid program is (1 - penalty*terms)/(1 + NRMSE) (or its unpenalised form) of the prediction "
  "against the task's own target, so a strictly smaller error never gets a smaller reward and a perfect fit is best; "
  "an invalid program gets the invalid reward and no error. Reported errors, success flag, coefficients and prediction "
  "come from that same single evaluation, on the data and parameter fields loaded into the task.",
  ["inputs"], "all targets and predictions of up to 3 points, all penalties 0..0.2, valid and invalid programs",
  "tests compare a few rewards; a wrong normalisation or penalty keeps them plausible",
  ["kd/model/discover/task/pde/pde.py", "kd/model/discover/task/pde/pde_pinn.py",
   "kd/model/discover/task/regression.py", "kd/model/discover/program.py"],
  [("PDETask.reward_function/evaluate", "kd/model/discover/task/pde/pde.py"),
   ("make_pde_metric", "kd/model/discover/task/pde/pde.py"),
   ("RegressionTask.reward_function", "kd/model/discover/task/regression.py")],
  observe=["reward_function/evaluate results", "task data after load_data"],
  note="Bounded: 2-3 data points. Real arithmetic, square roots exact; trusts z3.")

P("C13", "SGA candidate terms are always well-formed expression trees",
  "Every term the generator or a mutation produces is a proper tree: each operator has its own number of operands, every "
  "node below the root is the operand of exactly one operator, leaves are declared variables, and derivatives are taken "
  "only along allowed axes. Mutation always ends, keeps the root operator and the shape, and never changes the tables it "
  "draws from; prefix and infix text always describe the tree.",
  ["inputs", "histories"], "all random draws, trees of depth 2-3, 5 operator/variable tables, candidates of up to 2 (3) terms",
  "tests run one seeded search; a malformed tree needs a particular combination of draws",
  ["kd/model/sga/sgapde/tree.py", "kd/model/sga/sgapde/pde.py"],
  [("Tree.__init__/mutate", "kd/model/sga/sgapde/tree.py"), ("PDE.__init__/mutate/replace", "kd/model/sga/sgapde/pde.py")],
  state=[("tree", "levels of nodes with child and parent links", "kd/model/sga/sgapde/tree.py")],
  observe=["tree structure, preorder, inorder after construction and after each operation"],
  note="Bounded: depth and tables as stated. Random draws are solver choices. Trusts z3 and the walker in checks/sgaenv.py.")

P("C14", "An SGA candidate is scored on exactly the values of its own terms",
  "The matrix a candidate is fitted with holds the default terms followed by the true grid value of each of its terms; only "
  "terms that vanish, are undefined under the division guard or differentiate along the left-hand axis are dropped. Scoring "
  "changes no data, leaves no intermediate result behind and gives the same answer when repeated; the reported score, error "
  "and coefficients belong together and are never worse than plain least squares.",
  ["inputs", "histories"], "all field values on grids up to 4x2 / 3x3x1, all terms listed (every operator, depth 2-4), every "
  "answer of the regression routine, division modes default/legacy/guard, 1-4 columns and 1-4 thresholding rounds",
  "tests score a few terms once; a stale cache or an in-place write shows only for particular values or on the second use",
  ["kd/model/sga/sgapde/pde.py", "kd/model/sga/sgapde/PDE_find.py", "kd/model/sga/sgapde/config.py"],
  [("evaluate_mse", "kd/model/sga/sgapde/pde.py"), ("Train", "kd/model/sga/sgapde/PDE_find.py"),
   ("STRidge", "kd/model/sga/sgapde/PDE_find.py"), ("SolverConfig.divide", "kd/model/sga/sgapde/config.py")],
  state=[("node.cache", "intermediate values inside a tree", "kd/model/sga/sgapde/tree.py")],
  observe=["matrix and target given to Train", "returned score, coefficients, surviving terms", "problem data afterwards"],
  note="Bounded as stated; real arithmetic, log uninterpreted; residual exactly zero and coefficients exactly at the threshold "
       "are outside. Trusts z3 and the reference in checks/c14.py.")

P("C15", "The SGA population never loses its best candidate or mixes up scores",
  "At every generation the population has its declared size, is sorted, and each member carries the score of its own "
  "equation; members share no terms. Crossover and mutation only ever replace members by better-scoring evaluated candidates, "
  "so the best score never gets worse, and the equation and score reported at the end belong together and are the best seen.",
  ["histories", "inputs"], "all scores and draws, 2-3 members of 1-2 terms, each operation and 1 (2) whole generations",
  "tests run one seeded search; an aliasing or pairing slip needs particular scores and draws",
  ["kd/model/sga/sgapde/solver.py", "kd/model/sga/sgapde/pde.py"],
  [("SGA.__init__/cross_over/change/run/the_best", "kd/model/sga/sgapde/solver.py"),
   ("SGAPDE_Solver.run", "kd/model/sga/sgapde/solver.py")],
  state=[("eqs, mses", "population and scores", "kd/model/sga/sgapde/solver.py")],
  observe=["population after each operation", "run() result"],
  note="Bounded: sizes as stated; the score is an arbitrary function of the terms. Trusts z3.")

P("C16", "The equation SGA displays is the one it fitted",
  "The displayed equation (LaTeX in both notations, one-line report, structured details) reads back as exactly the fitted "
  "terms in order, each with its own signed coefficient; terms without a coefficient are left out and grouping is never "
  "ambiguous. The left-hand side names the fitted quantity and the reported prediction is the fitted combination.",
  ["inputs"], "every term of depth 3 (some 4) over the operators and 1-2 variables, all coefficients, 1-3 terms, 0-2 default terms",
  "tests compare a few strings; a lost bracket or shifted coefficient needs a particular nesting or a dropped term",
  ["kd/model/sga/sgapde/equation.py", "kd/model/sga/sgapde/pde.py"],
  [("sga_equation_to_latex", "kd/model/sga/sgapde/equation.py"), ("extract_equation_details", "kd/model/sga/sgapde/equation.py"),
   ("PDE.concise_visualize", "kd/model/sga/sgapde/pde.py")],
  observe=["rendered text read by an independent LaTeX reader", "details fields"],
  note="Bounded as stated; decimals are compared up to their printed precision. Trusts z3 and the reader in checks/c16.py.")

P("C17", "The SGA problem handed to the search is the dataset",
  "Every variable offered to the search (fields, axes, parameters, first derivatives) holds the dataset's own values under its "
  "own unique name, on the same grid as the left-hand side, which is the derivative of the target along the left-hand axis and "
  "is never offered itself. Settings, target and left-hand axis reach the solver unchanged, the dataset is not modified, and "
  "unusable grids or clashing names are refused.",
  ["inputs", "configurations"], "all field values on 2-D and 3-D grids of 3-5 points per axis, all axis orders listed, 1-2 fields, "
  "0-2 parameters, explicit or inferred target and axis, with and without edge deletion",
  "tests use one or two datasets; a swapped axis or name shows only for particular layouts",
  ["kd/model/sga/sgapde/context.py", "kd/model/sga/sgapde/naming.py", "kd/model/sga/adapter.py", "kd/model/kd_sga.py",
   "kd/model/sga/sgapde/config.py"],
  [("ProblemContext", "kd/model/sga/sgapde/context.py"), ("KD_SGA.fit_dataset", "kd/model/kd_sga.py"),
   ("SGADataAdapter.to_solver_kwargs", "kd/model/sga/adapter.py"),
   ("build/parse_derivative_key, resolve_field_name_conflicts", "kd/model/sga/sgapde/naming.py")],
  observe=["ProblemContext tables and arrays", "SolverConfig fields", "the dataset afterwards"],
  note="Bounded: grid sizes as stated; network-based derivatives are outside. Trusts z3 and checks/fdref.py.")

P("C18", "The fitted regression formula, its constants, score and predictions agree",
  "After KD_Discover_Regression.fit the named expression, the raw expression, the constants, the score and predict() describe "
  "one and the same program, fitted on exactly the user's X and y: evaluating the printed expression on the named columns gives "
  "predict(). Predictions on new data use that data only, and do not depend on other models fitted in between. Unusable inputs "
  "are refused.",
  ["inputs", "programs"], "every expression up to 3-4 (5) tokens, all data of 2 rows and 1-2 features, all constants and scores",
  "tests fit one toy data set; a swapped column name or stale constant needs a particular expression",
  ["kd/model/kd_discover_regression.py", "kd/model/discover/task/tabular/tabular_task.py", "kd/model/discover/program.py"],
  [("KD_Discover_Regression.fit/predict", "kd/model/kd_discover_regression.py"),
   ("_render_named_expression", "kd/model/kd_discover_regression.py"), ("TabularTask", "kd/model/discover/task/tabular/tabular_task.py")],
  observe=["fit() result", "predict()", "the expression read by an independent evaluator"],
  note="Bounded as stated; reward and search loop are arbitrary. Trusts z3.")

P("C19", "The policy is trained on the probabilities its expressions were sampled with",
  "Each token is drawn from the softmax of the network output plus the prior for that step, the network continuing from its own "
  "state and seeing the recorded observation. The training step evaluates the recorded tokens under exactly those distributions, "
  "up to each expression's length, and its objective is the stated policy-gradient, entropy and priority-queue combination.",
  ["inputs", "histories", "configurations"], "all logits, priors, rewards, draws and lengths; 1-2 expressions of 2-3 tokens over 3 tokens; LSTM "
  "and GRU, one and two layers, one-hot and embedded observations",
  "tests run one seeded batch; a wrong state, mask or length only changes numbers nobody knows",
  ["kd/model/discover/controller.py", "kd/model/discover/state_manager.py", "kd/model/discover/dso/memory.py"],
  [("Controller.sample_episodes/loop_fn", "kd/model/discover/controller.py"), ("Controller.make_neglogp_and_entropy/train_step",
   "kd/model/discover/controller.py"), ("HierarchicalStateManager.get_tensor_input", "kd/model/discover/state_manager.py")],
  state=[("cell_state", "recurrent state while sampling", "kd/model/discover/controller.py")],
  observe=["probabilities handed to the sampler", "recorded batch", "objective that is back-propagated"],
  note="Bounded as stated; the network is an arbitrary function, gradients themselves are PyTorch's. Trusts z3.")

P("C20", "User configuration reaches every component, on every set-up",
  "Each setting the user gives (dict, file or set_config) overrides exactly its own default and is handed to its component; the "
  "user's dict is not modified. Exactly the enabled priors and observations are built. Setting an estimator up again, for the "
  "same or another data set, gives the same components as a fresh estimator.",
  ["configurations", "histories"], "every nesting and override of two-level dicts, every on/off choice of 3-4 priors, every subset of sections, "
  "every sequence of 2-3 data sets of 1-3 dimensions",
  "tests set one estimator up once; state left by an earlier set-up needs a second one",
  ["kd/model/kd_discover.py", "kd/model/discover/utils.py", "kd/model/discover/dso/prior.py", "kd/model/discover/state_manager.py"],
  [("KD_Discover.set_config/setup", "kd/model/kd_discover.py"), ("safe_merge_dicts", "kd/model/discover/utils.py"),
   ("make_prior", "kd/model/discover/dso/prior.py"), ("make_state_manager", "kd/model/discover/state_manager.py"),
   ("KD_Discover_SPR._inject_nd_config", "kd/model/kd_discover.py")],
  state=[("config, config_task, ...", "sections handed to the components", "kd/model/kd_discover.py")],
  observe=["sections and settings each component receives", "list of priors"],
  note="Finite choices as stated plus all numbers; searcher and network construction are recorders. Trusts z3.")

P("C21", "The DLGA population never loses its best equation or mixes up fits",
  "Every generation has the declared size, non-empty terms from the library only, and individuals that share nothing. "
  "Crossover exchanges one term in every pair, mutation edits one individual at a time, selection keeps the better half, best first, each with its own "
  "fitness, coefficients and left-hand side. The best fitness never gets worse, and the reported fit is that of the reported "
  "equation: residual of the better left-hand side plus length penalty.",
  ["histories", "inputs"], "populations of 2-4 (6), 1-2 (3) generations, all scores and draws; fits over 1-2 rows and terms",
  "tests run one seeded search; ties and aliasing need particular scores",
  ["kd/model/dlga.py", "kd/model/kd_dlga.py"],
  [("cross_over/mutation/select/delete_duplicates/evolution", "kd/model/kd_dlga.py"), ("translate_DNA/get_fitness", "kd/model/dlga.py")],
  state=[("Chrom, Fitness, coef, name", "population and its fits", "kd/model/dlga.py")],
  observe=["population after each operation", "evolution() result", "histories"],
  note="Bounded as stated; singular vectors are arbitrary. Trusts z3.")

P("C22", "The equation DLGA reports is fitted on the user's data and reads back as fitted",
  "Training rows keep their own values, training and validation rows are disjoint, the network with the smallest validation error is "
  "used, and the caller's arrays and data set stay untouched. Each library column, left-hand side and stored field is the "
  "named derivative of that network. The text and LaTeX equations read back as exactly the fitted terms and coefficients.",
  ["inputs", "configurations"], "all values on grids of 2-4 points per axis, 5-10 training rows, all coefficients in [-1000,1000], "
  "1-2 (3) terms of five shapes, seven operator lists",
  "tests use one operator list in library order; a shifted name needs another",
  ["kd/model/dlga.py", "kd/model/kd_dlga.py", "kd/viz/dlga_eq2latex.py"],
  [("train_NN/generate_meta_data/convert_chrom_to_eq", "kd/model/dlga.py"), ("KD_DLGA.fit_dataset/generate_meta_data", "kd/model/kd_dlga.py"),
   ("dlga_eq2latex", "kd/viz/dlga_eq2latex.py")],
  observe=["arrays handed to the network", "Theta, metadata, u_t, u_tt", "printed and displayed equation"],
  note="Bounded as stated; the network is an arbitrary function, the optimiser a recorder. Trusts z3 and the reader in checks/c22.py.")

P("C23", "EqGPT scores an equation by its own terms and reports the best found",
  "A vocabulary word is evaluated as the derivative, power or product it spells, at every data point. "
  "The reward is the mean over cases of the penalised R2 of the first term fitted by the other distinct terms; an unfinished or undefined equation never ranks. "
  "The report lists the best distinct rewards seen over all epochs, in order, each with its own equation; sampling alternates terms and operators, "
  "never picks a masked token and follows the network's probabilities.",
  ["inputs", "histories"], "every word over t,x(,y), any smooth field; up to 3 further terms, 2-3 points, 1-3 cases; 2-3 epochs; any logits and draws",
  "tests check a few words and one seeded run; a mistyped derivative in one of fifty words shows only when that word is evaluated on generic data",
  ["kd/model/kd_eqgpt.py", "kd/model/eqgpt/calculate_terms.py", "kd/model/eqgpt/continue_train_GPT_all.py", "kd/model/eqgpt/gpt_model.py"],
  [("calculate_terms", "kd/model/eqgpt/calculate_terms.py"), ("calculate_reward/get_mask_invalid", "kd/model/eqgpt/continue_train_GPT_all.py"),
   ("KD_EqGPT.fit_pretrained/_update_top10", "kd/model/kd_eqgpt.py"), ("GPT.step", "kd/model/eqgpt/gpt_model.py")],
  state=[("award, sentence lists", "best rewards and their token lists", "kd/model/kd_eqgpt.py")],
  observe=["columns of calculate_terms", "reward", "reported equations and rewards", "sampled tokens"],
  note="Bounded as stated; the surrogate field is any smooth function, least squares an arbitrary function. Trusts z3 and the word reader in checks/c23.py.")

P("C24", "The sparse-data network is trained on the user's data and feeds the search",
  "The network is fitted to the observations only, each point normalised by its own bounds; the one kept has the lowest validation error, training stops "
  "when that stops improving, and the physics loss adds the weighted residual of the given equation on collocation points and observations where it and its gradient are finite. "
  "The search sees each kept collocation point with its own field value, time derivative and parameter. "
  "Every round trains on the better of the new and the previous equation, both scored on the current data, and the last search is the answer.",
  ["inputs", "histories"], "1-3 space dimensions, up to 4 epochs, 2-5 points per set, 1-4 rounds of 2-4 equations; any data, network, rewards",
  "tests train for a few epochs without checking which network or points were used; mixed-up rows or stale rewards still train",
  ["kd/model/discover/pinn.py", "kd/model/discover/loss.py", "kd/model/discover/task/pde/pde_pinn.py", "kd/model/discover/task/pde/utils_noise.py",
   "kd/model/kd_discover.py"],
  [("PINN_model.pretrain/train_pinn/net_u", "kd/model/discover/pinn.py"), ("PDEPINNTask.generate_meta_data/_refresh_param_refs", "kd/model/discover/task/pde/pde_pinn.py"),
   ("cut_bound_quantile", "kd/model/discover/task/pde/utils_noise.py"), ("KD_Discover_SPR.callIterPINN", "kd/model/kd_discover.py")],
  state=[("version of the network", "changes at every optimiser step", "kd/model/discover/pinn.py")],
  observe=["losses differentiated", "checkpoints", "task.u, task.x, task.t, task.ut", "programs trained on", "returned result"],
  note="Bounded as stated; the network is an arbitrary function that changes at every step; float32 treated as reals. Trusts z3.")

P("C25", "The equation DISCOVER displays is the fitted one",
  "For any fitted program, the displayed equation, read as ordinary mathematics, equals the sum of its coefficients times its terms, "
  "in subscript and in Leibniz notation, with derivatives expanded by the chain and product rule or not. "
  "Every field, parameter, coordinate, function and Laplacian is shown under its own name; a program without a matching fit is marked as invalid.",
  ["programs", "inputs", "configurations"], "1-3 terms drawn from about 1700 expression trees up to depth 4 over all operators, every coefficient in [-1000,1000], every smooth field",
  "tests display a few single terms and match strings; a missing parenthesis or product-rule term needs a particular nesting",
  ["kd/viz/discover_eq2latex.py", "kd/model/discover/stridge.py"],
  [("discover_program_to_latex", "kd/viz/discover_eq2latex.py"), ("Node.to_sympy_string", "kd/model/discover/stridge.py")],
  observe=["LaTeX text"],
  note="Trees are finite choices, numbers and field values symbolic. Trusts z3 and the reader in checks/c25.py; sympy runs concretely as part of the code.")

P("C26", "DISCOVER plots show the discovered equation's own numbers",
  "Residual, field and parity plots show, at every sample's own place and time, the measured left-hand side, the discovered equation "
  "evaluated on the data (coefficients times terms plus intercept) and their difference, whatever the axis direction or dimension. "
  "Histories show each iteration's own best-so-far, maximum and mean reward, a density curve the epoch it is labelled with, a cut the requested plane, "
  "and the tree drawing reads back as the expression; the model's data are not changed.",
  ["inputs", "configurations"], "any weights, left-hand sides and polynomial fields on 1-D to 3-D grids of 3-10 points per axis; 6-24 scattered samples; 1-7 epochs; every expression of up to 4 (5) tokens",
  "tests check that a file appears; a transposed panel or a mislabelled curve still saves a file",
  ["kd/viz/_adapters/discover.py", "kd/viz/discover_viz.py", "kd/viz/_contracts.py", "kd/model/discover/plotter.py"],
  [("_calculate_pde_fields/_evaluate_term_recursively", "kd/viz/discover_viz.py"), ("DiscoverVizAdapter", "kd/viz/_adapters/discover.py"),
   ("slice_3d_to_2d", "kd/viz/_contracts.py"), ("tree_visualization", "kd/model/discover/plotter.py")],
  observe=["arguments of the drawing calls of the saved figure", "VizResult.metadata"],
  note="Bounded as stated; the drawing library records, scattered interpolation is exact at samples. Trusts z3 and the polynomial reference in checks/c26.py.")

P("C27", "DLGA, SGA and PySR plots show the data they claim",
  "Every map, slice, curve, scatter and histogram the DLGA, SGA and PySR plots save shows the model's or the caller's own numbers at their own coordinates, "
  "time, generation and label, for any stored order of axes, and rendering again replaces the old picture. Parity and residual plots use the equation's own "
  "terms and coefficients, reported summaries are those of the data shown, and a plot without its data is refused, not made up.",
  ["inputs", "configurations", "histories"], "any field, loss, fitness and coefficient values; 1-4 space dimensions in every stored axis order, 2-5 times, equations of 1-5 terms",
  "tests check that a file appears; a panel showing the wrong field, column, axis order or stale image still saves a file",
  ["kd/viz/_adapters/sga.py", "kd/viz/_adapters/dlga.py", "kd/viz/_adapters/pysr.py", "kd/viz/dlga_viz.py", "kd/viz/_contracts.py"],
  [("SGAVizAdapter", "kd/viz/_adapters/sga.py"), ("DLGAVizAdapter", "kd/viz/_adapters/dlga.py"), ("PySRVizAdapter", "kd/viz/_adapters/pysr.py"),
   ("plot_* functions", "kd/viz/dlga_viz.py")],
  observe=["arguments of the drawing calls of the saved figure", "VizResult.metadata"],
  note="Bounded as stated; the drawing library records. Trusts z3 and the reference in checks/c27.py.")

P("C28", "The job runner runs what its configuration asks and reports what came of it",
  "A job uses the data set its configuration means (built-in name or uploaded file, either storage order, each value at its own place and time), "
  "passes every given hyper-parameter to the model unchanged and leaves the others at their defaults. The result file and exit code say success with the "
  "model's equation, or error with the reason, never one for the other; failing plots do not lose the equation. Submission, status and download concern "
  "the caller's own project, configuration and job, and leave no temporary file.",
  ["inputs", "configurations", "faults"], "2-4 places and times with any values, any numeric hyper-parameters, every failure point of a run, project numbers 0-9, status codes -2 to 16",
  "tests never run a job: the service and the file layouts are not available there",
  ["kd/runner.py", "kd/job.py", "kd/dataset/_base.py"],
  [("load_dataset/run_dlga/run_dscv_spr/main", "kd/runner.py"), ("submit_gpu_job/check_job/download_result", "kd/job.py")],
  observe=["PDEDataset built", "arguments of the model", "result.json", "exit code", "calls of the service"],
  note="Bounded as stated; models, plotting and the job service are stand-ins that record. Trusts z3 and scipy/numpy file readers.")

P("C29", "Estimators report, accept and use the parameters they are given",
  "Every KD estimator reports through get_params, repr and reconstruction exactly the constructor arguments (documented defaults for the rest), set_params changes "
  "what it reports and what it works with, and an unknown name is refused. "
  "Entry points hand data, options, epochs and seed on unchanged, name the data set by its own name, set every component up for it, and return the run's result. "
  "The PySR wrapper fits and asks PySR with exactly the user's data and options and shows PySR's best equation.",
  ["inputs", "configurations", "histories"], "every parameter of the six BaseEstimator classes, any numeric value; 2-3 samples; every combination of what the backend offers",
  "tests construct a few estimators; a dropped or swapped parameter still runs, with a default in its place",
  ["kd/base.py", "kd/model/kd_sga.py", "kd/model/kd_dlga.py", "kd/model/dlga.py", "kd/model/kd_discover.py", "kd/model/kd_pysr.py"],
  [("BaseEstimator.get_params/set_params", "kd/base.py"), ("import_dataset/fit_dataset/train", "kd/model/kd_discover.py"), ("KD_PySR", "kd/model/kd_pysr.py"),
   ("KD_DLGA.fit", "kd/model/kd_dlga.py")],
  observe=["get_params()", "repr", "arguments the backend received", "predictions", "equation_latex()"],
  note="Bounded as stated; backends are stand-ins that record. Trusts z3 and sympy's printer.")

P("C30", "The plotting façade shows the asked model's own plot and says where it is",
  "A plotting call reaches the adapter of the model's most specific registered class whatever was looked up before, with exactly the given data and options "
  "and the configured plus the caller's style; afterwards the drawing settings are as they were, also after a failure. "
  "Unsupported plots are refused with the list of supported ones, and the equation image shows the model's own equation in the asked notation in the asked directory, "
  "and no path is reported unless its image was produced; the printed line says what came of the call.",
  ["inputs", "histories", "faults"], "a hierarchy of five classes with every history of three operations; ten calls; any settings; a failure at every drawing call",
  "tests use one dummy adapter and ask once; a stale image or a lookup that depends on history needs a second step",
  ["kd/viz/registry.py", "kd/viz/adapters.py", "kd/viz/core.py", "kd/viz/api.py", "kd/viz/_style.py", "kd/viz/_helpers.py", "kd/viz/equation_renderer.py",
   "kd/viz/_adapters/discover.py", "kd/viz/_adapters/dlga.py", "kd/viz/_adapters/sga.py", "kd/viz/_adapters/pysr.py"],
  [("get_adapter", "kd/viz/registry.py"), ("render", "kd/viz/core.py"), ("_dispatch/_emit_info", "kd/viz/api.py"), ("style_context", "kd/viz/_style.py"),
   ("render_latex_to_image", "kd/viz/equation_renderer.py")],
  state=[("adapter registry", "eager and late registrations", "kd/viz/registry.py"), ("rcParams", "changed during a plot only", "kd/viz/_style.py")],
  observe=["adapter called", "request and context", "rcParams", "files written", "VizResult", "standard output"],
  note="Bounded as stated; matplotlib is a stand-in that records and may fail. Trusts z3.")

P("C31", "SGA's network derivatives are the network's own, in the data's units",
  "With use_autograd, the left-hand side and the first derivatives SGA searches over are, at every grid point and for any axis order, those of that field's own "
  "network converted to the data's units; higher derivatives of 2-D x/t data are the network's too, otherwise differences of its first one, and fields without a network "
  "get finite differences. "
  "The network is the one given, else the field's checkpoint, else one trained on exactly that field over the problem's grid with the configured settings and without "
  "disturbing the caller's random state; networks that do not fit are refused. "
  "With use_metadata, the searched field is the network's prediction over the finer grid of the same range.",
  ["inputs", "configurations"], "arbitrary smooth networks on 2-D and 3-D grids of 4 to 49 points, 1-2 fields, any field scale; every permutation of training points (4)",
  "tests train one tiny network on one 2-D grid; a wrong scale factor, axis or pairing still gives plausible numbers",
  ["kd/model/sga/sgapde/context.py", "kd/model/sga/sgapde/metann.py", "kd/model/kd_sga.py"],
  [("_calculate_derivatives_autograd", "kd/model/sga/sgapde/context.py"), ("_generate_metadata", "kd/model/sga/sgapde/context.py"),
   ("prepare_training_data/train_metanet", "kd/model/sga/sgapde/metann.py")],
  observe=["context_.ut/ux/uxx/uxxx", "context_.VARS", "training pairs", "random state"],
  note="Bounded as stated; the optimiser itself is outside (it is a stand-in). Trusts z3 and torch.autograd.")

P("C32", "EqGPT judges equations with each case's own network, in its own units",
  "Each wave case asked for (all, or only the N cases) brings its own network, grid and grid size, in the same order; cases without a shipped network are left out and "
  "having none at all is refused. "
  "With retrain_surrogate the network is trained on exactly that case's samples in the units of the grid it is evaluated on (wave periods and wavelengths), the checkpoint "
  "with the smallest validation error is the one used, and neither the caller's data nor the shipped networks change. "
  "The grid covers the case's recorded times and gauge windows.",
  ["inputs", "configurations"], "20-21 samples of which four are arbitrary, up to 3 checkpoints with any validation predictions, every subset of three cases",
  "tests only construct the wrapper (the 344 MB of data are not in the repository); a wrong unit or pairing still trains and ranks equations",
  ["kd/model/kd_eqgpt.py"],
  [("_train_single_surrogate", "kd/model/kd_eqgpt.py"), ("_build_single_surrogate", "kd/model/kd_eqgpt.py"), ("_load_surrogates", "kd/model/kd_eqgpt.py")],
  observe=["training samples", "checkpoint used", "evaluation grid", "directories written"],
  note="Bounded as stated; the optimiser and the network's values are outside (stand-ins). Trusts z3.")
