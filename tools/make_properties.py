"""Writes properties.jsonl (the text lives here, one call per property)."""
import json
import os

OUT = []
T, W, S, A = ('optax/_src/transform.py', 'optax/_src/wrappers.py',
              'optax/_src/schedule.py', 'optax/_src/alias.py')


def prop(pid, title, statement, over, text, why, files, mechanism,
         observe=(), state=()):
  assert len(title) <= 80, title
  OUT.append({
      'id': pid, 'title': title, 'statement': statement,
      'quantifier': {'over': over, 'text': text},
      'why_tests_cant': why,
      'anchors': {
          'files': files,
          'state': [{'name': n, 'meaning': m, 'where': w}
                    for n, m, w in state],
          'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
          'observe_at': list(observe), 'hook_needed': None}})


OPT_TEXT = ('every parameter tree, every sequence of gradients of any length, '
            'every admissible setting of the hyperparameters')

prop('C01', 'Momentum, EMA and SGD follow their recursions on every history',
     'For every sequence of gradients, `trace(decay, nesterov)` emits '
     't_n = g_n + decay*t_{n-1} (or g_n + decay*t_n with Nesterov), '
     '`ema(decay, debias)` emits the exponential moving average of all past '
     'gradients (divided by 1-decay^n when debiasing), and `sgd` emits '
     '-learning_rate times the (momentum) direction. The accumulator is kept '
     'in `accumulator_dtype` when one is given, and a decay or momentum of 0 '
     'means "no memory", whereas a momentum of None means "no momentum term".',
     ['inputs', 'histories', 'configurations'], OPT_TEXT,
     'The tests compare a few steps for one decay on two small vectors; the '
     'recursion is over unbounded histories and all settings.',
     [T, A], [('trace', T), ('ema', T), ('sgd', A)],
     ['updates returned by update()'],
     [('TraceState.trace / EmaState.ema', 'the accumulated direction', T)])

prop('C02', 'Adam and AdamW compute the published update on every history',
     'After any number of updates, `scale_by_adam` and `adam` return exactly '
     'the bias-corrected first moment over (sqrt(bias-corrected second moment '
     '+ eps_root) + eps), times -learning_rate for `adam`, for every b1, b2, '
     'eps and eps_root. `adamw` is the same direction plus weight_decay times '
     'the current parameters (decoupled: the decay does not enter the '
     'moments), all scaled by the learning rate.',
     ['inputs', 'histories', 'configurations'], OPT_TEXT,
     'The tests run one default configuration to convergence on two toy '
     'problems, which many wrong formulas survive.',
     [T, A], [('scale_by_adam', T), ('adam', A), ('adamw', A),
              ('add_decayed_weights', T)],
     ['updates returned by update()'],
     [('ScaleByAdamState', 'step count and both moments', T)])

prop('C03', 'AdaBelief, Yogi and RAdam compute their published updates',
     'For every gradient history and setting, AdaBelief rescales by the moving '
     'average of the squared difference between each gradient and the average '
     'of the previous ones, Yogi moves its second moment additively by '
     '(1-b2)*sign(v-g^2)*g^2, and RAdam switches from the plain debiased '
     'momentum to the variance-rectified Adam step exactly when the length of '
     'its approximated average reaches the threshold. Each then applies '
     '-learning_rate in its optimiser form.',
     ['inputs', 'histories', 'configurations'], OPT_TEXT +
     ', in particular histories crossing the rectification threshold',
     'The tests only run toy problems to convergence at default settings.',
     [T, A], [('scale_by_belief', T), ('scale_by_yogi', T),
              ('scale_by_radam', T), ('adabelief/yogi/radam', A)],
     ['updates returned by update()'])

prop('C04', 'RMSProp, Adagrad and SM3 keep the right second-moment accumulators',
     'For every history and setting, RMSProp divides by sqrt(moving average of '
     'squares + eps) (centered: of the never negative variance), started at '
     'initial_scale; Adagrad divides by sqrt(initial accumulator + sum of '
     'squares + eps); and SM3 divides by the square root of the '
     'minimum-of-maxima cover of the past squares, for tensors of every rank '
     'including scalars. Entries whose accumulator is 0 get a zero update in '
     'Adagrad and SM3, and no finite history makes any of them emit NaN.',
     ['inputs', 'histories', 'configurations'], OPT_TEXT +
     ', tensors of rank 0 to 5',
     'The tests run 1-d toy problems; per-axis covers, zero entries, constant '
     'gradients (vanishing variance) and initial values are not reached.',
     [T, A], [('scale_by_rms/stddev/rss/sm3', T), ('rmsprop/adagrad/sm3', A)],
     ['updates returned by update()'])

prop('C05', 'LAMB, Fromage and the trust ratio rescale each layer by its norms',
     'Every leaf of the update is multiplied by norm(parameter)/norm(update), '
     'both norms bounded below by min_norm, and by exactly 1 where one of them '
     'is 0, so that no layer ever becomes NaN or stuck at zero. LAMB applies '
     'this to the Adam direction plus weight decay, and Fromage yields new '
     'parameters (p - lr*ratio*g)/sqrt(1+lr^2).',
     ['inputs', 'histories', 'configurations'],
     'every layer (also all-zero parameters and all-zero gradients), min_norm, '
     'history and setting',
     'The alias test named "lamb" actually runs adamw; zero-norm layers are '
     'tested once for the trust ratio.',
     [T, A, 'optax/_src/numerics.py'],
     [('scale_by_trust_ratio', T), ('safe_norm', 'optax/_src/numerics.py'),
      ('lamb, fromage', A)], ['updates returned by update()'])

prop('C06', 'Scheduled learning rates are applied at the right step and place',
     'Giving any optimiser a schedule instead of a constant scales its t-th '
     'update (t = 0, 1, 2, ...) exactly as the constant schedule(t) would: the '
     'schedule is evaluated at the number of previous updates, and the factor '
     'is negative. Momentum placed after the learning rate '
     '(RMSProp) accumulates already scaled updates, momentum placed before it '
     '(SGD, DPSGD) does not.',
     ['histories', 'schedules', 'configurations'],
     'every schedule (arbitrary values per step), every optimiser alias that '
     'takes a learning rate, every history, every starting count',
     'One test scales a fixed vector by one schedule; no test compares '
     'scheduled with constant rates for the aliases.',
     [T, A], [('scale_by_schedule', T), ('_scale_by_learning_rate', A),
              ('scale', T)], ['updates returned by update()'],
     [('ScaleByScheduleState.count', 'updates so far', T)])

prop('C07', 'Elementary schedules equal their closed forms at every step',
     'At every step count from 0 to the largest int32, constant, polynomial, '
     'linear, piecewise-constant, exponential and cosine schedules return the '
     'value of their documented formula: held at the initial value until the '
     'transition begins, interpolated within it, and held at the end value '
     '(or clipped at end_value / alpha) afterwards; the scale factor of a '
     'piecewise-constant boundary b applies from step b on. Degenerate '
     'settings '
     '(non-positive transition, zero decay rate, negative begin) give the '
     'documented constant or clamped schedule.',
     ['inputs', 'configurations'],
     'every step count (Python int, NumPy or traced), every setting of the '
     'schedule parameters',
     'The tests sample a few settings over some tens of steps.',
     [S], [('polynomial_schedule', S), ('exponential_decay', S),
           ('piecewise_constant_schedule', S), ('cosine_decay_schedule', S)],
     ['schedule(count)'])

prop('C08', 'Joined, warm-up, restart and one-cycle schedules compose exactly',
     'A joined schedule equals, at every step, the member whose interval '
     'contains the step, evaluated at the steps since that interval began; '
     'warm-up, SGDR, piecewise-interpolated and one-cycle schedules equal the '
     'documented pieces, meet at their boundaries and hold their final value '
     'for ever. They are finite at every step for every number of steps >= 1, '
     'also when boundaries coincide or lie at step 0.',
     ['inputs', 'configurations'],
     'every step count, number of pieces, boundaries (also equal or zero) and '
     'values',
     'The tests check end points and monotonicity for a few settings; small '
     'cycles and coinciding boundaries are not covered.',
     [S], [('join_schedules', S), ('warmup_*_schedule', S),
           ('sgdr_schedule', S), ('piecewise_interpolate_schedule', S),
           ('*_onecycle_schedule', S)], ['schedule(count)'])

prop('C09', 'Injected hyperparameters act like the corresponding constants',
     'With `inject_hyperparams(factory)(...)`, each update equals the one of '
     'factory called with the current values, for any mix of constants, '
     'schedules and static arguments, given by position, keyword or default; '
     'the n-th update (n = 1, 2, ...) uses schedule(n), init uses '
     'schedule(0), and the state exposes the values in use. Overwriting a constant in state.hyperparams takes effect from the '
     'next update, overwriting a scheduled one has none, and floating values '
     'take the dtype of the parameters.',
     ['histories', 'configurations', 'schedules'],
     'every optimiser factory, split of its arguments into constants, '
     'schedules and static ones, and history with overrides in between',
     'The tests inject one or two hyperparameters of adam for two steps.',
     [S], [('inject_hyperparams', S)],
     ['updates', 'state.hyperparams', 'state.count'],
     [('InjectHyperparamsState', 'count, current values, inner state', S)])

prop('C10', 'chain applies its members one after the other, in order',
     'For any list of transformations, `chain` returns the updates obtained by '
     'feeding the gradients through the members from first to last, each with '
     'its own state and with the unmodified parameters; nesting chains in any '
     'way does not matter. A state of the wrong length is rejected with '
     'ValueError.',
     ['programs', 'histories'],
     'every list of transformations (stateful, stateless, parameter-dependent, '
     'repeated), every nesting and history',
     'The test chains three fixed transformations.',
     ['optax/_src/combine.py'], [('chain', 'optax/_src/combine.py')],
     ['updates and states'])

prop('C11', 'Updates keep the structure, shapes and dtypes of the gradients',
     'For every transformation and wrapper, the updates have the tree '
     'structure, shapes and dtypes of the gradients, and the new state has '
     'exactly the structure, shapes and dtypes of the initial state, on every '
     'step. This holds for any nesting of containers (None and empty subtrees, '
     'user-defined nodes), ranks from 0 up, and mixed float16, bfloat16, '
     'float32 and float64 leaves.',
     ['inputs', 'configurations'],
     'every transformation with every setting, every tree of leaves with mixed '
     'ranks and dtypes',
     'One test checks float64 for some transformations on one array shape.',
     [T, W, A, 'optax/_src/clipping.py', 'optax/_src/privacy.py'],
     [('every init_fn/update_fn', T)], ['jax.tree_structure, shape, dtype'])

prop('C12', 'Compiled, scanned and batched runs agree with the eager run',
     'Every transformation and every schedule gives the same results whether '
     'its update is run eagerly, under jax.jit, inside jax.lax.scan over the '
     'whole history, or under jax.vmap over independent replicas, with the '
     'step counter known or traced. In particular nothing depends on Python '
     'values of traced quantities or on state kept outside the returned state.',
     ['inputs', 'histories', 'configurations', 'programs'],
     'every transformation, wrapper and schedule, setting and history',
     'Variants of single tests run under jit, but never the same history '
     'through eager, jit, scan and vmap for all transformations.',
     [T, W, S, A], [('pure init/update functions', T)], ['updates, states'])

prop('C13', 'Updates are pure: runs can be resumed from any saved state',
     'update never modifies its arguments and returns the same result for the '
     'same arguments, so a history interrupted after any step continues '
     'identically from the saved state (also after a round trip through host '
     'memory, and with a newly built transformation). Interleaved runs of one '
     'transformation object, on the same model or on several different ones, '
     'do not influence each other.',
     ['crash_points', 'histories', 'configurations'],
     'every interruption point, every interleaving of runs, every '
     'transformation and wrapper',
     'No test stops, saves, rebuilds and resumes.',
     [T, W, S, A], [('GradientTransformation', 'optax/_src/base.py')],
     ['updates, states, arguments'])

prop('C14', 'Results per parameter do not depend on the layout of the tree',
     'Renaming, reordering, nesting or re-containering the leaves of params, '
     'gradients and state leaves the result for every parameter unchanged. For '
     'transformations that act leaf by leaf, the result for a leaf is the one '
     'obtained with that leaf alone, and for those that use a global norm only '
     'through that norm.',
     ['inputs', 'programs'],
     'every deterministic transformation, every pair of layouts of the same '
     'leaves, every sub-collection of leaves',
     'Tests use one fixed layout each.',
     [T, W, A], [('jax.tree_map over leaves', T)], ['updates'])

prop('C15', 'flatten(inner) equals inner applied to the concatenated parameters',
     'Wrapping with `flatten` gives exactly the updates of the inner '
     'transformation run on the single vector of all leaves in tree order, '
     'cut back into the original structure, shapes and dtypes. For elementwise '
     'or global-norm inner transformations it changes nothing at all.',
     ['inputs', 'programs', 'histories'],
     'every inner transformation, tree, rank and history',
     'The tests compare four optimisers on one two-leaf tree.',
     [W], [('flatten', W)], ['updates, state'])

prop('C16', 'clip and clip_by_global_norm bound the update and nothing more',
     'clip(d) returns each element limited to [-d, d] and leaves elements '
     'within it untouched. clip_by_global_norm(c) leaves updates whose global '
     'norm is below c exactly as they are and otherwise rescales all leaves by '
     'the one factor c/norm, so that direction is kept and the global norm is '
     'c, where global_norm is the Euclidean norm over all leaves (whenever '
     'the sum of squares is representable).',
     ['inputs', 'configurations'],
     'every tree of updates and every bound, also ties, zeros and mixed scales',
     'The tests clip one tree for a few bounds.',
     ['optax/_src/clipping.py', 'optax/_src/linear_algebra.py'],
     [('clip, clip_by_global_norm', 'optax/_src/clipping.py'),
      ('global_norm', 'optax/_src/linear_algebra.py')], ['updates'])

prop('C17', 'adaptive_grad_clip limits each output unit to its parameter norm',
     'For every unit (whole vector or scalar; per output column for matrices '
     'and rank-3 tensors; per output channel for rank-4 kernels; tensors with '
     'at most one axis longer than 1 count as vectors), the update norm after '
     'clipping is at most clipping*max(parameter norm, eps). Units already '
     'below are untouched and the others are only rescaled; tensors of higher '
     'rank are rejected.',
     ['inputs', 'configurations'],
     'every shape of rank 0 to 4 (also size-1 axes), values, clipping and eps',
     'The test uses a few fixed shapes with one value pattern.',
     ['optax/_src/clipping.py'],
     [('unitwise_norm, unitwise_clip', 'optax/_src/clipping.py')],
     ['updates'])

prop('C18', 'zero_nans and keep_params_nonnegative do exactly what they promise',
     'zero_nans replaces NaN by 0 and nothing else (infinities stay), and its '
     'state says for every leaf whether the last update contained a NaN. '
     'keep_params_nonnegative leaves an element untouched when parameter + '
     'update >= 0 and otherwise returns minus the parameter, so applied '
     'parameters are never negative.',
     ['inputs', 'histories'],
     'every pattern of NaN, infinities and finite values over all leaves, '
     'every sequence of updates, every parameter value',
     'The tests check one pattern; those of zero_nans do not even run with '
     'the installed chex.',
     ['optax/_src/constrain.py'],
     [('zero_nans, keep_params_nonnegative', 'optax/_src/constrain.py')],
     ['updates, state.found_nan'],
     [('ZeroNansState.found_nan', 'NaN seen in the last update, per leaf',
       'optax/_src/constrain.py')])

prop('C19', 'apply_if_finite skips bad gradients and gives up only when told',
     'An update with any NaN or infinity yields zero updates and an unchanged '
     'inner state, unless more than max_consecutive_errors such updates '
     'arrived in a row, in which case it is passed to the inner optimiser; '
     'finite updates always are. The state reports the current run of bad '
     'updates, the total number and whether the last one was finite.',
     ['fault_sequences', 'histories'],
     'every sequence of finite and non-finite gradients, position of the bad '
     'element, limit (also 0) and inner optimiser',
     'The test plays a few fixed sequences.',
     [W], [('apply_if_finite', W)], ['updates, state counters'],
     [('ApplyIfFiniteState', 'counters and inner state', W)])

prop('C20', 'MultiSteps equals the inner optimiser on accumulated gradients',
     'Over any history, MultiSteps emits zero updates until the k mini-steps '
     'of the current gradient step are complete, where k is the schedule at '
     'the number of completed gradient steps; it then emits exactly the update '
     'of the inner optimiser (with the current parameters) on the mean, or '
     'sum, of the gradients since the last emission. The inner state changes '
     'only then, and has_updated is true exactly after those steps.',
     ['histories', 'schedules', 'configurations'],
     'every schedule of accumulation lengths, inner optimiser, history, mean '
     'or sum',
     'The tests use sgd/adam-free inner optimisers without params and a few '
     'lengths.',
     [W], [('MultiSteps', W)], ['updates, has_updated, gradient_step'],
     [('MultiStepsState', 'mini-step, gradient step, accumulator', W)])

prop('C21', 'apply_every and maybe_update act exactly at the right steps',
     'apply_every(k) emits zeros except at every k-th update, where it emits '
     'the sum of the last k gradients, and each window starts afresh whatever '
     'the previous one contained. maybe_update runs the inner transformation '
     'at the steps its predicate selects (step counted from 0, increasing on '
     'every call) and otherwise passes updates and inner state through '
     'untouched.',
     ['histories', 'schedules'],
     'every k, every predicate over steps, history (also non-finite values) '
     'and inner transformation',
     'The tests use one k and one predicate.',
     [T, W], [('apply_every', T), ('maybe_update', W)],
     ['updates, state'])

prop('C22', 'masked transforms exactly the selected subtrees',
     'Leaves or subtrees whose mask is True receive exactly the update of the '
     'inner transformation run on the selected part of updates and parameters '
     'alone; all others pass through unchanged. This holds for mask trees that '
     'are prefixes of the parameters, for callables, all-True and all-False '
     'masks, any container, and parameters of any value; the state covers '
     'selected parts only.',
     ['inputs', 'programs', 'histories'],
     'every mask prefix, tree, inner transformation and history, with and '
     'without params',
     'The tests use a handful of fixed masks on dict trees.',
     [W], [('masked', W)], ['updates, inner state'])

prop('C23', 'lookahead follows the two-loop algorithm exactly',
     'Between synchronisations the fast parameters follow the fast optimiser '
     'and the slow ones do not move; at every sync_period-th step slow moves '
     'by slow_step_size towards the fast parameters and fast restarts from '
     'slow. The fast optimiser sees the fast parameters, and its state is '
     'reset to the initial one at synchronisations iff reset_state is set.',
     ['histories', 'configurations'],
     'every fast optimiser, period, step size, history and tree; with and '
     'without reset',
     'The tests run sgd-like optimisers for a few periods on scalars.',
     ['optax/_src/lookahead.py'],
     [('lookahead, _lookahead_update', 'optax/_src/lookahead.py')],
     ['updates for fast and slow, state'],
     [('LookaheadState', 'fast state and steps since sync',
       'optax/_src/lookahead.py')])

prop('C24', 'DP aggregation clips each example and adds calibrated fresh noise',
     'With per-example gradients, the output is the mean over the batch of the '
     'gradients, each rescaled as a whole (over all leaves) to global norm at '
     'most l2_norm_clip, plus Gaussian noise of standard deviation '
     'l2_norm_clip*noise_multiplier/batch size, independent for every leaf, '
     'element and step and determined by the seed. Inputs without a common '
     'batch axis are rejected with ValueError, and dpsgd is this followed by '
     'momentum and -learning_rate.',
     ['inputs', 'histories', 'configurations'],
     'every batch size, tree, clip norm, noise multiplier, seed and history',
     'The tests check clipping for one tree and the noise of one leaf.',
     ['optax/_src/privacy.py', A],
     [('differentially_private_aggregate', 'optax/_src/privacy.py'),
      ('dpsgd', A)], ['updates, state'])

prop('C25', 'Gradient noise has the annealed variance and is never reused',
     'add_noise(eta, gamma, seed) adds zero-mean Gaussian noise of variance '
     'eta/n^gamma at the n-th update (n = 1, 2, ...), i.e. eta/(1+t)^gamma, '
     'independent over leaves, elements and steps, reproducible from the seed '
     'and independent of the gradients. noisy_sgd adds it to the gradients '
     'and then scales by -learning_rate.',
     ['histories', 'configurations'],
     'every eta, gamma, seed, tree and number of steps',
     'The noise itself is not tested.',
     [T, A], [('add_noise', T), ('noisy_sgd', A)], ['updates'])

prop('C26', 'Parameter updates add, average or replace exactly as specified',
     'apply_updates returns params + updates with the structure, shapes and '
     'dtypes of params, for all leaf dtypes. incremental_update returns '
     'step_size*new + (1-step_size)*old, and periodic_update returns the new '
     'values exactly when steps is a multiple of the period and otherwise the '
     'old ones.',
     ['inputs', 'configurations'],
     'every tree, value, dtype combination, step size, step count and period',
     'One tree and a few values are tested.',
     ['optax/_src/update.py'],
     [('apply_updates, incremental_update, periodic_update',
       'optax/_src/update.py')], ['returned trees'])

prop('C27', 'Regression and similarity losses equal their definitions',
     'l2_loss is half the squared error, huber_loss is quadratic up to delta '
     'and linear beyond with gradient equal to the clipped error, and '
     'cosine_similarity / cosine_distance are the normalised inner product '
     'over the last axis (norms bounded below by epsilon) and one minus it. '
     'This holds elementwise for every batch shape, with and without targets, '
     'and values and gradients stay finite at zero errors, and at zero vectors '
     'when epsilon > 0.',
     ['inputs', 'configurations'],
     'every batch shape, value, delta and epsilon; values and gradients',
     'A few fixed arrays are tested, gradients hardly at all.',
     ['optax/_src/loss.py', 'optax/_src/numerics.py'],
     [('l2_loss, huber_loss, cosine_*', 'optax/_src/loss.py')],
     ['returned losses and their gradients'])

prop('C28', 'Classification losses are exact and stable for extreme logits',
     'sigmoid_binary_cross_entropy and softmax_cross_entropy equal the exact '
     'cross entropies (also for soft labels) with gradients sigmoid(x)-y and '
     'softmax(x)*sum(y)-y, finite and accurate for logits of any magnitude; '
     'softmax is reduced over the last axis and invariant to shifting the '
     'logits. smooth_labels maps a distribution y over K classes to '
     '(1-alpha)*y + alpha/K.',
     ['inputs', 'configurations'],
     'every shape, logit magnitude (also beyond the range of exp), label '
     'distribution and alpha; values and gradients',
     'A few fixed logits up to 1e1..1e2 are tested.',
     ['optax/_src/loss.py'],
     [('sigmoid_binary_cross_entropy, softmax_cross_entropy, smooth_labels',
       'optax/_src/loss.py')], ['returned losses and their gradients'])

prop('C29', 'hvp, hessian_diag and fisher_diag equal the dense derivatives',
     'For every twice differentiable loss(params, inputs, targets) and tree of '
     'parameters, hvp equals the dense Hessian times the vector, hessian_diag '
     'its diagonal, and fisher_diag the squared gradient, all in the raveled '
     'order of the parameters and as functions of exactly the given inputs and '
     'targets. The parameters may have any float type.',
     ['inputs', 'programs'],
     'every loss from a family of polynomial and network losses, tree, vector, '
     'inputs and targets',
     'One MLP loss at one point is tested.',
     ['optax/_src/second_order.py'],
     [('hvp, hessian_diag, fisher_diag', 'optax/_src/second_order.py')],
     ['returned arrays'])

prop('C30', 'Monte Carlo gradient estimators give the right per-sample jacobians',
     'For every function, Gaussian parameters and seed, the score-function and '
     'pathwise jacobians of each sample equal f(x)*grad log p(x) and '
     'grad_theta f(x(theta)) at the very samples drawn by the distribution '
     'with the given key, and the measure-valued ones are unbiased for the '
     'mean and log-scale gradients, coupled or not; coupled mean gradients of '
     'an even function around the mean are exactly zero, uncoupled ones are '
     'not. There is one jacobian per '
     'sample and parameter; other distributions are rejected by the '
     'measure-valued estimator.',
     ['inputs', 'configurations'],
     'every function of a polynomial/trigonometric family, dimension, mean, '
     'log-scale, key and number of samples',
     'The tests compare sample means with wide tolerances for a few '
     'functions.',
     ['optax/_src/stochastic_gradient_estimators.py', 'optax/_src/utils.py'],
     [('*_jacobians', 'optax/_src/stochastic_gradient_estimators.py'),
      ('multi_normal', 'optax/_src/utils.py')], ['returned jacobians'])

prop('C31', 'Control variates keep the gradient estimate unbiased',
     'The control-variate jacobians equal estimator(f) - c*(estimator(h) + '
     'grad of mean h) + c*grad of the exact expectation of h, sample by sample, '
     'with c = 1 or the estimated cov/var coefficient from fresh samples; the '
     'delta method is the second-order Taylor expansion at the mean with its '
     'exact Gaussian expectation (so quadratic functions give the exact '
     'gradient). The moving-average baseline is the (debiased) average of the '
     'mean function values of the batches seen so far, and a constant under '
     'differentiation.',
     ['inputs', 'histories', 'configurations'],
     'every function of a polynomial/trigonometric family, estimator, '
     'parameters, key, coefficients on or off, and history of batches',
     'The tests check a few functions, two states deep.',
     ['optax/_src/control_variates.py'],
     [('control_delta_method, moving_avg_baseline, '
       'control_variates_jacobians, estimate_control_variate_coefficients',
       'optax/_src/control_variates.py')], ['jacobians, state'],
     [('moving average state', '(value, number of updates)',
       'optax/_src/control_variates.py')])

prop('C32', 'power_iteration and matrix_inverse_pth_root solve their equations',
     'For symmetric PSD matrices, power_iteration returns a unit vector and a '
     'value that converge to the dominant eigenpair, within the iterations and '
     'tolerance given. matrix_inverse_pth_root returns (A + ridge*max_ev*I)^'
     '(-1/p) for every size and every positive integer p whenever it reports a '
     'small error, and converges for well-conditioned matrices (condition '
     'number up to 10).',
     ['inputs', 'configurations'],
     'every PSD matrix with a spectral gap, size 1 to 6, p from 1 to 16, '
     'number of iterations, tolerance and scale',
     'One 3x3 matrix and p = 4 with a few seeds are tested.',
     ['optax/_src/linear_algebra.py'],
     [('power_iteration, matrix_inverse_pth_root',
       'optax/_src/linear_algebra.py')], ['returned arrays'])

prop('C33', 'Step counters never overflow and updates stay right in long runs',
     'Every int32 step counter (the `count` fields of the states) increases '
     'by one per update and stays at the largest int32 once it is reached, '
     'for all transformations that count steps, also inside wrappers, so that '
     'an '
     'optimiser run for thousands of steps or resumed near the limit still '
     'returns the update of its formula and never an overflowed or NaN one.',
     ['histories', 'configurations'],
     'every transformation with a step count, every starting count up to the '
     'largest int32, histories of thousands of steps',
     'Only the increment function itself is tested at the limit.',
     ['optax/_src/numerics.py', T, S],
     [('safe_int32_increment', 'optax/_src/numerics.py')],
     ['counters in states, updates'])

prop('C34', 'Invalid use is rejected with the documented error, valid use never',
     'Transformations that need the parameters raise ValueError when these '
     'are None (also inside wrappers), and invalid arguments raise the '
     'documented exception: ValueError for negative scale factors, unknown '
     'interpolation types, non-positive cosine, one-cycle or sync period '
     'lengths, unknown static arguments, masks that do not fit, missing batch '
     'axes and other distributions; AssertionError for non-float or '
     'incompatible loss inputs and non-integer counters. Everything valid next '
     'to these limits is accepted.',
     ['inputs', 'configurations'],
     'every invalid argument and every valid one next to it',
     'Most of these errors are not tested, or with one value.',
     [T, S, W, 'optax/_src/loss.py', 'optax/_src/numerics.py'],
     [('raise ValueError', S), ('chex assertions', 'optax/_src/loss.py')],
     ['exceptions'])

prop('C35', 'Stateless rescaling, decay and centralisation are exact',
     'identity returns the gradients, scale(c) multiplies every leaf by c, '
     'add_decayed_weights(w) (also under its additive_weight_decay name) adds '
     'w times the current parameters, and centralize subtracts from every '
     'tensor of rank >= 2 its mean over all axes but the first and leaves '
     'vectors and scalars alone. None of them depends on earlier updates.',
     ['inputs', 'configurations'],
     'every tree, rank 0 to 5, factor (also 0, negative, integer, array)',
     'One or two shapes are tested.',
     [T, 'optax/_src/base.py'],
     [('scale, add_decayed_weights, centralize', T),
      ('identity', 'optax/_src/base.py')], ['updates'])

prop('C36', 'Optimisation steps can be differentiated correctly and without NaN',
     'The derivative of the parameters after any number of steps with respect '
     'to the initial parameters, the gradients or the hyperparameters '
     '(learning rate, decays, step sizes) equals the numerical one for every '
     'transformation at points where it is smooth. It stays finite and right '
     'where the library promises it: eps_root > 0 for the Adam family at zero '
     'gradients, trust ratios with min_norm > 0 at zero norms, and safe_norm '
     '(gradient 0 at and below min_norm).',
     ['inputs', 'programs', 'configurations'],
     'every differentiable transformation, setting, history and direction of '
     'differentiation',
     'One test differentiates adam with eps_root; safe_norm at one point.',
     [T, A, 'optax/_src/numerics.py', 'optax/_src/clipping.py'],
     [('safe_norm', 'optax/_src/numerics.py'), ('eps_root', T),
      ('clip_by_global_norm', 'optax/_src/clipping.py')],
     ['jax.grad / jax.jvp of updates'])

if __name__ == '__main__':
  path = os.path.join(os.path.dirname(os.path.dirname(
      os.path.abspath(__file__))), 'properties.jsonl')
  with open(path, 'w') as f:
    for p in OUT:
      f.write(json.dumps(p) + '\n')
