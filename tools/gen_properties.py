"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                  "mechanism": [dict(name=a, where=b) for a, b in mech],
                  "observe_at": list(observe), "hook_needed": None}})

CAF = ["yuca/ca/common.py", "yuca/ca/continuous.py", "yuca/ca/neural.py", "yuca/ca/reaction_diffusion.py",
       "yuca/code.py", "yuca/lenia.py", "yuca/metaca.py", "yuca/random_step_ca.py"]

p("C01", "Every step keeps cell states between 0 and 1",
  "For every CA family (base CA, glaberish CCA, Lenia, neural NCA, Gray-Scott reaction-diffusion, second-order MetaCA, adaptive-step CODE, random-step CA), the grid returned by a step and the grid returned by a preview frame (every preview mode) contain only values in [0, 1] whatever the input grid, rule parameters, step size, precision branch or channel count (NaN aside).",
  ["inputs", "configurations"], "all grids, rules, dt, dtypes and channel counts, for each of the eight families",
  "Tests step a few random grids with mild rules, in float32 with one channel; an overflow needs a strong rule, a large dt, the half-precision branch or an unusual family.",
  CAF, [("final clamp to [0,1] on every return path of forward/get_frame/get_new_grid", "yuca/ca/*.py, yuca/code.py, yuca/metaca.py, yuca/random_step_ca.py")],
  ["value returned by ca(grid) and ca.get_frame(grid, mode)"])

p("C02", "Stepping and evaluating never modify the caller's tensors",
  "Taking a step, previewing a frame, computing an update, masking, evaluating any growth/kernel function or building a kernel never changes the contents of a tensor, array, list or dict the caller passed in; nor does preparing an input image, cropping a pattern, computing an entropy or running an environment step or parameter assignment.",
  ["inputs", "configurations", "histories"], "all arguments of the listed operations, all families and function classes",
  "Tests compare outputs, not inputs after the call; an in-place write on a view or on the no-copy path (same dtype, same device) only shows when the caller reuses its grid.",
  CAF + ["yuca/activations.py", "yuca/kernels.py", "yuca/utils.py", "yuca/wrappers/halting_wrapper.py", "yuca/wrappers/glider_wrapper.py", "yuca/zoo/librarian.py", "yuca/analyze.py"],
  [("results are built from fresh tensors; every in-place write targets a tensor the operation allocated itself", "forward/get_frame/update_universe/alive_mask/activation forward")],
  ["the argument object after the call"])

p("C03", "Reading parameters and setting them back is lossless and aligned",
  "For every object with a flat parameter vector (CCA and its families, NCA, Gray-Scott, Lenia, CPPN, CPPN-plus-rule agent, parameter agent, environment wrappers) the vector that is read lists the parameters in exactly the order, and with exactly the segment lengths, in which setting a vector consumes it, so setting what was read changes nothing and setting v then reading gives v. Every segment that is read is also set, no element is used twice or skipped, and the neighborhood kernel is rebuilt from the kernel segment. (A parameter agent built with filter_params=True deliberately normalises the vector it is given; the claim is about the other mode.)",
  ["inputs", "configurations"], "all parameter vectors and all channel/peak/hidden-layer counts",
  "Tests only check vector length or single random vectors (and most of those fail in this environment); a permuted or shifted segment still has the right length.",
  CAF + ["yuca/cppn.py", "yuca/params_agent.py", "yuca/wrappers/halting_wrapper.py"],
  [("get_params / set_params pairs walk the same sequence of parameter tensors with a contiguous cursor", "yuca/ca/continuous.py, yuca/ca/neural.py, yuca/ca/reaction_diffusion.py, yuca/lenia.py, yuca/cppn.py, yuca/params_agent.py")],
  ["get_params() after set_params(v)"])

p("C04", "The convolution in use always matches the current kernel",
  "After any operation that changes the neighborhood or identity kernel - default construction, loading a configuration, setting the kernel radius, setting a kernel configuration, setting a parameter vector, or cloning a CA into a neural one - the convolution applied by the next step holds exactly the current kernel, with the padding that belongs to its size, and the reported kernel radius is the radius that kernel was built with.",
  ["histories", "configurations"], "every sequence of kernel-changing operations, for every CA family",
  "Tests call one setter and look at shapes; a stale layer gives plausible grids and only differs after the specific setter is used on the specific family.",
  CAF + ["yuca/clone.py"],
  [("each kernel change re-initialises the conv layer from the stored kernel", "set_kernel_radius/set_kernel_config/load_config/set_params/default_init")],
  ["weights of the layers used by ca(grid)"],
  [("neighborhood kernel", "tensor applied by the neighborhood convolution", "CA instance"), ("kernel radius", "radius it was built with", "CA instance")])

p("C05", "Saved configurations restore the rule that was saved",
  "For CCA, NCA and Gray-Scott CAs, every field written when a configuration is made (identity kernel, neighborhood kernel, genesis and persistence functions, step size, spatial step, diffusion/feed/decay rates, parameter vector, architecture arguments) is read back under the same name and meaning when that configuration is loaded, and a configuration made right after loading one carries the loaded field values. Nothing that determines the update is left out of the written configuration, and saving writes the configuration of that instance at call time unless one is passed explicitly.",
  ["configurations", "histories"], "all loadable configurations and all save/load histories of an instance",
  "Tests reload one default configuration and compare a couple of fields; a field written under a name nobody reads falls back to a default silently.",
  ["yuca/ca/continuous.py", "yuca/ca/neural.py", "yuca/ca/reaction_diffusion.py", "yuca/configs.py"],
  [("make_config/save_config and load_config/restore_config use one key vocabulary", "yuca/ca/*.py")],
  ["make_config() after load_config(c)"])

p("C06", "Configurations are never shared between instances or with the caller",
  "Loading a configuration into a CA, and everything later done to that CA (changing radius, setting parameters, making or saving a configuration), leaves the caller's configuration object unchanged; a configuration that was made is a deep snapshot that later changes to the CA do not affect and that never aliases the CA's live state. The built-in configuration factories return fresh objects whose genesis and persistence parts are independent of each other and of any later call.",
  ["histories", "configurations"], "all sequences of load/modify/make over any number of instances sharing one configuration dict",
  "Tests load a configuration once into one instance; sharing needs two instances (or a reload) and a mutation in between.",
  ["yuca/ca/common.py", "yuca/ca/continuous.py", "yuca/ca/neural.py", "yuca/ca/reaction_diffusion.py", "yuca/configs.py"],
  [("deep copies at the load and make boundaries", "load_config/make_config/get_*_config")],
  ["the caller's dict after the call"])

p("C07", "Simulated time advances by exactly the step that was taken",
  "Each step of a CA advances its time counter exactly once, by exactly the step size that multiplied the update in that step; previews and adaptive trial evaluations do not advance it, and resetting (also at construction) sets it to zero, for every family including the second-order, adaptive and random-step ones.",
  ["inputs", "histories", "configurations"], "all step sequences, dt values and families",
  "Tests check one or two families for a fixed dt; double counting, counting trial steps, or counting the wrong dt in adaptive or random-step families is not sampled.",
  CAF, [("single t_count += dt per forward; reset sets 0", "forward/adaptive_euler/get_new_grid/reset")],
  ["ca.t_count before and after ca(grid)"], [("t_count", "simulated time", "CA instance")])

p("C08", "All implementations compute the same published update rule",
  "Glaberish families (CCA and its adaptive, random-step and second-order variants, in both precision branches) update by mixing (1 - identity) * genesis(neighborhood) + identity * persistence(neighborhood), Lenia by genesis(neighborhood) alone, and the reaction-diffusion family by the Gray-Scott equations with Laplacians scaled by 1/dx^2 (u: Du*lap(u) - u*v^2 + f*(1-u); v: Dv*lap(v) + u*v^2 - (f+k)*v); growth function i acts on neighborhood channel i. First-order families then take the Euler step state + dt * update, MetaCA integrates velocity (velocity + ddt * update) before moving by dt * velocity.",
  ["inputs", "configurations"], "all grids, parameters, dtypes and families",
  "Tests look at shapes and ranges; a wrong sign, a swapped term or a one-branch change keeps shapes and often keeps plausible dynamics.",
  CAF, [("update_universe/forward/genesis/persistence", "yuca/ca/*.py, yuca/code.py, yuca/lenia.py, yuca/metaca.py, yuca/random_step_ca.py")],
  ["ca(grid)"])

p("C09", "A preview frame equals the step it previews",
  "For the fixed-step families (base CA, CCA, NCA, Lenia, Gray-Scott) the grid component of a preview frame, in every preview mode, is the same function of the input grid as the step itself, for any number of channels including grids with an alpha channel; the extra components are the neighborhood, update and input grids named for that mode, and previewing changes no state of the CA.",
  ["inputs", "configurations"], "all grids, channel counts, modes and families",
  "Tests never compare a frame with a step, and use one channel, where the alpha-channel mask is inactive.",
  CAF[:4] + ["yuca/lenia.py", "yuca/utils.py"], [("get_frame duplicates forward's computation", "yuca/ca/common.py, yuca/ca/continuous.py")],
  ["ca.get_frame(grid, mode) versus ca(grid)"])

p("C10", "Kernels are centred, non-negative and normalised",
  "Every kernel builder (named-configuration and stand-alone) samples its profile on the (2r+1) x (2r+1) grid of distances from the centre divided by r (edge kernels: difference of two copies shifted by plus/minus dx), then shifts by its minimum and divides by (a tiny constant plus) its sum, so weights are non-negative and sum to at most one; Moore-like kernels are uniform with a zero centre and unit sum, identity kernels are a single unit centre weight, and the Laplacian kernels, exempt from that, have zero total weight (up to rounding).",
  ["inputs", "configurations"], "all radii and kernel parameters, all builders",
  "Tests build a few kernels at fixed radii and check shapes or sums for some of them only.",
  ["yuca/kernels.py", "yuca/activations.py"], [("subtract min, divide by eps + sum", "yuca/kernels.py")], ["kernel tensors"])

p("C11", "Names select the component they name, everywhere",
  "The CA family, environment, growth-function, kernel and activation names accepted from configurations and the command line each select the component of that name: the three search modes accept the same CA names and map them identically, the genesis and persistence slots accept the same function names and build the same classes, a longer name is never captured by a shorter one it contains, and unknown CA, environment or kernel names are rejected rather than silently replaced. The activation name written into an NCA configuration is one that loading maps back to the same activation.",
  ["configurations"], "all supported names in all modes/slots, and unknown names",
  "Tests exercise a few names in one mode; the substring chains make correctness depend on branch order.",
  ["yuca/evolve.py", "yuca/ca/continuous.py", "yuca/ca/neural.py", "yuca/kernels.py"],
  [("if/elif dispatch chains and the activation table", "evolve.py, add_genesis_fn/add_persistence_fn, get_kernel, activation_dict")])

p("C12", "A seed fully determines an evolution run's results",
  "All randomness that can influence fitness values, population parameters, selected elites or saved configurations comes from the two seeded global generators (NumPy and Torch): seeding sets both to the given seed, each fitness evaluation seeds before its first draw and before the environment is reset, the starting distribution is drawn after seeding, each run of a seed seeds before the population is sampled and starts from the same distribution and elites whichever seeds ran before it, every environment starts an evaluation from a reset CA, and neither wall-clock time, OS state nor unordered iteration flows into those results (the deliberately random baseline environment excepted). Time may only influence names, progress messages and logged durations.",
  ["histories", "configurations", "inputs"], "all seeds, environments, selection modes and worker counts",
  "Tests run one tiny search; a draw before seeding or a time-dependent value changes results only across runs.",
  ["yuca/cmaes.py", "yuca/utils.py", "yuca/wrappers/halting_wrapper.py", "yuca/wrappers/glider_wrapper.py", "yuca/cppn.py", "yuca/params_agent.py"] + CAF,
  [("seed_all before use", "get_fitness, mantle, seed_all")])

p("C13", "Selection keeps the fittest and never corrupts them",
  "In every selection mode the elites are chosen by descending fitness (truncation: the best k in order; tournament: the best of each bracket; proportional: lottery with weights decreasing in rank), k = population/8 + 1, the new mean is the elites' mean and the new covariance is taken about the previous mean; elites carried to the next generation keep exactly their own parameters, the rest are resampled, and the stored elite parameters are those of the selected individuals. The final ranking always stores the best first and saves a configuration that encodes the best individual's rule. An individual's fitness is the mean reward over its steps and replicates, and a search resumed from a log starts from the first k elites of its last generation and from their mean.",
  ["histories", "inputs", "configurations"], "all fitness vectors, population sizes, selection modes and generations",
  "Tests run one or two generations with constant-like fitness; order and aliasing errors need particular fitness permutations.",
  ["yuca/cmaes.py"], [("update_population / rank_population", "yuca/cmaes.py")],
  ["elite_params, means, covar, population after an update"])

p("C14", "Distributed evaluation gives the results of the serial loop",
  "With workers, every individual of the population is evaluated exactly once per generation, in population order, with the same step count, replicate count and per-generation seed as in the serial loop, on the parameters of the current population; master and workers agree on the shape of every message (work item, result, shutdown), workers are always shut down at the end, and running with one worker behaves like the serial mode.",
  ["schedules", "configurations", "histories"], "all worker counts, population sizes and message interleavings",
  "No test starts MPI; a mismatch deadlocks or silently permutes fitness values.",
  ["yuca/cmaes.py"], [("mantle / arm message protocol", "yuca/cmaes.py")])

p("C15", "The zoo never overwrites a pattern and returns what was stored",
  "Storing a pattern never replaces an existing stored pattern or its metadata: both files get the first free numbered name, for any history of stores. Loading returns the stored array and, for each metadata field (configuration, commit hash, notes, entry point), the value that was stored under that field, including values containing commas, and the configuration name is recorded whichever of its two arguments supplied it.",
  ["histories", "inputs"], "all store/load sequences, names and metadata strings",
  "Tests store and load one pattern with simple metadata.",
  ["yuca/zoo/librarian.py"], [("store/load", "yuca/zoo/librarian.py")])

p("C16", "Verbosity changes what is printed and nothing else",
  "For every operation that takes or stores a verbose/quiet flag (pattern library, configuration loading, cloning), all effects other than printing - files written, values returned, state changed - are the same whatever the flag's value.",
  ["configurations", "inputs"], "every flag value at every operation that consults one",
  "Tests run with one flag value.",
  ["yuca/zoo/librarian.py", "yuca/ca/continuous.py", "yuca/ca/neural.py", "yuca/ca/reaction_diffusion.py", "yuca/clone.py"],
  [("verbose guards", "store/load/restore_config/clone_from_ca")])

p("C17", "Rendering removes only its own frames and runs no shell",
  "Making an animation deletes nothing except the frame images and frame directory it was given, whatever characters the paths or tags contain; no file operation in the library goes through a shell or an interpolated command string. Frames are written under names whose lexicographic order is the time order, one per rendered step, starting with the initial grid, and the animation is assembled from all of them in that order.",
  ["inputs", "configurations"], "all paths, tags, step counts and channel counts",
  "Tests use one benign path; a space or metacharacter in a tag changes what is deleted.",
  ["yuca/utils.py", "yuca/cmaes.py", "yuca/evolve.py", "yuca/analyze.py"], [("make_gif / save_fig_sequence cleanup", "yuca/utils.py")])

p("C18", "Convolutions preserve grid size, honour the boundary mode and are frozen",
  "The identity and neighborhood convolutions of every family keep the grid's height and width (padding is half of the odd kernel size), use the instance's configured boundary mode, have no bias, use one group per external channel when the channel counts divide and otherwise one group, and their weights are excluded from gradients; the weight layers that mix channels are 1x1 and bias-free.",
  ["configurations", "inputs"], "all radii, boundary modes, channel combinations and families",
  "Tests use circular padding, one channel and small radii.",
  CAF[:4], [("initialize_id_layer / initialize_neighborhood_layer / initialize_weight_layer", "yuca/ca/*.py")])

p("C19", "Environments are interchangeable and evaluate in inference mode",
  "Every environment (halting, simple halting, glider, random baseline) offers reset, eval, to-device and step, step always returns (observation, reward, done, info) with an active-grid entry, and switching an environment to evaluation switches its CA to inference mode as well, so dropout never acts during fitness evaluation; moving an environment to a device moves its CA and its own tensors. Every fitness evaluation resets the environment, moves it and puts it in evaluation mode before stepping, in the plain and in the co-evolution search.",
  ["configurations", "histories"], "all environments x search modes x CA families",
  "Tests use CPU, and dropout effects are random noise on a fitness nobody pins.",
  ["yuca/wrappers/halting_wrapper.py", "yuca/wrappers/glider_wrapper.py", "yuca/wrappers/random_wrapper.py", "yuca/cmaes.py"],
  [("eval/to_device/step of the wrappers", "yuca/wrappers/*.py"), ("get_fitness", "yuca/cmaes.py")])

p("C20", "Adaptive and random steps stay inside their bounds",
  "The adaptive family never steps by more than its maximum step nor by more than twice the previous step, uses its minimum step when no candidate passes, and accepts a larger candidate only if the error estimate between one full and two half steps of that very candidate was below the threshold, shrinking it strictly otherwise; the accepted step is the one taken, counted and remembered. The random-step family draws each step uniformly between its minimum and maximum. After a step the step size can be queried in every family.",
  ["inputs", "histories"], "all grids, thresholds, previous steps and histories",
  "Tests run a few steps and do not see the candidate loop's intermediate choices.",
  ["yuca/code.py", "yuca/random_step_ca.py"], [("adaptive_euler", "yuca/code.py"), ("get_new_grid", "yuca/random_step_ca.py")])

p("C21", "Every command-line option takes effect",
  "Every option declared by the evolution, cloning, plotting, analysis and step-predictor command lines is consulted by the code that the command runs, under the name the parser gives it, and its value (not a constant), converted to a type that can express it, reaches that code in every search mode.",
  ["configurations"], "every declared option of every command",
  "Tests call the functions directly with keyword arguments and never notice an option nobody reads.",
  ["yuca/evolve.py", "yuca/clone.py", "yuca/plot.py", "yuca/analyze.py", "yuca/step_predictor.py"],
  [("argparse declarations and query_kwargs reads", "each __main__ block")])

p("C22", "The step predictor trains, evaluates and saves itself, using all layers",
  "Fitting and evaluating a step predictor run that predictor's own network, whatever other objects exist in the module; its forward pass applies every convolution block it registered, in order, and adds each block's output to the running grid; layers keep the grid's size and no forward pass writes into the grid it is given; training runs with dropout at the rate asked for and evaluation without; every training batch is one optimisation step (gradients cleared, mean squared error propagated, one optimizer over all parameters stepped) and validating or evaluating records no gradients; validation and evaluation losses are squared errors per sample over all batches; each validation, the last epoch included, adds one entry to each of its records and saves progress and model, to two different files derived from its experiment tag; the final report names each loss after the data it was computed from; constructor and fitting options take effect, and the seed given is set before the layers are built.",
  ["inputs", "configurations"], "all layer counts and call contexts",
  "There is no test for the predictor; as a script it happens to define a global of the right name.",
  ["yuca/step_predictor.py"], [("fit/evaluate/forward", "yuca/step_predictor.py")])

p("C23", "The evolution log has one complete record per generation",
  "Each completed generation adds exactly one entry to each of the elite-configuration, mean, maximum, minimum and standard-deviation records, computed from that generation's full fitness list, and the log is saved after that; every record that the plotting and resuming code reads is one that the search writes, with the meaning its name says.",
  ["histories", "configurations"], "all generation counts, early stopping, seeds and search modes",
  "Tests run one or two generations and only check that a file exists.",
  ["yuca/cmaes.py", "yuca/plot.py", "yuca/ca/continuous.py", "yuca/wrappers/glider_wrapper.py"],
  [("progress dict in mantle; readers of logs", "yuca/cmaes.py, yuca/plot.py")])

p("C24", "Agents built from a parameter vector hold that vector",
  "Constructing any evolvable agent (pattern network, pattern-plus-rule network, parameter agent) with a parameter vector gives an agent whose parameters are that vector (a parameter agent asked to filter acts with the absolute values, and holds vectors set later as absolute values clipped to [1e-4, 1]; one asked for a number of parameters draws that many), and the pattern network's input always has the channel count its first layer expects, for any number of channels; pattern outputs are non-negative and fade to (near) zero outside the radius threshold.",
  ["configurations", "inputs"], "all agents, channel counts and parameter vectors",
  "Tests build agents with default arguments and one or two channels.",
  ["yuca/cppn.py", "yuca/params_agent.py", "yuca/cmaes.py"], [("constructors and get_cppn_input", "yuca/cppn.py")])

p("C25", "Life-like rule strings become the right intervals in the right slots",
  "A Life-like configuration maps each birth count b to the interval [(2b-1)/16, (2b+1)/16] in the genesis function and each survival count likewise in the persistence function, over a Moore neighborhood of the requested radius with unit step; the SmoothLife configuration likewise sends birth intervals to genesis and survival intervals to persistence. The smooth-interval function is high exactly between the bounds of each interval and sums over all intervals.",
  ["inputs", "configurations"], "all birth/survival lists and radii",
  "Tests use B3/S23 only, where a swap still yields activity.",
  ["yuca/configs.py", "yuca/activations.py"], [("get_smooth_interval/get_life_like_config/get_smooth_life_config", "yuca/configs.py")])

p("C26", "Parameters are written only with gradients off",
  "Every in-place overwrite of a trainable parameter by the library happens after gradients were switched off for that parameter (or while it is still frozen from construction), and switching gradients off covers every parameter that setting or moving parameters writes, so setting parameters or moving to a device never fails on, or silently records, a gradient history.",
  ["histories", "configurations"], "all orders of training, setting parameters and moving devices, for all families",
  "Tests rarely enable gradients before setting parameters.",
  CAF[:4] + ["yuca/lenia.py", "yuca/cppn.py"], [("no_grad() first in set_params/to_device", "yuca/ca/*.py, yuca/lenia.py, yuca/cppn.py")])

p("C27", "Signed growth functions are the rescaled unsigned ones",
  "For each growth function that offers an unsigned and a signed mode, the signed output is 2*f - 1 of the unsigned output f (clamped to [-1, 1] where the unsigned one is clamped to [0, 1]), and for the bounded functions (Gaussian, Gaussian mixture, double Gaussian) outputs stay within [0, 1] and [-1, 1] respectively for every input and parameter value.",
  ["inputs", "configurations"], "all inputs, parameters and both modes",
  "Tests evaluate a few points in one mode.",
  ["yuca/activations.py"], [("mode branches", "yuca/activations.py")])

p("C28", "Universe analysis keeps its series aligned and its resources separate",
  "Analysing a universe yields series (steps, autocorrelation, mortality, fertility, entropy mean and deviation) of equal length with one entry per simulated step (the run stops early only once nothing is left, and that step too has its entries), the grid compared at each step is the immediately preceding one; mortality is one minus the share of grids with a positive mean, fertility the share of grids with activity on the border, the last step recorded is the first empty one (-1 if none), the correlation is taken between grids each normalised by its own mean and deviation; every sample of the batch starts from a pattern drawn for it; every .npy configuration in the directory is analysed, and its results are computed from that configuration and saved under a name derived from it.",
  ["inputs", "histories"], "all universes, step counts and early stops",
  "There is no test of the analysis loop.",
  ["yuca/analyze.py"], [("analyze_universe / analyze_multiverse", "yuca/analyze.py")])

p("C29", "Cloning saves the weights that had the best error, per configuration",
  "Cloning CAs into neural ones saves, for each configuration, the weights whose relative error was the lowest recorded for that configuration - a snapshot taken at the step that measured it, before the optimiser changes the weights, and never weights trained for another configuration - into a file whose name is derived from that configuration when the name template asks for it; training updates only the neural clone, all of it, on grids of the CA being cloned, with gradients cleared at every step, and every configuration starts from the requested hidden size.",
  ["histories", "configurations"], "all error sequences and lists of configurations",
  "No test runs the cloning loop to a second improvement or a second configuration.",
  ["yuca/clone.py", "yuca/ca/neural.py"], [("clone_from_ca", "yuca/clone.py")], ["the saved state dictionary, the file names"])

p("C30", "Activation functions compute their documented curves",
  "Gaussian computes exp(-((x - mu)/sigma)^2 / 2) for its own mu and sigma; a Gaussian mixture sums amplitude-weighted Gaussians whose parameters are read in consistent (amplitude, mean, deviation) groups, every group once; double and difference-of-Gaussian functions combine exactly their two Gaussians; the polynomial, cosine and SmoothLife-annulus kernels' profiles are functions of the distance only, vanish outside their support and use their own parameters; identity is the identity.",
  ["inputs", "configurations"], "all inputs and parameter values",
  "Tests evaluate the functions at a few points with default parameters.",
  ["yuca/activations.py", "yuca/kernels.py"], [("forward methods", "yuca/activations.py")])

p("C31", "Entropy measures compute the documented formulas",
  "Grid entropy is the Shannon entropy (base 2, minus sign, probabilities normalised over all 256 levels) of the grid rescaled to 8 bits, in both implementations; conditional entropy uses joint counts of a cell and its neighbor in the requested direction, normalised for the joint and by the neighbor's marginal for the conditional probability, and the multi-directional value averages the four directions; neighbor grids are periodic shifts by exactly one cell; levels no cell has contribute nothing rather than making the result undefined; the analyser's moving window (Phanes.get_spatial_entropy) is centred on its cell and periodic.",
  ["inputs"], "all grids, directions and window sizes", "Nothing tests the entropy functions.",
  ["yuca/analyze.py"], [("get_grid_entropy, get_conditional_grid_entropy, np_shift, get_spatial_entropy", "yuca/analyze.py")])

p("C32", "Environments reward what they document",
  "Every environment that takes rule parameters evaluates the rule proposed to it. The simple halting environment draws random grids for the whole batch, clears the outer quarter on every side, runs ca_steps CA steps (ending early only when every grid is empty) and rewards minus the distance between the share of samples that end with anything left and its target share; the active-grid entry is that share. The halting environment trains its predictor for train_steps optimisation steps in training mode, then scores it in evaluation mode on freshly drawn grids: the prediction is made from the grids after the first bigbang_steps steps, the outcome is that of those same grids after ca_steps further steps (something left in mode 0, something still changing in mode 1, both in that order otherwise; one flag per sample), and the reward is minus the accuracy, the mean agreement of rounded predictions and outcomes. The glider environment starts from the pattern proposed and adds, step by step, the displacement of its centre along the grid's last axis, in kernel radii, from the previous step's (corrected for wraparound when it passes from the last two radii to the first two, none before there is a centre) less the change of mass relative to the previous step's, ending early only when the grid is empty or stops growing anywhere; its active-grid entry is the final grids' mean, and moving it to a device leaves both coordinate grids as they were. The CA's clock is set back before each run.",
  ["inputs", "configurations"], "all parameter proposals, grids, step counts and prediction modes", "Tests only check that a step returns.",
  ["yuca/wrappers/halting_wrapper.py", "yuca/wrappers/glider_wrapper.py"], [("step, meta_step, get_accuracy", "yuca/wrappers/*.py")], ["the reward and active-grid entry a step returns"])

p("C33", "Things are set up as they were asked to be",
  "Constructing a CA family, environment, pattern network, step predictor, universe analyser or pattern library with an option (kernel radius and peaks, channel counts, boundary mode, device, thresholds, step bounds, hidden size, dropout rate, learning rate, block count, run length, batch size, grid dimension, prediction mode, directories, verbosity) leaves the object holding and using the value given, also after its default rule is built; a kernel-parameter vector that is already there is kept. An initial grid has the requested batch size, the CA's external channels and the requested rows and columns (a number or a pair), with zeros for the base family and the Gray-Scott background equilibrium in every sample and cell for the reaction-diffusion one. What a setter (time step, spatial step, diffusion rates, kernel radius) was given is what its getter returns, for numbers and tensors. Moving to a device changes no value. Networks (neural CA, pattern network, halting predictor) lead from the CA's channels through hidden layers of the requested size, with the requested activation and dropout, to the external channels; both Gray-Scott species get the same kernel; every trainable parameter is registered under its own name; an environment builds its CA from the class and options it was given; proposals have the shape of the parameters of the rule it ends up with; the predictor's optimizer holds all of its parameters. After a kernel configuration is set the CA holds it, its radius and the kernel built from it.",
  ["inputs", "configurations"], "all option values, grid sizes and set values", "Tests construct objects with a few values and mostly the defaults, for which an ignored option looks honoured.",
  ["yuca/ca/common.py", "yuca/ca/neural.py", "yuca/ca/reaction_diffusion.py", "yuca/ca/continuous.py", "yuca/cppn.py", "yuca/wrappers/*.py"],
  [("__init__, default_init, initialize_grid, set_*/get_*, to_device, initialize_weight_layer, init_model, include_parameters", "yuca/ca/*.py")], ["attributes after construction, the grid returned, the value a getter returns"])

p("C34", "Built-in rules, patterns and prepared inputs are what they are named after",
  "The built-in Orbium and Geminium configurations carry the published kernel (Gaussian ring 0.5 / 0.15; three rings 0.5, 1, 2/3 at 0.093809, 0.28143, 0.46904 of width 0.033) and growth parameters (0.15 / 0.015; 0.26 / 0.036) with signed growth in both slots and the radius asked for. The built-in patterns are rectangular arrays between 0 and 1: the glider is a phase of the Life glider, the puffer is Morley's, the smooth patterns are cell by cell the published ones. A mask is 0 exactly where the distance is below the radius and 1 elsewhere; a bite is such a disc around the coordinates given (a random place otherwise) in units of half the image, the same in every channel; an aperture keeps exactly what a centred bite of its radius would remove, and everything from radius 0.975 on. A prepared batch has the requested number of samples and channels (the image's by default), each sample being image * aperture * bite + noise_level * uniform noise in the image's channels, with a bite and noise of its own, and zeros in further channels; a training target is the image itself with a sample dimension.",
  ["inputs", "configurations"], "all images, radii, batch sizes, noise levels and kernel radii", "Tests check shapes, sums and types for a handful of images; a wrong constant, cell, disc or noise passes them.",
  ["yuca/configs.py", "yuca/patterns.py", "yuca/utils.py"],
  [("get_orbium_config, get_geminium_config; get_glider, get_puffer, get_orbium, get_geminium, get_pacman, get_smooth_puffer; get_mask, get_bite_mask, get_aperture, prep_input, make_target", "yuca/configs.py, yuca/patterns.py, yuca/utils.py")], ["the configuration, pattern, mask, batch or target returned"])

# --- properties outside the reach of static analysis
p("N01", "Known patterns keep gliding under their rules",
  "The stored patterns (orbium, geminium, smooth pacman, ...) persist and move under the rule configurations stored with them for arbitrarily many steps and on any sufficiently large grid.",
  ["inputs", "histories"], "all stored patterns and step counts", "Long-run dynamics of a nonlinear map.",
  ["yuca/patterns.py", "yuca/configs.py"], [("rule dynamics", "yuca/ca/continuous.py")])
p("N02", "Halving the step size converges to the same trajectory",
  "For a fixed rule and initial grid, trajectories computed with smaller step sizes converge as the step size goes to zero, and the adaptive family's error estimate bounds its true local error.",
  ["inputs"], "all grids and rules", "A numerical-analysis statement over reals and rounding.",
  ["yuca/code.py"], [("adaptive_euler", "yuca/code.py")])
p("N03", "Cloning reaches the requested error or reports that it did not",
  "A neural clone of a CA whose reported error is below the threshold reproduces that CA's update within that error on unseen grids.",
  ["inputs"], "all CAs and grids", "Generalisation of a trained network.",
  ["yuca/clone.py"], [("training loop", "yuca/clone.py")])
p("N04", "CPU, GPU, single, double and half precision agree within tolerance",
  "A step computed on another device or precision agrees with the float64 CPU step within the precision's rounding error.",
  ["inputs", "configurations"], "all grids, devices and dtypes", "Rounding-error bounds over concrete hardware kernels.",
  ["yuca/ca/common.py", "yuca/ca/continuous.py"], [("dtype branches", "forward")])
p("N05", "Evolution improves fitness",
  "Over generations the best fitness found does not decrease in expectation, and the search distribution contracts around good solutions.",
  ["histories"], "all seeds and environments", "A stochastic-process claim about noisy fitness.",
  ["yuca/cmaes.py"], [("covariance adaptation", "yuca/cmaes.py")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P))
