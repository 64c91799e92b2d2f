"""property id -> (check, technique, floor of decided obligations, level note)"""
from .lib import execute
from .checks import steps, state, params, kernels, config, fns, names, evo, env, io, curves, agents, predictor, entropy, universe, reward, setup, named

ENG = ("Interprets every relevant method of every concrete class of the current source abstractly (all inputs, both sides of every "
       "undecided branch, symbolic loop counts) into a value graph, and decides each rule on that graph. Trusts the interpreter, its table of "
       "torch/numpy operation meanings, and real-number arithmetic (rounding ignored). Constructs outside the interpreted "
       "fragment are reported as UNDECIDED, not as violations; too few decided obligations is an error of the check.")

CHECKS = {
    "C01": (steps.check_C01, "abstract interpretation: interval domain over the value graph", 6, ENG),
    "C02": (state.check_C02, "may-alias effect analysis", 40, ENG),
    "C03": (params.check_C03, "induction-variable analysis of vector layouts", 16, ENG),
    "C04": (kernels.check_C04, "value-graph freshness: convolution weights vs kernel attributes after every mutator", 80, ENG),
    "C05": (config.check_C05, "value-graph composition of load and save; key-set agreement of writers and readers", 38, ENG),
    "C06": (config.check_C06, "may-alias analysis of configuration objects", 32, ENG),
    "C07": (steps.check_C07, "value-graph normal forms: clock increment vs update multiplier", 10, ENG),
    "C08": (steps.check_C08, "value-graph equivalence with the published rules", 5, ENG),
    "C09": (steps.check_C09, "value-graph equivalence of sibling implementations, effect analysis", 24, ENG),
    "C10": (fns.check_C10, "value-graph equivalence of kernel builders with the normalised radial profile; finite evaluation of constant stencils", 24, ENG),
    "C11": (names.check_C11, "name-dispatch tables by concrete evaluation of name guards over the value graph", 92, ENG),
    "C12": (env.check_C12, "information-flow analysis: every random draw and carried value traced to the run's seed", 30, ENG),
    "C13": (evo.check_C13, "value-graph equivalence of ranking and sampling with the published recipes, sizes instantiated", 100, ENG),
    "C14": (evo.check_C14, "constant propagation of the work split, protocol matching over the value graph", 120, ENG),
    "C15": (io.check_C15, "path-string analysis over the value graph: what is written, under which tested name, and read back", 12, ENG),
    "C16": (io.check_C16, "information-flow analysis: events guarded by or computed from the verbosity flag", 10, ENG),
    "C17": (io.check_C17, "effect analysis of file removal; loop-index analysis of frame names and images", 14, ENG),
    "C18": (kernels.check_C18, "value-graph inspection of every constructed convolution layer", 44, ENG),
    "C19": (env.check_C19, "value-graph equivalence of environment fitness with its definition, effect analysis of evaluation", 34, ENG),
    "C20": (steps.check_C20, "loop transition-system rules over the value graph", 8, ENG),
    "C21": (names.check_C21, "parser-to-consumer dataflow over declared options and keyword bundles", 20, ENG),
    "C23": (env.check_C23, "list-growth analysis of the logged record over the generation loop; writer/reader key agreement", 36, ENG),
    "C25": (fns.check_C25, "value-graph equivalence of rule generation with the published rule tables", 8, ENG),
    "C26": (state.check_C26, "effect ordering: requires_grad typestate of every in-place parameter write", 96, ENG),
    "C27": (fns.check_C27, "value-graph equivalence of signed and unsigned branches; interval domain", 5, ENG),
    "C28": (universe.check_C28, "value-graph analysis of the analysis loop: growth of every series per step (typestate over loop-carried lists), measures by normal form, provenance of names and results per iteration", 15, ENG),
    "C29": (universe.check_C29, "event-order and loop-carried dataflow analysis of the training loop: snapshot aliasing, update condition of the record, its span over iterations and configurations, provenance of names and parameters", 10, ENG),
    "C31": (entropy.check_C31, "symbolic value-graph analysis: histogram loops rewritten to whole-array counts and compared with the entropy formulas by normal form; window bounds by linear arithmetic", 38, ENG),
    "C32": (reward.check_C32, "symbolic value-graph analysis: rewards, run lengths, cleared cells and per-step increments of the interpreted environment step evaluated against the documented ones; order of training events", 20, ENG),
    "C33": (setup.check_C33, "value-graph analysis of constructors, setters, grid builders and network builders: what is held afterwards compared with what was asked for; sizes of consecutive layers by normal form", 85, ENG),
    "C34": (named.check_C34, "value-graph analysis of the built-in rule factories, patterns and input builders: constants compared with the published ones, masks and batches by normal form", 20, ENG),
    "C22": (predictor.check_C22, "value-graph analysis of the forward pass per depth; mode typestate over the event stream with loops walked to a fixpoint; losses compared with a specification program; records as carried list values; name resolution; path texts", 60, ENG),
    "C24": (agents.check_C24, "value-graph composition of constructors, readers and writers; symbolic channel counts and axis permutations; interval domain", 50, ENG),
    "C30": (curves.check_C30, "value-graph composition of constructor and forward, compared with the documented curves as polynomials over exp, cos and clamp", 16, ENG),
}


def run(pid):
    fn, tech, floor, note = CHECKS[pid]
    return execute(pid, fn, "other", tech, floor)
