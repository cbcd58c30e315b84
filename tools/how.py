"""Per property: how it is decided (for DESIGN.md)."""
HOW = {
"P01": "Haiku/Flax EWMA unrolled over symbolic observations, numba kernel executed from its Python source; asserted equal, per step, to the closed-form weighted sum (nonlinear real arithmetic; NaN pattern enumerated or symbolic). Chunked processing through the returned state, state mutation checked.",
"P02": "as P01 with the weighted population variance; com/alpha symbolic; polynomial identities discharged after clearing denominators whose sign the oracle proves.",
"P03": "as P01 for E[xy]-E[x]E[y]; both averages taken from the P01 closed form, not from the code.",
"P04": "IEEE bits. Unrolled sequences plus one inductive step from an arbitrary state (content, fill level and int32 write counter symbolic) so arbitrarily long histories are covered.",
"P05": "element-wise definitions on every element and step; Ffill bit for bit, Diff/PctChange over reals with NaN flags, missing values symbolic.",
"P06": "mean over the non-missing entries of the literal window, symbolic missingness, min_periods up to horizon+1; symbolic steps after long concrete prefixes.",
"P07": "IEEE bits (NaN payloads irrelevant, NaN-ness and signed zeros are not); counters by induction.",
"P08": "IEEE comparisons; the reset flag of each step is symbolic so every segmentation is covered.",
"P09": "symbolic masks and data for ApplyMask/MaskMean; for MaskStd masks enumerated and data symbolic, compared through squares (no sqrt in the query).",
"P10": "all event schedules of the bound for each wrapped module; the reference runs the module on the sub-sequence of event steps; state (all collections) compared as well as outputs.",
"P11": "step functions over uninterpreted sin/tanh with symbolic parameters, states and nested inputs; reference is a Python loop over `apply`; prefix/suffix composition and causality (symbolic suffix cannot change prefix outputs) are separate obligations; rng keys concrete.",
"P12": "same technique for the batch/lift/generator drivers; successive calls share state.",
"P13": "each batch element compared with an independent run of the inner function over several calls (cross-talk shows as dependence on another element's symbol).",
"P14": "`Stream.merge` is *called* with symbolic int64 time arrays; every feasible interleaving (ties included) is a path; per path the trace of indices is compared with the definition, then the path's model is replayed through `Stream.trace_dataset` on an xarray Dataset.",
"P15": "same with buffers: window of the last maxlen past indices.",
"P16": "real xarray Dataset for every interleaving class; the values captured by the traced program are recognised by sentinels and replaced by symbols, so the data path (index → gather → mask → module) is decided for all data.",
"P17": "encoders run on symbolic 64-bit integers / timestamps (proxied datetime64, Timestamp); string encoder on ordered symbolic labels through the real LabelEncoder: all equality/order patterns are paths.",
"P18": "two symbolic 64-bit integers through encode+less; floor on symbolic instants, wrapped arithmetic.",
"P19": "`gym_unroll` called with agent/env/callback stubs returning uninterpreted values and symbolic done/stop flags; fault position symbolic; the recorded call history is compared with the protocol.",
"P20": "Haiku/Flax GymFeedback and wrappers traced with opaque agents/environments and compared with the written-out loop; the Gym loop with HaikuAgent/HaikuEnv compared with the unroll.",
"P21": "symbolic parameters/gradients through OptaxOptimizer vs the literal optax loop (uninterpreted transcendental functions); sherman_morrison and newton vs the defining matrix equations.",
"P22": "learners traced for several calls with symbolic data, vs a hand-written loop with `jax.value_and_grad`; all options.",
"P23": "Haiku/Flax ARMA and SNARIMAX-style recursions unrolled over symbolic inputs, coefficients and noise (nonlinear real arithmetic), compared with the literal ARMA recursion; state kept across calls.",
"P24": "the real pandas/xarray accessors are called on data whose *elements* are sentinels; the program they trace is captured, sentinels are replaced by symbols, and the symbolic result is compared element by element with the direct unroll of the module (labels and types compared on the concrete result).",
"P25": "decorated step functions built from opaque functions are traced with symbolic params, states, data; references are Python loops over the plain function.",
"P26": "modules stepped with symbolic scalars; order statistics of the oracle are computed from pairwise ranks, so all orderings and missing patterns are decided; sketches from an arbitrary state (inductive step).",
"P27": "machines and compositions of library modules and opaque dictionary modules traced for several steps; the reference steps each module independently and applies the written-out blending; the selector's attention parameters are symbolic.",
"P28": "two methods: decorated functions are traced through the real decorators and compared with the undecorated ones; the debugger, profiler and tracker are executed on symbolic numbers (times, memory readings, thresholds, flags) on every path, and the recorded history is compared with the history the definition gives for the same calls; every path is also replayed with ordinary numbers.",
"P29": "the tracker, plots, dashboard, figure and graph builders are executed on symbolic values, times, thresholds and presence flags of modules on every path; stand-ins for axes, sockets and files record what they are given; recorded history and drawn data are compared with the history the definition gives, graphs with the module tree; every path is also replayed with ordinary numbers.",
"P30": "the Flax class, its factory and the Haiku class are each built from the same options (each option away from its default, by keyword and by position, and left out), traced, and the symbolic outputs of every step (states too for class/factory) are compared; fill values, coefficients and rates are symbolic.",
"P31": "the real pandas accessor runs on frames of symbolic observations (numba.jit replaced by the identity, every branch of the kernel explored), result and state included; each column is compared with the closed-form weighted mean of P01 over the rows its state has seen, and the compiled kernel is replayed at a concrete point.",
"P32": "`jax.grad` of the real unrolled modules is traced and interpreted (exact reals with NaN/infinity flags) for every pattern of missing values; compared with the derivative of the written-out definition over the observed values only, which contains no missing value; for the masked deviation/normalisation only finiteness is claimed (missing values symbolic).",
}
