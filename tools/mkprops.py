"""Regenerates /verif/properties.jsonl (the source of the property texts)."""
import json, os
S = "src/einsteinpy/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[S + f for f in files],
                     mechanism=[dict(name=n, where=S + w) for n, w in mech],
                     **({"state": [dict(name=n, meaning=m, where=S + w) for n, m, w in state]} if state else {}),
                     observe_at=observe or [], hook_needed=hook)))


SYM = ["symbolic/tensor.py", "symbolic/metric.py", "symbolic/christoffel.py", "symbolic/riemann.py", "symbolic/ricci.py",
       "symbolic/einstein.py", "symbolic/weyl.py", "symbolic/schouten.py", "symbolic/stress_energy_momentum.py",
       "symbolic/vector.py", "symbolic/helpers.py"]
NUM = ["metric/base_metric.py", "metric/schwarzschild.py", "metric/kerr.py", "metric/kerrnewman.py",
       "coordinates/core.py", "coordinates/conversion.py", "coordinates/differential.py", "coordinates/utils.py"]
INT = ["integrators/fantasy.py", "integrators/utils.py", "geodesic/geodesic.py", "geodesic/utils.py", "utils/dual.py"]
PLT = ["plotting/geodesic/static.py", "plotting/geodesic/interactive.py"]

prop("C01", "Threads sharing symbolic objects each get the stand-alone answer",
     "When several threads use the same symbolic metrics, tensors, vectors and transformation matrices at once, every call "
     "returns what the same call returns on an unshared object with no other thread running: the same values, index "
     "configuration, names and symbols, never a partly built, foreign or stale one. This holds wherever the threads are "
     "switched, and every call finishes.",
     ["schedules", "histories"],
     "For all interleavings of public query calls (inverse, index changes, curvature derivations, products, Lorentz "
     "transforms, lambdified evaluation, simplification, substitution) by several threads over shared objects.",
     "Every existing test is single-threaded and builds a fresh object per test; none shares one lazily cached inverse "
     "between callers, so no schedule but the trivial one is ever run.",
     SYM, [("lazy inverse of a metric", "symbolic/metric.py: inv, change_config, lower_config"),
           ("lazy inverse of a transformation matrix", "symbolic/helpers.py: TransformationMatrix.inv"),
           ("index changes through the parent metric", "symbolic/tensor.py: _change_config"),
           ("in-place simplification publishes one finished array", "symbolic/tensor.py: simplify")],
     [("cached inverse", "inverse metric, filled on first use and shared by all callers", "symbolic/metric.py"),
      ("tensor components", "replaced by simplification while others read", "symbolic/tensor.py")],
     ["return values of every public symbolic call", "completion of every call"])

prop("C02", "A query cut short anywhere can be repeated with the right answer",
     "If a query on a symbolic tensor, numeric metric, coordinate object, embedding or shadow is cut short at any point by "
     "an interrupt, a failed allocation or an error in a user-supplied function, the error reaches the caller, and repeating "
     "it or making any other query on the same objects gives exactly the answer it would have given had nothing been cut short.",
     ["crash_points", "fault_sequences"],
     "For every point inside a query at which a call it makes may be cut short, every sequence of such faults, and every "
     "later query on the same objects.",
     "The tests raise only argument errors before any work is done and never touch the object again; no test cuts a "
     "computation short half way and then retries.",
     SYM + NUM + ["hypersurface/schwarzschildembedding.py", "rays/shadow.py"],
     [("cache filled only with a finished value", "symbolic/metric.py: inv"),
      ("cache filled only with a finished value", "symbolic/helpers.py: TransformationMatrix.inv"),
      ("queries compute into fresh local arrays", "metric/base_metric.py, metric/kerr.py, metric/kerrnewman.py, metric/schwarzschild.py"),
      ("velocity is computed before it is stored", "coordinates/differential.py: velocity")],
     None, ["return values and exceptions of queries before, at and after the fault"])

prop("C03", "A geodesic integration step is recorded once and whole, or not at all",
     "However a single integration step ends - normally, by an error or interrupt from the metric function, by a failed "
     "numeric call, or by a warning turned into an error - the recorded steps, the step counter and the current state agree: "
     "the step either counts everywhere or nowhere. Stepping on afterwards yields exactly the states of a run without faults, with no step lost, repeated "
     "or altered.",
     ["fault_sequences", "crash_points", "histories"],
     "For every step, order of the scheme, metric, set of integration settings and every sequence of faults raised at any "
     "metric evaluation, numeric call or warning, with stepping resumed after each.",
     "Existing integrator tests run a fixed number of steps with a metric that never fails and never look at the integrator "
     "again after an exception.",
     INT, [("record, state and counter advance together, before the call back into the metric", "integrators/fantasy.py: step"),
           ("flows computed from local copies", "integrators/utils.py: _flow_A, _flow_B, _flow_mixed")],
     [("recorded steps, current state, step count", "must describe the same history", "integrators/fantasy.py")],
     ["integrator results, step count and state after each step attempt"])

prop("C04", "ODE steppers stop at their bound, repeat failed steps and surface errors",
     "Both Runge-Kutta steppers advance to their bound in either direction in a bounded number of steps, and from then on "
     "every further step leaves time and value unchanged and warns exactly once. An error raised by the user's function "
     "reaches the caller as itself, with time and value as before the step, and repeating the step gives exactly the states "
     "of a run without the error.",
     ["fault_sequences", "histories"],
     "For every right-hand side, direction, step size, bound and every sequence of errors raised by the function at any of "
     "its evaluations, with stepping resumed after each.",
     "One existing test makes ten steps of one forward problem; the bound of the fixed-step stepper, backward integration "
     "and failing functions are never exercised.",
     ["integrators/runge_kutta.py"],
     [("bound check before any work, new value committed after all evaluations", "integrators/runge_kutta.py: RK4naive.step"),
      ("finished solvers warn instead of raising", "integrators/runge_kutta.py: RK45.step")],
     [("time, value, direction", "advance together after the last evaluation", "integrators/runge_kutta.py")],
     ["stepper time and value, warnings and exceptions after every step attempt"])

prop("C05", "A saved or copied object resumes exactly where it was",
     "Deep-copying or pickling any value object, metric, tensor, coordinate, body, geodesic or integrator at any "
     "point of its life and restoring it later, also in another process with a different hash seed, gives an object whose "
     "public values and whose answers to all further queries and steps are identical to the original's. The copy and the "
     "original are independent, and a run restarted from its last checkpoint any number of times produces the "
     "uninterrupted result.",
     ["crash_points", "histories", "configurations"],
     "For every history of operations, every point at which a checkpoint is taken or the process is lost, and every "
     "process the checkpoint is restored in.",
     "No existing test copies or pickles anything, let alone between two steps or into another process.",
     SYM + NUM + INT + ["bodies.py", "symbolic/constants.py", "integrators/runge_kutta.py"],
     [("scheme is a bound method of the integrator, rebound by a copy", "integrators/fantasy.py: __init__"),
      ("state kept in plain attributes only", "integrators/runge_kutta.py, geodesic/geodesic.py, coordinates/differential.py"),
      ("constants and transformation matrices say how they are rebuilt", "symbolic/constants.py: __getnewargs_ex__; symbolic/helpers.py: __reduce__")],
     None, ["public attributes and query results of the restored object"])

prop("C06", "Simultaneous integrations do not influence one another",
     "Any number of integrators, geodesics and steppers that are constructed and advanced at the same time - in several "
     "threads or alternately in one, sharing metric functions, parameters and initial data - each produce bit for bit the "
     "trajectory they produce alone. Recalculating a geodesic with other settings, also from several threads, neither "
     "changes its stored trajectory nor any other calculation.",
     ["schedules", "histories"],
     "For all interleavings of construction, stepping and recalculation of any set of integrations over shared inputs.",
     "Tests integrate one geodesic at a time in one thread, so scratch state shared between integrations would go unnoticed.",
     INT + ["integrators/runge_kutta.py"],
     [("all intermediate state is local to a step", "integrators/utils.py, utils/dual.py: _diff_g, _jacobian_g"),
      ("each calculation owns its integrator", "geodesic/geodesic.py: calculate_trajectory")],
     None, ["trajectories, states and stored results of every integration"])

prop("C07", "Threads sharing numeric metrics and coordinates get their own answers",
     "When several threads query the same numeric metric and coordinate objects at once - covariant and contravariant "
     "metric, electromagnetic potential and tensor, singularities, four-velocities with different metrics, conversions "
     "between coordinate systems, embeddings - each call returns bit for bit what it returns alone for its own arguments, wherever the "
     "threads are switched, and every call finishes.",
     ["schedules"],
     "For all interleavings of queries with different arguments by several threads over shared metric, coordinate and embedding objects.",
     "All existing tests are single-threaded; a buffer or remembered argument shared between calls cannot show in them.",
     NUM + ["hypersurface/schwarzschildembedding.py"],
     [("queries build fresh arrays from their arguments", "metric/base_metric.py, metric/kerr.py, metric/kerrnewman.py, metric/schwarzschild.py"),
      ("velocity returns its own time component", "coordinates/differential.py: velocity")],
     [("last time component of velocity", "shared by all callers of one coordinate object", "coordinates/differential.py")],
     ["return values of every query"])

prop("C08", "Each plotter's picture holds exactly what was drawn through it",
     "With any number of geodesic plotters in use at the same time, in any order and mixed with other drawing through the "
     "same plotting library in figures of its own, the picture a plotter shows or saves contains exactly what was last drawn "
     "through that plotter (for the interactive one: everything since it was last cleared). A draw rejected for its choice of aspect or coordinates leaves "
     "the picture as it was, and no plotter changes the geodesic it draws or another figure.",
     ["histories", "schedules"],
     "For all sequences of drawing, showing, saving, clearing and rejected calls, interleaved over several static and "
     "interactive plotters, geodesics and foreign figures.",
     "Each test uses one plotter with one figure and mostly asserts that the library was called, not what the picture holds.",
     PLT + ["plotting/geodesic/core.py"],
     [("each draw makes its own figure", "plotting/geodesic/static.py: _draw_bh, _draw_bh_2D, parametric_plot"),
      ("save and show select the plotter's own figure", "plotting/geodesic/static.py: save, show"),
      ("each plotter owns one figure", "plotting/geodesic/interactive.py: __init__")],
     [("current figure of the plotting library", "process-wide, changed by every plotter", "plotting/geodesic/static.py")],
     ["saved image bytes, figure contents (lines, labels, titles, traces), geodesic trajectory"])

prop("C09", "Frame k of an animation shows exactly the first k computed points",
     "Whenever the display timer fires - late, early, repeatedly, with frames dropped, repeated or out of order, and while other plotters, "
     "animations and calculations run in between - frame k of a geodesic animation shows exactly the first k computed "
     "positions of its own geodesic. There is one frame per computed point; frames come at the requested interval and repeat "
     "from the start.",
     ["schedules", "fault_sequences"],
     "For all timer schedules (delayed, dropped, duplicated and reordered frames), numbers of concurrent animations and "
     "operations interleaved between frames.",
     "The tests only check that an animation object was created; no frame is ever drawn.",
     ["plotting/geodesic/static.py"],
     [("a frame is computed from its number alone", "plotting/geodesic/static.py: animate, _update")],
     None, ["points shown by the animated line after each delivered frame", "requested timer interval and frame order"])

prop("C10", "No operation leaves a trace in process-wide settings",
     "After any public operation of the imported package - successful, rejected, or cut short at any point by an interrupt "
     "or failed allocation, alone or interleaved with others in several threads - all process-wide state is as before: random number "
     "generators, warning filters, floating-point error handling, print and plotting settings, "
     "environment, working directory, locale, signal handlers and the package's own constants and predefined bodies.",
     ["histories", "fault_sequences", "schedules"],
     "For every public operation, every point at which it may be cut short, and every interleaving of operations.",
     "Tests check return values; a setting changed and not restored on an error path does not alter them.",
     SYM + NUM + INT + PLT + ["integrators/runge_kutta.py", "rays/shadow.py", "hypersurface/schwarzschildembedding.py",
                             "constant.py", "bodies.py", "utils/scalar_factor.py", "plotting/fractal.py"],
     [("operations use local state only", "whole package"),
      ("default colours are fixed at import", "plotting/geodesic/static.py, plotting/geodesic/interactive.py")],
     None, ["fingerprint of process-wide state before and after each operation"])

prop("C11", "Changing one object never changes another built separately",
     "Objects that a user builds by separate calls - bodies, metrics, coordinates, tensors, predefined spacetimes, constants, "
     "geodesics, integrators, plotters - share no changeable state: any sequence of edits to one, in place or by assignment, "
     "leaves the public values and behaviour of all others, built before or after, as if the edits had not happened.",
     ["histories"],
     "For all histories of building, editing in place, assigning to and querying several objects of all public classes.",
     "Tests build an object, check it and drop it; shared defaults appear only when one object is edited and another is "
     "looked at afterwards.",
     ["bodies.py", "metric/base_metric.py", "metric/kerrnewman.py", "symbolic/constants.py", "symbolic/tensor.py",
      "symbolic/metric.py", "integrators/fantasy.py", "coordinates/core.py", "plotting/geodesic/static.py", "plotting/geodesic/interactive.py"],
     [("defaults are created per object", "bodies.py: Body; metric/base_metric.py: __init__"),
      ("one instance per constant built", "symbolic/constants.py: SymbolicConstant"),
      ("result lists created per integrator", "integrators/fantasy.py: __init__")],
     None, ["public attributes and query results of every object after each edit of another"])

prop("C12", "Results do not depend on earlier calls, caches or the hash seed",
     "A computation gives the same result - values, order of variables and functions, argument order of generated numeric functions, names, exceptions and "
     "warnings - as the first thing a fresh process does, after any history of other operations, failed or "
     "interrupted ones included, with the symbolic engine's cache cleared at any time, and under any string-hash seed.",
     ["histories", "configurations", "fault_sequences"],
     "For all preceding histories of public operations and faults, all cache clearings, and all hash seeds.",
     "The test run fixes one hash seed and runs every test in one order; dependence on either is invisible to it.",
     SYM + NUM + INT + ["symbolic/predefined/find.py", "rays/shadow.py", "hypersurface/schwarzschildembedding.py", "utils/scalar_factor.py"],
     [("variables and functions are sorted", "symbolic/tensor.py: BaseRelativityTensor.__init__"),
      ("no module-level caches", "whole package")],
     None, ["canonical form of every result, in fresh processes with different hash seeds and after histories"])

prop("C13", "Every step outside tolerance is reported exactly once, no other is",
     "Each completed integration step whose recorded state violates the normalisation of its momentum by more than the "
     "requested tolerances - whatever the cause, including a metric function that returned wrong or undefined numbers - emits exactly one "
     "runtime warning naming that step, and no other step emits one. With warnings suppressed none is emitted and the "
     "trajectory is the same.",
     ["histories", "fault_sequences", "inputs"],
     "For all step histories, tolerances, kinds of geodesic and sequences of corrupted metric evaluations.",
     "The tests check that some warning appears in one diverging run; they do not compare each step's warning with its "
     "recorded state, nor with faults.",
     ["integrators/fantasy.py", "geodesic/geodesic.py"],
     [("stability check of each step", "integrators/fantasy.py: step"),
      ("settings forwarded to the integrator", "geodesic/geodesic.py: calculate_trajectory")],
     None, ["warnings emitted per step, compared with the recorded states"])

prop("C14", "Losing the optional compiler changes speed, not results",
     "When the optional just-in-time compiler cannot be imported, the package still imports with a single warning, and every "
     "function that would have been compiled returns, for all valid inputs, the values it returns with the compiler present to "
     "within rounding, with the same shapes and order.",
     ["configurations", "fault_sequences", "inputs"],
     "For every accelerated function and public caller, over inputs of all coordinate systems, with the import failing or succeeding.",
     "The tests reload one module without the compiler and check only that a decorator is the identity; no function is ever "
     "run both ways.",
     ["ijit.py", "coordinates/utils.py", "plotting/fractal.py"],
     [("identity decorator when the import fails", "ijit.py")],
     None, ["values with and without the compiler, in separate processes", "warnings at import"])

prop("C15", "Callers keep their data: inputs are not modified, results do not change",
     "No operation, whether it succeeds, fails or is cut short, modifies the lists, arrays and objects passed to it, except where changing the object it is called on is "
     "its stated purpose. A value once returned is never changed by any later operation, and a caller who "
     "changes a returned array or list does not change the answer to any later query.",
     ["histories", "fault_sequences"],
     "For all sequences of operations over shared inputs, with faults, and all edits by the caller of returned values in between.",
     "Tests pass literals and drop the results; aliasing shows only when an input or an earlier result is looked at again.",
     NUM + INT + SYM + ["integrators/runge_kutta.py", "hypersurface/schwarzschildembedding.py", "rays/shadow.py"],
     [("queries return fresh arrays", "metric/base_metric.py, metric/kerr.py, metric/kerrnewman.py"),
      ("updates rebind instead of writing in place", "integrators/runge_kutta.py, integrators/utils.py, geodesic/utils.py: _P")],
     None, ["inputs and earlier results, compared before and after every later operation"])

prop("C16", "A save that reports success has written the whole picture",
     "Saving a static geodesic plot returns normally only if the named file then holds the complete picture; if the disk is full, fails or the "
     "save is interrupted, the error reaches the caller. After any such failure the plotter is intact and saving again, "
     "under the same or another name, writes the same picture as if nothing had failed.",
     ["fault_sequences", "crash_points"],
     "For every write, open and close of a save at which the disk may fail, be full or accept only part of the data, and every sequence "
     "of saves and retries of different plots and formats.",
     "The tests replace the save function by a mock, so no byte is ever written, let alone with a failing disk.",
     ["plotting/geodesic/static.py"],
     [("the error of the plotting library is passed on", "plotting/geodesic/static.py: save")],
     None, ["bytes on the simulated disk and exception of every save"])

NA = [
    ("C30", "Curvature tensors obey their algebraic symmetries and definitions",
     "For every metric, the Christoffel symbols, Riemann, Ricci, Einstein, Weyl, Schouten and stress-energy tensors equal their textbook definitions and satisfy the symmetries that follow.",
     ["symbolic/christoffel.py", "symbolic/riemann.py", "symbolic/ricci.py", "symbolic/einstein.py", "symbolic/weyl.py", "symbolic/schouten.py", "symbolic/stress_energy_momentum.py"],
     "A pure function of one metric: no schedule, clock, I/O or fault can change the answer beyond what C01, C02 and C12 already check."),
    ("C31", "Raising and lowering indices are inverse operations",
     "Changing any tensor's index configuration and back gives the original tensor, and the inverse of the inverse metric is the metric.",
     ["symbolic/tensor.py", "symbolic/metric.py"],
     "A pure function of tensor and metric; only its shared cache meets schedules and faults, and that part is C01 and C02."),
    ("C32", "Predefined spacetimes solve the field equations they are named for",
     "Every predefined vacuum solution has vanishing Ricci tensor, and the others have the curvature their definition implies.",
     ["symbolic/predefined/vacuum_solutions.py", "symbolic/predefined/de_sitter.py", "symbolic/predefined/minkowski.py"],
     "A fixed algebraic fact about constant expressions, with nothing to schedule or to fail."),
    ("C33", "Coordinate conversions are mutually inverse and keep the velocity",
     "Converting a position and velocity to another coordinate system and back returns the original, for all points off the axes.",
     ["coordinates/conversion.py", "coordinates/utils.py"],
     "A pure numeric function of its input; concurrency and the compiler's absence are covered by C07 and C14."),
    ("C34", "Numeric metrics agree with each other in their limits and with their inverses",
     "Kerr with zero spin and Kerr-Newman with zero charge give the simpler metric, and covariant times contravariant metric is the identity.",
     ["metric/kerr.py", "metric/kerrnewman.py", "metric/schwarzschild.py"],
     "A pure numeric function of its input."),
    ("C35", "The symplectic scheme converges at its order and keeps the invariants",
     "Energy, angular momentum and normalisation of a geodesic drift no more than the order of the scheme allows, for all bound orbits.",
     ["integrators/fantasy.py", "integrators/utils.py"],
     "A statement about numerical accuracy of one deterministic computation; simulated time and faults do not enter."),
    ("C36", "Dual numbers give exact derivatives",
     "For every composition of supported operations, evaluating it on dual numbers gives its value and derivative to rounding.",
     ["utils/dual.py"],
     "A pure function of its input."),
    ("C37", "The initial four-momentum is normalised and future-directed",
     "For every position and three-momentum the computed four-momentum has norm -1 (time-like) or 0 (null).",
     ["geodesic/utils.py"],
     "A pure function of its input."),
    ("C38", "Generated numeric functions agree with the symbolic tensors",
     "Evaluating the lambdified form of any tensor at numbers equals substituting those numbers into it.",
     ["symbolic/tensor.py"],
     "A pure function of tensor and numbers; its independence of hash seed and history is C12."),
    ("C39", "Shadow, embedding and scale factor follow their formulas",
     "Computed intensities, embedded surface and cosmological scale factors equal the published expressions for all valid parameters.",
     ["rays/shadow.py", "hypersurface/schwarzschildembedding.py", "utils/scalar_factor.py"],
     "A pure function of its input."),
    ("C40", "Lorentz transformations preserve scalars and compose",
     "Transforming a tensor by two boosts in turn equals transforming by their product, and full contractions do not change.",
     ["symbolic/tensor.py", "symbolic/vector.py"],
     "A pure function of its input."),
]
for id, title, st, files, reason in NA:
    P.append(dict(id=id, title=title, statement=st, quantifier=dict(over=["inputs"], text="For all valid inputs."),
                  why_tests_cant="Tests sample a handful of inputs of an unbounded space.",
                  anchors=dict(files=[S + f for f in files], mechanism=[dict(name="formulas", where=S + files[0])], hook_needed=None)))

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if __name__ == "__main__":
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
