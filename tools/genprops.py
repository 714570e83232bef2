#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/genprops.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

MC = "modelchecker/"
p("C01", "Exhaustive exploration visits exactly the reachable states",
  "For every model whose reachable state space is within the configured limits, an exhaustive run (in every exploration strategy) discovers every state that some sequence of enabled actions can reach, discovers no other state, and connects two discovered states exactly when one action step leads from the first to the second.",
  ["programs", "schedules"], "every transition table over a small state space, every initial state, every strategy",
  "Tests compare node counts of a few example specs; they cannot tell a missing state that is compensated elsewhere, and sample no transition relation systematically.",
  [MC+"processor.go", "lib/queue.go", "lib/stack.go"],
  [("exploration loop and visited set", MC+"processor.go Start/processNode/YieldNode/scheduleAction")], ["graph returned by the run"])
p("C02", "Statement flows produce exactly the permitted interleavings",
  "Executing a block explores exactly the outcomes its flow modifier permits: atomic blocks are never interrupted, serial blocks may yield between statements, oneof picks exactly one statement, parallel executes all statements in every interleaving; if, for, while, any, break, continue, require, return and function calls behave like their Python counterparts inside every flow, and the value an action returns is recorded on the step that ends it.",
  ["programs", "schedules", "inputs"], "every statement-shape program of a bounded grammar, every guard outcome and every input value, every interleaving of up to two threads",
  "Tests pin the node count of fixed examples; nesting of flows and control statements with arbitrary guard outcomes is a product no unit test enumerates.",
  [MC+"thread.go", MC+"processor.go", MC+"protopath.go"],
  [("statement interpreter", MC+"thread.go executeStatement/executeEndOfBlock"), ("program counter navigation", MC+"protopath.go")], ["set of final states of the explored graph"])
p("C03", "States are merged only when they are the same state",
  "Two explored situations are treated as the same node only if they agree on the value and type of every state variable, role field and returned result, on every pending message, on every execution under way with its position, local variables, loop variables and call arguments and, in the middle of a step, on whether the step has done anything yet; and two situations that agree on all of these, and on which execution moved last, are always treated as the same node.",
  ["histories", "inputs"], "every pair of process states within the size bounds",
  "A wrong merge silently drops reachable states; tests only see it when it changes a pinned count.",
  [MC+"processor.go", MC+"thread.go", "lib/jsonmarshaller.go"],
  [("state hashing", MC+"processor.go HashCode; thread.go HashCode of stacks and frames; lib MarshalJSONStarlarkValue")], ["process hash, explored node set"])
p("C04", "Exploring one branch never changes the state of another",
  "When execution branches, each branch owns an independent copy of all mutable state (variables, role fields, containers, locals, messages, enabled-action bookkeeping): no statement executed on one branch is observable on a sibling, an ancestor or an already visited node, and references that pointed to the same object before the branch point still point to one common object after it.",
  ["schedules", "programs"], "every mutation of every reachable mutable object on one side of a branch point, for every aliasing shape within bounds",
  "Leaks need a particular object shape, aliasing pattern and branch order; tests sample a few shapes.",
  [MC+"clone.go", MC+"processor.go", MC+"thread.go", "lib/starlark_types.go", "lib/starlark_role.go"],
  [("deep clone", MC+"clone.go deepCloneStarlarkValueWithPermutations"), ("process fork", MC+"processor.go Fork")], ["values held by sibling processes"])
p("C05", "Safety violations are reported iff a reachable state violates",
  "An exhaustive run reports a safety (always) violation if and only if some reachable yielded state makes the assertion false; when it reports one, the failing node is such a state and the reported path is a real execution from the initial state to it.",
  ["programs", "schedules"], "every transition table over a small state space and every set of bad states",
  "Tests run a handful of specs that pass or fail in one known way.",
  [MC+"invariants.go", MC+"processor.go", MC+"graph.go"],
  [("invariant evaluation", MC+"invariants.go CheckInvariantsWithProber"), ("exploration", MC+"processor.go processNode")], ["failed node, failure path"])
p("C06", "Transition and exists assertions get exact verdicts",
  "A transition assertion is reported violated if and only if some explored step from one state to the next makes it false when given the before and after states; an exists assertion is reported violated if and only if no reachable state satisfies it.",
  ["programs", "schedules"], "every transition table over a small state space and every before/after relation",
  "The examples with such assertions are few and their verdicts fixed.",
  [MC+"invariants.go", MC+"processor.go"],
  [("transition invariants", MC+"invariants.go CheckTransitionInvariants"), ("witness search", MC+"invariants.go CheckSimpleExistsWitness")], ["verdict of the run"])
p("C07", "Liveness verdicts are exact under the declared fairness",
  "For an explored graph, an 'always eventually' or 'eventually always' assertion is reported violated if and only if there is an infinite execution (a reachable cycle, with stuttering where no fair step forces progress) that respects the declared weak and strong fairness of the actions and on which the assertion fails; a reported counterexample is such an execution.",
  ["schedules", "programs", "configurations"], "every directed graph of up to 3-4 nodes with every assignment of predicate truth, enabledness and fairness",
  "Fair-cycle reasoning fails on particular combinations of cycles and fairness; tests have a few hand-picked graphs.",
  [MC+"invariants.go"],
  [("liveness checks", MC+"invariants.go CheckStrictLiveness/CheckFastLiveness, AlwaysEventuallyFinal, EventuallyAlwaysFinal, AlwaysEventuallyFast, EventuallyAlwaysFast, isFairCycle")], ["failure path and verdict"])
p("C08", "Deadlocks are reported iff a reachable state has no successor",
  "With deadlock detection on, an exhaustive run reports a deadlock if and only if a reachable yielded state within the limits has no enabled action and no unfinished thread that can step; with it off none is reported; and hitting a configured action limit is never reported as a deadlock.",
  ["programs", "schedules", "configurations"], "every transition table over a small state space, both settings, every action limit in range",
  "Tests include one or two deadlocking specs.",
  [MC+"processor.go", "main.go"],
  [("deadlock detection", MC+"processor.go Start")], ["verdict of the run"])
p("C09", "Action and concurrency limits bound exactly what they name",
  "No explored execution exceeds max_actions steps overall, a per-action limit, max_concurrent_actions or a per-action limit on overlapping executions; and every state that some execution within all these limits reaches by a shortest such execution is discovered.",
  ["configurations", "programs", "schedules"], "every combination of limits in range for models whose actions repeat and overlap",
  "Limits interact (global x per action x role-qualified); tests fix one combination each.",
  [MC+"processor.go", MC+"options.go"],
  [("limit checks", MC+"processor.go ExceedsActionCountLimits/scheduleAction")], ["per-path action counts in the graph"])
p("C10", "Crashes happen at every yield and lose exactly the ephemeral state",
  "With crash-on-yield enabled, a crash of each unfinished thread is explored at every yield point, and with it disabled none is; a crash discards the crashed thread's (or the crashed role instance's) in-flight execution only, and resets exactly the ephemeral fields of the crashed role instance to their initial values, leaving durable fields, other instances and globals unchanged.",
  ["crash_points", "programs", "configurations"], "every yield point, every durability partition of the fields, every set of role instances within bounds",
  "Crash points multiply with interleavings; tests pin counts of few examples.",
  [MC+"processor.go", MC+"durability.go"],
  [("crash branches", MC+"processor.go crashProcess/crashThread/crashRole"), ("durability", MC+"durability.go ResetEphemeralVariables")], ["states in the explored graph"])
p("C11", "Symmetry reduction merges only symmetric states and hides no violation",
  "With symmetric values or symmetric roles, two states are merged only if some permutation of the symmetric identities (for ordinal: order-preserving shift; interval: translation or reflection; rotational: rotation or reflection; a materialized ordinal or interval domain: reflection only) maps one to the other; states related by such a permutation are merged; and the verdict of every assertion that does not distinguish identities equals the verdict without symmetry reduction.",
  ["programs", "schedules", "inputs"], "every assignment of identities to variables within the domain bounds, for every kind of domain",
  "Each domain kind has its own canonical form whose corner cases depend on the whole assignment.",
  [MC+"processor.go", MC+"clone.go", "lib/symmetry.go", "lib/permutations.go"],
  [("permutation hashing", MC+"processor.go getSymmetryPermutations/findVisitedSymmetric"), ("canonical candidates", "lib/symmetry.go GetCanonicalRotations etc.")], ["visited node identity"])
p("C12", "Symmetry domains hand out values within their contract",
  "A symmetry domain never has more live values than its limit, fresh() always returns a value that is not live, ordinal segments order values as inserted, interval values never spread beyond the declared divergence, choose/choices/values/min/max return exactly the live (or permitted) values in order, and a request that would break the contract disables the transition instead of failing or succeeding silently.",
  ["inputs", "histories", "configurations"], "every set of live values, every limit, divergence and start in range, every operation",
  "The allocation depends on the whole set of live ids; unit tests use a few sets.",
  ["lib/symmetry.go", MC+"symmetry_check.go"],
  [("allocation", "lib/symmetry.go fresh/choose/segments"), ("constraint check", MC+"symmetry_check.go CheckSymmetryConstraints")], ["values returned to the spec"])
p("C13", "Symmetric value arithmetic and comparison obey their kind",
  "Rotational values form the integers modulo the domain size under + and -, interval values support exact integer offset, difference and a total order consistent with it, ordinal values support only equality and a total order, nominal values support only equality, and mixing domains or unsupported operations is an error, never a wrong value.",
  ["inputs"], "all 64-bit ids, all 32-bit offsets, all limits, all kinds and operators",
  "Wrap-around and sign corner cases lie outside sampled values.",
  ["lib/starlark_types.go"],
  [("arithmetic", "lib/starlark_types.go SymmetricValue.Binary/CompareSameType")], ["result of expressions"])
p("C14", "Containers genericset, genericmap and bag behave as set, map, multiset",
  "After any sequence of operations, genericset, genericmap and bag contain exactly what a mathematical set, finite map or multiset would; comparison operators and set operations agree with that meaning; constructing one container from another never lets later changes to one show up in the other.",
  ["inputs", "histories"], "every sequence of up to 3-4 operations over arbitrary integer elements (including equal ones)",
  "Element equalities and operation orders are sampled by few tests.",
  ["lib/starlark_types.go"],
  [("containers", "lib/starlark_types.go GenericSet/GenericMap/Bag")], ["values observed by spec expressions"])
p("C15", "itertools and sum match their Python definitions",
  "product, permutations, combinations and the other itertools functions, and sum, return exactly the sequence of tuples (or total) that Python defines, for any number of input iterables and any repeat or length argument.",
  ["inputs"], "up to 5 iterables with arbitrary elements, every length argument in range",
  "Results depend on argument counts that the tests do not reach (slice growth, zero lengths).",
  ["lib/starlark_itertools.go"],
  [("itertools", "lib/starlark_itertools.go")], ["values returned to the spec"])
p("C16", "Work queues deliver every element once in their declared order",
  "The FIFO queue, the stack and the random queue return each added element exactly once; the FIFO queue in insertion order, the stack in reverse order, across any interleaving of adds and removes and across internal batch boundaries.",
  ["histories", "inputs"], "every sequence of add/remove up to the bound, arbitrary elements and batch boundaries",
  "Order of operations around batch boundaries is not enumerated by tests.",
  ["lib/queue.go", "lib/stack.go", "lib/randomqueue.go"],
  [("collections", "lib/queue.go, stack.go, randomqueue.go")], ["elements removed"])
p("C17", "Serialized state is deterministic and distinguishes different values",
  "The text that identifies a value in a state is the same for equal values regardless of construction or iteration order, and different for values that a spec can tell apart, including nested containers, strings with quotes or escapes, negative numbers and values of different types; the JSON text shown to the user is deterministic in the same way and tells apart the values that JSON can tell apart.",
  ["inputs"], "all pairs of values of bounded depth and width, arbitrary strings up to a length bound, arbitrary integers",
  "State identity rests on this encoding; collisions need specific value pairs.",
  ["lib/jsonmarshaller.go", "lib/starlark_types.go", "lib/starlarkstruct.go"],
  [("encoder", "lib/jsonmarshaller.go MarshalJSONStarlarkValue")], ["serialized state in graph files and hashes"])
p("C18", "Performance analysis conserves probability and matches the chain",
  "For every exported graph and performance model, the command-line performance analysis (performance/markov_chain.py) builds a transition matrix with non-negative rows that sum to one, in which a link has the probability its labels declare (links without labels share what is left, and all links of a state are equally likely if none declares a probability); states made terminal for liveness analysis become absorbing and change nothing else; each step of the analysis maps a distribution to the chain's next one, starting from the initial state (or from all states alike for liveness analysis), so the reported distribution is a probability distribution and, if the analysis stops early, a stationary one; the mean of a counter is the sum over the steps of the probability of each link times what its labels cost; and the histogram has an entry for every step that ends more runs, with the probability of having ended.",
  ["programs", "inputs"], "all small graphs, any declared probabilities that make a distribution, any counter values, any start distribution",
  "Tests check one or two chains to a fixed precision.",
  ["performance/markov_chain.py"],
  [("matrices", "performance/markov_chain.py create_transition_matrix_sparse, create_cost_matrices_sparse"), ("analysis", "performance/markov_chain.py analyze_sparse, steady_state_sparse, steady_state_liveness")], ["reported distribution, means and histogram"])
p("C19", "Exported graphs describe exactly the explored graph",
  "The node and link files written after a run contain every explored node once and every link once, with correct endpoints, labels, weights and in-range indices, whatever the sharding; failure-path exports describe the failing execution step by step with the same labels.",
  ["programs", "configurations"], "all small graphs (self loops, parallel links, merged nodes)",
  "Tests check one small graph.",
  [MC+"graph.go"],
  [("export", MC+"graph.go GenerateProtoOfJson, GenerateErrorPathProtoOfJson, RemoveMergeNodes")], ["exported nodes and links"])
p("C20", "Program positions are navigated faithfully",
  "For every program tree, stepping the program position visits the statements of a block in order, leaves a finished block to its enclosing statement, re-enters loops at their start, and resolves every position it produces to the statement at that place in the tree.",
  ["programs", "inputs"], "all statement trees of bounded depth and arbitrary statement indices",
  "Tests cover particular paths on particular files.",
  [MC+"protopath.go", MC+"thread.go"],
  [("path arithmetic", MC+"protopath.go GetNextFieldPath/RemoveLastLoop/EndOfBlock/GetFieldByPath")], ["next program counter"])
p("C21", "Guided traces restrict exploration to the trace and nothing else",
  "With a guiding trace, every explored execution follows the trace's link names in order, every execution of the unguided model whose link names match the trace is explored, and the run reports completion exactly when the whole trace was consumed.",
  ["inputs", "schedules"], "every trace over the link alphabet up to the length bound, on every small transition table",
  "Tests replay a few traces of successful runs.",
  [MC+"trace.go", MC+"processor.go"],
  [("trace matcher", MC+"trace.go GuidedTrace, ShouldScheduleNode")], ["explored graph under the trace"])
p("C22", "Simulation runs are executions of the exhaustive state space",
  "Every state and step produced by a simulation run is a state and step of the exhaustive exploration of the same model, the run stops only at a violation, a deadlock, a loop or a limit, and any violation it reports is one the exhaustive run would report.",
  ["schedules", "inputs"], "every sequence of random choices, every small transition table",
  "Simulation picks random choices; tests fix a seed.",
  [MC+"processor.go", "pkg/modelchecker/simulation.go"],
  [("simulation", MC+"processor.go StartSimulation")], ["simulated path"])
p("C23", "Channel messages are delivered as the channel's semantics permit",
  "A message sent on a channel is delivered to its receiver at most as often as the delivery mode permits, is never delivered to another receiver or with arguments other than they were when it was sent, is never lost unless the channel may lose it, and is delivered in every order the channel's ordering permits.",
  ["schedules", "programs"], "every interleaving of two senders and two receivers in the one channel mode the language accepts (unordered, exactly_once, fire_and_forget)",
  "Message order and loss are scheduling choices.",
  ["lib/starlark_channels.go", MC+"channel_message.go", MC+"processor.go"],
  [("delivery", MC+"processor.go scheduleChannelMessages"), ("channel types", "lib/starlark_channels.go")], ["receiver state in the explored graph"])
p("C24", "next_states() probing sees exactly the successors and disturbs nothing",
  "Inside an assertion, next_states() yields exactly the states one enabled action leads to, and using it changes neither the explored graph, nor the identities allocated later, nor the verdict of any other assertion.",
  ["programs", "schedules"], "every small transition table; identity allocations before and after the probe",
  "The probe executes the model speculatively; leaks show only in later exploration.",
  [MC+"processor.go", MC+"invariants.go", "lib/starlark_role.go"],
  [("probe", MC+"processor.go probeNextStates; lib SnapshotGlobalRefs/RestoreGlobalRefs")], ["explored graph with and without the probe"])
p("C25", "MBT plugin runs what is asked for and converts values without loss",
  "The Go plugin for model-based testing runs exactly the action each call addresses, once, on the addressed role and with every argument as the value it denotes, and the actions of a sequence in their order; it reports every outcome, returned value and role state, each at its place, as what it is, for all integer, boolean, string, list and map values the protocol can express; what does not exist, was not executed or cannot be expressed is refused explicitly, never reported as done and never makes the plugin crash.",
  ["inputs"], "all values of supported kinds of bounded nesting, every integer of every integer type; every addressed role and action; every outcome of every action of short sequences",
  "There are no tests of the plugin in the repository.",
  ["mbt/lib/go/plugin_service.go"],
  [("conversion", "mbt/lib/go/plugin_service.go fromProtoValueToAny/fromAnyToProtoValue"), ("dispatch and answers", "mbt/lib/go/plugin_service.go newCommand/executeSequence/serializeResult/GetRoleRefsAndStates")], ["values seen by the adapter", "responses of the plugin's RPC handlers"])
p("C26", "Composition checks exactly the joint steps; refinement accepts exactly the steps of the abstract spec",
  "When specs are composed, their joint steps are the combinations of one step (or staying put) of each, taken in reachable states, whose views agree before and after: an assertion of the composition over states or over steps is reported violated iff it is violated in the joint initial state, after some joint step or by some joint step in which something changes, and reporting it never fails (a composition in which some spec's step is matched by no other spec may be refused as such). When a spec refines an abstract one, it is accepted iff every step that changes its state maps, through the two views, to a step or to staying put of the abstract spec.",
  ["inputs"], "all successor tables, view tables and assertion tables over a bounded number of states of two or three specs; implementations with and without states in between the start and the end of a step",
  "There are no tests of composition and refinement in the repository.",
  ["main.go", "modelchecker/invariants.go", "modelchecker/thread.go"],
  [("joining steps", "main.go populateJoinHashes/ComposeTransitions/cartesianProduct"), ("refinement", "modelchecker/invariants.go CheckRefinement"), ("composed states", "modelchecker/thread.go NewComposedHeap")], ["verdict of the composition", "verdict of the refinement run"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
