"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/meta.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note, level="model_checking", observe=None, state=None):
    P.append(locals().copy())


MC = "explicit-state model checking of the real code against a reference model: "
EX = "exhaustive bounded enumeration on the real code against an independent oracle: "

prop(
    "C01",
    "The graph is one consistent edge store after any history of edge operations",
    "After any sequence of adding, updating, removing (permanently or restorably), restoring and purging directed and undirected edges, every query about the graph (does an edge exist in this direction, undirected, only directed; its value, type; parents, children, the list of edges) answers from one and the same set of edges. Operations change exactly the direction(s) they name, removal of one direction leaves the other with its value, a restored edge is exactly the one that was removed, and operations on unknown nodes or self-loops are rejected without an effect.",
    ["histories"],
    "every finite history of edge operations on any graph, including repeated, no-op and rejected operations",
    "the tests exercise a few two- or three-step histories; inconsistencies between forward index, reverse index, soft-deleted and restored edges appear only after particular interleavings of several operations",
    ["causy/graph.py"],
    [("GraphAccessMixin/GraphUpdateMixin edge maps and deleted edges", "causy/graph.py")],
    MC + "breadth-first search over operation histories with full-state hashing",
    "Every history up to the depth bound over the operation alphabet is executed on the real graph and compared after each operation with a reference store; states are merged only when the complete object graph is equal.",
)
prop(
    "C02",
    "Path and relationship queries are exact on every graph",
    "For every graph and every pair of nodes, the queries for directed and undirected paths, parents, siblings, descendants and the enumeration of all paths agree with the mathematical definition on the current edges, and they terminate on cyclic graphs. The answer does not depend on how the graph was built (added directly, in another order, or left over after removals).",
    ["inputs", "histories"],
    "all graphs with any mix of directed and undirected edges, all node pairs, all construction histories",
    "tests check a handful of small DAGs; cycles, mixed edges, isolated nodes and left-over removed edges are what break recursive path searches",
    ["causy/graph.py"],
    [("directed_paths, directed_path_exists, all_paths_on_underlying_undirected_graph, descendants_of_node, parents_of_node", "causy/graph.py")],
    EX + "all mixed graphs up to 4 nodes",
    "Complete for all mixed graphs with up to 4 nodes (4096) in 4 constructions; thorough adds all 5-node DAGs.",
)
prop(
    "C03",
    "d-separation queries on a DAG are correct",
    "For every DAG, every pair of distinct nodes and every conditioning set, the d-separation query returns true exactly if the set blocks every path by Pearl's criterion, no matter whether nodes are given as ids or node objects and in which order. A conditioning set that contains one of the two nodes is rejected.",
    ["inputs"],
    "all DAGs, node pairs and conditioning sets",
    "tests check a few hand-picked triples on single graphs; collider/descendant combinations are exponential in number",
    ["causy/graph.py"],
    [("are_nodes_d_separated_dag, _is_path_open", "causy/graph.py")],
    EX + "all DAGs, pairs and conditioning sets, two independent oracles",
    "All DAGs with <= 4 nodes and one per isomorphism class with 5 nodes (thorough: all 29281); oracle is moralisation cross-checked with Bayes ball.",
)
prop(
    "C04",
    "d-separation queries on a CPDAG agree with every DAG it represents",
    "For every CPDAG (equivalence class of DAGs), every node pair and every conditioning set, the d-separation query on the CPDAG returns the common answer of all DAGs in the class. Node ids and node objects are interchangeable.",
    ["inputs"],
    "all Markov equivalence classes, node pairs and conditioning sets",
    "tests use a few CPDAGs with few queries; whether a non-collider status is definite depends on the adjacency of neighbours on the path",
    ["causy/graph.py"],
    [("are_nodes_d_separated_cpdag", "causy/graph.py")],
    EX + "all CPDAGs, pairs and conditioning sets, oracle over the whole class",
    "All CPDAGs with <= 4 nodes and those of all 5-node isomorphism classes (thorough: all 8782).",
)
prop(
    "C05",
    "Generators enumerate exactly the promised combinations",
    "For every graph and every configured minimum and maximum size (a minimum below two is refused), the all-combinations generator yields every combination of nodes once, on undirected graphs the neighbour generator yields for every ordered pair of adjacent nodes every subset of the other neighbours of the first node of every configured size, and the edge generator yields every existing direction once, chunked or not, shuffled or not. A generator can be used again, on the same, a changed or another graph, with the combinations of the graph it is given. A random sample only ever contains combinations of the generator it samples from. Edges removed while a chunked generation is going on are not yielded in later chunks where the generator looks at the graph again.",
    ["inputs", "configurations"],
    "all graphs, size settings, chunk sizes, shuffling orders and removals between chunks",
    "tests compare a few generator outputs on one graph each; a missed combination silently drops an independence test",
    ["causy/generators.py"],
    [("AllCombinationsGenerator, PairsWithNeighboursGenerator, PairsWithEdgesInBetweenGenerator, RandomSampleGenerator", "causy/generators.py")],
    EX + "all graphs up to 4 nodes x all settings, multiset equality",
    "All undirected graphs with <= 4 nodes in 4 constructions x all size settings; all mixed graphs for edge pairs.",
)
prop(
    "C06",
    "Graph, reported actions, edge history and hooks tell the same story",
    "For every sequence of actions proposed by pipeline steps, exactly those actions which change an existing edge are applied, in order, and exactly these are reported as taken and recorded in the history of the edge (both directions for undirected actions), while all proposed actions are reported as proposed; replaying the reported actions of a run of any shipped algorithm gives its graph. Hooks run once per update: hooks before an update may rewrite the list of actions; each hook sees what the one before it returned, and what the last returns is what is applied; hooks after it see what was taken. A failing hook of an edge type neither stops the run nor changes what is applied.",
    ["histories", "configurations"],
    "all sequences of proposed actions of all kinds on all edge situations, with all hook behaviours",
    "tests check single actions on one edge; later steps (orientation, UI, results) rely on the history being complete and exact",
    ["causy/graph_model.py", "causy/graph.py"],
    [("AbstractGraphModel._take_action and hooks", "causy/graph_model.py"), ("edge history", "causy/graph.py")],
    MC + "all action sequences up to a bound against a reference semantics",
    "All sequences of length <= 3 over 2 nodes and 2 over 3 nodes from several start graphs, in three batchings, with 4 hook behaviours.",
)
prop(
    "C07",
    "Every step sees exactly the graph its execution mode promises",
    "A plain step computes all its results on the graph as it was when the step began and applies them afterwards, a synchronous step sees the results of each earlier combination, a chunked step sees those of earlier chunks, a step that asks for unapplied actions is shown exactly the earlier results of the same step. Steps grouped for joint application all see the graph from before the group and their actions are applied once, in order. This holds for steps of every kind in loops and groups, and edges removed by a step, loop or group are gone from the lists of edges when the next step begins. A loop repeats its steps until its exit condition holds, which is given the number of the iteration and the actions taken in the last one.",
    ["programs", "histories"],
    "all pipelines of scripted steps, groupings, loops and exit conditions, all sequences of proposed actions",
    "tests run one or two loops on real data, where most interleavings of proposals and effects never occur",
    ["causy/graph_model.py", "causy/common_pipeline_steps/logic.py", "causy/common_pipeline_steps/exit_conditions.py"],
    [("execute_pipeline_step", "causy/graph_model.py"), ("Loop, ApplyActionsTogether", "causy/common_pipeline_steps/logic.py")],
    MC + "all scripts of proposed actions up to a bound against a reference execution",
    "All scripts of 3 proposals (9 kinds) in 6 modes, all loop scripts of up to 3 iterations x 2 steps.",
)
prop(
    "C08",
    "Independence tests decide exactly by significance at the threshold",
    "For every data set and threshold, the correlation and partial correlation tests remove the edge between two variables exactly if the two-sided p-value of their (partial) correlation exceeds the threshold: Fisher's z test with the sample size reduced by 3 and by the number of conditioning variables, or Student's t test for the regression-based variant. The stored Pearson correlation is the sample correlation, and a removed edge records exactly the conditioning set of the test. Decisions do not depend on the order of the variables, their sign, offset or scale.",
    ["inputs", "configurations"],
    "all data sets with more rows than conditioning variables + 3 and no constant columns, all thresholds",
    "tests use random data far away from the decision boundary, so degrees of freedom, sides of the test and the comparison are never pinned down",
    ["causy/causal_discovery/constraint/independence_tests/common.py", "causy/math_utils.py", "causy/common_pipeline_steps/calculation.py"],
    [("CorrelationCoefficientTest, PartialCorrelationTest, ExtendedPartialCorrelationTestMatrix/LinearRegression", "causy/causal_discovery/constraint/independence_tests/common.py")],
    EX + "grid of exact (partial) correlations on both sides of every decision boundary",
    "Data are constructed to have exactly the chosen (partial) correlation; grid of sizes, thresholds, correlations (down to 1e-6 from the boundary), loadings, transforms and argument orders.",
)
prop(
    "C09",
    "Collider orientation follows the separating sets",
    "For every skeleton and every choice of separating sets, collider orientation turns an unshielded triple x - z - y into x -> z <- y exactly if z is in no separating set recorded for x and y, and changes nothing else; in a graph some of whose edges have a direction already, no arrow is turned and no adjacency lost. If two such colliders contradict each other on an edge, the configured strategy keeps the one found first or the one found last (in the order of the variables), and the edge never disappears.",
    ["inputs", "configurations"],
    "all skeletons and separating sets (all possible outcomes of the independence tests), both strategies",
    "tests cover a few consistent triples and one conflict; finite-sample outcomes are often inconsistent in ways no test lists",
    ["causy/causal_discovery/constraint/orientation_rules/pc.py"],
    [("ColliderTest and its conflict resolution", "causy/causal_discovery/constraint/orientation_rules/pc.py")],
    EX + "all outcomes of the independence tests on 4 nodes, reduced on 5",
    "All 15625 outcomes with 4 nodes x 2 strategies x 2 recording orders; 5 nodes: all relevant separating sets for skeletons with up to 6 unshielded triples (thorough: all).",
)
prop(
    "C10",
    "Orientation rules orient exactly what is implied and keep all adjacencies",
    "For every partially directed graph that some DAG is consistent with, repeating the orientation rules until nothing changes orients exactly those edges on which all consistent DAGs agree, and each rule repeated on its own orients exactly what its own premise (Meek's rules 1 to 4) names. For every graph whatsoever, a single rule orients only edges its premise names, and every outcome of the independence tests, orientation never removes an adjacency, never reverses an arrow, and the type of each edge says whether it is oriented.",
    ["inputs"],
    "all partially directed graphs; all outcomes of the independence tests",
    "tests check single rule applications on hand-made graphs; completeness and soundness are statements about every graph",
    ["causy/causal_discovery/constraint/orientation_rules/pc.py", "causy/common_pipeline_steps/logic.py"],
    [("NonColliderTest, FurtherOrientTripleTest, OrientQuadrupleTest, FurtherOrientQuadrupleTest in a Loop", "causy/causal_discovery/constraint/orientation_rules/pc.py")],
    EX + "all mixed graphs on 4 nodes, oracle = all consistent DAGs",
    "All 4096 mixed graphs and all 15625 test outcomes with 4 nodes; 5-node patterns of all isomorphism classes with one additional arrow (thorough: all).",
)
prop(
    "C11",
    "The PC algorithms return the CPDAG of the data-generating DAG",
    "For every DAG whose independencies are exactly those in the data, PC, PC-classic, PC-stable and parallel PC return the CPDAG of that DAG, with correct edge types, and for every removed edge a recorded conditioning set that separates the two variables in the DAG.",
    ["inputs", "programs"],
    "all DAGs with faithful data",
    "tests run a few random models with tolerance for sampling noise; a rule or test that fails for particular topologies stays unnoticed",
    ["causy/causal_discovery/constraint/algorithms/pc.py", "causy/causal_discovery/constraint/independence_tests/common.py", "causy/causal_discovery/constraint/orientation_rules/pc.py", "causy/generators.py", "causy/graph_model.py"],
    [("pipelines of the PC variants", "causy/causal_discovery/constraint/algorithms/pc.py")],
    EX + "all DAGs up to 4 nodes and all 5-node classes on data with exact correlations",
    "Sample correlations are constructed to vanish exactly when d-separated and to be highly significant otherwise.",
)
prop(
    "C12",
    "The result depends on the data only",
    "Running the same algorithm on the same data gives the same graph, edge values and separating sets, whether the data are rows, columns, tensors or arrays (of integers, too) or come from a loader or file, in whichever order rows and keys are given, in every process, and the data are not modified. Changing the unit, offset or sign of a variable changes the result only in the corresponding values; for faithful data the discovered graph depends neither on the order nor on the names of the variables.",
    ["inputs", "configurations"],
    "all data sets without borderline test decisions; all row orders, formats, names, affine changes, hash seeds",
    "tests run one data set once, in one format, in one process",
    ["causy/graph_model.py", "causy/generators.py", "causy/causal_discovery/constraint/orientation_rules/pc.py", "causy/common_pipeline_steps/calculation.py"],
    [("create_graph_from_data; deterministic generators and rules", "causy/graph_model.py")],
    EX + "all ordered choices of base columns x all transformations, compared with the untransformed run",
    "840 data sets (thorough 3024), 12 transformations, column orders and names for all 4-node DAG classes, several hash seeds in separate processes.",
)
prop(
    "C13",
    "Parallel execution gives the same graph under every schedule",
    "However the tasks of a parallel step are grouped, whichever order they are executed and their results arrive in, and whatever combinations are shuffled to the front or sampled, parallel PC returns the same graph as for sequential execution on faithful data. The pairwise and three-variable tests remove the same edges in parallel as sequentially on any data. Every test of a parallel step sees the graph as it was before the step, so the outcome of any step whose tests act on their own pair only does not depend on the schedule either.",
    ["schedules"],
    "all schedules of the worker pool, chunk sizes, shuffles and sampling decisions",
    "tests run the real pool a few times, with chunk sizes so large that all tasks form a single chunk",
    ["causy/graph_model.py", "causy/causal_discovery/constraint/independence_tests/common.py", "causy/causal_discovery/constraint/algorithms/pc.py"],
    [("parallel branch of execute_pipeline_step", "causy/graph_model.py")],
    "stateless model checking: controlled scheduler for the worker pool and random choices, exhaustive up to a deviation bound",
    "The pool is replaced by a scheduler with the semantics of imap_unordered (pickling included); all schedules with <= 1 or 2 deviations, and all schedules of the 4 triples of 4 variables.",
)
prop(
    "C14",
    "Direct effects are the regression coefficients of the cause given all parents",
    "For every directed edge into a variable without undirected edges, the direct effect stored on the edge is the coefficient of the cause in the linear regression (with intercept) of the effect on all its parents; on data that follow a linear model on that DAG it is the true weight, in the units of the data. Every effect is reported as an update of its edge. Undirected edges get no direct effect, and neither the edges nor other values stored on them change.",
    ["inputs"],
    "all graphs and data sets",
    "tests check effects on one or two models with centred data and tolerance",
    ["causy/causal_effect_estimation/multivariate_regression.py"],
    [("ComputeDirectEffectsInDAGsMultivariateRegression", "causy/causal_effect_estimation/multivariate_regression.py")],
    EX + "all DAGs and mixed graphs up to 4 nodes, least-squares oracle",
    "All DAGs with <= 4 nodes x 4 units/offsets, 302 5-node classes, all mixed 4-node graphs, and after full PC runs.",
)
prop(
    "C15",
    "Variables resolve to the given value or default, without leaking",
    "Wherever an algorithm refers to a variable (steps, nested loops and groups, generators and their settings), the model made from it uses the value given for that variable, else its default. Creating a model changes neither the algorithm, nor the given values, nor models made earlier; a reference to an undeclared variable is an error. A value is accepted by validation exactly if its name is declared, it has the declared type (a boolean is no integer) and is one of the declared choices.",
    ["configurations", "programs"],
    "all placements of references, all subsets of given values, all sequences of model creation; all values and types",
    "tests resolve one threshold at the top level; leaks need two models from one algorithm",
    ["causy/variables.py", "causy/graph_model.py"],
    [("resolve_variables*, validate_variable_values", "causy/variables.py"), ("graph_model_factory", "causy/graph_model.py")],
    EX + "all sets of up to 3 parameter slots x variables x given subsets",
    "14 parameter slots covering steps, loops, groups, generators; all pairs and triples (thorough: quadruples); complete validation table.",
)
prop(
    "C16",
    "An algorithm written to JSON or YAML and read back is the same algorithm",
    "Every algorithm built from the shipped steps, generators, edge types, extensions and variables that is written as JSON or YAML and read back has the same steps with the same parameters, generators, nesting, variable references and defaults, the same hash, and discovers the same graphs; optional parts (extensions, variables, default settings) may be left out of the specification. Algorithms that differ in any of this have different hashes; a specification that names something unknown is refused. Writing changes nothing in the algorithm and reading nothing in the specification.",
    ["programs", "configurations"],
    "all algorithms composed of shipped parts, all parameters, formats",
    "tests round-trip one or two small pipelines",
    ["causy/serialization.py", "causy/graph_utils.py", "causy/interfaces.py", "causy/variables.py"],
    [("serialize_algorithm, load_algorithm_from_specification, load_algorithm_by_reference", "causy/serialization.py")],
    EX + "all step classes x generators x parameters x nestings x formats",
    "13 step classes x 7 generators x parameters x 4 nestings x 3 formats; all edge type lists; variables; shipped algorithms including their results after reload. Hooks and a generator's chunk size are not part of a specification.",
)
prop(
    "C17",
    "A stored result says what the run did",
    "For every run, the result written to JSON and read back has the same nodes, edges with their types and values, the same history of steps with taken and proposed actions (including nested steps, separating sets and new edge types), variables, hashes, algorithm reference and time. The stored edges are the edges of the graph at the end of the run. The duration of a step is time that passed during it and covers the steps it contains.",
    ["histories", "inputs"],
    "all runs (graphs, action histories, edge values)",
    "tests store one or two results and look at a few fields",
    ["causy/serialization.py", "causy/models.py", "causy/interfaces.py"],
    [("Result, CausyJSONEncoder, deserialize_result", "causy/serialization.py")],
    EX + "results of all scripted action histories and of all 4-node classes",
    "All 4-node equivalence classes x 4 algorithms, all scripted histories of length <= 2, metadata kinds.",
)

# more properties are appended by tools/meta2.py
try:
    exec(open(os.path.join(HERE, "tools", "meta2.py")).read())
except FileNotFoundError:
    pass


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            f.write(
                json.dumps(
                    {
                        "id": p["id"],
                        "title": p["title"],
                        "statement": p["statement"],
                        "quantifier": {"over": p["over"], "text": p["text"]},
                        "why_tests_cant": p["why"],
                        "anchors": {
                            "files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                            "observe_at": p["observe"] or ["public API calls and their results"],
                            "hook_needed": None,
                        },
                    }
                )
                + "\n"
            )
    man = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.insert(0, '/repo'); import causy, torch, scipy\"",
        "checks": [
            {
                "property": p["id"],
                "quick_cmd": "python3 check.py %s --quick" % p["id"],
                "thorough_cmd": "python3 check.py %s --thorough" % p["id"],
                "evidence_file": "evidence/%s.json" % p["id"],
                "technique": p["technique"],
                "level": p["level"],
                "level_note": p["note"],
            }
            for p in P
        ],
        "not_applicable": [],
        "notes": "No hooks in /repo: the checks drive the public API of the working tree in /repo directly. See DESIGN.md.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
