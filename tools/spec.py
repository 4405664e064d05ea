"""The properties, in one place: writes properties.jsonl and MANIFEST.json.

    python3 tools/spec.py
"""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TN = "src/flowstab/temporal_network.py"
NC = "src/flowstab/network_clustering.py"
SSM = "src/flowstab/sparse_stoch_mat.py"
PYX = "src/flowstab/_cython_sparse_stoch.pyx"
FFX = "src/flowstab/_cython_fast_funcs.pyx"
SUB = "src/flowstab/_cython_subst.py"
PE = "src/flowstab/parallel_expm.py"
PC = "src/flowstab/parallel_clustering.py"
FS = "src/flowstab/flow_stability.py"
ST = "src/flowstab/state_tracking.py"
SY = "src/flowstab/synth_temp_network.py"
S1 = "src/flowstab/scripts/run_laplacians_transmats.py"
S2 = "src/flowstab/scripts/run_cov_integrals.py"
S3 = "src/flowstab/scripts/run_clusterings.py"


def P(id, title, statement, over, text, why, files, mech, observe, technique, note):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                files=files, mech=mech, observe=observe, technique=technique, note=note)


SPECS = [
    P("F01", "Laplacians describe exactly the contacts active in each step of the window",
      "For every contact table and every window [t_start, t_stop], the Laplacian of each step "
      "between two consecutive event times is the random-walk Laplacian of exactly the contacts "
      "active during that step (a node without contact stays where it is), one per step from the "
      "last event time not after t_start to the last one not after t_stop. Adjacency matrices "
      "saved on request agree with them, and computing on the same "
      "network again, with another window, gives what a new network gives.",
      ["inputs", "histories"],
      "all sets of contacts (durations or instantaneous, any order of the rows, any labels, any "
      "time scale and offset) and all windows, and sequences of windows on one object",
      "The tests use one fixed small network and check shapes or a single value; windows that cut "
      "through contacts, coinciding start and end times, and recomputation are not sampled.",
      [TN], [("compute_laplacian_matrices", TN), ("_compute_time_grid", TN),
             ("ContTempInstNetwork", TN)],
      ["laplacians", "adjacencies", "t_start/t_stop recorded for the window"],
      "property-based testing against a dense reference model of the contacts",
      "random contact tables up to 7 nodes and 12 contacts, and large ones (60 nodes, 1500 "
      "contacts); reference Laplacian built per step "
      "from the definition"),
    P("F02", "Inter-event transitions are exp(-lamda tau L), whatever the representation",
      "For every lamda and every step, the inter-event transition matrix is the matrix "
      "exponential of minus lamda times the duration of the step times its Laplacian: a "
      "stochastic matrix that never moves probability between connected components. It is the "
      "same (up to the documented tolerance) for dense and sparse exponentials and for plain and "
      "compact stochastic formats, for every sequence of lamdas asked for, within the window "
      "given either to the Laplacians or to this step.",
      ["inputs", "histories", "configurations"],
      "all networks, windows, lamdas, sequences of lamdas and format options",
      "Tests compare shapes or run without asserting values, for a single lamda and window.",
      [TN, SSM], [("compute_inter_transition_matrices", TN), ("sparse_lapl_expm", TN),
                  ("SparseStochMat", SSM)],
      ["inter_T"],
      "property-based testing against scipy's dense matrix exponential",
      "exponentials are recomputed from the reference Laplacians, also of networks with 60 nodes "
      "or 1500 contacts, in units of time from nanoseconds to days"),
    P("F03", "Transition matrices are the ordered products of the inter-event transitions",
      "The transition matrix from the start of the window to each later time is the product of "
      "the inter-event transitions in chronological order, and in reversed time the product "
      "starting from the last one. With or without saved intermediates, in every storage format "
      "and for every sequence of lamdas the last one is the same, and each is row stochastic.",
      ["inputs", "histories", "configurations"],
      "all networks, windows, lamdas, directions, formats and sequences of calls",
      "A test product of one network does not tell the order of non-commuting factors, the "
      "direction or the tolerances for other inputs.",
      [TN], [("compute_transition_matrices", TN), ("trans_matrix_prod", TN)],
      ["T"],
      "property-based testing against dense products in both orders",
      "products recomputed densely from the reference exponentials, also over 1500 contacts"),
    P("F04", "Linear approximation interpolates identity, one step and stationarity",
      "The linear approximation of an inter-event transition is the documented piecewise linear "
      "interpolation in lamda*tau between the identity, one random-walk step and the stationary "
      "transition, for every t_s; stationary transitions mix exactly within connected components "
      "proportionally to degree. Products of them are ordered as for the exact ones and dense, "
      "sparse and compact formats agree.",
      ["inputs", "configurations"],
      "all undirected networks and windows, lamda, t_s, formats, directions",
      "Tests run the methods and compare at most one configuration.",
      [TN], [("compute_lin_inter_transition_matrices", TN),
             ("compute_lin_transition_matrices", TN), ("lin_approx_trans_matrix", TN),
             ("compute_stationary_transition", TN)],
      ["inter_T_lin", "T_lin", "stationary transitions"],
      "property-based testing against the dense piecewise formula",
      "formula recomputed from components and degrees, also of networks with 60 nodes or 1500 "
      "contacts"),
    P("F05", "The same contacts give the same network in every input form",
      "A network built from node and time lists, arrays, a data frame or a CSV file, with rows in "
      "any order, has the same contacts, times, number of nodes and node array; labels of any "
      "kind are mapped one-to-one to 0..n-1 and the mapping is recorded. The caller's data is not "
      "modified, and unusable inputs (missing columns, lists of different lengths, ends before "
      "starts where refused) are refused.",
      ["inputs", "configurations"],
      "all contact tables, label types and input forms",
      "Each input form is tested with one data set and in isolation.",
      [TN], [("ContTempNetwork.__init__", TN), ("_compute_time_grid", TN)],
      ["events_table", "times", "time_grid", "node_array", "label mappings"],
      "differential property-based testing across input forms",
      "the reference is the generated contact list itself"),
    P("F06", "Merging and static adjacency preserve who was in contact for how long",
      "Merging overlapping contacts leaves, for each unordered pair, the union of its contacts as "
      "non-overlapping contacts, whatever the order of rows and direction of pairs. The static "
      "adjacency matrix of a window is the total time in contact inside the window, symmetric, "
      "and adds up over adjacent windows.",
      ["inputs"],
      "all contact tables, including nested, touching and repeated contacts, and all windows",
      "The tests merge one hand-written overlap.",
      [TN], [("merge_overlapping_events", TN), ("compute_static_adjacency_matrix", TN)],
      ["events_table after merging", "static adjacency"],
      "property-based testing against interval-union and overlap-length models; additivity",
      "interval arithmetic on the integer grid of generated times"),
    P("F07", "A saved network comes back and continues as if never saved",
      "A network written at any stage of its computation and loaded again has the same contacts, "
      "times, options and computed matrices; every later computation gives the same result as on "
      "the network that was never saved. Saving does not change the network.",
      ["histories", "configurations"],
      "all networks, all stages of the computation and the ways of saving (compressed or not, "
      "chosen attributes)",
      "Tests save one stage and check that files exist or load.",
      [TN], [("save", TN), ("load", TN)],
      ["attributes of the loaded network"],
      "stateful round-trip testing (save/load at a random point of a history)",
      "compared with the same history without the save"),
    P("F08", "Saved transition matrices come back for every lamda",
      "Transition matrices (inter-event and cumulative, exact and linear) written to files and "
      "loaded again are the ones that were saved, up to the requested rounding, for every lamda "
      "asked for and every storage option, together with the description of their window. "
      "Storing differences instead of the matrices does not lose information.",
      ["inputs", "configurations"],
      "all networks, windows, lamdas, options (rounding, compression, differences, formats)",
      "The tests exercise a few option combinations on one network.",
      [TN], [("save_inter_T", TN), ("load_inter_T", TN), ("save_T", TN), ("load_T", TN),
             ("set_to_zeroes", TN)],
      ["loaded matrices and their description"],
      "round-trip property-based testing",
      "compared with the matrices in memory before saving"),
    P("F09", "Compact stochastic matrices compute like the full matrices they stand for",
      "Every sequence of sums, differences, products, scalings, transpositions, row "
      "normalisations, copies and conversions of compact stochastic matrices, alone or mixed "
      "with dense and sparse operands on either side, represents the same matrix as the same "
      "operations on full matrices. Operands are left unchanged, and unsupported operands are "
      "refused instead of giving a wrong matrix.",
      ["inputs", "histories"],
      "all matrices with a non-trivial block of any size and position, any diagonal value, all "
      "sequences of operations",
      "Tests use fixed matrices with one or two shapes of the non-trivial block.",
      [SSM, PYX], [("SparseStochMat", SSM), ("rebuild/add/multiply kernels", PYX)],
      ["toarray()", "elements", "sums", "slices"],
      "model-based testing of operation sequences against dense matrices",
      "dense numpy arithmetic, and few nodes among 300,000 against the small matrices alone"),
    P("F10", "Sparse kernels and helpers equal their dense formulas",
      "The sparse helper functions (scaling rows or columns, row normalisation, products, gram "
      "and outer products, taking out and putting back isolated nodes, rounding small values to "
      "zero or values near one to one, the spectral gap) give the value of their documented dense formula for every sparsity pattern and storage layout, "
      "with and without the optimised library, and in-place ones change nothing else.",
      ["inputs", "configurations"],
      "all small sparse matrices: empty rows, unsorted or duplicate storage, both index types",
      "Tests take random matrices of one shape and density.",
      [SSM, TN, PYX, FFX], [("sparse_gram_matrix, sparse_matmul, sparse_outer", SSM),
                            ("set_to_zeroes, set_to_ones, find_spectral_gap helpers", TN)],
      ["return values, in-place results"],
      "property-based testing against dense formulas",
      "dense numpy arithmetic"),
    P("F11", "Sparse autocovariance behaves as P1 T - p1 p2 without storing it",
      "The sparse autocovariance matrix gives the elements, rows, sums over blocks, aggregation "
      "over a partition and gains of moves of the dense matrix diag(p1) T - outer(p1, p2), "
      "whether the probabilities are vectors or the uniform scalar.",
      ["inputs"],
      "all stochastic matrices, probabilities with zeros, partitions and moves",
      "Tests compare a few entries for one uniform probability.",
      [SSM, PYX], [("SparseAutocovMat", SSM), ("aggregate and sum kernels", PYX)],
      ["elements, block sums, aggregated matrices, gains"],
      "property-based testing against the dense autocovariance",
      "dense numpy arithmetic"),
    P("F12", "Compiled kernels and their pure Python substitutes agree",
      "Every kernel that exists both compiled and as a pure Python substitute returns equivalent "
      "results, equal to the dense formula, for every valid input; so results do not depend on "
      "whether the extensions could be built.",
      ["inputs", "configurations"],
      "all valid kernel inputs",
      "The tests compare one or two random inputs for some of the kernels.",
      [PYX, SUB], [("kernels", PYX), ("substitutes", SUB)],
      ["returned arrays"],
      "differential property-based testing (compiled vs Python vs dense)",
      "three-way comparison"),
    P("F13", "A partition stays a partition through any history of moves",
      "After any sequence of node moves and clean-ups, every node is in exactly one cluster and "
      "all views of the partition (cluster list, node-to-cluster mapping, indicator matrices, "
      "counts, iteration) agree; moves change only the moved node, clean-ups only remove empty "
      "clusters. Overlapping or incomplete clusters are refused when integrity is checked.",
      ["histories", "inputs"],
      "all partitions given by list, mapping or default, all histories",
      "Tests move a node once.",
      [NC], [("Partition", NC)],
      ["cluster_list", "node_to_cluster_dict", "get_indicator"],
      "stateful model-based testing against a labelling",
      "labelling model"),
    P("F14", "Stability and move gains equal the clustered autocovariance",
      "The stability of a partition is the trace of its clustered autocovariance for dense and "
      "sparse clusterings, default or given distributions, and after any moves; the gain the "
      "optimiser computes for a move is exactly the difference of stabilities, and aggregating "
      "clusters into nodes preserves the stability of every coarser partition. For distinct "
      "source and target partitions the clustered autocovariance and its updates under moves "
      "agree with the definition, and the optimal flow is the best assignment.",
      ["inputs", "histories"],
      "all transition matrices (zero rows included), distributions, partitions and moves",
      "Tests compute a stability without an oracle.",
      [NC], [("compute_stability", NC), ("_compute_delta_stab_moveto/moveout", NC),
             ("_aggregate_clusters", NC), ("_compute_new_R_moveto/moveout", NC)],
      ["compute_stability()", "gains", "aggregated matrices"],
      "property-based testing against H^T S H",
      "dense definition"),
    P("F15", "Louvain gives a reproducible, locally optimal partition, never losing stability",
      "From any start the result is a partition with at least the stability of the start; no "
      "single node gains by moving to a linked cluster after one level, and from singletons no "
      "merge of two linked clusters gains at the end. The same seed gives the same result, dense "
      "and sparse clusterings of the same matrix agree, the recorded progress matches the "
      "partitions, and a network without covariance is one cluster.",
      ["inputs", "histories", "configurations"],
      "all transition matrices, distributions, starting partitions, seeds, dense or sparse",
      "Tests check the number of clusters of one network.",
      [NC], [("find_louvain_clustering", NC), ("_louvain_move_nodes", NC),
             ("_get_updated_partition", NC)],
      ["partition", "compute_stability()", "progress"],
      "property-based testing: local optimality, monotonicity, determinism, dense/sparse "
      "differential",
      "decisions that depend on exact ties are excluded by a perturbation test"),
    P("F16", "The flow integral is the time average of the covariance over the window",
      "For forward and backward time, the flow integral until each time of the grid is the "
      "average, weighted by the durations, of the covariance of the flow from the start of the "
      "window, whatever the format of the matrices and whether inter-event or cumulative matrices "
      "are given. Its clustering is a partition whose stability is computed from that integral, "
      "computed once per grid interval.",
      ["inputs", "configurations"],
      "all sequences of stochastic matrices, durations, grids, directions, initial distributions "
      "with zeros and formats",
      "Tests run one sequence and check that results exist.",
      [NC], [("FlowIntegralClustering", NC), ("_compute_integral", NC)],
      ["I_list", "T_list", "partition", "compute_stability()"],
      "property-based testing against the explicit sum",
      "dense sum over the intervals; units of time from 1e-9 to 1e9, rare and absent nodes"),
    P("F17", "Distances between partitions are the information measures they claim to be",
      "The normalised variation of information is a metric on partitions (zero only for the "
      "same partition, symmetric, triangle inequality, within [0,1]) equal to its entropy formula; "
      "mutual information and Jaccard distance equal their formulas; none depends on the order or "
      "names of clusters or nodes. Sorting clusters after a model only rearranges them, with "
      "identical clusters in the order of the model.",
      ["inputs"],
      "all pairs (triples) of partitions given as lists, mappings or vectors",
      "Tests use a few hand-made partitions.",
      [NC, FFX], [("norm_var_information, norm_mutual_information, jaccard_distance", NC),
                  ("cython_nvi*", FFX), ("sort_clusters", NC)],
      ["returned values"],
      "property-based testing against entropy formulas and metric axioms",
      "counts-based formula, with names and cluster numbers that leave gaps and up to "
      "a million nodes"),
    P("F18", "Static clustering is Markov stability at the requested Markov time",
      "For every static network, dense or sparse, directed or not, the clustering set up for a "
      "Markov time uses the exponential, power or linearised random walk of that network and its "
      "stationary distribution, so that the stability of every partition is its Markov "
      "stability. The adjacency matrix is not modified, networks without links or in another "
      "container are refused.",
      ["inputs", "configurations"],
      "all small undirected networks (isolated nodes included) and strongly connected directed "
      "ones, all Markov times",
      "Tests cluster one network.",
      [NC], [("static_clustering", NC)],
      ["T", "p1", "p2", "compute_stability()"],
      "property-based testing against the dense random walk",
      "stationary distribution by least squares"),
    P("F19", "Repeated and parallel clusterings are the serial runs of their seeds",
      "Each repetition reported by the repeated or parallel clustering is exactly the result (and "
      "stability) of a serial run with its seed, whatever the number of processes, and leaves "
      "the given clustering unchanged. The parallel variation of information reports the value "
      "of each pair (or of the requested number of distinct pairs).",
      ["inputs", "schedules", "configurations"],
      "all clusterings, numbers of repetitions and processes",
      "Tests run it with one configuration and check lengths.",
      [PC, NC], [("compute_parallel_clustering", PC), ("compute_parallel_nvi", PC),
                 ("run_multi_louvain", NC)],
      ["lists of partitions, stabilities and seeds"],
      "differential property-based testing: parallel vs serial",
      "real worker processes with 1 to 3 workers"),
]
SPECS += [
    P("F20", "Component-wise and parallel matrix exponentials equal the plain exponential",
      "For every Laplacian (or other sparse matrix) the exponential computed per connected "
      "component, with any number of processes or column blocks, and, for Laplacians, through "
      "sparse_lapl_expm with any option is the matrix exponential, up to the documented trimming of small values and the "
      "normalisation of the rows. Given components, sizes and worker counts only change how it "
      "is computed, and the input keeps its value.",
      ["inputs", "schedules", "configurations"],
      "all Laplacians of small weighted (also directed) graphs, larger ones of up to 1100 nodes, "
      "all factors, options and numbers of workers",
      "Tests use one matrix with one configuration.",
      [PE, TN], [("compute_subspace_expm", PE), ("compute_subspace_expm_parallel", PE),
                 ("compute_parallel_expm", PE), ("sparse_lapl_expm", TN)],
      ["returned matrices"],
      "differential property-based testing against a dense exponential",
      "uniformisation and scipy's dense expm, with the trimming applied to the dense result"),
    P("F21", "The state tracker runs steps only in order and with their inputs set",
      "For every class built with the state tracking decorators and every history of property "
      "changes and calls, a step is executed exactly when its minimal state and all its inputs "
      "are reached, otherwise it is refused and nothing changes; setting an input takes the "
      "object back to the state that needs it. The tracker names the missing inputs and the next "
      "step, objects of one class do not influence each other, and ordered states compare as "
      "their values.",
      ["inputs", "histories"],
      "all classes with up to 5 states and histories on two objects",
      "Tests walk through two fixed classes once.",
      [ST], [("StateMeta/decorators", ST), ("OrderedEnum", ST)],
      ["state", "state.next", "state.howto", "executed or refused calls"],
      "stateful property-based testing against a model state machine",
      "the documented state machine, re-implemented"),
    P("F22", "FlowStability results always come from the current settings",
      "In every history of settings, steps, changes and repeated steps, FlowStability refuses "
      "steps whose inputs are missing or outdated, and the Laplacians, transition matrices, flow "
      "integrals and partitions it holds are those of the current network, window, time scales, "
      "time direction, p1 and kind of transition matrices, whether they were given to the "
      "constructor, to a set_ method or as an attribute. Every time scale gets its own clustering per requested "
      "direction, whose integral is the reference one and whose partition covers all nodes; a time "
      "scale of None stands for the median inter-event time. help() names the missing settings and "
      "the next step.",
      ["inputs", "histories", "configurations"],
      "all networks, windows, time scales, directions and histories of up to a dozen operations, "
      "including pickling",
      "Tests go through the steps once in the documented order.",
      [FS], [("FlowStability", FS), ("set_time_scale", FS), ("set_flow_clustering", FS)],
      ["state", "temporal_network", "flow_clustering_forward/backward"],
      "stateful property-based testing against the reference flow integrals",
      "dense reference integrals of the current settings, in any unit of time"),
    P("F23", "Synthetic networks follow the activity, duration and group rules given",
      "In every simulation the individuals become active at the waiting times and make contacts "
      "of the durations they are given (as functions of time where requested), with distinct "
      "partners chosen uniformly among the individuals, the own group or the groups drawn with "
      "the block probabilities valid at that time, never with themselves. All contacts start "
      "within the simulated time, the same seed gives the same network, and inconsistent "
      "individuals or parameters are refused.",
      ["inputs", "configurations"],
      "all populations of 2 to 7 individuals, groups, block matrices, durations and waiting "
      "times",
      "Tests run one simulation and check that it has events.",
      [SY], [("SynthTempNetwork.run", SY), ("Individual", SY)],
      ["indiv_sources", "indiv_targets", "start_times", "end_times"],
      "property-based testing against an exact schedule and statistical bounds",
      "activation schedule computed from nearly deterministic durations; frequencies within 7 "
      "standard deviations"),
    P("F24", "Stage 1 of the batch tool saves every slice's matrices as for that window",
      "run_laplacians_transmats splits [t0, tend] in consecutive slices and saves, for every slice "
      "and every waiting time, the inter-event matrices, forward and reversed slice transition "
      "matrices (exponential and linear), flow integrals and static adjacencies that were asked "
      "for, equal to those of the contacts in that slice. The result does not depend on the "
      "storage format, the number of processes or batches, nor on earlier partial runs.",
      ["inputs", "configurations", "crash_points"],
      "all small networks, slicings, waiting times, flags, batches and interrupted or extended runs",
      "No test runs the scripts.",
      [S1, TN], [("worker", S1), ("save_inter_T/load_inter_T", TN), ("save_T/load_T", TN)],
      ["files in savedir, read with load_inter_T and load_T"],
      "property-based testing of the command line entry point against the reference model",
      "dense reference of each slice's window, in units of time from 1e-9 to 1e6 and "
      "with limits at 0"),
    P("F25", "Stage 2 of the batch tool integrates between all pairs of grid points",
      "run_cov_integrals saves for every requested pair of grid points, waiting time and time "
      "direction, exponential and linear, the upper triangle of the integral of T P^-1 T^T from "
      "the start time of the first to the start time of the second, and the duration integrated. "
      "Exactly the pairs selected by the options are saved, and a run that continues from "
      "earlier results or intermediate steps gives the same integrals as one that was not "
      "interrupted.",
      ["inputs", "configurations", "crash_points"],
      "all small networks, slicings, grids, selections of pairs and sets of files left by an "
      "interruption",
      "No test runs the scripts.",
      [S2], [("worker", S2), ("load_trans_mat", S2)],
      ["PT files in savedir"],
      "property-based testing of the command line entry points against the explicit sum",
      "sum over the events of the reference transition matrices, in any unit of time"),
    P("F26", "Stage 3 of the batch tool reports partitions with their true stability",
      "For every saved integral, run_clusterings saves one partition of all nodes per repetition "
      "(whole network, largest component or separate components), the flow stability of each "
      "computed from that integral, the best one, the averages and the mean normalised variation "
      "of information over all pairs (or a sample of them). Initial distributions other than the "
      "homogeneous one, static networks and both file formats are treated alike. No partition is "
      "less stable than singletons or improved by merging two clusters, and a run that continues "
      "from temporary or finished results reports the same.",
      ["inputs", "configurations", "crash_points"],
      "all integrals of small networks with isolated nodes and several components, all modes and "
      "numbers of processes",
      "No test runs the scripts.",
      [S3], [("load_autocov_int", S3), ("worker", S3)],
      ["clusters_* files in savedir"],
      "property-based testing of the command line entry point against recomputed stabilities",
      "stability and variation of information recomputed densely from the integral, in "
      "any unit of time"),
]

SPECS += [
    P("F27", "Equivalent descriptions of the contacts give the same flow and covariance",
      "Relabelling the nodes, shifting or rescaling time (with the rate), swapping the ends of "
      "contacts, reordering them, splitting a contact at an event time or adding contacts "
      "outside the window leaves the transition matrix and the flow integral of the window "
      "unchanged; reversing the contacts in time turns the forward into the backward analysis. "
      "The transition over a window is the product of those over its parts, and all routes "
      "(FlowStability, dense, sparse, compact matrices) agree.",
      ["inputs", "configurations"],
      "all contact tables of up to 20 nodes and 36 contacts, windows between event times, rates, "
      "directions and chains of up to five transformations",
      "Tests never analyse two descriptions of one network.",
      [TN, NC, FS], [("ContTempNetwork", TN), ("FlowIntegralClustering", NC),
                     ("FlowStability", FS)],
      ["T", "T_list", "I_list"],
      "metamorphic property-based testing of the whole analysis",
      "the analysis of the transformed input; stochasticity and conservation"),
    P("F28", "Without Cython or sparse_dot_mkl every result is the same",
      "Cython and sparse_dot_mkl are optional: an installation in which one or both cannot be "
      "imported gives the same laplacians, transition matrices, compact matrices, covariances, "
      "flow integrals, stabilities, gains, clusterings, partition distances, saved files and "
      "batch results, for every input and history that works with them.",
      ["inputs", "configurations"],
      "the generated inputs of the numerical properties, with either or both of the optional "
      "packages missing",
      "The tests run in one installation, with both packages.",
      [SSM, NC, SUB], [("selection of the kernels at import", SSM),
                       ("USE_CYTHON branches", NC), ("pure Python substitutes", SUB)],
      ["the results of the numerical properties"],
      "property-based testing of the package imported without its optional modules",
      "the oracles of F01-F04, F07-F11, F13-F18, F20, F22, F24-F27 and F29, run on that "
      "installation"),
    P("F29", "Every history of computations on one network gives what a fresh one gives",
      "A temporal network is used for many computations in any order: Laplacians of successive "
      "windows, inter-event and linear transition matrices at several rates, cumulative products "
      "in both directions, static adjacencies, clusterings, pickling, saving, loading and writing "
      "of matrix files. At every point of every such history each stored matrix is the one of the "
      "current window and its own rate, results handed out earlier keep their values, and files "
      "hold what was stored when they were written, whatever formats were mixed.",
      ["histories", "inputs"],
      "all sequences of up to 14 operations (13 kinds, with drawn rates, windows, formats and "
      "directions) on contact tables of up to 6 nodes and 10 events",
      "Tests run each computation once, on a new network.",
      [TN, NC], [("ContTempNetwork", TN), ("save_* / load_*", TN),
                 ("FlowIntegralClustering", NC)],
      ["laplacians", "inter_T", "inter_T_lin", "T", "T_lin", "loaded dictionaries"],
      "stateful (model-based) property-based testing",
      "a dense reference model of the network carried along the history"),
    P("F30", "The batch stages, one after the other, agree with the in-memory analysis",
      "A network file taken through run_laplacians_transmats, run_cov_integrals and "
      "run_clusterings gives, for every pair of slices, waiting time, direction and kind of "
      "transition matrices that was asked for, exactly one clustering file, whose partitions and "
      "flow stabilities are those of the covariance that FlowStability computes in memory for the "
      "same contacts, window, time scale and direction, whatever formats, slicings and numbers of "
      "processes were chosen in between.",
      ["inputs", "configurations"],
      "all networks of up to 4 nodes and 8 contacts, slicings, grids of intervals, waiting times, "
      "matrix formats and options of the three stages",
      "No test runs the scripts, let alone one on the output of another.",
      [S1, S2, S3, FS], [("run_laplacians_transmats", S1), ("run_cov_integrals", S2),
                         ("run_clusterings", S3), ("FlowStability", FS)],
      ["clusters_* files", "flow_clustering_forward / flow_clustering_backward"],
      "property-based differential testing of the command line pipeline and the in-memory one",
      "the reference flow integral, which both routes have to match"),
]


def main():
    import sys
    have = set()
    for f in os.listdir(os.path.join(HERE, "harness", "props")):
        if f.endswith(".py"):
            have |= set(re.findall(r'^    "(F\d\d)":', open(os.path.join(
                HERE, "harness", "props", f)).read(), re.M))
    specs = [s for s in SPECS if s["id"] in have]
    miss = have - {s["id"] for s in specs}
    if miss:
        sys.exit(f"no specification of {sorted(miss)}")
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for s in specs:
            assert len(s["title"]) <= 80, s["title"]
            f.write(json.dumps({
                "id": s["id"], "title": s["title"], "statement": s["statement"],
                "quantifier": {"over": s["over"], "text": s["text"]},
                "why_tests_cant": s["why"],
                "anchors": {"files": s["files"],
                            "mechanism": [{"name": a, "where": b} for a, b in s["mech"]],
                            "observe_at": s["observe"], "hook_needed": None}}) + "\n")
    man = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": [
        {"property": s["id"], "quick_cmd": f"bash bin/check {s['id']} quick",
         "thorough_cmd": f"bash bin/check {s['id']} thorough",
         "evidence_file": f"evidence/{s['id']}.json", "technique": s["technique"],
         "level": "exploration",
         "level_note": "Held on every generated case; no claim beyond them. Oracle: "
                       + s["note"] + ". Trusted: numpy/scipy dense arithmetic, the generators' "
                       "domain (DESIGN.md)."} for s in specs],
        "not_applicable": [],
        "notes": "No hooks in /repo: the checks only use the package. Failures are shrunk by "
                 "Hypothesis and written to replays/ as JSON cases (bin/check --replay FILE)."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
