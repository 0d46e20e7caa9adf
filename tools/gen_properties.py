#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long text stays reviewable)."""
import json, os
SB = "src/pymatching/sparse_blossom/"
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": list(over), "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": list(files),
                    "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                    "mechanism": [dict(name=n, where=w) for n, w in mechanism],
                    "observe_at": list(observe), "hook_needed": None}})

prop("C01", "Decoding returns a valid minimum-weight correction (weights >= 0)",
  "For every matching graph with non-negative edge weights and every syndrome that can be explained by some set of edges, decoding returns a predicted observable vector that is produced by an edge set whose syndrome is exactly the input syndrome and whose total weight is the minimum over all such edge sets. The reported solution weight equals that minimum, in the units of the user's weights.",
  ["inputs"], "all graphs (nodes, boundary edges, zero and tied weights, self-loops) x all syndromes",
  "Existing tests compare a handful of sampled d=5..17 surface-code shots with recorded weights and hand-built flooder/matcher scenarios; blossom formation, nested shattering, tie-breaking and zero-weight edges have a combinatorial number of event orders, and none of the driver is even built by the stable tests.",
  [SB+"matcher/mwpm.cc", SB+"matcher/alternating_tree.cc", SB+"flooder/graph_flooder.cc", SB+"flooder/detector_node.cc", SB+"flooder/graph_fill_region.cc", SB+"driver/mwpm_decoding.cc"],
  [("event-driven primal-dual growth until no event is left", SB+"driver/mwpm_decoding.cc process_timeline_until_completion"), ("blossom shattering accumulates matched compressed edges", SB+"matcher/mwpm.cc shatter_blossom_and_extract_matches")],
  [("alternating trees / blossoms", "dual solution under construction", SB+"matcher"), ("regions and shells", "which nodes each region covers", SB+"flooder")],
  ["pm::decode_detection_events", "pm::decode_detection_events_for_up_to_64_observables", "Matching.decode(return_weight=True)"])

prop("C02", "Negative edge weights are decoded exactly",
  "For every matching graph that also contains negative-weight edges (including negative boundary edges and negative self-loops on a node), decoding still returns the observables and the (possibly negative) weight of an edge set with exactly the input syndrome and minimum total weight over all edge sets. This also holds for the empty syndrome, where all beneficial negative-weight edges must be reported.",
  ["inputs"], "all sign patterns and weights on small graphs x all syndromes",
  "Tests check a few fixed negative-weight graphs; the sign handling toggles detection events, observables and a weight offset in several places that must cancel for every combination of signs and syndromes.",
  [SB+"flooder/graph.cc", SB+"flooder/graph_flooder.cc", SB+"driver/mwpm_decoding.cc", SB+"driver/user_graph.h"],
  [("negative weights flipped to |w| with syndrome/observable/weight offsets", SB+"flooder/graph.cc add_edge/add_boundary_edge"), ("offset applied per decode", SB+"driver/mwpm_decoding.cc")],
  [("negative_weight_detection_events / _observables / _sum", "offsets added to each decode", SB+"flooder/graph_flooder.h")],
  ["pm::decode_detection_events", "Matching.decode(return_weight=True)"])

prop("C03", "Unsatisfiable or out-of-range syndromes are rejected and do no harm",
  "Decoding raises an invalid-argument error, in every decode entry point, exactly when the syndrome cannot be produced by any set of edges or names a detector that is not in the graph; it never returns an answer for such a syndrome and never hangs or crashes. After such an error the same decoder object decodes every subsequent valid syndrome exactly as a freshly built one would.",
  ["inputs", "histories"], "all graphs with components lacking a boundary x all syndromes x every position of the failing call in a short history",
  "Tests exercise one or two failing syndromes on a fresh decoder; rejection is decided by leftover alternating-tree bookkeeping and recovery by a manual reset, over every way the search can get stuck.",
  [SB+"driver/mwpm_decoding.cc", SB+"matcher/mwpm.cc", SB+"flooder/graph_flooder.cc", SB+"arena.h"],
  [("unmatched trees left => reset and throw", SB+"driver/mwpm_decoding.cc process_timeline_until_completion"), ("Mwpm::reset", SB+"matcher/mwpm.cc")],
  [("node_arena / region_arena / queue / node ephemeral fields", "must be clean between decodes", SB+"matcher/mwpm.h")],
  ["pm::decode_detection_events and all sibling entry points"])

prop("C04", "Decoding is independent of what was decoded before",
  "The result of a decode call (observables, weight, edge list, matched pairs, or error) is a function of the current graph, the syndrome and the options only: repeating or interleaving any sequence of decode calls of any kind, successful or failing, on one decoder gives for each call the same answer as on a freshly built decoder.",
  ["histories"], "all short sequences over {decode kind} x {syndrome incl. infeasible} on many graphs",
  "Unit tests use fresh objects or a fixed shot order; residual state in regions, nodes, arenas, queue time, search markers, or reweights only shows after particular predecessors.",
  [SB+"driver/mwpm_decoding.cc", SB+"matcher/mwpm.cc", SB+"flooder/graph_flooder.cc", SB+"search/search_flooder.cc", SB+"arena.h", SB+"flooder/graph.h"],
  [("region cleanup on shatter, search reset, undo_reweights, queue.cur_time = 0", SB)],
  [("reused decoder object", "Mwpm cached inside the user graph", SB+"driver/user_graph.h")],
  ["all decode entry points"])

prop("C05", "Decoding to edges returns a minimum-weight edge set of the graph",
  "Decoding to edges returns distinct edges that all exist in the graph (virtual boundary written as -1), whose combined syndrome is exactly the input syndrome and whose total weight equals the minimum weight reported by ordinary decoding of that syndrome. This holds with and without negative weights, boundary edges, ties and zero weights.",
  ["inputs"], "all small graphs x all syndromes",
  "Tests check specific circuits; overlapping shortest paths of different matched pairs, cancellation with negative edges, and swap-removal of cancelled edges depend on the exact pairs and paths chosen.",
  [SB+"driver/mwpm_decoding.cc", SB+"search/search_flooder.cc", SB+"search/search_flooder.h", SB+"search/search_graph.cc"],
  [("match edges -> shortest paths -> XOR via flipped markers", SB+"driver/mwpm_decoding.cc decode_detection_events_to_edges")],
  [("neighbor_markers", "per-edge flip flags, must be cleared", SB+"search/search_detector_node.h")],
  ["pm::decode_detection_events_to_edges", "Matching.decode_to_edges_array"])

prop("C06", "Matched detection events form a minimum-distance perfect pairing",
  "Decoding to matched detection events returns every fired detector exactly once, paired with another fired detector or with the boundary, such that the sum of shortest-path distances of the pairs equals the minimum decoding weight; for graphs with a negative-weight total the call is rejected instead.",
  ["inputs"], "all small graphs x all syndromes",
  "Only a couple of hand-picked graphs are tested; the pairing is read out of nested blossoms whose structure depends on the whole event history.",
  [SB+"matcher/mwpm.cc", SB+"driver/mwpm_decoding.cc"],
  [("shatter_blossom_and_extract_match_edges", SB+"matcher/mwpm.cc")],
  [("flooder.match_edges", "output buffer reused between calls", SB+"flooder/graph_flooder.h")],
  ["pm::decode_detection_events_to_match_edges", "Matching.decode_to_matched_dets_array / _dict"])

prop("C07", "Predictions do not depend on how many or which observables exist",
  "Observable predictions and weights are correct for any number of observables and any observable indices, in particular at and beyond 64 observables: every prediction bit equals the parity, over one minimum-weight edge set, of the edges carrying that observable, and bits of observables on no edge stay unchanged. Predictions are XOR-ed into the caller's buffer only within the number of observables of the graph.",
  ["inputs", "configurations"], "observable counts 1..130 and index placements around 31/32/63/64/65/127/128 x small graphs x all syndromes",
  "Two different implementations (bit mask vs path extraction) are chosen by a threshold; tests touch one instance of each and no bit-width corner indices.",
  [SB+"driver/mwpm_decoding.cc", SB+"matcher/mwpm.cc", SB+"flooder/graph.cc", SB+"driver/user_graph.cc"],
  [("obs_mask path for <= 64, match edge + search path for > 64", SB+"driver/mwpm_decoding.cc decode_detection_events")],
  [("num_observables", "selects the path and bounds the writes", SB+"flooder/graph.h")],
  ["pm::decode_detection_events", "Matching.decode"])

prop("C08", "Correlated decoding applies the two-pass rule and leaves no trace",
  "With correlations enabled, decoding equals ordinary minimum-weight decoding on the graph in which every edge implied by a first-pass solution edge has its weight lowered to the implied conditional weight (never raised), for predicted observables, reported weight and returned edges alike. Afterwards all weights are back to their originals, so later decodes are unaffected; this also holds after later changes of the graph (nodes made boundary nodes, weights changed by merging a parallel edge), which leave the implied weights of the remaining edges as they were. Using it on a model loaded without correlations raises an error.",
  ["inputs", "histories"], "all small detector error models with decomposed errors x all syndromes x short histories of correlated/uncorrelated calls",
  "Tests sample a few circuits and check accuracy statistically or one reweight rule; multiple rules hitting the same edge, undo order and both graph copies staying in sync depend on the input.",
  [SB+"driver/mwpm_decoding.cc", SB+"driver/user_graph.cc", SB+"flooder/graph.cc", SB+"flooder/graph.h", SB+"search/search_graph.cc"],
  [("reweight_for_edges / undo_reweights on matching and search graph", SB+"flooder/graph.h, search/search_graph.h"), ("populate_implied_edge_weights", SB+"driver/user_graph.cc")],
  [("previous_weights", "undo log", SB+"flooder/graph.h")],
  ["pm::decode_detection_events(..., edge_correlations=true)", "Matching.decode(enable_correlations=True)"])

prop("C09", "Weights of any allowed magnitude decode accurately and terminate",
  "Integer weights (absolute value up to 2^24-1) are decoded with exact arithmetic; other real weights are decoded to within the documented discretisation (an error of about max|w|/2^24 per edge), independent of overall scale, and weights above the maximum are rejected with an error. Decoding terminates with the right answer however far apart matched detection events are (many maximum-weight edges), i.e. internal time and radius ranges never overflow.",
  ["inputs", "configurations"], "weight magnitudes across the full range, scales, long chains/rings up to total distances beyond 2^32",
  "Test graphs use small distances; overflow of 32-bit times or radii needs long paths of heavy edges, and rounding behaviour depends on the largest weight in the graph.",
  [SB+"driver/user_graph.cc", SB+"driver/user_graph.h", SB+"flooder/detector_node.cc", SB+"flooder_matcher_interop/varying.h", SB+"tracker/cyclic.h", SB+"tracker/radix_heap_queue.h"],
  [("get_edge_weight_normalising_constant / iter_discretized_edges", SB+"driver/user_graph"), ("64-bit queue time reconstructed from 32-bit cyclic times", SB+"tracker/radix_heap_queue.h")],
  [("normalising_constant", "user weight -> even integer scale", SB+"flooder/graph.h")],
  ["Matching.decode(return_weight=True)"])

prop("C10", "Adding parallel edges follows the chosen merge strategy",
  "After any sequence of edge and boundary-edge insertions with any merge strategies, the graph's edges, weights, error probabilities, observables, node count and observable count equal those of the documented rules: disallow raises and changes nothing, independent combines probabilities p(1-q)+q(1-p) with the matching log-likelihood weight and keeps the original observables, smallest-weight keeps the lighter edge, keep-original keeps the first, replace keeps the last.",
  ["histories"], "all short sequences of add_edge/add_boundary_edge calls over small node sets, weights and all strategies",
  "Tests check each strategy once on one edge; endpoint order, boundary edges, interplay of several strategies and derived counters depend on the history.",
  [SB+"driver/user_graph.cc"],
  [("merge_edge_or_boundary_edge / add_or_merge_edge", SB+"driver/user_graph.cc"), ("merge_weights", SB+"driver/user_graph.cc")],
  [("edges / nodes[].neighbors", "edge list and adjacency", SB+"driver/user_graph.h"), ("_num_observables, _all_edges_have_error_probabilities", "derived", SB+"driver/user_graph.h")],
  ["UserGraph edges", "Matching.edges()", "Matching.get_edge_data"])

prop("C11", "Boundary nodes behave as one virtual boundary",
  "Marking a set of nodes as boundary makes decoding equivalent to a graph where those nodes are a single free boundary: edges to any boundary node act as boundary edges (the lightest of several counts), detection events on boundary nodes are ignored, edges between boundary nodes are never needed, and changing the boundary set later takes full effect on the next decode.",
  ["inputs", "histories"], "all small graphs x all boundary subsets x all syndromes x boundary changes",
  "Tests use one or two boundary nodes in fixed positions; the translation merges parallel boundary edges and filters events in several separate places.",
  [SB+"driver/user_graph.h", SB+"driver/user_graph.cc", SB+"driver/mwpm_decoding.cc"],
  [("iter_discretized_edges boundary translation", SB+"driver/user_graph.h"), ("is_user_graph_boundary_node filter", SB+"driver/mwpm_decoding.cc")],
  [("boundary_nodes / is_boundary", "user boundary", SB+"driver/user_graph.h")],
  ["UserGraph::set_boundary", "Matching.set_boundary_nodes", "decode"])

prop("C12", "Detector error models are loaded faithfully",
  "Loading a detector error model yields exactly one edge per distinct detector pair (or single detector, as boundary edge) appearing as an error or decomposition component of positive probability, with probability the XOR-combination of all contributing independent probabilities, weight log((1-p)/p), and the observables of the first contributor; components with other detector counts are ignored (or rejected with correlations enabled), and detector/observable counts equal the model's. With correlations enabled, every pair of edges co-occurring in decomposed errors gets the conditional weight implied by their joint probability, capped at probability 1/2.",
  ["programs", "inputs"], "all short models over a small set of error instructions, with separators, observables, repeats and shifts",
  "Tests load fixed circuits or a few literal models; none of this code is compiled in the stable test build.",
  [SB+"driver/user_graph.h", SB+"driver/user_graph.cc", SB+"driver/mwpm_decoding.cc"],
  [("iter_detector_error_model_edges / iter_dem_instructions_include_correlations", SB+"driver/user_graph.h"), ("add_decomposed_error_to_joint_probabilities, populate_implied_edge_weights", SB+"driver/user_graph.cc")],
  [("joint_probabilities", "pairwise co-occurrence", SB+"driver/user_graph.cc")],
  ["pm::detector_error_model_to_user_graph", "Matching.from_detector_error_model"])

prop("C13", "Check matrices are loaded faithfully",
  "Loading a parity check matrix produces one node per row (times repetitions) and one edge per column of weight one or two in every repetition, with that column's weight, error probability and fault ids (identity or the faults matrix), boundary edges for single-entry columns (virtual or explicit boundary node as requested), and time-like edges with the given measurement weights between consecutive repetitions; parallel columns follow the merge strategy and malformed inputs are rejected. Decoding the resulting object predicts a minimum-weight fault set for every syndrome.",
  ["inputs", "configurations"], "all small binary check matrices x repetitions x weight forms x faults matrices x boundary modes",
  "Python-level tests use repetition/toric codes only and cannot run in the stable build; index arithmetic over repetitions and default handling vary with every option combination.",
  ["src/pymatching/matching.py", SB+"driver/user_graph.pybind.cc"],
  [("load_from_check_matrix", "src/pymatching/matching.py"), ("sparse_column_check_matrix_to_matching_graph", SB+"driver/user_graph.pybind.cc")],
  [("indptr/indices", "CSC layout", SB+"driver/user_graph.pybind.cc")],
  ["Matching(check_matrix, ...)", "Matching.edges()", "Matching.decode"])

prop("C14", "Batch decoding equals shot-by-shot decoding",
  "For every array of shots, batch decoding gives for each row exactly the predictions and weight that decoding that row alone gives, whatever the combination of bit-packed or plain shots, bit-packed or plain predictions, optional boundary columns, correlations and number of shots. Inputs of wrong shape are rejected.",
  ["inputs", "configurations"], "all shot matrices over all syndromes of small graphs x packing modes x detector/observable counts around multiples of 8",
  "Tests compare on a few sampled circuits; packing offsets, stale buffers between shots and padding depend on counts modulo 8 and on shot order.",
  [SB+"driver/user_graph.pybind.cc", "src/pymatching/matching.py"],
  [("decode_batch binding", SB+"driver/user_graph.pybind.cc")],
  [("temp_predictions, detection_events", "buffers reused across shots", SB+"driver/user_graph.pybind.cc")],
  ["Matching.decode_batch"])

prop("C15", "Command-line predict and count_mistakes agree with the library",
  "For every detector error model, shot file and format, `predict` writes, shot by shot and in order, the observable predictions that library decoding gives for that shot, and `count_mistakes` prints the number of shots whose recorded observables differ from the prediction together with the number of shots. This holds with observables appended to the shots or in a separate file, and with correlations enabled; bad arguments give an error exit.",
  ["inputs", "configurations"], "all shot sequences over all syndromes of small models x input/output formats x options",
  "The command-line code is not compiled in the stable tests; its upstream tests run one or two sampled files.",
  [SB+"driver/namespaced_main.cc"],
  [("main_predict / main_count_mistakes", SB+"driver/namespaced_main.cc")],
  [("res, sparse_shot, obs_shot", "buffers reused across shots", SB+"driver/namespaced_main.cc")],
  ["pm::main"])

prop("C16", "The monotone event queue returns every event once, in time order",
  "For every sequence of enqueue and dequeue operations allowed by the queue's contract (no event earlier than the current time, at most half the cyclic range ahead), each dequeue returns an event with the smallest time among those queued, no event is lost, duplicated or altered, size, emptiness and the listing of the queued events are right, and the current time never goes backwards, including when the 32-bit cyclic time wraps around.",
  ["histories"], "all operation sequences up to a depth over time offsets at bucket boundaries, from start times around 0, 2^31, 2^32",
  "The unit tests run a fixed sequence plus a random one from time zero; bucket boundaries and wrap-around combine with the order of operations.",
  [SB+"tracker/radix_heap_queue.h", SB+"tracker/cyclic.h", SB+"tracker/flood_check_event.h"],
  [("bit buckets relative to cur_time, redistribution on dequeue", SB+"tracker/radix_heap_queue.h")],
  [("bit_buckets, cur_time, _num_enqueued", "queue state", SB+"tracker/radix_heap_queue.h")],
  ["radix_heap_queue::enqueue/dequeue/size/empty/reset/clear"])

prop("C17", "Event rescheduling never loses or duplicates a wanted event",
  "For every interleaving of setting, moving, cancelling and dequeuing events through the per-node event tracker, each desired event that is not superseded is delivered exactly at its desired time, exactly once, and cancelled or superseded events are never acted upon.",
  ["histories", "schedules"], "all operation sequences up to a depth over small time sets, one and two trackers sharing a queue, around cyclic wrap-around",
  "Unit tests check a few hand-written sequences; correctness depends on the interplay of stale queue entries with later changes.",
  [SB+"tracker/queued_event_tracker.h", SB+"tracker/radix_heap_queue.h"],
  [("desired vs queued time with lazy re-enqueue", SB+"tracker/queued_event_tracker.h")],
  [("desired_time, queued_time, has_desired_time, has_queued_time", "tracker state", SB+"tracker/queued_event_tracker.h")],
  ["QueuedEventTracker::set_desired_event/set_no_desired_event/dequeue_decision"])

prop("C18", "Shortest-path search returns a true shortest path",
  "For every graph and every pair of nodes (or node and boundary) that are connected, path search returns a contiguous path from source to target made of graph edges whose total weight is the minimum, visiting nodes in order when asked from the source; repeated searches are independent of each other, and requests naming unknown nodes or two boundary nodes are rejected.",
  ["inputs", "histories"], "all small graphs x all node pairs x boundary sets x sequences of queries",
  "Tests use two hand-built graphs; bidirectional collision handling, ties, zero weights and the boundary target each depend on the graph.",
  [SB+"search/search_flooder.cc", SB+"search/search_flooder.h", SB+"driver/user_graph.cc"],
  [("bidirectional flood until collision, trace-back", SB+"search/search_flooder.h"), ("get_nodes_on_shortest_path_from_source", SB+"driver/user_graph.cc")],
  [("reached_nodes", "nodes to reset after a search", SB+"search/search_flooder.h")],
  ["SearchFlooder::iter_edges_on_shortest_path_from_source/_from_middle", "UserGraph::get_nodes_on_shortest_path_from_source"])

prop("C19", "Cyclic-time and varying-radius arithmetic matches integer arithmetic",
  "Cyclic time comparison, difference, addition and widening agree with ordinary integers for all values whose distance is below half the range, and linearly growing, shrinking and frozen radii evaluate, shift, change slope and compute zero-crossing and collision times exactly as integer linear functions do, for all times and offsets in range including negative offsets.",
  ["inputs"], "all values of the 8-bit instantiation, all 16-bit corner products, and all small slope/intercept/time triples plus range corners",
  "Tests check a few constants; sign-extension, wrap-around and bit-packed slope encodings fail only at particular values.",
  [SB+"tracker/cyclic.h", SB+"flooder_matcher_interop/varying.h", SB+"flooder_matcher_interop/varying.inl"],
  [("modular comparison by half range", SB+"tracker/cyclic.h"), ("slope in low two bits, y-intercept above", SB+"flooder_matcher_interop/varying.h")],
  [],
  ["pm::cyclic<T>", "pm::Varying<T>"])

prop("C20", "Noise sampling is consistent with the graph",
  "A noise sample always consists of the observables and the syndrome of one and the same set of flipped edges, with syndrome bits of boundary nodes cleared; edges of probability 0 never flip and of probability 1 always flip, each edge flips independently with its own probability, the same seed reproduces the same samples, and no sample is produced while some edge lacks a valid error probability.",
  ["inputs", "histories"], "all small graphs x boundary sets x every outcome of the random draws (all flip patterns driven through the seeded generator)",
  "Tests check p in {0,1} and a seed on one graph; a wrong bit written for a particular edge kind or boundary set needs enumeration of all flip patterns.",
  [SB+"driver/user_graph.cc", "src/pymatching/rand/rand_gen.cc", "src/pymatching/matching.py"],
  [("UserGraph::add_noise", SB+"driver/user_graph.cc")],
  [("global generator", "seeded mt19937", "src/pymatching/rand/rand_gen.cc")],
  ["UserGraph::add_noise", "Matching.add_noise", "pymatching.set_seed"])

prop("C21", "No memory error, undefined behaviour or unbounded growth in any call sequence",
  "No sequence of graph construction and decode calls of any kind on any graph, including failing calls, reads or writes outside live objects, overflows signed arithmetic, uses freed memory or leaks, and decoding the same syndromes again and again does not grow the decoder's memory.",
  ["inputs", "histories"], "all small graphs x all syndromes x all decode kinds, and short mutation histories, under address/undefined-behaviour/leak checking",
  "Tests run without sanitizers on few inputs; object lifetimes follow the blossom structure of each decode.",
  [SB+"arena.h", SB+"matcher/mwpm.cc", SB+"flooder/graph_flooder.cc", SB+"driver/mwpm_decoding.cc", SB+"driver/user_graph.cc"],
  [("arena allocation of regions and tree nodes, freed on shatter", SB+"arena.h")],
  [("allocated/available", "arena free lists", SB+"arena.h")],
  ["all entry points"])

prop("C22", "Decoding always reflects the current graph",
  "Whatever sequence of edge insertions, merges, boundary changes and observable-count changes is interleaved with decode calls of any kind, every decode result, path query and property read equals what a graph built from scratch with the same final content gives (an observable-count change may alter only which of several solutions of equal weight is returned).",
  ["histories"], "all short interleavings of mutations and queries over small argument domains",
  "Tests mutate once after a decode; the decoder is cached with and without a search graph and must be invalidated by every mutation.",
  [SB+"driver/user_graph.cc", SB+"driver/user_graph.h"],
  [("_mwpm_needs_updating", SB+"driver/user_graph.cc")],
  [("_mwpm", "cached decoder", SB+"driver/user_graph.h")],
  ["UserGraph::get_mwpm, get_mwpm_with_search_graph", "Matching"])

prop("C23", "Graph export and import round-trips",
  "Exporting a matching graph to NetworkX or rustworkx and importing it again (and importing any such graph with valid attributes) preserves nodes, edges, fault ids, weights, error probabilities, boundary set and decoding results, with documented defaults for missing attributes and errors for invalid ones.",
  ["inputs"], "all small graphs with boundary edges/nodes and attribute presence patterns",
  "Python tests round-trip one or two graphs and do not run in the stable build; the virtual boundary and missing attributes are handled case by case.",
  ["src/pymatching/matching.py", SB+"driver/user_graph.pybind.cc"],
  [("load_from_networkx / to_networkx / edges", "src/pymatching/matching.py")],
  [],
  ["Matching.to_networkx", "Matching.from_networkx", "Matching.to_rustworkx", "Matching.load_from_rustworkx", "Matching.edges"])

prop("C24", "Python decode calls interpret and report data faithfully",
  "For every accepted syndrome form (array or list, plain or with boundary columns, one- or two-dimensional over repetitions, any integer or boolean dtype) the Python decode methods decode exactly the set of fired detectors, and return predictions of the right length, the weight in user units, edge arrays, and matched-pair arrays and dictionaries that agree with one another and with the minimum-weight solution; invalid shapes or types raise errors.",
  ["inputs", "configurations"], "all syndromes of small graphs x input forms x return options",
  "Python tests do not run in the stable build and sample a few arrays.",
  ["src/pymatching/matching.py", SB+"driver/user_graph.pybind.cc"],
  [("_syndrome_array_to_detection_events", "src/pymatching/matching.py"), ("decode bindings", SB+"driver/user_graph.pybind.cc")],
  [],
  ["Matching.decode", "Matching.decode_to_edges_array", "Matching.decode_to_matched_dets_array", "Matching.decode_to_matched_dets_dict"])

prop("C25", "Every Python entry point loads a detector error model faithfully, and the command reports success truthfully",
  "Whichever way a detector error model reaches Python (a stim model or circuit given to the constructor or to a from_ method, or a model file given as string or path, with or without correlations) the resulting Matching has exactly the nodes, edges, fault ids, weights and probabilities the model defines and decodes every syndrome to a minimum-weight solution; correlated decoding is available exactly when asked for and agrees between all entry points, and unusable models, files or argument types raise errors. The Python command line (pymatching.cli and the installed pymatching command) writes the predictions or mistake counts that decoding in Python gives and returns exit status 0 exactly when the command succeeded.",
  ["inputs", "configurations"], "all short instruction lists x loading entry points x correlations x syndromes; command lines x formats x input arrangements",
  "Python tests do not run in the stable build, load one or two circuits, and never look at the exit status of the installed command.",
  ["src/pymatching/matching.py", "src/pymatching/_cli_argv.py", SB+"driver/user_graph.pybind.cc", SB+"driver/namespaced_main.cc", "src/pymatching/pymatching.pybind.cc"],
  [("_load_from_detector_error_model / from_detector_error_model_file / from_stim_circuit", "src/pymatching/matching.py"), ("cli_argv", "src/pymatching/_cli_argv.py")],
  [],
  ["Matching.from_detector_error_model", "Matching.from_detector_error_model_file", "Matching.from_stim_circuit", "pymatching.cli", "pymatching._cli_argv.cli_argv"])

prop("C26", "Python construction calls build exactly the graph they describe",
  "After any sequence of add_edge, add_boundary_edge, set_boundary_nodes and ensure_num_fault_ids calls, in every accepted argument form (fault ids as integer, -1, None, set or numpy integer, optional weights and probabilities, every merge strategy), the counts, edge lists, edge data, membership queries, text representation, noise availability and decoding results of the Matching are exactly those of the graph the calls describe. Calls with negative nodes or fault ids, unknown merge strategies, contradictory arguments or disallowed parallel edges raise an error, edges heavier than the maximum weight are announced by a warning and not added, and none of them changes the graph. Noise samples from Python are the faults and syndrome of one set of flipped edges and are reproducible from the seed.",
  ["inputs", "histories"], "all call sequences up to a depth over a small alphabet, all argument forms, all 0/1 probability assignments, all seeds in a range",
  "Python tests do not run in the stable build and check a few fixed call lists.",
  ["src/pymatching/matching.py", SB+"driver/user_graph.pybind.cc", SB+"driver/user_graph.cc", "src/pymatching/rand/rand_gen.pybind.cc"],
  [("argument normalisation in add_edge/add_boundary_edge", "src/pymatching/matching.py"), ("weight limit, node checks, attribute export", SB+"driver/user_graph.pybind.cc")],
  [],
  ["Matching.add_edge", "Matching.add_boundary_edge", "Matching.edges", "Matching.get_edge_data", "Matching.add_noise"])

prop("C27", "Separate graphs and decoders do not affect each other, one after another or at the same time",
  "Graphs, matching objects and decoders that are separate objects (in C++ and as Python Matching objects) share nothing that shows: every call on one (building, merging, changing, decoding in any form, path and edge queries, loading models, correlated decoding, refused calls) gives the same result whatever is done with other objects before it, in between its steps, or (C++) at the same time in another thread, whether the other objects are alive, destroyed or of a different size, and results already returned do not change. Only the random generator behind noise sampling is shared.",
  ["inputs", "schedules", "histories"], "all interleavings of the calls of two or three users over an alphabet of plans; all pairs of plans in two threads, all schedules with bounded preemptions at function entries and conflicting accesses",
  "Unit tests use one object at a time in one thread.",
  [SB+"driver/user_graph.cc", SB+"driver/mwpm_decoding.cc", SB+"matcher/mwpm.cc", SB+"flooder/graph_flooder.cc", SB+"arena.h", SB+"search/search_flooder.cc", SB+"driver/user_graph.pybind.cc", "src/pymatching/matching.py"],
  [("decoder state owned by objects, no globals", SB+"driver/user_graph.h"), ("arenas owned by flooder and mwpm", SB+"arena.h")],
  [],
  ["pm::UserGraph", "pm::decode_detection_events", "pm::detector_error_model_to_mwpm", "pm::Mwpm"])

prop("C28", "An animation ends, has the frames asked for, shows the given problem and ends in a minimum-weight solution",
  "For every model without negative weights and every shot, pymatching animate and write_animated_decoding_svg_frames end: with an error if the shot has no solution or the arguments, model or shot are unusable, and otherwise with consecutively numbered, complete SVG files and nothing else in the output directory. Every frame shows exactly the nodes, edges and boundary edges of the graph at their places and exactly the detection events of the first shot; the requested numbers of identical frames are held at the start (detection events only), for each event, and at the end; with growth frames disabled and no frames per event there are no others, and otherwise regions grow by at most the given amount between frames. Match, tree and blossom lines join detection events (or a detection event and the boundary), and in the last frame every region is at rest and the match and blossom lines pair all detection events in a minimum-weight solution. With --quiet nothing is written to stderr.",
  ["inputs", "configurations"], "all small graphs and enumerated weightings of mid-size graphs x all syndromes x frame settings; command lines x formats x settings",
  "The repository has no test of the animation.",
  [SB+"diagram/mwpm_diagram.cc", SB+"diagram/animation_main.cc", SB+"driver/namespaced_main.cc"],
  [("write_animated_decoding_svg_frames / write_decoder_state_as_svg / pick_coords_for_drawing_from_dem", SB+"diagram/mwpm_diagram.cc"), ("main_animation", SB+"diagram/animation_main.cc")],
  [],
  ["pm::write_animated_decoding_svg_frames", "pm::main_animation", "pymatching animate"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
