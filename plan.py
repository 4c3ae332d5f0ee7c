"""What each check runs, what its cases are, and what it must have seen to give an answer."""

HIST = (
    "One case is one episode: a history drawn from phases (one-sided and random growth, thinning, draining from either "
    "end, sliding, hovering at a minimum, ...) over one of several key/value types and collections, in node capacity 8 or 64. "
)
PEAK = "Non-trivial: the collection outgrew one node; distinct: by fingerprint of the whole history."

NATIVE_Q = {"rel": 3, "small": 4, "plain8": 1}
NATIVE_T = {"rel": 2, "plain": 1, "small": 2, "plain8": 1, "asan8": 2}
ALLOC = "the harness's counting allocator and ledger see every allocation and object of the monitored types"
MODEL = "the reference dictionary of the harness (a sorted vector) is right"

LEVEL = {"C14": "fault_enumeration"}

PLAN = {
    "C01": dict(
        quick=NATIVE_Q, thorough=NATIVE_T, min=100,
        rule=HIST + "Every return value is compared with a sorted-vector dictionary; full audits in between. " + PEAK,
        need=["inserts", "replacements", "removals", "removals_of_absent", "lookups", "in_place_updates", "first_last", "clears", "audits", "nested_operations"],
        assumptions=[MODEL],
    ),
    "C02": dict(
        quick=NATIVE_Q, thorough=NATIVE_T, min=100,
        rule=HIST + "Iterators of every kind are driven from both ends in random interleavings, with clones, adaptors and "
        "calls after exhaustion; every item, len and size hint is compared with the model. " + PEAK,
        need=["calls_on_the_items", "iterators_driven", "items_checked", "iterator_clones", "whole_iterator_calls", "nth_calls"],
        assumptions=[MODEL],
    ),
    "C03": dict(
        quick=NATIVE_Q, thorough=NATIVE_T, min=100,
        rule="One case is one bulk construction (sizes swept around the capacity boundaries of every level, sorted, unsorted and "
        "duplicate input) compared with the incrementally built collection and the model, then a later history shared by both. " + PEAK,
        need=["odd_sources", "bulk_loads", "comparisons_of_both", "shared_later_operations"],
        assumptions=[MODEL],
    ),
    "C04": dict(
        quick=NATIVE_Q, thorough=NATIVE_T, min=60,
        rule=HIST + "Every set answer and every union step (with bounds, clones, partial consumption) is compared with the model. " + PEAK,
        need=["union_whole_calls", "inserts", "replacements", "removals", "lookups", "first_last", "unions", "union_items", "union_identities", "union_clones"],
        assumptions=[MODEL],
    ),
    "C05": dict(
        quick=NATIVE_Q, thorough=NATIVE_T, min=60,
        rule=HIST + "A pool of live cursors is probed for key, value and neighbours after each modification. " + PEAK,
        need=["cursor_probes", "cursor_key_absent", "cursor_walks", "moved_to_clone", "clears"],
        assumptions=[MODEL],
    ),
    "C06": dict(
        quick=NATIVE_Q, thorough=NATIVE_T, min=60,
        rule=HIST + "After each modification the root aggregate, and in between every subtree aggregate shown to a visitor, is "
        "recomputed from the entries. " + PEAK,
        need=["root_aggregates_checked", "subtree_aggregates_checked", "removals", "replacements", "clones", "clears", "bulk_built", "empty_aggregates_checked"],
        assumptions=[MODEL],
    ),
    "C07": dict(
        quick=NATIVE_Q, thorough=NATIVE_T, min=60,
        rule=HIST + "Positions and ranks of present and absent keys are compared with indices of the model. " + PEAK,
        need=["positions_probed", "positional_updates", "positional_removals", "ranks_of_present", "ranks_of_absent", "full_position_audits"],
        assumptions=[MODEL],
    ),
    "C08": dict(
        quick=NATIVE_Q, thorough=NATIVE_T, min=60,
        rule=HIST + "Group sizes range from singletons to many nodes; all group answers are compared with a scan of the model. " + PEAK,
        need=["group_summaries_checked", "group_sizes_checked", "group_offsets_checked", "group_removals", "group_updates", "group_ranks_of_absent", "group_ranks_of_present"],
        assumptions=[MODEL],
    ),
    "C09": dict(
        quick={"rel": 1, "small": 1, "plain8": 1, "asan": 1, "asan8": 1, "asanplain8": 1, "miri8": 4},
        thorough={"rel": 1, "small": 1, "asan": 1, "asan8": 1, "asanplain8": 1, "msan8": 1, "miri8": 2, "miriplain8": 1, "miritb8": 1},
        quick_secs=60,
        min=60,
        rule="One case is one episode mixing all calls of maps, sets, trees, iterators, cursors, queries and visitors on heap-owning, "
        "zero-sized, large and over-aligned types, judged by AddressSanitizer, Miri, (thorough) MemorySanitizer, std's checks of "
        "unsafe preconditions, debug assertions and an ownership ledger. " + PEAK,
        need=["items_read", "bulk_loads", "clears", "clones", "consumed", "unions", "removals", "layouts_swept", "nested_operations"],
        assumptions=["undefined behaviour that neither sanitizer nor Miri (stacked/tree borrows off resp. on) defines is not seen"],
    ),
    "C10": dict(
        quick={"rel": 2, "small": 2, "plain8": 1, "asan8": 2, "miri8": 1},
        thorough={"rel": 2, "small": 2, "plain8": 1, "asan8": 2, "miri8": 1},
        min=100,
        rule=HIST + "Keys, values and aggregates carry identities entered in a ledger; each episode ends with one of the ways a "
        "collection can end (drop, clear, replacement, full or partial consumption), after which ledger and heap must balance. " + PEAK,
        need=["parts_counted", "ends_of_life", "ownership_audits", "heap_balances_checked", "consumed", "clears", "bulk_loads", "replaced"],
        assumptions=[ALLOC],
    ),
    "C11": dict(
        quick={"rel": 2, "small": 3, "plain8": 1, "asan8": 2}, thorough=NATIVE_T, min=60,
        rule=HIST + "Clones are compared with the original entry by entry and query by query, then both diverge, each against its "
        "own model; either is dropped first. " + PEAK,
        need=["clones", "diverging_operations", "whole_collections_compared", "clears", "handles"],
        assumptions=[MODEL],
    ),
    "C12": dict(
        quick={"rel": 1, "small": 1, "tsan8": 2, "miri8": 2},
        thorough={"rel": 1, "small": 1, "tsan": 1, "tsan8": 2, "miri8": 3},
        min=20,
        rule="One case is one episode: a collection grown by a history, then read by 2-8 threads at once (lookups, iterators, cursors, "
        "aggregate queries), each answer compared with the single-threaded one, alternating with moves to other threads; "
        "ThreadSanitizer and Miri judge the accesses. " + PEAK,
        need=["concurrent_reads", "reads_overlapping_another", "moves_to_another_thread", "rounds", "marker_traits_checked"],
        assumptions=["races are judged on the accesses that were executed; TSan and Miri use happens-before, not luck of timing"],
    ),
    "C13": dict(
        quick={"rel": 3, "small": 4, "plain8": 1}, thorough={"rel": 3, "small": 3, "plain": 1, "plain8": 1}, min=30,
        rule=HIST + "Each call's key comparisons, key clones, aggregate evaluations and locate calls are counted and compared with a "
        "bound from the number of entries; leaf depth is read through a visitor. " + PEAK,
        need=["calls_metered", "comparisons", "shapes_walked", "full_traversals", "thinned_to_nothing", "growth_measurements", "slowest_call_measurements", "unions_metered"],
        assumptions=["bounds are constants times the depth, chosen with a margin over the design's worst case"],
    ),
    "C14": dict(
        quick={"rel": 2, "small": 2, "plain8": 1, "asan8": 1, "asanplain8": 1, "miri8": 1},
        thorough={"rel": 2, "small": 2, "plain8": 1, "asan8": 1, "asanplain8": 1, "miri8": 1},
        min=40,
        rule="One case is one state reached by a history; in it every operation is repeated with a panic injected at each user call "
        "(comparison or clone) it makes, all of them if few, else a sample, and the collection is audited after each. " + PEAK,
        need=["injected_panics", "panics_in_insert", "panics_in_remove", "panics_in_reads", "panics_in_clone", "panics_in_cursor_calls", "panics_in_replacement", "panics_in_bulk_load"],
        assumptions=[MODEL, ALLOC],
    ),
    "C15": dict(
        quick={"rel": 3, "small": 4, "plain8": 1}, thorough={"rel": 3, "small": 3, "plain": 1, "plain8": 1}, min=16,
        rule="One case is a long churning history (grow/shrink cycles, sliding queues, spots, read phases, clones, clears); the live "
        "heap is read after every operation and compared with a bound from the current and the largest past size. " + PEAK,
        need=["operations_checked", "grow_shrink_cycles", "churns", "queues", "clears", "clones", "read_phases"],
        assumptions=[ALLOC],
    ),
    "C16": dict(
        quick={"rel": 1, "small": 1, "plain": 1, "plain8": 1, "asan8": 1, "asanplain8": 2, "miri8": 1, "miriplain8": 1},
        thorough={"rel": 1, "small": 1, "plain": 1, "plain8": 1, "asan8": 1, "asanplain8": 2, "miri8": 1, "miriplain8": 1},
        min=60,
        rule="One case is one episode with a key order that contradicts itself (random, cyclic, changing, panicking) or searches and "
        "visitors that name nonsensical positions, or a stretch eroded under aggregates that panic persistently; judged by AddressSanitizer, Miri, the ownership ledger, bounded iteration and a "
        "watchdog; nonexistent positions must panic. Non-trivial: the order or a search actually misbehaved.",
        need=["odd_sources", "contradictory_answers", "nonexistent_positions", "panics_of_the_library", "panics_of_the_user_code", "calls", "eroded"],
        assumptions=[],
    ),
    "C17": dict(
        quick=NATIVE_Q, thorough=NATIVE_T, min=40,
        rule=HIST + "Before each modification the places concerned are accessed in varying ways; afterwards all answers are compared "
        "with the model and with a freshly built collection of equal contents. " + PEAK,
        need=["queries", "modifications", "rebuilt", "clones", "clears", "places_read_again_and_again", "nested_operations"],
        assumptions=[MODEL],
    ),
    "C18": dict(
        quick=NATIVE_Q, thorough=NATIVE_T, min=40,
        rule=HIST + "The whole structure shown to visitors is judged node by node; scripted visitors and searches are compared with "
        "the path they chose. " + PEAK,
        need=["structures_judged", "nodes_judged", "visitors", "searches", "scripted_searches", "removals_through_searches", "user_ranks", "visits_beyond"],
        assumptions=[MODEL],
    ),
    "C19": dict(
        quick=NATIVE_Q, thorough=NATIVE_T, min=40,
        rule=HIST + "Around every removal the shape is read through a visitor; merges and moves are reconstructed level by level and "
        "compared with the counters. Non-trivial: at least one rebalancing happened.",
        need=["marathons", "removals_judged", "quiet_operations", "clones", "clears", "bulk_loads", "rotate_right_leaf", "rotate_left_leaf",
              "merge_with_left_leaf", "merge_with_right_leaf", "rotate_right_inner", "rotate_left_inner",
              "merge_with_left_inner", "merge_with_right_inner", "merge_then_inner_move"],
        assumptions=[MODEL],
    ),
    "C20": dict(
        quick=NATIVE_Q, thorough=NATIVE_T, min=40,
        rule=HIST + "The tree runs on a node store written for the purpose, whose ids are dense, reused, sparse or descending and whose "
        "memory of leaves is empty, that of the last one, or any leaf covering the key; it judges every access, and the whole store is "
        "audited in between; every answer is compared with the same tree on the library's store. Some cases call the library's store "
        "directly against a mirror. " + PEAK,
        need=["stores_audited", "nodes_audited", "operations_metered", "cursor_probes", "clones", "clears", "bulk_built", "consumed",
              "removals_by_search", "ids_far_apart", "ids_never_reused", "ids_descending", "ids_first_freed", "ids_any_freed", "ids_permuted", "ids_small_any",
              "cache_none", "cache_last", "cache_any", "store_calls", "ids_reused", "put_back", "store_clones", "remembered_leaves"],
        assumptions=["the monitoring store meets the contract that the trait's documentation and the library's store imply"],
    ),
}
