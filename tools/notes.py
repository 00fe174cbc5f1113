S = " Exploration: holds on the generated cases only, never proof of absence."
PBT = "property-based testing, "
NOTES = {
    "C01": (PBT + "stateful histories against a std::set model", "Operation histories with colliding and spread hashes across every rehash threshold, compared with a reference set after each step, under ASan and UBSan." + S),
    "C02": (PBT + "metamorphic: same contents by different histories", "Pairs of sets with equal and nearly equal contents built by different histories; equality, order laws, hashes and printing are compared." + S),
    "C05": (PBT + "differential against nested loops", "Random option lists (empty lists, empty options, repeated values, huge products) enumerated and compared with a reference product." + S),
    "C06": (PBT + "stateful iterator walks against an index model", "Random walks and all jumps of forward, backward, const and parameter iterators against integer arithmetic on positions." + S),
    "C09": (PBT + "random graphs against exhaustive path enumeration", "Random cyclic, acyclic and degenerate graphs with depth bounds; results compared with an independent enumeration of goal paths in order." + S),
    "C10": (PBT + "random graphs against exhaustive path enumeration", "As C09 for depth-first search, with the branch-by-branch order as an invariant." + S),
    "C11": (PBT + "random graphs and cost functions, expansion order replayed", "As C09 for A*, with several orderings; each expansion must have least cost among the open nodes." + S),
    "C03": (PBT + 'stateful histories against a three-valued map', 'Random insert/emplace/erase/query histories over a pool of propositions; return codes, queries and unknown errors compared with a map; assembled pairs of sets for consistency.' + S),
    "C04": (PBT + 'metamorphic over representations and round trips', 'Names chosen to collide when concatenated; owned, referenced, signed and copied forms compared pairwise; text round trips and membership lookups.' + S),
    "C07": (PBT + 'differential against filtered products, copy/move/assign histories', 'Random type hierarchies and parameter lists; generators compared with a reference enumeration, also after histories of copies, moves and assignments whose sources are destroyed.' + S),
    "C08": (PBT + 'differential against a reference list, round trips, query histories', 'All positions and propositions of random domains, repeated and interleaved queries with and without caches, copies, state/vector round trips.' + S),
    "C12": (PBT + 'differential against a reference planner step along random chains', 'Random domains (axioms and derived predicates included); children of nodes along random walks compared with a reference interpreter, siblings and repeated iteration included.' + S),
    "C13": (PBT + 'differential against exhaustive reference search', 'Plans from breadth-first and depth-first search validated by a reference interpreter; existence and shortest length compared with a reference search.' + S),
    "C14": (PBT + 'differential against a reference type tree', 'Random type trees (declared in any order), constants and objects; types, subtype tests and the object table compared with the reference.' + S),
    "C15": (PBT + 'grammar-based generation with corruptions', 'Valid calls with random spacing and corrupted calls (arity, types, names) compared with a reference reader.' + S),
    "C16": (PBT + 'differential against a reference evaluator', 'Random formulas nested over typed objects evaluated on random states and arguments; results compared with a reference evaluator working on the generated tree.' + S),
    "C17": (PBT + 'metamorphic over completions of partial states', 'Every completion of small partial states evaluated; determined answers must agree with all, fully determined inputs must be answered.' + S),
    "C18": (PBT + 'differential against a reference interpreter of effects', 'Random nested effects (forall, when) applied to random states; every proposition compared, in-place and copying forms.' + S),
    "C19": (PBT + 'differential against a three-valued reference interpreter', 'Random effects, conditional ones included, applied to partial states; values, return code and completions compared.' + S),
    "C20": (PBT + 'metamorphic relations between query functions', 'Random states, calls and sequences; all query functions and their text variants compared with each other and with the reference interpreter.' + S),
    "C21": (PBT + 'differential against a reference least model', 'Random stratified rules with recursion, several rules per head, negation of lower strata; derived state compared with a naive least-model computation.' + S),
    "C22": (PBT + 'differential against a reference closure', 'Random axiom sets; closure, validity and partial validity compared with reference computations on the generated axioms.' + S),
    "C23": (PBT + 'differential against a reference trigger closure', 'Random actions and axioms; the applied result compared with the closure of the direct effects from consistent states.' + S),
    "C24": (PBT + 'metamorphic: formula and normal form agree on all states', 'Random formulas; normal form and formula evaluated on all states over the mentioned propositions, also after negation.' + S),
    "C25": (PBT + 'differential against applicability and application', 'Random actions; normalised conditions compared with applicability and with the effects on random states.' + S),
    "C26": (PBT + 'round trip of generated PDDL text, mutation of text, object histories', 'Random domains and problems written as text in varying layouts, loaded and compared with the generated model; corrupted text must raise.' + S),
    "C27": (PBT + 'round trip: print, reload as goal, compare truth values', 'Random formulas printed, reloaded as a goal and compared with the original on random states.' + S),
    "C29": (PBT + "the program run on generated files, differential against exhaustive reference search", "The program's main() is called on random domains and problems with random options, its output parsed and compared plan by plan with a reference breadth-first enumeration; wrong arguments must end in the usage text." + S),
    "C30": (PBT + "differential between the Python module and the C++ library, value lifetimes under AddressSanitizer", "The module definition is compiled against a recording stand-in for pybind11 that follows its rules for arguments, return policies and keep-alive; every function is called on random domains and compared with direct library calls, with values kept beyond the iteration and objects they came from." + S),
    "C28": (PBT + 'Hypothesis builder histories, text read back and compared with a model', 'Random builder call histories and goal expressions; the written text is read by an independent reader and compared with a model of the calls.' + S),
}
NOT_APPLICABLE = {}
