import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,obs,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
I='include/symbolic/'; U=I+'utils/'
T="The six existing tests only touch the combination generator; "
p('C01','State and set containers behave as mathematical sets under any history',
 "After any sequence of insert, emplace, range-insert, erase and copy operations (in any order, with repeats, with growth and shrinkage) a state or set contains exactly the elements inserted and not since erased: contains, size and empty say so, and forward and backward iteration visit each element exactly once and nothing else. Every insert or erase returns true exactly when the set changed. Copies are independent of the original.",
 ['histories','inputs'],"every sequence of operations over every element pool, including pools whose hashes collide, and every set size",
 T+"no test ever builds a state; rehash and shrink thresholds depend on the whole operation history.",
 [U+'hash_set.h',U+'unique_vector.h',I+'state.h','src/state.cc'],
 [('bucketed sorted vectors with growth/shrink rehash','HashSet::insert/erase/Rehash'),('sorted unique insertion','UniqueVector::insert/erase/contains')],
 ['State::insert/erase/contains/size/begin/end','State::Stringify and stream output'],
 [('buckets','one sorted unique vector per bucket','HashSet'),('size','number of elements, must equal the total over buckets','HashSet')])
p('C02','State equality, ordering and hashing depend only on the contents',
 "Two states (or sets) that hold the same propositions compare equal and have equal hashes whatever sequence of insertions and removals produced them; states with different contents never compare equal. The ordering of states is a strict weak order that is consistent with equality. The same holds for partial states and for printed or stringified states, which depend on the contents alone: a printed or stringified state lists exactly its propositions, a printed partial state its true ones and, marked 'not', its false ones.",
 ['histories'],"every pair and triple of operation histories, including pairs that reach the same contents by different routes",
 T+"equality of states reached by different routes is what planners rely on to detect visited states, and no test compares two states built by different histories.",
 [U+'hash_set.h',U+'unique_vector.h',I+'state.h','src/state.cc'],
 [('bucket count is a function of the size only','HashSet::UpperBound/LowerBound/Rehash'),('hash folds elements in iteration order','std::hash<State>'),('lexicographic bucket comparison','HashSet::operator<')],
 ['operator==, !=, < on State and PartialState','std::hash<State>','operator<<, Stringify'])
p('C03','Partial states are a faithful three-valued assignment',
 "A partial state starts with every proposition unknown; inserting makes a proposition true and erasing makes it false, and from then on the two queries (contains, does-not-contain) answer accordingly, while querying a proposition never mentioned raises the unknown-evaluation error naming it. Each insert or erase returns 0 if the value was already so, 1 if it was unknown, 2 if it was flipped, and a partial state built by such operations is always consistent (no proposition both true and false). A partial state assembled from two sets is reported consistent exactly when the sets are disjoint.",
 ['histories','inputs'],"every sequence of insert/emplace/erase/query operations and every pair of sets",
 T+"no test constructs a partial state.",
 [I+'state.h','src/state.cc'],[('paired positive/negative sets','PartialState::insert/erase/contains/does_not_contain')],
 ['PartialState::insert/erase return codes','PartialState::contains/does_not_contain','IsConsistent','size/empty'])
p('C04','Propositions are identified by name and arguments, owned or referenced',
 "Two propositions are equal exactly when their predicate names and argument names are equal, equal propositions have equal hashes, and their order is lexicographic by name and then arguments; this holds alike for propositions that own their data, for non-owning references, for signed ones and for copies, so a state answers membership the same for all of them. Printing a proposition and parsing the text gives back an equal proposition; the PDDL form lists the name and the arguments in order.",
 ['inputs'],"every predicate name, arity and argument tuple, every pair of representations",
 T+"no test creates a proposition.",
 [I+'proposition.h','src/proposition.cc',I+'object.h','src/object.cc'],
 [('hash precomputed from name and arguments','PropositionBase::Hash'),('transparent lookup through the base class','std::hash<PropositionBase>, HashSet::GetBucket')],
 ['operator==,<,hash','Proposition(pddl, string)','to_string/to_pddl','State::contains(PropositionRef)'])
p('C05','Combination generator enumerates exactly the cartesian product in order',
 "For any non-empty list of non-empty options the generator's size is the product of the option sizes, and iterating from begin to end yields every combination exactly once, in lexicographic order of positions with the last position varying fastest. The indexed accessors return the combination at that position (the checked one wraps negative indices and throws out-of-range beyond either end), and finding a combination returns a position holding that combination, throwing out-of-range when an element does not belong to its option. A generator over no options at all has exactly one combination, the empty one. An empty option is rejected with an invalid-argument error; a default-constructed generator is empty.",
 ['inputs'],"every number of options, every option size (including size one and repeated elements), every index including negative and out-of-range ones",
 "The existing tests check one fixed set of options of sizes 2 and 3 at a few positions; option shapes, bounds and the inverse are not covered.",
 [U+'combination_generator.h'],[('mixed-radix digits from precomputed group sizes','ComputeGroupSizes, UpdateCombination, find')],
 ['CombinationGenerator::size/begin/end/at/operator[]/find'])
p('C06','Combination iterators obey random-access and reverse iterator laws',
 "From any position (including before-begin and end) any sequence of increments, decrements, additions and subtractions leads to the position given by integer arithmetic, and dereferencing there yields the same combination as fresh enumeration, no matter how the iterator got there. Differences, comparisons, indexing and reverse iteration agree with positions; reverse iteration is exactly forward iteration reversed. Any number of iterators over one generator are independent, and combinations already copied out do not change.",
 ['histories','inputs'],"every walk over positions, every option shape, any number of interleaved iterators",
 "The existing tests walk one fixed generator of fully non-trivial option sizes a few steps; incremental digit updates depend on the whole path and on option sizes.",
 [U+'combination_generator.h'],[('digit-wise incremental update','Iterator::UpdateCombination(int)'),('reverse adapter','ReverseIterator')],
 ['iterator ++,--,+=,-=,+,-,[],<,<=,>,>=,==','rbegin/rend'])
p('C07','Parameter generators enumerate exactly the well-typed argument tuples',
 "For any typed parameter list the generator of an action, predicate or quantifier enumerates exactly the tuples whose i-th object has the i-th parameter's type or a subtype of it, each once, ordered by object declaration; a parameter type with no objects gives an empty generator and an empty parameter list gives exactly one empty tuple. Copies, moved-to and assigned generators enumerate the same tuples independently of what happens to the source, and still refer to the same domain.",
 ['inputs','histories'],"every type hierarchy, object set and parameter list; every copy/move/assign history",
 T+"no test builds a typed generator and ownership after copy or move is never exercised.",
 [U+'parameter_generator.h','src/utils/parameter_generator.cc','src/pddl.cc'],
 [('own copy of the option lists rebuilt on copy/move','ParameterGenerator constructors and assignments')],
 ['Action/Predicate::parameter_generator()','ParameterGenerator(pddl, params)'])
p('C08','State index is a bijection between positions and ground propositions',
 "The state index numbers every well-typed ground proposition of the domain's predicates exactly once, predicate by predicate in declaration order: its size is their total count, position to proposition and proposition to position are inverse to each other, and iterating it lists them in order. Converting a state to a boolean vector and back gives an equal state, and vector to state and back gives the same vector. Results do not depend on whether caching is on, on what was asked before, or on copies.",
 ['inputs','histories'],"every domain (predicates with zero instances included), every state and boolean vector, every query history",
 T+"the state-index test is excluded from the build and covers one domain.",
 [I+'state.h','src/state.cc',I+'predicate.h','src/predicate.cc'],
 [('prefix sums over predicate groups and bisection','PredicateCumSum, GetProposition'),('lookup caches','cache_propositions_, cache_idx_propositions_')],
 ['StateIndex::GetProposition/GetPropositionIndex/GetState/GetIndexedState/size/begin/end'])
p('C09','Breadth-first search yields every goal path within depth, shortest first',
 "On any graph, breadth-first search with depth bound d yields exactly the paths that start at the root, end at their first goal node and have at most d edges, each once and in order of non-decreasing length (siblings in child order), and then ends. A root that is itself a goal yields the one-node path. The results are the same with verbose output on, on every fresh iteration, and a timeout can only cut the sequence short.",
 ['inputs','histories'],"every finite-branching graph (cycles included), goal set, depth bound and child order",
 T+"no search is ever run by a test.",
 [I+'planning/breadth_first_search.h'],[('FIFO queue of node and shared ancestor list','BreadthFirstSearch::iterator::operator++')],
 ['BreadthFirstSearch::begin/end/++/*'])
p('C10','Depth-first search yields every goal path within the depth bound',
 "On any graph, depth-first search with depth bound d yields exactly the paths that start at the root, end at their first goal node and have at most d edges, each exactly once and exploring one branch completely before the next, and then ends. No path is lost at the end of the search, a root that is itself a goal yields the one-node path, and every fresh iteration gives the same results.",
 ['inputs','histories'],"every finite-branching graph, goal set, depth bound and child order",
 T+"no search is ever run by a test.",
 [I+'planning/depth_first_search.h'],[('stack of node and ancestor list','DepthFirstSearch::iterator::operator++')],
 ['DepthFirstSearch::begin/end/++/*'])
p('C11','Best-first (A*) search expands in priority order and loses no goal path',
 "On any graph and with any comparison, the best-first search with depth bound d yields exactly the paths that start at the root, end at their first goal node and have at most d edges, each once, and then ends. At every step the path taken next is one of those of best priority among all generated and not yet expanded; with a consistent cost the goal paths therefore come out in order of cost. No path is lost at the end of the search.",
 ['inputs','histories'],"every finite-branching graph, priority function (ties included), goal set and depth bound",
 T+"no search is ever run by a test.",
 [I+'planning/a_star.h'],[('priority queue of node and ancestors','AStar::iterator::operator++')],
 ['AStar::begin/end/++/*'])
p('C12','Planner node children are exactly the applicable, unvisited successors',
 "The children of a planning node are, in action and argument order, exactly one node per applicable ground action whose resulting state (with derived predicates updated) differs from the states of the node and of all its ancestors; each child carries that action's text, that state and its parent's depth plus one. A node is a goal exactly when its state satisfies the goal. Node equality, order and hash follow the state alone, and looking at siblings or iterating twice does not change what is seen.",
 ['inputs','histories'],"every domain and problem, every node reachable by any chain of children",
 T+"the planner is compiled but never run.",
 [I+'planning/planner.h','src/planning/planner.cc'],
 [('child iterator over actions and parameters','Planner::Node::iterator'),('ancestor cache shared between siblings','NodeImpl::ancestors_')],
 ['Planner::Node::begin/end/action/state/depth/operator bool'])
p('C13','Planning returns valid, complete and shortest plans',
 "Searching from a planner's root, every returned path is an executable plan: it starts in the given state closed under the axioms, every action is applicable where it is applied and leads to the next state, and the last state satisfies the goal. Breadth-first planning finds a plan within the depth bound whenever one exists and the first one found is a shortest one; the plan's text is accepted by the plan validator.",
 ['inputs'],"every domain, problem, initial state and depth bound within the generated sizes",
 T+"no plan is ever searched by a test.",
 ['src/planning/planner.cc',I+'planning/planner.h',I+'planning/breadth_first_search.h','src/pddl.cc','apps/pddl.cc'],
 [('root built from the axiom closure','Planner::Planner'),('ancestor pruning keeps shortest plans','Planner::Node::iterator')],
 ['BreadthFirstSearch<Planner::Node> over Planner::root()','Pddl::IsValidPlan'])
p('C14','Objects carry their declared types and all supertypes',
 "For any type hierarchy, an object is of its declared type, of every ancestor of it and of the root type, and of no other; its type list runs from the declared type to the root. The domain's table of objects by type lists, for each type, exactly the objects of that type or a subtype, constants first, in declaration order. Objects are equal exactly when their names are equal and are ordered by name.",
 ['inputs'],"every acyclic type hierarchy and set of typed or untyped constants and objects",
 T+"the object sources are not even compiled by the tests.",
 [I+'object.h','src/object.cc','src/pddl.cc'],[('walk up the parent type chain','Object::Type::IsSubtype/ListTypes'),('type table','CreateObjectTypeMap')],
 ['Object::type','IsSubtype','ListTypes','Pddl::object_map/objects/constants'])
p('C15','Action and proposition texts are parsed faithfully or rejected with an error',
 "Parsing an action call accepts exactly a known action name with the declared number of known objects of the right types (subtypes included), whatever the spacing around the arguments, and yields that action and those objects in order; a call with an unknown action, an unknown object, a wrong number of arguments or a wrongly typed argument is rejected with an exception. Parsing a proposition text of the form name(arguments) yields its head and arguments, rejecting unknown objects. No argument is dropped or reordered.",
 ['inputs'],"every action, argument list, spacing and corruption of a call text",
 T+"parsing code is not compiled by the tests.",
 ['src/action.cc','src/object.cc',I+'proposition.h','src/pddl.cc'],[('arity and type checks','Action::Parse'),('tokeniser','TokenizeArguments')],
 ['Action::Parse','Proposition(pddl, text)','Pddl::IsValidAction/NextState errors'])
p('C16','Formulas evaluate by first-order semantics over finite typed objects',
 "Evaluating any formula built from propositions, equality, type tests, and, or, not, forall and exists in any state with any arguments gives its truth value under closed-world first-order semantics over the problem's typed objects. Quantifiers over a type with no objects are true for forall and false for exists. Evaluation never changes the state and gives the same answer when repeated.",
 ['inputs','programs'],"every formula, type hierarchy, object set, argument tuple and state",
 T+"formula evaluation is not compiled by the tests.",
 [I+'formula.h','src/formula.cc'],[('closure tree compiled from the goal','CreateFormula'),('argument substitution','Formula::CreateApplicationFunction')],
 ['Formula::operator()(State)','Pddl::IsGoalSatisfied','Action::IsValid'])
p('C17','Formula evaluation on partial states never contradicts a completion',
 "When a formula evaluated on a partial state gives true or false, it gives the same value on every total state that agrees with the partial state. If the partial state fixes every proposition the formula mentions, evaluation gives exactly the value on the matching total state; otherwise an undetermined answer is the only other possibility.",
 ['inputs','programs'],"every formula, every partial state and every completion of it",
 T+"formula evaluation is not compiled by the tests.",
 ['src/formula.cc','src/state.cc'],[('unknown signalled by exception and mapped to an empty answer','Formula::operator()(PartialState)'),('negated atoms asked directly','CreateNegation<PartialState>')],
 ['Formula::operator()(PartialState)','Action::IsValid(PartialState)'])
p('C18','Applying an action changes exactly what its effects say',
 "Applying a ground action (whose effects do not contradict each other) makes every added proposition true, every deleted one false, applies universally quantified effects for every object of the type and conditional effects exactly when their condition holds in the state before the action, and leaves every other proposition as it was. The in-place form reports a change exactly when the state changed, and the copying form leaves its input untouched and gives the same result.",
 ['inputs','programs'],"every action schema with nested forall and conditional effects, every argument tuple and state",
 T+"action application is not compiled by the tests.",
 ['src/action.cc',I+'action.h','src/formula.cc'],[('effect closures compiled from the effect lists','CreateEffectsFunction')],
 ['Action::Apply','Pddl::NextState'])
p('C19','Applying an action to a partial state agrees with total application',
 "Applying an action to a partial state makes exactly the added propositions true and the deleted ones false and leaves every other known or unknown value as it was. A conditional effect takes place when its condition is known to hold in the partial state before the action, and does not when the condition is false or left open by the unknown propositions. Without conditions that are left open, applying to any completion of the partial state gives a completion of the result. The reported code is 0 if no value changed, 1 if some value became known but none flipped, and 2 if some value flipped.",
 ['inputs','programs'],"every action schema, argument tuple and partial state",
 T+"action application is not compiled by the tests.",
 ['src/action.cc','src/state.cc'],[('same effect closures over partial states','CreateEffectsFunction<PartialState>')],
 ['Action::Apply(PartialState)'])
p('C20','All query functions of a problem agree with each other',
 "For every state and action call, listing applicable actions or arguments, testing applicability, computing the next state, validating a state-action-state tuple, applying a sequence and validating a plan all tell one consistent story: an action is listed exactly when it is applicable, a tuple is valid exactly when the action is applicable and the next state is the computed one, applying a sequence equals repeated next states, and a plan is valid exactly when each action is applicable in turn and the goal holds at the end. The variants taking states as text give the same answers as those taking state objects.",
 ['inputs','histories'],"every domain, state, action and action sequence",
 T+"these functions are not compiled by the tests; the doctest cases sample one action of one domain.",
 ['src/pddl.cc',I+'pddl.h'],[('facade functions over Action and Formula','Pddl::*')],
 ['Pddl::ListValidActions/ListValidArguments/IsValidAction/NextState/IsValidTuple/ApplyActions/IsValidPlan/IsGoalSatisfied/Stringify'])
p('C21','Derived predicates hold exactly when a rule supports them',
 "For stratified rules, after deriving, a derived proposition is true in the state exactly when it is in the least model of the rules over the basic propositions, basic propositions are untouched, and deriving again changes nothing. The result depends only on the basic propositions, not on the order of rules or on which derived propositions were present before, and deriving always terminates.",
 ['inputs','programs'],"every stratified set of rules (chains, several rules for one head, recursion), objects and state",
 T+"derived predicates are not compiled by the tests.",
 ['src/derived_predicate.cc',I+'derived_predicate.h','src/pddl.cc'],[('fixpoint iteration','DerivedPredicate::Apply')],
 ['Pddl::DerivedState','Pddl::NextState'])
p('C22','Axiom closure reaches a consistent state and consistency is judged correctly',
 "For non-conflicting axioms, closing a state under the axioms gives a state in which every axiom instance holds, keeps everything already consistent, adds only what the axioms imply, changes nothing when repeated, and terminates. A state is judged valid exactly when every axiom instance whose context holds also has its consequence. For partial states validity is refuted only when the known values and the consequences the axioms force from them contradict each other.",
 ['inputs','programs'],"every set of axioms (several parameters, negated contexts, chains), objects and state",
 T+"axioms are not compiled by the tests.",
 ['src/axiom.cc',I+'axiom.h','src/pddl.cc'],[('iterated application over grounded axiom arguments','Pddl::ConsistentState, Axiom::Apply'),('consistency by dry run','Axiom::IsConsistent')],
 ['Pddl::ConsistentState','Pddl::IsValidState','Pddl::initial_state'])
p('C23','Action effects trigger the axioms they make applicable',
 "When an action adds or deletes a proposition that makes an axiom's context newly true, the axiom's consequence is part of the action's result, transitively; for non-conflicting axioms, applying an action in a state that is consistent with the axioms gives the closure of its direct effects, and axioms whose context does not match in name, arguments or types are not applied.",
 ['inputs','programs'],"every action and axiom set with unconditional effects, arguments and consistent state",
 T+"axioms are not compiled by the tests.",
 ['src/action.cc','src/axiom.cc'],[('axioms indexed by signed context predicate','Pddl::axiom_map, CreateAdd/CreateDel'),('positional argument matching','Axiom::CreateApplicationFunction')],
 ['Action::Apply','Pddl::NextState','Pddl::IsValidState'])
p('C24','Disjunctive normal form is logically equivalent to the formula',
 "Normalising a formula for given arguments gives a list of conjunctions that is satisfied by a state exactly when the formula is true in that state, for every state; each conjunction is consistent. When no result is returned the formula is unsatisfiable, and an empty result means it is true in every state; an unsatisfiable formula over ordinary propositions (no equality or type tests) never gets a result. Negating a normal form gives one equivalent to the negated formula.",
 ['inputs','programs'],"every formula, argument tuple and total state over the mentioned propositions",
 T+"the normal-form test is excluded from the build and samples one domain.",
 ['src/normal_form.cc',I+'normal_form.h'],[('conjoin, disjoin, flip and simplify over partial states','Conjoin/Disjoin/Negate/Simplify')],
 ['DisjunctiveFormula::Create','NormalizeGoal','NormalizePreconditions','Negate'])
p('C25','Normalised pre- and postconditions describe the action',
 "An action is applicable in a state exactly when the state satisfies its normalised precondition, and after applying an action with consistent unconditional effects the resulting state satisfies its normalised postcondition, which mentions exactly the propositions the effects mention. The joint form returns the same pair as the two separate forms, and nothing exactly when one of them is contradictory.",
 ['inputs','programs'],"every action schema, argument tuple and state",
 T+"the normal-form test is excluded from the build and samples one domain.",
 ['src/normal_form.cc'],[('effects translated to partial states','DisjunctiveFormula::Create(effect_lists)')],
 ['NormalizeConditions','NormalizePreconditions','NormalizePostconditions'])
p('C26','A loaded problem means what its PDDL text says',
 "Loading a domain and problem gives the name, constants, objects, predicates, actions, initial state and goal written in the text, in order; loading the problem from a file or from its text gives the same. Text that cannot be parsed is rejected with an exception. Adding an object makes it usable under its name and type, and removing it makes it unknown again; actions and predicates obtained before stay usable and follow the change.",
 ['inputs','histories'],"every generated domain and problem text, every sequence of object additions and removals",
 T+"the loader is not compiled by the tests.",
 ['src/pddl.cc',I+'pddl.h'],[('translation of the parse tree','Pddl::Pddl, GetObjects, GetInitialState'),('string or file detection','ParsePddl')],
 ['Pddl constructors and accessors','AddObject/RemoveObject'])
p('C27','Printed formulas describe the formula that is evaluated',
 "The text of a formula is a PDDL goal: reading it back as a goal over the same parameters gives a formula with the same truth value in every state, quantifiers naming the quantified variables with their types. Text for actions and predicates is the name with the comma-separated parameters or arguments.",
 ['inputs','programs'],"every formula, argument tuple and state",
 T+"formula printing is not compiled by the tests.",
 ['src/formula.cc','src/action.cc','src/predicate.cc'],[('text built along with the closures','CreateFormula')],
 ['Formula::to_string','Action/Predicate::to_string'])
p('C28','The Python problem builder writes the problem that was built',
 "A problem built in Python through adding objects, initial propositions and a goal composed with and, or, not, forall and exists is written as PDDL text that reads back as exactly that problem: same name and domain, same typed objects, same initial propositions, and the same goal structure. Parsing a proposition text and its parts gives its head and argument list, whatever the spacing around the arguments.",
 ['inputs','histories'],"every sequence of builder calls and every goal expression",
 T+"the Python part is only syntax-checked.",
 ['symbolic/problem.py'],[('recursive goal objects with text forms','symbolic.problem.Problem and its helpers')],
 ['Problem.__repr__','parse_proposition/parse_head/parse_args'])
p('C29','The command-line planner prints exactly the plans within the depth bound',
 "Given a domain file and a problem file, the command-line planner prints every plan of at most the given number of actions (--depth, 5 if not given; the last one counts if repeated) that first reaches the goal in its last state and never visits a state twice, each exactly once and shorter plans first, as the list of its nodes: the closed initial state, then each action call with the state it leads to, marked with its depth. It ends with the number of plans found. With --verbose it shows the search on the way and prints the same plans. Arguments it does not understand (fewer than two files, an unknown option, --depth without a number after it) end in the usage text and an error, without planning.",
 ['inputs'],"every domain, problem, depth bound and order of options",
 T+"the tests never run the program.",
 ['apps/pddl.cc','src/planning/planner.cc',I+'planning/breadth_first_search.h'],[('the program, its argument reader and node printing','main, ParseArgs, operator<<(Planner::Node)')],
 ['apps/pddl.cc main'])
p('C30','The Python API gives the answers of the C++ library',
 "Every function and attribute of the Python module (problems, objects, actions, axioms, predicates, parameter generators, state index, planner nodes, breadth-first search, normal forms) returns what the C++ library computes for the same arguments, whether they are given by position or by name, with states as sets of strings, and raises where the library throws. Values produced by an iteration are distinct and stay as they were when the iteration goes on; searches and iterators keep alive what they were made from as long as they are used themselves. A pickled problem or domain reads back as the same problem or domain. All of this holds while the problem object is alive.",
 ['inputs','histories'],"every domain, problem, state, action call and order of Python calls",
 T+"the module is not built by the tests, and pybind11 is not even needed to build the rest.",
 ['src/python/symbolic.cc'],[('bindings with return policies, keep-alive rules and state-set conversions','PYBIND11_MODULE(symbolic)')],
 ['the Python module symbolic'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
print(len(P))
