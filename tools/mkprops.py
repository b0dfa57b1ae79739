import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=mech,where=files[0])])))
IO=["lanelet2_io/src/Io.cpp","lanelet2_io/src/BinHandler.cpp","lanelet2_io/src/OsmHandlerWrite.cpp","lanelet2_io/src/OsmHandlerLoad.cpp","lanelet2_io/src/OsmFile.cpp","lanelet2_io/include/lanelet2_io/io_handlers/Serialize.h"]
p("C01","A map whose write was acknowledged is fully there after a crash and restart",
"Once writing a map to a file has returned without throwing and without reporting an error, a process crash at any later instant followed by a fresh process loading that file yields a map with exactly the written points, line strings, polygons, lanelets, areas and regulatory elements, with the same ids, attributes, point order, orientation, references and rule parameters (bit-exact for .osm ids/attributes/structure and for everything in .bin; .osm coordinates up to its documented text precision). This holds however the operating system splits the I/O (short writes, short reads, interrupted calls) and over repeated write/load cycles in either format.",
["histories","crash_points","inputs"],"every map buildable through the public API, every sequence of write/crash/restart/load over both formats, every way the OS splits a read or write",
"Tests write and load a handful of small maps in one process on a healthy file system; they never kill the writer, never restart with a fresh id counter and never see short I/O.",
IO,"writers hand all bytes to the OS and close before returning; parsers rebuild layers, cross references and weak back references from the file alone")
p("C02","A write or export failing at any I/O step is reported, never silent success",
"If any step of producing a file fails (create, any write, flush or close: full disk, I/O error, missing permission), writing a map in any format or exporting a routing graph reports it to the caller: map writes by the documented I/O exception or a non-empty error list, graph exports by an exception of the library; also a hazard the writer itself detects (a locale whose decimal point breaks the format) reaches the caller's error list. The map in memory is unaffected, and repeating the call once the fault is gone produces the complete file.",
["fault_sequences","crash_points"],"every position of the first failing I/O step and every kind of failure, for every map, format and export",
"Tests only try an unwritable path; no test makes the n-th write, the final flush or the close fail.",
["lanelet2_io/src/BinHandler.cpp","lanelet2_io/src/OsmHandlerWrite.cpp","lanelet2_io/src/Io.cpp","lanelet2_routing/include/lanelet2_routing/internal/RoutingGraphVisualization.h"],"stream state and save results checked after the last byte; exceptions of the documented hierarchy")
p("C03","A torn, truncated or unreadable map file is never taken for a complete map",
"Loading a file that holds only a prefix of a written map (crash in the middle of a write, full disk, truncation at any byte) or whose reading fails or is cut short at any point either throws the documented I/O exception, or reports a non-empty error list, or returns the complete map; it never returns fewer or different elements silently, crashes, hangs or throws an exception outside the library's hierarchy. After such a failure the process is still usable: loading the intact file succeeds and yields the complete map.",
["crash_points","fault_sequences"],"every truncation point of every written file in both formats and every failing or short read position",
"Tests load only intact files and a few hand-broken XML documents; none truncates or fails reads at arbitrary bytes.",
["lanelet2_io/src/BinHandler.cpp","lanelet2_io/src/OsmHandlerLoad.cpp","lanelet2_io/src/OsmFile.cpp","lanelet2_io/src/Io.cpp"],"archive and XML errors mapped onto the documented exceptions; nothing partially loaded escapes without an error")
p("C04","Damage to single map elements is reported and does not leak into the others",
"When a map file arrives with elements lost, duplicated, marked deleted, reordered or pointing to missing partners, or when converting single points or creating single regulatory elements fails, loading with an error list reports every element it had to drop or repair, and every element that does not depend (directly or transitively) on a damaged one is loaded exactly as from the undamaged file. The order of elements in the file never changes the result. Symmetrically, writing a map with unconvertible points or dangling references reports each of them and writes everything else intact.",
["fault_sequences","inputs"],"every combination of element-level losses, duplications, reorderings and failing conversions/factories over generated maps",
"Tests contain a few hand-written broken files with one defect each; combinations, reorderings and failing plug-ins during load or save are not covered.",
["lanelet2_io/src/OsmHandlerLoad.cpp","lanelet2_io/src/OsmFile.cpp","lanelet2_io/src/OsmHandlerWrite.cpp"],"per-element error collection with placeholders for unresolved references that are fixed up or removed")
p("C05","Freshly drawn ids are unique across threads, files and restarts",
"An id drawn from the global id generator is never returned twice in a process, whatever the interleaving of concurrent draws and registrations, and never equals an id that was registered before the draw began. After a map has been loaded from a file or an element has been added to a map, freshly drawn ids never equal the id of any of its elements, so elements added to a map after a restart never collide with existing ones.",
["schedules","histories","crash_points"],"every interleaving of draws, registrations, adds and loads by concurrent threads, every sequence of write/restart/load/add",
"Tests draw a few ids from one thread; no test interleaves draws with registrations or restarts the process between write, load and add.",
["lanelet2_core/src/LaneletMap.cpp","lanelet2_core/include/lanelet2_core/LaneletMap.h","lanelet2_io/src/BinHandler.cpp","lanelet2_io/src/OsmHandlerLoad.cpp"],"atomic counter raised to at least every registered id; adds and loaders register the ids they see")
p("C06","Concurrent reads of primitives are race free and give the lone reader's answer",
"Any number of threads reading the same unmodified primitives through const access (attributes in any type, centerlines, bounds, inverted/2d/3d views, polygons, lanelet and bound sequences, regulatory elements and their parameters), including copying the handles and attributes, never race and each gets exactly the answer it would get alone. Values that are computed lazily on first use and cached stay valid for whoever obtained them.",
["schedules"],"every interleaving of const reads by any number of threads on shared primitives, including first-use races of every cached value",
"Unit tests are single threaded; the caches' first-use and replace windows need particular interleavings.",
["lanelet2_core/src/Attribute.cpp","lanelet2_core/src/Lanelet.cpp","lanelet2_core/src/LaneletSequence.cpp","lanelet2_core/include/lanelet2_core/Attribute.h","lanelet2_core/include/lanelet2_core/primitives/LaneletSequence.h"],"lazily filled caches published through atomic shared pointers")
p("C07","Concurrent queries on one map are race free and equal to a plain scan of it",
"Any number of threads querying one unmodified map or submap (find, get, exists, size, iteration, box search, nearest, search-until, usages, geometric nearest neighbours) never race, and each answer equals what a plain scan over the map's elements gives.",
["schedules","inputs"],"every interleaving of queries by any number of threads on generated maps built by bulk construction or by incremental adds",
"Tests run each query once, single threaded, on one tiny hand-made map.",
["lanelet2_core/src/LaneletMap.cpp","lanelet2_core/include/lanelet2_core/LaneletMap.h","lanelet2_core/include/lanelet2_core/geometry/LaneletMap.h","lanelet2_core/include/lanelet2_core/geometry/impl/LaneletMap.h"],"search trees and usage tables filled at construction/add and only read by queries")
p("C08","Concurrent routing queries are race free and match a reference search",
"Any number of threads querying one routing graph (relations and neighbours, shortest paths with and without lane changes or areas, via-points, reachable sets, possible paths, routes and their lanes, conflicts) while others build further graphs from the same map never race, and each answer equals that of a plain reference search over the graph's edges: cheapest path cost, exact reachable set within the cost limit, exactly the relations present in the map.",
["schedules","inputs"],"every interleaving of routing queries and graph builds on generated maps, participants and cost models",
"Tests are single threaded and compare a few hand-picked answers on one map.",
["lanelet2_routing/src/RoutingGraph.cpp","lanelet2_routing/src/RoutingGraphBuilder.cpp","lanelet2_routing/src/RouteBuilder.cpp","lanelet2_routing/src/Route.cpp","lanelet2_routing/include/lanelet2_routing/internal/ShortestPath.h","lanelet2_routing/include/lanelet2_routing/internal/Graph.h"],"immutable graph after construction; per-query search state")
p("C09","Concurrent rule, matching and projection queries match the lone caller",
"Any number of threads asking traffic rules (may pass, may change lane, speed limit, one-way), matching objects to lanelets, or projecting coordinates through one shared instance, and creating rules, regulatory elements, parsers and writers through the factories, never race and each gets exactly the answer a lone caller gets.",
["schedules"],"every interleaving of such calls by any number of threads over shared maps, rules and projectors, including first-use initialisation of every static table",
"Unit tests are single threaded and run after all static tables were initialised.",
["lanelet2_traffic_rules/src/GenericTrafficRules.cpp","lanelet2_traffic_rules/src/GermanTrafficRules.cpp","lanelet2_traffic_rules/src/TrafficRulesFactory.cpp","lanelet2_matching/src/LaneletMatching.cpp","lanelet2_matching/src/Utilities.cpp","lanelet2_projection/src/UTM.cpp","lanelet2_core/src/RegulatoryElement.cpp"],"stateless const evaluation, function-local constant tables, registries filled before main")
p("C10","Loads and writes running at the same time do not influence each other",
"Threads loading and writing different files (and writing the same unmodified map to different files) at the same time, while others query those maps, never race, and each gets the same map, file content and error list as when it runs alone, even when some of them fail because of I/O faults.",
["schedules","fault_sequences"],"every interleaving of loads, writes and queries by several threads with I/O faults injected into some of them",
"Tests load and write one file at a time.",
["lanelet2_io/src/Io.cpp","lanelet2_io/src/OsmHandlerLoad.cpp","lanelet2_io/src/OsmHandlerWrite.cpp","lanelet2_io/src/BinHandler.cpp","lanelet2_io/src/Factory.cpp"],"all state per call; shared registries and id counter only")
p("C11","After any history of additions a map equals its simple model",
"After any sequence of adding elements to maps and submaps (in any order, repeatedly, without ids, sharing parts, through editable handles, with calls in between that fail), a map contains exactly the union of what was added plus everything it references, each element once under its id and as the identical object; a submap contains exactly what was explicitly added. Lookup by id, by location and by usage all agree with a plain scan over the elements at every moment. An addition that throws takes nothing away that was contained before and can be repeated; the lookups agree again as soon as memory is available, at the latest after the repeated addition.",
["histories","fault_sequences"],"every sequence of add/create/submap operations with failing calls (invalid input, exhausted memory) injected at arbitrary points",
"Tests add a few elements in one order; failing calls in the middle of an addition are never tried.",
["lanelet2_core/src/LaneletMap.cpp","lanelet2_core/include/lanelet2_core/LaneletMap.h"],"recursive add with per-layer element table, search tree and usage tables updated together")
p("C12","All handles to a shared primitive see every change, and cached results follow",
"Whatever the interleaving of clients (taking turns) that modify primitives through one handle and read through others (copies, const handles, inverted, 2d/3d, compound and polygon views, map lookups, after failed modifications too), every handle observes the latest state of the shared data, an inverted view is always the exact reverse, and a lanelet's centerline is recomputed after its bounds were replaced or its cache was reset, and stays the user's one while a custom one is set. A single modification that fails for lack of memory leaves the old or the new state, never a mixture, and enum and name lookup of attributes and roles always agree.",
["histories","schedules","fault_sequences"],"every sequence of mutations and reads by several clients holding different kinds of handles, with failing allocations injected",
"Tests check single mutation/read pairs; long mixed histories across view types with failures are not sampled.",
["lanelet2_core/include/lanelet2_core/primitives/Primitive.h","lanelet2_core/include/lanelet2_core/primitives/LineString.h","lanelet2_core/include/lanelet2_core/primitives/Lanelet.h","lanelet2_core/src/Lanelet.cpp","lanelet2_core/include/lanelet2_core/primitives/Area.h"],"views share one data object; cached centerline invalidated on bound changes")
p("C13","Lifetimes: nothing in use is freed, nothing unused is kept",
"Through any history of creating, copying, handing over between threads and dropping maps, submaps, elements, routing graphs and routes, everything reachable from a live handle stays valid and unchanged; weak references to lanelets and areas report expiry exactly when the last owner is gone; and when all handles are dropped all memory is returned exactly once.",
["histories","schedules"],"every order and interleaving of creating, copying, locking weak references and dropping the last owners",
"Tests keep everything alive until the end of the test body; last-owner races and leaks are not observed.",
["lanelet2_core/include/lanelet2_core/LaneletMap.h","lanelet2_core/src/LaneletMap.cpp","lanelet2_core/include/lanelet2_core/primitives/Lanelet.h","lanelet2_core/include/lanelet2_core/primitives/Area.h","lanelet2_core/src/RegulatoryElement.cpp","lanelet2_routing/src/RoutingGraph.cpp"],"shared ownership with weak back references from regulatory elements; submaps keep parameters of their elements alive")
p("C14","Running out of memory anywhere surfaces as an exception and leaves things usable",
"If any single allocation or run of allocations fails during any library call (building and adding to maps, lazy values, queries, loading, writing, graph building, routing, rules, matching, validating), the call ends with an ordinary C++ exception (or completes normally), never by terminating the process or corrupting or leaking memory. Objects that were only read are unchanged and the same call succeeds with the same result once memory is available again.",
["fault_sequences"],"every position of the first failing allocation and failing runs of every length in every kind of call",
"No test ever makes an allocation fail.",
["lanelet2_core/src/Attribute.cpp","lanelet2_core/src/LaneletMap.cpp","lanelet2_core/src/Lanelet.cpp","lanelet2_core/include/lanelet2_core/primitives/Primitive.h","lanelet2_io/src/BinHandler.cpp","lanelet2_io/src/OsmHandlerLoad.cpp","lanelet2_routing/src/RoutingGraphBuilder.cpp","lanelet2_routing/include/lanelet2_routing/internal/Graph.h"],"RAII ownership, noexcept only on functions that cannot throw")
p("C15","A failing user plug-in is contained and later calls are unaffected",
"When user-supplied code (projector, traffic rules, routing cost, regulatory element factory, visitor or query callback) throws at any of its invocations, the surrounding library call either propagates that exception or reports it as documented, without crash, leak, or change to the map and other objects; invalid costs are refused as documented. Repeating the call with the plug-in healthy again gives exactly the result of an undisturbed run.",
["fault_sequences","histories"],"every invocation index of every plug-in kind at which it may throw, for load, write, graph build, queries and traversals",
"Tests use well-behaved plug-ins and one negative-cost plug-in.",
["lanelet2_routing/src/RoutingGraphBuilder.cpp","lanelet2_routing/src/RoutingGraph.cpp","lanelet2_io/src/OsmHandlerLoad.cpp","lanelet2_io/src/OsmHandlerWrite.cpp","lanelet2_core/src/RegulatoryElement.cpp","lanelet2_core/src/LaneletMap.cpp"],"exceptions unwind through builders that only publish complete results")
p("C16","The map validator never passes a map it could not read completely",
"Validating a map file reports at least one error and the command line tool exits with a non-zero status whenever the file is missing, unreadable, torn or read with errors (whatever the position of the fault), instead of crashing or reporting success; on an intact file the report equals the one obtained from the same map in memory, contains every issue the selected checks find, and does not depend on what else runs at the same time or was validated before.",
["fault_sequences","schedules","inputs"],"every read-fault or truncation position, every filter selection, several validations interleaved",
"Tests validate two intact files and a few in-memory maps with one defect each.",
["lanelet2_validation/src/Validation.cpp","lanelet2_validation/src/Cli.cpp","lanelet2_validation/src/ValidatorFactory.cpp"],"load errors converted to error issues; exit status from issues")
p("C17","Routing is independent of how the map came to be",
"Routing graphs built from the same road network give the same relations, conflicts, reachable sets and path costs no matter in which order the elements were added or stored, whether the map was built in memory, loaded from a file after a restart or reassembled as a submap, where objects happen to lie in memory, and how often or in which thread the graph is built.",
["histories","configurations","schedules"],"every insertion/storage order, format, memory layout and restart history of generated road networks",
"Tests build one graph from one map built in one fixed order.",
["lanelet2_routing/src/RoutingGraphBuilder.cpp","lanelet2_routing/src/RoutingGraph.cpp","lanelet2_core/src/LaneletMap.cpp","lanelet2_io/src/OsmHandlerLoad.cpp"],"graph construction from hashed containers and search trees must not let iteration order leak into results")
# not applicable
p("N01","Coordinate projections invert each other and respect their domain",
"For every projector and every coordinate in its domain, projecting forward and back returns the coordinate up to numerical precision, and coordinates outside the domain are refused with the documented exception instead of being projected wrongly.",
["inputs"],"every origin, option and coordinate","Tests sample a few coordinates near a few origins.",
["lanelet2_projection/src/UTM.cpp","lanelet2_projection/src/LocalCartesian.cpp","lanelet2_projection/src/Geocentric.cpp"],"pure functions over GeographicLib")
p("N02","Geometric predicates and measures are correct for all shapes",
"Distances, projections onto line strings, arc coordinates, overlaps, containment, curvature and triangulations of primitives equal their mathematical definition for every non-degenerate shape and orientation, in 2d and 3d.",
["inputs"],"every shape and orientation","Tests sample a few shapes.",
["lanelet2_core/include/lanelet2_core/geometry","lanelet2_core/src/LineStringGeometry.cpp","lanelet2_core/src/PolygonTriangulationGeometry.cpp"],"pure functions over immutable inputs")
p("N03","Traffic rules follow from tags exactly as documented",
"For every combination of participant, tags, overrides and regulatory elements, passability, lane change permission, one-way status and speed limits are exactly those the tagging documentation prescribes.",
["inputs"],"every tag combination and participant","Tests sample some tag combinations.",
["lanelet2_traffic_rules/src/GenericTrafficRules.cpp","lanelet2_traffic_rules/src/GermanTrafficRules.cpp","lanelet2_core/docs/LaneletAndAreaTagging.md"],"pure function of attributes")
p("N04","The Python package behaves like the C++ library",
"Every operation reachable from Python has the same effect and result as its C++ counterpart, and objects obtained in Python stay valid as long as Python refers to them.",
["programs","histories"],"every Python program using the package","Tests run a few scripts.",
["lanelet2_python/python_api/core.cpp","lanelet2_python/python_api/routing.cpp","lanelet2_python/python_api/io.cpp"],"thin Boost.Python wrappers under the interpreter lock")
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P),[ (x['id'],len(x['title'])) for x in P if len(x['title'])>80])
