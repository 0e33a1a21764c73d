ASSUMPTIONS = [
 "one thread (C05: several, switched between calls of the public interface); allocation succeeds; the C++ standard library, Boost, libxml2 and the compiler behave as specified",
 "object code of libstdc++/libxml2 that is linked, not compiled here, runs on concrete data: a symbolic value that reaches it is fixed to the path's model value and the run is then reported as not exhaustive (concretised_at)",
 "floating point: IEEE-754 binary64, round to nearest even, as executed by the hardware and as encoded in Z3's FP theory",
]
NOTES = "Engine: /verif/sx (LLVM pass + run time). See DESIGN.md."
def P(id, title, statement, over, text, why, files, mech, **kw):
    mech = [{"name": m.split(" @ ")[0], "where": m.split(" @ ")[1] if " @ " in m else files[0]} for m in mech.split("; ")]
    d = dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why, anchors={"files": files, "mechanism": mech})
    d.update(kw)
    return d
PROPS = [
P("C01", "Updates are accepted exactly when valid, and refused without a trace",
  "Whatever value an attribute of an equipment is set to, the update is accepted exactly when the value satisfies the documented rules of that attribute together with the equipment's other attributes. An accepted value is the one read back; a refused update raises a validation error and changes nothing in the network. Hence no history of updates leaves an equipment in a state its own rules forbid.",
  ["inputs", "histories"], "all 2^64 values of every double attribute, all sequences of updates within the bound",
  "Tests set two or three chosen values per attribute and never combine updates; the interaction of a setter with the regulation state, with NaN, infinities and signed zero is untested.",
  ["src/iidm/ValidationUtils.cpp", "src/iidm/Generator.cpp", "src/iidm/VscConverterStation.cpp", "src/iidm/PhaseTapChanger.cpp", "include/powsybl/iidm/TapChanger.hxx"], "check* functions called by every setter before the assignment",
  check={"file": "values", "bounds": "one update of each of 70 attributes of a network holding every kind of equipment, with an unconstrained double; all histories of 3 updates (quick; 4 thorough, 5 for ranges) of a generator, battery, voltage limits, VSC, dangling line generation, SVC, shunt, ratio and phase tap changer with unconstrained doubles; 2 (3) of 10 updates of what two variants share or have of their own (tap changers, shunt sections), after a removed variant or not."}),
P("C02", "Creating an object yields it complete or changes nothing",
  "Adding a substation, voltage level, bus, switch, busbar section, injection, branch, transformer or HVDC line succeeds exactly when its identifier, location and attributes are valid. On success the object is found by its identifier, by its voltage level and by its node or bus, with the requested attributes and connection status, and removing it gives back the exact previous network. On failure an error is raised and the network is exactly as before: no identifier, node, bus or station is left occupied.",
  ["inputs"], "all combinations of identifier, location and attribute values within the bound",
  "Tests cover a few single-fault refusals and look at the message, never at what the refusal left behind; combinations of several faults and of both ends of a branch are not tested.",
  ["src/iidm/LoadAdder.cpp", "src/iidm/LineAdder.cpp", "include/powsybl/iidm/InjectionAdder.hxx", "include/powsybl/iidm/BranchAdder.hxx", "src/iidm/Connectable.cpp", "src/iidm/NodeBreakerVoltageLevel.cpp", "src/iidm/BusBreakerVoltageLevel.cpp"], "the *Adder::add functions",
  check={"file": "creation", "bounds": "every combination of 8 injection kinds x 8/11 locations x 11 identifiers, of both ends of 3 branch kinds, of the 3 legs of a transformer, of stations, and of every attribute of 12 adders as an unconstrained double, on a network holding every kind of equipment; 2 (3) setters of a generator under all their names, 3 (4) of a substation, before and after it is added.", "harnesses": dict({k: {"must": ["refused", "created"]} for k in "injection_bus injection_node line two_windings_transformer tie_line three_windings_transformer hvdc_line containers adder_values".split()}, setters={"must": ["generator", "substation"]})}),
P("C03", "Identifiers and aliases always resolve to their owner",
  "At any point of any history of creations, alias additions and removals, object removals and moves of the network, an identifier or alias resolves to an object iff that object is in the network and owns it, no two objects share one, and an alias or creation is accepted iff its name is free (or made unique on request). Every enumeration, counter, lookup and link of the network agrees with the others, and a moved network behaves as the original.",
  ["histories"], "all histories within the bound over identifiers chosen to collide",
  "Tests exercise a handful of hand-written alias sequences; interactions of aliases with removal, unicity suffixes and moves are not tested.",
  ["src/iidm/NetworkIndex.cpp", "src/iidm/Identifiable.cpp", "include/powsybl/iidm/IdentifiableAdder.hxx", "src/iidm/util/Identifiables.cpp", "src/iidm/Network.cpp"], "NetworkIndex maps by id, alias and type; Identifiable alias containers @ src/iidm/Identifiable.cpp",
  check={"file": "index", "bounds": "all histories of 3 operations (4 thorough) on two to five objects over 3 colliding names with and without unicity and alias types; 2 (3) with moves; after each history, every name is tried for a new object; aliases added to or removed from each object of a network of every kind, which is then removed; one move of that network, with/without variants and computed views.", "harnesses": {"histories": {"must": ["removed"]}, "histories_with_move": {"must": ["moved"]}, "aliases_of_all": {"must": ["removed", "kept"]}}}),
P("C04", "Variants are isolated, cloned exactly and live independently",
  "A value set in the working variant is the one read back in that variant until it is set again there, and no other variant ever sees it, whatever variants are cloned, overwritten, removed or recycled in between and even if the network is moved. A clone holds exactly the values of its source at the time of cloning; cloning, removing or selecting a variant succeeds exactly when its variants exist (or are new) and otherwise changes nothing. An object created or removed while several variants exist is created or removed in all of them.",
  ["histories", "inputs"], "all histories of variant operations within the bound; all 2^64 values of each attribute that has one value per variant",
  "Tests clone once or twice and check a few attributes of each class; recycled indices, overwritten targets, failing lists and moved networks are not combined with them.",
  ["src/iidm/VariantManager.cpp", "include/powsybl/iidm/VariantArray.hxx", "src/iidm/Generator.cpp", "src/iidm/Terminal.cpp", "src/iidm/BusTerminal.cpp", "include/powsybl/iidm/TapChanger.hxx", "src/iidm/extensions/SlackTerminal.cpp", "src/iidm/ThreadLocalMultipleVariantContext.cpp"], "allocate/delete/extend/reduceVariantArrayElement of every stateful object; VariantManager::cloneVariant and removeVariant @ src/iidm/VariantManager.cpp",
  check={"file": "variants", "bounds": "isolation: 65 attributes x 4 states of the variant indices x every working variant x (clone, overwrite, remove) x every second working variant, with unconstrained doubles; histories: 3 operations (4 thorough) among clone, clone list, remove, select, change of multi-thread mode over 4 names; creation of 9 kinds of object; removal of every equipment; removal of a bus that the connectable buses of two loads use in any of 3 variants; move of the network.", "harnesses": {"isolation": {"must": ["set"]}, "histories": {"must": ["end"]}, "buses": {"must": ["removed", "refused"]}}}),
P("C06", "Calculated buses are exactly the groups connected by closed switches",
  "In every state of switches, internal connections and equipment of a voltage level, the buses of the bus view are exactly the groups of nodes (or configured buses) connected by closed switches that hold enough equipment to be a bus, and the buses of the bus/breaker view the groups connected by closed, non-retained switches. Each bus lists exactly the connected terminals of its group, and every terminal, busbar section, switch and network lookup answers with the bus of its group (its connectable bus is one it can reach, when there is one).",
  ["inputs"], "all graphs of up to 3 to 5 nodes or buses within the bound, all switch states of a complete voltage level",
  "Tests check some hand-drawn voltage levels in one or two switch states; bus validity, retained switches, parallel edges, isolated nodes and node numbering are not combined.",
  ["src/iidm/NodeBreakerVoltageLevelTopology.cpp", "src/iidm/BusBreakerVoltageLevelTopology.cpp", "src/iidm/NodeBreakerVoltageLevelViews.cpp", "src/iidm/NodeTerminalViews.cpp", "include/powsybl/math/UndirectedGraph.hxx"], "CalculatedBusTopology::updateCache, isBusValid; UndirectedGraph::traverse @ include/powsybl/math/UndirectedGraph.hxx",
  check={"file": "topology", "bounds": "3 nodes x 4 equipments x 6 edge states (plus a parallel edge); 4 nodes, 6 edges x 4 states, 6 equipment patterns; 5 nodes, 8 edges x 3 states; every triple of equipment kinds; two buses, a feeder and a dead end with any of 5 open switches (open or closed in thorough), added in 10 orders; 3 buses (one of them removed) x 3 switch states x 4 equipments; 7 switches of a complete network.", "harnesses": {h: {"must": ["bus", "no bus"]} for h in ("nodes3", "nodes4", "validity", "buses")}}),
P("C08", "Connected and synchronous components are exactly the linked buses",
  "In every state of the network, two buses of the bus view are in the same synchronous component iff they are linked by lines and transformers connected at both ends, and in the same connected component iff they are linked by those or HVDC lines. Components are numbered from 0 by decreasing size, their size and buses are exact, and every bus of the bus/breaker view has the component of its bus of the bus view, or none.",
  ["inputs"], "all wirings of 4 to 6 buses by any branch within the bound",
  "Tests compute the components of three fixed networks.",
  ["src/iidm/AbstractComponentsManager.cpp", "src/iidm/ConnectedComponentsManager.cpp", "src/iidm/SynchronousComponentsManager.cpp", "src/math/GraphUtil.cpp", "src/iidm/CalculatedBus.cpp", "src/iidm/MergedBus.cpp"], "AbstractComponentsManager::update; GraphUtil::computeConnectedComponents @ src/math/GraphUtil.cpp",
  check={"file": "components", "bounds": "all graphs of lines on 5 buses (6 thorough); 4 links each absent, line, line open at one end, transformer or HVDC on 4 buses; two 3-winding transformers with any leg open; 9 switch states of a network of both topologies.", "harnesses": {h: {"must": ["end"]} for h in ("branches", "graphs", "three_windings", "mixed")}}),
P("C09", "Connecting or disconnecting a terminal operates exactly the right breakers",
  "Connecting a terminal closes the breakers of one shortest path to a busbar section that has no open disconnector, and disconnecting it opens the breaker next to it on every path, or answers that it cannot; no other switch is operated, and the answer says whether it was done. On a bus, exactly that terminal changes. A terminal already in the state asked for is left alone.",
  ["inputs", "histories"], "all arrangements and positions of switches within the bound",
  "Tests connect and disconnect one feeder of two drawings; by-passes, couplers, open disconnectors and parallel paths are not combined.",
  ["src/iidm/NodeBreakerVoltageLevel.cpp", "src/iidm/BusBreakerVoltageLevel.cpp", "include/powsybl/math/UndirectedGraph.hxx", "src/iidm/Terminal.cpp"], "NodeBreakerVoltageLevel::connect and disconnect; UndirectedGraph::findAllPaths @ include/powsybl/math/UndirectedGraph.hxx",
  check={"file": "connection", "bounds": "a feeder and two busbar sections: 5 links each absent, internal connection, or breaker, disconnector or load break switch open or closed (coupler: absent or a closed breaker; thorough: any); 7 (8) switches in any position with 2 (3) operations on a feeder or busbar section; every pair of terminals of the buses of a full network, 3 operations, two variants.", "harnesses": {"feeder": {"must": ["nothing to do", "connected", "not connected", "disconnected", "not disconnected"]}, "sequence": {"must": ["nothing to do", "connected", "disconnected"]}, "on_buses": {"must": ["connected", "disconnected"]}}}),
P("C10", "Calculated views never show an outdated topology",
  "After any edit (switch, internal connection, bus, equipment, branch, HVDC line, connection, voltage level, network move) in any variant, every bus, terminal, component and lookup of every variant answers according to the topology of that variant at that moment, whatever had been computed before.",
  ["histories"], "all histories of 2 edits (3 thorough) among 29, in two variants",
  "Tests edit then query once; no test queries the views before an edit of each kind, in another variant.",
  ["src/iidm/NodeBreakerVoltageLevel.cpp", "src/iidm/BusBreakerVoltageLevel.cpp", "src/iidm/NetworkViews.cpp", "src/iidm/BusCache.cpp", "src/iidm/AbstractComponentsManager.cpp", "src/iidm/Switch.cpp"], "invalidateCache",
  check={"file": "freshness", "budget": 90, "bounds": "all sequences of 2 edits (3 thorough) among 29 kinds with all views computed before each, in one variant and in every combination of two variants with an optional clone; every edit before and after a move.", "harnesses": {h: {"must": ["end"]} for h in ("edits", "edits_in_variants", "move")}}),
P("C12", "A removal removes exactly the object and its contents",
  "Removing an equipment, switch, bus, HVDC line, voltage level or substation is refused, without a trace, exactly when another object depends on it. Otherwise that object and everything it contains disappear from every lookup, enumeration and link, and everything else stays and remains usable.",
  ["histories", "inputs"], "every object of a network holding every kind; all removal histories within the bound",
  "Tests remove one or two objects of fixed networks and check counts; order of removals and what remains reachable is not checked.",
  ["src/iidm/Connectable.cpp", "src/iidm/VoltageLevel.cpp", "src/iidm/Substation.cpp", "src/iidm/BusBreakerVoltageLevel.cpp", "src/iidm/NodeBreakerVoltageLevel.cpp", "include/powsybl/math/UndirectedGraph.hxx"], "remove/detach functions and graph vertex/edge removal",
  check={"file": "removal", "bounds": "every object of the full network; every pair of containers after removal of any subset of its 7 branches; all histories of 3 removals (5 thorough) of a two-level network; all orders of switch removals followed by removal of all buses; every multiset of 2 (3) internal connections between 4 nodes.", "harnesses": {"single": {"must": ["removed", "refused"]}, "containers": {"must": ["removed", "refused"]}, "histories": {"must": ["removed", "refused"]}, "remove_all": {"must": ["removed"]}, "internal_connections": {"must": ["removed", "refused"]}}}),
P("C13", "A network written to XML and read back is the same network",
  "Whatever the state of the network, writing it in the current XML version and reading the result gives a network whose every object, link, attribute, limit, alias, property, name and state of the working variant equals the original's, bit for bit for numbers, and nothing else. The written network is unchanged.",
  ["inputs"], "all 2^64 values of every double attribute, every enumerated attribute, texts within the bound",
  "Tests compare a few reference files; no test varies the values, so a swapped, dropped or rounded attribute on a value the files leave at its default passes.",
  ["src/iidm/converter/xml/NetworkXml.cpp", "include/powsybl/iidm/converter/xml/AbstractConnectableXml.hxx", "src/iidm/converter/xml/AbstractTransformerXml.hxx", "src/iidm/converter/xml/VoltageLevelXml.cpp", "src/xml/XmlStreamWriter.cpp", "src/xml/XmlStreamReader.cpp"], "write/readRootElementAttributes and read/writeSubElements of every *Xml class",
  check={"file": "roundtrip", "bounds": "a network holding every kind of equipment, link and optional element; each of 150+ attributes given an unconstrained double or each of its values, connected or not, alone and all those of an object together; each of 136 creation-time attributes of 13 kinds of object, unconstrained, alone and together; 16 texts x 30 places; every regulating terminal, country, kind, date of 7, duration and forecast distance (31 bits); 13 special numbers; each combination of the optional parts (limits of each kind and side, tap changers, generation, reactive limits) of 8 kinds of equipment; 3 variants; through streams and files, absent, shorter or longer before; each in two situations of the network (regulating and connected, or not). NaN tap-changer steps, NaN permanent limits without temporary limits and NaN section data, which the format cannot express, are excluded.", "harnesses": {h: {"must": ["round trip"]} for h in ("attributes", "attributes_together", "created", "created_together", "texts", "choices", "special", "in_variants", "parts")} | {"files": {"must": ["file", "no file", "options"]}}}),
P("C14", "Export options and versions change only what they say",
  "Exporting to an older version gives a readable file of the network without exactly what the version cannot express; when one of these things must not be lost silently the export is refused, unless incompatibilities are only to be logged. Exporting at another topology level gives the same network with the calculated buses in place of the nodes and switches; leaving out branch state variables leaves out nothing else.",
  ["inputs"], "every versioned feature x version x behaviour within the bound; all switch states",
  "Tests compare reference files of chosen networks in each version; the interaction of a feature with each version and behaviour is not tested and no file written under LOG_ERROR is read back.",
  ["src/iidm/converter/xml/IidmXmlUtil.cpp", "src/iidm/converter/xml/NetworkXml.cpp", "src/iidm/converter/xml/VoltageLevelXml.cpp", "src/iidm/converter/xml/ShuntCompensatorXml.cpp", "include/powsybl/iidm/converter/xml/AbstractConnectableXml.hxx"], "assertMinimumVersion*, runFromMinimumVersion; writeNodeOrBus @ include/powsybl/iidm/converter/xml/AbstractConnectableXml.hxx",
  check={"file": "export", "bounds": "45 versioned features alone, all but one, each suffix of the list x 6 versions x 2 behaviours, every pair of features just below the version of either (all versions and behaviours: thorough); both coarser levels x 7 switches x retained switches x regulation on a busbar section x an isolated bus on a network of both topologies; branch state variables and indentation on or off.", "harnesses": {"versions": {"must": ["refused", "written"]}, "version_sets": {"must": ["refused", "written"]}, "levels": {"must": ["refused", "written", "bus branch"]}}}),
P("C15", "An XML input gives a usable network or an error",
  "Whatever an XML file contains (any value, missing or repeated attribute, missing, repeated, renamed or misplaced element, truncation), reading it either raises an error or gives a network whose objects, links and lookups agree, obey the rules of their classes and can be written again. It never crashes, hangs or leaves memory corrupted.",
  ["inputs"], "every attribute of every kind of element with any number or one of 31 texts; every element renamed, moved, repeated, removed or cut",
  "Tests read valid reference files and a few invalid ones.",
  ["src/iidm/converter/xml/NetworkXml.cpp", "src/xml/XmlStreamReader.cpp", "src/iidm/converter/xml/TerminalRefXml.cpp", "src/iidm/converter/xml/ReactiveLimitsXml.cpp", "src/iidm/converter/xml/VoltageLevelXml.cpp"], "XmlStreamReader::getAttributeValue; read functions of every *Xml class @ src/iidm/converter/xml/NetworkXml.cpp",
  check={"file": "malformed", "budget": 110, "bounds": "files of versions 1.0 and 1.5 (all six: thorough) of a network holding every kind of equipment and optional element; one attribute of each kind of element (every occurrence: thorough) removed or given one of 31 texts, any double (10 special ones for a tie line or bus, with which the reader does complex arithmetic) or any integer of [0,50]; each kind of element renamed to 20 names, removed, repeated, emptied, the file cut before or after it, text before it; each kind of element copied into each other kind.", "harnesses": {"attribute_values": {"must": ["refused", "read"]}, "attribute_numbers": {"must": ["refused", "read"]}, "elements": {"must": ["refused", "read"]}, "misplaced": {"must": ["refused", "read"]}}}),
P("C16", "An anonymised export hides every identifier and is undone by its map",
  "An anonymised export contains no identifier, name, alias, operator or geographical tag of the network's objects, and the mapping written beside it leads from the file to exactly the network the plain export gives, whatever the texts, the version, the topology level and the options. A text always has the same substitute, two texts never share one, and a missing or broken mapping gives an error or a usable network.",
  ["inputs"], "every option combination, every pair of places and of 20 texts within the bound, up to 750 texts",
  "One test anonymises one small network without switches, aliases or HVDC lines.",
  ["src/iidm/converter/SimpleAnonymizer.cpp", "src/iidm/converter/xml/NetworkXml.cpp", "src/iidm/converter/xml/VoltageLevelXml.cpp", "include/powsybl/iidm/converter/xml/AbstractIdentifiableXml.hxx"], "anonymizeString, deanonymizeString and their callers",
  check={"file": "anonymize", "bounds": "a network holding every kind of equipment and link: 3 topology levels x 6 versions x branch state variables x 2 switches x slack extension; 20 texts (3 in the second place; 20 thorough) in every pair of 23 x 4 (23) places; 2 (3) of 20 texts after 0, 176, 352, 528 and 704 (every 25) others. Excluded, as the format keeps them readable: the network's identifier, properties, alias types, UCTE codes, names of limits; texts with line ends.", "harnesses": {"options": {"must": ["anonymised"]}, "texts": {"must": ["anonymised", "not unique"]}, "mapping": {"must": ["end"]}}}),
P("C20", "Overloads are reported exactly as the limits say",
  "A branch exceeds a permanent limit iff its flow on that side is not below the (reduced) limit, and reports the temporary limit, with the one before it, between which the flow lies; overloading and its duration follow from both sides. The current of a terminal is S / (sqrt(3) U). Limits are accepted exactly when valid; they replace those of the same kind at the same place and nothing else, and a refused one changes nothing.",
  ["inputs"], "all 2^64 values of every limit and flow, all combinations of kinds and sides",
  "Tests check one line with two sets of limits and a few flows; boundaries, NaN, sides, kinds and refused limits are not combined.",
  ["src/iidm/util/LimitViolationUtils.cpp", "src/iidm/Branch.cpp", "include/powsybl/iidm/LoadingLimitsAdder.hxx", "src/iidm/OperationalLimitsHolder.cpp", "src/iidm/Terminal.cpp"], "checkPermanentLimit, checkTemporaryLimits @ src/iidm/util/LimitViolationUtils.cpp",
  check={"file": "limits", "bounds": "any permanent limit, flow and up to 3 (4) temporary limits, reductions 0.5 and 2 with up to 1 (2), on either side of a line or transformer; 2 sides x 3 kinds present or not x 6 flows each; up to 2 temporary limits (any value, 2 durations, 3 names) of 3 kinds at 10 places (4 of them with all names; thorough: all); changes of 4 permanent limits, all durations up to 1300 s; 3 (4) additions, replacements or removals of limits of 8 holders; 125 currents. The same duration twice in one adder is not specified.", "harnesses": {"overload": {"must": ["overload", "above all", "no overload"]}, "sides": {"must": ["end"]}, "adding": {"must": ["added", "refused"]}, "changing": {"must": ["changed", "refused"]}, "collection": {"must": ["added", "removed"]}, "current": {"must": ["current"]}}}),
P("C17", "Reactive limits are those of the points, the segments between, flat outside",
  "Reactive limits are accepted exactly when complete, ordered (minimum and maximum) or made of two or more points of distinct active powers; a refused one leaves the previous limits. A curve gives the limits of a point at that point, those of the segment between two points, and those of the outermost point beyond. Limits are available as their own kind only, replace the previous ones, and touch nothing else.",
  ["inputs"], "all 2^64 values of every active and reactive power, all orders of points, all holders",
  "Tests build one curve and read a few values; orders, duplicates, boundaries, extreme powers and refused limits are not combined.",
  ["src/iidm/ReactiveCapabilityCurve.cpp", "src/iidm/ReactiveCapabilityCurveAdder.cpp", "src/iidm/MinMaxReactiveLimitsAdder.cpp", "include/powsybl/iidm/ReactiveLimitsHolder.hxx"], "ReactiveCapabilityCurve::getMinQ, getMaxQ @ src/iidm/ReactiveCapabilityCurve.cpp",
  check={"file": "reactive", "bounds": "4 holders (generator, battery, VSC station, generation of a dangling line); up to 3 (4) points of any active power, one of them possibly incomplete; any active power asked; between points: 3 curves of 4 points in both orders, 3 fixed places and any place of each segment (tolerance 1e-9), a segment of any width over the reals; 2 (3) successive pairs of any minimum and maximum. Asking at NaN is not specified.", "harnesses": {"points": {"must": ["refused", "below", "above"]}, "between": {"must": ["between"]}, "segment": {"must": ["segment"]}, "minmax": {"must": ["refused", "accepted"]}, "defaults": {"must": ["end"]}}}),
P("C18", "Tap changers and shunt sections map positions to their own values",
  "A tap changer is accepted exactly when it has complete steps and its position is one of them; each position in its range gives its own step, every other one an error, and moving the range or the position keeps the rest, in each variant. At most one tap changer of a transformer regulates. A shunt compensator gives the susceptance and conductance of the sections in service, accepts section counts up to its maximum, and changes of a section's values.",
  ["inputs", "histories"], "all 2^64 values of the steps and sections, all orders of operations within the bounds",
  "Tests use one tap changer each and a few positions; ranges, variants, replacement, removal and refused values are not combined.",
  ["include/powsybl/iidm/TapChanger.hxx", "src/iidm/RatioTapChanger.cpp", "src/iidm/PhaseTapChanger.cpp", "src/iidm/RatioTapChangerAdder.cpp", "src/iidm/PhaseTapChangerAdder.cpp", "src/iidm/ThreeWindingsTransformerLeg.cpp", "src/iidm/ShuntCompensatorLinearModel.cpp", "src/iidm/ShuntCompensatorNonLinearModel.cpp", "src/iidm/ShuntCompensatorAdder.cpp"], "getStep, setLowTapPosition @ include/powsybl/iidm/TapChanger.hxx; getB, getG @ src/iidm/ShuntCompensator*Model.cpp",
  check={"file": "taps", "bounds": "ratio and phase tap changers of a two-winding transformer and of the 3 legs of a three-winding one: 0 to 3 steps, one of the values free, low position -4..4, position -6..8, 2 variants, positions -12..12 asked; 3 (4) operations on the up to 6 tap changers of a transformer; linear shunts: any b and g, maximum 0..5, count 0..6, 2 changes; non-linear shunts: up to 3 (4) sections, 1 change.", "harnesses": {"ratio": {"must": ["refused", "added", "moved", "removed"]}, "phase": {"must": ["refused", "added", "moved", "removed"]}, "one_regulates": {"must": ["accepted", "refused"]}, "linear": {"must": ["refused", "added", "changed"]}, "nonlinear": {"must": ["refused", "added", "changed"]}}}),
P("C11", "The graph keeps its vertices and edges, and visits exactly what is linked",
  "Any history of creations and removals of vertices and edges is refused exactly when impossible and leaves exactly the expected vertices, edges and objects. A traversal reaches exactly the vertices linked without a stopped edge, each once and from one already reached. All the simple paths to the first complete vertex without a cancelled edge are found, the shortest first; connected components are exactly the linked vertices, the largest first.",
  ["inputs", "histories"], "all histories and all graphs within the bounds, every set of stops, complete vertices and cancelled edges",
  "Tests use two small graphs; reuse of removed indices, parallel edges, loops and stops are not combined.",
  ["include/powsybl/math/UndirectedGraph.hxx", "src/math/GraphUtil.cpp"], "UndirectedGraph @ include/powsybl/math/UndirectedGraph.hxx; computeConnectedComponents @ src/math/GraphUtil.cpp",
  check={"file": "graph", "bounds": "2 (3) operations of 9 kinds, with arguments up to 6, after 3 (4) initial graphs; every graph of 4 vertices with a subset of 7 (8) edges (parallel ones, a loop when thorough), every set of stopped edges; the same graphs, every set of complete vertices, one (any) cancelled edge, from vertex 0 (any); components of every graph of 5 (6) vertices. Objects between two vertices: every subset of 8 edges. Adjacency after every addition and removal of edges of a small graph.", "harnesses": {"history": {"must": ["done", "refused"]}, "stops": {"must": ["free", "stopped"]}, "paths": {"must": ["none", "one", "several"]}, "between": {"must": ["end"]}, "components": {"must": ["end"]}, "edges": {"must": ["read"]}}}),
P("C19", "Regulating terminals always belong to the network",
  "A regulating terminal is accepted, at creation or later, exactly when it belongs to the network and is given if the regulation needs one; without one, an injection regulates its own terminal. A refused one changes nothing, an accepted one nothing else. When an equipment is removed, nothing goes on referring to its terminals: injections regulate a terminal of the network, tap changers stop regulating in every variant, slack terminals go.",
  ["inputs", "histories"], "all regulators, terminals, modes and removal orders within the bounds",
  "Tests set one terminal of each kind; terminals of another network, removals of what others regulate, and regulation in other variants are not combined.",
  ["src/iidm/ValidationUtils.cpp", "src/iidm/Connectable.cpp", "src/iidm/Generator.cpp", "src/iidm/StaticVarCompensator.cpp", "src/iidm/ShuntCompensator.cpp", "include/powsybl/iidm/TapChanger.hxx", "src/iidm/extensions/SlackTerminal.cpp"], "checkRegulatingTerminal, checkRatioTapChangerRegulation @ src/iidm/ValidationUtils.cpp; Connectable::remove @ src/iidm/Connectable.cpp",
  check={"file": "regulation", "exts": ["iidm"], "bounds": "8 regulators (2 generators, SVC, 2 shunts, 3 tap changers); a terminal among none, one of another network and 6 equipments, 2 (3) times, with the regulation and the load tap changing capabilities switched between; 6 kinds of creation; removal of 9 equipments regulated by 2 regulators, in 2 variants; slack terminals of a voltage level in 2 variants; remote reactive power control of a generator. What a regulation becomes once its terminal is removed is specified only as said above.", "harnesses": {"setting": {"must": ["accepted", "refused"]}, "adding": {"must": ["accepted", "refused"]}, "removing": {"must": ["removed", "regulating in both"]}, "slack": {"must": ["kept", "in one variant", "none left"]}, "remote": {"must": ["another"]}}}),
P("C24", "Buses and containers list, sum and visit exactly what they have",
  "A bus lists, by kind, and visits exactly the equipment connected to it, by the right side, and sums the known powers of its injections; visiting what may be connected adds exactly what its configured buses hold. A voltage level, a substation and the network list, count, find and visit exactly the equipment, transformers, voltage levels and countries they have, each once. The nodes given for a bus are those linked to it without an open switch.",
  ["inputs", "histories"], "all switch and connection states within the bounds, all 2^64 values of every power",
  "Tests list the content of a few fixed networks; disconnections, equipment twice in a voltage level, removals and unknown powers are not combined.",
  ["src/iidm/Bus.cpp", "src/iidm/CalculatedBus.cpp", "src/iidm/ConfiguredBus.cpp", "src/iidm/MergedBus.cpp", "src/iidm/TopologyVisitor.cpp", "src/iidm/AbstractTerminalTopologyVisitor.cpp", "include/powsybl/iidm/VoltageLevel.hxx", "src/iidm/Substation.cpp", "src/iidm/util/Networks.cpp"], "Bus::getP, getAll @ src/iidm/Bus.cpp; visitEquipments @ src/iidm/TopologyVisitor.cpp; getConnectables @ include/powsybl/iidm/VoltageLevel.hxx; getNodesByBus @ src/iidm/util/Networks.cpp",
  check={"file": "listing", "bounds": "a network holding every kind of equipment: 4 (7) switches and 2 of 14 equipments flipped, powers distinct powers of two; any power of one of 12 equipments, the others zero or unknown; up to 3 more equipments twice in a voltage level or substation, one of 14 removed, one flipped; 4 substations of 3 countries, one changed, one removed; voltage levels of 5 nodes and 4 (6) edges of 3 (4) kinds.", "harnesses": {"connected": {"must": ["end"]}, "sums": {"must": ["known", "unknown"]}, "containers": {"must": ["loop", "end"]}, "countries": {"must": ["some", "none"]}, "nodes": {"must": ["none", "bus"]}}}),
P("C21", "Sides, legs, nodes and stations lead to their own terminals, and back",
  "A branch or three-winding transformer gives, by side, leg or voltage level, the terminal created there, the side of each of its own terminals, and an error for any other or an ambiguous voltage level. A node/breaker voltage level accepts equipment exactly on free nodes, and its nodes and switches give the terminals there, through creations and removals. An HVDC line and its stations know each other by side; the best terminal of a list is the first of the best kind.",
  ["inputs", "histories"], "all ends, orders of operations and lists within the bounds, all 2^64 values of one leg and of the flows",
  "Tests ask a few branches between distinct voltage levels; both ends in one, foreign terminals, freed nodes and reattached stations are not combined.",
  ["src/iidm/Branch.cpp", "src/iidm/ThreeWindingsTransformer.cpp", "src/iidm/ThreeWindingsTransformerLeg.cpp", "src/iidm/NodeBreakerVoltageLevel.cpp", "src/iidm/NodeBreakerVoltageLevelViews.cpp", "src/iidm/HvdcLine.cpp", "src/iidm/util/TerminalFinder.cpp"], "getSide, getTerminal @ src/iidm/Branch.cpp, src/iidm/ThreeWindingsTransformer.cpp; getTerminal @ src/iidm/NodeBreakerVoltageLevelViews.cpp; findHvdcLine @ src/iidm/Network.cpp",
  check={"file": "sides", "bounds": "3 kinds of branches between 4 x 4 ends in 3 voltage levels, 6 voltage levels asked, any flows; legs at 4 x 4 x 4 ends, any positive value of one of them; 3 (4) operations of 6 kinds on 4 nodes; 4 stations, 2 lines, 3 (4) creations and removals; lists of up to 3 (4) of 8 (12) terminals, 3 orders. Removing a station's second line is not specified.", "harnesses": {"branches": {"must": ["found", "both", "none"]}, "legs": {"must": ["end"]}, "nodes": {"must": ["equipment", "occupied", "removed"]}, "stations": {"must": ["linked", "removed", "no station"]}, "finder": {"must": ["found", "none"]}}}),
P("C25", "Extensions hold valid values, are found while there, and survive XML",
  "An extension is created or changed exactly when its object and its values are valid, then has exactly them; it is found by type and by name until removed or replaced, follows a network that is moved, and measurements are found by id and type through any history. Written to XML with the extensions asked for, it is read back equal; one that cannot be written stops the export only when asked to.",
  ["inputs", "histories"], "all 2^64 values of every number of an extension, all indices below 2^40, all texts, kinds and histories within the bound",
  "Tests create each extension once with two values and compare one file; NaN, limits of the ranges, undefined values, anonymous measurements, replacement by another type and moved networks are not tried.",
  ["src/iidm/Extendable.cpp", "include/powsybl/iidm/Extendable.hxx", "src/iidm/converter/xml/NetworkXml.cpp", "extensions/iidm/src/Measurements.cpp", "extensions/iidm/src/DiscreteMeasurements.cpp", "extensions/sld/src/ConnectablePosition.cpp", "extensions/entsoe/src/MergedXnode.cpp"], "createExtension of every *Adder, check* and set* of every extension, read and write of every *XmlSerializer @ extensions/",
  check={"file": "extensions", "exts": ["iidm", "sld", "entsoe"], "bounds": "14 kinds of extension: each number unconstrained at creation and by each setter, indices below 2^40, 43 codes, 4 texts; every kind on each of 50+ objects; each written alone and with another on the same object; all choices of 5 extensions written x read; feeders in 16 combinations with 3 names, any order, 3 directions; one (3) free measurement of 3 objects and 3 (4) operations, likewise discrete ones of 4; 4 (5) additions and removals of 3 types under 2 names; 4 x 2 moved networks; 12 adders told or not two of their values. The names of the two lines of a MergedXnode, which the format does not have, and an empty list of extensions, which means all, are excluded.",
    "harnesses": {"values": {"must": ["refused", "refused change", "changed", "replaced"]}, "extendables": {"must": ["end"]}, "written": {"must": ["round trip", "without serializer"]}, "filters": {"must": ["kept", "left out"]}, "positions": {"must": ["refused", "round trip"]}, "measurements": {"must": ["added", "refused", "refused change", "removed", "round trip", "nothing written"]}, "discrete": {"must": ["added", "refused", "refused change", "removed", "round trip", "nothing written"]}, "registry": {"must": ["another type", "removed"]}, "moved": {"must": ["end"]}, "missing": {"must": ["made", "refused"]}}}),
P("C26", "Names, versions, options, dates and references mean one value exactly",
  "Every value of an enumeration has its own name and every text is the name of at most one value, likewise versions and namespaces; options made from properties equal those made by setters, and one option never changes another. A date is accepted when it exists and is written as it was read; a unique identifier is never taken; a bus is found by reference exactly when it exists.",
  ["inputs"], "all values of every enumeration and all that are not, all texts one byte away from a name (256 values at each place), all sets of taken identifiers, all choices within the bound",
  "Tests convert one or two values of some enumerations; values past the end, texts close to a name and most countries, codes, options and zones are not tried.",
  ["include/powsybl/iidm/Enum.hxx", "src/iidm/Country.cpp", "src/iidm/HvdcConverterStation.cpp", "src/iidm/TopologyLevel.cpp", "extensions/entsoe/src/EntsoeGeographicalCode.cpp", "src/iidm/converter/ExportOptions.cpp", "src/iidm/converter/ImportOptions.cpp", "src/iidm/converter/ConversionParameters.cpp", "src/iidm/converter/xml/IidmXmlVersion.cpp", "src/stdcxx/DateTime.cpp", "src/stdcxx/Properties.cpp", "src/iidm/util/Identifiables.cpp", "src/iidm/IdBasedBusRef.cpp"], "Enum::toString, Enum::fromString, every getNames, getCountryName, IidmXmlVersion::of, ExportOptions::ExportOptions @ src/iidm/converter/ExportOptions.cpp",
  check={"file": "names", "exts": ["iidm", "sld", "entsoe"], "bounds": "24 enumerations, every value and every number that is none; every name with one byte replaced or inserted (any of 256), removed, or nothing (12 spread names for countries and codes); 6 versions and namespaces, edited likewise; each option with each text, then each setter; 3 (4) operations on properties with 4 keys; 2^8 (2^12) sets of taken identifiers for 4 bases, and up to 120 numbered ones; 5 years x 14 months x 7 days x 4 times x 7 zones; every identifier of a network with every equipment x 3 sides x 3 levels; parameters of 4 types under up to 3 names, each given one of 5 texts or none. Texts that boost normalises (25 hours, names of zones) are excluded.",
    "harnesses": {"kinds": {"must": ["name", "no name", "text of a value", "text of none"]}, "countries": {"must": ["country", "text of none"]}, "levels": {"must": ["end"]}, "versions": {"must": ["version", "no version"]}, "options": {"must": ["list", "refused", "setter"]}, "properties": {"must": ["set"]}, "unique": {"must": ["kept", "numbered"]}, "many": {"must": ["numbered"]}, "dates": {"must": ["date", "no such date"]}, "busref": {"must": ["merged", "terminal", "refused", "resolved"]}, "parameters": {"must": ["default", "given"]}}}),
P("C27", "What is logged changes nothing and reaches the nearest logger",
  "Every operation gives the same result, the same error and the same network whether a logger listens or not, whatever the identifiers and levels. A message reaches the logger of the longest registered prefix of its name, as it is, exactly when its level is enabled there.",
  ["inputs"], "all 2^5 sets of enabled levels, all operations, characters, sets of loggers and names within the bound, all bytes of a message",
  "Tests have no logger when they use networks, so no message is ever built and a format error or a side effect of it cannot show.",
  ["include/powsybl/logging/Logger.hxx", "src/logging/LoggerFactory.cpp", "src/logging/ContainerLogger.cpp", "src/iidm/NodeBreakerVoltageLevelTopology.cpp", "src/iidm/VariantManager.cpp", "include/powsybl/iidm/LoadingLimitsAdder.hxx", "src/iidm/ValidationUtils.cpp", "src/iidm/converter/xml/TieLineXml.cpp", "src/iidm/converter/xml/IidmXmlUtil.cpp", "src/iidm/converter/xml/NetworkXml.cpp"], "Logger::trace, debug, info, warn, error and their callers, LoggerFactory::getLoggerByName @ src/logging/LoggerFactory.cpp",
  check={"file": "logging", "exts": ["iidm"], "bounds": "13 operations that log x 8 characters at 2 places of their identifiers x all sets of levels; 4 loggers registered or not, one removed, 12 names, 5 levels, one byte of the message unconstrained; 4 (6) messages kept.",
    "harnesses": {"unchanged": {"must": ["logged", "not logged"]}, "nearest": {"must": ["said", "silent"]}, "kept": {"must": ["end"]}}}),
P("C23", "Values computed at a branch's far end, a boundary or a bus obey circuit laws",
  "From the power, voltage and angle at one end of a line, half line, dangling line or two windings transformer, the values computed at the other end (and at the boundary of a half line or dangling line) are those of its equivalent circuit: ideal transformer of the current taps, then a pi of series impedance and shunt admittances, whichever side one starts from. A tie line has the sums of the characteristics of its halves; the power of a bus is the sum over the generators, batteries, loads, converter stations (and, for reactive power, shunt and static var compensators) connected to it whose power is known.",
  ["inputs"], "all real values of the electrical quantities, parameters and tap steps within their stated ranges, both sides, every combination of tap changers and shunt models",
  "Tests compare three or four published cases, most with zero phase, unit ratio or symmetric shunts, where a wrong sign, side or factor cannot show.",
  ["src/iidm/util/SV.cpp", "src/iidm/util/LinkData.cpp", "src/iidm/Boundary.cpp", "src/iidm/HalfLineBoundary.cpp", "src/iidm/DanglingLineBoundary.cpp", "src/iidm/TieLine.cpp", "src/iidm/HalfLine.cpp", "src/iidm/Bus.cpp", "include/powsybl/iidm/TapChangerStep.hxx", "src/iidm/RatioTapChangerStep.cpp"], "SV::otherSide and otherSideP, Q, U, A @ src/iidm/util/SV.cpp, LinkData::calculateBranchAdmittance, half_line::Boundary, dangling_line::Boundary, TieLine::getR, X, G1, G2, B1, B2, Bus::getP, getQ",
  check={"file": "flows", "bounds": "p, q in [-2000,2000], u in [1,1000], a in [-80,80] degrees, r in [0.01,100], x in [-100,100], shunts in [-0.1,0.1], ratios in [0.1,10], phases in [-1.5,1.5] rad, step corrections in [-90,90] %, all free at once (with both tap changers: in three groups, the others at a generic value). Real arithmetic: rounding, NaN and infinities are outside; angles enter through their sine and cosine, free on the unit circle. A result is right within 1e-6 relative.",
    "harnesses": {"numbers": {"must": ["from one", "from two"]}, "admittance": {"must": ["zero", "impedance"]}, "line": {"must": ["line", "half"]}, "tie": {"must": ["tie"]}, "dangling": {"must": ["whole", "split", "not split"]}, "transformer": {"must": ["both changers", "ratio", "phase", "none"]}, "boundary": {"must": ["dangling", "half 1", "half 2"]}, "nobus": {"must": ["known", "unknown"]}, "busPower": {"must": ["bus", "merged"]}}}),
P("C05", "With multi-thread access, every thread works on the variant it chose",
  "When multi-thread access to the variants is allowed, each thread reads, writes and computes on the working variant it chose itself, whatever the other threads choose, write, clone, remove or build in between, and a thread that chose none is refused without a trace instead of using another's. Allowing or forbidding it keeps the working variant of the thread that asks.",
  ["schedules", "histories", "inputs"], "all interleavings of the calls of two or three threads within the bound, any written value",
  "The tests of the thread-local mode use one fixed order of two threads, one attribute and no calculated view.",
  ["src/iidm/ThreadLocalMultipleVariantContext.cpp", "src/iidm/MultipleVariantContext.cpp", "src/iidm/VariantContextGuard.cpp", "src/iidm/VariantManager.cpp"], "index of the variant of each context in each thread @ src/iidm/ThreadLocalMultipleVariantContext.cpp; restoring the working variant after the work on all of them @ src/iidm/VariantContextGuard.cpp; VariantManager::allowVariantMultiThreadAccess @ src/iidm/VariantManager.cpp",
  check={"file": "threads", "budget": 100, "bounds": "two threads, 3 operations (4 thorough), three threads that chose any variant, 2 (3) operations, among: choose one of 3 variants, write a load, a switch, a section count, clone, remove, allow or forbid multi-thread access, create or remove an equipment, bus, switch or line, change what all the variants share; after each, every thread reads the values, the buses and the components. Calls are atomic: interleavings inside one call are outside; a variant another thread works on is not removed.", "harnesses": {"schedules": {"must": ["end", "written", "no variant", "cloned", "on", "off", "structure", "structure refused"]}, "three": {"must": ["end", "written", "structure"]}}}),
P("C28", "A topology traversal proposes all that can be reached and nothing else",
  "A traversal from a terminal proposes that terminal first and then only terminals and switches next to something its traverser accepted, telling for a bus/breaker terminal whether it is connected; the terminals at the other ends of an accepted equipment, those on the starting bus and, in node/breaker voltage levels, every terminal and switch that can be reached through what was accepted are proposed. A traversal from a node proposes each edge from a node reached to one not reached, until no other is left. Every traversal ends, whatever the answers.",
  ["inputs"], "every starting terminal or node, every answer of the traverser within the bound, every arrangement of edges of a small voltage level",
  "Tests traverse one reference network with a traverser that accepts or refuses everything of a kind.",
  ["src/iidm/NodeBreakerVoltageLevel.cpp", "src/iidm/BusBreakerVoltageLevel.cpp", "src/iidm/VoltageLevel.cpp", "src/iidm/NodeBreakerVoltageLevelViews.cpp"], "traverse; addNextTerminals; NodeBreakerViewImpl::traverse",
  check={"file": "traverse", "bounds": "every terminal of a network holding every kind of equipment, in two situations, with up to two (three: thorough) of the elements proposed refused; two node/breaker voltage levels joined by one or two lines, every 3 edges among 4 nodes (one, any number in thorough, being an internal connection), three placements of equipment, one (any number: thorough) element refused; from each node with 3 (5: thorough) edges and every answer. Not claimed, as upstream does it that way: which terminals of the other buses of a bus/breaker voltage level are proposed.", "budget": 70, "harnesses": {"full": {"must": ["everything", "refused at once"]}, "nodes": {"must": ["many", "refused at once"]}, "from_node": {"must": ["from a node", "all the nodes"]}}}),
P("C29", "A network that is only read is the same network and does not change",
  "Through a constant network, or any constant object of it, every lookup, list, view, terminal, limit, tap changer, boundary and component is the very object that the modifiable one gives, and what the one refuses the other refuses, whichever is asked first. Each getter gives the object of its own kind and side, and a boundary has the side, equipment and voltage level of its half line. Reading changes nothing.",
  ["inputs"], "every object and identifier of a network of every kind of equipment, in the situations of the bound",
  "Tests call the constant getters on a few objects and do not compare them with the others, so a wrong kind, side or object in one of the 200 pairs passes.",
  ["src/iidm/Network.cpp", "src/iidm/NetworkViews.cpp", "src/iidm/Branch.cpp", "src/iidm/HalfLineBoundary.cpp", "src/iidm/NodeBreakerVoltageLevelViews.cpp", "src/iidm/BusBreakerVoltageLevelViews.cpp", "include/powsybl/iidm/TapChanger.hxx"], "the constant member functions of Network, VoltageLevel, Substation, Bus, Component, Branch, Terminal, Leg, TapChanger, HvdcLine, boundaries and their views",
  check={"file": "readonly", "bounds": "each of the 50 identifiable objects and calculated buses of a network holding every kind of equipment (its terminals, halves, legs, tap changers, views) and an unknown identifier; two situations (regulating and connected, or not) x limits x a switch x which of the two is asked first (so that every cache is cold for each).", "harnesses": {"objects": {"must": ["object", "no object"]}, "lists": {"must": ["lists"]}}}),
P("C30", "Unknown or incompatible extensions in XML harm nothing else",
  "An extension that is not known, or not asked for, is skipped with all it contains, and everything else is read as it is; it stops the import only when the options say so. A serializer with versions writes the version asked for, or its latest for the version of the file, and refuses a version it does not have, one of another version of the file, and a file written in one it does not support. Two extensions never share a namespace or a prefix in one file, and the serializer found for a name is the one registered for it.",
  ["inputs"], "all contents of an extension, sets of versions, options, prefixes and registrations within the bound",
  "Tests read one file with one unknown extension and write one extension in two versions.",
  ["src/iidm/converter/xml/NetworkXml.cpp", "src/iidm/converter/xml/AbstractVersionableExtensionXmlSerializer.cpp", "src/iidm/ExtensionProviders.cpp", "src/iidm/converter/ExportOptions.cpp", "src/iidm/converter/ImportOptions.cpp", "src/xml/XmlStreamReader.cpp"], "NetworkXml::read and write (extensions); AbstractVersionableExtensionXmlSerializer::getVersion, checkReadingCompatibility, checkWritingCompatibility; ExtensionProviders::findProvider, registerExtension",
  check={"file": "extxml", "bounds": "2 (3) elements among 8 (elements known or not, nested, with texts, comments) in the extension of an object that exists or not, 2 networks, every set of options; versions of a serializer for the versions of the file, versions asked for and found in the file; two extensions with every pair of prefixes and namespaces; registrations and look-ups of names. Excluded: an unknown extension containing an element of its own name; a serializer without any version.", "harnesses": {"unknown": {"must": ["refused", "known", "skipped"]}, "versions": {"must": ["not written", "written", "another version", "not read"]}, "prefixes": {"must": ["clash", "no version", "unknown version", "written"]}, "providers": {"must": ["registered", "refused"]}}}),
P("C31", "What the XML writer writes is what the XML reader reads",
  "Whatever elements, prefixes, attributes, texts and encoding are written, the document read back has the same elements in the same order with the same names, attributes and texts, and a document without its end is refused. A number or truth value written is read exactly, whatever its type; the text of an attribute is read as a number exactly when it is one that fits the type, and is refused otherwise. A prefix has its namespace where it is declared, and what is done out of place is refused.",
  ["inputs"], "all values of the numbers of each type, all characters of ASCII and some of each length of UTF-8, all trees, texts and declarations within the bound",
  "Tests write and read one document with plain texts and one attribute of each type.",
  ["src/xml/XmlStreamReader.cpp", "src/xml/XmlStreamWriter.cpp", "src/xml/XmlCharConversion.cpp", "include/powsybl/stdcxx/math.hpp"], "XmlStreamReader::getAttributeValue, getOptionalAttributeValue, readUntilEndElement, readUntilNextElement, skipComments, getNamespace; XmlStreamWriter::writeAttribute, writeOptionalAttribute, writeStartElement, writeEmptyElement, setPrefix",
  check={"file": "xmlstream", "bounds": "4 (5) steps among opening one of two names, closing, writing a text, with or without indentation and prefix, 3 sets of attributes, 3 (7) texts, then cut at its end; every double, int, long and unsigned long, three ways to write them; 21 texts with one byte replaced or inserted (20 values), removed or nothing, as each type (hexadecimal excluded); 127 ASCII characters and 5 others in 4 encodings, in an attribute or a text; 3 x 2^5 sets of comments and declarations. The libxml2 calls run as they are: their texts are choices, not unconstrained bytes. With indentation, an element with a text has no other content, as the writer adds spaces.", "harnesses": {"documents": {"must": ["flat", "nested", "truncated"]}, "values": {"must": ["written", "not written"]}, "texts": {"must": ["integer", "number", "no number", "true"]}, "characters": {"must": ["same", "refused"]}, "places": {"must": ["read", "misplaced"]}}}),
]
