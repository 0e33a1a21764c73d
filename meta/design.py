"""How each property is decided (text of DESIGN.md), and which check catches which planted bug."""
HOW = {
"C01": "A table of every attribute (setter, getter, the rule of its value written from the class documentation). The value is an unconstrained double (or every enumerator); the harness asserts: accepted iff the rule holds given the object's other attributes; read back bit for bit; refused => `ValidationException` and a full description of the network unchanged. Histories interleave the setters whose rules depend on each other, all values symbolic.",
"C02": "Oracle: an identifier is valid iff not empty and free; a location iff the node is free, or the bus exists in the same voltage level; attributes by their rules. All combinations; after refusal the whole public description of the network (`describe.hpp`) and a second, valid creation are compared with the untouched network; after success the object is looked up everywhere and removed again.",
"C03": "A map id -> object and alias -> object kept beside the network is the oracle; after every step each name is looked up in every way and every enumeration, counter and parent link is compared (`consistent` in `common.hpp`).",
"C04": "Oracle: a table variant -> attribute -> value. Symbolic doubles are written in variants reached by histories of clone/overwrite/remove so that array indices are recycled, and every variant is read back.",
"C06": "Oracle: a union-find over the symbolic edge list written in `topo.hpp` and the documented rule of what makes a bus (a busbar section or branch and at least one feeder...). Every view and lookup of every terminal is compared with it.",
"C08": "Oracle: union-find over the symbolic links between buses; sizes and numbering compared.",
"C09": "Oracle: all simple paths to a busbar section are enumerated in the harness over the symbolic switch arrangement; the switches that changed must be exactly those the statement allows; then the calculated topology is checked as in C06.",
"C10": "Before every edit all views of all variants are computed (so every cache is warm). After it, a second network to which the same edits were applied without ever computing a view is described and must be equal.",
"C12": "Oracle: a removal is refused iff a dependent exists (by the documentation); then `consistent`, description equal to that of the network without the object, and re-creation under the same identifiers works.",
"C13": "The description of the network read back equals that of the original, symbolic doubles compared bit for bit (`sx_text`, see section 1).",
"C14": "A table of 45 versioned features (what it adds to the network, from which version it exists, whether it must not be lost silently) is the oracle. Exports under THROW/LOG, and read back, are compared with the network built without the features the version cannot express.",
"C15": "A real file is parsed into elements and attributes; a symbolic choice replaces one. The reader either throws a `std::exception`, or the network satisfies `consistent` and `rules.hpp` (every rule of every class), can be written again, and its views can be computed.",
"C16": "The anonymised text is searched for every text used; reading it with its mapping must give the description of the plain export.",
"C17": "Points of any active powers (symbolic doubles, in any order), with symbolic or missing reactive powers, are given to the adder of each holder. Acceptance is compared with the rule; afterwards the kind, the points in order, the limits at each point, at a symbolic active power below the first or above the last point and (on curves with fixed points) at a symbolic place of each segment are compared with the definition. Everything else in the network is compared with what it was, so a refused curve leaves the previous limits and an accepted one replaces only them.",
    "C18": "Tap changers of every holder are built from symbolic low and tap positions and steps with a free value, then moved, shifted, edited and removed in two variants; a symbolic position is looked up after each operation and compared with a plain array. The regulation switches of the (up to six) tap changers of a transformer are driven by a symbolic history against the set of regulating ones. Shunt models are compared, for every number of sections, with the products or the list given at creation, after symbolic changes.",
    "C11": "The graph template is instantiated on integers. A symbolic history is replayed on a map of vertices and edges: every query of the class is compared with the map after each operation. Traversals, paths and components are run on every graph of a symbolic subset of edges with symbolic sets of stops and compared with a fixpoint, a recursive enumeration of simple paths and a union-find.",
    "C19": "The regulator, its terminal and the state of the regulation are symbolic choices; whether the terminal must be accepted is computed from them, and the description of the whole network must be unchanged but for it. Removing: afterwards every regulating terminal must be one of the terminals read from the network (pointers only, so that a dangling one is seen without being used), in every variant.",
    "C24": "The terminals of every equipment are asked for their bus, in each view, and each bus, voltage level and substation must list, count, find and visit exactly the equipment of those terminals (which bus a terminal is on is decided by C06). Sums: all the powers but those of one equipment are zero or unknown, and its own is an unconstrained double. Nodes: union-find over the closed switches of a symbolic topology.",
    "C21": "Ends, legs, nodes and stations are symbolic choices; every terminal of the network is then put to every lookup and compared with what was asked at creation, kept by the harness in plain maps. The values of one leg and the flows are unconstrained doubles. Expected terminals of lists come from a rank written in the harness.",
    "C25": "A table gives, for each kind of extension, its fields, how to create, read and change them and the documented range of each; a symbolic choice picks the kind and the numbers are unconstrained doubles, so acceptance is compared with the range for every value. Symbolic numbers keep their expressions through the XML writer and reader. Measurements and the registry are driven through symbolic histories and compared with plain vectors after every step; ranges filtered by type are used after the argument is gone.",
    "C26": "Names are compared with a table written in the harness from the enumerators themselves (the preprocessor spells them), so a permutation or a misspelling in the library's tables differs. For texts, one byte of a name is unconstrained (or inserted, or removed) and the solver explores every comparison made with it; for numbers, the value is unconstrained outside the enumeration. Options, properties, identifiers and references are compared with small models of their documentation; dates with a civil calendar computed in the harness.",
    "C27": "Each operation that logs is run twice on the same inputs, without and with a logger whose set of enabled levels is a symbolic 5-bit mask, and everything shown (results, errors, XML, description of the network) must be equal; the identifiers carry characters that mean something to the formatter. The lookup of loggers is compared with the longest registered prefix.",
    "C23": "The same symbolic execution, but the arithmetic of the expressions is read over the reals (QF_NRA): a quotient is kept as a fraction of exact polynomials with rational coefficients, sine and cosine of one angle are two unknowns on the unit circle (the same unknowns for equal or opposite angles, which the solver is asked to show), a modulus is the non-negative root of its defining equation, an argument is a function of its two coordinates. The oracle in the harness solves the equivalent circuit by Kirchhoff's laws, without the admittance matrix the code uses. For each result the solver is asked for inputs on which code and circuit differ; an answer is turned into doubles and replayed on the real code, which must differ by more than 1e-6 (relative) there. Because the difference is an exact algebraic identity when the code is right, all the quantities can be free at once; conditions that cannot be encoded are dropped, which can only make the claim stronger.",
    "C05": "Real threads, each of which runs what the harness hands to it, one call at a time: the schedule (which thread does what next) is made of symbolic choices, so the solver-driven exploration covers every interleaving of calls within the bound. Oracle: a table thread -> variant -> values written in the harness; every thread reads everything back after every call.",
    "C31": "The calls made on the writer are symbolic choices, kept as a tree that the reader must find; a number written is an unconstrained variable that the engine carries through its text. Texts read as numbers are decided by a grammar and 128-bit arithmetic in the harness.",
    "C30": "Serializers of the harness are registered next to those of the library; which versions they have, what the file contains, what is asked for are symbolic choices. Oracle: a set of rules on the choices (asked for, known, refused); the network read must have the description of the one without the extension, and the extensions expected.",
    "C29": "The same expression is evaluated on the constant and on the modifiable object; the addresses of what they give, or the refusals, are compared, and the description of the network (read through the getters of the attributes) before and after. The object, the situation and the order are symbolic choices.",
"C28": "The answer of the traverser to each element it is proposed is a symbolic choice, kept for the rest of the traversal. What may be proposed and what must be is then computed from the answers by a closure over the switches, internal connections, terminals and ends of equipment read before the traversal; an endless traversal would be reported as a hang.",
"C20": "Oracle: the documented comparison, written again in the harness; limits and flow are unconstrained doubles, so each path of the comparisons is decided for all of them by the solver. Adding: the validity rule and a map of the expected limits; the description of everything else must be unchanged.",
}
CAUGHT = {
"s01": "C01", "s02": "C02 `containers` (missed at first: self-loop switches were not tried, and the node list was not compared)", "s03": "C03 `aliases_of_all`, `histories` (missed at first: names were not probed at the end)",
"s04": "C04", "s05": "C06", "s06": "C08", "s07": "C10 `edits_in_variants` (missed at first: no removal of equipment among the edits)", "s08": "C12 `internal_connections` (missed at first)",
"s09": "C13 `attributes_together`, `created_together` (missed at first: one value at a time)", "s10": "C14", "s11": "C15 `attribute_values` (missed at first: the rules of the classes were not asserted)", "s12": "C16",
"s13": "C11 `edges` (missed at first: incidence lists were only read at the end of histories)", "s14": "C09", "s15": "C17 `segment` (missed at first: segments had fixed widths)", "s16": "C18",
"s17": "C19 `setting`, `removing` (missed at first: every regulator was regulating)", "s18": "C20", "s19": "C21 `branches` (missed at first: both ends were connected)", "s20": "C23", "s21": "C24", "s22": "C25", "s23": "C26 `many` (missed at first: at most 8 identifiers were taken)", "s24": "C27",
"s25": "C05", "s26": "C28", "s27": "C29 (missed at first: the second node of every switch had the higher number)", "s28": "C30 `versions`", "s29": "C30 `unknown`", "s30": "C31 `documents`", "s31": "C31 `values`",
"s32": "C12 (missed at first: the only node that nothing uses was not looked at), C02", "s33": "C09 `feeder`, `sequence`",
}
