"""Writes properties.jsonl from the table below (kept as code so that wording stays in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["pyodrx/"+f for f in files], state=[dict(zip(("name","meaning","where"), s)) for s in (state or [])],
            mechanism=[dict(name=n, where="pyodrx/"+w) for n, w in mech], observe_at=observe, hook_needed=None)))

p("C01", "Forward evaluation follows the curve that is written",
  "For every reference-line geometry (line, arc, spiral, cubic parametric polynomial) and every start position and heading, the end position, end heading and length that it reports are those reached by following, over that length, the curve described by the element it writes to the OpenDRIVE file.",
  ["inputs"], "all geometry kinds, all ways to parameterise them, all start positions and headings",
  "The tests compare a few dozen hand-computed end points, none with mixed offset and rotation for every kind, none for a normalized polynomial, none for a spiral with two non-zero curvatures.",
  ["geometry.py"], [("get_end_data of Line, Arc, Spiral, ParamPoly3", "geometry.py"), ("EulerSpiral.calc", "geometry.py")], ["get_end_data", "get_element"])
p("C02", "Backward evaluation is the inverse of forward evaluation",
  "Evaluating any geometry backwards, from its end position and its reversed end heading, gives back the start position, the reversed start heading and the same length as evaluating it forwards from that start. This holds for every kind of geometry, whether or not the object was evaluated before.",
  ["inputs", "histories"], "all geometry kinds and parameterisations, all start poses, fresh and already evaluated objects",
  "The tests invert lines, angle-defined arcs already evaluated forwards, and spirals, with at most one non-zero pose component; no polynomial, no fresh object.",
  ["geometry.py"], [("get_start_data of Line, Arc, Spiral, ParamPoly3", "geometry.py")], ["get_start_data", "get_end_data"])
p("C03", "What a geometry reports does not depend on its history",
  "The result of evaluating a geometry forwards or backwards, and the element it writes, depend only on how it was constructed and on the pose given: after any sequence of evaluations in either direction, serialisations and uses in one or more plan views, of this and of other geometries, they equal those of a freshly built geometry.",
  ["histories"], "all operation sequences on geometries, including shared ones",
  "The tests evaluate each object once or twice in one fixed order.",
  ["geometry.py"], [("Arc and ParamPoly3 cache length/angle on self during evaluation", "geometry.py")], ["get_end_data", "get_start_data", "get_element", "plan views"],
  [("length/angle", "cached by the evaluation methods", "pyodrx/geometry.py: Arc, ParamPoly3, Spiral")])
p("C04", "Length, angle and curvature rate describe the same curve",
  "An arc given an angle turns by that magnitude towards its curvature, over the length |angle/curvature|; a spiral given an angle changes its heading by that magnitude towards its curvature, and a spiral given a curvature rate has that rate. Constructing an arc or spiral with none of its alternatives raises NotEnoughInputArguments, with several ToManyOptionalArguments; a zero-curvature arc or an arc-length polynomial without length raises ValueError, and a plan view with only part of a start pose raises NotEnoughInputArguments.",
  ["inputs"], "all combinations of given and missing arguments, all curvatures, angles, rates",
  "The tests use angle-defined arcs only, and no rejection at all.",
  ["geometry.py", "exceptions.py"], [("constructors of Arc, Spiral, ParamPoly3, PlanView", "geometry.py")], ["constructors", "get_end_data"])
p("C05", "A placed plan view is one gapless chain with running s",
  "In every placed road, whether it was placed from its start or from its end, the plan view lists the geometries in the order they were added, with s starting at 0 and increasing by exactly the preceding lengths, and each geometry starts at the position and heading where the previous one ends (or at the heading the caller prescribed when placing from the start). The road's length is the sum of the lengths, and the start and end points that the plan view and the road report are those of the first and the last geometry.",
  ["inputs", "configurations"], "all sequences of geometries, all start or end poses, both placement directions, optional heading overrides",
  "Tests never place a multi-geometry road from its end, and never look at s, order or continuity.",
  ["geometry.py", "opendrive.py"], [("PlanView.adjust_geometries", "geometry.py"), ("Road.get_end_point", "opendrive.py")], ["planView element", "road length", "get_start_point/get_end_point"])
p("C06", "Declared road links hold geometrically after adjustment",
  "After adjusting a network, wherever a road declares a road as predecessor or successor at a contact point (in networks free of contradictory cycles), the declared ends of the two roads coincide in position and their directions continue each other. The only displacement is the lane offset declared by a connecting road for that end: that many standard lanes of 3 m to the left, seen along the connecting road.",
  ["inputs", "configurations", "histories"], "all network topologies, contact points, geometries, lane offsets, ids and insertion orders",
  "Tests adjust three-road chains and never look at positions.",
  ["opendrive.py"], [("adjust_startpoints / adjust_road_wrt_neighbour", "opendrive.py")], ["geometry elements in the document"])
p("C07", "Adjustment places everything or reports an undefined network",
  "Adjusting a network terminates and either places every road or raises UndefinedRoadNetwork, which it does exactly when some road is not connected, through declared road links, to a road with a fixed start or (if there is none) to the first ordinary road. Roads with a fixed start keep exactly that start, and whether adjustment succeeds and how roads lie relative to each other do not depend on the order in which roads are added or on whether junction and road ids coincide or differ.",
  ["configurations", "histories"], "all network topologies, insertion orders, fixed starts and id assignments (anchor roads being ordinary roads, references resolving to added roads, ordinary roads declaring their links to each other mutually)",
  "Tests use one insertion order with ids 1,2,3 and a junction id that happens to be a road id too.",
  ["opendrive.py"], [("fixpoint loop of adjust_startpoints", "opendrive.py")], ["exceptions", "geometry elements"],
  [("planview.adjusted / planview.fixed", "placement status that drives the fixpoint", "pyodrx/geometry.py: PlanView")])
p("C08", "Re-adjusting and serialising change nothing",
  "Serialising, printing or writing a document any number of times leaves it unchanged, and adjusting an already adjusted network again yields the same document (apart from the date). Adding further roads (without a fixed start, unless the network already has one) to an adjusted network and adjusting again gives the same document as adding all roads first and adjusting once.",
  ["histories"], "all interleavings of adjusting, serialising, writing and adding roads",
  "Tests adjust once and serialise once.",
  ["opendrive.py", "links.py", "geometry.py"], [("adjust_roads_and_lanes", "opendrive.py"), ("PlanView.adjust_geometries appends", "geometry.py")], ["get_element", "written files"],
  [("_adjusted_geometries, lane links", "accumulate on every adjustment", "pyodrx/geometry.py, pyodrx/links.py")])
p("C09", "Lanes of consecutive roads are linked one-to-one",
  "When a network is adjusted, wherever two ordinary roads follow each other (one names the start of the other as successor, which names the end of the one as predecessor, ids given as numbers or text), each left and right lane of the first road's last lane section gets exactly one successor link to the same-numbered lane of the next road's first lane section, and that lane exactly one predecessor link back. If the numbers of left or right lanes at that joint differ NotSameAmountOfLanesError is raised, and no other lane of ordinary roads gets a link.",
  ["inputs", "configurations"], "all chains and rings of roads, lane counts, numbers of lane sections, ids and insertion orders",
  "Tests link single-section roads with one lane per side in one order.",
  ["links.py", "opendrive.py"], [("create_lane_links / _create_links_roads", "links.py")], ["link elements of lanes"])
p("C10", "Lanes of connecting roads are linked to the lanes they meet",
  "When a network is adjusted, every lane of a connecting road gets, at each end, exactly one link (predecessor at its start in its first lane section, successor at its end in its last) to the lane it meets in the adjoining road: the same number, negated when two starts or two ends meet, shifted by the lane offset declared for that end before negating. The lane section of the adjoining road that counts is the one at the contact point, NotSameAmountOfLanesError is raised when (without lane offset) the connecting road has more lanes on a side than it, and lanes of the adjoining ordinary roads get no links from connecting roads.",
  ["inputs", "configurations"], "all contact-point combinations, lane counts per side, lane sections, offsets, ids and insertion orders",
  "Tests cover the four contact combinations with one lane per side, single lane sections, no offset.",
  ["links.py"], [("_create_links_connecting_road / _get_related_lanesection", "links.py")], ["link elements of lanes"])
p("C11", "A created junction describes exactly the joints of its connecting roads",
  "The junction made for a set of connecting roads has, for each of them, one connection whose incoming road is its successor (contact point end) and one whose incoming road is its predecessor (contact point start), and nothing else. Each connection pairs every lane of the connecting road at that end (as target) with the lane of the incoming road it meets (as origin): the same number, negated when two starts or two ends meet, shifted by the declared lane offset before negating.",
  ["inputs", "configurations"], "all contact-point combinations, lane counts per side, lane sections, offsets and ids",
  "No test calls create_junction.",
  ["generators.py", "links.py"], [("create_junction / _create_junction_links", "generators.py")], ["junction element"])
p("C12", "Generated crossings close geometrically and match their roads",
  "For the supported crossings (four roads at 90 degrees, three roads in T or 120 degree shape) with spiral and arc parts that add up to the whole turn, junction-road generation yields exactly one connecting road per pair of roads, numbered from the start number, each joined to the end of the first road or the start of the others, with the lane count and width of those roads at their junction-side lane sections, and it declares the junction on that side of every road. After adjustment every connecting road starts and ends exactly, in position and direction, at both roads it joins, and the roads leave at the requested angles; roads that differ in lane numbers there are rejected with NotSameAmountOfLanesError.",
  ["inputs", "configurations"], "all supported angle sets, radii, turn partitions, lane counts (as many left as right lanes), widths, ids, lane sections",
  "No test calls create_junction_roads.",
  ["generators.py", "geometry.py", "opendrive.py"], [("create_junction_roads / get_lanes_offset / create_cloth_arc_cloth", "generators.py")], ["generated roads", "document after adjustment"])
p("C13", "Lanes are numbered outwards from the centre and written once",
  "In every lane section, in whatever order left and right lanes are added, the centre lane is written with id 0, the left lanes with 1, 2, 3 onwards and the right lanes with -1, -2, -3 onwards in the order they were added, each exactly once inside its own side and in that order. Each lane is written with its own type, width polynomial, offset and road mark, and lane sections appear in the order added with their s.",
  ["histories", "inputs"], "all interleavings of adding left and right lanes and sections, all lane types and coefficients",
  "Tests add at most one lane per side and only print.",
  ["lane.py", "enumerations.py"], [("LaneSection.add_left_lane / add_right_lane, Lane.get_element", "lane.py")], ["lanes element"],
  [("_left_id/_right_id", "next lane ids", "pyodrx/lane.py: LaneSection")])
p("C14", "Generated roads have exactly the requested make-up",
  "Roads made by the generators have the requested id, junction membership, geometries in order (a single one or a list of any kinds and parameterisations), and exactly the requested number of lanes of the requested width on each side. In roads made from a geometry list the outermost lane mark of each side is solid, the inner ones are broken and the centre has the requested mark; straight roads have the requested length, standard lanes the requested width and mark.",
  ["inputs"], "all lane counts, widths, geometry kinds, lists, ids, junction ids, marks",
  "Tests cover create_straight_road with six inputs; create_road has none.",
  ["generators.py"], [("create_road / create_straight_road / standard_lane", "generators.py")], ["road element"])
p("C15", "Clothoid-arc-clothoid roads turn by the requested total",
  "A spiral-arc-spiral road consists of a spiral, an arc and a spiral that join with continuous curvature, has the requested arc curvature (towards the side of the requested turn), and turns in total by the arc angle plus twice the spiral angle, in the direction of those angles, within the rounding of the start curvature. Negative angles, or a negative curvature, mirror the road of the positive angles and curvature.",
  ["inputs"], "all curvatures, arc and spiral angles, both directions, start curvatures, lane counts",
  "No test calls it.",
  ["generators.py", "geometry.py"], [("create_cloth_arc_cloth", "generators.py"), ("Spiral angle to length", "geometry.py")], ["geometry elements"])
p("C16", "Lane linkers link both lanes exactly once",
  "Every lane pair registered in a lane linker ends up, after the linker was passed with any number of lane sections, alone or in a list with other linkers, with exactly one successor link on the earlier lane naming the later lane's id and exactly one predecessor link on the later lane naming the earlier lane's id, and no lane gets any other link.",
  ["histories"], "all assignments of pairs to linkers and of linkers to lane sections",
  "No test uses LaneLinker with Lanes.",
  ["lane.py", "links.py"], [("Lanes.add_lanesection, _lanelink.used", "lane.py")], ["link elements of lanes"],
  [("used", "pair already written", "pyodrx/links.py: _lanelink")])
p("C17", "Signals and objects never share an id",
  "After any sequence of adding distinct signals and objects to any roads (one by one, in lists, or as roadside objects; with or without explicit ids given as numbers or text), all signals have pairwise different ids and all objects have pairwise different ids. An explicit id that no earlier added element of the same class used is kept as given, and adding never changes the id of an element added earlier.",
  ["histories"], "all sequences of additions with colliding and generated ids",
  "Tests add one colliding pair and only print.",
  ["signals_objects.py", "opendrive.py"], [("_update_id", "signals_objects.py"), ("Road.add_signal / add_object", "opendrive.py")], ["signal and object elements"],
  [("_usedIDs/_IDCounter", "class-level id bookkeeping", "pyodrx/signals_objects.py")])
p("C18", "Roadside objects stand beside the road they are added to",
  "Adding a roadside object to an adjusted road adds, per lane section, one copy for each requested side: at the section start plus the s offset, laterally at the summed lane widths of that side plus the t offset (positive left, negative right), with heading pi on the left and 0 on the right, repeated at the requested distance up to the next lane section or the end of the road, never beyond (a section shorter than the s offset gets none). The prototype stays unchanged, the copies keep its other attributes, and on a road that is not adjusted RoadsAndLanesNotAdjusted is raised and nothing is added.",
  ["inputs", "configurations"], "all sides, offsets, distances, lane make-ups, numbers of lane sections, placement directions",
  "One test, symmetric single-section road, prints only.",
  ["opendrive.py", "signals_objects.py"], [("Road.add_object_roadside", "opendrive.py"), ("Object.repeat", "signals_objects.py")], ["object elements"])
p("C19", "Road marks write what was given and default only the rest",
  "A road mark writes the given type, colour, weight, height, s offset and, if given, width and lane change. If any of length, space, t offset or rule is given (zero included), it also writes one line holding exactly the given values, where values not given default to: length 3 and space 3 for broken, 3 and 0 for solid, 0 and 0 for other types, width 0.2, t offset 0, rule none. A road line of its own writes exactly the numbers given, zero for the others, and the rule if given.",
  ["inputs"], "all combinations of given and missing arguments, values including zero, all enum members",
  "Tests print two marks.",
  ["lane.py"], [("RoadMark.__init__/get_attributes, RoadLine", "lane.py")], ["roadMark element"])
p("C20", "Signal and object attributes are written faithfully",
  "Every attribute given to a signal, an object or one of its repeat entries is written under its OpenDRIVE name with the given value, attributes not given are left out or written with their documented default, repeat entries fall back to the object's own values (0 for an object without height), and nothing is ever written as 'None'. Orientation is written +, - or none, country in upper case, and an object given a radius is written with the radius and without width and length, otherwise with both width and length, a missing one of the two being 0.",
  ["inputs"], "all combinations of given and missing arguments and repeats, including zero values, all enum members",
  "Tests print a few signals and objects.",
  ["signals_objects.py"], [("get_common_attributes, Signal/Object.get_attributes, Object.repeat", "signals_objects.py")], ["signal, object and repeat elements"])
p("C21", "The document holds everything that was added, once, in order",
  "Whatever the interleaving of additions, the document consists of one header, then every added road exactly once in the order added, then every added junction in the order added; each road carries its id, junction membership, optional name and rule, its links, plan view and lanes, and all its signals and objects in the order added, and nothing of another road.",
  ["histories"], "all interleavings of adding roads, junctions, signals, objects, connections, with all id kinds",
  "Tests add up to three roads in one order and print.",
  ["opendrive.py", "links.py"], [("OpenDrive.add_road/add_junction/get_element, Road.get_element", "opendrive.py")], ["OpenDRIVE element"])
p("C22", "Written files parse back to the document, in both formats",
  "Writing a document, pretty-printed or compact, under the given or the default file name, under any default text encoding, produces a well-formed XML file that parses back to exactly the elements, attributes and order of the document, for any names made of characters XML can represent, without line breaks or tabs. If the document cannot be generated or serialised, an error is raised and a file that already exists under that name is left as it was.",
  ["inputs", "configurations", "fault_sequences"], "all documents, names, formats, locales and generation failures",
  "No test writes a file.",
  ["helpers.py", "opendrive.py"], [("printToFile", "helpers.py"), ("OpenDrive.write_xml", "opendrive.py")], ["files"])
p("C23", "Roads accept at most one predecessor, one successor, two neighbours",
  "For every sequence of link declarations on a road, the first predecessor, the first successor and the first two neighbours are written exactly as declared (kind, id, contact point or direction, in declaration order); every further one, and a neighbour without direction, raises ValueError and changes nothing.",
  ["histories"], "all sequences of add_predecessor/add_successor/add_neighbor with all arguments",
  "Tests never exceed a limit.",
  ["opendrive.py", "links.py"], [("Road.add_successor/add_predecessor/add_neighbor", "opendrive.py"), ("_Link", "links.py")], ["link element of the road"],
  [("_neighbor_added, successor, predecessor", "declared links", "pyodrx/opendrive.py: Road")])
p("C24", "Elements built independently do not influence each other",
  "An operation on one road, lane, lane section, junction, connection, geometry or document never changes what another, separately built one writes, even though defaults and standard road marks are shared by the library; in particular generated roads and documents built in one process equal those built alone, and a list handed over stays the caller's (ids generated for signals and objects excepted).",
  ["histories"], "all interleavings of construction and mutation of two independent element graphs",
  "Tests build each element once and look at one only.",
  ["generators.py", "lane.py", "links.py", "opendrive.py", "geometry.py", "signals_objects.py"], [("no shared mutable defaults; STD_ROADMARK_*", "generators.py")], ["all get_element outputs"])
p("C25", "The viewer is started on the file just written",
  "Running a road writes the document to resources/xodr/pythonroad.xodr below the given esmini path and then starts, exactly once, the odrviewer of that path for the current platform (posix or Windows) on that same file, with the requested density; the file is complete before the viewer starts.",
  ["inputs", "configurations"], "all esmini paths (on Windows those without blanks or shell characters), densities, platforms, documents",
  "No test calls run_road.",
  ["helpers.py"], [("run_road", "helpers.py")], ["written file", "command given to the operating system"])
p("C26", "Junction connections keep their lane links and get unique ids",
  "For every sequence of adding connections with or without explicit ids to a junction, the junction writes its name and id and every connection once in the order added with its roads, contact point and lane links in order; explicit ids are kept, and an automatically given id never equals that of a connection already in the junction.",
  ["histories"], "all sequences of add_connection and add_lanelink with explicit and automatic ids",
  "Tests add two automatic connections and print.",
  ["links.py"], [("Junction.add_connection, Connection._set_id", "links.py")], ["junction element"],
  [("_id_counter", "next automatic connection id", "pyodrx/links.py: Junction")])
p("C27", "Enumeration members are written as their OpenDRIVE tokens",
  "Every member of every public enumeration can be converted to text, is written wherever it can be used as its own name with underscores turned into spaces (orientations + and -), and no two members of an enumeration are written alike.",
  ["inputs"], "all members of all enumerations, in every element that accepts them",
  "Tests use a handful of members.",
  ["enumerations.py", "helpers.py", "lane.py", "links.py", "signals_objects.py"], [("enum2str", "helpers.py")], ["attributes"])
p("C28", "Linked lanes meet physically",
  "In every adjusted network of roads with standard 3 m lanes, two lanes that are linked across a joint between roads (by lane links or by junction lane links, lane offsets included) occupy the same strip there: their inner and outer borders at that joint coincide in the plane.",
  ["configurations"], "all networks of ordinary and connecting roads, contact points, offsets, geometries, insertion orders",
  "No test relates positions to lane links.",
  ["links.py", "generators.py", "opendrive.py"], [("lane link sign/offset rules vs. adjust_road_wrt_neighbour shift", "links.py")], ["document after adjustment"])
p("C29", "Construction steps that do not depend on each other commute",
  "In whatever order a network is put together - geometries, lane sections, lanes and road marks before or after the road around them is created or added to the document, links declared before or after, signals, objects, junctions and junction lane links before or after the adjustment - the adjusted document has the same content, apart from the order of roads, junctions and links and generated ids; the network has a road with a fixed start.",
  ["histories"], "all orders of the construction steps of a network that respect what each step needs",
  "Every test builds its objects in one order.",
  ["opendrive.py", "lane.py", "links.py", "geometry.py", "signals_objects.py"], [("OpenDrive.add_road, Road, PlanView.add_geometry, Lanes.add_lanesection", "opendrive.py")], ["document after adjustment"])
p("C30", "A failed adjustment leaves nothing behind",
  "If adjusting fails because roads cannot be reached (UndefinedRoadNetwork) or numbers of lanes differ (NotSameAmountOfLanesError), or succeeds before the network is complete, then supplying the missing links, lanes and roads and adjusting again gives the document that the complete network adjusted once gives, however many attempts lie in between; the road that anchors the network was there from the beginning.",
  ["histories", "fault_sequences"], "all networks, missing parts, orders of supplying them and attempts in between",
  "No test continues after an error.",
  ["opendrive.py", "links.py"], [("OpenDrive.adjust_startpoints/adjust_roads_and_lanes, create_lane_links", "opendrive.py")], ["exceptions", "document after adjustment"])
p("C31", "Finished documents are consistent in themselves",
  "In every adjusted document whose roads are linked on both sides and whose lane offsets lead to lanes that exist, everything referred to exists and agrees: linked roads and junctions are in the document, links of ordinary roads and of their lanes are mutual, every lane link names a lane of the adjoining lane section, every connecting road belongs to a junction with exactly one connection for each of its ends, whose incoming road leads into that junction and whose lane links are the lane links of the connecting road itself. Road lengths are those of the reference line, and roadside objects and their repetitions stay on it.",
  ["configurations", "histories"], "all networks made by hand or by the generators, with junctions, lane offsets, lane sections, linkers and furniture",
  "Tests look at one element at a time, never at whether two parts of a document agree.",
  ["opendrive.py", "links.py", "generators.py", "lane.py"], [("create_junction vs. create_lane_links", "generators.py")], ["document after adjustment"])
p("C32", "Linking two roads by hand links exactly their joints",
  "Calling create_lane_links for two roads, in either order, before or after adjusting, repeatedly or for several pairs one after another, gives their lanes exactly the links which adjusting the network would give them at the joints of these two roads (one per joint and lane, whatever the number of calls), and changes no lane at any other joint; if the numbers of lanes do not fit at such a joint NotSameAmountOfLanesError is raised. are_roads_consecutive tells for two ordinary roads, from their link declarations, whether the start of the second follows the end of the first.",
  ["histories", "configurations"], "all networks, pairs of roads and sequences of calls; at most one of the two is a connecting road",
  "Tests link single pairs once, in one order, before adjusting.",
  ["links.py", "lane.py"], [("create_lane_links, are_roads_consecutive", "links.py")], ["link elements of lanes", "return value of are_roads_consecutive"])
p("C33", "A part alone writes what the document contains for it",
  "In every document, every part of it (road, plan view, lanes, lane section, lane, road mark, signal, object, junction, connection, and each geometry once placed) writes alone, before or after the whole document was written, exactly the element that the document contains for it. Printing the element of any part (also of a signal dependency) to the console or to a file, pretty or compact, any number of times, leaves it unchanged and gives well-formed XML that parses back to it, for any names made of characters XML can represent, without line breaks or tabs.",
  ["configurations", "histories"], "all kinds of parts, names, formats and orders of writing parts and documents",
  "Tests print parts to the console without looking at the output, and compare none with the document.",
  ["helpers.py", "opendrive.py", "lane.py", "geometry.py", "links.py", "signals_objects.py"], [("get_element of every class; prettyprint, printToFile", "helpers.py")], ["elements, console output, files"])
p("C34", "Rejected calls can be corrected and repeated",
  "When create_junction_roads is rejected because roads differ in lane numbers or are linked at the junction side already, create_lane_links because lane numbers do not fit, a predecessor, successor or neighbour because there is one too many or a direction is missing, or a roadside object because the road is not adjusted yet, then correcting the cause and calling again gives what it gives without the rejected calls, however many there were (generated object ids aside). A rejected create_junction_roads, link declaration or roadside object leaves every road involved as it was.",
  ["histories", "fault_sequences"], "all positions and kinds of rejected calls, all orders of correcting them, all sequences of accepted and rejected steps",
  "Tests contain no call that is rejected and then repeated.",
  ["generators.py", "opendrive.py", "links.py"], [("create_junction_roads", "generators.py"), ("create_lane_links", "links.py"), ("Road.add_successor / add_predecessor / add_neighbor / add_object_roadside", "opendrive.py")], ["roads, connecting roads, documents"])
p("C35", "Queries agree with what was declared and what is written",
  "Asked at any time, the link collection of a road or lane answers the id, kind and contact point of the declared predecessor and successor, or nothing if there is none; neighbours, rejected declarations, serialising and adjusting do not interfere. Looking for a road by id in a list gives exactly the road with that id or nothing, and the start, end and length that an adjusted road reports are those of its written geometry. A clothoid evaluated part of the way gives the pose of the same curve at that distance.",
  ["inputs", "histories"], "all sequences of declarations and queries on roads and lanes, all network topologies, all lists of roads, all clothoids and distances along them",
  "Tests use none of these queries; the library itself uses few of them.",
  ["links.py", "opendrive.py", "generators.py", "geometry.py"], [("_Links.get_predecessor_* / get_successor_*", "links.py"), ("get_road_by_id", "generators.py"), ("Road.get_end_point, PlanView.get_start_point / get_end_point / get_total_length", "opendrive.py"), ("EulerSpiral.calc", "geometry.py")], ["return values against get_element"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["title"]
    assert x["statement"].count(". ") <= 2, (x["id"], x["statement"].count(". "))
print(len(P))
