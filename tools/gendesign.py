"""Writes the generated part of DESIGN.md: per property how it is decided, with the sizes of the last quick run; fixes; planted bugs."""
import glob
import json
import os
import re
import sys

V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)

HOW = {
"C01": "Oracle: `mc/ref.py` reads the written element (kind and attributes only) and integrates it independently: Gauss-Legendre quadrature of the linear-curvature heading for spirals, exact circle for arcs, the polynomial itself (and its arc length by quadrature) for `paramPoly3`. Enumerated: every kind with every parameterisation x curvatures of both signs and down to 1e-7 (arcs: 1e-300), spirals whose two curvatures differ by a relative 1e-1 to 2e-16, lengths 1e-6..1e5, headings in all quadrants and beyond a full turn, far-away origins.",
"C02": "Oracle: forward evaluation of the same object (itself decided by C01): the start pose must come back from the reversed end pose. Enumerated: the catalogue of C01 x poses x {fresh object, evaluated forwards, backwards, both, written before} and the same through a one-geometry plan view placed from its end.",
"C03": "Oracle: the same call on a geometry built afresh in a freshly loaded package. Enumerated: all operation sequences up to depth (forward / backward with different poses, writing, use in a plan view from start or end) on one object, on two objects sharing arguments, and on two long-lived plan views sharing geometries.",
"C04": "Oracle: closed forms of turned angle, length and curvature rate; for rejections a decision table of which arguments are given. Enumerated: all combinations of given/missing/zero arguments and alphabets of curvatures, angles and rates (zero and both signs).",
"C05": "Oracle: each written geometry must start where the reference evaluation of the previous one ends; s is the running sum of the *written* lengths; start, end and length reported equal the chain's. Enumerated: all sequences of up to 3 (4) geometries over the kinds, start poses, placement from start or end, prescribed headings, the same object several times, up to 60 geometries, and placement inside networks.",
"C06": "Oracle: `nets.check_joints`: from the written plan views alone, every declared joint is compared as poses (with the declared lane offset of a connecting road, 3 m each). Enumerated: topologies (chains, rings, junctions, hubs, two junctions, crossings, up to 31 roads) x run-through directions x contact points x geometries x offsets x declaration on one or both sides x all insertion orders of small networks. `trees`: every ring-free network grown road by road (each new road joined to any free end or junction, directly or through a connecting road, by either of its ends, the connecting road running either way).",
"C07": "Oracle: `Net.placement()`, an independent breadth-first placement from the anchors along the declared joints; unreachable roads must make adjusting raise UndefinedRoadNetwork and reachable ones must not. Enumerated: topologies with every subset of joints left out, fixed starts on any consistent subset, separate components, junction ids equal to road ids, id styles (int/text/numpy/from zero), all insertion orders. `trees`: all ring-free networks of up to the given number of roads (see C06).",
"C08": "Oracle: the document of the same network adjusted once and read once. Enumerated: all sequences of {adjust, get_element, write, add the next road, add junction, ...} up to depth on several topologies, networks growing in every order, generated crossings. `growing-trees`: all ring-free networks of up to the given number of roads (see C06).",
"C09": "Oracle: `lanelinks.road_links` computes from the description which lanes get which links or that lane numbers differ; the written links of *all* lanes of ordinary roads are compared. Enumerated: all lane-section make-ups (0..2 lanes per side, up to 3 sections) on both sides of a joint, chains, rings, junctions next to joints, one-sided declarations, ids that read alike, up to 31 roads and 12 lanes. `trees`: all ring-free networks of up to the given number of roads (see C06).",
"C10": "Oracle: `lanelinks.connecting_links` (same number, negated when two starts or two ends meet, shifted before negating). Enumerated: all lane make-ups of the three roads x contact points, offsets outwards on each side, loops, connecting roads linked at one end, several per junction, rings, orders and ids. `trees`: all ring-free networks of up to the given number of roads (see C06).",
"C11": "Oracle: the set {(incoming, connecting, contact point, lane pairs)} computed from the description. Enumerated as for C10, through `create_junction` before or after adjusting. `trees`: all ring-free networks of up to the given number of roads (see C06).",
"C12": "Oracle: geometry of the written document: each connecting road's two ends coincide with the right ends of its two roads, the angles between the roads are those requested, lane counts, widths, ids and junction links are as required; lane mismatch must be rejected. Enumerated: shapes x radii x spiral/arc parts x first angle (complete), with deviating lanes, widths, ids, start numbers, geometries of the roads and insertion orders; two crossings sharing a road.",
"C13": "Oracle: a list model of lanes per side. Enumerated: all orders of adding left/right lanes to up to three sections with reads in between, all lane types and width polynomials, lanes that had another place before, shared centre lanes, adjusted networks.",
"C14": "Oracle: the requested make-up, geometry by geometry. Enumerated: every kind and parameterisation alone and in lists, all lane numbers 0..4 per side, widths, centre marks (also none), ids and junctions, generators called one after another.",
"C15": "Oracle: closed forms for the written arc and spirals; the mirrored road must be the mirror image. Enumerated: curvatures x angles x signs x start curvatures, placed from either end in a network.",
"C16": "Oracle: the set of registered pairs. Enumerated: all sets of pairs between consecutive sections, their distribution over linkers, all ways to pass linkers with sections (alone, list, repeatedly), pairs registered late, fans, two roads, centre lanes, wide sections.",
"C17": "Oracle: pairwise difference and stability of written ids after every step. Enumerated: all sequences of additions of signals/objects with ids from a colliding alphabet (numbers, text, generated) to one or two roads, singly, in lists or as roadside objects, each in a freshly loaded package.",
"C18": "Oracle: closed form per lane section and side. Enumerated: lane make-ups, sections, sides, s and t offsets, distances, geometries and placements, prototypes reused and changed, refused calls.",
"C19": "Oracle: the table of defaults. Enumerated: all subsets of given numbers (zero, plain) for every mark type, all types, colours, weights, lane changes and rules.",
"C20": "Oracle: attribute tables with required and permitted attributes. Enumerated: all pairs of fields with all values, all subsets of given fields, all subsets of repeat values, explicit None, changes after construction.",
"C21": "Oracle: a list model of the document. Enumerated: all sequences of additions up to depth, all orders of a full set, names/rules/ids, lists that the caller keeps using, many roads.",
"C22": "Oracle: the element tree itself against the parsed file; for failures the old file content. Enumerated: documents x all short names over the critical characters x formats x targets x default encodings (stand-in for `open`, and real processes under other locales) and a fault at every point of generation and serialisation. Every file lives in a scratch folder the check creates and removes.",
"C23": "Oracle: a counter model. Enumerated: all sequences of declarations up to depth, all pairs of arguments, long runs, several roads, and that refused declarations move and link nothing.",
"C24": "Oracle: the same builder run alone in a fresh package. Enumerated: all interleavings of the steps of two builders (road, crossing, lanes, marks, junction, signals, documents, ...), sequences and prefixes of builders, lists handed to several calls.",
"C25": "Oracle: exactly one program start, recorded by stand-ins for every way of the os and subprocess modules (nothing is started), with the file content captured at that moment. Enumerated: paths (relative, blanks, quotes, shell characters), densities, platforms, repeated runs, write faults.",
"C26": "Oracle: a list model of connections. Enumerated: all sequences of explicit/automatic ids and lane links, two junctions, long runs.",
"C27": "Oracle: the member's own name. Enumerated: every member of every enumeration at every place it can be used (complete).",
"C28": "Oracle: border points of both lanes computed from widths and the written plan views. Enumerated: the networks of C09-C12 with 3 m lanes. `trees`: all ring-free networks of up to the given number of roads (see C06).",
"C29": "Oracle: the document of the same network built in the usual order. Enumerated: for each of several priority orders of all enabled construction steps, every schedule with up to 2 (3) deviations from it, over three topologies with and without furniture (adjusting is one of the steps).",
"C30": "Oracle: the complete network adjusted once. Enumerated: every part or pair of parts (links, lanes, roads) missing at first, both orders of supplying them, attempts (and reads) in between, anchors, ids, insertion orders. `trees`: all ring-free networks of up to the given number of roads (see C06).",
"C31": "Oracle: `mc/lint.py`, which knows nothing but the document and checks that all references resolve and agree. Enumerated: chains, connecting roads between any ends, loops, lane splits with offsets, two junctions, generated crossings from four kinds of roads with continuations. `trees`: all ring-free networks of up to the given number of roads (see C06).",
"C32": "Oracle: `lanelinks` applied to the part of the network that concerns the two roads; unions over the calls. Enumerated: all sequences of up to 2 (3) calls for all ordered pairs of roads (and adjusting) over two-road networks with every way to meet, connecting roads with lane offsets, loops, chains, rings and all ring-free networks.",
"C33": "Oracle: the element found at the part's place in the whole document; for printing the element tree itself. Enumerated: documents with three roads, a junction and furniture x states of adjustment x orders of writing x names over the critical characters; every kind of part x name x {console, pretty, compact, default}.",
"C34": "Oracle: the same construction without the rejected calls (roads, connecting roads, adjusted document with junction). Enumerated: every assignment of causes (left, right or both lanes missing, linked already) to the roads of all five crossing shapes x three ways of correcting them step by step (each step rejected in between); two-road networks of four shapes x every lane of every section missing x repeated attempts x order of the roads; all sequences of up to four accepted or rejected steps on a road (links, neighbours, roadside objects, adjusting).",
"C35": "Oracle: the sequence of accepted declarations (and the link element), the geometry elements of the document, the list itself, numeric integration of the curve. Enumerated: all sequences of up to four or five declarations (predecessor, successor, neighbour on two roads; ids and kinds by deviation), asked after every step; lane links; six network shapes asked before and after serialising and re-adjusting; lists of 0 to 12 roads in all orders x seven kinds of ids; crossings; clothoids x starts x pairs of distances.",
}

HEAD = open(os.path.join(V, "DESIGN.md")).read().split("## Per property")[0]
CONST = open(os.path.join(V, "tools", "design_tail.md")).read()
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = [HEAD + "## Per property\n", "Sizes are those of the last quick run (`executions` = complete histories run on the real code, `states` = distinct observed",
       "documents or results); the thorough bound is in brackets.  None of the properties is `not_applicable`.\n"]
for p in props:
    pid = p["id"]
    import importlib
    mod = importlib.import_module("mc.props." + pid.lower())
    out.append("### %s %s\n" % (pid, p["title"]))
    out.append(HOW[pid] + "\n")
    out.append("Beyond the tests: " + p["why_tests_cant"] + "\n")
    f = os.path.join(V, "evidence", pid + ".json")
    ev = json.load(open(f)) if os.path.exists(f) else None
    rows = []
    for s in mod.SCENARIOS:
        e = ev and ev["tier"] == "quick" and ev["coverage"]["scenarios"].get(s.name)
        rows.append("`%s` D=%d (%d)%s" % (s.name, s.bounds["quick"], s.bounds["thorough"], (": %d executions, ~%d states" % (e["executions"], e["states"]) if e["states"] else ": thorough only") if e else ""))
    out.append("Scenarios: " + "; ".join(rows) + ".")
    if ev and ev["tier"] == "quick":
        out.append("Quick run: %d executions, %.0f s." % (ev["coverage"]["evaluations"], ev["wall_s"]))
    a = getattr(mod, "ASSUMPTIONS", [])
    if a:
        out.append("Assumptions: " + "; ".join(a) + ".")
    out.append("")
out.append(CONST)
kf = json.load(open(os.path.join(V, "known_findings.json")))
out.append("## Defects found and repaired\n")
for x in kf["fixed"]:
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", x)
    out.append("* %s (`%s`): %s" % m.groups())
out.append("\nNo finding is left unrepaired (`known_findings.json` has an empty `known` list).\n")
out.append("## Planted bugs\n")
out.append("Each folder of `seeded/` was validated (applies, builds, 114 tests pass, demonstration passes without and fails with it). All are caught")
out.append("by the quick check of their property; those marked * were missed when first planted and led to the scenario or tolerance that catches them now.\n")
MISSED = set("c01-slow c03-arc c05-round c07-few c09-right c12-last c13-center c14-none c15-sign c16-str c18-out c21-sig c22-enc c23-fail c24-pv c31-offset".split())
extra = os.path.join(V, "tools", "missed.txt")
if os.path.exists(extra):
    MISSED |= set(open(extra).read().split())
for d in sorted(glob.glob(os.path.join(V, "seeded", "*"))):
    i = os.path.basename(d)
    m = json.load(open(os.path.join(d, "meta.json")))
    out.append("* %s%s (%s): %s — needs %s" % (i, "*" if i in MISSED else "", m["property"], m["what_it_breaks"], m["needs"]))
with open(os.path.join(V, "DESIGN.md"), "w") as f:
    f.write("\n".join(out) + "\n")
print(len(out))
