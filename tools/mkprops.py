#!/usr/bin/env python3
"""writes properties.jsonl"""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state], "hook_needed": hook}})

p("C01", "The drawing BSP says, for every point, what the map's brushes put there",
  "For every compiled map, looking any point up in the world's drawing tree gives the contents its brushes define: solid where a solid, detail, fence or detail-wall brush is, sky / lava / slime / water in that order of strength otherwise, empty elsewhere, and inside a brush entity's tree solid exactly where its brushes are. When the map is sealed, everything the point entities cannot reach becomes solid too and nothing they can reach does; options that only affect tree shape, merging, chopping or output format never change any of this.",
  ["inputs", "configurations"], "all worlds of brushes, all entity placements, all games / BSP formats / tree options",
  "The tests look up a few points of a few hand-made maps (and the map-compiling tests do not even build here); the property quantifies over every point of every world and every option combination.",
  ["qbsp/brush.cc", "qbsp/csg.cc", "qbsp/brushbsp.cc", "qbsp/outside.cc", "qbsp/prtfile.cc", "qbsp/writebsp.cc", "qbsp/tree.cc", "common/bspfile.cc"],
  [("brush loading and chopping", "qbsp/brush.cc Brush_LoadEntity, qbsp/csg.cc ChopBrushes"), ("tree construction", "qbsp/brushbsp.cc BrushBSP"), ("outside and detail fill", "qbsp/outside.cc FillOutside, FillDetail"), ("export", "qbsp/writebsp.cc ExportDrawNodes / ExportLeaf")],
  ["the written .bsp"])
p("C02", "Collision hulls are solid exactly where a box of the hull's size would touch",
  "For every compiled map and every collision hull of the target game, the hull's tree answers solid for exactly those positions at which a box of that hull's size would touch a solid, sky, clip, detail, fence or detail-wall brush (liquids, detail-illusionary, hint brushes never count), plus the positions the outside fill closed off. The same holds for the hulls of every brush entity, whatever its contents.",
  ["inputs", "configurations"], "all worlds, all hulls of Quake, Hexen II and Half-Life, all clipnode formats",
  "Collision correctness is a statement about every position in space; tests sample single points of single maps.",
  ["qbsp/brush.cc", "qbsp/qbsp.cc", "qbsp/csg.cc", "qbsp/outside.cc", "qbsp/writebsp.cc", "common/bspfile.cc"],
  [("brush expansion", "qbsp/brush.cc LoadBrush / ExpandBrush / AddBrushBevels"), ("hull sizes", "common/bspfile.cc get_hull_sizes"), ("clipnode export", "qbsp/writebsp.cc ExportClipNodes")],
  ["the written .bsp"])
p("C03", "A leak is reported exactly when an entity can reach the void, with a valid trail",
  "qbsp reports a leak, writes the .pts trail and withholds the .prt file exactly when some point entity that is not inside something sealing (and is not exempted with _nofill or _lightgrid_hint) is connected to the void through space not blocked by structural solid or sky. The trail leads from such an entity to the void without ever passing through anything that seals; -keepprt keeps the .prt, -leaktest makes the run fail, and a sealed compile leaves no stale .pts behind.",
  ["inputs", "configurations"], "all worlds, entity placements and fill options",
  "Reachability is global: one misplaced passability test shows only in particular arrangements of rooms, detail and liquids.",
  ["qbsp/outside.cc", "qbsp/portals.cc", "qbsp/qbsp.cc"],
  [("occupied leaf marking", "qbsp/outside.cc MarkOccupiedLeafs"), ("flood", "qbsp/outside.cc BFSFloodFillFromOccupiedLeafs / FloodFillLeafsFromVoid"), ("leak line", "qbsp/outside.cc MakeLeakLine / WriteLeakLine")],
  ["log", ".pts", ".prt", "exit status"])
p("C04", "Every visible boundary is drawn exactly once, with the right side and texture",
  "The faces qbsp writes cover every point of every boundary between differing visible contents exactly once (twice, once per side, for liquids), face the side from which the stronger content is seen, and carry the texture of a brush side lying on that boundary; nothing else is drawn: no face inside solid or in the filled void, none between equal contents, none for skip sides. Every leaf lists exactly the faces that border it, whatever merging, subdivision, T-junction or output options are used.",
  ["inputs", "configurations"], "all worlds and all face options",
  "A missing or doubled sliver of surface appears only for particular brush arrangements; tests count faces of a few maps.",
  ["qbsp/faces.cc", "qbsp/portals.cc", "qbsp/merge.cc", "qbsp/tjunc.cc", "qbsp/writebsp.cc", "common/bspfile.cc"],
  [("side visibility", "qbsp/portals.cc MarkVisibleSides"), ("face creation", "qbsp/faces.cc MakeFaces / FaceFromPortal / FindPortalSide"), ("merging, subdividing", "qbsp/merge.cc, qbsp/faces.cc SubdivideFace"), ("marksurfaces", "qbsp/writebsp.cc ExportLeaf")],
  ["faces, edges, vertices, texinfo, marksurfaces of the written .bsp"])
p("C05", "The portal file describes exactly the openings between visibility clusters",
  "For a sealed map the .prt file lists, for each pair of clusters, portals that together cover exactly the open area through which one can look from one into the other (detail and translucent liquids do not block, opaque liquids block only against a different content; an opaque liquid may count as open towards a cluster with the same or a mixed content in its detail), each exactly once, wound so that the first cluster is on the documented side. Cluster and leaf numbers are consistent with the leaves of the .bsp, detail leaves map to the cluster that surrounds them, and two points share a cluster only if no structural surface separates them.",
  ["inputs", "configurations"], "all sealed worlds, PRT1 / PRT2 output, -transwater on and off",
  "vis trusts this file completely; a portal dropped or merged wrongly in one configuration makes geometry vanish in game and no test compares portals with geometry.",
  ["qbsp/prtfile.cc", "qbsp/portals.cc", "common/bspfile.cc", "common/prtfile.cc"],
  [("see-through rule", "common/bspfile.cc portal_can_see_through"), ("cluster numbering", "qbsp/prtfile.cc NumberLeafs_r / CountPortals"), ("portal output", "qbsp/prtfile.cc WritePortals_r")],
  [".prt", ".bsp leaf order"])
p("C06", "Every file the compiler or the tools write is a structurally valid BSP",
  "In every BSP written by qbsp, vis, light or bsputil, in any of the formats, every index refers to an existing element, every tree is finite, acyclic and reaches each of its nodes and leaves once, node and leaf boxes enclose what is below them, face edge loops are closed, planar and convex, model ranges partition the faces, leaf 0 is the shared solid leaf, and lumps neither overlap nor leave the file.",
  ["inputs", "configurations", "programs"], "all maps, formats and tool chains",
  "Engines crash on a single bad index; the tests never validate whole files.",
  ["qbsp/writebsp.cc", "common/bspfile.cc", "common/bspfile_generic.cc", "common/bspfile_q1.cc", "common/bspfile_q2.cc", "bsputil/bsputil.cc"],
  [("export", "qbsp/writebsp.cc"), ("serialisation", "common/bspfile*.cc")],
  ["all lumps"])
p("C07", "Compilation is deterministic and independent of threads",
  "What qbsp, vis, light and bsputil --decompile write is a function of what they read and of the options that mean something: the same map or BSP with the same options gives byte-identical .bsp, .prt, .pts, .lit, .lux and decompiled .map files, and the same verdict, whatever the number of threads, the schedule, how often it is run, the place of the files, earlier results and unrelated files lying there, and what unused memory holds. Lighting a lit BSP again gives the same lumps. No other file of the directory is touched. (Left out: logs; and vis on several threads without -fast, which may prove more or less invisible within the limits of C08 and C09.)",
  ["schedules", "configurations"], "all schedules, thread counts and repetitions",
  "Tests run each compile once.",
  ["include/common/parallel.hh", "common/decompile.cc", "qbsp/qbsp.cc", "qbsp/brushbsp.cc", "qbsp/csg.cc", "vis/vis.cc", "light/light.cc", "light/ltface.cc"],
  [("task parallelism", "include/common/parallel.hh"), ("ordered containers", "qbsp/brushbsp.cc, qbsp/writebsp.cc")],
  ["bytes of the outputs"])
p("C08", "The PVS never hides anything that can be seen",
  "For every map and every vis setting (full at any test level, -fast, any thread count, an interrupted and resumed run), if a straight line through open space joins a point of one cluster to a point of another without crossing anything that blocks sight, then each cluster's potentially visible set contains the other (up to the -visdist limit, when one is given). Each set also contains the cluster itself and nothing that no chain of portals connects.",
  ["inputs", "schedules", "configurations"], "all sealed worlds, all pairs of points, all schedules and settings",
  "The tests compare PVS bits of a handful of cluster pairs; visibility is a statement about every line of sight.",
  ["vis/flow.cc", "vis/vis.cc", "vis/soundpvs.cc", "common/prtfile.cc"],
  [("base visibility", "vis/flow.cc BasePortalVis / SimpleFlood"), ("separating-plane flow", "vis/flow.cc RecursiveLeafFlow, ClipToSeparators"), ("propagation of finished portals", "vis/vis.cc UpdateMightsee / PortalCompleted"), ("assembly", "vis/vis.cc ClusterFlow")],
  [".bsp visibility lump"])
p("C09", "Every portal is processed once, and early results never cost visibility",
  "Whatever the interleaving of worker threads, each portal is handed to exactly one worker, is finished exactly once before the result is assembled, and its final set always contains what is truly visible and never exceeds its preliminary set; clearing candidates because another portal has finished removes only what that finished portal proves invisible. The run always terminates with every portal done.",
  ["schedules"], "all interleavings of the workers",
  "A unit test sees one interleaving; the hazard is in the order of portal completions.",
  ["vis/vis.cc", "vis/flow.cc", "common/parallel.cc"],
  [("portal queue", "vis/vis.cc GetNextPortal"), ("completion", "vis/vis.cc PortalCompleted / UpdateMightsee"), ("flow", "vis/flow.cc PortalFlow")],
  ["trace of pick / complete events under portal_mutex"], [("portal status", "none / working / done", "include/vis/vis.hh portal_t")],
  "events at GetNextPortal, PortalCompleted (ERICWTOOLS_VERIF_TRACE)")
p("C10", "An interrupted vis run resumes to the same answer or starts afresh",
  "Whatever the moment at which vis is killed before it begins to write the BSP (including in the middle of writing its state file, or between the renames that install it), running it again on the same input succeeds and ends with visibility data that never hides anything visible, and on one thread with exactly the data of an uninterrupted run. A state file that is truncated, older than the portal file, written with another -visdist, by another version or for another number of portals or clusters is never used: such a run gives what a fresh run gives or, in the last three cases, refuses it and leaves the BSP alone.",
  ["crash_points", "fault_sequences"], "all crash points and truncations of the state file",
  "No test interrupts vis.",
  ["vis/state.cc", "vis/vis.cc"],
  [("state writing", "vis/state.cc SaveVisState"), ("state loading", "vis/state.cc LoadVisState"), ("save timing and clean-up", "vis/vis.cc LeafThread / CalcPortalVis / CleanVisState")],
  [".vis / .vi0 state files, final .bsp"])
p("C11", "Visibility rows are encoded losslessly and expanded to the right leaves",
  "Decoding the written visibility lump gives back, for every leaf (Quake, Half-Life, Hexen II) or cluster (Quake II), exactly the computed set; every leaf of a cluster points to that cluster's row, in bounds, and shared solid leaves to none. For Quake II every cluster's hearable set is exactly the union of the visible sets of the clusters it sees, and rows compressed by one routine and decompressed by the other are unchanged for every content and length.",
  ["inputs"], "all rows of bits of all lengths, all cluster/leaf mappings",
  "Tests decode a few rows of round sizes; trailing partial words, runs over 255 and detail clusters matter.",
  ["vis/vis.cc", "vis/soundpvs.cc", "common/bsputils.cc", "include/common/bspfile.hh"],
  [("compression", "common/bsputils.cc CompressRow / DecompressRow"), ("assembly", "vis/vis.cc ClusterFlow"), ("PHS", "vis/soundpvs.cc CalcPHS")],
  ["visibility lump"])
p("C12", "Settings keep the strongest source and the last value, and parse exactly",
  "For every sequence of settings from defaults, game target, .map text and command line, each setting ends with the value from the strongest source that set it (later wins among equals; a set of strings accumulates), reports whether and by whom it was changed, and returns to its default on reset; copying a container copies value and source of every setting both know. Every accepted spelling gives the documented value (flags with and without 0 / 1 / -1, 'no' forms, leading underscores and hyphens, omitted arguments, enumeration labels in any case, vectors, angles, colours), out-of-range numbers are clamped, malformed values, unknown options and stray hyphens are refused without touching the setting, what follows the options is returned untouched, and the help lists every setting.",
  ["histories", "inputs"], "all sequences of set / parse / reset / copy operations on every kind of setting",
  "Precedence is a property of histories of sets; tests cover single cases.",
  ["common/settings.cc", "include/common/settings.hh"],
  [("source precedence", "include/common/settings.hh change_source / set_value"), ("parsing", "common/settings.cc parse methods")],
  ["value(), source, return values"])
p("C13", "Entity text and tokens survive parsing and writing",
  "Tokenising any text, with any mix of the parse flags (same line, comment, optional, peek), yields exactly the tokens, line numbers and errors its grammar defines (quotes, escapes, // and ; comments, punctuation, end of text, and state saved and restored included), and never looks beyond the end of the text. Parsing an entity list yields the keys and values in their order with a repeated key keeping its place and taking the last value; keys are compared exactly and lose trailing blanks; writing the list and parsing that again gives the same list whenever its keys and values can be quoted. Malformed lists are reported as an error. An entity dictionary behaves, under any sequence of set, remove, rename, get, has and numeric look-ups, as an ordered map from exact keys to values.",
  ["inputs", "histories"], "all texts, all parser state sequences",
  "Tests parse a few literal strings.",
  ["common/parser.cc", "common/entdata.cc", "include/common/parser.hh", "include/common/entdata.h"],
  [("tokeniser", "common/parser.cc parser_t::parse_token"), ("entities", "common/entdata.cc EntData_Parse / EntData_Write, entdict_t")],
  ["tokens, entity lists"])
p("C14", "Files are found by the documented search order, identically in any archive",
  "After any sequence of adding directories, paks and wads, looking a name up returns it from the highest-priority place that holds a file of that name: the current directory (or the explicit path), then directories, then archives when loose files are preferred; archives, then directories, then the current directory otherwise; later-added places before earlier ones, a place added twice counting once. A path that leads through an archive reads (and registers) that archive, an absolute path is only taken literally, archive names match in any case. The bytes are those stored, whether loose or in an archive; entries that do not lie inside their archive give nothing, unreadable archives are refused, and neither disturbs other look-ups or reads out of bounds.",
  ["histories", "inputs"], "all sequences of added places and all lookups",
  "Priority depends on the history of additions; tests add one archive.",
  ["common/fs.cc", "include/common/fs.hh"],
  [("search", "common/fs.cc where / load"), ("archives", "common/fs.cc pak_archive / wad_archive / directory_archive")],
  ["where(), load()"])
p("C15", "Loading, converting and writing a BSP preserves it",
  "Loading any valid BSP file of any supported format and writing it back in the same format preserves every lump (including BSPX lumps and entity text); converting through the generic form to another format of the same game family preserves every field that both formats have, and a conversion whose target cannot hold a value is refused without damaging an existing file.",
  ["inputs", "configurations"], "all BSP contents and format pairs, boundary values included",
  "Tests round-trip a few small maps; limits of 16-bit fields and rarely used lumps are not reached.",
  ["common/bspfile.cc", "common/bspfile_generic.cc", "common/bspfile_q1.cc", "common/bspfile_q2.cc"],
  [("load / write", "common/bspfile.cc LoadBSPFile / WriteBSPFile"), ("conversion", "common/bspfile.cc ConvertBSPFormat")],
  ["file bytes"])
p("C16", "Portal files are read as written and malformed ones are refused",
  "Reading any portal file that qbsp can write gives back its clusters, leaf mapping and portals exactly, in each of the three dialects; a file that is truncated, has an unknown header, negative counts, an out-of-range leaf, too many or fewer than three points in a portal or a missing leaf mapping is refused with an error and never hangs, is partly used or read out of bounds, and vis refuses a portal file that does not match the leafs of its .bsp.",
  ["inputs"], "all portal files and all truncations and single-token corruptions",
  "Tests read well-formed files only.",
  ["common/prtfile.cc"], [("reader", "common/prtfile.cc LoadPrtFile"), ("writer", "common/prtfile.cc WritePortalfile / WriteAutoPortals")],
  ["parsed structure or error"])
p("C17", "Content and surface flags obey one algebra in every game",
  "For every game and every combination of contents: converting native contents to the internal form and back is the identity on valid values; combining the contents of overlapping brushes is commutative, associative and idempotent in effect with solid strongest; and the predicates (empty, solid, sky, liquid, detail, clip, opaque, sealing), the see-through rule and the portal face rule agree with each other, the see-through rule being symmetric and never letting sight through something opaque that is not detail; surface flags and texture names are classified (lit, emissive, subdivided, smoothed, contents of a face) by each game's documented rules.",
  ["inputs", "configurations"], "all flag combinations in all games",
  "The flag space is combinatorial; tests try a few named pairs.",
  ["common/bspfile.cc", "common/bspfile_common.cc", "include/common/bspfile_common.hh"],
  [("gamedef methods", "common/bspfile.cc gamedef_q1_like_t / gamedef_q2_t")],
  ["return values"])
p("C18", "Parallel loops visit every index once and progress output stays consistent",
  "A parallel loop over any range runs its body exactly once for every index and not at all for others, on any number of threads, and an exception in a body reaches the caller; concurrent progress and log calls never interleave inside a line, print no progress value twice or backwards, and finish with exactly one completion line.",
  ["schedules"], "all interleavings of any number of callers",
  "One interleaving per test run.",
  ["common/log.cc", "common/parallel.cc", "include/common/parallel.hh", "include/common/log.hh"],
  [("progress lock", "common/log.cc percent"), ("parallel_for", "include/common/parallel.hh")],
  ["calls, output"])
p("C19", "bsputil changes what it was asked to change and nothing else",
  "Every bsputil command on any BSP (replace or extract entities, replace or extract textures, convert, insert, remove or extract BSPX lumps, set a face's texinfo, scale), alone or several on a command line, has exactly its documented effect: every other lump and file stays as it was, extracted data equals what the file holds, re-inserting what was extracted changes nothing, converting between formats of a family and back gives the same file, a missing argument file or lump changes nothing and fails; after --scale every tree, brush side, face, texture, box and entity says of the scaled point what it said of the point; --findleaf and --findfaces name the leaf and the faces at the point.",
  ["inputs", "programs"], "all BSP files and all sequences of commands",
  "bsputil has almost no tests.",
  ["bsputil/bsputil.cc", "bsputil/main.cc"], [("operations", "bsputil/bsputil.cc bsputil_main")], ["file bytes"])
p("C20", "Decompiling a BSP gives a map of the same world",
  "Decompiling any compiled BSP (with or without brush data, any format) gives a map whose brushes fill exactly the solid, liquid and sky space of the BSP's trees, point by point, keep the visible faces' textures and preserve all entities; compiling that map again gives the same contents everywhere.",
  ["inputs"], "all compiled worlds and decompile options",
  "Tests check only that decompilation runs on a few maps.",
  ["common/decompile.cc", "bsputil/bsputil.cc"], [("decompile", "common/decompile.cc DecompileBSP")], ["the decompiled .map"])
p("C21", "Map format conversions preserve geometry, textures and entities",
  "Converting a map between the Quake, Valve, Quake II and brush-primitive dialects keeps every entity, key, brush and plane, and every texture's name, flags and position on its surface whenever the target dialect can express it (Quake's cannot express shear: then the second coordinate is kept and the first made square to it); what a tool cannot write it refuses. Scripts see the map that was loaded, and what they hand back, and nothing else, is what is converted and written.",
  ["inputs", "configurations"], "all maps and dialect pairs",
  "Tests convert a few maps.",
  ["qbsp/map.cc", "common/mapfile.cc", "maputil/maputil.cc"], [("map file model", "common/mapfile.cc"), ("conversion", "qbsp/map.cc ConvertMapFile, common/mapfile.cc convert_to")], ["converted .map"])
p("C22", "Every lit face owns a lightmap of the right size, style and place",
  "After light every lightmapped face refers to one block of the lighting lump per style it uses, of exactly the size its texture extents give at its scale (plain, LMSHIFT, or decoupled with -world_units_per_luxel), in bounds, not overlapping another face's block and with nothing but alignment between blocks; style slots are filled in order, without repeats, at most as many as allowed, each used style belonging to a light that faces the surface; faces without lightmaps have none, grey and coloured lightmaps agree (grey is the greatest component), vanilla lightmaps beside LMSHIFT or decoupled ones are made from the same light, and every BSPX companion has the matching layout.",
  ["inputs", "configurations"], "all worlds, light arrangements and light options",
  "Tests check a few samples of a few maps.",
  ["light/write.cc", "light/light.cc", "light/ltface.cc"], [("extents", "light/ltface.cc, common/bsputils.cc"), ("lump building", "light/write.cc SaveLightmapSurfaces")], ["lighting lump, faces, .lit, BSPX"])
p("C23", "Direct light reaches exactly the surfaces it can see, by the documented formula",
  "With bounce and ambient terms off, a lightmap sample one unit in front of its face receives light from a point light if nothing opaque lies between them, the surface faces the light and it is within range, and otherwise receives none, with the brightness the light's attenuation and angle formula gives (to within rounding); light from several sources of one style adds up, styles are kept apart, a face with more styles than slots keeps bright ones, and neither the number of threads nor visibility data nor writing only the .lit file changes any of it. Samples beyond a face's edge or in solid take their neighbours' light, and -visapprox rays, an approximation by sampling, is left out.",
  ["inputs", "configurations"], "all worlds, lights and samples",
  "Tests check few samples.",
  ["light/ltface.cc", "light/trace_embree.cc", "light/entities.cc", "light/write.cc"], [("point lights", "light/ltface.cc LightFace_Entity / GetLightValue"), ("tracing", "light/trace_embree.cc"), ("output", "light/write.cc WriteSingleLightmap")], ["lightmap samples"])
p("C24", "The light grid stores a sample for every point of its lattice, faithfully",
  "The light-grid lump, decoded, gives for every lattice point inside the world the stored styles and colours, every point of the declared bounds is found in exactly one leaf or marked missing, and points in solid, with no room within two units, are occluded.",
  ["inputs"], "all worlds and grid spacings",
  "Tests look up a point or two.",
  ["light/lightgrid.cc"], [("octree", "light/lightgrid.cc")], ["LIGHTGRID_OCTREE lump"])
p("C25", "Quake II collision brushes, leaf brush lists and areas match the world",
  "For Quake II maps every brush in the brush lump has the box, contents and side textures of a brush of the map (an areaportal's textures aside); each leaf has the contents of its points (solid where the map was filled); at every point that was not filled, the brushes its leaf lists that contain the point have together the contents of the world there, so that collision against the leaf meets what is there, and no leaf lists a brush that does not reach into it. In a map without leak the area numbers separate the world exactly along areaportals: two open points have the same area if and only if they are connected without passing an areaportal, no open point has area 0, a point inside an areaportal (with or without liquid) has one of its areas, each areaportal is listed from both of its areas with its number, which is also the 'style' key of its entity; solid leafs have area 0. A map that leaks has one area and no areaportals.",
  ["inputs", "configurations"], "all Quake II worlds with areaportals, detail and liquids",
  "Tests look at one or two maps.",
  ["qbsp/qbsp.cc", "qbsp/writebsp.cc", "qbsp/portals.cc", "qbsp/tree.cc", "qbsp/brush.cc", "qbsp/map.cc"], [("brush export", "qbsp/qbsp.cc ExportBrushList"), ("leaf lists of merged leafs", "qbsp/tree.cc ConvertNodeToLeaf"), ("areas", "qbsp/portals.cc EmitAreaPortals / FloodAreas"), ("areaportal entities", "qbsp/map.cc ProcessAreaPortal")], ["brushes, brushsides, leafbrushes, areas, areaportals lumps; area of each leaf; style keys"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
