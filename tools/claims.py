CLAIMED["C03"] = ("checks/c03.py", "Leak.tla: TLC floods every generated world and decides leak report, files and trail that qbsp must produce",
   "every entity and opening of each generated box world; the worlds are a seeded random sample")
CLAIMED["C04"] = ("checks/c04.py", "Faces.tla: TLC derives every visible boundary of each world and compares faces, sides, textures and leaf lists with the BSP qbsp wrote",
   "every boundary rectangle of each generated box world; the worlds and option mixes are a seeded random sample")
HOOKS = ["e28d2629b352d7d2d99ecb92eec11eea39667b12"]
CLAIMED["C08"] = ("checks/vis.py C08", "PortalWorld.tla / VisBits.tla: TLC decides which pairs of clusters see each other along lattice lines and which are connected, and compares the rows vis wrote",
   "all lattice sight lines between the clusters of each generated world, at every test level, -fast, -visdist and thread count; the worlds are a seeded random sample")
CLAIMED["C09"] = ("checks/c09.py", "VisSched.tla: worker/portal state machine model-checked exhaustively (VisSchedMC) and every event trace recorded from vis replayed against it (VisTrace)",
   "all interleavings of the model in its bounds; for the code, the recorded schedules (delays injected) of generated worlds, plus ThreadSanitizer runs")
CLAIMED["C10"] = ("checks/c10.py", "VisFiles.tla: TLC explores crash and resume histories over vis's file operations; each is replayed into the real vis by a crash-injecting shim, and the results judged by PortalWorld.tla",
   "every crash point between vis's file-system calls on the generated worlds, plus truncations of the state file")
CLAIMED["C11"] = ("checks/vis.py C11", "RowCodec.tla defines the run-length code; TLC decodes the rows of the lump and of the real compress/decompress routines and derives the PHS",
   "all rows up to a bounded length exhaustively and longer boundary rows; visibility lumps of generated worlds")
CLAIMED["C16"] = ("checks/c16.py", "PrtFile.tla: TLC generates / parses token sequences of the three dialects and decides accept or refuse and the parsed structure; compared with LoadPrtFile and vis",
   "bounded families of portal files with every truncation and single-token corruption of each")
CLAIMED["C13"] = ("checks/c13.py", "Tokens.tla / EntText.tla: TLC runs the tokeniser, the entity list grammar and the dictionary as state machines over each text and history and compares every step with parser_t, EntData_Parse/Write and entdict_t",
   "all short texts over an eight-letter alphabet (thorough), seeded random longer texts, entity lists and operation histories; under AddressSanitizer")
CLAIMED["C12"] = ("checks/c12.py", "Settings.tla: TLC runs two containers of settings as a state machine through each history (direct sets, map text, command lines, resets, copies, help) and compares values, sources and answers after every operation with the real containers",
   "seeded random containers over all kinds of settings and random operation histories")
CLAIMED["C14"] = ("checks/c14.py", "FileSearch.tla: TLC runs the search path as a state machine through each history, reading the paks and wads from their bytes, and compares every place, look-up and load with the real fs layer",
   "seeded random directory trees, archives (a quarter of them damaged) and histories; under AddressSanitizer")
CLAIMED["C15"] = ("checks/c15.py", "BspFile.tla: TLC takes each file apart, converts it through the generic form to each target and derives every lump, or the refusal, that the real LoadBSPFile/ConvertBSPFormat/WriteBSPFile must give",
   "a boundary-value file for every narrowing field and format pair, and seeded random files of all formats and conversion chains; under AddressSanitizer")
CLAIMED["C17"] = ("checks/c17.py", "Contents.tla: TLC proves the laws of the algebra over everything brushes can carry (ContentsMC) and compares every answer of the real gamedefs with the model (ContentsTrace)",
   "laws: exhaustive over the mixtures of two brushes and triples; code: all visible-contents combinations and seeded random flag sets, pairs and triples in all four games")
CLAIMED["C18"] = ("checks/c18.py", "Progress.tla: TLC explores every interleaving of workers, stragglers and exceptions in the parallel loops (ProgressMC, safety and completion) and validates recorded histories of held and waiting calls, loops, concurrent prints and statistics of the real code (ProgressTrace)",
   "model: all interleavings of up to three workers and five indices; code: seeded random call histories with chosen overlaps, loops over five kinds of range on 1 to 8 threads with exceptions, prints from up to 8 threads, under ThreadSanitizer too")
CLAIMED["C21"] = ("checks/c21.py", "MapFile.tla: TLC proves what the dialects can express over all small gradients (MapFileMC) and runs each chain of maputil operations, scripts and qbsp -convert runs as a state machine, comparing every entity, key, face, plane, name, info and texture place with the maps the real tools wrote (MapFileTrace)",
   "laws: exhaustive over small gradients on 14 planes and all operation sequences to depth 3 (quick) or 4; code: seeded random maps in all four dialects with chains of up to twelve operations")
CLAIMED["C20"] = ("checks/c20.py", "Decompile.tla: TLC walks every small tree (DecompileMC: at every moment each point is in exactly one piece waiting, brush made or empty leaf) and runs the specified walk on the trees of real BSPs, comparing the boxes, contents, textures, keys and origins of the map the real decompiler wrote, and the tree the real compiler makes of that map, in every cell (DecompileTrace)",
   "laws: exhaustive over trees of depth 2 (quick) or 3 on four or two planes; code: seeded random synthetic trees in all seven Quake-family formats under integer affine maps, and compiled worlds of five games in all four decompile modes and every clip hull")
CLAIMED["C24"] = ("checks/c24.py", "LightGrid.tla: TLC walks the octree of the decoded lump for every lattice point and compares it with the light that Light.tla (sight through the world's faces, attenuation, angle, styles) says can be there, or with solid",
   "seeded random lit worlds of six formats, grid spacings, hints and light options; lines of sight within 1/8 unit of an edge are left open")
CLAIMED["C22"] = ("checks/c22.py C22", "Lightmap.tla: TLC takes every face of the lit BSP and decides from its texture vectors and corners which blocks of the lighting lump, LMSHIFT/LMOFFSET/LMSTYLE and DECOUPLED_LM lumps it must own, and judges their slots, places, sizes and colours",
   "seeded random lit worlds of seven formats and light options (scales, LMSHIFT, decoupled, novanilla, face styles, oversampling, .lit, BSPX)")
CLAIMED["C23"] = ("checks/c22.py C23", "Lightmap.tla with Light.tla: TLC computes for the elements of each block the place one unit in front of the face, the lights it can see through the world's faces and the brightness they must add up to, per style, and compares it with the stored bytes",
   "seeded random lit worlds without bounce or ambient light; lines of sight within 1/8 unit of an edge are left open; a second run with other threads, visibility culling or -litonly must agree")
CLAIMED["C07"] = ("checks/c07.py", "Determ.tla: TLC replays histories of real runs of qbsp, vis, light and bsputil in changing circumstances against a disk on which every result is a function of inputs and options and nothing else changes",
   "seeded random maps, formats and options, three runs of each chain with other threads, delays, places, leftovers and memory contents; not every schedule is forced")
CLAIMED["C06"] = ("checks/c06.py", "BspValid.tla: TLC reads the lumps of every written BSP, walks its trees level by level and judges every reference, run, loop, plane, box and model",
   "seeded random maps of seven formats and compiler options, after qbsp, vis, light and bsputil; planarity and convexity of faces only for axial planes")
CLAIMED["C19"] = ("checks/c19.py", "BspEdit.tla: TLC replays histories of bsputil command lines on a directory against the effect each command has on the lumps it names; BspScale.tla: scaled files and the answers to --findleaf and --findfaces are judged point by point on the trees, faces, textures and boxes",
   "seeded random files of seven formats and command lines of up to three commands; worlds of axial planes; Quake II has no textures to replace")
CLAIMED["C05"] = ("checks/c05.py", "Portals.tla on VoxelWorld.tla: TLC fills each world and judges every wall between two cells of the arrangement: covered by no portal, one, with the right clusters and winding, and the numbering of leafs and clusters",
   "seeded random box worlds of Quake, Hexen II, Half-Life and Quake II formats and options; walls between overlapping liquids are only required not to be covered twice")
CLAIMED["C25"] = ("checks/c25.py", "Areas.tla on VoxelWorld.tla and Contents.tla: TLC fills each Quake II world and judges, cell by cell, the contents of its leaf, the brushes the leaf lists, and whether areas are exactly the parts of the open space that areaportals leave connected",
   "seeded random box worlds with walls, areaportals in their holes, detail, liquids and brush models, of both Quake II formats and compiler options; areaportals that touch three areas or lie against detail are only required to be in range")
