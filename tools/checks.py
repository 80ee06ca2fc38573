"""What decides each property: drivers per flavour, required observations, texts for the evidence."""
CHECKS = {}
def check(pid, runs, rule, require=(), assumptions=(), level="exploration", **kw):
    CHECKS[pid] = dict(runs=runs, rule=rule, require=list(require), assumptions=list(assumptions), level=level, **kw)

def asan(driver, *args):
    return dict(flavour="asan", driver=driver, args=list(args))
def tsan(driver, *args):
    return dict(flavour="tsan", driver=driver, args=list(args))

check("C03", [asan("store")],
      rule="random histories (add, tile query, cancelled query, text search, hasData, erase, flush, reopen) over 1-29 tiles run on both store kinds and on a map model; distinct = distinct non-empty tile contents compared",
      require=["query", "save", "erase", "reopen", "partial_read", "text_search", "big_saved"],
      assumptions=["one client at a time (concurrency is C02)", "elements given to the store have tags sorted by key id, as every importer produces them"])

check("C05", [asan("strtab"), dict(flavour="tsan", driver="strtab", args=["--suite", "threads"])],
      rule="random histories of getId/getString/reopen (incl. never-given ids, >1024 strings, binary strings), all hash-collision pairs among 400000 strings, and 2-6 threads interning overlapping sequences; distinct = distinct final tables",
      require=["getId_repeated", "getString", "getString_unknown", "reopen", "collision_pairs", "concurrent_ops"],
      assumptions=["strings contain no NUL byte (the interface is C strings)"])

check("C04", [asan("textsearch")],
      rule="random element sets over up to 27 neighbouring tiles at 1-3 levels, random and/or/not phrases with every separator, random boxes and level ranges, before and after erase, flush and reopen; distinct = queries with at least one match",
      require=["query", "query_with_matches", "query_and_or", "query_not", "erase", "flush", "reopen"],
      assumptions=["a query without AND and OR terms selects nothing", "words are separated by the punctuation the index declares; '-', '|', '+' and '=' are part of words"])

check("C08", [asan("osm", "--suite", "fidelity,json")],
      rule="random extracts (nodes, open/closed ways, nested relations, odd tag text, missing references) encoded as XML and twice as PBF (dense/plain nodes, raw/zlib blobs, granularity, offsets, block and group splits), and random GeoJSON-like files; every delivered element is compared with the model; distinct = distinct input files",
      require=["elements_compared_xml", "elements_compared_pbf", "elements_compared_json", "pbf_dense", "pbf_plain", "pbf_raw", "pbf_zlib", "ways_with_missing_nodes", "missing_members", "areas"],
      assumptions=["element ids are unique per kind within a file", "untagged primitives may be delivered or not", "GeoJSON rings are oriented as the exporters of that format do (outer clockwise); the closing vertex of a GeoJSON ring may be kept; polylines of GeoJSON are compared up to direction"])

check("C09", [asan("osm", "--suite", "rings,graph")],
      rule="multipolygons generated from known rings (holes, islands, several outers), cut into 1-6 ways per ring, reversed and shuffled, with missing or unclosed members and referring relations; and arbitrary graphs of plain and building relations with cycles and equal ids across kinds; distinct = distinct ring sets and member lists compared",
      require=["rings_compared", "segmented_rings", "missing_member", "unclosed", "parents_checked", "cyclic_references", "graph_relations_checked"],
      assumptions=["member roles of multipolygons are outer/inner as the rings are; rings do not touch", "a reference to a relation from which the parent can be reached again may be dropped"])

check("C11", [asan("tile", "--suite", "default,custom")],
      rule="random scenes (points, lines, simple and degenerate areas, multipolygons) drawn by the shipped style or by random stylesheets reaching every builder, flat and grid elevation, levels 1-19, pooled buffers used before; every mesh delivered is examined; distinct = distinct scenes with meshes",
      require=["mesh:building", "mesh:terrain", "mesh:barrier", "mesh:forest", "mesh:tree", "mesh:trees", "mesh:lamp", "grid_elevation", "triangles"],
      assumptions=["stylesheets declare what the builders need"])

check("C12", [asan("tile", "--suite", "terrain,terrainKnown")],
      rule="1-7 random regions (areas, ways, multipolygons, some covering the tile or reaching out of it) in four layers of random priority and unnamed layers, random grid cell and triangle sizes, offsets, noise, flat and grid elevation; area sum, position, exact single cover of 80 sample points by the surface of the highest layer and the height of every vertex; distinct = distinct scenes",
      require=["samples_background", "samples_claimed", "samples_contested", "border_heights", "heights", "grid_tiles", "region:relation", "region:way", "region:area"],
      assumptions=["styles of terrain ask for clipping (clip: true)", "a tile without elements builds no terrain", "layers have distinct priorities; regions of unnamed layers have no order among each other", "coordinates are on an integer grid of 1e-7 degree, polygons below 1000 square units are dropped"])

check("C06", [asan("tiles", "--suite", "address,store")],
      rule="tile math at 60000 random, corner, date line and polar coordinates of levels 1-19 against mercator formulas in extended precision; 1-10 random elements (nodes, ways, areas, multipolygons, nested relations of 0.02-6 tiles) stored by level range, box or tile under eight kinds of clip/skip/level rules and looked up in every tile around, both store kinds; distinct = tile codes, and element-tile pairs found",
      require=["boxes", "coordinates", "expected", "not_expected", "whole", "disk"],
      assumptions=["an element touching a tile only within 5e-7 degree may be on either side", "a restriction to a box selects elements whose box reaches into it", "a clipped relation belongs to the tiles its members reach into", "elements lie in the mercator range and do not cross the date line"])

check("C07", [asan("tiles", "--suite", "clip")],
      rule="random elements as in C06 clipped at three levels; per tile the signed area, the length, the nodes and 12 sample points (winding) of the pieces against the original, position, tags and kind; distinct = distinct pieces",
      require=["pieces_way", "pieces_area", "pieces_relation", "pieces_node", "split", "samples_inside", "samples_outside"],
      assumptions=["areas are simple rings", "an element cut into several pieces in one tile is a relation with its id whose members carry its tags", "parts of ways along the border of a tile may be in either tile"])

check("C13", [asan("engine", "--suite", "cacheHistory,cacheAdd,cacheBig")],
      rule="random histories of loads, cancelled loads, loads ended by the death of the process in a callback, failing loads, pairs of concurrent loads, restarts and removed cache files, over 1-3 tiles, 1-5 stylesheets (others, or the same with other grids, layers, textures, L-systems or values that read the same when joined) and flat/grid elevation with the cache on; every delivery is compared with an engine without cache; elements added to a cached tile; and tiles with meshes, lines, tags and objects of many thousands; distinct = distinct histories",
      require=["loads", "repeated_loads", "cancelled", "restart", "process_ended", "cleared", "concurrent_pairs", "failing_loads", "several_elevations", "style_other_lsystem", "style_other_textures", "added_after_load", "big_loads", "big_meshes", "long_lines"],
      assumptions=["coordinates are compared in single precision", "L-systems without alternative productions", "elevation data of a tile does not change"])

check("C14", [asan("engine", "--suite", "repeat,stores,composition")],
      rule="random tiles loaded again in the same engine, after other tiles, from disk, after reopening and in a fresh engine; the same elements spread over 1-4 stores of both kinds with overlaps, ids shared by nodes, ways and relations; and tiles of several elements against the tiles of each element alone; complete deliveries are compared; distinct = distinct scenes",
      require=["comparisons", "compared_nonempty_same_engine", "compared_nonempty_disk", "compared_nonempty_reopened", "compared_nonempty_fresh_engine", "multi_store_loads", "elements_in_several_stores", "compositions", "composed_parts"],
      assumptions=["L-systems without alternative productions", "a relation of which clipping leaves one member is that member, so its id is not given to another element in the same tile"])

check("C15", [asan("engine", "--suite", "cancelLoad,cancelSearch,cancelImport")],
      rule="tile loads and text searches cancelled before the call and in the k-th callback for random k (in-memory and on disk, several stores, cache on and off), imports of a tile or of a level range cancelled by another thread after a random part of their time; nothing may be delivered after the cancel, what was delivered must be part of the full result, the tile is empty or complete, other tiles and later operations are as without it; distinct = distinct cancelled operations",
      require=["cancelled_loads", "cancelled_in_the_middle", "loads_after_cancel", "cancelled_before", "cancelled_searches", "searches_cancelled_in_the_middle", "cancelled_imports", "rolled_back", "imports_after_cancel", "partial_ranges"],
      assumptions=["cancelling in a callback: nothing more is delivered; cancelling from another thread: the delivery in progress may end", "a cancelled tile import may remove what the tile held before"])

check("C19", [asan("elev")],
      rule="random sample grids (2x2-40x40, any sign, per-tile files) and SRTM1/SRTM3 cells of all hemispheres; heights asked through the C API and the providers in random order at random places, samples, borders and places without data, against interpolation in extended precision; files that appear later; distinct = distinct grids",
      require=["heights_compared", "between_different_samples", "below_zero", "without_data", "grid_api", "grid_provider", "srtm_api", "srtm_provider", "southern_cells", "western_cells", "late"],
      assumptions=["places on which two samples are equally near may have the value of either (within rounding)"])

check("C22", [asan("crash")],
      rule="random histories of store, flush, erase, reopen and query on 1-16 tiles of a persistent store (elements of up to 60 KB), ended by the death of the process at the k-th write, rename or removal (also in the middle of a large write) or by SIGKILL at a random moment, 1-3 deaths in a row on the same directory; and sessions of the C API which add elements and files, disconnect, connect and die; after each death everything is read, searched by a word of its own, new data is added and the directory is reopened; distinct = distinct surviving contents",
      require=["deaths", "must_elements", "words_searched", "new_elements", "client_sessions", "client_elements", "client_new"],
      assumptions=["the process dies, not the machine: what was handed to the operating system stays", "an element being stored at the moment of death may be returned without being found by its words"])

check("C20", [asan("errors")],
      rule="sessions of 7-31 calls of the C API of which about half cannot succeed (missing, truncated, damaged, garbage files of every format, unknown stores and formats, missing and malformed stylesheets, imports, L-systems, textures, odd arrays, unsupported levels, builders which fail, missing heights), calls without connection and with failed connections, and sessions whose disk refuses writes for a while; every call is to report exactly one error or none, and everything delivered later is compared with a session without the failed calls; distinct = distinct deliveries",
      require=["errors_reported", "good_calls", "compared", "unconnected_calls", "failed_connects", "connected_after", "disk_additions", "disk_sure", "disk_words", "loads_after"],
      assumptions=["an addition which fails because of the disk may leave whole elements", "damaged files may be accepted as long as a session without them would not differ in what later calls report"])

check("C16", [asan("style", "--suite", "cascade,tiles")],
      rule="random sheets of 1-40 rules (kinds, canvas, element ids, level ranges, 1-4 selectors of 1-4 conditions with every operator, nested imports, comments, free formatting) and elements whose tags satisfy some rule up to small changes, asked through the style provider in random orders and by storing and loading tiles through the C API; oracle: a direct evaluation of the rules; distinct = distinct answers",
      require=["sheets", "rules", "imports", "queries", "styled", "cascaded", "canvases", "other_sheets", "tile_queries", "tile_styled"],
      assumptions=["numbers are compared only where both sides are numbers", "all builders of applying rules are used, as documented in the code", "texts are ASCII, the notation accepts nothing else"])

check("C17", [asan("style", "--suite", "values,gradients,atlas")],
      rule="random declarations (numbers, percentages, metres, strings, string expressions, sums of products with tag references), gradients of 1-6 stops in every colour notation evaluated at, between, before and after the stops, texture atlases with several regions per name; oracle: values computed while the text is generated; distinct = distinct texts",
      require=["numbers", "percentages", "metres", "strings", "string_expressions", "expressions", "mixed_expressions", "stops", "inside", "outside", "colours", "regions", "unknown_textures"],
      assumptions=["colours between stops may differ by two units of rounding"])

check("C18", [asan("lsys")],
      rule="random grammars (all symbols, words, weights, comments, empty lines) rewritten by a reference and traced through the turtle interface, and broken texts; weighted choices of 4000 rewritings against their weights; random walks of up to 3500 commands against an independent model of position, frame, size and style; trees drawn through the C API where every triangle has to belong to a cylinder, cone or sphere of the walk in the style selected there; distinct = distinct words, outcomes, walks and meshes",
      require=["grammars", "commands", "rewritings", "broken_texts", "choices", "weight_0", "states", "unbalanced", "cylinders", "cones", "spheres", "styles_switched"],
      assumptions=["the number of generations is small enough for the word to fit in memory", "weighted choices are judged at 7 standard deviations"])

check("C10", [asan("shape", "--suite", "records,independence,incomplete,tiles")],
      rule="random shapefiles written byte by byte (points, polylines, polygons with 1-6 parts, with measures and heights, null shapes, 0-300 records, 1-12 text, number and flag columns) read by the shapefile reader and through the C API, against the records written; the same records in another order, in several files and with added records; files of which the index, a record or the table is cut; loaded tiles; distinct = distinct files",
      require=["elements", "multipart", "rings", "reordered_files", "incomplete_reported", "api_elements", "column:N", "column:C"],
      assumptions=["rings follow the shapefile specification: outer clockwise, holes counterclockwise", "null shapes and multipoints are not delivered", "a null value has no tag", "numbers are compared as numbers"])

check("C01", [asan("hostile", "--suite", "pbf,xml,json,shape,styles,values,elevation,arguments,stores")],
      rule="generated files of every format damaged by structure (re-encoded protobuf messages with hostile numbers, swapped and deleted fields, truncation, cycles, nesting), stylesheets, atlases and L-systems built from hostile values, elements with hostile tag values, elevation files, arguments of every entry point and the files of a persistent store; every call has to return in time, may only report errors, and the library has to store and deliver a valid element afterwards; ASan, UBSan (with float-cast-overflow, for the library itself) and exceptions leaving the C interface are watched; distinct = distinct inputs",
      require=["pbf_files", "xml_files", "json_files", "shape_files", "sheets", "lsystems", "atlases", "valued_elements", "grid_files", "srtm_files", "damaged_store_files", "hostile_reported", "hostile_accepted", "alive_checked"],
      assumptions=["third-party code in core/lib is judged by address sanitizer only", "elements or boxes over a large part of the world at detailed levels, relations whose nesting multiplies, L-systems of very many generations and tiny steps ask for work, they do not hang", "search bitmaps of a store are only truncated", "pointers and array lengths given to the entry points are right"])

check("C23", [asan("solid")],
      rule="random buildings (rectangles, convex, concave and nearly degenerate outlines, multipolygons with holes and several outers, either hemisphere, flat and grid elevation) drawn with every facade and roof type; facades: each edge of the outline covered exactly once over the declared height with outward orientation; roofs: exact cover of the outline, elevation, shape of each type; floors, domes, spheres, cylinders, icospheres closed and in place; walls of barriers along the line with declared width and height; trees, lamps and their copies: one copy per point or per step, each an exact translate at the elevation of its place; distinct = distinct meshes",
      require=["buildings", "facade_edges", "flat_roofs", "floors", "closed_boxes", "roof:pyramidal", "roof:mansard", "roof:skillion", "roof:round", "domes", "cylinders", "spheres", "skillion_rectangles", "with_hole", "walls", "copies:0", "copies:1", "copies:2", "copies:3", "copied_on_grid"],
      assumptions=["round roofs are judged where the footprint is a rectangle", "pyramidal and skillion roofs are judged for footprints without holes", "radius of domes, spheres and cylinders follows from the box of the footprint; a semi-sphere dips below its base", "the width of a wall is to each side of its line"])

check("C24", [dict(flavour="script", driver="managed.py")],
      rule="the library of the csproj compiled by mcs and run under mono with the native library: coordinates of all levels against mercator formulas, boxes of 1-9 x 1-9 tiles, projections against haversine; random histories on range trees against a list; zip archives written by zlib (all levels, strategies, windows, stored, flushed) and damaged ones; stores fed by stand-in servers (OSM XML by box, GeoJSON by tile, encoded polylines, SRTM archives) that answer at once or from other threads, 1-3 subscribers, histories of single and simultaneous tile requests; meshes of buildings in several projections; elements and lines of 2-130 points added by the editor; geocoding answers in several cultures and spellings of JSON; addresses among stored elements; distinct = distinct tile codes, query results, archives, tile contents, meshes",
      require=["coordinates", "boxes", "projections", "range_queries_with_result", "bounds", "unzipped", "damaged_refused", "elements", "grid_points", "searches", "srtm_samples", "srtm_south_or_west", "native_tiles", "geocoded", "comma_culture", "geocoded_in_box", "meshes", "addresses", "added_lines", "cancelled_tiles", "requests_at_once", "persistent_store", "memory_store"],
      assumptions=["servers answer each request once and correctly", "tiles lie within one SRTM cell", "a range is well formed and range queries are made after the tree was rebuilt", "the distance of two coordinates is accurate to 0.6%"])

check("C25", [dict(flavour="script", driver="managed.py", args=["--suite", "anim"])],
      rule="random animations (all time interpolators, durations 0-4 s, looped or not) driven frame by frame with regular, irregular, long and empty frames, stopped and started at random; composites nested up to three deep; histories of switching, cancelling, starting and updating an animator; paths of 2, 3 and 3n+1 points against de Casteljau; distinct = distinct runs, histories and paths",
      require=["frames", "targets_reached", "loops", "group_frames", "groups_finished", "groups_stopped", "animator_frames", "switches", "path_points", "path_directions"],
      assumptions=["a spline has 3 or 3n+1 points", "rotations, which need the engine's native code, are not driven"])

check("C02", [tsan("threads")],
      rule="2-5 threads on one instance doing random sequences of tile loads, text searches, height queries, data tests, additions of elements and imports of files, over 1-2 stores of both kinds, 1-2 stylesheets (registered before or by the loads), flat, grid and SRTM heights, mesh cache on and off, reopened stores; ThreadSanitizer watches every access, and every delivery is compared with the same operation done alone in another instance; distinct = distinct overlaps of operations",
      require=["op:load", "op:text", "op:height", "op:has", "op:add", "op:file", "op:grown", "compared", "overlapping_pairs", "seen_while_growing", "reopened"],
      assumptions=["stores are registered before the threads start", "a tile being extended delivers a part of the final content that contains what it held before", "L-systems without alternative productions", "the cancellation flag, which belongs to the caller, is not written while an operation runs"])
