#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept readable here; run to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = list(observe)
    d["anchors"]["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append(d)

p("C01", "No input makes the library touch invalid memory, hit UB or die",
  "Whatever bytes are given as map data (OSM XML, JSON, PBF, shapefile), stylesheet, L-system or texture description, elevation file, or as elements and tiles to store, search and build, the library never reads or writes memory it does not own, never executes undefined behaviour, never terminates or hangs the process. Input that cannot be processed is reported through the error callback (C API) or as an exception (internal API), and the library can still be used afterwards.",
  ["inputs", "programs"], "all byte strings for every accepted file format, all element geometries/tags, all tiles and LODs",
  "Tests feed a handful of well formed assets and run without sanitizers; an out of bounds read or a null dereference on a missing node is never reached or never seen.",
  ["core/src/formats", "core/src/mapcss", "core/src/lsys", "core/src/builders", "core/src/heightmap", "core/shared"],
  [("bounds checks of the parsers", "core/src/formats/osm/pbf/OsmPbfParser.hpp, core/src/formats/shape/ShapeParser.hpp"),
   ("exceptions turned into error callbacks", "core/shared/Application.hpp safeExecute")],
  observe=["sanitizer report, signal or abort of the worker process", "error callback of the C API"])

p("C02", "Concurrent use of one library instance is race free and gives sequential results",
  "Building tiles, querying elevation, searching, importing files and adding elements from several threads on one initialised instance involves no data race and no deadlock. Every concurrent operation delivers exactly the meshes, elements and values that the same operation delivers when it runs alone.",
  ["schedules", "inputs"], "all interleavings of tile loads, searches, elevation queries and data additions from several threads",
  "Existing tests are single threaded; a lost lock, an unsynchronised container or shared stream position shows only under particular interleavings.",
  ["core/shared", "core/src/index", "core/src/builders", "core/src/heightmap", "core/src/mapcss"],
  [("mutexes around shared stores and caches", "core/src/index/StringTable.cpp, core/src/mapcss/StyleProvider.cpp, core/src/utils/LruCache.hpp, core/src/builders/MeshPool.hpp, core/src/builders/MeshCache.cpp"),
   ("mesh objects owned by one tile build at a time", "core/src/builders/MeshPool.hpp")],
  observe=["ThreadSanitizer reports", "per operation callback log compared with a sequential run"])

p("C03", "Element stores behave like a plain map from tile to elements over any history",
  "After any sequence of adding elements, erasing tiles, flushing and (for the persistent store) closing and reopening, a tile query returns exactly the elements stored for that tile and not erased since: every element once, with its id, type, tags in the stored order of keys, coordinates in order and relation members intact. Whether a tile is reported to contain data agrees with the same model, and reading never changes what later operations return.",
  ["histories", "inputs"], "all histories of add/query/erase/flush/reopen over many tiles, LODs and element shapes, both store kinds",
  "Tests store one or two elements in one tile and read them back once; interplay of reads with appends, many tiles, cache eviction and reopening is not sampled.",
  ["core/src/index/PersistentElementStore.cpp", "core/src/index/InMemoryElementStore.cpp", "core/src/index/ElementStream.cpp", "core/src/index/ElementStore.cpp", "core/src/utils/LruCache.hpp"],
  [("index and data files appended per tile", "core/src/index/PersistentElementStore.cpp"), ("binary element codec", "core/src/index/ElementStream.cpp")],
  state=[("<lod>/<quadkey>.{dat,idf,bmp}", "elements, offsets and text index of a tile", "core/src/index/PersistentElementStore.cpp")],
  observe=["sequence of visitor callbacks per query", "hasData results"])

p("C04", "Text search returns exactly the elements matching the boolean query",
  "A text search with AND, OR and NOT terms, a bounding box and an LOD range delivers exactly the stored elements of the tiles intersecting the box at those LODs whose tag words contain all AND terms, at least one OR term (when there are any) and no NOT term, each once per tile it is stored in (a query without AND and OR terms selects nothing). Results are the same before and after flush, eviction and reopening, and for both store kinds.",
  ["inputs", "histories"], "all sets of stored elements, all queries, boxes, LOD ranges and store histories",
  "Tests query a few hand made elements; empty intermediate results, multi tile boxes, terms shared by tag keys and values and reopened indices are not covered.",
  ["core/src/index/BitmapIndex.cpp", "core/src/index/BitmapStream.hpp", "core/src/index/PersistentElementStore.cpp", "core/src/index/InMemoryElementStore.cpp", "core/shared/Search.hpp"],
  [("bitmap per term and tile", "core/src/index/BitmapIndex.cpp")],
  observe=["elements delivered by the search visitor / element callback"])

p("C05", "String interning is a stable, injective, persistent bijection",
  "Every distinct string gets one id, equal strings always get the same id, distinct strings never share one, and looking an id up returns exactly the string it was given for. This holds across any number of strings, hash collisions, concurrent callers and reopening of the same directory, and looking up an id that was never given out yields an empty string without affecting later ids.",
  ["inputs", "histories", "schedules"], "all string sequences incl. hash-colliding ones, all interleavings of callers, all reopen points",
  "Tests intern a few words; collisions, thousands of entries, reopening in mid-history and concurrency are not tested.",
  ["core/src/index/StringTable.cpp", "core/src/index/StringTable.hpp"],
  [("hash -> id multimap verified against the stored text", "core/src/index/StringTable.cpp"), ("mutex per call", "core/src/index/StringTable.cpp")],
  state=[("string.idx/string.dat", "hash and offset per id, text", "core/src/index/StringTable.cpp")],
  observe=["return values of getId/getString"])

p("C06", "An element is stored in exactly the tiles it belongs to",
  "Adding an element for an LOD range (optionally restricted to a bounding box or one tile) makes it available in a tile exactly when the style accepts it at that LOD and its extent reaches into that tile (its bounding box, or its actual geometry when the style asks for clipping); no such tile misses it and no other tile shows it. Tile addressing is consistent: tiles of one LOD partition the world, a coordinate lies inside the bounding box of the tile computed for it, the tiles enumerated for a box are exactly those intersecting it, and the textual tile code is a bijection.",
  ["inputs"], "all element geometries (nodes, ways, areas, relations) and positions relative to tile borders, LODs 1..16, all storage restrictions",
  "Tests place one or two elements in the middle of known tiles; crossings without vertices in a tile, borders, extreme LODs and coordinates near the poles or the date line are not sampled.",
  ["core/src/utils/GeoUtils.hpp", "core/src/index/ElementStore.cpp", "core/src/index/ElementGeometryClipper.cpp", "core/src/BoundingBox.hpp", "core/src/QuadKey.hpp"],
  [("tile enumeration over the element's box, then clipping", "core/src/index/ElementStore.cpp")],
  observe=["tile queries after an add", "GeoUtils results"])

p("C07", "Clipping conserves geometry across tiles",
  "The pieces of an element stored in the tiles of one LOD lie inside their tile, together have the area (areas, relations with holes) or the length (ways) of the original, and do not overlap between tiles. Each piece carries the id and tags of the element it comes from, and an element that lies entirely inside a tile is stored there unchanged.",
  ["inputs"], "all simple polygons, polylines and multipolygon relations, all LODs and tile alignments",
  "Tests clip a few rectangles against one tile; conservation over arbitrary shapes, concave splits, holes crossing borders is not checked.",
  ["core/src/index/ElementGeometryClipper.cpp", "core/src/index/ElementGeometryClipper.hpp", "core/src/math/PolyClip.hpp"],
  [("polygon clipping on an integer grid", "core/src/index/ElementGeometryClipper.cpp")],
  observe=["elements returned by tile queries"])

p("C08", "OSM import is faithful and identical for XML and PBF",
  "Importing OSM data yields exactly one element per tagged primitive of the file as the OSM data model defines it: nodes at their position, open ways as polylines, closed ways of at least three distinct points as areas in the library's orientation, with ids, tags (whatever their order or repetition across objects) and vertex order preserved. The same data encoded as XML or as PBF (plain or dense nodes, raw or compressed blobs, any granularity, offset and block split) yields the same elements, and references to objects absent from the extract are skipped without losing anything else; the GeoJSON-like format yields the features it lists.",
  ["inputs"], "all OSM extracts: numbers and kinds of primitives, tags, references, encodings",
  "Tests import a few files and check counts; encodings other than the one shipped, missing references and field by field fidelity are not checked.",
  ["core/src/formats/osm/OsmDataVisitor.cpp", "core/src/formats/osm/xml/OsmXmlParser.cpp", "core/src/formats/osm/pbf/OsmPbfParser.hpp", "core/src/formats/osm/json/OsmJsonParser.hpp", "core/src/formats/FormatTypes.hpp"],
  [("parser per format feeding one data visitor", "core/src/formats/osm/OsmDataVisitor.cpp")],
  observe=["elements handed to the store by the import"])

p("C09", "Relation import assembles rings completely, once, and terminates",
  "A multipolygon relation is turned into areas whose outer and inner rings are exactly the rings formed by its member ways, whatever their order, direction and segmentation, with outer rings counter-clockwise and holes clockwise in the library's convention and no ring lost or duplicated; a multipolygon whose rings cannot be closed contributes no made-up geometry. Other relations keep each present member once, whichever order objects are resolved in. Missing members, nested relations and cyclic references never prevent the import from finishing or the other elements from being delivered.",
  ["inputs"], "all ring segmentations, member orders, directions, nestings, relation graphs incl. cycles and missing members",
  "Tests cover a few hand made relations; permutations, nesting, cycles and missing members are not enumerated.",
  ["core/src/formats/osm/MultipolygonProcessor.cpp", "core/src/formats/osm/RelationProcessor.hpp", "core/src/formats/osm/BuildingProcessor.hpp", "core/src/formats/osm/OsmDataVisitor.cpp"],
  [("ring assembly and containment test", "core/src/formats/osm/MultipolygonProcessor.cpp"), ("recursive resolution of members", "core/src/formats/osm/OsmDataVisitor.cpp")],
  observe=["elements handed to the store by the import"])

p("C10", "Shapefile import delivers every supported record faithfully",
  "Importing an ESRI shapefile delivers each point, polyline and polygon record once with its coordinates (latitude and longitude not swapped) and all of its attribute columns as tags; multi-part records keep all their parts, with holes separated from outer rings. The result does not depend on the number, order or size of records or parts.",
  ["inputs"], "all shapefiles of the supported geometry types with any number of records, parts, vertices and attribute columns",
  "Tests import two small shapefiles and count elements.",
  ["core/src/formats/shape/ShapeParser.hpp", "core/src/formats/shape/ShapeDataVisitor.hpp"],
  [("record loop per shape type", "core/src/formats/shape/ShapeParser.hpp")],
  observe=["elements handed to the store by the import"])

p("C11", "Every delivered mesh is well formed",
  "Every mesh delivered while a tile is built consists of whole vertices and whole triangles: triangle indices refer to existing vertices, all coordinates, heights and texture coordinates are finite, there is one colour and one texture coordinate pair per vertex, the texture mapping table covers exactly the vertices of the mesh in order, and buffers a mesh is rendered with never contain data of another mesh. This holds for any elements, stylesheet, elevation model, LOD and tile.",
  ["inputs", "configurations"], "all tiles, LODs 1..16, elevation types, styles and element sets",
  "Tests count vertices of a few tiles; they never check the buffers of all meshes of arbitrary scenes.",
  ["core/src/builders", "core/src/math/Mesh.hpp", "core/shared/ExportLib.cpp", "core/shared/Callbacks.hpp"],
  [("mesh building and triangulation", "core/src/builders/MeshBuilder.cpp"), ("texture map entries", "core/src/utils/MeshUtils.hpp")],
  observe=["mesh callback"])

p("C12", "Terrain meshes cover the tile exactly once",
  "The terrain surfaces built for a tile lie inside it and together cover its area exactly, without gaps or overlaps, whatever water, area or road regions the map data define; each region is covered by the surface of the highest-priority style that claims it. Terrain heights at mesh vertices equal the elevation model's height at that place (plus the style's declared offsets), so that adjacent tiles meet at the same height.",
  ["inputs", "configurations"], "all sets of areas/ways/relations over a tile, styles, LODs and elevation models",
  "Tests build terrain for a few regions and check non-emptiness or a total area for one polygon.",
  ["core/src/builders/terrain", "core/src/math/PolyClip.hpp"],
  [("polygon difference/intersection per layer", "core/src/builders/terrain/TerraGenerator.cpp, core/src/builders/terrain/SurfaceGenerator.cpp"), ("grid splitting", "core/src/builders/terrain/LineGridSplitter.hpp")],
  observe=["mesh callback (terrain meshes)"])

p("C13", "Mesh caching is invisible to the client",
  "With mesh caching enabled, loading a tile delivers the same meshes and elements as without caching (coordinates in the single precision they are cached with), on the first and on every later load and after restart, for every stylesheet in use. A load that was cancelled, failed or interrupted, and a cache file that is incomplete or missing, never makes a later load deliver wrong or partial content, and different tiles, stylesheets or kinds of elevation data never see each other's cache.",
  ["histories", "crash_points", "configurations"], "all sequences of (tile, stylesheet, elevation, cancel point) loads with caching on, and truncation points of cache files",
  "Tests cache one mesh and read it back; cancellation, interruption, several styles and repeated loads are not covered.",
  ["core/src/builders/MeshCache.cpp", "core/src/builders/CacheBuilder.hpp", "core/src/index/MeshStream.cpp", "core/shared/Application.hpp"],
  [("write to cache while building, valid mark at the end", "core/src/builders/MeshCache.cpp")],
  state=[("cache/<style>/<lod>/<quadkey>.mesh", "cached stream of meshes and elements", "core/src/builders/MeshCache.cpp")],
  observe=["mesh and element callbacks"])

p("C14", "A tile load is deterministic and visits each stored element exactly once",
  "Loading a tile delivers, for each element of each registered store in that tile that a style rule matches, exactly what its builders produce, once, even if several stores hold the same element and whatever was loaded before. Repeating the load on the same data gives an identical result (apart from random choices an L-system with alternative productions asks for), and the result does not depend on whether data is held in memory or on disk.",
  ["inputs", "histories", "configurations"], "all element sets distributed over stores, all load sequences",
  "Tests load single tiles once; repetition, several stores and equality between store kinds are not compared.",
  ["core/src/builders/QuadKeyBuilder.cpp", "core/src/index/GeoStore.cpp", "core/src/utils/NoiseUtils.cpp", "core/shared/Application.hpp"],
  [("ids already built are remembered per tile load", "core/src/builders/QuadKeyBuilder.cpp")],
  observe=["mesh and element callbacks"])

p("C15", "Cancellation stops promptly and leaves no half-done state",
  "Once the client cancels a tile load, search or import, no further element or mesh is delivered beyond the one in progress, and the call returns. A cancelled import restricted to a tile leaves nothing of the imported data in that tile, a cancelled import of a level range leaves only whole elements of it, and after any cancellation every later operation behaves as if the cancelled one had only done the part that was delivered.",
  ["crash_points", "histories"], "all cancel points (after the k-th callback or element) of loads, searches and imports",
  "Tests cancel before starting in at most one place; they never cancel in the middle at each possible point.",
  ["core/src/CancellationToken.hpp", "core/src/index/GeoStore.cpp", "core/src/builders/QuadKeyBuilder.cpp", "core/src/index/PersistentElementStore.cpp", "core/src/index/InMemoryElementStore.cpp"],
  [("token polled per element", "core/src/index/*ElementStore.cpp"), ("roll back by erase", "core/src/index/GeoStore.cpp")],
  observe=["callbacks after the cancel", "state read by later queries"])

p("C16", "Stylesheet selectors and cascading follow MapCSS semantics",
  "A rule applies to an element at an LOD exactly when the element kind, the LOD range and every tag condition of one of its selectors match, and for each declaration the last applying rule in the sheet (imports included in place) wins; a rule given for the id of an element replaces those given for kinds; an element no rule applies to has no style. Whether a style is applicable does not depend on the order of an element's tags, on other elements, or on earlier queries.",
  ["inputs", "programs"], "all stylesheets of the supported grammar, all tag sets, kinds and LODs",
  "Tests check a few selectors each in isolation; the combination of many rules, operators, imports, ids and LODs is not compared with a reference.",
  ["core/src/mapcss/MapCssParser.cpp", "core/src/mapcss/StyleProvider.cpp", "core/src/mapcss/StyleSheet.hpp", "core/src/mapcss/Style.hpp"],
  [("filters per kind and LOD matched against tags", "core/src/mapcss/StyleProvider.cpp")],
  observe=["Style returned per element and LOD"])

p("C17", "Style values, expressions, colours and gradients evaluate correctly",
  "A declaration evaluates to what its text denotes: numbers, percentages and metric units relative to the given dimension, colours in every accepted notation, and arithmetic expressions with tag references under the usual precedence and associativity. A colour gradient returns its stop colours at the stops, interpolates between neighbouring stops and clamps outside, and a texture name resolves to the region declared for it.",
  ["inputs"], "all declarations of the grammar, tag values, gradients and evaluation points",
  "Tests evaluate a dozen literals.",
  ["core/src/mapcss/StyleEvaluator.cpp", "core/src/mapcss/StyleDeclaration.hpp", "core/src/mapcss/ColorGradient.hpp", "core/src/utils/GradientUtils.cpp", "core/src/mapcss/TextureAtlasParser.cpp"],
  [("expression grammar and evaluation", "core/src/mapcss/StyleEvaluator.cpp")],
  observe=["values returned by Style/StyleEvaluator/ColorGradient"])

p("C18", "L-systems generate what their grammar denotes",
  "Running an L-system executes exactly the commands obtained by rewriting the axiom with its productions for the given number of generations, choosing stochastic productions only among those declared, with nested states saved and restored in order. The turtle's position and orientation follow the commands, every rotation keeps its frame orthonormal and equal to the composition of the individual rotations.",
  ["programs", "inputs"], "all L-system texts of the supported grammar, all generation counts and command sequences",
  "Tests parse a few grammars and move the turtle a few steps.",
  ["core/src/lsys"],
  [("grammar", "core/src/lsys/LSystemParser.cpp"), ("turtle state", "core/src/lsys/Turtle3d.cpp")],
  observe=["turtle command trace and state"])

p("C19", "Elevation queries equal bilinear/nearest lookup in the source data",
  "The height returned for a coordinate is the value the elevation source defines there: for grids the bilinear interpolation of the four surrounding samples of the tile's grid, for SRTM the interpolation within the one-degree cell that contains the coordinate, for any sign of latitude and longitude and any sample value. It is continuous inside a tile, never outside the range of the surrounding samples, and independent of the order of queries.",
  ["inputs", "histories"], "all grid sizes and contents, all cells of the globe, all coordinates and query orders",
  "Tests check a handful of points of two shipped files in the north-eastern hemisphere.",
  ["core/src/heightmap/GridElevationProvider.hpp", "core/src/heightmap/SrtmElevationProvider.hpp"],
  [("interpolation and file lookup", "core/src/heightmap/GridElevationProvider.hpp, core/src/heightmap/SrtmElevationProvider.hpp")],
  observe=["getElevation results through the provider and the C API"])

p("C20", "Errors stay inside the API call that caused them",
  "No exception ever crosses the C API: a call that cannot succeed (unknown store, missing or malformed file, bad stylesheet, wrong arguments, failing disk) reports exactly one error through the call's error callback and delivers no success, and calls that succeed report none. After a failed call every other call behaves as if the failed one had not been made.",
  ["histories", "fault_sequences", "inputs"], "all sequences of valid and failing API calls",
  "Tests use the API with valid arguments only.",
  ["core/shared/ExportLib.cpp", "core/shared/Application.hpp", "core/shared/Storage.hpp", "core/shared/Search.hpp", "core/shared/Configuration.hpp", "core/src/index/GeoStore.cpp"],
  [("safeExecute wrapper", "core/shared/Application.hpp")],
  observe=["error callback, exceptions at the C boundary, later results"])

p("C22", "Data flushed to disk survives a crash at any later point",
  "If the process dies at any moment, everything that was stored and flushed before is still returned after reopening the same directory, every element returned is one that had been given to the store, complete and unmixed, and the reopened store accepts and returns new data.",
  ["crash_points", "histories"], "every write system call of a storing history as a crash point",
  "Tests never interrupt a store; a crash between related writes is not sampled.",
  ["core/src/index/PersistentElementStore.cpp", "core/src/index/StringTable.cpp", "core/src/index/BitmapStream.hpp"],
  [("append only data file, index entry written after it", "core/src/index/PersistentElementStore.cpp")],
  observe=["queries after reopening"])

p("C23", "Three-dimensional objects respect the dimensions their style declares",
  "Buildings, walls, trees, lamps and other solid objects are built where their element is and with the size its style declares: roofs and facades stay over the footprint and between the declared heights, facades close the full footprint perimeter, and flat roofs have exactly the footprint's area. Basic generators (cylinder, sphere, cube, wall) enclose the radius, height and width requested.",
  ["inputs"], "all simple footprints, roof/facade types, heights, generator parameters",
  "Tests only check that some triangles were produced.",
  ["core/src/builders/buildings", "core/src/builders/generators", "core/src/builders/misc", "core/src/builders/poi"],
  [("roof and facade builders", "core/src/builders/buildings")],
  observe=["mesh callback"])

p("C24", "Managed client library: tile math, range lookup and decoding are exact",
  "In the managed client library, tile addressing agrees with the native library (a coordinate lies in the box of its tile, tiles partition the world, tile codes are unique) and the tiles of a box are exactly those it meets; range queries return exactly the stored ranges containing the query, and the bounds of a range tree are those of the stored ranges; compressed elevation data decompresses to the original bytes; the file requested for a tile (map data, elevation grid, SRTM cell) is the one which covers it, and elevation data is converted to the height at each grid point. Each requested tile, whether its data is stored or has to be downloaded, is loaded once, its content (elements with heights, meshes in the tile's projection with their colors) is delivered to every subscriber and its completion announced once. A geocoding query asks the server for the given text, box or coordinate and every result is delivered with its place, name and box, whatever the culture of the user and the spelling of the answer; the offline geocoder delivers the stored elements which have the words, or an address, within the box, with their address in order.",
  ["inputs", "histories"], "all coordinates and LODs, all range sets and queries, all compressible byte strings",
  "Unit tests check a few literal values.",
  ["unity/library/UtyMap.Unity/Utils/GeoUtils.cs", "unity/library/UtyMap.Unity/Infrastructure/Primitives/RangeTree.cs", "unity/library/UtyMap.Unity/Infrastructure/IO/Compression/InflateZipStream.cs", "unity/library/UtyMap.Unity/Data"],
  [("mercator tile math", "unity/library/UtyMap.Unity/Utils/GeoUtils.cs"), ("interval tree", "unity/library/UtyMap.Unity/Infrastructure/Primitives/RangeTree.cs")],
  observe=["return values under mono"])

p("C25", "Animations of the managed client run to their target and end once",
  "An animation that is started advances with the time of the frames it is given, along its interpolator from 0 to 1 without leaving that range, applies its target position at the end, stops by itself then (unless looped, when it begins again and goes on), raises Finished exactly once per run whether it ended or was stopped, changes nothing after it stopped and begins anew when started again. A composite runs all its parts, ends with the longest one, stops all of them when stopped, and raises Finished once, after them. An animator runs at most one animation: setting another stops the previous one. A path leads from its first point to its last one through the points between its pieces, with the direction of its movement.",
  ["inputs", "histories"], "all sequences of frames, durations, nestings, histories of start, stop and update, and paths",
  "Unit tests drive a single update.",
  ["unity/library/UtyMap.Unity/Animations"],
  [("progress and end", "unity/library/UtyMap.Unity/Animations/TransformAnimation.cs"), ("composition", "unity/library/UtyMap.Unity/Animations/CompositeAnimation.cs"), ("animator", "unity/library/UtyMap.Unity/Animations/Animator.cs"), ("splines", "unity/library/UtyMap.Unity/Animations/Path/SplineInterpolator.cs")],
  observe=["positions applied and events raised under mono"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
