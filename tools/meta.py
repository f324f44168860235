#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, tech, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files,
                  mech=mech, observe=observe, tech=tech, note=note, state=state))


TRUST = "Sampled, never exhaustive. Trusts rapid, the Go toolchain and the oracle in harness/props/%s_test.go."

prop("C01", "Saving and loading a navigation mesh is lossless",
     "Writing a navigation mesh and reading it back gives a mesh with the same parameters, tiles, polygons, details, bounding volume trees, off-mesh connections, links, references and query answers, however the reader chunks the bytes. Saving what was loaded reproduces the saved bytes, the reported size is the number of bytes written, and a writer that fails makes saving fail.",
     ["inputs", "histories"], "every navigation mesh that can be built (any tile layout, any add/remove history, any off-mesh connections) and every legal chunking of the byte stream",
     "The tests load three shipped files and compare a few numbers; no test saves and re-loads a generated mesh, a multi-tile mesh with a history, or a mesh with several off-mesh connections, or uses a short-reading reader.",
     ["detour/mesh.go", "detour/tile.go", "detour/structs.go", "detour/poly.go"],
     [("NavMesh.ToWriter / SaveToFile / Decode / Size", "detour/mesh.go"), ("per-record serialize/unserialize", "detour/tile.go, detour/structs.go, detour/poly.go")],
     ["NavMesh.ToWriter, Decode, SaveToFile, Size, Tiles, queries on the loaded mesh"],
     "property-based round trip", TRUST % "c01")

prop("C02", "Truncated or malformed mesh files and tile data are rejected with an error",
     "Reading a mesh from a stream that ends early, has a wrong magic number or version, declares negative or excessive counts or sizes, or fails in the middle returns an error and no mesh. Adding tile data that is truncated, empty, or has a wrong magic number or version fails and leaves the mesh exactly as it was; none of these ever panics or ends the process.",
     ["inputs", "crash_points"], "every proper prefix of every saved mesh, every header corruption of the kinds named, every read failure position, and every truncation of tile data",
     "The tests read only complete valid files; a truncation at each of thousands of offsets or each corrupted header field cannot be covered by examples.",
     ["detour/mesh.go", "detour/tile.go"],
     [("Decode header checks", "detour/mesh.go"), ("AddTile header and size checks", "detour/mesh.go"), ("MeshHeader unserialize", "detour/structs.go")],
     ["Decode, NavMesh.AddTile, NavMesh.InitForSingleTile"],
     "property-based fault injection (truncation, corruption, failing readers)", TRUST % "c02")

prop("C03", "Tile creation encodes its input faithfully",
     "For every valid description of a tile (vertices, polygons, neighbours, areas, flags, detail mesh or none, off-mesh connections or none, spatial index or none) the created tile data, once loaded, describes exactly those vertices, polygons, neighbours, areas, flags, detail triangles and the off-mesh connections starting in the tile, with off-mesh connections as additional two-vertex polygons; of tiles side by side, exactly one takes a connection that starts on their border. The spatial index has exactly one leaf for each ground polygon, and every node encloses the geometry below it. Invalid descriptions (too many vertices per polygon or in total, nothing described) are rejected with an error.",
     ["inputs"], "every valid creation description (1 to 6 vertices per polygon, any mixture of optional parts, up to the 16-bit vertex limit) and every invalid one of the documented kinds",
     "The tests create tiles from a handful of scenes with one set of options; no test builds without a spatial index, without details, or with more than 21845 vertices, nor checks the content of what is created.",
     ["detour/navmeshcreate.go", "detour/mesh.go", "detour/tile.go"],
     [("CreateNavMeshData", "detour/navmeshcreate.go"), ("createBVTree / subdivide", "detour/navmeshcreate.go"), ("classifyOffMeshPoint", "detour/navmeshcreate.go")],
     ["CreateNavMeshData followed by loading the tile"],
     "property-based differential test against the input description", TRUST % "c03")

prop("C04", "The tile registry agrees with a model under every history",
     "After any sequence of adding, removing and re-adding tiles, looking up tiles by position, by layer and by reference agrees with a plain map: at most one tile per (x, y, layer), never more than the declared number of tiles, a free slot is always usable, and a failed operation changes nothing. A reference to a tile or polygon stops being valid the moment its tile is removed and does not become valid again when another tile takes the slot; re-adding with the old reference restores it.",
     ["histories", "inputs"], "every sequence of add, remove, re-add with reference, and lookup operations over any tile coordinates (including negative), including full meshes and slot reuse",
     "The only test of tile addition adds tiles to a fresh mesh; removal, reuse, stale references, hash collisions and a full mesh need long histories.",
     ["detour/mesh.go", "detour/tile.go"],
     [("AddTile / RemoveTile", "detour/mesh.go"), ("salt in references: encodePolyID / decodePolyID", "detour/mesh.go"), ("position hash table and free list", "detour/mesh.go")],
     ["NavMesh.AddTile, RemoveTile, TileAt, TilesAt, TileRefAt, TileByRef, TileRef, TileAndPolyByRef, IsValidPolyRef"],
     "model-based stateful property test", TRUST % "c04",
     [dict(name="tile lookup table", meaning="tiles hashed by position", where="detour/mesh.go"), dict(name="free list", meaning="unused tile slots", where="detour/mesh.go")])

prop("C05", "Polygon links are exactly the geometric adjacency, in any order",
     "Two polygons are linked exactly when they share an edge inside a tile or when portal edges of neighbouring tiles overlap and come within twice the climb height of each other there (up to four links for one edge), and every such link exists in both directions with the right edge and side. Links across tile borders cover exactly the overlapping part of the edge. After any order of adding and removing tiles the links equal those of a mesh freshly built from the tiles present, and no link leads to a removed tile.",
     ["histories", "inputs"], "every set of neighbouring tiles (full or partial border overlaps, different heights, layers) and every order of adding and removing them",
     "Tests build each tiled mesh once in a fixed order; link integrity after removal or under other orders is never looked at.",
     ["detour/mesh.go"],
     [("connectIntLinks / connectExtLinks / unconnectLinks", "detour/mesh.go"), ("findConnectingPolys / overlapSlabs / calcSlabEndPoints", "detour/mesh.go"), ("allocLink / freeLink", "detour/mesh.go")],
     ["polygon links of NavMesh.Tiles, FindPath across tiles"],
     "property-based differential test (geometric oracle, order metamorphic)", TRUST % "c05")

prop("C06", "Off-mesh connections attach to the ground polygons at their end points",
     "An off-mesh connection is linked from the ground polygon within its radius at its start and to the ground polygon at its end, in the other direction too when it is bidirectional and never when it is not, with its end points moved onto those polygons; an end with no polygon within reach stays unlinked. Paths use connections accordingly, and a straight path passes through both end points of a connection in travel order.",
     ["inputs", "histories"], "every placement of connections (same tile, neighbouring tiles, other layers, out of reach), both directions, any tile order",
     "One shipped file with fixed connections is tested; one-way connections across tiles, misses and reordering are not.",
     ["detour/mesh.go", "detour/navmeshcreate.go", "detour/query.go"],
     [("baseOffMeshLinks / connectExtOffMeshLinks", "detour/mesh.go"), ("portalPoints / off-mesh corners of the straight path", "detour/query.go")],
     ["polygon links, tile vertices, FindPath, FindStraightPath"],
     "property-based differential test (brute-force landing oracle)", TRUST % "c06")

prop("C07", "Every path returned is a walkable corridor, and complete when one exists",
     "A path starts at the start polygon, steps only across links between adjacent polygons, contains only polygons the filter passes (apart from the start), and reaches the end polygon if and only if the end can be reached; otherwise it is marked partial and ends at a reachable polygon. Results fit the buffer given, with the outcome flagged when the buffer or the node pool was too small, and a path that was complete with a small buffer is a prefix of the full path.",
     ["inputs"], "every mesh, start, end, filter, buffer size and node pool size",
     "Tests compare a few dozen recorded paths on two meshes with default filters and large buffers.",
     ["detour/query.go", "detour/node.go", "detour/nodequeue.go"],
     [("NavMeshQuery.FindPath", "detour/query.go"), ("pathToNode", "detour/query.go"), ("NodePool, nodeQueue", "detour/node.go, detour/nodequeue.go")],
     ["NavMeshQuery.FindPath result and status"],
     "property-based validity and reachability oracle (BFS)", TRUST % "c07")

prop("C08", "FindPath returns a path of least cost",
     "Among all corridors the search considers (stepping through the midpoints of shared edges, cost = length times area cost), the path returned has least total cost, for every filter whose area costs are at least 1. When the end cannot be reached the path leads to the polygon whose entry point is nearest the end position among those reachable.",
     ["inputs"], "every mesh, pair of positions and filter with area costs at least one",
     "Recorded paths on two meshes cannot show optimality for other meshes or costs; no oracle exists in the tests.",
     ["detour/query.go", "detour/node.go", "detour/nodequeue.go", "detour/queryfilter.go"],
     [("NavMeshQuery.FindPath A* loop", "detour/query.go"), ("nodeQueue heap", "detour/nodequeue.go"), ("StandardQueryFilter.Cost", "detour/queryfilter.go")],
     ["NavMeshQuery.FindPath, path cost recomputed from the mesh"],
     "property-based differential test against Dijkstra", TRUST % "c08")

prop("C09", "Sliced path finding gives the same answer however it is sliced",
     "A sliced search gives the same path and status whatever the number of iterations per update, counts the iterations it did, and on a single-tile mesh finds the same path as the one-shot search. Its result is a valid corridor, complete whenever the end is reachable; finalizing early gives a valid corridor from the start, and finalizing against an existing path ends on the furthest visited polygon of that path. Updates after completion or failure change nothing.",
     ["inputs", "schedules"], "every mesh, pair of positions, filter, option and every way of dividing the search into updates",
     "The sliced search is tested on three recorded paths with one slicing.",
     ["detour/query.go"],
     [("InitSlicedFindPath / UpdateSlicedFindPath", "detour/query.go"), ("FinalizeSlicedFindPath / FinalizeSlicedFindPathPartial", "detour/query.go")],
     ["NavMeshQuery sliced path functions"],
     "metamorphic and differential property test", TRUST % "c09")

prop("C10", "The straight path stays inside its corridor and is the shortest one",
     "For a corridor of adjacent polygons the straight path begins at the start and ends at the end position (clamped to the first and last polygon), each leg stays inside the corridor polygons, and without crossing options it is as short as any path through the corridor. Flags mark exactly the start, the end and off-mesh connections, references are the polygons entered, crossing options add every border (or area change) crossing, and a small buffer yields a truncated prefix flagged as such.",
     ["inputs"], "every corridor in every mesh, positions, options and buffer sizes",
     "A few recorded straight paths are tested with no options and a large buffer.",
     ["detour/query.go"],
     [("NavMeshQuery.FindStraightPath (funnel)", "detour/query.go"), ("appendVertex / appendPortals / portalPoints", "detour/query.go")],
     ["NavMeshQuery.FindStraightPath"],
     "property-based oracle (corridor containment, shortest path through portals)", TRUST % "c10")

prop("C11", "Raycast walks the surface along a straight line",
     "A ray cast along the surface visits exactly the polygons the straight segment crosses, stops at the first border, missing link or polygon the filter rejects, and reports how far it got as a fraction (the largest float when it reached the end), with the hit wall's outward normal in the horizontal plane. The path holds the polygons visited in order, cut to the buffer with the outcome flagged, and the cost, when asked for, is the filter's cost of the part travelled.",
     ["inputs"], "every mesh, start, direction, length, filter, option and buffer size",
     "Raycast has no direct test.",
     ["detour/query.go", "detour/common.go"],
     [("NavMeshQuery.Raycast", "detour/query.go"), ("IntersectSegmentPoly2D", "detour/common.go")],
     ["NavMeshQuery.Raycast hit record and status"],
     "property-based differential test against a float64 walk", TRUST % "c11")

prop("C12", "The nearest polygon query finds the true nearest polygon",
     "The nearest-polygon query returns, among all polygons passing the filter whose bounds overlap the search box in any tile and layer, the one nearest to the centre (a polygon directly above or below within the climb height counts as touching), and the closest point on it. When no polygon is in the box it returns the null reference; using a spatial index or not never changes the result.",
     ["inputs"], "every mesh, centre, extents and filter, with and without spatial index, across tile borders",
     "A few points on shipped meshes are tested, none across tiles or on tiles without spatial index.",
     ["detour/query.go", "detour/polyquery.go", "detour/mesh.go"],
     [("NavMeshQuery.FindNearestPoly / queryPolygons4 / queryPolygonsInTile", "detour/query.go"), ("BV tree traversal", "detour/query.go")],
     ["NavMeshQuery.FindNearestPoly"],
     "property-based differential test against brute force", TRUST % "c12")

prop("C13", "Closest points on polygons are the closest points",
     "The closest point on a polygon is the given point projected to the surface height when it lies over the polygon, and otherwise the nearest point of its border, with the over-polygon indication telling which; the boundary variant returns the point itself when it is inside the polygon and otherwise the nearest border point. Heights follow the detail triangles. For an off-mesh connection the point lies on its segment.",
     ["inputs"], "every polygon (with and without detail mesh) and every point inside, outside, on an edge or at a vertex",
     "Tests use a few points of one mesh.",
     ["detour/query.go", "detour/mesh.go", "detour/common.go"],
     [("closestPointOnPoly", "detour/query.go"), ("ClosestPointOnPolyBoundary", "detour/query.go"), ("closestHeightPointTriangle / distancePtPolyEdgesSqr", "detour/common.go")],
     ["NavMeshQuery.ClosestPointOnPoly, ClosestPointOnPolyBoundary"],
     "property-based differential test in float64", TRUST % "c13")

prop("C14", "Queries do not change the mesh and a query object can be reused",
     "No query modifies the navigation mesh or its own arguments, and the answer of a query does not depend on which queries the same query object answered before, including queries that failed, ran out of nodes or were left unfinished. Several query objects on one mesh are independent, also when used concurrently.",
     ["histories", "schedules"], "every sequence of queries of every kind on one query object, and every number of query objects on one mesh",
     "Each test uses a fresh query or runs one kind of query.",
     ["detour/query.go", "detour/node.go"],
     [("node pool reset in each query", "detour/query.go"), ("NodePool.Clear", "detour/node.go")],
     ["all NavMeshQuery operations, saved bytes of the mesh"],
     "stateful metamorphic property test", TRUST % "c14")

prop("C15", "Invalid and stale arguments fail cleanly",
     "Null, malformed, out-of-range and stale polygon or tile references, missing filters, bad buffer sizes and impossible capacities make the operation fail with a status or error saying so, without panicking, ending the process, hanging or changing the mesh. Status details (invalid parameter, out of nodes, buffer too small, partial result) are reported for what they name.",
     ["inputs", "histories"], "every operation taking references or sizes, and every kind of invalid value including references of removed tiles",
     "Tests pass valid arguments only (one test passes a null reference).",
     ["detour/query.go", "detour/mesh.go", "detour/status.go"],
     [("reference checks: IsValidPolyRef, TileAndPolyByRef", "detour/mesh.go"), ("argument checks of the queries", "detour/query.go"), ("Status", "detour/status.go")],
     ["status values of every public operation"],
     "property-based negative testing", TRUST % "c15")

prop("C16", "Filters include exactly the polygons their flags say, at the cost they say",
     "A standard filter passes a polygon exactly when it has at least one included flag and no excluded flag, and the cost of moving between two points is their distance times the cost of the polygon's area. Setting a flag mask or an area cost is what is read back and affects nothing else; a new filter includes everything, excludes nothing and costs 1. Setting the area or type of a polygon is read back without disturbing the other, and queries obey the flags and areas the polygons have.",
     ["inputs"], "every flag combination, area, cost and pair of points",
     "Default filters only are used in the tests.",
     ["detour/queryfilter.go", "detour/poly.go", "detour/mesh.go"],
     [("StandardQueryFilter", "detour/queryfilter.go"), ("Poly area and type accessors", "detour/poly.go")],
     ["StandardQueryFilter methods, Poly.SetArea/SetType/Area/Type, FindNearestPoly and FindPath under filters"],
     "property-based test against a model", TRUST % "c16")

prop("C17", "Slope marking follows the slope limit",
     "Marking walkable triangles marks exactly those whose slope is below the limit and whose surface faces up, leaves the others unmarked and never touches other entries; clearing unwalkable triangles clears exactly the others. The bounds calculated for a set of vertices are their tight bounding box, and the grid size is the rounded extent divided by the cell size.",
     ["inputs"], "every triangle soup and slope limit",
     "Covered by four fixed triangles.",
     ["recast/recast.go"],
     [("MarkWalkableTriangles / ClearUnwalkableTriangles", "recast/recast.go"), ("CalcBounds / CalcGridSize", "recast/recast.go")],
     ["area array after marking, bounds and grid size"],
     "property-based differential test in float64", TRUST % "c17")

prop("C18", "Rasterization marks exactly the voxels a triangle touches",
     "Rasterizing triangles produces, in every column of the grid the triangle overlaps, a span covering exactly the heights of the triangle within that cell, clamped to the field, and nothing elsewhere; geometry outside the field leaves no trace. The result does not depend on the way triangles are given (one by one, indexed, or as a list), and the order of vertices does not matter.",
     ["inputs"], "every triangle (steep, degenerate, tiny, huge, partly outside) on every grid",
     "Two fixed triangles are rasterized in the tests.",
     ["recast/rasterization.go", "recast/heightfield.go"],
     [("rasterizeTri / dividePoly", "recast/rasterization.go"), ("AddSpan", "recast/heightfield.go")],
     ["Heightfield spans after rasterization"],
     "property-based differential test against a voxel reference", TRUST % "c18")

prop("C19", "Heightfield columns are sorted disjoint span lists equal to a model",
     "After any sequence of span additions, every column of a heightfield is a sorted list of non-touching spans covering exactly the union of the added ranges; merged spans carry the area of the span with the highest top, or the larger area id when the tops are within the merge threshold. Columns never affect each other, also over span pool growth and reuse.",
     ["histories", "inputs"], "every sequence of span additions of any length, ranges, areas and merge thresholds",
     "One test adds three spans.",
     ["recast/heightfield.go"],
     [("Heightfield.AddSpan / addSpan", "recast/heightfield.go"), ("span pool allocSpan / freeSpan", "recast/heightfield.go")],
     ["Heightfield.Spans"],
     "model-based property test", TRUST % "c19")

prop("C20", "Walkability filters apply their documented rules",
     "Low obstacles become walkable exactly when they are within the climb height of a walkable span below; ledge spans (a drop beyond the climb height to a neighbour, or neighbours differing by more than it) become unwalkable; spans without enough headroom become unwalkable. No filter changes span geometry or makes an unwalkable span walkable otherwise.",
     ["inputs"], "every heightfield, agent height and climb",
     "The filters run only inside whole-pipeline tests on a few scenes, which compare only the final file.",
     ["recast/filter.go"],
     [("FilterLowHangingWalkableObstacles", "recast/filter.go"), ("FilterLedgeSpans", "recast/filter.go"), ("FilterWalkableLowHeightSpans", "recast/filter.go")],
     ["span areas after each filter"],
     "property-based differential test against a reference", TRUST % "c20")

prop("C21", "The compact heightfield mirrors the open space of the heightfield",
     "The compact heightfield has one span for each walkable span of the heightfield, with its floor, open height (up to the next span) and area, in column order. Each span is connected to the lowest span of a neighbouring column whose floor differs by at most the climb height and where the gap shared by both has at least the agent height, and to none exactly when there is no such span; connections are mutual unless several spans qualify. Setting a connection replaces the previous one and no other.",
     ["inputs"], "every heightfield, agent height and climb, including many layers",
     "Tests check one empty and one single-span heightfield.",
     ["recast/heightfield.go", "recast/recast.go"],
     [("BuildCompactHeightfield", "recast/heightfield.go"), ("SetCon / GetCon", "recast/recast.go")],
     ["CompactHeightfield.Cells, Spans, Areas and connections"],
     "property-based differential test against a reference", TRUST % "c21")

prop("C22", "Erosion removes exactly what is closer to an obstacle than the radius",
     "Eroding the walkable area makes unwalkable exactly the spans whose chamfer distance to a border or unwalkable span is below the radius, whatever the radius, and changes no other area. Eroding by a larger radius never leaves more walkable area.",
     ["inputs"], "every compact heightfield and radius from 0 to 255",
     "Erosion is exercised only on whole scenes with small radii.",
     ["recast/area.go"],
     [("ErodeWalkableArea", "recast/area.go")],
     ["CompactHeightfield.Areas"],
     "property-based differential test against a reference distance transform", TRUST % "c22")

prop("C23", "Marking a convex volume re-labels exactly the spans inside it",
     "Marking a convex polygon volume sets the area of exactly the walkable spans whose cell centre lies inside the polygon and whose floor lies within the height range, on any part of the grid, and leaves everything else alone. Volumes given to the input geometry are stored and given back as added.",
     ["inputs"], "every convex polygon with any number of vertices, height range, area id and grid",
     "Not tested at all.",
     ["recast/area.go", "recast/inputgeom.go"],
     [("MarkConvexPolyArea / pointInPoly", "recast/area.go"), ("InputGeom.AddConvexVolume / ConvexVolumes", "recast/inputgeom.go")],
     ["CompactHeightfield.Areas, InputGeom.ConvexVolumes, built meshes"],
     "property-based differential test against a reference", TRUST % "c23")

prop("C24", "Regions partition the walkable area into connected pieces",
     "Building regions assigns every walkable span outside the border a region or, when its whole connected region is smaller than the minimum size, none; unwalkable spans get none. Each region is connected and has a single area, no column contains a region twice, border spans carry border regions, small regions are merged with a neighbour as long as one can take them, and (where no cells of it are adjacent without being connected) a region has a single outline.",
     ["inputs"], "every compact heightfield, border size, minimum and merge region size",
     "Whole scenes with one setting are compared with recorded files.",
     ["recast/region.go"],
     [("BuildRegionsMonotone", "recast/region.go"), ("mergeAndFilterRegions", "recast/region.go")],
     ["region ids of CompactHeightfield.Spans, MaxRegions"],
     "property-based invariant check (flood-fill oracle)", TRUST % "c24")

prop("C25", "Contours trace the outlines of the regions",
     "Every region of more than one cell that simplification does not collapse has a contour following exactly its outline on the cell grid: raw contours step along cell corners around the region at the height of the spans around the corner, and each vertex names the region, area change and tile border beyond it. Simplified contours use only vertices of the raw contour, keep every vertex where the neighbouring region changes, stay within the maximum error of the raw outline, have no needless vertices, and their long edges are split as asked; the contours of neighbouring regions share their portals. Holes of a region are merged into its outline.",
     ["inputs"], "every partition into regions, maximum error and edge length",
     "Only recorded scene files are compared.",
     ["recast/contour.go"],
     [("BuildContours: walkContour, simplifyContour, removeDegenerateSegments", "recast/contour.go")],
     ["ContourSet contours"],
     "property-based oracle (grid outline, area and error bounds)", TRUST % "c25")

prop("C26", "The polygon mesh is a consistent convex partition of the contours",
     "The polygon mesh built from contours has only convex, non-degenerate polygons of at most the requested number of vertices, distinct vertices, mutual neighbour links exactly along shared edges, portal marks exactly on tile-border edges, and the region and area of the contour each polygon comes from; the polygons of a region cover exactly the area of its simplified contour, no two of them are left that could be merged, vertices which almost coincide are merged, and removing the vertices of tile borders leaves the covered ground as it is.",
     ["inputs"], "every contour set and maximum number of vertices per polygon (3 and up)",
     "Only recorded scene files with 6 vertices per polygon are compared.",
     ["recast/mesh.go", "recast/polymesh.go"],
     [("BuildPolyMesh: triangulate, mergePolys, removeVertex, buildMeshAdjacency", "recast/mesh.go")],
     ["PolyMesh"],
     "property-based invariant check", TRUST % "c26")

prop("C27", "The detail mesh follows the polygons and the surface height",
     "For every polygon the detail mesh has a triangulation that covers the polygon exactly, contains the polygon's vertices first, has valid indices and boundary flags, and heights within the sampled error of the heightfield surface. Polygons without sampling keep a plain triangulation.",
     ["inputs"], "every polygon mesh, sample distance and maximum error, including no sampling",
     "Only recorded scene files with one setting are compared.",
     ["recast/meshdetail.go"],
     [("BuildPolyMeshDetail: buildPolyDetail, delaunayHull, triangulateHull", "recast/meshdetail.go")],
     ["PolyMeshDetail"],
     "property-based invariant check", TRUST % "c27")

prop("C28", "The chunky triangle mesh finds every triangle it should",
     "Partitioning a triangle mesh into chunks keeps every triangle exactly once, no chunk exceeds the requested size, and querying a rectangle returns every chunk having a triangle whose bounds overlap it.",
     ["inputs"], "every triangle mesh, chunk size and query rectangle",
     "Only reached through tiled builds of a few scenes.",
     ["recast/chunkytrimesh.go"],
     [("NewChunkyTriMesh / subdivide", "recast/chunkytrimesh.go"), ("ChunksOverlappingRect / ChunksOverlappingSegment", "recast/chunkytrimesh.go")],
     ["ChunkyTriMesh nodes and queries"],
     "property-based differential test against brute force", TRUST % "c28")

prop("C29", "Geometry files load exactly as written, or are rejected",
     "Loading an OBJ description gives exactly the vertices and faces it contains (polygons fanned into triangles, relative and slashed indices resolved, comments and unknown lines ignored), independent of line endings and spacing, with face normals of unit length perpendicular to the faces. Malformed or incomplete input is reported as an error, never a panic or silently wrong geometry.",
     ["inputs"], "every OBJ text in the supported subset and every malformed variation",
     "The tests load a few shipped files in one style.",
     ["recast/meshloaderobj.go", "recast/inputgeom.go"],
     [("MeshLoaderOBJ.Load", "recast/meshloaderobj.go"), ("InputGeom.LoadOBJMesh / LoadMesh", "recast/inputgeom.go")],
     ["MeshLoaderOBJ vertices, triangles, normals; InputGeom mesh and bounds"],
     "grammar-based property test (print/parse round trip)", TRUST % "c29")

prop("C30", "Single-tile builds give navigation meshes that match the geometry",
     "Building a single-tile mesh from any geometry and sane settings either reports failure or gives a mesh that loads, whose polygons lie on walkable geometry at the right height, away from walls by the agent radius, covering the open walkable ground, with no polygon where the ground is too steep or headroom is missing. Building twice gives identical bytes.",
     ["inputs", "configurations"], "every scene of planes, boxes, ramps and stairs and every sane setting",
     "Recorded files for a few scenes and one setting.",
     ["sample/solomesh/builder.go", "recast", "detour"],
     [("solomesh Build", "sample/solomesh/builder.go")],
     ["saved mesh, queries on it"],
     "property-based end-to-end oracle on generated scenes", TRUST % "c30")

prop("C31", "Tiled builds are seamless and agree with single-tile builds",
     "Building a tiled mesh covers the same walkable ground as a single-tile build with the same settings: what can be reached in one can be reached in the other, across tile borders and without gaps or duplicate ground. Each tile occupies its own cell of the grid; a build that cannot have all of its tiles, or whose settings are unusable, fails instead of leaving some out. Building twice gives identical bytes, and rebuilding or removing single tiles leaves the others untouched.",
     ["inputs", "configurations"], "every scene, tile size and setting",
     "Recorded files for a few scenes and one tile size.",
     ["sample/tilemesh/builder.go", "recast", "detour"],
     [("tilemesh Build / buildTileMesh", "sample/tilemesh/builder.go")],
     ["saved mesh, queries on it"],
     "property-based differential test (tiled against single)", TRUST % "c31")

prop("C32", "The command line tool does what its options say and fails loudly",
     "The tool writes a default configuration that it reads back, builds the mesh that the library builds with the same settings, and describes meshes and configurations truthfully; an existing file is overwritten only after confirmation. Missing or malformed inputs, unusable settings, unknown types and unwritable outputs end in an error message and a non-zero exit status, never a panic, without changing any file.",
     ["inputs", "configurations"], "every configuration, option combination, input file and answer to prompts",
     "The command line tool has no tests.",
     ["cmd/recast/cmd/build.go", "cmd/recast/cmd/config.go", "cmd/recast/cmd/infos.go", "cmd/recast/cmd/utils.go"],
     [("build / config / infos commands", "cmd/recast/cmd")],
     ["exit status, output and files of the recast binary"],
     "property-based process-level test", TRUST % "c32")

prop("C33", "Build logs and timers record exactly what happened",
     "While logging is enabled every message is kept in order with its category and formatted text (up to the capacity of 1000 entries), none is kept while it is disabled, and resetting removes all of them. While timing is enabled the accumulated time of a label is the sum of its start-stop intervals; disabled or never started timers report the documented value (-1), labels do not affect each other, and every build step records its own time.",
     ["histories"], "every sequence of log, timer, enable, disable and reset calls",
     "Not tested directly.",
     ["recast/buildcontext.go"],
     [("BuildContext", "recast/buildcontext.go")],
     ["BuildContext methods, dumped log"],
     "model-based stateful property test", TRUST % "c33")

prop("C34", "The geometric helper functions compute what they are named for",
     "The exported geometric helpers (overlap of bounds, signed triangle area, intersection of two lines and of a segment with a convex polygon, centre of polygon vertices, grid directions and their offsets) agree with exact calculations on every input away from degeneracy, and never report impossible results on degenerate ones.",
     ["inputs"], "every input of the exported geometric functions",
     "A few of the helpers are tested with a few points.",
     ["detour/common.go", "detour/poly.go", "recast/recast.go"],
     [("TriArea2D, IntersectSegSeg2D, IntersectSegmentPoly2D, OverlapBounds, OverlapQuantBounds", "detour/common.go"), ("CalcPolyCenter", "detour/poly.go"), ("GetDirOffsetX / GetDirOffsetY / GetDirForOffset", "recast/recast.go")],
     ["return values"],
     "property-based differential test in float64", TRUST % "c34")

prop("C35", "The search node pool behaves as a bounded map",
     "The search node pool hands out one node per polygon and search state, finds exactly the nodes handed out since the last clearing, never hands out more than its capacity, and a handed-out node starts in a clean state; node indices and nodes convert into each other. This holds across any number of clearings.",
     ["histories"], "every sequence of get, find, index and clear operations on pools of every capacity",
     "Only exercised through path finding.",
     ["detour/node.go"],
     [("NodePool.Node / FindNode / FindNodes / Clear", "detour/node.go")],
     ["NodePool methods"],
     "model-based stateful property test", TRUST % "c35")

prop("C36", "Area volumes of the input geometry are kept as given",
     "The convex volumes of the input geometry are exactly those added and not deleted since the geometry was last loaded, each with the vertices, height range and area it was added with, whatever the caller does with the slice afterwards; they are in the order of their addition until one that is not the last is deleted. Deleting a volume removes that one and no other; when the geometry is full, further volumes are ignored.",
     ["histories"], "every sequence of adding and deleting volumes and loading geometry",
     "Not tested: the tests add no volumes.",
     ["recast/inputgeom.go"],
     [("InputGeom.AddConvexVolume / DeleteConvexVolume / ConvexVolumes", "recast/inputgeom.go")],
     ["ConvexVolumes, ConvexVolumesCount"],
     "model-based stateful property test", TRUST % "c36")


def implemented():
    res = set()
    d = os.path.join(VERIF, "harness", "props")
    for f in os.listdir(d):
        with open(os.path.join(d, f)) as fh:
            res |= set(re.findall(r"^func Test(C\d\d)\(", fh.read(), re.M))
    return res


def main():
    impl = implemented()
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "state": list(p["state"]),
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    m = {"version": 1,
         "setup_cmd": "python3 run.py setup",
         "checks": [], "not_applicable": [],
         "notes": "run.py builds the harness against /repo's working tree (a replace directive in harness/go.mod) and runs one property's sub-checks in parallel shards. No hooks in /repo. known_findings.txt lists repaired and recorded defects."}
    for p in P:
        if p["id"] in impl:
            m["checks"].append({"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"],
                                "thorough_cmd": "python3 run.py %s thorough" % p["id"],
                                "technique": p["tech"], "level": "exploration", "level_note": p["note"]})
        else:
            m["not_applicable"].append({"property": p["id"], "reason": "no check written yet"})
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
