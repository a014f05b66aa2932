"""One entry per property: statement, anchors, how it is decided."""

MG = "meshiphi/mesh_generation/"
DL = "meshiphi/dataloaders/"


def P(id, title, statement, over, text, why, files, mech, technique, note, **kw):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]},
         "technique": technique, "level_note": note}
    d["anchors"].update({k: v for k, v in kw.items() if k in ("state", "observe_at", "hook_needed")})
    return d


ABS = "abstract interpretation of the syntax tree over "
TRUST = " Trusts the analyser's models of Python, numpy and pandas; numbers are exact reals; nothing of the package is run."

PROPS = [
    P("P01", "Adjacency of two cells is classified exactly as the geometry says",
      "For any two non-overlapping cells, the reported relation is one of the eight compass directions exactly when the "
      "cells share an edge segment (edge neighbours) or a single corner (diagonal neighbours) in that direction, and "
      "'not neighbours' otherwise, including cells that meet across the antimeridian. Swapping the two cells always gives "
      "the opposite direction, and the answer computed from cells and from bare boundaries is the same.",
      ["inputs"], "every pair of non-overlapping cells anywhere on the globe, cells touching or crossing the antimeridian included",
      "The tests try a few dozen concrete pairs; the relation depends on the joint ordering of eight coordinates on a circle.",
      [MG + "neighbour_graph.py", MG + "cellbox.py", MG + "boundary.py"],
      [("pairwise direction", MG + "neighbour_graph.py: NeighbourGraph.get_neighbour_case, get_neighbour_case_bounds"),
       ("bounds of a cell", MG + "boundary.py: Boundary")],
      ABS + "order types of the eight coordinates",
      "Every ordering of the coordinates (13 latitude x all circular longitude orderings, date line included) is a separate "
      "abstract input and each is decided, so the verdict covers every real-valued pair." + TRUST),
    P("P02", "Splitting a cell tiles it exactly with four non-overlapping quarters",
      "Splitting any cell, boundary or simulated cell yields exactly four parts whose bounds are the four quarters of the "
      "original: same outer limits, meeting at its midpoint, no gap or overlap, same time range, and every coordinate "
      "inside -90:90 / -180:180, also when the cell crosses or touches the antimeridian. The parts get four distinct "
      "consecutive ids from the requested start, a split depth one deeper than the parent and the parent's data sources.",
      ["inputs"], "every cell bounds and split depth, at any place on the globe",
      "Tests split a handful of concrete boxes; the antimeridian cases need particular longitudes.",
      [MG + "cellbox.py", MG + "boundary.py", MG + "environment_mesh.py"],
      [("cell split", MG + "cellbox.py: CellBox.split, create_splitted_cell_boxes"),
       ("boundary split", MG + "boundary.py: Boundary.split"),
       ("aggregated cell split", MG + "environment_mesh.py: EnvironmentMesh.sim_split_cellbox")],
      ABS + "polynomials in the symbolic bounds",
      "Bounds are symbols; the four results are compared as polynomials with the exact quarters, for every placement "
      "relative to the date line." + TRUST),
    P("P03", "Splitting cells while building keeps the graph equal to the geometry",
      "If the neighbour graph of a mesh under construction lists, for each live cell, exactly its geometric neighbours in "
      "each of the eight directions, then after any cell is split the same holds again: the four new cells and all their "
      "neighbours are linked symmetrically in the right directions, the split cell is unlinked everywhere, and no "
      "other link changes. Ids of new cells are their list positions and are never reused.",
      ["inputs", "histories"], "every sequence of splits, every arrangement of equal, larger and smaller neighbours, with or without the antimeridian in between",
      "Tests split one cell of one grid; correctness needs all neighbour arrangements and split histories (an inductive argument).",
      [MG + "mesh_builder.py", MG + "neighbour_graph.py"],
      [("replace a cell by its quarters", MG + "mesh_builder.py: MeshBuilder.split_and_replace"),
       ("graph update", MG + "neighbour_graph.py: NeighbourGraph.update_neighbours, remove_node_from_neighbours")],
      ABS + "a convex-hull domain of symbolic local meshes (inductive step)",
      "Inductive step decided on one representative per order type of neighbour position, positions and sizes symbolic, then "
      "for a second split." + TRUST),
    P("P04", "Splitting cells of a loaded mesh keeps cells, values and graph consistent",
      "Splitting a cell of a finished mesh replaces it by four cells carrying its values and unused ids, removes it from "
      "cell list and neighbour graph, and leaves every other cell's id, bounds and values unchanged. Afterwards the "
      "graph's nodes are exactly the live cells, and each cell lists exactly its geometric neighbours in the right direction.",
      ["inputs", "histories"], "every cell of every loaded mesh and every sequence of such splits",
      "The existing tests do not split cells of finished meshes; the result depends on the whole arrangement of neighbours.",
      [MG + "environment_mesh.py", MG + "neighbour_graph.py"],
      [("split of a finished mesh", MG + "environment_mesh.py: EnvironmentMesh.split_and_replace, sim_split_cellbox"),
       ("graph update", MG + "neighbour_graph.py: NeighbourGraph")],
      ABS + "a convex-hull domain of symbolic local meshes (inductive step)",
      "As for P03, on string-keyed graphs as loaded from file, with symbolic cell values." + TRUST),
    P("P05", "The initial grid tiles the region and is linked as the geometry says",
      "Building a mesh without splitting gives rectangular cells of the configured size that tile the configured region "
      "row by row from its south-west corner, no gap or overlap, each cell's id being its position and every longitude "
      "within -180:180. The neighbour graph lists for each cell exactly its geometric neighbours in each of the eight directions, "
      "around the back of the globe included when the region spans it. A cell size that does not divide the region is rejected.",
      ["inputs", "configurations"], "every region and cell size the configuration allows, regions crossing the antimeridian and global regions (at least three columns) included",
      "Tests build a few concrete regions; the row/column arithmetic and the antimeridian wrap depend on symbolic sizes and placements.",
      [MG + "mesh_builder.py", MG + "neighbour_graph.py", "meshiphi/config_validation/config_validator.py"],
      [("initial cells", MG + "mesh_builder.py: MeshBuilder.initialize_cellboxes, validate_bounds"),
       ("initial graph", MG + "neighbour_graph.py: NeighbourGraph.initialise_neighbour_graph, initialise_map")],
      ABS + "symbolic region corner and cell size, one partition per grid shape and placement",
      "Grids of 1..5 by 1..5 cells with symbolic origin and cell size, each placement relative to the date line; larger "
      "grids only by the uniformity of the arithmetic." + TRUST),
    P("P06", "Merging a mesh keeps ids, values and graph consistent",
      "Merging one loaded mesh into another, neither touching the antimeridian, removes exactly the host cells inside the inserted region, keeps ids and values of all other host cells, adds all "
      "inserted cells with their values under fresh unique ids, and leaves a graph that lists exactly the geometric neighbours of every cell. The inserted mesh is not modified and its configuration "
      "is recorded. An insert that does not line up with the host's grid is refused and the host is left unchanged.",
      ["inputs", "histories"], "every host and insert, and repeated merges",
      "No existing test merges two meshes; the result depends on how the two sets of cells interleave.",
      [MG + "environment_mesh.py", MG + "neighbour_graph.py", MG + "aggregated_cellbox.py"],
      [("merge", MG + "environment_mesh.py: EnvironmentMesh.merge_mesh"),
       ("id renumbering", MG + "neighbour_graph.py: NeighbourGraph.increment_ids")],
      ABS + "finite host and insert arrangements with symbolic values",
      "Hosts x inserted blocks x positions enumerated; values symbolic; a second merge is applied to each result." + TRUST),
    P("P07", "A region selects exactly the datapoints inside it",
      "Selecting the datapoints of a region from any tabular or gridded dataset keeps exactly the points whose latitude and longitude are "
      "above the region's lower limits and not above its upper limits, and, when the data has times, whose time lies within the time range (both ends included). "
      "Regions that cross or touch the antimeridian select both sides. Values are unchanged and the stored data is not modified.",
      ["inputs"], "every dataset (table or grid, with or without time) and every region, limits hit exactly included",
      "No test selects data over the antimeridian, and hitting a limit exactly needs particular coordinates.",
      [DL + "scalar/abstract_scalar.py", DL + "vector/abstract_vector.py", MG + "boundary.py"],
      [("selection of scalar data", DL + "scalar/abstract_scalar.py: ScalarDataLoader.trim_datapoints"),
       ("selection of vector data", DL + "vector/abstract_vector.py: VectorDataLoader.trim_datapoints")],
      ABS + "order types of coordinates and limits, on symbolic tables and grids",
      "Every position of a coordinate relative to the limits (below, at, between, above, at the date line) appears in one symbolic table per "
      "placement of the region; tables and grids are abstract values whose selections are decided row by row." + TRUST),
    P("P08", "A cell's value is the named statistic of the valid datapoints inside it",
      "Aggregating scalar data gives the minimum, maximum, mean, median, standard deviation or number of the non-missing datapoints inside "
      "the region, and missing (NaN) when there is none; for vectors, minimum and maximum give both components of the one datapoint of least or greatest magnitude and "
      "the others are taken per component. With missing values not skipped they propagate. An unknown statistic is "
      "rejected with a ValueError.",
      ["inputs"], "every set of datapoints, in every order, with ties and missing values anywhere, tables and grids alike",
      "Tests aggregate smooth random fields without missing values, by mean only for most.",
      [DL + "scalar/abstract_scalar.py", DL + "vector/abstract_vector.py"],
      [("scalar aggregation", DL + "scalar/abstract_scalar.py: ScalarDataLoader.get_value"),
       ("vector aggregation", DL + "vector/abstract_vector.py: VectorDataLoader.get_value")],
      ABS + "symbolic tables, one partition per value order and missing pattern; results compared as normal forms",
      "Up to 3 datapoints in every order and missing pattern (4 in thorough), selected patterns of 5; values symbolic; the reductions of pandas, numpy and xarray "
      "are modelled, not run." + TRUST),
    P("P09", "The splitting verdict follows the share of datapoints over the threshold",
      "A source with fewer datapoints in a cell than its minimum never asks for a split. Otherwise, with the share of valid datapoints strictly above the threshold, the cell "
      "is judged clear if the share is at most the lower bound, homogeneous (with split lock) or clear (without) if it is at least the upper bound, and heterogeneous in between. "
      "For vector data the measured quantity is the curl or the distance from the mean vector at each point.",
      ["inputs", "configurations"], "every set of datapoints and every threshold and bounds, values exactly at the threshold and shares exactly at a bound included",
      "The verdict changes at exact equalities and with missing values, which sampled fields do not hit.",
      [DL + "scalar/abstract_scalar.py", DL + "vector/abstract_vector.py"],
      [("scalar verdict", DL + "scalar/abstract_scalar.py: ScalarDataLoader.get_hom_condition"),
       ("vector verdict", DL + "vector/abstract_vector.py: VectorDataLoader.get_hom_condition")],
      ABS + "counts of points over/at/under the threshold and order types of the share and its bounds",
      "Up to 4 points of every kind (5 in thorough); threshold and bounds symbolic for scalars; vector fields concrete, with thresholds at and between all values." + TRUST),
    P("P10", "Derived vector measures equal their definitions at every point",
      "Each vector datapoint gets the magnitude and the direction (angle from the first component towards the second) of its own two components. "
      "The curl field is the difference of the cross derivatives (second component along longitude minus first along latitude) by differences between neighbouring grid points, "
      "and the deviation field the length of each vector minus the mean vector. Collapsing a field gives the value of largest size or the mean of its valid "
      "entries, missing if there is none.",
      ["inputs"], "every vector field, as table or grid, with missing values",
      "No test computes curl or deviation, and swapped axes go unnoticed on symmetric fields.",
      [DL + "vector/abstract_vector.py"],
      [("magnitude and direction", DL + "vector/abstract_vector.py: VectorDataLoader.add_mag_dir"),
       ("curl and deviation", DL + "vector/abstract_vector.py: VectorDataLoader.calc_curl, calc_dmag")],
      ABS + "symbolic vector fields; results compared as polynomial normal forms",
      "Symbolic fields of 2x2 to 4x3 points, plus concrete fields with missing values for collapsing." + TRUST),
    P("P11", "Cells are split exactly where the data sources ask for it",
      "A cell is asked to split exactly when, among the conditions of the sources considered, none finds it homogeneous or short of datapoints and at least one finds it "
      "heterogeneous. Building a mesh refines every cell by this rule, sources being considered cumulatively in their configured order, until no cell asks for it or the maximum depth "
      "is reached: no cell lies deeper, and no cell is left that should have been split.",
      ["inputs", "configurations"], "every combination of verdicts of any sources and conditions, in every cell of every depth, and every maximum depth",
      "Regression tests compare a few meshes made from one or two sources; the outcome depends on how the verdicts of several sources combine at every depth.",
      [MG + "cellbox.py", MG + "mesh_builder.py"],
      [("split decision", MG + "cellbox.py: CellBox.should_split, should_split_breadth_first"),
       ("refinement", MG + "mesh_builder.py: MeshBuilder.split_to_depth, build_environmental_mesh")],
      ABS + "the finite verdicts of abstract data sources",
      "All verdict combinations of up to three conditions in up to three sources for the decision; for whole builds, verdict tables that give every "
      "cell of every depth one of the combinations, depths 0-2 (3 in thorough)." + TRUST),
    P("P12", "Empty cells are filled as configured; the first source with a value wins",
      "Every data name of a cell gets the value its source gives for that cell's own region and data. If that is missing, the cell gets the value for its nearest "
      "enclosing ancestor that has one (fill 'parent', the default) or the configured fill number, and stays missing if neither exists; each vector component is filled under its own name. When several sources "
      "provide the same name, the first in order with a value that is not missing is kept.",
      ["inputs", "configurations"], "every pattern of missing values along a cell's ancestors and across sources, and every fill setting",
      "Test data covers every cell, so nothing is ever filled and no two sources share a name.",
      [MG + "cellbox.py", MG + "mesh_builder.py"],
      [("aggregation of a cell", MG + "cellbox.py: CellBox.aggregate, check_vector_data"),
       ("fill setting", MG + "mesh_builder.py: MeshBuilder.check_value_fill_type")],
      ABS + "missing patterns of abstract data sources, values symbolic",
      "Chains of up to 3 ancestors (4 in thorough), up to three sources, every missing pattern; thirteen spellings of the fill setting through a whole build." + TRUST),
    P("P13", "A built mesh holds every live cell once, with its own values, graph and config",
      "Building makes each configured data source once, from its own settings and for the whole region, and yields a mesh that lists every live cell exactly once under the id the graph "
      "knows it by, with exactly the names and values its sources give for its own region, the maximum depth asked for and the configuration used. Building a second time gives the same mesh, "
      "and a source added afterwards contributes to every cell as a configured one would.",
      ["inputs", "configurations", "histories"], "every region, source list and refinement pattern, and building repeatedly",
      "Tests compare whole output files for a few configurations; mixing up cells, ids or sources needs specific refinement patterns.",
      [MG + "mesh_builder.py", MG + "cellbox.py", MG + "environment_mesh.py"],
      [("build", MG + "mesh_builder.py: MeshBuilder.initialize_meta_data, build_environmental_mesh, add_dataloader"),
       ("data of a cell", MG + "cellbox.py: CellBox.set_data_source, aggregate")],
      ABS + "grids of abstract data sources, values symbolic",
      "Grids of up to 2x2 cells, depths 0-2, five source lists, four refinement patterns, built once, twice, without splitting, or with the last source added later." + TRUST),
    P("P14", "A mesh written as JSON and read back is the same mesh",
      "The document of a mesh holds its configuration, every cell once and in order, and the graph; each cell's entry gives its id, its centre and half sizes, all of its values unchanged, and a geometry that covers "
      "exactly the cell (two rectangles when it crosses the antimeridian). Reading the document back gives cells with the same regions, ids and values, the same graph, region and configuration; writing that "
      "again gives the same document, and saving a mesh as JSON puts exactly this document in the file.",
      ["inputs", "histories"], "every mesh: any cell place and size on the globe, any value a cell can hold (numbers, missing, infinite, lists, text), freshly built or loaded meshes",
      "Tests convert a few hand-written cells; loss of digits, values or cells on the antimeridian needs particular limits or values.",
      [MG + "environment_mesh.py", MG + "aggregated_cellbox.py", MG + "boundary.py", MG + "neighbour_graph.py"],
      [("write", MG + "environment_mesh.py: EnvironmentMesh.to_json, cellboxes_to_json, save; " + MG + "aggregated_cellbox.py: AggregatedCellBox.to_json; " + MG + "boundary.py: Boundary.to_polygon, to_poly_string"),
       ("read", MG + "environment_mesh.py: EnvironmentMesh.load_from_json; " + MG + "aggregated_cellbox.py: AggregatedCellBox.from_json; " + MG + "boundary.py: Boundary.from_json, from_poly_string; " + MG + "neighbour_graph.py: NeighbourGraph.from_json")],
      ABS + "order types of the cell's limits, with tokens for symbolic numbers inside text",
      "All 28 latitude/longitude order types of a cell plus concrete places with small halves; values of every kind; meshes of 0, 1 and 3 cells with integer- or text-keyed graphs." + TRUST),
    P("P15", "Point queries find the cell at a point and refinement splits only that cell",
      "A point strictly inside a cell is reported as inside the mesh and its cell's id is returned, a point outside every cell is reported as outside, also for cells across the antimeridian. Refining a mesh "
      "around points replaces exactly the cells strictly containing a point by their quarters, again and again until a cell's width or height is down to the configured cell size halved split-depth times; all other "
      "cells stay as they were, quarters inherit the values, and the graph still equals geometry. A point on the edge of cells never makes refinement fail.",
      ["inputs", "histories"], "every local mesh of cells of one to three sizes at any place on the globe, every point in or on the lines of it, any non-negative depth within the bound of three, sequences of points",
      "Points on particular lines, non-square cells and cells across the antimeridian are needed; no test refines around points.",
      [MG + "environment_mesh.py", MG + "aggregated_cellbox.py", MG + "boundary.py", MG + "neighbour_graph.py"],
      [("query", MG + "environment_mesh.py: EnvironmentMesh.query_inside_mesh, query_index; " + MG + "aggregated_cellbox.py: AggregatedCellBox.contains_point"),
       ("refine", MG + "environment_mesh.py: EnvironmentMesh.split_points, _split_loc, split_and_replace")],
      ABS + "a convex-hull domain for place and cell size, with the point in every gap of the grid lines",
      "Local meshes with symbolic place and size; every gap and line of the grid is a separate abstract point, decided on all of them; refinement to at most three levels." + TRUST),
    P("P16", "A region accepts exactly limits on the globe and dates in order and measures it",
      "A region is accepted exactly when its latitudes lie within -90:90 with south not above north, its longitudes within -180:180, and its time range, if any, is two readable dates in order. Its width, height, "
      "half sizes, centre and closed ring of corners are those of the area from its western limit eastwards to its eastern limit, with the centre within -180:180; two regions are equal exactly when all their limits, and the time ranges "
      "both have, are equal. A date is read as the day it names, 'TODAY', or 'TODAY' plus or minus a number of days in any letter case, and any other text is refused.",
      ["inputs", "configurations"], "every pair of limits, all readable and unreadable date texts of the listed forms, every current day of the sampled calendar positions",
      "Each limit can be inside, on or beyond the end of its range independently; dates relative to today depend on the calendar.",
      [MG + "boundary.py"],
      [("acceptance", MG + "boundary.py: Boundary.__init__, validate_bounds, from_json"), ("measures", MG + "boundary.py: Boundary.getcx, getcy, get_width, get_height, getdcx, getdcy"),
       ("dates", MG + "boundary.py: Boundary.parse_datetime"), ("equality", MG + "boundary.py: Boundary.__eq__")],
      ABS + "order types of the limits relative to the poles and the date line, and a constant domain for dates",
      "All order types of the limits are decided; date texts and current days are a fixed finite list." + TRUST),
    P("P17", "Exactly well-formed configurations and waypoints are accepted",
      "A mesh, vessel or route configuration is accepted exactly when every required setting is present with the right kind of value within its limits, region, splitting and data source sections hold nothing else, dates are readable, and the "
      "cell width and height are positive and divide the region's extent, however the region lies on the globe; a document and a path to it are treated alike, and validating leaves the document as it was. Waypoints are accepted exactly "
      "when all columns are there, some source and some destination is marked, and all coordinates are numbers. A mesh is not built from a configuration that is refused.",
      ["inputs"], "every single departure (setting missing, of every other kind, out of its limits, unknown) from a well-formed document, all listed extents and cell sizes",
      "The tests validate a few good files; which of the many malformed documents slip through is not sampled.",
      ["meshiphi/config_validation/config_validator.py", "meshiphi/config_validation/mesh_schema.py", "meshiphi/config_validation/vessel_schema.py", "meshiphi/config_validation/route_schema.py", MG + "mesh_builder.py"],
      [("documents", "meshiphi/config_validation/config_validator.py: validate_mesh_config, validate_vessel_config, validate_route_config, flexi_json_input and the *_schema modules"),
       ("waypoints", "meshiphi/config_validation/config_validator.py: validate_waypoints"), ("refusal", MG + "mesh_builder.py: MeshBuilder.__init__")],
      ABS + "constant propagation with a model of JSON-schema validation that reads the schemas as the program builds them",
      "Documents departing from a well-formed one in one place (two for sizes and dates); values from a fixed list per JSON kind." + TRUST),
    P("P18", "Each data source name gives its loader exactly the configured settings",
      "Every known data source name, in any letter case, gives the loader for that data with the mesh's region, the files named (one file, a list, or a folder's files in order), the minimum number of points, and every setting "
      "exactly as configured; unknown names and missing required settings are refused. Settings that are not configured get the documented defaults, so that every loader has all it needs, and configuring one never changes another.",
      ["inputs", "configurations"], "all source names and spellings, each setting configured or not, alone or with all others, with any value",
      "Tests load a handful of sources with full settings; the name table and the dozens of per-source defaults are not exercised.",
      ["meshiphi/dataloaders/factory.py", DL + "scalar/abstract_scalar.py", DL + "vector/abstract_vector.py", DL + "lut/abstract_lut.py", DL + "scalar/shape.py", DL + "vector/vector_shape.py", DL + "scalar/amsr.py"],
      [("choice of loader", "meshiphi/dataloaders/factory.py: DataLoaderFactory.get_dataloader, translate_file_input"), ("defaults", "add_default_params of every loader class")],
      ABS + "a constant domain with symbolic setting values",
      "All names in the table; configured values are symbolic where the default is a number, fixed texts or lists otherwise." + TRUST),
    P("P19", "Asking a mesh, region, cell, graph or data source changes nothing",
      "A query of a mesh, a region, a cell, a neighbour graph or a data source (looking up, selecting, writing as a document, aggregating, judging whether to split, measuring coverage or flow) leaves the mesh, its configuration, cells, "
      "values, graph and data, and what was passed in, as they were. Asking again gives the same answer.",
      ["inputs", "histories"], "all queries, on local meshes anywhere on the map, and on tables and grids with and without missing values, asked once or repeatedly",
      "Tests look at answers, not at what a query leaves behind in shared cells, tables and configuration.",
      [MG + "environment_mesh.py", MG + "neighbour_graph.py", MG + "boundary.py", MG + "aggregated_cellbox.py", MG + "cellbox.py", DL + "scalar/abstract_scalar.py", DL + "vector/abstract_vector.py"],
      [("mesh queries", MG + "environment_mesh.py: query_*, get_*, to_json, sim_split_cellbox, validate_merge_compatibility"), ("graph queries", MG + "neighbour_graph.py: get_*"),
       ("regions and cells", MG + "boundary.py, aggregated_cellbox.py, cellbox.py: getters, should_split, aggregate, split"), ("data queries", DL + "*/abstract_*.py: get_value, get_hom_condition, trim_datapoints, calculate_coverage, calc_*")],
      ABS + "effect analysis: a structural snapshot of everything reachable before and after each query, on every path",
      "Meshes of up to 21 cells; attributes named as private are not observed." + TRUST),
    P("P20", "Loading a source keeps exactly its region's points, values and names",
      "A scalar or vector source imports its data once, for the region it was made for, and then holds exactly the imported points inside that region and time range with their values unchanged, under the configured names or, "
      "without any, the imported ones; only when the valid data has no area in common with the region may points outside stay. Data in another projection has every point moved to its own latitude and longitude; gridded data that is to be "
      "downsampled holds the minimum, maximum or mean of each block of the configured number of columns and rows, at the block's mean position. Its coverage of a region is the fraction of the region's area inside the extent of the valid data.",
      ["inputs", "configurations"], "tables and grids, timed and untimed, of any extent relative to the region (inside, around, elsewhere, touching, over the antimeridian), with and without missing values, names, projections and downsampling",
      "No test constructs a loader of measured data; losing or misplacing points needs a particular extent, projection or block size.",
      [DL + "scalar/abstract_scalar.py", DL + "vector/abstract_vector.py", DL + "dataloader_interface.py"],
      [("load", DL + "scalar/abstract_scalar.py: ScalarDataLoader.__init__, trim_datapoints, reproject, downsample, get_data_col_name, set_data_col_name; " + DL + "vector/abstract_vector.py: VectorDataLoader.__init__ and the same steps")],
      ABS + "symbolic tables with abstract projections and fixed positions in every place relative to the region",
      "Fixed positions (up to 12 x 14 x 5 points) and five regions; values are irregular constants or missing; a projection is an abstract function; blocks up to 4 x 5." + TRUST),
    P("P21", "A look-up table gives each cell its polygons' weighted values and verdicts",
      "A look-up table holds exactly the polygons (and parts of multi-part polygons) that meet its region and time range, under the configured name or, without one, the imported one; a table that has no area in common with the region or "
      "holds anything but polygons is refused. The value of a cell is the least, greatest or number of the polygons meeting it, or the mean, median or deviation of their values weighted by the area each shares with the cell, and "
      "missing when no polygon has area in it. A cell is split exactly when an outline passes through it and splitting on outlines is configured, is held back only when no polygon meets it and locking is configured, and the coverage of a "
      "region is the fraction of its area inside any polygon.",
      ["inputs", "configurations"], "tables of polygons, timed and untimed, around, inside, across, touching or away from the cell and each other, values with ties and missing ones, cells anywhere including over the antimeridian",
      "The regression meshes only use tables whose polygons cover whole cells; weights, overlaps, parts, dates and outlines inside a cell are not sampled.",
      [DL + "lut/abstract_lut.py"],
      [("load", DL + "lut/abstract_lut.py: LutDataLoader.__init__, verify_data, trim_datapoints, set_data_col_name"), ("values", DL + "lut/abstract_lut.py: LutDataLoader.get_value, calculate_coverage"),
       ("verdicts", DL + "lut/abstract_lut.py: LutDataLoader.get_hom_condition")],
      ABS + "symbolic tables of rectilinear polygons, with values as order types and areas exact",
      "Polygons are unions of boxes in every position relative to the cell; values are symbols or missing. Open: polygons only touching the cell for MIN, MAX, COUNT; median ties; outlines along the cell's own edge." + TRUST),
    P("P22", "Density, thickness and polygon tables give each place its one value",
      "On each date of the time range every place in the region has exactly one ice density, 875 in summer, 900 in spring and autumn and 920 in winter of its own hemisphere, and exactly one ice thickness, that of its documented sea-ice "
      "zone in the season of its hemisphere, however the region lies on the globe. A table read from files has every polygon of every file with its own or the configured value, and every place outside all polygons as missing or, for "
      "True or False, as the opposite; a CSV table without exactly a geometry column of polygons and one data column is refused.",
      ["inputs", "configurations"], "regions in, across and on the edge of every zone, either hemisphere and the antimeridian, all months and month changes, one or several files, polygons covering part or all of the region, any kind of configured value",
      "The regression meshes use one southern region and date range; zones, hemispheres, dates and the remainder of the world are not sampled.",
      [DL + "lut/density.py", DL + "lut/thickness.py", DL + "lut/lut_csv.py", DL + "lut/lut_geojson.py", DL + "lut/lut_shapefile.py", DL + "lut/scotland_ncmpa.py"],
      [("built-in tables", DL + "lut/density.py, thickness.py: import_data"), ("tables from files", DL + "lut/lut_csv.py, lut_geojson.py, lut_shapefile.py, scotland_ncmpa.py: import_data")],
      ABS + "tables of exact rectilinear polygons and dates, compared with the documented value at places either side of every zone line",
      "Eleven regions and nine date ranges covering all months and month changes; polygons in files are boxes. File readers are trusted to give the file's polygons." + TRUST),
    P("P23", "Finding, selecting, removing, adding and updating cells does exactly that",
      "A cell of a finished mesh is found by its id, as a number or as text, and by nothing else; the cells completely inside a region, those outside touching its north or south edge or corners, those touching its east or west edge within its latitudes, and those on each edge of the mesh are exactly selected. Removing, adding or "
      "updating cells does exactly that to the cells and the neighbour graph and leaves all other cells and their links as they were, and a position that is no cell's is refused with nothing changed. Two cells are equal exactly when their ids, "
      "values and bounds are.",
      ["inputs", "histories"], "all regions relative to meshes of equal, halved and mixed cells, all ids and positions; away from the antimeridian",
      "Tests reach these operations only through one merge; which cells a region selects depends on how its edges and corners lie among cells of different sizes.",
      [MG + "environment_mesh.py", MG + "neighbour_graph.py", MG + "aggregated_cellbox.py"],
      [("finding and selecting", MG + "environment_mesh.py: get_cellbox, get_cellboxes_*, get_*_edge_cellboxes, get_max_cellbox_id"), ("changing", MG + "environment_mesh.py: remove_cellbox*, add_cellbox, update_cellbox; " + MG + "neighbour_graph.py: remove_node*"),
       ("equality", MG + "aggregated_cellbox.py: AggregatedCellBox.__eq__")],
      ABS + "regions with edges in every position relative to the cells' (order types) at a symbolic place",
      "Meshes of up to 21 cells, cells of one, half and quarter size; removing a cell that is not in the mesh is left open." + TRUST),
    P("P24", "A synthetic shape has its defined value at every point of an even grid",
      "Synthetic scalar and vector data is a grid of the configured numbers of evenly spaced latitudes and longitudes over the region, limits included (upper limits excluded for a checkerboard). A circle has the multiplier at every point no further "
      "than the radius from its centre and 0 elsewhere, a rectangle at every point within its width east or west and its height north or south of its centre; the centre is the configured latitude and longitude, zero included, or where "
      "one is not configured, the middle grid point's. A gradient rises evenly from 0 to the multiplier going north (the northward component of vectors) or east (the eastward component), and a checkerboard alternates "
      "0 and 1 in squares of the configured width and height from the south-west corner.",
      ["inputs", "configurations"], "all shapes, regions not over the antimeridian, numbers of points, centres given fully, partly or not, sizes and multipliers",
      "The regression meshes use square grids with centred shapes; sizes that differ by axis, centres at zero and points exactly on the rim are not sampled.",
      [DL + "scalar/shape.py", DL + "vector/vector_shape.py"],
      [("scalar", DL + "scalar/shape.py: ShapeDataLoader.import_data, gen_*"), ("vector", DL + "vector/vector_shape.py: VectorShapeDataLoader.import_data, gen_*")],
      ABS + "constant propagation with exact arrays and tables, compared with the shape's definition at every point",
      "Six regions, grids up to 11 x 11, sizes chosen to put points inside, on and outside every rim; checkerboards are not scaled by a multiplier (left open)." + TRUST),
    P("P25", "A source read from files gives exactly its files' points in standard form",
      "Data imported for a region and time range holds every point of the source's files inside them once, at the point's latitude, its longitude brought into -180:180 and its time, on ascending latitude, longitude and time axes, "
      "whether the files store longitudes as 0:360, latitudes from north to south, or the data in one file or several; dated files (ERA5, DUACS, AMSR, and of ECMWF the last forecast issued before the start) count when their date lies "
      "in the range, limits included, and a range without any is refused. The variables carry the source's names and values: SIC in per cent (BSOSE as configured, and visual ice), BSOSE elevation as minus the depth, cloudy MODIS points missing, wind "
      "magnitude sqrt(u10^2+v10^2) and direction 180 degrees plus the angle of (u10, v10) modulo 360, wave direction vectors minus sine and cosine, Baltic currents the mean over time of the topmost depth, every other variable as in the file; nothing "
      "that is not a point of the files appears.",
      ["inputs", "configurations"], "all file based scalar and vector sources except IceNet; regions over and off the antimeridian, file sets, dates inside, on the limits of and outside the range, missing values; no point exactly on a region limit",
      "No test reads a single data file: every line of these importers is untested, and an error shows only for some longitudes, dates or numbers of files.",
      [DL + "scalar/", DL + "vector/"],
      [("scalar", DL + "scalar/{gebco,baltic_sea_ice,bsose_depth,bsose_sea_ice,era5_*,ecmwf_sig_wave_height,amsr,modis,visual_iced,scalar_csv}.py: import_data"),
       ("vector", DL + "vector/{baltic_current,duacs_current,era5_wind,era5_wave_direction_vector,north_sea_current,oras5_current,sose,vector_csv}.py: import_data")],
      ABS + "symbolic tables standing for the files (one unknown per value), every value of the imported table compared with its defining term",
      "File contents are symbolic, their coordinates chosen; directions are decided at the multiples of 30 and 45 degrees. xarray.open_dataset, open_mfdataset and pandas.read_csv are modelled, not read." + TRUST),
    P("P26", "A random field source scales, clips and places its field as configured",
      "A Gaussian random field source gives one value per point of an even grid of size by size points over the region, limits included. A binary field tells whether the field (0 to 1) reaches the threshold; a scalar field is clipped to "
      "the two thresholds, stretched over its range to min:max, then multiplied by the multiplier and increased by the offset; a vector field has the first field, scaled to min:max, as magnitude and 360 degrees times the second as direction, the eastward "
      "component being its sine and the northward its cosine. The configured seed is set once, before the first draw, and size and exponent are passed on, so equal configurations give equal data.",
      ["inputs", "configurations"], "all sizes, seeds, exponents, thresholds within 0:1, minima, maxima, multipliers, offsets and component names; regions not over the antimeridian",
      "Tests compare a few meshes built from one seed with recorded ones; multipliers, offsets, thresholds and points exactly at a threshold are not among them.",
      [DL + "scalar/scalar_grf.py", DL + "vector/vector_grf.py"],
      [("scalar and binary", DL + "scalar/scalar_grf.py: ScalarGRFDataLoader.import_data"), ("vector", DL + "vector/vector_grf.py: VectorGRFDataLoader.import_data")],
      ABS + "the random field an arbitrary function of seed, number of the draw, size and exponent; every value compared with its defining term",
      "Fields of sizes 3 to 5 with values at multiples of 1/24; the spectrum of the field itself is N04." + TRUST),
    P("P27", "An exported mesh shows every cell with its own values",
      "Exported as GeoJSON a mesh gives one feature per cell, in order, with the cell's polygon, its id and every value of the cell (true as 1, a list as its mean; infinite, missing and absent values as null), without centre and half sizes, and only "
      "the layer named when a parameter file names one. The raster written for a GeoTIFF has the lines and columns asked for, north-west pixel first, each pixel holding the value (a list its mean) of the layer in the cell around the pixel's centre and missing where there is none, "
      "and is placed by the mesh's limits in EPSG:4326, then reprojected exactly when another projection is asked for. Saving under a format name in any case writes that format to the path given, and nothing for an unknown format.",
      ["inputs", "configurations"], "all meshes incl. cells of unequal sizes, over the antimeridian (GeoJSON), with holes; all kinds and mixtures of values; all raster sizes; all layers; no pixel centre exactly on a cell edge",
      "No test looks at an exported document or raster; errors show only for some mixtures of values, unequal rasters or layer names.",
      [MG + "environment_mesh.py"],
      [("GeoJSON", MG + "environment_mesh.py: EnvironmentMesh.to_geojson"), ("GeoTIFF", MG + "environment_mesh.py: EnvironmentMesh.to_tif"), ("formats", MG + "environment_mesh.py: EnvironmentMesh.save")],
      ABS + "exact columns of every kind of value, calls into geopandas and GDAL recorded with their arguments",
      "What GDAL does with the raster and the colours are N03, PNG export is P30." + TRUST),
    P("P28", "The commands build, rebuild, merge and export what their arguments name",
      "create_mesh writes the document of the mesh built from its configuration file, rebuild_mesh that of the mesh built from the configuration stored in its mesh file, merge_mesh that of the first mesh with the second merged into it, or with -d every file "
      "of the folder merged into it once; export_mesh saves its mesh in the format asked for with the parameter file given. The document goes to the output named with -o, else to the command's default (for export depending on the format, in any case), wherever options stand, and nothing else is "
      "written or changed; meshiphi_test compares the first branch with the second, or the current one with the only one, by the kinds of tests asked for, both when none or both are.",
      ["inputs", "configurations"], "all arrangements of the arguments of every command; folders of none, one and several meshes, with subfolders",
      "Tests run create, rebuild and merge once each with -o, and neither defaults, folders nor exports.",
      ["meshiphi/cli.py"],
      [("commands", "meshiphi/cli.py: create_mesh_cli, rebuild_mesh_cli, merge_mesh_cli, export_mesh_cli, meshiphi_test_cli"), ("arguments", "meshiphi/cli.py: get_args")],
      ABS + "meshes as terms recording how they were made; the files of the analysis as effect store; every arrangement of arguments enumerated",
      "argparse, os.path and file opening are modelled; what building, merging and saving do is the subject of the other properties." + TRUST),
    P("P29", "Longitude, date, rounding and flow helpers give their defined values",
      "longitude_domain gives the longitude of the same meridian in -180:180 (both ends as given; lists and arrays element by element) and longitude_distance the shorter arc between two longitudes, for longitudes any number of turns away. "
      "frac_of_month gives the share of the month's days from start to end, both included, refusing dates of another month; date_range every day from the start up to but not including the end; convert_decimal_days the days, hours and minutes nearest to the duration; "
      "round_to_sigfig every number rounded to that many significant figures (five when not told), 0 and infinities unchanged, in the form given; divergence and curl the central differences of a flow field, one-sided on its rim.",
      ["inputs"], "all longitudes within five turns, all months, spans across months and leap years, durations, numbers of every size and sign, flow fields up to 3 by 5",
      "Tests only touch longitude_domain, for values within one turn.",
      ["meshiphi/utils.py"],
      [("longitudes", "meshiphi/utils.py: longitude_domain, longitude_distance"), ("dates", "meshiphi/utils.py: frac_of_month, date_range, str_to_datetime, convert_decimal_days"), ("numbers", "meshiphi/utils.py: round_to_sigfig, divergence, curl, boundary_to_coords")],
      ABS + "longitudes as symbols in each piece between multiples of 180 degrees, flow fields as symbols, exact rational and calendar constants",
      "Dates, durations and numbers are decided at chosen constants; rounding ties are left open." + TRUST),
    P("P30", "A drawn mesh shows every cell once per layer, coloured by its value",
      "to_png draws, for every colour map layer of the parameter file, each cell's own polygon once in the colour of that layer's map at (value - least) / (greatest - least) over all cells, then for every truth layer exactly the true cells in the layer's colour, "
      "layers in the order listed. The map shows exactly the mesh's configured region, and is saved once, after all drawing, to the path given.",
      ["inputs", "configurations"], "all meshes with at least two different values in a colour map layer, all regions, all lists of layers",
      "No test draws a mesh.",
      ["meshiphi/mesh_plotting/mesh_plotter.py", MG + "environment_mesh.py"],
      [("drawing", "meshiphi/mesh_plotting/mesh_plotter.py: MeshPlotter"), ("layers", MG + "environment_mesh.py: EnvironmentMesh.to_png")],
      ABS + "calls into matplotlib and cartopy recorded with their arguments; colours as terms of map and exact value",
      "What the drawing library makes of the calls is N03; layers of equal or missing values are left open." + TRUST),
    P("P31", "Validating a mesh against source data measures exactly the differences",
      "Of all source points inside the mesh's cells FullMeshValidator gives the mean and the root mean square of the absolute difference to the value of the cell around the point (for vectors, of the magnitude of the difference vector), and the number of cells; cells over the antimeridian "
      "count like any other, and source data without latitudes or longitudes is refused. Sampler maps unit samples linearly onto one range per dimension and refuses other numbers of ranges; the square MeshValidator draws from a sample reaches its validation length north and east, or to the mesh's limit, and its values are, source by source, those of all points in the square and of the cells around them.",
      ["inputs"], "all cells incl. over the antimeridian, all source points not on a cell edge, all samples and ranges; samples of meshes not over the antimeridian", "Tests run the sampled validator on a few meshes; the full validator not at all.",
      ["meshiphi/mesh_validation/full_mesh_validator.py", "meshiphi/mesh_validation/sampler.py", "meshiphi/mesh_validation/mesh_validator.py"],
      [("errors", "meshiphi/mesh_validation/full_mesh_validator.py: FullMeshValidator"), ("samples", "meshiphi/mesh_validation/sampler.py: Sampler.generate_samples"), ("squares", "meshiphi/mesh_validation/mesh_validator.py: MeshValidator.get_range_end")],
      ABS + "source tables of exact values in every place relative to the cells, roots as terms",
      "Points on cell edges belong to both cells and are left open; the Sobol sequence is replaced by arbitrary unit samples." + TRUST),
]


def N(id, title, statement, over, text, why, files, mech, reason):
    d = P(id, title, statement, over, text, why, files, mech, "none", "none")
    d["reason"] = reason
    return d


NOT_APPLICABLE = [
    N("N01", "Rounding never changes a cell's place, neighbours or values noticeably",
      "For every region, cell size and data, the limits, adjacency, aggregated values and verdicts computed in floating point are those of exact arithmetic up to a few units in the last place.",
      ["inputs"], "all regions, cell sizes, split depths and data", "Rounding errors build up only for particular sizes, depths and values.",
      [MG + "boundary.py", MG + "cellbox.py", DL + "scalar/abstract_scalar.py"], [("coordinates", MG + "boundary.py: Boundary"), ("statistics", DL + "*/abstract_*.py: get_value")],
      "Bounding accumulated rounding needs the magnitudes and number of the data at run time and the summation order inside numpy, pandas and xarray, which are not part of the source analysed; all claimed checks use exact arithmetic."),
    N("N02", "Building a mesh ends within time and memory proportional to its data and cells",
      "Building, refining, merging and saving a mesh takes time and memory bounded by a small polynomial in the numbers of cells and data points.",
      ["inputs"], "all configurations and data sizes", "Tests use small meshes.",
      [MG + "mesh_builder.py", MG + "environment_mesh.py"], [("splitting", MG + "mesh_builder.py: split_to_depth")],
      "Cost depends on the library calls' own complexity and on run-time data sizes; no sound static cost bound is in reach (that splitting ends at the configured depth is part of P11 and P15)."),
    N("N03", "Exported images show each place in the colour of its cell's value",
      "In a mesh exported as GeoTIFF or PNG every pixel has the colour the colour table gives to the value of the cell at that place, in the projection asked for.",
      ["inputs", "configurations"], "all meshes, projections and colour tables", "Tests do not look at pixels.",
      [MG + "environment_mesh.py"], [("images", MG + "environment_mesh.py: to_tif, to_png")],
      "Pixels are made by GDAL programs started through a shell and by matplotlib; what they do with the files handed over is not in the source analysed."),
    N("N04", "Gaussian random fields have the configured spectrum",
      "A generated Gaussian random field has the power spectrum with the configured index, and is reproducible for a given seed.",
      ["inputs", "configurations"], "all sizes, indices and seeds", "Tests only compare a few seeded meshes with recorded ones.",
      [DL + "scalar/scalar_grf.py", DL + "vector/vector_grf.py"], [("field", DL + "scalar/scalar_grf.py: ScalarGRFDataLoader.grf")],
      "A statement about the distribution of pseudo-random numbers through an FFT: statistical, not decidable from the source."),
]
