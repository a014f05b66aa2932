"""Per-property notes for DESIGN.md."""
NOTES = {
    "P01": dict(oracle="interval geometry on the circle (sa/geom.py): shared edge segment or corner of the two boxes.", enum="13 weak orders of two latitude intervals × all orders of four longitude ends and the date line on the circle; cells and bare boundaries; both argument orders.", cost="9,156 obligations, 1 s."),
    "P02": dict(oracle="the four quadrants of the parent, as polynomials in its limits.", enum="boxes inside, touching and crossing the date line; all data kinds per child.", cost="552 obligations, 1 s."),
    "P03": dict(oracle="geometric adjacency of every ordered pair of live cells.", enum="inductive step over all local meshes (neighbours larger, equal, smaller on each side and corner, next to the rim, around the globe) and a second split; induction over splits is the argument for all histories, P05 the base case.", cost="166,536 obligations, 20 s."),
    "P04": dict(oracle="as P03, plus ids and inherited values.", enum="as P03 on meshes loaded from file (text keys).", cost="144,557 obligations, 20 s."),
    "P05": dict(oracle="a grid of cells row by row from the south-west with geometric adjacency.", enum="(a) symbolic grid sizes; (b) all small grids with symbolic origin and cell size and any place of the date line; (c) sizes that do not divide.", cost="64,608 obligations, 15 s.", open="global grids of one or two columns."),
    "P06": dict(oracle="set of cells and geometric adjacency after the merge.", enum="hosts of equal, halved and mixed cells × inserts inside, on each edge and corner, covering, adjoining, overlapping, coarser and finer; a second merge.", cost="85,900 obligations, 15 s.", open="regions over the antimeridian."),
    "P07": dict(oracle="half-open containment per coordinate, closed in time.", enum="coordinates in every order relative to the limits, data of two positions per gap, tables and grids, scalar and vector, timed and untimed.", cost="58,492 obligations, 10 s."),
    "P08": dict(oracle="statistic as a normal form over the values' symbols.", enum="every weak order of up to four values and every pattern of missing ones.", cost="2,382 obligations, 4 s.", open="whether missing points count for COUNT of grids and vectors; STD with n or n−1."),
    "P09": dict(oracle="the documented three-way rule on the exact fraction.", enum="numbers of points over, at, under the threshold and missing up to five; every place of the fraction relative to the bounds.", cost="30,176 obligations, 15 s."),
    "P10": dict(oracle="finite differences, magnitude, direction and deviation as polynomials and roots.", enum="symbolic fields up to 3×4.", cost="332 obligations, 3 s."),
    "P11": dict(oracle="the documented splitting rule evaluated cell by cell.", enum="all verdict combinations of up to three conditions in up to three sources; grids to 2×2, depth to 3.", cost="6,138 obligations, 10 s."),
    "P12": dict(oracle="nearest ancestor with a value, configured number, or missing; first source wins.", enum="chains of up to three ancestors, three sources, all patterns of missing values and fills.", cost="19,080 obligations, 8 s."),
    "P13": dict(oracle="live cells of the split tree with the abstract sources' own values.", enum="grids to 2×2, depth 0–2, up to three sources; build, build again, add a source.", cost="8,876 obligations, 10 s."),
    "P14": dict(oracle="document fields as normal forms; reading inverts writing.", enum="order types of the limits and the date line; names and values from a fixed set incl. missing; graphs keyed by number or text.", cost="554 obligations, 3 s."),
    "P15": dict(oracle="containment by order type; refinement by exact quartering.", enum="local meshes × the gaps of the grid lines a point can lie in × sizes and depths.", cost="172,470 obligations, 50 s.", open="which cell a point on an edge belongs to; longitude exactly ±180."),
    "P16": dict(oracle="limits on the globe; calendar.", enum="weak orders of limits, poles and date line; 700 date texts against several days as 'today'.", cost="707 obligations, 2 s.", open="regions of zero extent; 'TODAY - 5 + 2'."),
    "P17": dict(oracle="JSON kinds and documented limits per key.", enum="single departures (two for sizes and dates) from well-formed documents.", cost="11,204 obligations, 4 s.", open="unknown top-level keys; 5.0 as an integer."),
    "P18": dict(oracle="documented name table and defaults, written out in the check.", enum="all names × spellings × settings configured alone or together.", cost="20,273 obligations, 5 s."),
    "P19": dict(oracle="the snapshot before equals the snapshot after; two answers equal.", enum="all public queries on local meshes, tables and grids.", cost="4,410 obligations, 8 s.", open="attributes named as private (caches)."),
    "P20": dict(oracle="set of points in the region with their values; block statistics; fraction of area.", enum="data extents in every place relative to five regions; projections as abstract functions; blocks to 4×5.", cost="63,738 obligations, 15 s.", open="downsampling by MEDIAN/STD, mean blocks with missing values, data of zero extent."),
    "P21": dict(oracle="areas of intersections of boxes, exact.", enum="polygons in every place relative to cell and each other; order types of values.", cost="26,444 obligations, 12 s.", open="polygons only touching, median ties, outline along the cell's edge."),
    "P22": dict(oracle="documented zone, season and value table, at places either side of every zone line.", enum="eleven regions, nine date ranges; files with one or several polygons.", cost="181,017 obligations, 12 s."),
    "P23": dict(oracle="interval geometry in cell units; snapshots for 'nothing else changed'.", enum="regions with edges in every place relative to the cells.", cost="110,243 obligations, 17 s.", open="regions over the antimeridian; removing a cell that is not in the mesh."),
    "P24": dict(oracle="the definition of each shape, evaluated at every grid point in exact arithmetic.", enum="seven shapes, six regions, grids of unequal sides, centres configured fully, partly, at zero or not, rims through grid points.", cost="102,166 obligations, 16 s.", open="shapes over the antimeridian; a checkerboard's multiplier."),
    "P25": dict(oracle="the table of points each file was built from, with the defining term of every output variable.", enum="24 source conventions, 1-5 file layouts each (one, several, dated in and out of range), seven regions, two time ranges.", cost="188,158 obligations, 3 s.",
                open="IceNet (ensemble and lead time selection); points exactly on region limits; cloud flags that are missing; points outside the region may remain until the general trimming (P07, P20)."),
    "P26": dict(oracle="the documented scaling of an arbitrary field, point by point.", enum="three regions, sizes 3-5, seeds given or not, exponents, six binary and four scalar thresholds, four scalings, two pairs of names.", cost="57,240 obligations, 3 s.", open="thresholds outside 0:1 for scalar fields; the field's own distribution (N04)."),
    "P27": dict(oracle="the cells' own documents; pixel centres in exact arithmetic.", enum="three cell layouts × 20 mixtures of kinds of values × layers; five meshes × seven raster sizes × four layers and projections; seven format names.", cost="5,981 obligations, 3 s.", open="whether false is 0 or null; rasters over the antimeridian; pixel centres on cell edges; layers without any value."),
    "P28": dict(oracle="terms built/read/merge over the documents of the files named.", enum="10,600 arrangements of arguments of the five commands.", cost="76,286 obligations, 3 s.", open="order in which the files of a folder are merged; what happens with missing files (argparse refuses)."),
    "P29": dict(oracle="congruence modulo 360 and range of the result; the calendar; decimal rounding; finite differences as normal forms.", enum="eleven pieces of 180 degrees and their ends, paired with sixteen differences; 48 months; 42 spans; 320 durations; 40 numbers to six precisions.", cost="4,232 obligations, 1 s.", open="rounding ties; negative durations."),
    "P30": dict(oracle="the layers' definition over the cells' own documents.", enum="three regions, one to four cells, ten lists of layers.", cost="657 obligations, 1 s.", open="layers whose values are all equal or missing; no parameter file."),
    "P31": dict(oracle="mean and root mean square of the differences, roots as terms.", enum="four layouts of cells (two at the antimeridian), one to eight points inside and outside; samples in one to three dimensions; 256 sample squares.", cost="759 obligations, 1 s.", open="points on cell edges; MeshComparator."),
}
