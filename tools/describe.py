"""Writes properties.jsonl and MANIFEST.json.  Run by hand after an edit."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, domain, tests, files, mechanism, observe, level="exploration", technique="", note="", state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, domain=domain, tests=tests, files=files,
                  mechanism=mechanism, observe=observe, level=level, technique=technique, note=note, state=state))


NONE = "No existing test touches this code; "

prop("C01", "Bounding boxes behave as sets of points",
     "The box of a collection of points is the smallest that covers them; union is the smallest box that covers both operands (the box at the origin without extent is neutral), intersection is their common region or the empty box, and membership, containment and collision agree with the half-open point set [x0,x1) x [y0,y1). Translation, scaling about the centre, centre, width, height, area, diagonal, copies, equality, hashing and ordering by area follow from the four limits. No operation alters its operands.",
     ["inputs"], "All finite points and boxes (integer or real, negative, huge, degenerate), given as lists, tuples or iterators.",
     "test_bbox.py samples a few dozen hand-picked boxes; degenerate, touching and huge boxes are not among them.",
     ["coral/bbox.py"], [("tight box in one pass over the points", "coral/bbox.py BBox.__init__"), ("set operators", "coral/bbox.py BBox.__or__, __and__, __contains__, collide")],
     ["results of every operator and method"],
     technique="runtime oracle: every operation checked against its point-set meaning under random and degenerate boxes")

prop("C02", "The bounded double-ended buffer never loses or reorders items",
     "After any history of operations the buffer holds exactly the items pushed and not yet removed, in order: pop and peek give the newest, shift gives the oldest. It reports empty and full exactly when it holds none or as many as its size, and it refuses to push when full and to pop, peek or shift when empty without changing its contents; sizes of one or more other than powers of two are refused.",
     ["histories"], "All histories of push, pop, peek, shift, isempty, isfull and str on every power-of-two size.",
     "test_coord.py runs short fixed histories; wrap-around at every phase is a matter of long histories.",
     ["coral/coord.py"], [("ring of n places with two wrapping counters of one bit more", "coral/coord.py Buffer")],
     ["return values and refusals of each step, isempty/isfull after each step, final drain"],
     technique="trace monitor: each operation of random histories compared with a list model",
     state=[("counters", "start and end of the held items modulo twice the size", "coral/coord.py Buffer.s, .e")])

prop("C03", "Great-circle navigation is geometrically right everywhere",
     "The distance, initial bearing, midpoint and destination computed between points of the globe are those of the great circle through them, to rounding, at every longitude and latitude including the poles, the antimeridian and antipodes; bearings grow counterclockwise from north. Travelling the computed distance along the computed bearing arrives at the second point. When no radius is given, distances use the ellipsoid's geocentric radius at the mean latitude (destination: at the start), and that radius is right for every latitude and ellipsoid.",
     ["inputs"], "All pairs of points, bearings and distances up to several turns, and all radii; directions at a pole and midpoints of antipodes are left open.",
     "test_coord.py compares one destination and a few directions; formulas that fail near antipodes, poles or in one quadrant pass it.",
     ["coral/coord.py", "coral/proj.py"], [("haversine formula", "coral/coord.py haversine"), ("geocentric radius", "coral/coord.py radiusat"), ("destination, bearing, midpoint", "coral/coord.py")],
     ["returned numbers"],
     technique="runtime oracle: independent three-dimensional vector geometry")

prop("C04", "The geographic centroid is the centre of mass of the region",
     "The centroid computed for a region of polygons is the point about which the region balances: in the equal-area map centred on it, the first moment of the region (holes counted negatively by their opposite orientation) is zero within the requested precision. This holds anywhere on the globe, including regions on a pole or across the antimeridian, with or without a starting box, and the computation ends. The region given is not changed.",
     ["inputs"], "Regions of one or more polygons up to about 110 degrees across, either orientation, with holes, closed or not; the centre of the starting box (given, or that of the region) within about 115 degrees of every vertex.",
     NONE + "convergence depends on size, place and precision of the region.",
     ["coral/coord.py", "coral/proj.py"], [("fixed-point iteration in an equal-area projection recentred on the last estimate", "coral/coord.py geocentroid")],
     ["returned point, termination under a CPU limit"],
     technique="runtime oracle: balance condition evaluated at the returned point by an independent projection")

prop("C05", "Compass names and clock hours follow the bearing",
     "For every bearing (counterclockwise from north, any number of turns) the compass name is the one of the sixteen directions nearest to it, and the clock hour is the direction on a dial with twelve at north, greater than 0 and at most 12. Bearings a full turn apart have the same name.",
     ["inputs"], "All bearings from minus one turn to several turns; at a border between two directions either name is right.",
     "test_coord.py tries a few bearings; the sector borders and other turns are not among them.",
     ["coral/coord.py"], [("sixteen sectors by rounding", "coral/coord.py bearing2cardinal"), ("dial", "coral/coord.py bearing2hours")],
     ["returned name and hour"], technique="runtime oracle: angular distance to the named direction")

prop("C06", "Simplifying a line keeps its ends and its shape on the grid",
     "Simplifying an open line gives grid cells that are the nearest to the given vertices, in their order, from the first to the last, and enclosing the same signed area. A line that never turns back on itself keeps exactly its corners: repeated and straight-through vertices go, all others stay; detours out and back along the same vertices, no deeper than the look-back buffer, are removed. An empty line gives nothing and a single point gives its cell, for every cell size, buffer size and kind of iterable.",
     ["inputs"], "All finite sequences of vertices, from lists or one-pass iterators; a line that begins with such a detour may repeat its first vertex.",
     NONE + "the outcome depends on the sequence of vertices and on the state of the look-back buffer.",
     ["coral/coord.py"], [("snapping to the grid", "coral/coord.py sqr_fit"), ("straight runs and slits dropped through a bounded buffer", "coral/coord.py open_no_slit, collinear")],
     ["the sequence produced"], technique="runtime oracle: order, area and canonical-form invariants of every output")

prop("C07", "Simplifying a ring keeps the ring, wherever it starts",
     "Simplifying a closed ring gives vertices of the snapped ring in their cyclic order, with the same signed area and without repeating the first vertex at the end. A ring that encloses an area and never turns back on itself keeps exactly its corners, whichever vertex it starts at and whether or not its closing vertex is repeated.",
     ["inputs"], "All finite rings of grid-snapped vertices, every cell and buffer size.",
     NONE + "the seam between the last and the first vertex has as many cases as places to start.",
     ["coral/coord.py"], [("walk once around and clean the seam", "coral/coord.py closed_no_slit")],
     ["the sequence produced"], technique="runtime oracle: cyclic-order, area and canonical-ring invariants of every output")

prop("C08", "Every projection and its inverse undo each other",
     "For every projection, whatever its centre, radius, ellipsoid or standard parallels, projecting a point of the globe and inverting gives the same place back to within rounding (EckertIV: 4e-6 rad), with a latitude between -90 and 90. Azimuthal projections send their centre to the origin and back. Results do not depend on earlier calls or on other projection objects.",
     ["inputs", "configurations"], "All nine projections, all centres including the poles, all points except those within 1e-5 rad (azimuthal projections: 1e-9 rad) of where the projection is not defined.",
     NONE + "errors are confined to a quadrant, a pole or one aspect of one projection.",
     ["coral/proj.py"], [("closed formulas and iterations of each projection", "coral/proj.py geo2rect, rect2geo of each class")],
     ["coordinates returned by both directions"], technique="runtime oracle: round trip measured by spherical distance")

prop("C09", "Conformal projections keep angles and report their true scale",
     "The Mercator (sphere and ellipsoid), transverse, oblique and stereographic projections keep the angle between meridian and parallel, orientation, and have the same scale in all directions at every point. The scale factor that the Mercator family reports equals the actual scale of the map at that point; the conic's reported factor is the scale along the meridian and the reciprocal of that along the parallel.",
     ["inputs", "configurations"], "Points at least 0.15 rad away from singular places and off the tear of the map, all parameters.",
     NONE + "conformality is a statement about derivatives at every point.",
     ["coral/proj.py"], [("projection formulas", "coral/proj.py geo2rect"), ("scale factors", "coral/proj.py scale")],
     ["projected neighbourhoods, scale()"], technique="runtime oracle: fourth-order finite differences of the executed map against its reported scale")

prop("C10", "Equal-area projections keep areas and orientation",
     "Under the Eckert IV, azimuthal equal-area and conic equal-area projections every region of the globe has on the map the same signed area as on the sphere of the given radius.",
     ["inputs", "configurations"], "Graticule cells from 0.01 to 40 degrees, anywhere except across the map's tear or around the antipode of its centre, all parameters.",
     NONE + "a wrong constant or parameter distorts area without breaking the round trip.",
     ["coral/proj.py"], [("projection constants and formulas", "coral/proj.py EckertIV, AzimuthalEqualArea, ConicEqualArea")],
     ["projected outlines"], technique="runtime oracle: outline area of projected cells against the exact spherical area")

prop("C11", "Each projection is the one its name says",
     "Each projection sends every point to the position, in units of the radius, that the definition of that projection gives for the stated centre, radius, ellipsoid or standard parallels, and the inverse sends that position back to the point.",
     ["inputs", "configurations"], "All nine projections and parameters, points 0.001 rad or more from where they are not defined; on the tear either side is right.",
     NONE + "a consistent error in both directions survives every round trip.",
     ["coral/proj.py"], [("projection formulas", "coral/proj.py")],
     ["projected and inverted coordinates"], technique="runtime oracle: independent vector/bisection implementations of the definitions")

prop("C12", "Projections refuse what they cannot map and have sane defaults",
     "Points without an image (the south pole in both Mercators, the two side points of the transverse Mercator, the two ends of the axis of the oblique one) raise the projection error rather than give a number, or a far-out number where rounding keeps them apart; the antipode of the centre of an azimuthal projection raises it or lies on the rim; projections without a scale factor raise not-implemented. Full turns added to a longitude do not move the image (conic aside). Left-out parameters mean a centre at (0, 0) and the mean WGS84 radius (ellipsoidal: WGS84), and parameters work by position and by name.",
     ["inputs", "configurations"], "All projections and parameters.",
     NONE + "it concerns refusals at particular points and every combination of parameters.",
     ["coral/proj.py"], [("range checks", "coral/proj.py ProjectionError"), ("angle reduction", "coral/proj.py corangle"), ("defaults", "coral/proj.py Proj, CProj, EProj")],
     ["exceptions raised, coordinates"], technique="runtime oracle: expected refusals and invariance under full turns, executed for random parameters")

prop("C13", "Grid codecs store every value in the range they were given",
     "Encoding a value and decoding it gives an integer or string back exactly, a real within half a step of its grid, and null where nulls are allowed; re-encoding a decoded value gives the same bytes. Every code has the field's fixed size, which for integers is the smallest of 1, 2, 4, 8 bytes that holds the range, and codes of numbers sort as the values do, null last. Values outside the range, too long, or null where not allowed are refused, as are fields with an empty range or a range or size that no code has; a row is exactly the codes of its fields one after the other, and the text of a field tells its kind, name, limits and whether it may be null.",
     ["inputs", "configurations"], "All field types, ranges at and around every size limit, nullable or not, rows of several fields; strings without trailing NUL characters.",
     NONE + "the errors sit at the ends of ranges and sizes.",
     ["coral/grid.py"], [("index of a value in its span", "coral/grid.py IVar.index, FVar.index"), ("null as the code after the last", "coral/grid.py span"), ("row concatenation", "coral/grid.py GRow")],
     ["bytes and decoded values"], technique="runtime oracle: exact rational re-computation of codes at and around every limit")

prop("C14", "A RangeGrid data set reads back as it was written",
     "After writing entities and closing, a reader of the data set gets every entity by its identifier and, reading on, all entities in order with their own segments and rows, each value to the field's precision, and the same columns. Entities without identifier get one, asking for an unknown identifier or reading past the end fails without disturbing later reads, and several readers do not disturb each other; a closed reader reads no rows.",
     ["inputs", "histories"], "Any columns (1 to 255), any number of entities, segments (also none or empty) and rows; any mixture of sequential, by-identifier and failing reads.",
     NONE + "it takes a history of reads over files of many shapes.",
     ["coral/rg.py", "coral/grid.py"], [("entity index with byte positions", "coral/rg.py _writeindex, _readindex"), ("row file", "coral/rg.py Writer.write, Reader.read")],
     ["values returned by each read"], technique="trace monitor: random read schedules on two readers against the recorded writes")

prop("C15", "A refused entity leaves no trace in the data set",
     "When writing an entity fails part of the way (a value out of range, infinite, not a number or of a wrong type, a missing column, a failing iterator, a bad name), in RangeGrid and in P files, the finished files are byte for byte those of the accepted entities alone, and the reported P-file errors are those of the accepted points. Writing can go on after a refusal.",
     ["fault_sequences", "inputs"], "Faults at any row of any segment or point of any polygon, any number of times, all field types and coordinate sizes.",
     NONE + "no fault is ever injected by them.",
     ["coral/rg.py", "coral/pf.py", "coral/grid.py"], [("rows are kept aside until the entity is complete", "coral/rg.py Writer.write"), ("entity appended after encoding", "coral/pf.py Writer.write")],
     ["bytes of the finished files"], level="fault_enumeration", technique="fault injection at chosen rows; file bytes compared with a fault-free run")

prop("C16", "P files give back every vertex to half a grid step",
     "A P file gives back the same entities in order, by number and by name (the first of equal names), with the same polygons and vertices in order, each vertex within half a step of the entity's own grid in either coordinate; that grid spans the entity's bounding box, rounded outwards to the box grid, in as many steps as the coordinate size has codes. A repeated closing vertex is dropped and longitudes beyond 180 degrees are wrapped into range, nothing else changes; other coordinate sizes than 1, 2, 4 and 8 are refused, and a closed reader reads no vertices.",
     ["inputs"], "All entities of any number of polygons (also none, or empty ones) of finite coordinates with latitudes in range; sizes 1, 2, 4 and 8; whole-world to single-point entities.",
     NONE + "the grid depends on every entity's extent, and fails first for degenerate, tiny or extreme ones.",
     ["coral/pf.py"], [("box rounded to 65535 steps of the world", "coral/pf.py Writer.write"), ("points relative to the box", "coral/pf.py Writer.write, Reader.read")],
     ["reader results"], technique="runtime oracle: independent bound on the quantisation step for each entity")

prop("C17", "The reported P-file errors are the true displacement of each vertex",
     "The list of errors obtained when a P file is finished has one entry for each stored vertex, in order, equal to the distance in metres on the ellipsoid's sphere at that latitude between the vertex that was given and the one that a reader gets.",
     ["inputs"], "As for P files.", NONE + "it relates numbers of the writer to what a reader later gets.",
     ["coral/pf.py", "coral/coord.py"], [("distance to the decoded point accumulated while writing", "coral/pf.py Writer")],
     ["error list and reader results"], technique="runtime oracle: distances recomputed from what a reader returns")

prop("C18", "A truncated or unfinished data set never yields wrong data",
     "When any one file of a RangeGrid data set, a P file or a shapefile is cut off at any byte, every single read either fails or gives exactly what the whole data set gives; listings of shapes may end early but what they give is right. A RangeGrid or P file whose first three bytes, signature and version, are others is refused, and a RangeGrid writer abandoned before it is closed never lets a reader get anything but entities of the data set that was there before.",
     ["crash_points", "inputs"], "Every cut position of small files, all field and shape types; every point between writes for an abandoned writer.",
     NONE + "no cut or unfinished file is ever read by them.",
     ["coral/rg.py", "coral/pf.py", "coral/shapefile.py"], [("fixed-size reads that fail when short", "struct.unpack in coral/rg.py, coral/pf.py, coral/shapefile.py"), ("index written at the end", "coral/rg.py Writer.close")],
     ["results and refusals of every kind of read"], level="fault_enumeration", technique="crash-point enumeration: each file cut at every byte, reads judged against the whole")

prop("C19", "Shapefile to P conversion carries over every entity",
     "Converting a shapefile of lines or polygons gives a P file with one entity for each record that is not deleted, in order, named by the caller's function applied to that record, with all the parts of the record's shape to the precision of the chosen coordinate size, and returns one error for each stored vertex.",
     ["inputs"], "Shapefiles of types 3, 5, 13, 15, 23, 25 with one to many parts, null shapes (entities without points), deleted or padded records; every coordinate size.",
     NONE + "it takes real files with parts and deleted records.",
     ["coral/pf.py", "coral/shapefile.py"], [("conversion loop", "coral/pf.py sf2pf")],
     ["converted file, names asked for"], technique="runtime oracle: independently encoded shapefiles, converted and compared vertex by vertex")

prop("C20", "Shapefiles keep every shape that is written",
     "Shapes of every type saved in any documented way (three files, streams, one file at a time, temporary or nested names) and opened again have the same type, number, order, parts, part types, coordinates, elevations and measures (a measure at or below -1e38 is no data), null shapes included. Polygon rings given open come back closed by their first vertex. Shapes can be added and the whole saved again, and a shape with a coordinate, elevation or measure that is no number is refused when saved.",
     ["inputs", "configurations"], "All shape types, point counts and part structures, finite coordinates of any size, two to four ordinates for each point.",
     NONE + "the module's doctest needs files that are not in the repository.",
     ["coral/shapefile.py"], [("record encoders", "coral/shapefile.py Writer.__shpRecords"), ("record decoder", "coral/shapefile.py Reader.__shape")],
     ["shapes from a new reader"], technique="runtime oracle: every written shape compared with what a fresh reader returns")

prop("C21", "Attribute tables keep every value that fits",
     "Records written by position or by name and read back have the same fields (names, types in upper case, sizes, decimals) and values: text cut on a character boundary to the field's encoded size, integers exactly, reals to the field's decimals (whole numbers if it has none), dates and blanks (nothing given, or None), in any encoding. A number that does not fit its field is refused when saved instead of being cut.",
     ["inputs", "configurations"], "Text, integer, real, date fields of all sizes, tables of up to hundreds of fields, six encodings; field names of up to ten bytes.",
     NONE + "encodings, widths and partial records have no test.",
     ["coral/shapefile.py"], [("record padding and cutting", "coral/shapefile.py Writer.__dbfRecords"), ("value conversion", "coral/shapefile.py Reader.__record")],
     ["fields and records from a new reader"], technique="runtime oracle: written records compared with what a fresh reader returns")

prop("C22", "Shapefiles on disk obey the ESRI and dBASE layouts",
     "The files saved for any shapes and records are well-formed: header codes, lengths, record numbers, part and point counts, bounding boxes and elevation and measure ranges equal those of the contents, the index lists exactly the position and length of every record, and the attribute header agrees with the records. Saving again gives the same bytes, also after adding shapes gives the same as saving all at once.",
     ["inputs", "configurations"], "All shape types and tables of the writer.",
     NONE + "other programs rely on headers and boxes that this library's own reader ignores.",
     ["coral/shapefile.py"], [("headers and lengths", "coral/shapefile.py Writer.__shapefileHeader, __dbfHeader"), ("index", "coral/shapefile.py Writer.__shxRecords")],
     ["bytes of the saved files"], technique="runtime oracle: strict independent parser of the saved bytes")

prop("C23", "All ways to read a shapefile agree, in any order",
     "Single access by positive or negative index (negative where the index or the attributes tell the number), whole listings, iterators and paired access all give the same shapes and records, whatever was read before, with iterators unaffected by other reads. Deleted records are left out of listings, iterations and pairs, and are nothing when asked for alone; indices out of range are refused. The same holds without the index, with only the geometry or only the attributes, opened by path or from streams, and after loading another file; a path of which one of the three files is missing is refused.",
     ["histories", "configurations"], "Any sequence of reads on files of every type with padding, null shapes and deleted records.",
     NONE + "interference needs a history of reads.",
     ["coral/shapefile.py"], [("record offsets from the index", "coral/shapefile.py Reader.__shapeIndex"), ("shared file position", "coral/shapefile.py Reader.iterShapes, iterRecords, shapes, records")],
     ["result of every read"], technique="trace monitor: random read schedules judged against independently computed contents")

prop("C24", "GeoJSON groups rings and parts correctly",
     "The GeoJSON mapping of a shape has the type and coordinates that its parts mean: points, multipoints, one or several lines, and polygons in which every clockwise ring starts a new polygon and every counter-clockwise ring, or ring without area, belongs to the polygon before it as a hole, without losing or reordering a ring or vertex.",
     ["inputs"], "Point, multipoint, line and polygon shapes of any number of parts, also with elevations or measures; rings clearly with or exactly without an area.",
     NONE + "ring orientation and grouping have no test.",
     ["coral/shapefile.py"], [("ring orientation", "coral/shapefile.py signed_area"), ("grouping", "coral/shapefile.py _Shape.__geo_interface__")],
     ["mapping returned"], technique="runtime oracle: independent grouping by exact rational areas")

prop("C25", "Adding to an existing shapefile keeps what was there",
     "Opening a shapefile for editing, adding any number of shapes and records, deleting shapes by number (their records go with them) and saving, in place or elsewhere, any number of times, gives a well-formed shapefile of exactly the old shapes and records (less those deleted or marked as deleted, which go together with their shapes) followed by the new ones, with elevations, measures, part types and field definitions unchanged; a record added without a shape is given a null one when asked to balance.",
     ["histories", "inputs"], "All shape types and tables, zero or more additions for each of several rounds.",
     NONE + "the editor is not tested.",
     ["coral/shapefile.py"], [("load, extend, save", "coral/shapefile.py Editor")],
     ["files after each save, read back and parsed"], technique="trace monitor: contents after every round compared with the running model")

prop("C26", "Shapefiles of other programs are read right",
     "Any well-formed shapefile is read to its contents, whichever program wrote it: measures present or left out, no-data measures, records padded or with gaps, a wrong file length in the header, deleted records, with or without an end-of-file mark, numbers blank or filled with zeros or NULs.",
     ["inputs"], "All shape types and the listed variations in any combination.",
     NONE + "the layouts that this library never writes itself are out of their reach.",
     ["coral/shapefile.py"], [("record decoder", "coral/shapefile.py Reader.__shape"), ("attribute decoder", "coral/shapefile.py Reader.__record")],
     ["shapes and records"], technique="runtime oracle: files laid out by an independent encoder")

prop("C27", "Text tables survive writing and reading",
     "A table written with any separator and read back has the same columns and values in order; columns can be chosen and reordered on writing and on reading. Comments, blank lines and white space around lines are ignored, wherever they stand and whatever the line ends; a file without a header and a column that does not exist are refused.",
     ["inputs", "configurations"], "All values without the separator, the comment mark or line breaks and, at the ends of a line, without white space; any encoding-safe text, any number of columns and rows.",
     NONE + "values, separators and comments interact.",
     ["coral/table.py"], [("line splitting", "coral/table.py readfile"), ("joining", "coral/table.py writefile")],
     ["rows read, file bytes"], technique="runtime oracle: tables round-tripped through files, and files written by hand")

prop("C28", "Table queries select, join and reshape exactly",
     "Joining gives one row for each row of the first table, in order, completed with the first row of the second table whose pivot values are equal (its values win), or blanks, for the chosen or common pivots and chosen or all columns. Searching gives the first or all matching rows in order, indexing maps each key to its last row without the key column, added and deleted columns leave the others as they are, and the printed form shows every value under its column. Tables given are not changed.",
     ["inputs"], "All tables of text values with at least one row.",
     NONE + "duplicate, missing and clashing keys have no test.",
     ["coral/table.py"], [("nested search", "coral/table.py join"), ("row rebuilding", "coral/table.py addkey, delkeys, indexby")],
     ["returned rows, printed text"], technique="runtime oracle: plain re-implementation of each query, inputs compared before and after")

prop("C29", "String distances are the metrics they are named after",
     "The edit distance of two words is the least number of insertions, deletions, substitutions and swaps of neighbouring characters (each part edited once), symmetric and zero only for equal words; the relative error is twice that over the total length. The Jaro and Jaro-Winkler similarities have their defined values between 0 and 1, 1 for a non-empty word and itself and less for different words (Jaro), the latter never below the former.",
     ["inputs"], "All pairs of words, empty and non-ASCII ones too; where the Jaro transpositions depend on the order of the words, either order's value is right.",
     NONE + "each value depends on the whole of both words.",
     ["coral/names.py"], [("dynamic programming", "coral/names.py damlev"), ("matching window", "coral/names.py jaro, jaro_winkler")],
     ["returned numbers"], technique="runtime oracle: independent reference implementations plus metric relations")

prop("C30", "Name matching, folding and abbreviations keep their promises",
     "Matching gives each key once with a value of least relative error and the score one minus that error, in order of falling score. Folding replaces accented Latin vowels and c-cedilla by the plain letter and nothing else. Abbreviations are different for every name; a folded name (upper case, fillers dropped) that is short enough stands as it is, any other gets the requested number of its letters in order, all its initials if it is alone, and the failure error comes only when no letters are left to tell the names apart.",
     ["inputs"], "Keys and values of any text; names of words separated by single spaces that differ after folding, any length from one letter.",
     NONE + "uniqueness is a property of the whole set of names.",
     ["coral/names.py"], [("best value for each key", "coral/names.py mapping"), ("letter choice by priority and clash avoidance", "coral/names.py abbreviations"), ("character table", "coral/names.py ascii")],
     ["returned matches, text and abbreviations"], technique="runtime oracle: optimality, uniqueness and subsequence checks on every result")

prop("C31", "Statistics are numerically right and their caches transparent",
     "Mean, variance, standard deviation, covariance, correlation, sum, extremes, length and both Gini coefficients of a sequence equal their definitions to rounding, whatever was asked before, in any order, from several threads, and after any number of other sequences. Clearing the caches empties all of them and the reported cache figures are the sum over all of them.",
     ["inputs", "histories", "schedules"], "Sequences (tuples) of finite numbers over many orders of magnitude; Gini for sequences of two or more with a non-zero mean, correlation where both vary.",
     NONE + "caching makes a result depend on earlier calls.",
     ["coral/stats.py"], [("memoised definitions", "coral/stats.py lru_cache")],
     ["returned numbers, cache figures"], technique="runtime oracle: exact rational statistics over random call histories and threads")

prop("C32", "Gradients interpolate exactly between their stops",
     "The colour at any position in [0, 1] is the linear interpolation between the nearest stops around it, the stop's own colour at a stop, and the first or last colour beyond the outer stops, in whatever order the stops are given; where two stops share a position the colour there is between theirs. The hexadecimal form has the integer part of fifteen times each channel, and the built-in gradients pass through their published stops. The list given is not changed.",
     ["inputs", "configurations"], "All lists of one or more stops in [0, 1] with channels in [0, 1], all positions in [0, 1].",
     NONE + "the values next to, at and between stops need many gradients.",
     ["coral/gradient.py"], [("sorted stops and bisection", "coral/gradient.py Gradient")],
     ["returned colours"], technique="runtime oracle: exact rational interpolation")

prop("C33", "Raster canvases keep each pixel and save valid images",
     "A pixel of a bilevel, gray or colour canvas has the value last given to it, or the background, and no write touches another pixel or canvas. Writing with an opacity gives the mixture of old and new rounded to the nearest level, exactly the old at 0 and the new at 1, never outside the two. The saved file is a valid binary PBM, PGM or PPM image of exactly these pixels, for every width.",
     ["inputs", "histories"], "All positions inside the canvas, levels 0 to 255 (0 or 1 for bilevel), opacities in [0, 1], any sequence of writes.",
     NONE + "bit packing and rounding depend on width, position and value.",
     ["coral/raster.py"], [("bit and byte addressing", "coral/raster.py __getitem__, __setitem__"), ("blending", "coral/raster.py blend"), ("PNM output", "coral/raster.py save")],
     ["pixels read back, bytes of the file through an independent parser"], technique="trace monitor: pixel model over random writes, independent PNM parser")

prop("C34", "Raster lines are connected, exact and cover what they should",
     "A plain line between two pixels paints both ends and exactly one pixel for each step of the longer axis, connected and never more than half a pixel off the ideal line, in all directions, and nothing else. An anti-aliased line paints in each column (row, if steep) the two pixels around the ideal line in proportion to their nearness, the end columns also in proportion to the covered part, mixing with what is there. A polygon outline is its sides including the closing one, anti-aliased by default only on gray and colour canvases.",
     ["inputs"], "All ends inside the canvas (for anti-aliased lines also fractional ones a pixel from the border, in different columns), all colours, over any picture.",
     NONE + "octants, ties and borders each have their own code path.",
     ["coral/raster.py"], [("Bresenham's algorithm", "coral/raster.py BaseCanvas.line"), ("Wu's algorithm", "coral/raster.py BaseCanvas.aaline"), ("outline", "coral/raster.py BaseCanvas.strokepolygon")],
     ["every pixel of the canvas"], technique="runtime oracle: every pixel of the canvas compared with exact rational coverage")

prop("C35", "Polygon filling paints exactly the inside",
     "Filling one or several scanned polygons paints, once each, exactly the pixels whose winding number is not zero, where each side crosses a row at its exact position rounded to the nearest pixel and covers the rows from its upper end up to but without its lower end; all other pixels stay. Parts left or right of the canvas are cut off and the polygons given are not changed.",
     ["inputs"], "All sets of polygons with integer vertices and rows within the canvas: concave, self-crossing, overlapping, with holes, in either direction; crossings half-way between two pixels may go either way.",
     NONE + "inside and outside depend on all the sides of all the polygons.",
     ["coral/raster.py"], [("crossing marks for each row", "coral/raster.py BaseCanvas.scanpolygon"), ("winding sweep", "coral/raster.py BaseCanvas.fillpolygons")],
     ["every pixel of the canvas"], technique="runtime oracle: exact rational winding numbers for every pixel")

prop("C36", "A saved page paints exactly the calls made, with the right box",
     "The saved PostScript page, run by a PostScript interpreter, paints exactly what was drawn, in order: each polygon, line, circle, rounded polygon, text and image with its coordinates, colour, width, dash, font, anchor and pixels, a fill before its outline, over the background. Its bounding box covers all that was drawn (text excepted) and the margin; saved to a size, the page is scaled and centred into the square of that size. The lists of points and pixels given stay as they were.",
     ["inputs", "histories"], "All sequences of drawing calls with finite coordinates, any text and repeated or changed state; images of up to 65535 bytes.",
     NONE + "the page depends on remembered ink, width and dash over the sequence of calls.",
     ["coral/vector.py", "coral/defs.ps"], [("state changes emitted only when needed", "coral/vector.py Canvas.setink, setgray, setcolor, setwidth, setdash"), ("procedures", "coral/defs.ps"), ("bounding box", "coral/vector.py Canvas.bbox"), ("page set-up", "coral/vector.py Canvas.save")],
     ["paint operations recorded by an interpreter of the saved file"], technique="runtime oracle: a PostScript interpreter records the paint operations of the saved page")

prop("C37", "Canvases are independent and saving does not change them",
     "Drawing on one canvas or copy never shows on another, and a copy paints what its original had at that moment. Saving, in any form and number of times, changes neither what a canvas paints nor its box, and gives the same file for the same state. The box is exactly that of the drawing since it was last reset, put back or widened by the user.",
     ["histories"], "Any interleaving of drawing, copying, saving and box changes over several canvases.",
     NONE + "sharing shows only in longer histories.",
     ["coral/vector.py", "coral/bbox.py"], [("copying", "coral/vector.py Canvas.copy"), ("saving around the instructions", "coral/vector.py Canvas.save")],
     ["paint operations and boxes of every canvas"], technique="trace monitor: model of every canvas over random interleavings, judged through the interpreter")

prop("C38", "Exports and animations are complete, isolated and clean",
     "Exporting a page hands the converter exactly that page, the chosen device and the output path as given, whatever characters it has, returns the converter's status and leaves no temporary file, also when several threads export at once or a page cannot be saved. An animation has every frame, in order, with the chosen delay, all drawn to the same box, and leaves the frames as they were.",
     ["inputs", "schedules", "fault_sequences"], "All pages, paths, devices, sizes and margins; up to a dozen frames; several threads; converter failures. The converters are stand-ins that record what they are given.",
     NONE + "the external programs are not even installed with them.",
     ["coral/vector.py"], [("temporary files", "coral/vector.py Canvas.export, animation"), ("command line quoting", "coral/vector.py export")],
     ["what stand-in converters receive, directory contents, status"], level="fault_enumeration",
     technique="runtime monitor: recording stand-ins for the converters, threads and injected failures")

prop("C39", "The progress meter is transparent to iteration",
     "Iterating through the meter gives exactly the items of the source, each taken only when asked for, and passes on its failures, for every kind of iterable, with or without length, with right or wrong totals and any clock. What a terminal shows is one line with the description, the count, the time passed, the time left and the rate, updated no more often than asked, finished by a line end, or nothing if it is not to be left; all of it goes to the chosen file.",
     ["inputs", "histories"], "All iterables, options and sequences of clock readings.",
     NONE + "laziness and display depend on source, options and clock.",
     ["coral/tqdm.py"], [("generator around the source", "coral/tqdm.py tqdm"), ("line rewriting", "coral/tqdm.py StatusPrinter"), ("meter text", "coral/tqdm.py format_meter")],
     ["items, order of requests, emulated screen"], technique="trace monitor: instrumented sources and clock, emulated terminal")

prop("C40", "Frames persist, place points and list what is visible",
     "A frame saved and loaded has the same projection (kind, centre or standard parallels, radius or ellipsoid) and the same box, and saving the loaded frame changes nothing more. A point is placed in the cell of the given scale that its projection lies in, and outlines are simplified on the cells of the scale, closed unless asked otherwise. The visible entities of a P file are, in order, exactly those with some polygon whose projected box meets the frame's box, as the returned count and as the names stored and loaded.",
     ["inputs", "configurations"], "All projections and parameters, all boxes, P files of entities away from singular points, some without vertices or with a name met before; names without line breaks.",
     NONE + "every projection is stored in its own way.",
     ["coral/frame.py", "coral/proj.py", "coral/pf.py"], [("JSON form", "coral/frame.py Frame.save, load"), ("visibility search", "coral/frame.py Frame.cachenames"), ("cells", "coral/frame.py Frame.point, planify")],
     ["loaded frame's projection of points, cells, names"], technique="runtime oracle: loaded frames compared point by point; visibility recomputed")

prop("C41", "The documented programs draw the right map",
     "The documented ways from a shapefile to a page (select by attribute, project, simplify, draw; with background and colours and boxes kept apart; by way of a P file, a table of values and a gradient) give a page on which every selected ring is painted once, in order, with the chosen colours, its corners being the grid cells nearest to the projected vertices, and whose box is that of the rings that count.",
     ["inputs", "programs"], "Shapefiles of other programs with any countries, rings and accented names; several projections and pixel sizes.",
     NONE + "no test runs the README's programs.",
     ["coral/shapefile.py", "coral/proj.py", "coral/coord.py", "coral/vector.py", "coral/pf.py", "coral/table.py", "coral/gradient.py"],
     [("shape access", "coral/shapefile.py shapeRecords"), ("simplification of one-pass iterators", "coral/coord.py simplify"), ("page", "coral/vector.py Canvas.addpolygon, save")],
     ["paint operations of the saved page"], technique="end-to-end runtime oracle: README programs on independently encoded files, page judged by an interpreter")

prop("C42", "RangeGrid and P files keep to the layout of their format version",
     "A RangeGrid data set (version 1) and a P file (version 0) are laid out as their readers of any release expect: signature, version, true totals of rows or vertices, names, kinds, sizes and limits in numbers of seven bits a byte, boxes in 65535ths of the globe that just cover the entity, then big-endian codes counting steps from the lower limit (the highest one for null), and the text index of identifiers and segment lengths. Any file of that layout, whichever program wrote it, is read to what its codes stand for.",
     ["inputs"], "All column kinds, sizes and limits, coordinate sizes, boxes, names, numbers of parts, segments and entities; whole limits of real columns.",
     NONE + "a writer and a reader that change together still agree with each other, and no longer with existing files.",
     ["coral/rg.py", "coral/pf.py", "coral/grid.py"],
     [("headers, index and grids", "coral/rg.py Writer, Reader; coral/pf.py Writer, Reader"), ("codes", "coral/grid.py IVar, FVar, SVar")],
     ["bytes of the files written", "entities read from files made by an independent encoder"],
     technique="runtime oracle: independent decoder over written files, independent encoder for files to be read")

prop("C43", "Results depend on nothing but the arguments",
     "Whatever is asked of any module, the results and the bytes of the files are the same the second time, in another order of calls, in another process with another hash seed, working directory, time zone or locale, under a bare file name, and in threads working side by side on their own objects; of a table file only the day it was written may differ. Calls leave their arguments as they were. The state of the process (working directory, environment, random numbers, locale, signal handlers, warning filters and the like) stays as it was.",
     ["histories", "schedules", "configurations"], "All calls of the public functions and classes, with text within the locale's reach where a format does not fix its encoding; names of files made up by the package are left out.",
     NONE + "no test runs a call in a second process, another locale or a second thread.",
     ["coral/%s.py" % m for m in "bbox coord frame gradient grid names pf proj raster rg shapefile stats table tqdm vector".split()],
     [("state on objects, not on modules", "coral/*.py"), ("memoized statistics", "coral/stats.py memoize"), ("encodings and byte orders of the formats", "coral/rg.py, coral/pf.py, coral/shapefile.py")],
     ["written form of every result, bytes of every file, arguments before and after, process state before and after"],
     technique="differential runtime monitor: the same random jobs across processes, environments, orders and threads, compared byte by byte")

prop("C44", "Stored files are whole when the call returns, or an error says not",
     "When the call that ends the storing (save, saveShp, saveShx, saveDbf, close, writefile, cachenames, sf2pf) returns, every file is complete as seen by any other program and no longer held open, though the writer still lives; the readers let go of their files when closed or dropped, and change nothing. A file that could not be stored to its last byte, for want of room or of a place, is reported by an exception. After such an error the same can be stored where there is room.",
     ["crash_points", "inputs"], "All kinds of files the package stores by name; streams of the caller are the caller's to flush.",
     NONE + "no test looks at a file while its writer lives, or fills the disk.",
     ["coral/%s.py" % m for m in "frame pf raster rg shapefile table vector".split()],
     [("files closed where they are opened", "coral/shapefile.py Writer.save, saveShp, saveShx, saveDbf; coral/raster.py save; coral/vector.py Canvas.save; coral/frame.py Frame.save, cachenames; coral/table.py writefile"),
      ("files ended by close()", "coral/pf.py Writer.close; coral/rg.py Writer.close, Reader.close")],
     ["bytes of the files while the writer lives and after, open file descriptors, exceptions under file size limits and on full devices"],
     level="fault_enumeration",
     technique="fault injection at run time (file size limits, full device, places that cannot be written) with monitors of contents and open descriptors")

prop("C45", "Shapefiles can be put together from what readers give",
     "A shapefile written from shapes and records that readers returned (of one file or several with the same fields and type, of this package or another program; all of them, some, in any order, repeated; handed over as they are, built again from points, elevations and measures, or opened in the editor; with the reader's own list of fields, a copy, or fields declared from it) is well-formed and has exactly those shapes and records, in that order, under those fields; deleted records and their shapes stay out. The sources and their readers go on as before, except where the new file replaces a source.",
     ["inputs", "histories"], "Values within the domains of C20, C21 and C26.",
     NONE + "no test reads or writes a shapefile.",
     ["coral/shapefile.py"],
     [("shapes as read and as made are told apart by their attributes (z, m, parts)", "coral/shapefile.py Writer.__zbox, __measures, __shpRecords"),
      ("the deletion flag is left out", "coral/shapefile.py Writer.__dbfHeader, record, Reader.shapeRecords"),
      ("lists of the writer are open to the program", "coral/shapefile.py Writer.shapes, records, fields")],
     ["shapes, records and fields of the new file, its bytes by an independent parser, what the old readers tell afterwards"],
     technique="runtime oracle: model of the expected contents, independent parser, old readers asked again")

exec(open(os.path.join(HERE, "tools", "more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "more.py")) else None

NOTE = ("Holds on the executions explored: seeded, boundary-biased random cases (counts, distinct cases, observed events and driven "
        "lines of the anchor files are in the evidence file) judged by an oracle that shares no code with coral. Trusts CPython and "
        "the oracle; says nothing about inputs outside the stated domain.")
FAULT = ("Faults or cut points are enumerated within each generated case; the cases themselves are seeded random. Trusts CPython, the "
         "oracle, and that a fault shows itself as modelled. ")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            anchors = {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]],
                       "observe_at": p["observe"], "hook_needed": None}
            if p["state"]:
                anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["domain"]},
                                "why_tests_cant": p["tests"], "anchors": anchors}, ensure_ascii=False) + "\n")
    m = {"version": 1,
         "setup_cmd": "python3 -m compileall -q vf >/dev/null 2>&1; python3 -c 'import sys; assert sys.version_info >= (3, 8)'",
         "hooks": {"guard": "none needed: the monitors observe coral through its public interface", "enable": "no hooks", "source_commits": []},
         "checks": [{"property": p["id"], "quick_cmd": "python3 run.py " + p["id"],
                     "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
                     "technique": p["technique"], "level": p["level"],
                     "level_note": (FAULT if p["level"] == "fault_enumeration" else "") + NOTE} for p in P],
         "not_applicable": []}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        n = p["statement"].count(". ") + 1
        assert n <= 3, (p["id"], n)


main()
