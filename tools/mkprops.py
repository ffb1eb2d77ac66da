"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=quant), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))

TIN = "toughio/_io/input/tough/"
prop("C01", "Fixed-width records: every value stays in its own columns",
 "Every record of a TOUGH input file that the library writes puts each value in exactly the columns its field owns, whatever the sign or magnitude of the number, so no value ever shifts or alters its neighbours, and an absent (None) value leaves its columns blank. Parsing a written record with the same field layout gives back, field by field, the blank-trimmed text, the integer, the number up to the digits the column can hold (0, sign and decades preserved), or None for an absent value. A list longer than one record is continued over successive records in order, losing, duplicating and reordering nothing.",
 ["inputs"], "all field layouts the library defines (every block, every label length 5-9), all finite floats of magnitude 0 or 1e-99..9.9e99 (three-digit exponents included where the column has room), integers and strings that fit their column, all presence/absence patterns, all list lengths",
 "Tests round-trip a few positive random numbers in [0,1); negative numbers, wide exponents and most presence patterns never reach a column boundary.",
 ["toughio/_common.py", TIN + "_helpers.py"],
 [("write_record/to_str", TIN + "_helpers.py"), ("read_record/str2float", TIN + "_helpers.py"), ("block_to_format/str2format", "toughio/_common.py")],
 ["text of write_input output", "read_input result"])

prop("C02", "Materials survive write then read (ROCKS, RPCAP, FLAC, INDOM)",
 "Writing a parameter set to a TOUGH input file and reading it back gives the same materials in the same order: every rock property that was set comes back under the same rock and key with the same value (to column precision), a scalar or three-component permeability keeps its meaning, and properties that were not set for a rock are taken from the 'default' entry, or stay absent. Relative permeability and capillarity models (id and parameter list), default models, FLAC permeability and equivalent-pore-pressure models, and per-rock initial conditions likewise come back attached to the rock they were given for.",
 ["inputs"], "all rock dictionaries with names of 1-5 non-blank characters, every subset of optional properties, every subset of models with up to 7 parameters, any number and order of rocks, with or without rocks_order; names not readable as numbers when initial conditions are given per rock; one initial-condition layout (up to 4 or 5-8 values) per file; blanks at the end of the lines of the file may be missing or added",
 "Tests set all optional properties together on one or two rocks with random positive values; they never mix rocks with and without the optional records, so column/record misalignment between rocks is not sampled.",
 [TIN + "_write.py", TIN + "_read.py", TIN + "_common.py"],
 [("_write_rocks/_read_rocks", TIN), ("_write_rpcap/_read_rpcap", TIN), ("_write_flac/_read_flac", TIN), ("_write_indom/_read_indom", TIN), ("default propagation in write", TIN + "_write.py")],
 ["write_input / read_input"])

prop("C03", "Run options survive write then read (PARAM, SELEC, SOLVR, TIMES, ...)",
 "Writing run options to a TOUGH input file and reading it back gives each option back under the same name with the same value (to column precision) and no option that was not given: computation parameters and time steps, MOP and MOMOP switches, SELEC integers and floats, solver settings, MULTI component/phase counts and isothermal flag, START and NOVER flags, output times, element/connection/generator histories, diffusion tables and output variables. The MOP/MOMOP digit for switch k is always the k-th digit, blank if unset. A file of blocks alone, as a block selection writes it, gives back exactly those blocks and no title; nothing after ENDCY is read.",
 ["inputs"], "all option dictionaries: every subset of keys present, all numeric values representable in the columns (negative ones included), any number of times, time steps, histories, diffusion records of up to 8 values, output variables with 0-2 integer arguments; IE(1) is the number of float records whatever was given for it; settings left out of a given block take the block's documented default, the output format is case-insensitive, and title lines do not start with a block keyword; blanks at the end of the lines of the file may be missing or added",
 "Tests set every option of a block at once with positive random values; subsets, negative values and counts that spill over one record are not covered.",
 [TIN + "_write.py", TIN + "_read.py", TIN + "_common.py"],
 [("_write_param/_read_param", TIN), ("_write_selec/_read_selec", TIN), ("_write_solvr/_read_solvr", TIN), ("_write_multi/_read_multi", TIN), ("_write_times/_read_times", TIN), ("_write_foft.../_read_oft", TIN), ("_write_diffu/_read_diffu", TIN), ("_write_outpu/_read_outpu", TIN)],
 ["write_input / read_input"])

prop("C04", "Generators survive write then read (GENER)",
 "Writing sources and sinks to a TOUGH input file (or a GENER file) and reading it back gives the same generators: each element label keeps its name, sequence numbers, type, layer thickness, constant rate and enthalpy or complete time, rate and enthalpy tables, value by value in order (to column precision). Several generators on one element come back in the same order with their own values and tables, and inconsistent definitions (table lengths or component counts that do not match, rate tables without times, a single enthalpy with a table of rates) are rejected with an error instead of being written.",
 ["inputs"], "all generator dictionaries with labels of equal length 5-9, one or several components per label, constant rates or tables of any length > 1, scalar or tabulated enthalpy, every subset of optional keys; blanks at the end of the lines of the file may be missing or added",
 "Tests use one fixed table length and fixed shapes per label length; table lengths around the four-per-record boundary and mixed presence of optional keys are not explored.",
 [TIN + "_write.py", TIN + "_read.py"],
 [("_write_gener/_read_gener", TIN)], ["write_input / read_input, block='gener'"])

prop("C05", "Mesh blocks survive write then read (ELEME, COORD, CONNE, INCON)",
 "Writing elements, coordinates, connections and initial conditions to a TOUGH input file (or MESH/INCON file) and reading it back gives the same entries in the same order (the dictionary order, or the explicit order list when given), each label with exactly its own material, volume, centre, distances, area, cosine, sequence numbers, porosity, userx and primary variables, to column precision. This holds for labels of any supported length 5 to 9, whether the length is given to the reader or inferred by it, and values that were not set stay absent.",
 ["inputs"], "all element/connection/initial-condition dictionaries with labels made of a letter and 4 characters followed by 0-4 digits (the form the reader can infer), any number of entries, every presence pattern, integer or textual materials, 1-4 or 5-8 primary variables (one layout per file); when the length is inferred, sequence numbers leave the first column of theirs blank and generator names do not start with a digit; blanks at the end of the lines of the file may be missing or added",
 "Tests fix 10 entries with all fields set and one label style; presence patterns, order lists and inference of the label length are only sampled at one point.",
 [TIN + "_write.py", TIN + "_read.py", "toughio/_common.py"],
 [("_write_eleme/_read_eleme", TIN), ("_write_coord/_read_coord", TIN), ("_write_conne/_read_conne", TIN), ("_write_incon/_read_incon", TIN), ("get_label_length", "toughio/_common.py")],
 ["write_input / read_input, block='mesh' and 'incon'"])

prop("C06", "Writing an input file is validated, complete, and without side effects",
 "write_input either writes a complete file or raises and leaves any existing target file untouched: a parameter of the wrong type, an unknown equation of state or an unknown block selection is rejected before the target is opened, while unknown keys are only skipped with a warning. The caller's parameter dictionary, lists and arrays are never modified, repeated writes of the same parameters give identical files, and no state leaks from one call into another. A block selection writes exactly the blocks it names ('all', 'gener', 'mesh', 'incon'), each at most once, in the documented order, with ENDCY last when everything is written.",
 ["inputs", "histories"], "every parameter of every validated section (the tables of tables included) with values of every supported and unsupported type, every block selection, every combination of present/absent sections, any sequence of calls",
 "Tests check a handful of wrong types on the record level; the frame condition (nothing else changes: caller data, module defaults, target file) is never asserted.",
 [TIN + "_write.py", TIN + "_helpers.py", TIN + "_common.py", "toughio/_io/input/_helpers.py"],
 [("check_parameters", TIN + "_helpers.py"), ("deepcopy of defaults and parameters", TIN + "_write.py"), ("buffer built before open", TIN + "_write.py")],
 ["target file, caller's dictionary, exceptions, log"])

prop("C07", "JSON input files are lossless",
 "Writing any valid parameter dictionary as JSON and reading it back gives an equal dictionary: same keys (the integer keys of extra_options, more_options and selections included), same values to full double precision, tuples and arrays as lists, and insertion order of rocks, elements, connections and initial conditions kept. Writing does not modify the caller's data and accepts the numpy scalar and array types that the TOUGH writer accepts; it replaces whatever the file held.",
 ["inputs"], "all parameter dictionaries of the documented schema: nesting, any key subset, Python and numpy integer/float/bool scalars, lists, tuples, arrays, None",
 "Tests round-trip one fixed dictionary.",
 ["toughio/_io/input/json/_json.py"], [("jsonify/to_int", "toughio/_io/input/json/_json.py")], ["write_input / read_input with file_format='json'"])

prop("C08", "Cell labels are unique, fixed-length and recoverable",
 "For every number of cells up to the capacity of the label length, the mesh labels are pairwise distinct, all have exactly the requested length (or the smallest sufficient length of 5 or more when not given), start with an upper-case letter, and depend only on the position of the cell, so the i-th label never changes with the mesh size at equal length. The label length recovered from any such label followed by blanks or by a second label's first letter is the length it was generated with, and automatic lengthening happens exactly when the shorter labels are exhausted.",
 ["inputs"], "every mesh size from 1 to 3,185,000 x 10^4 cells, every label length 5 to 9, every cell index",
 "Tests only check the length of labels for a few small meshes; uniqueness over millions of labels and the carry between characters are not enumerated.",
 ["toughio/_mesh/_common.py", "toughio/_common.py", "toughio/_mesh/_mesh.py"],
 [("labeler", "toughio/_mesh/_common.py"), ("get_label_length", "toughio/_common.py")], ["Mesh.labels", "read_input label inference"])

prop("C09", "Cell geometry is exact: volumes, centres, face normals and areas",
 "For every mesh of convex tetrahedra, pyramids, wedges and hexahedra with planar faces, the reported volume, centre (mean of the nodes), face areas and unit face normals of each cell equal the geometric ones, whatever the position, orientation, node-numbering symmetry or mixture and order of cell blocks, and each is attached to its own cell and face. Volumes are positive, translation and rotation invariant, scale with the cube (areas with the square) of the size and add up to the volume of the domain; every face normal is a unit vector orthogonal to its face pointing out of the cell for cells in the standard node ordering.",
 ["inputs"], "all node coordinates forming convex cells with planar faces of the four first-order cell types in standard node order, any number of cells and blocks, any mixture of types",
 "Tests compare one small hybrid mesh against stored numbers (not loadable in the baseline) and unit grids; permutation errors that cancel on unit cubes are invisible.",
 ["toughio/_mesh/_properties.py", "toughio/_mesh/_mesh.py"],
 [("_volumes (tetrahedral decomposition)", "toughio/_mesh/_properties.py"), ("_face_normals/_face_areas", "toughio/_mesh/_properties.py"), ("_faces", "toughio/_mesh/_properties.py"), ("centers", "toughio/_mesh/_mesh.py")],
 ["Mesh.volumes/centers/faces/face_normals/face_areas"])

prop("C10", "Mesh connections are exactly the shared faces, both ways",
 "For every conforming 3D mesh, two cells are connected if and only if they share a face; the connection appears in both rows, at the index of the face that is shared (so the two faces have the same nodes), and every other entry is -1. The result does not depend on the order of cells, blocks or points, nor on the node order within a cell's face, and the quality of each cell is the smallest absolute cosine between its connection lines and interface normals.",
 ["inputs"], "all conforming meshes of tetrahedra, pyramids, wedges and hexahedra, any mixture, any numbering of points, cells and blocks",
 "Tests compare a single stored mesh that is not loadable in the baseline.",
 ["toughio/_mesh/_properties.py", "toughio/_mesh/_mesh.py"],
 [("_connections/_get_faces", "toughio/_mesh/_properties.py"), ("_qualities", "toughio/_mesh/_properties.py")], ["Mesh.connections", "Mesh.qualities"])

prop("C11", "MESH and INCON exported from a mesh describe that mesh",
 "The MESH file written from a mesh has one ELEME record per cell with its label, (renamed) material, volume and centre, cells of the 'end' materials moved last and otherwise in mesh order, and one CONNE record per pair of cells sharing a face with both labels, the axis of the connecting line, each cell's own distance to the shared face, the face area and the cosine of the angle between the line and the downward vertical. Cells flagged as boundary condition get a volume multiplied by 1e50 and a nodal distance of 1e-9 without the mesh being modified. The INCON file has one record for every cell with a defined primary variable, porosity or permeability modifier, carrying exactly the defined values and blanks elsewhere. Both replace whatever the files held.",
 ["inputs", "configurations"], "all 3D meshes, labels of any length, both nodal-distance methods, every material renaming/ordering (names of any length up to 5), any boundary flags, any pattern of defined and undefined (-1e9) initial conditions with up to 8 primary variables, at least one of them defined in the mesh, any porosity/permeability arrays",
 "The corresponding tests need data files that are absent from the baseline; boundary cells, end materials and negative primary variables have no test at all.",
 ["toughio/_mesh/tough/_tough.py", "toughio/_mesh/tough/_helpers.py"],
 [("write_mesh/_write_eleme/_write_conne", "toughio/_mesh/tough/_tough.py"), ("record formatting", "toughio/_mesh/tough/_helpers.py"), ("_intersection_line_plane/_distance_point_plane/_isot", "toughio/_mesh/tough/_tough.py")],
 ["text of MESH and INCON"])

prop("C12", "Mesh generators build exactly the requested grid",
 "A structured grid built from spacings dx, dy(, dz) has exactly nx*ny(*nz) cells, in the documented order (column by column, or layer by layer when requested, in both cases from top to bottom in 3D), cell (i,j,k) being the box bounded by the cumulative spacings from the origin; neighbouring cells share their nodes and all cells carry the default material. A cylindric grid reports the volumes and face areas of the annular cells of its own ordering, voxelizing the cell centres of a structured grid with its origin rebuilds that grid, and invalid arguments are rejected.",
 ["inputs"], "all positive spacing sequences of any length, any origin, both orderings, 2D and 3D (voxelizing takes a unit thickness along an axis with a single cell)",
 "Tests check totals (sum of volumes, extents) for one or two fixed spacings; cell order and cell-to-value association are not asserted.",
 ["toughio/meshmaker/_structured_grid.py", "toughio/meshmaker/_cylindric_grid.py", "toughio/meshmaker/_voxelize.py", "toughio/meshmaker/_triangulate.py"],
 [("_grid_3d/_grid_2d", "toughio/meshmaker/_structured_grid.py"), ("CylindricMesh", "toughio/meshmaker/_cylindric_grid.py"), ("voronoi1d", "toughio/meshmaker/_voxelize.py")],
 ["Mesh points/cells/volumes/face_areas"])

prop("C13", "Extrusion, pruning and splitting preserve the mesh content",
 "Extruding a 2D mesh of triangles and quadrangles by a list of heights gives, for every 2D cell and every height, exactly one prism over that cell between the cumulative heights, with the 2D cell's data, and point data copied to every level. Pruning duplicates removes exactly the duplicated points and cells: the set of distinct points and of distinct cells (as point-coordinate sets) is unchanged and each kept point and cell keeps its own data. With inplace=False the original mesh is untouched; splitting an array by cell blocks and concatenating gives it back.",
 ["inputs"], "all meshes of triangles and quadrangles in any number of blocks, any list of heights, any axis; all meshes with arbitrary duplicated points and cells made of distinct points, any scalar or vector point/cell data",
 "Tests extrude one grid by one height along each axis and prune one merged mesh, checking counts only.",
 ["toughio/_mesh/_mesh.py"], [("extrude_to_3d", "toughio/_mesh/_mesh.py"), ("prune_duplicates", "toughio/_mesh/_mesh.py"), ("split", "toughio/_mesh/_mesh.py")],
 ["Mesh points, cells, cell_data, point_data"])

prop("C14", "Materials assigned to cells stay consistent over any history",
 "After any sequence of material assignments, the material reported for a cell is the name last assigned to it (its initial material if none), distinct names never share an identifier, and cells that were not selected keep their material. Cells may be given as indices or as a boolean sequence of mesh size; out-of-range indices, wrong sizes and non-integer selections are rejected without changing the mesh, and data arrays added to the mesh must match its size.",
 ["inputs", "histories"], "all sequences of assignments of old and new names to any index list or boolean mask (empty ones included), starting from any mesh whose materials are all named",
 "Tests assign one new material once; collisions need a history in which a name loses all its cells.",
 ["toughio/_mesh/_mesh.py", "toughio/_mesh/_properties.py"],
 [("set_material", "toughio/_mesh/_mesh.py"), ("_materials", "toughio/_mesh/_properties.py"), ("add_cell_data/add_point_data", "toughio/_mesh/_mesh.py")],
 ["Mesh.materials"], [("cell_data['material'], field_data", "identifier per cell and identifier per name", "toughio/_mesh/_mesh.py")])

prop("C15", "Spatial queries and data transfer return what they claim",
 "The nearest-cell query returns, for every query point, a cell whose centre is at minimal distance (the first one on ties); the box filter returns in increasing order exactly the cells whose centre lies in the closed box, an omitted bound meaning no restriction (a length is given only with its bound). Converting point data to cell data gives every cell the mean of its own points' values and converting cell data to point data gives every point the volume-weighted mean of the cells that use it, component by component, so constants are preserved, results stay within the range of the data used, and the data are moved, not kept.",
 ["inputs"], "all meshes whose points are all used by a cell, query points, box bounds (any subset omitted), scalar and vector data arrays",
 "Tests query a few random points and check the mean conversions on one mesh with scalar data.",
 ["toughio/_mesh/_mesh.py", "toughio/_mesh/_common.py", "toughio/_mesh/_filter/box/_box.py"],
 [("near", "toughio/_mesh/_mesh.py"), ("filter_", "toughio/_mesh/_filter/box/_box.py"), ("interpolate_data", "toughio/_mesh/_common.py")], ["Mesh.near/filter/point_data_to_cell_data/cell_data_to_point_data"])

prop("C16", "Mesh file formats keep geometry, connectivity and data",
 "Writing a mesh to AVS-UCD, FLAC3D (text or binary), Tecplot or pickle and reading it back gives the same points, the same cells with the same node order up to the format's documented cell representation, and the same material numbers and data arrays attached to the same cells and points, to the precision the format prints. Converting to and from meshio or pyvista keeps points, cells, data and names (pixels and voxels become quadrangles and bricks; from pyvista, blanks in array names become underscores), and reading, converting or writing never modifies the mesh in memory; writing replaces whatever the file held. A file of another program (node and cell numbers of its own, rows of data in any order, lines of any length, alternative keywords of the format) reads as the mesh it describes.",
 ["inputs"], "all 3D meshes of first-order cells in any number and order of blocks of each type, any numeric data arrays with plain names, any material names; documented representations: FLAC3D keeps groups by name, lists volumes before faces and left-handed cells from their mirrored base; AVS has a node order of its own; Tecplot stores volumes as bricks with collapsed nodes (the same faces), skips surface cells next to volumes and stores a vector array as one array per component",
 "Tests round-trip two fixed meshes; block mixtures, material gaps and value extremes are not sampled.",
 ["toughio/_mesh/avsucd/_avsucd.py", "toughio/_mesh/flac3d/_flac3d.py", "toughio/_mesh/tecplot/_tecplot.py", "toughio/_mesh/pickle/_pickle.py", "toughio/_mesh/_helpers.py", "toughio/_mesh/_mesh.py"],
 [("read/write", "toughio/_mesh/avsucd/_avsucd.py"), ("read/write", "toughio/_mesh/flac3d/_flac3d.py"), ("read/write", "toughio/_mesh/tecplot/_tecplot.py"), ("to_meshio/from_meshio", "toughio/_mesh/_mesh.py"), ("to_pyvista/from_pyvista", "toughio/_mesh/_mesh.py")], ["read_mesh / write_mesh"])

prop("C17", "Simulation output survives conversion between formats",
 "Writing simulation output (one or several time steps, element or connection data) to the CSV, PetraSim or Tecplot formats and reading it back gives, for every time step, the same time, the same labels in the same order and the same value of every variable for every label, to the printed precision. Ordering output by a list of labels attaches to the i-th label of the list exactly the values it had before, for every time step, and a list that does not cover the labels is rejected. The format written follows the file's extension or the format named, a PetraSim file numbers its rows, and a file no reader recognises is refused; writing replaces whatever the file held.",
 ["inputs"], "all outputs with any number of time steps (increasing times), labels, variables (coordinates X, Y, Z present or not where the format allows), any finite values (negative, zero, three-digit exponents), any permutation of labels; labels without leading or trailing blanks (Tecplot stores none), times distinct at the printed precision, element data for PetraSim and Tecplot",
 "Tests read stored files absent from the baseline and round-trip one random output; the association of values to labels under permutations is not exercised.",
 ["toughio/_io/output/csv/_csv.py", "toughio/_io/output/petrasim/_petrasim.py", "toughio/_io/output/tecplot/_tecplot.py", "toughio/_io/output/_common.py", "toughio/_io/output/_helpers.py"],
 [("csv read/write", "toughio/_io/output/csv/_csv.py"), ("petrasim read/write", "toughio/_io/output/petrasim/_petrasim.py"), ("tecplot read/write", "toughio/_io/output/tecplot/_tecplot.py"), ("reorder_labels/to_output", "toughio/_io/output/_common.py")], ["write_output / read_output"])

prop("C18", "Results are imported onto the right cells and time steps",
 "Importing element results into a mesh gives each cell the values of the result row that bears its label, whatever the row order, for the requested time step (counted from either end), refusing steps out of range and results of another size; importing connection results counts every connection once: a vector of the connection's value along the unit vector from the second centre to the first, added to the first cell if the value is positive and to the second one otherwise. Reading a SAVE file (an INCON file) gives each label its own primary variables, porosity and user values. A written time series comes back in increasing time order with every time step's own data. A history file (quoted CSV or blank-separated) gives the time and every column under its own header, row by row.",
 ["inputs", "histories"], "all meshes, all permutations of result rows, all time-step counts and indices, any SAVE/INCON content (values left blank are undefined), any order of the given distinct time steps, history files with any number of columns and rows (one-word headers where blanks separate them)",
 "The tests that would read outputs need absent files; row permutations and step selection have no test.",
 ["toughio/_mesh/_mesh.py", "toughio/_io/output/_common.py", "toughio/_io/output/save/_save.py", "toughio/_io/output/_helpers.py", "toughio/_mesh/_helpers.py"],
 [("Mesh.read_output", "toughio/_mesh/_mesh.py"), ("reorder_labels", "toughio/_io/output/_common.py"), ("save.read", "toughio/_io/output/save/_save.py"), ("write_time_series/read_time_series", "toughio/_mesh/_helpers.py"), ("read_history", "toughio/_io/output/_helpers.py")], ["Mesh.cell_data", "read_output of a SAVE file", "read_time_series", "read_history"])

prop("C19", "Relative permeabilities are physical over the whole saturation range",
 "For every relative permeability model with admissible parameters and every liquid saturation in [0,1], both relative permeabilities are defined, lie in [0,1], the liquid one never decreases and the gas one never increases with liquid saturation (Pickens' gas value is constantly 1), and the curves take the model's end-point values and documented formula in between. Evaluating an array gives the scalar results in order, saturations outside [0,1] are rejected, and each model carries its own distinct TOUGH identifier, name and parameters in the documented order.",
 ["inputs"], "all saturations in [0,1] and all admissible real parameters of the seven models (0<=slr, 0<=sgr, slr+sgr<1, slr<sls<=1, 0<m<1, exponents > 0; Verma with b <= 0, c >= 0, b + 2c <= 0 and sls > slr for gas monotonicity)",
 "The corresponding tests compare stored curves that are absent from the baseline; no test asserts range or monotonicity.",
 ["toughio/relative_permeability/" + f for f in ("_base.py", "_corey.py", "_fatt_klikoff.py", "_grant.py", "_linear.py", "_pickens.py", "_van_genuchten_mualem.py", "_verma.py")],
 [("_eval of each model", "toughio/relative_permeability/"), ("__call__", "toughio/relative_permeability/_base.py")], ["model(sl)", "model.id/name/parameters"])

prop("C20", "Capillary pressures are physical over the whole saturation range",
 "For every capillarity model with admissible parameters and every liquid saturation in [0,1], the capillary pressure is defined, real and never positive, and for the linear, TRUST and van Genuchten models bounded below by minus the model's maximum pressure and non-decreasing with liquid saturation, reaching the model's end-point values (Pickens' is monotone too, in the direction its exponent's sign gives); in between it follows the documented formula. Evaluating an array gives the scalar results in order, saturations outside [0,1] are rejected, and each model carries its own distinct TOUGH identifier, name and parameters in the documented order.",
 ["inputs"], "all saturations in [0,1] and all admissible real parameters of the five models (pressures >= 0, 0 < slr < 1, 0 < m < 1, alpha > 0, eta > 0, x != 0, slr < sls <= 1, sl0 >= 1, slr <= 0.99; the sign of TRUST's pmax and of van Genuchten's alpha and pmax is immaterial)",
 "The corresponding tests compare stored curves that are absent from the baseline.",
 ["toughio/capillarity/" + f for f in ("_base.py", "_linear.py", "_milly.py", "_pickens.py", "_trust.py", "_van_genuchten.py")],
 [("_eval of each model", "toughio/capillarity/"), ("__call__", "toughio/capillarity/_base.py")], ["model(sl)", "model.id/name/parameters"])

prop("C21", "Command-line tools transform files without losing content",
 "'merge' produces the input file with the complete MESH (and INCON if present) content inserted before the final ENDCY/ENDFI line and every other line unchanged and in order; 'save2incon' copies a SAVE file line for line, stopping before the '+++' restart section and closing the block with a blank line when counters are reset; 'extract' writes the output's values with the coordinates of each row's own element, in the requested format, one file per time step when splitting. Invalid or missing input files are rejected with an error and without altering an existing target.",
 ["inputs", "configurations"], "all well-formed input (with one ENDCY/ENDFI line), MESH, INCON and SAVE files of any length, TOUGH main output files whose table columns are separated by blanks or touch where numbers of one width are negative, labels starting with a letter, all option combinations",
 "The tests for these tools depend on absent data files except for one merge case.",
 ["toughio/_cli/_merge.py", "toughio/_cli/_save2incon.py", "toughio/_cli/_extract.py"],
 [("merge", "toughio/_cli/_merge.py"), ("save2incon", "toughio/_cli/_save2incon.py"), ("extract", "toughio/_cli/_extract.py")], ["output files"])

prop("C22", "Exported results sit where and when they were computed",
 "'export' puts every value of the output at its own place in the exported file: with a mesh, in the cell that bears the label of the row; without a mesh, in the cell centred at the coordinates of the row when the rows are voxelized (column by column or layer by layer), or at the point with these coordinates when they are triangulated. One file holds the requested time step (the last one by default, counted from either end), and an XDMF file every time step in time order with its own values. Inputs that cannot be exported (missing files, coordinates or origin, a step out of range, an unknown format) are rejected without writing anything. Triangulating points keeps them in order and fills their hull with cells of the given material; 'co2tab' copies the CO2 table unchanged.",
 ["inputs", "configurations"], "all element outputs in CSV, PetraSim or Tecplot format, with any number of time steps, rows in any order and any values; voxelized rows are the cell centres of a structured grid (of unit thickness along the axes with a single cell) whose origin is given",
 "No test runs the tool: they depend on output files that are absent from the repository.",
 ["toughio/_cli/_export.py", "toughio/_cli/_co2tab.py", "toughio/meshmaker/_triangulate.py", "toughio/meshmaker/_voxelize.py", "toughio/_mesh/_mesh.py"],
 [("export", "toughio/_cli/_export.py"), ("_get_points", "toughio/_cli/_export.py"), ("voxelize", "toughio/meshmaker/_voxelize.py"), ("triangulate", "toughio/meshmaker/_triangulate.py"), ("co2tab", "toughio/_cli/_co2tab.py")], ["exported files"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
