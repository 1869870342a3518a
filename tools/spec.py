"""Source of properties.jsonl and MANIFEST.json: `python tools/spec.py` rewrites both."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, tech, note, level="exploration"):
    P.append(
        dict(
            p=dict(
                id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None),
            ),
            c=dict(
                property=id, quick_cmd=f"bin/check {id} quick", thorough_cmd=f"bin/check {id} thorough",
                technique=tech, level=level, level_note=note,
            ),
        )
    )  # fmt: skip


EXPL = "Online/offline monitors over executions of the real code; shows the property on the generated executions only. "

prop(
    "C01", "Face extraction is an exact partition with exact adjacency",
    "For any conforming mesh given by its cells, the faces which are extracted are exactly the faces of the cells, each of them once. "
    "A face shared by two cells is internal and points to these two cells, any other one is a boundary face and points to its only cell. "
    "This does not depend on element types, their mixture, or the numbering of nodes and cells.",
    ["inputs"], "all conforming 2D (tri3, quad4) and 3D (tetra4, pyra5, prism6, hexa8) meshes, mixtures, node and cell numberings, cell index layouts",
    "Tests extract the faces of a few fixed meshes and look at counts; the mixture of elements, numbering and adjacency are unbounded.",
    ["cfdtools/meshbase/_connectivity.py", "cfdtools/meshbase/_elements.py", "cfdtools/meshbase/_mesh.py"],
    [("face tables of elements", "cfdtools/meshbase/_elements.py elem2faces"), ("creation and matching of faces", "cfdtools/meshbase/_connectivity.py elem_connectivity.create_faces_from_elems"), ("mixed face export", "cfdtools/meshbase/_mesh.py Mesh.make_face_connectivity, Mesh.export_mixedfaces")],
    ["faces and face-to-cell tables returned by the mesh"],
    "runtime monitoring: differential monitor of the extracted face table against an independently computed face map on random conforming meshes",
    EXPL + "Trusts the harness's own element tables and mesh generator (conformity is asserted by the generator).",
)
prop(
    "C02", "Faces are oriented: outward from the first cell, cells are closed",
    "The nodes of an extracted face are a cycle around the face whose normal points out of its first cell, thus into its second one or out of the domain. "
    "As a consequence the area vectors around any cell sum up to zero and the volume computed from the faces is the volume of the cell.",
    ["inputs"], "all positively oriented conforming meshes with linear elements, whatever their numbering and geometry",
    "No test evaluates any geometric quantity of faces; orientation depends on each element face, which of the two cells comes first, and numbering.",
    ["cfdtools/meshbase/_elements.py", "cfdtools/meshbase/_connectivity.py"],
    [("oriented face tables", "cfdtools/meshbase/_elements.py elem2faces"), ("first/second cell selection", "cfdtools/meshbase/_connectivity.py elem_connectivity.create_faces_from_elems")],
    ["faces and face-to-cell tables returned by the mesh"],
    "runtime monitoring: divergence-theorem oracle (closure, volume) and orientation monitor on the extracted faces of random meshes",
    EXPL + "Volumes are compared with values computed by the harness with a tolerance of 1e-10 relative to the mesh size.",
)
prop(
    "C03", "Boundary marks cover the boundary faces exactly once, none lost",
    "When a mesh with node marks is turned into face marks, each mark holds exactly the boundary faces whose nodes are all marked; boundary faces outside of all marks are collected into one additional mark. "
    "After renumbering, boundary faces come mark by mark as contiguous ranges which cover the boundary exactly once, followed by internal faces, and each face keeps its nodes, cells and mark.",
    ["inputs"], "all conforming meshes and sets of disjoint boundary marks, incomplete ones included",
    "Tests check names of marks only; which faces are in a mark, before and after reindexing, is never compared.",
    ["cfdtools/meshbase/_mesh.py"],
    [("node marks to face marks", "cfdtools/meshbase/_mesh.py Mesh.bocomarks_set_node_to_face"), ("unmarked faces", "cfdtools/meshbase/_mesh.py Mesh.make_unmarked_BC"), ("range compression and renumbering", "cfdtools/meshbase/_mesh.py Mesh.reindex_boundaryfaces")],
    ["marks and face tables of the mesh after conversion", "face ranges in written IC3 files"],
    "runtime monitoring: mark conservation and coverage monitor against an independent node/face set model, before and after the mark operations",
    EXPL + "Marks sharing a face, and marks whose nodes enclose a face of another mark, are out of scope (ambiguous).",
)
prop(
    "C04", "Extrusion builds the conforming and fully marked 3D mesh",
    "Extruding a 2D mesh over n planes gives one node per node and plane at its displaced position, and one prism or hexahedron of positive volume per 2D cell and layer, numbered without gap. "
    "Marks of the 2D mesh become the lateral surfaces above them, with their kind and periodic transformation, the first and last planes get their own marks, and the result is a conforming mesh which can be written and read back as such.",
    ["inputs"], "all 2D tri3/quad4/mixed meshes with boundary marks, all plane positions and extrusion directions (positive side)",
    "One test extrudes one mesh and checks sizes; conformity, numbering, marks and volumes are not observed.",
    ["cfdtools/meshbase/_mesh.py", "cfdtools/meshbase/_elements.py"],
    [("extruded connectivity and marks", "cfdtools/meshbase/_mesh.py Mesh.export_extruded"), ("extruded element types", "cfdtools/meshbase/_connectivity.py elem_connectivity.extrude")],
    ["extruded mesh: nodes, cells, marks, faces", "IC3 file of the extruded mesh"],
    "runtime monitoring: differential monitor of the extruded mesh against an independent product construction, plus face and volume oracles",
    EXPL + "The independent 3D mesh is built by the harness.",
)
prop(
    "C05", "Scaling and morphing move the nodes and nothing else",
    "Scaling or morphing a mesh applies the requested map to each node position, in sequence, whether or not faces were already extracted, and the written file holds these positions. "
    "Cells, faces, marks, data, periodic properties and the arrays given by the user are left as they were.",
    ["inputs", "histories"], "all meshes (built, generated, or read from any supported format) and all sequences of scale and morph operations",
    "Tests check one scale and one morph on one mesh.",
    ["cfdtools/meshbase/_mesh.py"],
    [("node operations", "cfdtools/meshbase/_mesh.py Mesh.scale, morph, set_nodescoord_*")],
    ["mesh content before and after", "coordinates in written files"],
    "runtime monitoring: before/after frame monitor on the whole mesh state and the written file, over random sequences of operations",
    EXPL,
)
prop(
    "C06", "Index lists and connectivity tables behave as the lists they stand for",
    "Whatever the sequence of operations, an index list has the size, order, membership and content of the plain list it stands for, in range or list form, and a connectivity table holds exactly the elements which were added with their index. "
    "Compression, conversion to and from the compressed row form, merges, queries and iterations never lose, duplicate or change an element.",
    ["histories", "inputs"], "all sequences of operations on index lists, index pairs and connectivity tables",
    "Tests run each operation once on small constants.",
    ["cfdtools/meshbase/_connectivity.py"],
    [("index storage", "cfdtools/meshbase/_connectivity.py indexlist"), ("connectivity tables", "cfdtools/meshbase/_connectivity.py elem_connectivity, compressed_listofindex, indexindirection")],
    ["values returned by every operation"],
    "runtime monitoring: model-based trace checker, each step of a random history compared with a plain list/dict model",
    EXPL,
)
prop(
    "C07", "IC3 v2/v3 write then read keeps the mesh, bit for bit",
    "A mesh written to IC3 v2 or v3, in any byte order, is a well formed file whose coordinates, faces, cells, zones, periodic transforms and partition are those of the mesh, bit for bit. "
    "Reading it gives the same mesh, and writing that again, in the same format, gives the same file.",
    ["inputs", "configurations"], "all meshes with marks, periodic zones and partitions; versions 2 and 3; native, little and big endian",
    "Tests only check that reading and writing do not raise, on two files.",
    ["cfdtools/ic3/reader_legacy.py", "cfdtools/ic3/writerV2.py", "cfdtools/ic3/writerV3.py", "cfdtools/ic3/_ic3.py"],
    [("readers", "cfdtools/ic3/reader_legacy.py reader"), ("writers", "cfdtools/ic3/writerV2.py, writerV3.py writer")],
    ["bytes of the written file (independent parser)", "mesh read back"],
    "runtime monitoring: offline checker (independent parser of the file format) and round-trip monitor over random meshes, versions and byte orders",
    EXPL + "The file layout is the one of the harness's own parser, validated on the restart files of the repository.",
)
prop(
    "C08", "IC3 v2/v3 write then read keeps fields, state and averaging weights",
    "Every node and cell scalar, vector and integer field and cell tensor of a mesh, its step, time and time step, and the averaging weights are in the written IC3 v2 or v3 file under their name and location, bit for bit in the precision of the format. "
    "Reading gives them back at the same location with the same shape, also if fields of different location have equal sizes, and nothing more; a name which the format cannot hold is refused, never replaced by another.",
    ["inputs", "configurations"], "all sets of fields (names of any characters, locations, types, shapes, dofs), states, weights; versions 2 and 3; byte orders",
    "Tests do not look at a single value of a field.",
    ["cfdtools/ic3/reader_legacy.py", "cfdtools/ic3/writerV2.py", "cfdtools/ic3/writerV3.py", "cfdtools/ic3/_ic3.py"],
    [("data sections", "cfdtools/ic3/reader_legacy.py _ReadInformativeValues, _ReadRestartVar; writerV2.py/writerV3.py __WriteRestartVar, __WriteInformativeValues")],
    ["bytes of the written file (independent parser)", "data of the mesh read back"],
    "runtime monitoring: offline checker (independent parser) and round-trip monitor over random fields, sizes and byte orders",
    EXPL + "Face data is not rewritten by the tool and is out of scope; version 3 stores several dofs per cell.",
)
prop(
    "C09", "IC3 v2/v3 files from elsewhere are read and converted for what they hold",
    "A valid IC3 v2 or v3 file, whatever wrote it, is read for exactly the mesh, zones, data and parameters it holds, with any byte order, section order, optional sections, or unknown sections to skip. "
    "The header listing shows each of its sections, and converting it keeps mesh and data.",
    ["inputs"], "all valid files: byte orders, orders of sections, presence of check sections, unknown sections, numbers of dofs",
    "Tests read two files, both written by the same solver on the same machine.",
    ["cfdtools/ic3/reader_legacy.py", "cfdtools/ic3/_ic3.py", "cfdtools/_cli.py"],
    [("section reader", "cfdtools/ic3/_ic3.py binreader; reader_legacy.py reader")],
    ["mesh read", "printed headers", "converted files"],
    "runtime monitoring: files produced by an independent writer, monitor compares what is read, listed and converted with what was put in",
    EXPL,
)
prop(
    "C10", "Incomplete or inconsistent IC3 files are rejected, failed writes reported",
    "An IC3 file cut anywhere before its end, or whose faces and zones refer to nodes, cells or faces it has not, or whose stored connectivity check is wrong when checks are asked (of a reader or by the option of a tool), is never read as a mesh: reading and converting end with an error and no output is presented as a result. "
    "A write which the system stops before completion ends with an error.",
    ["crash_points", "fault_sequences", "inputs"], "all cut positions in valid files (v2, v3, v4), corruptions of check sections, file size limits reached during writing",
    "No test reads a damaged file nor fails a write.",
    ["cfdtools/ic3/_ic3.py", "cfdtools/ic3/reader_legacy.py", "cfdtools/ic3/readerV4.py", "cfdtools/ic3/writerV2.py"],
    [("bounded binary reads", "cfdtools/ic3/_ic3.py BinaryRead, restartSectionHeader.readVar"), ("integrity checks", "cfdtools/ic3/reader_legacy.py _ReadRestartConnectivity")],
    ["exception or not", "files created"],
    "runtime monitoring under fault injection: cut points and write faults enumerated/sampled, monitor watches for silent acceptance",
    "Cut points: every section boundary of every generated file and its neighbourhood; every byte of small files in thorough. Sampled elsewhere.",
    level="fault_enumeration",
)
prop(
    "C11", "IC3 v4 files keep mesh, marks, solution, statistics, and convert both ways",
    "A mesh written to IC3 v4 gives a file which holds its nodes, faces, marks with their kind and periodic transform, and its conservative solution, statistics, weights, step and time, which are read back the same. "
    "Going from v2/v3 to v4 and back, or from v4 files written elsewhere, loses none of these.",
    ["inputs", "configurations"], "all meshes with marks, periodic zones, solution and statistics; chains of conversions v2/v3/v4",
    "One test writes one v4 file from one mesh; no content is compared.",
    ["cfdtools/ic3/writerV4.py", "cfdtools/ic3/readerV4.py"],
    [("HDF5 layout", "cfdtools/ic3/writerV4.py writer, readerV4.py reader")],
    ["HDF5 content (h5py)", "mesh read back", "converted files"],
    "runtime monitoring: offline checker with h5py, round-trip and conversion-chain monitors",
    EXPL + "Version 4 has no node data nor time step; these are not expected.",
)

prop(
    "C12", "GMSH files are read for the mesh and the named boundaries they hold",
    "A mesh written in a GMSH ASCII file (2.2 or 4.1) is read with exactly its nodes, its cells with their nodes, and one mark per named boundary group holding the nodes of its faces, whatever the tags, their order or gaps, and the names. "
    "Once exported, each mark holds exactly the faces of its group and converting the file gives these zones.",
    ["inputs", "configurations"], "all conforming meshes of linear elements in both formats, all tag numberings, group layouts and names",
    "Tests read a handful of files from one GMSH run, with dense ordered tags, and compare no connectivity.",
    ["cfdtools/gmsh/reader.py", "cfdtools/gmsh/_gmsh.py", "cfdtools/meshbase/_mesh.py"],
    [("ASCII readers of both formats", "cfdtools/gmsh reader, read_data, export_mesh")],
    ["mesh read", "marks", "converted IC3 files (independent parser)"],
    "runtime monitoring: files from an independent GMSH writer with hostile numberings; monitor compares nodes, cells, marks and converted zones with the source mesh",
    EXPL,
)
prop(
    "C13", "CGNS files are read for the mesh and the boundaries they hold",
    "A mesh stored in a CGNS/HDF5 file is read with exactly its nodes, its cells with their nodes, and one mark per boundary condition family holding the nodes of its faces, whatever the order of sections and however the condition designates its elements. "
    "In files of several zones and bases, the requested zone is read. Once exported, each mark holds exactly the faces of its condition and converting the file gives these zones.",
    ["inputs", "configurations"], "all unstructured files of linear elements, of one or several zones and bases, all orders and splittings of sections, all ways to list a boundary",
    "Tests read two files and only compare numbers of cells and marks.",
    ["cfdtools/cgns/cgns.py", "cfdtools/meshbase/_mesh.py"],
    [("CGNS tree reader", "cfdtools/cgns cgnsMesh.read_data, export_mesh")],
    ["mesh read", "marks", "converted IC3 files (independent parser)"],
    "runtime monitoring: files from an independent CGNS/HDF5 writer with hostile layouts; monitor compares nodes, cells, marks and converted zones with the source mesh",
    EXPL,
)
prop(
    "C14", "Results do not depend on what was done before nor on other meshes alive",
    "An operation (reading, face extraction, extrusion, writing, conversion, spectrum, plane averages) gives in a process which did others before, or interleaved with others, the same result as in a fresh process. "
    "Exporting or writing the same object twice gives the same thing twice, whatever was done with the first export.",
    ["histories"], "all sequences and interleavings of operations of the package in one process",
    "Tests run each operation once or twice on its own file; hidden shared state needs particular histories.",
    ["cfdtools/meshbase/_mesh.py", "cfdtools/ic3/_ic3.py", "cfdtools/api.py", "cfdtools/utils/polybase.py", "cfdtools/data.py"],
    [("module-level and class-level state", "cfdtools/api.py registries, mutable default values, class attributes, memoization")],
    ["values and files produced"],
    "runtime monitoring: differential execution of random operation histories against fresh processes",
    EXPL,
)
prop(
    "C15", "VTK meshes written, read, exported, dumped or extracted are the same mesh",
    "A mesh exported to VTK and written is the same points and cells, in the same order, for any VTK reader; a VTK grid read gives back the same points and cells, with their volumes. "
    "Dumping it to HDF5 and importing it, or extracting some cells, keeps these cells, their points and values.",
    ["inputs", "configurations"], "all meshes of linear elements, element types interleaved or not, single or double precision points, index given in any form, all selections of cells",
    "Tests compare numbers of cells on two grids of a single element type.",
    ["cfdtools/vtk/_vtk.py", "cfdtools/hdf5/_hdf5.py", "cfdtools/meshbase/_elements.py"],
    [("VTK bridge", "cfdtools/vtk vtkMesh")],
    ["VTU files read by pyvista", "HDF5 content (h5py)", "meshes exported"],
    "runtime monitoring: round-trip monitors with pyvista and h5py as external readers, on generated meshes and grids",
    EXPL,
)

prop(
    "C16", "Packing a series of VTK files keeps each value on its cell",
    "A series of VTK files of the same mesh is packed such that, at each instant, each value is that of its cell, whatever the order of cells and nodes in each file, and with all and only requested fields and the time of each file. "
    "A file whose cells are not those of the first one (displaced, missing, added or repeated cells) is refused, and files with cells or points in another order are reported.",
    ["inputs", "configurations"], "all meshes, with element types interleaved or not, all cell and node orders in each file, numbers of files, types of fields, selections of fields",
    "One fixed series of small files is packed by tests, values are not looked at.",
    ["cfdtools/vtk/_vtkList.py", "cfdtools/data.py", "cfdtools/hdf5/_hdf5.py"],
    [("matching of cells between files", "cfdtools/vtk/_vtkList.py vtkList.read"), ("order of cells and data in the pack", "cfdtools/vtk/_vtkList.py vtkList.dumphdf")],
    ["HDF5 content (h5py)", "mesh imported from the pack", "errors"],
    "runtime monitoring: value-follows-cell monitor on packed series with shuffled files, and rejection monitor on altered ones",
    EXPL,
)
prop(
    "C17", "The XMF description of a pack gives readers its mesh and values",
    "The XMF file written with a packed series is valid, refers to existing data of the right size in the HDF5 file which was actually written, wherever they are and wherever it is read from. "
    "An XDMF reader gets from it the cells, points and the values of each field on its cell at each instant. Existing HDF5 files are not changed unless overwriting is requested.",
    ["inputs", "configurations"], "all meshes with a single type of element, fields, names, numbers of instants, output folders and existing files",
    "A single test compares the text of the file for one series in one folder; whether a reader understands it is not tested.",
    ["cfdtools/vtk/_vtkList.py", "cfdtools/vtk/_vtk.py", "cfdtools/data.py"],
    [("description of mesh", "cfdtools/vtk/_vtk.py vtkMesh.xdmf_content"), ("description of data", "cfdtools/data.py DataSetList.xdmf_content"), ("output names", "cfdtools/vtk/_vtkList.py vtkList.dumphdf")],
    ["XMF file parsed, and read by the XDMF reader of VTK", "HDF5 content"],
    "runtime monitoring: XML/HDF5 consistency monitor and differential reading by an external XDMF reader",
    EXPL + "Values are compared in single precision, which is what readers get since the file does not declare a precision (the text is fixed by a test).",
)
prop(
    "C18", "Plane statistics of VTK meshes are those of aligned cells",
    "For a mesh made of planes of aligned cells, the averages, rms, modes and phases given on a slice are the statistics, over planes, of the values of the cells aligned with each cell of the slice, for requested fields and quantities only. "
    "The slice is the first plane of the mesh, which is not modified. Meshes whose planes are not uniform or do not match cell to cell, and unknown fields, are refused.",
    ["inputs", "configurations"], "all planar meshes, numbers of planes, directions (user function included), orders of cells and nodes, fields, options and selections",
    "Tests run it on one small mesh and look at names and at a few values.",
    ["cfdtools/vtk/_vtk.py"],
    [("planes and matching of cells", "cfdtools/vtk/_vtk.py vtkMesh.vtk_zconvolution"), ("slice", "cfdtools/vtk/_vtk.py vtkMesh.vtk_extract_cells")],
    ["mesh and values returned", "errors"],
    "runtime monitoring: recomputation of each statistic by explicit sums over the column of cells found by position; rejection monitor",
    EXPL,
)
prop(
    "C19", "Tools never change existing files, results take a free name",
    "Whatever commands are run one after the other, conversion and packing tools leave every existing file, inputs included, as it is, and write exactly one new file, whose name is the expected one or the first free numbered one, which they return. "
    "Information tools write nothing. A command which fails on its arguments or input writes nothing.",
    ["histories", "configurations", "fault_sequences"], "all sequences of commands, folders, names (dots, blanks, numbers), formats and options, existing files and folders, wrong arguments or inputs",
    "A test converts the same file twice in a temporary folder; existing files are not looked at.",
    ["cfdtools/_cli.py", "cfdtools/api.py", "cfdtools/hdf5/_hdf5.py", "cfdtools/vtk/_vtkList.py"],
    [("free name", "cfdtools/api.py _files.find_safe_newfile, change_dir, change_suffix"), ("order of operations in tools", "cfdtools/_cli.py write_generic, vtkpack")],
    ["files before and after each command (content, inode, date)", "name returned"],
    "runtime monitoring: file system history monitor over random sequences of commands with injected failures",
    EXPL + "The cube generator is out of scope (it writes at the given name). Writes which VTK fails silently are out of scope.",
)
prop(
    "C20", "Command-line conversions give the input mesh with requested options",
    "Converting a GMSH, CGNS or IC3 file by the command-line tools gives, at the requested place, a file which holds the mesh and boundaries of the input, extruded in the number of layers and then scaled as requested, whatever the way the format is found. "
    "Information tools show the sizes, bounds and boundaries of the mesh, or all sections of an IC3 file in order; the generator gives the requested cube. Unknown formats are refused.",
    ["inputs", "configurations"], "all meshes, formats, file names and folders, combinations and order of options",
    "Tests run each tool on a few files without options and look at the existence of outputs.",
    ["cfdtools/_cli.py", "cfdtools/api.py", "cfdtools/meshbase/simple.py"],
    [("format detection and options", "cfdtools/_cli.py cli_argparser"), ("conversion", "cfdtools/_cli.py write_generic"), ("generator", "cfdtools/_cli.py cfdwritecube")],
    ["output files (IC3 parsed independently, VTU read by pyvista)", "messages"],
    "runtime monitoring: end-to-end differential monitor of outputs against the model of inputs and options",
    EXPL + "Files whose boundary faces cannot be attributed from marked nodes are not converted by the check.",
)
prop(
    "C21", "Removing data removes exactly what is named",
    "Removing fields by name, with the options of tools or the functions of a mesh, removes the field of this name at this location and nothing else: other fields, whatever their name or location, are kept bit for bit, with the mesh and the state. "
    "A name which does not exist is reported and changes nothing.",
    ["inputs", "configurations"], "all sets of fields at nodes and cells, and lists of names to remove (missing, repeated, similar or at the other location)",
    "No test removes data.",
    ["cfdtools/_cli.py", "cfdtools/meshbase/_mesh.py", "cfdtools/data.py"],
    [("options", "cfdtools/_cli.py write_generic"), ("removal", "cfdtools/meshbase/_mesh.py Mesh.pop_nodedata, Mesh.pop_celldata")],
    ["output files", "fields of the mesh"],
    "runtime monitoring: conservation monitor of fields against a model set, on files and meshes",
    EXPL,
)
prop(
    "C22", "Spectra and spectrograms are those of the samples of the series",
    "The spectrum of a uniform time series gives, for requested quantities and range of samples, the modulus of the discrete Fourier transform at frequencies of the sampling; a spectrogram gives the logarithm of the modulus for successive Hann windows, at the instants of their centers and the frequencies of their samples. "
    "A time step which is not uniform is reported, the series is not modified and a data set which is not a time series, or has no time, is refused.",
    ["inputs", "configurations"], "all uniform time series (odd and even lengths, origins, steps, types of values), ranges, filters and windows",
    "Tests look at sizes for one or two series; values, frequencies and instants are not recomputed.",
    ["cfdtools/data.py"],
    [("spectrum", "cfdtools/data.py DataSet.dataSet_spectrum"), ("windows", "cfdtools/data.py DataSet.dataSet_spectrogram"), ("time step", "cfdtools/data.py DataSet.dtstats")],
    ["data sets returned", "warnings", "errors"],
    "runtime monitoring: recomputation of each value by explicit sums of cosines and sines; position of peaks of known waves",
    EXPL + "Each quantity is a one-dimensional series. Lengths up to 127 (quick) or 1000 (thorough).",
)
prop(
    "C23", "Polynomial weights give exact values and derivatives",
    "At any point or array of points, the weights of a one-dimensional basis of some order applied to the values at Gauss nodes of a polynomial of lower degree give its exact value and derivative, whatever the basis chosen. "
    "Requests do not depend on previous ones or on other bases.",
    ["inputs", "histories"], "all orders, bases, points (scalars or arrays, nodes, bounds, outside of the interval) and orders of requests",
    "Tests check a few weights at the ends of the interval.",
    ["cfdtools/utils/polybase.py"],
    [("Vandermonde matrix", "cfdtools/utils/polybase.py poly1d.vdm, invvdm"), ("weights", "cfdtools/utils/polybase.py poly1d.interp_weights, diff_weights")],
    ["weights returned"],
    "runtime monitoring: algebraic oracle (exactness on polynomials of each degree, nodes computed independently)",
    EXPL + "Orders up to 10, absolute tolerance scaled by the condition of the basis.",
)
prop(
    "C24", "Line probes: values, derived quantities and maps match files",
    "Quantities of line probes are those of their files with their coordinates and the instants of the first series read, and derived ones (velocity, sound speed, Mach number, entropy, invariants) follow from their formulas, in any order of requests; a quantity which has no file and cannot be derived is refused. "
    "Time and frequency maps show values (or moduli of their spectra) at their coordinate and instant (or frequency), in one image file named after the quantity.",
    ["inputs", "configurations", "histories"], "all probe files, presence or absence of quantities, orders of requests, options of the tool",
    "Tests run the tool on one series of probes without looking at values or at the image.",
    ["cfdtools/probes/data.py", "cfdtools/probes/plot.py", "cfdtools/_cli.py"],
    [("reading and derivation", "cfdtools/probes/data.py phydata.check_data, read_data"), ("maps", "cfdtools/probes/plot.py plot_timemap, plot_freqmap"), ("tool", "cfdtools/_cli.py ic3probe_plotline")],
    ["quantities of the probe", "what matplotlib is asked to draw and to save", "files", "errors"],
    "runtime monitoring: formula oracle on values, hook on matplotlib drawing and saving, file system monitor",
    EXPL + "Files have at least two lines of data; frequency maps have at least 600 instants.",
)
prop(
    "C25", "HDF5 files keep content, type and version over any openings",
    "A HDF5 file opened through the library keeps its content, type and version whatever the sequence of openings, unless it is opened for overwriting with a valid type and a version; an opening which is not possible (missing or existing file, unknown type or mode, no version, not HDF5) is refused and changes or creates nothing. "
    "Type and version shown are those of the file, and a mesh written in it is found back with its types in order.",
    ["histories", "inputs", "fault_sequences"], "all sequences of openings (modes, types, versions) of new, existing, foreign and broken files, with additions",
    "Tests open one file in one or two modes.",
    ["cfdtools/hdf5/_hdf5.py"],
    [("checks before opening", "cfdtools/hdf5/_hdf5.py h5File.open"), ("header", "cfdtools/hdf5/_hdf5.py h5File.open"), ("mesh", "cfdtools/hdf5/_hdf5.py h5File.write_unsmesh")],
    ["bytes of files", "content read by h5py", "type and messages", "errors"],
    "runtime monitoring: model-based monitor over random histories with injected wrong openings",
    EXPL + "One process at a time.",
)
prop(
    "C26", "Generated cubes are complete regular meshes with six boundaries",
    "The mesh generated for any numbers of cells is the regular grid of the unit cube: each node and cell once, with the announced numbering, cells of positive volume which fill the cube, and six boundaries which hold exactly the nodes of their plane. "
    "Meshes generated from the same cube are independent.",
    ["inputs", "histories"], "all numbers of cells in each direction (one included), and changes made to a generated mesh before the next one",
    "Tests look at numbers of nodes and cells for one or two sizes.",
    ["cfdtools/meshbase/simple.py"],
    [("numbering", "cfdtools/meshbase/simple.py Cube.nodeglobindex_ijk, elemglobindex_ijk"), ("mesh", "cfdtools/meshbase/simple.py Cube.export_mesh")],
    ["mesh (nodes, cells, boundaries)"],
    "runtime monitoring: geometric oracle on every node, cell and boundary; aliasing monitor between meshes",
    EXPL + "Up to 5 (quick) or 12 (thorough) cells in each direction.",
)
prop(
    "C27", "Imports in any order give the same formats and results",
    "Each module can be the first one imported in a fresh interpreter, and importing modules in any order, by any form of import, writes nothing and leads to the same file formats and the same results of conversions.",
    ["programs", "configurations"], "all orders, subsets and forms of imports of public modules",
    "Tests import most modules in a single order, in a single process.",
    ["cfdtools/__init__.py", "cfdtools/data.py", "cfdtools/meshbase/_mesh.py", "cfdtools/api.py", "cfdtools/_cli.py"],
    [("dependencies between modules", "cfdtools/data.py, cfdtools/meshbase/_mesh.py"), ("list of formats", "cfdtools/api.py fileformat_reader, fileformat_writer")],
    ["end of interpreters", "formats", "bytes of converted files"],
    "runtime monitoring: differential monitor between fresh interpreters over random import orders",
    EXPL + "The HDF5 format of IC3 is known once its module is imported. Missing dependencies are out of scope.",
)
prop(
    "C28", "Lists of data sets are dumped with their mesh as they were built",
    "A list of data sets dumped to HDF5 gives a file with exactly the nodes and cells of its mesh and, instant by instant, exactly the fields and the time which were added, with their type and shape and the requested storage options, whatever the caller does next with the dictionary which was given and whatever the number of dumps. "
    "Existing files are kept unless overwriting is requested, the file which is returned is the one written, and a dump which is not possible is refused and changes no file.",
    ["inputs", "histories", "fault_sequences"], "all meshes, lists (fields which vary with instants, types and shapes of values, times), storage options, names and existing files, several lists alive",
    "Tests only check the representation of an empty list.",
    ["cfdtools/data.py", "cfdtools/hdf5/_hdf5.py"],
    [("list of instants", "cfdtools/data.py DataSetList.add_datalist"), ("dump", "cfdtools/data.py DataSetList.dumphdf, _dumphdfgroup"), ("mesh", "cfdtools/hdf5/_hdf5.py h5File.write_unsmesh")],
    ["content of files read by h5py", "returned name", "files of the folder", "dictionaries of the caller"],
    "runtime monitoring: model-based monitor of dumped files over random histories, with injected impossible dumps",
    EXPL + "Cells are gathered by type: values are checked on their cells if cells are numbered by type.",
)
prop(
    "C29", "Timers measure running periods only, memoized functions are unchanged",
    "A timer gives the sum of the periods between its starts and pauses, reports it (and the time per element) when it stops, starts again from zero, and refuses to be started twice or stopped when not running; errors of a timed block are not lost and other timers have no influence. "
    "A memoized function gives the same values and errors as the function itself, which is evaluated once for each set of arguments.",
    ["histories"], "all sequences of operations on several timers and calls of several memoized functions",
    "Tests use no timer or cache directly.",
    ["cfdtools/api.py"],
    [("timers", "cfdtools/api.py Timer"), ("caches", "cfdtools/api.py memoize")],
    ["elapsed time", "messages", "errors", "calls of memoized functions"],
    "runtime monitoring: model-based monitor over random histories under a controlled clock",
    EXPL + "Arguments of memoized functions are hashable and positional.",
)
prop(
    "C30", "Meshes, marks and data sets hold what is put in them, nothing else",
    "Whatever the sequence of additions, replacements, removals and readings on several objects, a data set gives back exactly the arrays added under each name, with its representations and geometry, and a mesh exactly its nodes, cells, marks, parameters and fields, which the printed information shows; dictionaries and lists of indices which were given are not changed. "
    "Representations, kinds of marks, degrees of freedom or coordinates which do not fit are refused and change nothing, and a missing name is an error. "
    "Statistics of time steps and drawings use the samples of the data set.",
    ["histories"], "all sequences of valid and invalid requests on data sets, meshes and marks",
    "Tests build a few objects in one way; sequences of changes, objects alive together and refused requests are not sampled.",
    ["cfdtools/data.py", "cfdtools/meshbase/_mesh.py"],
    [("data sets", "cfdtools/data.py DataSetBase, DataSet"), ("mesh container", "cfdtools/meshbase/_mesh.py Mesh"), ("marks", "cfdtools/meshbase/_mesh.py submeshmark")],
    ["accessors of meshes, marks and data sets", "printed information", "arguments of drawing calls"],
    "runtime monitoring: model-based monitor (plain dictionaries) over random histories on several live objects",
    EXPL + "Whether arrays are copied or shared with the caller is not claimed (dictionaries are not).",
)
prop(
    "C31", "Consistency checks accept sound objects, refuse broken ones, change nothing",
    "The checks of meshes, connectivity tables and rows of indices accept any consistent object, whatever its numbering, and refuse one whose number of cells or nodes, numbering of elements, row offsets, or marks of boundary faces are wrong. "
    "Renumbering boundary faces is refused when some faces are in no mark or in several. "
    "A check, or a renumbering which is refused, leaves the object as it was and gives the same answer when it is asked again.",
    ["inputs", "histories"], "all meshes, tables and rows, sound or with a fault, checked any number of times",
    "Tests only check sound objects, once.",
    ["cfdtools/meshbase/_mesh.py", "cfdtools/meshbase/_connectivity.py"],
    [("mesh check", "cfdtools/meshbase/_mesh.py Mesh.check, list_unmarked_BC"), ("renumbering", "cfdtools/meshbase/_mesh.py Mesh.reindex_boundaryfaces"), ("tables and rows", "cfdtools/meshbase/_connectivity.py elem_connectivity.check, compressed_listofindex.check")],
    ["answers and errors of checks", "content of objects before and after"],
    "runtime monitoring: fault injection in random objects, verdicts of checks against the injected fault, state monitor around each call",
    EXPL + "Node numbers in cells and shapes of elements are not checked by the library.",
)
prop(
    "C32", "What is displayed of meshes, fields, series and planes is true of them",
    "Sizes, ranges of coordinates, statistics of fields and of their components, numbers of faces and cells by type, marks and ranges of faces, byte order and version displayed while a file is read or written, or when a mesh is described, are those of the data. "
    "So are numbers of files and planes, distances, steps, variables and options displayed by packs, plane statistics and probes, and the names announced for written files.",
    ["inputs", "configurations"], "all meshes, files, series of files and probes, with any fields and options",
    "Tests never look at messages; users choose what to do next from them (sizes, ranges of fields, name of the result).",
    ["cfdtools/ic3/reader_legacy.py", "cfdtools/ic3/readerV4.py", "cfdtools/ic3/writerV2.py", "cfdtools/meshbase/_mesh.py", "cfdtools/vtk/_vtk.py", "cfdtools/vtk/_vtkList.py", "cfdtools/probes/data.py", "cfdtools/_cli.py"],
    [("statistics of fields", "cfdtools/ic3/reader_legacy.py print_stats_scalar, print_stats_vector"), ("description of a mesh", "cfdtools/meshbase/_mesh.py Mesh.printinfo"), ("messages of writers", "cfdtools/ic3/writerV2.py"), ("tools", "cfdtools/_cli.py write_generic")],
    ["messages of the logger and standard output"],
    "runtime monitoring: messages of random operations are captured, every number is recomputed from independent models of the data",
    EXPL + "Wording is not claimed beyond the words which tell which number is displayed; durations are in C29.",
)
#MORE


NOT_APPLICABLE = []


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x["p"]) + "\n")
    man = dict(
        version=1,
        setup_cmd="bin/setup",
        checks=[x["c"] for x in P],
        not_applicable=NOT_APPLICABLE,
        notes="All checks run the Python sources of /repo's working tree (nothing to rebuild, no hooks). bin/check ID --replay FILE "
        "reruns a recorded case. known_findings.txt lists findings and fixes. vmon/ is the engine, checks/ the properties.",
    )
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
