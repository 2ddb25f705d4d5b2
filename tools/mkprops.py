import json
P=[]
def p(id,title,st,over,qt,why,files,mech,observe):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=[observe])))
ALLF=["src/meshio/"+x for x in "_helpers.py _mesh.py _common.py _vtk_common.py abaqus/_abaqus.py ansys/_ansys.py avsucd/_avsucd.py cgns/_cgns.py dolfin/_dolfin.py exodus/_exodus.py flac3d/_flac3d.py gmsh/_gmsh22.py gmsh/_gmsh40.py gmsh/_gmsh41.py h5m/_h5m.py hmf/_hmf.py mdpa/_mdpa.py med/_med.py medit/_medit.py nastran/_nastran.py netgen/_netgen.py neuroglancer/_neuroglancer.py obj/_obj.py off/_off.py permas/_permas.py ply/_ply.py stl/_stl.py su2/_su2.py tecplot/_tecplot.py tetgen/_tetgen.py ugrid/_ugrid.py vtk/_vtk_42.py vtk/_vtk_51.py vtu/_vtu.py wkt/_wkt.py xdmf/main.py".split()]
p("C01","Write-then-read preserves points and cells in every format",
"For every format that can be both written and read, writing a mesh made of content the format supports and reading the file back gives the same points (count, order, coordinates; a zero third coordinate is appended where the format is 3D-only) and the same cells (type, node order within the cell, order of the cells). Cell blocks come back as given, except that formats which only store cells per type or as one flat list may merge or regroup blocks of equal type. Triangle-soup formats (STL, WKT) preserve the sequence of triangles and their vertex coordinates instead of point numbers.",
["inputs","configurations"],"all meshes within a format's supported cell types and dimensions (any sizes, block structure incl. repeated/interleaved/empty blocks, integer/float dtypes, byte orders, memory layouts) and all writer options",
"The suite round-trips a dozen fixed small meshes per format, almost all with one or two blocks, consecutive ids and native dtypes; width, count, ordering and dtype boundaries are not sampled.",
ALLF,[("format dispatch","src/meshio/_helpers.py:read/write"),("per-format read/write pairs","src/meshio/*/_*.py"),("VTK cell reassembly","src/meshio/_vtk_common.py:vtk_cells_from_data")],"meshio.write followed by meshio.read in a scratch directory")
p("C02","Point and cell data survive write-then-read, attached to the right entity",
"For every format that carries point data or cell data, every supported array comes back under the same name with the same values (and the same numeric type where the format records one), and each value is still attached to the same point or the same cell. This holds for any number, order, type and length of cell blocks, any number of arrays, and scalar as well as multi-component arrays.",
["inputs","configurations"],"all meshes with supported data arrays (names, dtypes, component counts) over arbitrary block structures, all writer options",
"Tests attach one or two arrays to fixed meshes; mis-association across blocks, dtype narrowing, component mix-ups and multi-array interactions need varied structures with position-encoding values.",
ALLF,[("cell data splitting","src/meshio/_common.py:cell_data_from_raw"),("VTK data sections","src/meshio/vtk/_vtk_42.py, _vtk_51.py"),("VTU DataArrays","src/meshio/vtu/_vtu.py"),("Gmsh NodeData/ElementData","src/meshio/gmsh/common.py"),("MED fields","src/meshio/med/_med.py"),("XDMF attributes","src/meshio/xdmf/main.py")],"meshio.write/meshio.read")
p("C03","Sets, reference tags and named groups survive write-then-read",
"Where a format carries them, named point sets and cell sets (Abaqus, Exodus node sets, FLAC3D groups), per-entity integer references (Gmsh physical/geometrical tags, Medit, Nastran, Netgen, SU2, UGRID, TetGen, AVS-UCD, MED families) and named physical-group tables come back with the same names and exactly the same members or values, block by block. Periodicity and identification tables carried by Gmsh and Netgen come back unchanged as well. Formats with one reference per entity (AVS-UCD, Medit, SU2, UGRID) take the first scalar integer array, whatever its name, for it. Formats that announce storing sets as integer data (VTK, VTU) store for each point or cell the number of the set it is in.",
["inputs","configurations"],"all assignments of points and cells to sets/tags/groups (empty, overlapping, spanning several blocks, large ids) and writer options",
"Tests use one or two hand-made sets on single-type meshes; block-spanning, interleaved and large-id cases are not sampled.",
["src/meshio/abaqus/_abaqus.py","src/meshio/exodus/_exodus.py","src/meshio/flac3d/_flac3d.py","src/meshio/gmsh/_gmsh22.py","src/meshio/gmsh/_gmsh40.py","src/meshio/gmsh/_gmsh41.py","src/meshio/gmsh/common.py","src/meshio/med/_med.py","src/meshio/medit/_medit.py","src/meshio/nastran/_nastran.py","src/meshio/netgen/_netgen.py","src/meshio/su2/_su2.py","src/meshio/ugrid/_ugrid.py","src/meshio/tetgen/_tetgen.py","src/meshio/avsucd/_avsucd.py"],
[("set sections","abaqus _read_set / write"),("physical groups","gmsh/common.py:_read_physical_names, _write_physical_names"),("families","med/_med.py:_read_families, _write_families")],"meshio.write/meshio.read")
p("C04","Encoding options never change the mesh that is stored",
"Writing one mesh under different encodings of the same format (ASCII or binary, every compression, header integer width, format version, data layout, byte order, fixed or free fields, gzip or plain) and reading each file gives meshes that agree with each other in points, cells, data and sets, up to the documented text precision of the encoding. A float format option only changes precision, never content.",
["inputs","configurations"],"all supported meshes and all pairs of encodings of one format",
"Tests round-trip each option separately on tiny meshes; compression block boundaries, width limits and cross-version agreement need large and odd-shaped data.",
["src/meshio/vtu/_vtu.py","src/meshio/vtk/_vtk_42.py","src/meshio/vtk/_vtk_51.py","src/meshio/gmsh/main.py","src/meshio/gmsh/_gmsh22.py","src/meshio/gmsh/_gmsh40.py","src/meshio/gmsh/_gmsh41.py","src/meshio/xdmf/main.py","src/meshio/medit/_medit.py","src/meshio/ply/_ply.py","src/meshio/stl/_stl.py","src/meshio/ugrid/_ugrid.py","src/meshio/nastran/_nastran.py","src/meshio/flac3d/_flac3d.py","src/meshio/ansys/_ansys.py","src/meshio/netgen/_netgen.py"],
[("VTU compression blocks","vtu/_vtu.py:read_compressed_binary, write"),("UGRID suffix table","ugrid/_ugrid.py:file_types"),("Gmsh version table","gmsh/main.py:_readers,_writers")],"pairwise comparison of meshes read back")
p("C05","Chains of conversions through formats preserve the mesh",
"Converting a mesh through any sequence of formats that all support its cell types gives, at the end, the same points and cells as at the start, up to the coarsest precision on the way; data arrays that every format of the chain carries survive too, and so do integer references of the cells where a format on the way keeps one per cell under its own name. In particular a mesh obtained by reading one format can be written to every other format that supports its cell types.",
["inputs","histories"],"all sequences of formats and all meshes supported by each of them",
"Tests never feed the mesh read from one format to the writer of another; reader-specific dtypes, byte orders, layouts and attributes meet other writers only there.",
ALLF,[("mesh as interchange value","src/meshio/_mesh.py:Mesh"),("format dispatch","src/meshio/_helpers.py")],"read(write(...)) chains")
p("C06","Written files mean the same mesh to an independent reader",
"Every file written is a valid file of its format whose content, decoded according to the format's public specification by a reader that shares no code with the library, is the mesh that was given: same coordinates, same cells with the node numbering convention of the format, same data, sets and counts.",
["inputs","configurations"],"all supported meshes and writer options",
"Round-trip tests accept any encoding that the library's own reader undoes; errors made symmetrically in writer and reader are invisible to them.",
ALLF,[("writers","src/meshio/*/_*.py:write"),("node-order tables","gmsh/common.py, _vtk_common.py, nastran, netgen, permas, tecplot, ugrid")],"bytes of the written files")
p("C07","Spec-conformant files from other producers are read correctly",
"Reading a file that conforms to the subset of its format's specification the library supports gives the mesh the file describes, whatever legal layout its producer chose: whitespace, comments, keyword case, line wrapping, id numbering (gaps, offsets, arbitrary order), section order, optional sections, number types, byte order, raw/appended/compressed encodings, multiple pieces, implicit (structured) grids.",
["inputs"],"all legal spellings of a mesh in each format's supported subset",
"The reference files shipped with the tests are few (and many are not even present in a checkout without LFS); readers are otherwise only exercised on the library's own output.",
ALLF,[("readers","src/meshio/*/_*.py:read"),("structured VTK grids","vtk/_vtk_42.py, _vtk_51.py"),("VTU raw/appended data","vtu/_vtu.py")],"meshio.read on files produced by independent encoders")
p("C08","Writing never modifies the caller's mesh",
"Writing a mesh, in any format, with any option, whether it succeeds, warns or fails, leaves the mesh object and every array and dictionary it refers to unchanged: same points, cells, data, sets, names, order, values, dtypes.",
["inputs","configurations"],"all meshes (supported or not), all formats and options",
"Tests compare the re-read file with the input after writing, so a writer that mutates its input consistently passes; most fixtures need no conversion.",
ALLF,[("writers that convert in place","vtk, vtu, ply, avsucd, flac3d, gmsh writers")],"deep snapshot of the Mesh object graph before/after meshio.write")
p("C09","Inconsistent meshes are rejected; meshes read are well-formed",
"Building a mesh whose point data or cell data do not match the points or the cell blocks raises an error, writing cells whose width contradicts their type raises an error, and consistent input is accepted and represented exactly. Every mesh returned by reading a valid file is well-formed: rectangular integer cells of the right width referring to existing points, data and sets matching the points and blocks.",
["inputs"],"all constructor arguments (arrays, lists, dicts, wrong lengths at any position) and all valid files",
"Tests check one or two inconsistent examples; each field, block position and length relation has to be refused.",
["src/meshio/_mesh.py","src/meshio/_helpers.py"],[("constructor checks","src/meshio/_mesh.py:Mesh.__init__"),("write-time shape check","src/meshio/_helpers.py:write")],"meshio.Mesh(...), meshio.write, meshio.read")
p("C10","Damaged or foreign input ends in an error or a consistent mesh",
"Reading any sequence of bytes (truncated, bit-flipped, spliced, garbage, empty) as any text or library-parsed binary format terminates, either with an exception or with a mesh whose data match its points and cells; it never loops forever and never brings down the interpreter.",
["inputs","fault_sequences"],"all byte strings fed to each reader; in particular every truncation point of valid files",
"Tests contain almost no malformed files; a missing end-of-file check needs a cut at one particular place.",
ALLF,[("section loops","ansys, abaqus, mdpa, permas, tecplot, tetgen, off, ply, gmsh readers")],"meshio.read in a worker with instruction/CPU budget")
p("C11","Cells a format cannot store are refused or announced, never lost silently",
"When a mesh contains cells whose type or dimension the target format (or the chosen encoding) cannot represent, writing either raises an error or tells the user on standard error; if it returns without a word, reading the file gives back every cell that was written. A refused or announced write of part of a mesh keeps the remaining supported cells intact.",
["inputs","configurations"],"all formats and all meshes mixing supported and unsupported cell types",
"Tests only write supported types.",
ALLF,[("skip-with-warning paths","off, stl, medit, su2, ugrid, tetgen, tecplot, h5m, flac3d, ply, wkt writers")],"stderr, exceptions and the re-read mesh")
p("C12","Files go to the reader and writer their name and format registry select",
"A path selects the formats registered for its suffixes, case-insensitively and including multi-part suffixes, in registration order; reading tries the candidates until one accepts the file, writing uses the first; an explicit format overrides the suffix and unknown names or formats raise. Registering and deregistering formats, in any sequence, changes exactly the entries concerned.",
["histories","inputs"],"all sequences of register/deregister/read/write with arbitrary names and suffixes",
"Tests register one format once; histories of overlapping registrations and odd path spellings are not sampled.",
["src/meshio/_helpers.py","src/meshio/_files.py"],[("registry","src/meshio/_helpers.py:register_format, deregister_format, _filetypes_from_path")],"meshio.register_format/deregister_format/read/write and public maps")
p("C13","Paths, strings and open buffers are interchangeable",
"For every format that accepts buffers, writing to an open buffer (also one that can only be written to) produces the same bytes as writing to a file (apart from embedded time stamps), reading from a buffer gives the same mesh as reading the file, and the buffer is left open and usable; string and path objects behave identically, also in the errors raised for files that cannot be read, whatever legal characters the path contains, relative or absolute.",
["inputs","configurations"],"all formats, meshes, and ways of naming the file",
"Tests use temporary paths with tame names and buffers for a single mesh per format.",
["src/meshio/_files.py","src/meshio/_helpers.py","src/meshio/xdmf/main.py","src/meshio/tetgen/_tetgen.py","src/meshio/dolfin/_dolfin.py"],[("open_file / is_buffer","src/meshio/_files.py")],"meshio.read/meshio.write with str, Path, BytesIO/StringIO")
p("C14","Mesh views and set/data conversions describe the same cells",
"The per-type views of a mesh (cells, cell data, cell sets) contain exactly the cells, values and members of its blocks, in order, with indices adjusted to the concatenated numbering; converting sets to integer data and back, or integer data to sets and back, describes the same partition; copies are equal and independent, views follow later changes of the mesh, and changing a view changes neither the mesh nor other views.",
["inputs","histories"],"all meshes and all sequences of conversions",
"Tests convert two fixed meshes; repeated types, partial and missing memberships and round trips are not covered.",
["src/meshio/_mesh.py"],[("views","Mesh.cells_dict, cell_data_dict, cell_sets_dict, get_cells_type, get_cell_data"),("conversions","cell_sets_to_data, point_sets_to_data, cell_data_to_sets, point_data_to_sets")],"public attributes and methods of meshio.Mesh")
p("C15","XDMF time series return every step exactly as written",
"A time series written step by step, in any data layout, any number of steps, with any mix of point and cell arrays per step and any cell block structure, is read back with the same points, cells, number of steps, and, for each step in any access order and repeatedly, the same time value and arrays; the files written belong to the path given and are complete once the writer is closed.",
["inputs","histories"],"all sequences of write_data calls and all access orders of read_data",
"Tests write three fixed steps in the current directory.",
["src/meshio/xdmf/time_series.py","src/meshio/xdmf/common.py"],[("writer","TimeSeriesWriter"),("reader","TimeSeriesReader")],"meshio.xdmf.TimeSeriesWriter/TimeSeriesReader")
p("C16","Command-line tools preserve meshes and report what is in them",
"convert produces what reading the input and writing the output in the chosen formats produces (plus the requested conversions between sets and integer data); ascii, binary, compress and decompress rewrite a file in place without changing the mesh it stores; info prints the mesh's contents and flags out-of-range or inconsistent connectivity. Success and failure are reflected in the exit status.",
["inputs","configurations","histories"],"all meshes, formats, option combinations and sequences of tool invocations",
"Tests run each tool once on one small file.",
["src/meshio/_cli/_main.py","src/meshio/_cli/_convert.py","src/meshio/_cli/_ascii.py","src/meshio/_cli/_binary.py","src/meshio/_cli/_compress.py","src/meshio/_cli/_decompress.py","src/meshio/_cli/_info.py"],[("subcommands","src/meshio/_cli/_main.py:main")],"exit status, stdout/stderr and files of `meshio <cmd>`")
p("C17","Results depend only on the arguments, not on history or schedule",
"Reading or writing gives the same result whether or not other reads and writes (successful or failed, of any format) happened before or are happening in other threads, whatever was previously stored at the target path, and whatever the hash seed; two writes of the same mesh give the same bytes apart from embedded time stamps, and meshes returned by separate reads share no mutable state, nor do the arrays of one mesh.",
["histories","schedules"],"all sequences and thread interleavings of operations",
"Tests run each operation once in a fresh state and single-threaded.",
ALLF,[("module-level state","src/meshio/stl/_stl.py:iter_loadtxt, src/meshio/_helpers.py, translation tables")],"results of interleaved operations against solitary runs")
p("C18","I/O errors surface and release their files",
"When the underlying storage fails while a mesh is written (no space, file size limit, missing directory, read-only target) the write raises instead of reporting success with an incomplete file, and when a file cannot be read the read raises. Neither successful nor failing reads and writes leave open file descriptors behind.",
["fault_sequences","inputs"],"all formats, and a storage failure at any byte offset of the output",
"Tests never inject storage errors or count descriptors.",
ALLF+["src/meshio/_files.py"],[("file handling","src/meshio/_files.py:open_file and per-format open calls")],"exceptions, output size and /proc/self/fd under RLIMIT_FSIZE and faulty targets")
p("C19","Reading touches nothing and writing touches only its own output",
"Reading a mesh creates, modifies or deletes no file. Writing creates or replaces only the requested file and the companion files its format documents, next to it and named after it, and leaves every other file, the working directory and process-wide settings as they were.",
["inputs","configurations","histories"],"all formats, options and directory contents",
"Tests run in disposable directories and never look at what else was touched.",
ALLF,[("companion files","xdmf (.h5/.bin), tetgen (.node/.ele), dolfin (_name.xml)")],"open/rename/remove audit events and directory snapshots")
p("C20","Every representable number survives unchanged",
"Coordinates and data values of any magnitude (zero and negative zero, subnormal, tiny, huge, many digits, and in formats that carry them infinities and NaN, and integers up to the limits of the stored type) come back exactly in binary encodings and in text encodings written with full precision, and within the precision of the encoding otherwise; integers are never silently wrapped or rounded.",
["inputs","configurations"],"all floating-point and integer values in every format that stores them",
"Tests use coordinates of order one and small integers.",
ALLF,[("number formatting and parsing","all text writers/readers"),("dtype tables","vtk, vtu, xdmf, ply, gmsh, exodus, ugrid, medit")],"meshio.write/meshio.read")
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
