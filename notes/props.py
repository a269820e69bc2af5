#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run it after editing)."""
import json, os, sys
sys.dont_write_bytecode = True
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=None, technique=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or [], hook_needed=None), _t=technique, _n=note))


TR = "TLA+ spec model-checked with TLC; its behaviours replayed into the real code and recorded traces validated by TLC"
SEQN = ("Model checking of the TLA+ specification within small bounds, and every explored history plus seeded random sequences "
        "executed by the real code (ASan) with each observation judged by TLC against the specification. Assumes the bounded "
        "shapes and values stand for larger ones; trusts the driver's encoding of results.")
CONN = ("TLC explores all interleavings of the TLA+ model (safety and liveness) for small thread counts; the real code runs under a "
        "controlled scheduler that owns every lock, condition variable, sleep and thread, with many seeded schedules, and each "
        "recorded history is validated by TLC against the same model. Assumes scheduling points at synchronisation operations "
        "and shared accesses; schedules are sampled, not enumerated.")

p("P01", "ThreadPool runs each task exactly once, in order, on at most N threads",
  "As long as no task fails and the pool is not destroyed, every submitted task is executed exactly once by one of the pool's N threads; tasks are handed to the threads in submission order, and at most N are being executed at any time. A pool with zero threads runs each task inside submit(), in the calling thread. queued() is the number of submitted tasks not yet taken by a thread, running() is at least the number of tasks being executed and at most N, and activeThreads() is N until a task fails or the pool is destroyed.",
  ["schedules", "histories"], "all interleavings of workers, submitters (tasks submitting tasks included) and waiters; all pool sizes",
  "ThreadPool has no test in the build, and a test sees the few schedules the OS happens to produce.",
  ["AlexandriaKernel/AlexandriaKernel/ThreadPool.h", "AlexandriaKernel/src/lib/ThreadPool.cpp"],
  [("Worker::operator()", "AlexandriaKernel/src/lib/ThreadPool.cpp"), ("ThreadPool::submit", "AlexandriaKernel/src/lib/ThreadPool.cpp")],
  ["submit, task start/end"], TR, CONN)
p("P02", "ThreadPool block, exception propagation and destruction",
  "block() returns normally only when every submitted task has finished and none failed, and it always returns once that is the case. If a task throws, every block() from then on rethrows the exception of a failed task, after the tasks being executed have ended, no task is handed to a thread after the failure is recorded, and checkForException() reports (or rethrows, when asked) exactly a recorded failure. The destructor always returns, after every task being executed has ended and without starting those still queued.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of workers, failing tasks, submitters and waiters; any subset of tasks failing",
  "No test exercises failures or waiting; lost wake-ups and races appear only in particular interleavings.",
  ["AlexandriaKernel/AlexandriaKernel/ThreadPool.h", "AlexandriaKernel/src/lib/ThreadPool.cpp"],
  [("ThreadPool::block", "AlexandriaKernel/src/lib/ThreadPool.cpp"), ("ThreadPool::~ThreadPool", "AlexandriaKernel/src/lib/ThreadPool.cpp"),
   ("exception pointer and checkForException", "AlexandriaKernel/src/lib/ThreadPool.cpp")], None, TR, CONN)
p("P03", "FilePool accessors give shared readers or one exclusive writer",
  "For one file handler, at any time either any number of read accessors or a single write accessor exist, never both. A blocking request for an accessor "
  "is granted once the accessors that conflict with it have been released, and threads that each hold at most one accessor at a time never deadlock, "
  "whatever the limit of the manager. A try request never blocks and never fails without cause: it returns nothing only if a conflicting accessor exists or is being "
  "requested; isReadOnly() tells readers from writers.",
  ["schedules", "histories"], "all interleavings of threads requesting and releasing accessors on one or several files",
  "The two FileAccessor tests do not involve FileHandler at all; locking bugs need concurrent holders.",
  ["FilePool/FilePool/FileHandler.h", "FilePool/src/lib/FileHandler.cpp", "FilePool/FilePool/FileAccessor.h", "FilePool/FilePool/_impl/FileHandler.icpp"],
  [("FileHandler::getAccessor", "FilePool/FilePool/_impl/FileHandler.icpp"), ("FileAccessor destructor", "FilePool/FilePool/FileAccessor.h")], None, TR, CONN)
p("P04", "FilePool never leaks, shares or closes a descriptor in use, and keeps the limit",
  "Every file a file manager opens is closed exactly once, and only while no accessor uses it; a descriptor is used by at most one accessor at a time, and one "
  "opened for reading is never handed to a writer nor the other way round. The LRU manager never has more files open than its limit: to open one more it first closes the "
  "least recently used file nobody uses, and it fails (Elements::Exception) if all of them are in use; getUsed() is the number of open files, getAvailable() what is left up to getLimit(). After closeAll() no unused descriptor is open; after the last handle on a file, or on the manager, is gone nothing it opened stays open.",
  ["schedules", "histories"], "all histories of opening, reusing and releasing accessors over several files and any limit",
  "No test in the build covers FileHandler, FileManager or LRUFileManager.",
  ["FilePool/FilePool/LRUFileManager.h", "FilePool/src/lib/LRUFileManager.cpp", "FilePool/src/lib/FileManager.cpp", "FilePool/FilePool/FileManager.h",
   "FilePool/src/lib/FileHandler.cpp", "FilePool/FilePool/_impl/FileHandler.icpp", "FilePool/FilePool/_impl/FileManager.icpp"],
  [("LRUFileManager::notifyIntentToOpen / notifyUsed", "FilePool/src/lib/LRUFileManager.cpp"), ("FileManager::closeAll", "FilePool/src/lib/FileManager.cpp"),
   ("FileHandler::close", "FilePool/src/lib/FileHandler.cpp")], None, TR, CONN)
p("P05", "One live file handler per file",
  "As long as a handler for a file is alive, asking the same manager for that file again - by whatever absolute or relative path or symbolic link names it - returns the very same handler, "
  "and hasHandler() is true for it; different files get different handlers, and so do different managers. When nothing refers to a file's handler any more hasHandler() is false. This stays "
  "true after handlers have been released and re-created, and when several threads ask at the same time.",
  ["histories", "schedules"], "all histories of acquiring and releasing handlers, paths spelled in different ways, concurrent requests",
  "No test in the build covers FileManager.",
  ["FilePool/src/lib/FileManager.cpp", "FilePool/FilePool/FileManager.h"], [("FileManager::getFileHandler", "FilePool/src/lib/FileManager.cpp"),
   ("FileManager::hasHandler", "FilePool/src/lib/FileManager.cpp")], None, TR, CONN)
p("P06", "NdArray element addressing and value semantics",
  "For every shape, at() with in-range coordinates reads and writes the element at that row-major position, whichever overload is used and by attribute name too, iteration "
  "visits exactly those elements in row-major order, and out-of-range coordinates, wrong numbers of coordinates, unknown attributes and data whose length does not match the "
  "shape are rejected. Copy construction and assignment share the data, copy() does not; reshape keeps the sequence of elements and rejects a shape with another number of "
  "elements. Two arrays compare equal exactly when shapes and elements are equal.",
  ["inputs", "histories"], "all shapes, coordinates and sequences of construction, copy, assignment, reshape, access and iteration",
  "The tests use a handful of fixed shapes and never combine copies, reshapes and writes.",
  ["NdArray/NdArray/NdArray.h", "NdArray/NdArray/_impl/NdArray.icpp"],
  [("get_offset/update_strides", "NdArray/NdArray/_impl/NdArray.icpp"), ("Iterator", "NdArray/NdArray/_impl/NdArray.icpp")], None, TR, SEQN)
p("P07", "NdArray slices are live views",
  "slice(i) and rslice(i) denote exactly the elements of the array at index i of the first (last) axis, in row-major order, through any nesting of slices and reshapes; writes "
  "through a view, the parent or any shared copy are seen by all of them and change nothing else. A deep copy of a view holds exactly the view's elements, and slice() keeps the attribute names of the last axis.",
  ["inputs", "histories"], "all chains of slice, rslice, reshape, copy and writes over all shapes",
  "Tests look at single slices of one or two fixed arrays.",
  ["NdArray/NdArray/_impl/NdArray.icpp"], [("slice/rslice", "NdArray/NdArray/_impl/NdArray.icpp"), ("private view constructor", "NdArray/NdArray/NdArray.h")], None, TR, SEQN)
p("P08", "NdArray reductions, index conversion and concatenation",
  "sum, sum along an axis, trapz along an axis, argmax, argmin and unravel_index give the mathematically defined result for any array or view, any axis (negative axes counting from the "
  "end) and reject invalid axes, knot counts and indexes. concatenate appends the other array along the first axis, rejects mismatching shapes without changing anything, and never alters what other arrays sharing the data denote.",
  ["inputs", "histories"], "all arrays, views and axes; all sequences interleaving concatenation with views and copies",
  "Tests use one or two fixed arrays per operation and never views.",
  ["NdArray/NdArray/_impl/Operations.icpp", "NdArray/src/Operations.cpp", "NdArray/NdArray/_impl/NdArray.icpp"],
  [("sum/trapz/argmax/argmin", "NdArray/NdArray/_impl/Operations.icpp"), ("unravel_index", "NdArray/src/Operations.cpp"), ("concatenate", "NdArray/NdArray/_impl/NdArray.icpp")], None, TR, SEQN)
p("P09", "NPY files round-trip and memory-mapped arrays stay in step with the file",
  "Writing an array to NPY and reading it back, as a stream or by memory mapping, yields the same shape, element values and attribute names; files written by numpy are read the same way, and files of another type, byte order or layout, "
  "damaged or truncated files are rejected. Elements written through an array mapped for writing, and rows added by concatenating to it, are in the file and in every other view of it (a private mapping or a copy shares nothing), and the file always remains a valid NPY file. Concatenating beyond the reserved maximum size fails, "
  "leaving array and file as they were.",
  ["inputs", "histories"], "all shapes, element types, attribute names and sequences of create, map, write, concatenate and reopen",
  "The NPY tests are not part of the build here and use two fixed arrays.",
  ["NdArray/NdArray/io/Npy.h", "NdArray/NdArray/io/NpyMmap.h", "NdArray/NdArray/io/_impl/NpyCommon.h", "NdArray/NdArray/io/_impl/NpyMmap.icpp",
   "NdArray/NdArray/io/_impl/NpyReader.icpp", "NdArray/NdArray/io/_impl/NpyWriter.icpp"],
  [("writeNpy/readNpy", "NdArray/NdArray/io/_impl"), ("MappedContainer", "NdArray/NdArray/io/_impl/NpyMmap.icpp")], None, TR, SEQN)
p("P10", "KdTree range queries return exactly the points in range",
  "For any set of points (duplicates and collinear points included), any leaf size, any centre and any non-negative radius, findPointsWithinRadius returns exactly the points whose distance to the centre is smaller than the radius, each point of the input once, for every supported dimension.",
  ["inputs"], "all finite point sets, leaf sizes, centres and radii",
  "Four tests on small fixed point sets.",
  ["KdTree/KdTree/KdTree.h", "KdTree/KdTree/_impl/KdTree.icpp"], [("Leaf/Split", "KdTree/KdTree/_impl/KdTree.icpp")], None, TR, SEQN)
p("P11", "GridContainer cells, coordinates and iteration agree",
  "A grid has one cell per combination of axis knots: the cell addressed by coordinates is the cell the iterator visits when it reports those coordinates and knot values, iteration visits every cell once with the first axis "
  "fastest, and writes through one are read through the other. at() rejects coordinates outside any axis, and arithmetic that is defined on grids and axes (sizes, knot values, lookup of a knot or of the interval of a value) is consistent with the axes the grid was built from.",
  ["inputs", "histories"], "all numbers and sizes of axes (with duplicated sizes and single-knot axes) and all access sequences",
  "The GridContainer tests proper do not build here; those that do cover only helpers.",
  ["GridContainer/GridContainer/GridContainer.h", "GridContainer/GridContainer/_impl/GridContainer.icpp", "GridContainer/GridContainer/GridIndexHelper.h",
   "GridContainer/GridContainer/_impl/GridIterator.icpp", "GridContainer/GridContainer/GridAxis.h"],
  [("GridIndexHelper", "GridContainer/GridContainer/GridIndexHelper.h"), ("GridContainer::iter", "GridContainer/GridContainer/_impl/GridIterator.icpp")], None, TR, SEQN)
p("P12", "Fixing axes of a grid, by slice or by iterator, selects exactly that sub-grid",
  "A slice with one or more axes fixed (by index or by value, one after another) is a grid whose fixed axes have one knot, whose cells are exactly the original cells with those coordinates, and which shares their storage. "
  "An iterator with axes fixed visits exactly the same cells, in order, then reaches end(). Fixing by a value that is not a knot, or an index outside the axis, is rejected.",
  ["inputs", "histories"], "all grids, all subsets and orders of fixed axes, reads and writes through both views",
  "The GridContainer tests proper do not build here and fix at most two axes.",
  ["GridContainer/GridContainer/_impl/GridContainer.icpp", "GridContainer/GridContainer/_impl/GridIterator.icpp"],
  [("fixAxisByIndex/fixAxisByValue", "GridContainer/GridContainer/_impl/GridContainer.icpp"), ("iter::fixAxisByIndex", "GridContainer/GridContainer/_impl/GridIterator.icpp")], None, TR, SEQN)
p("P13", "Grid serialization round-trips",
  "Exporting grids or slices of grids to a binary or text archive (several in one stream if wanted) or to a FITS file, and importing them back in the same order gives the same axis names, knot values and cell contents in the same positions, for every number of axes and every supported knot and cell type. Converting a grid or slice to a table gives one row per cell in iteration order, with the axis values of that cell (last axis first) followed by its value.",
  ["inputs"], "all grids over the supported axis and cell types and archive kinds",
  "Tests serialize one axis and one tuple.",
  ["GridContainer/GridContainer/serialization/GridContainer.h", "GridContainer/GridContainer/serialization/GridAxis.h", "GridContainer/GridContainer/serialization/tuple.h",
   "GridContainer/GridContainer/serialize.h", "GridContainer/GridContainer/_impl/FitsSerialize.icpp"],
  [("save/load", "GridContainer/GridContainer/serialization"), ("gridExport/gridImport", "GridContainer/GridContainer/_impl")], None, TR, SEQN)
p("P14", "Configuration manager lifecycle and dependency order",
  "Registering a configuration constructs it and everything it declares as dependency, each once per manager; initialize() then calls preInitialize of all of them, initialize of all of them and postInitialize of all of them, each once, with the (declared or added) registered dependencies of a configuration initialized before it. closeRegistration() returns the options of exactly the registered configurations in their groups, and reports any circular dependency with an exception. Registration is rejected once closed, and a configuration is obtainable only from an initialized manager where it is registered.",
  ["histories", "configurations"], "all dependency graphs (cycles included), registration orders and call sequences",
  "The ConfigManager tests do not build here and use one fixed graph.",
  ["Configuration/Configuration/ConfigManager.h", "Configuration/src/lib/ConfigManager.cpp", "Configuration/Configuration/_impl/ConfigManager.icpp", "Configuration/src/lib/Configuration.cpp"],
  [("ConfigManager::closeRegistration/initialize", "Configuration/src/lib/ConfigManager.cpp"), ("recursiveInitialization, hasCircularDependencies", "Configuration/src/lib/ConfigManager.cpp")], None, TR, SEQN)
p("P15", "Program option wildcards and unique manager ids",
  "findWildcardNames returns exactly the instance names with which wildcard(), for at least one of the given option names, gives the name of an option in the map, each once; wildcard() joins name and instance with a dash. Every id returned by getUniqueManagerId() is different from all those returned before, by whatever thread.",
  ["inputs", "schedules"], "all option names and patterns; concurrent id requests",
  "Three tests on fixed names.",
  ["Configuration/src/lib/ProgramOptionsHelper.cpp", "Configuration/Configuration/ProgramOptionsHelper.h", "Configuration/src/lib/Utils.cpp"],
  [("findWildcardNames", "Configuration/src/lib/ProgramOptionsHelper.cpp"), ("getUniqueManagerId", "Configuration/src/lib/Utils.cpp")], None, TR, SEQN)
p("P16", "Tables and rows are well formed",
  "A row has exactly the columns its column info names, each cell holding the type declared for its column, and a table's rows all share one column info; anything else is rejected at construction. Column lookup by name and by index agree, unknown names and indexes are rejected, and column "
  "infos with duplicated names are rejected.",
  ["inputs"], "all column definitions and cell values, well formed or not",
  "The Table tests do not build here and use fixed rows.",
  ["Table/src/lib/Row.cpp", "Table/src/lib/Table.cpp", "Table/src/lib/ColumnInfo.cpp"], [("Row::Row", "Table/src/lib/Row.cpp"), ("ColumnInfo::ColumnInfo", "Table/src/lib/ColumnInfo.cpp"), ("Table::Table", "Table/src/lib/Table.cpp")], None, TR, SEQN)
p("P17", "ASCII tables round-trip",
  "A table written by the ASCII writer (any comment indicator, with or without column info, in one or several chunks) and read back has the same column names, types, units, descriptions, comment and rows in order, also when text contains blanks, tabs, quotes or backslashes (but not the comment indicator) and numbers have up to six significant digits. Without column info the names and rows survive, as text or with the types given to the reader; settings, comments after data and tables with other columns are refused once data is written, without changing what is written.",
  ["inputs", "histories"], "all tables of the supported cell types, all writer settings and chunkings",
  "The ASCII tests do not build here and compare a few fixed tables.",
  ["Table/src/lib/AsciiWriter.cpp", "Table/src/lib/AsciiReader.cpp", "Table/src/lib/AsciiReaderHelper.cpp", "Table/src/lib/AsciiWriterHelper.cpp"],
  [("AsciiWriter::append", "Table/src/lib/AsciiWriter.cpp"), ("AsciiReader::readImpl", "Table/src/lib/AsciiReader.cpp")], None, TR, SEQN)
p("P18", "ASCII reader streaming is independent of chunking",
  "Reading an ASCII stream in pieces of any sizes, with any number of skips and look-aheads in between, yields the same rows as reading it at once; hasMoreRows and rowsLeft always tell the truth about the rest, and asking for rows past the end, or settings after reading has started, is rejected. Comments, blank lines and mixed separators never change the rows; column names come from the names given to the reader, else from the last comment line if it has one word per column, else from the 'Column:' lines, else col1, col2, …; a line with the wrong number of values or an unconvertible value is rejected.",
  ["inputs", "histories"], "all files and all sequences of read, skip and query operations",
  "The ASCII reader tests do not build here and read each file once.",
  ["Table/src/lib/AsciiReader.cpp", "Table/Table/TableReader.h"],
  [("AsciiReader::readImpl/skip/hasMoreRows/rowsLeft", "Table/src/lib/AsciiReader.cpp")], None, TR, SEQN)
p("P19", "Cell conversions keep the value or fail",
  "Converting a cell to another type yields the same value when the target type is the same or wider (bool to int to long to float or double, any type to text, scalars and vectors to vectors of such types) and fails otherwise. Text converts exactly if all of it is a number (or, for vectors, a comma separated list of numbers) in the range of the target type.",
  ["inputs"], "all cell values of all types, all target types",
  "The CastVisitor tests do not build here and use a few values.",
  ["Table/Table/CastVisitor.h"], [("CastVisitor", "Table/Table/CastVisitor.h")], None, TR, SEQN)
p("P20", "A catalog contains exactly the sources of the table",
  "A catalog made from a table has one source per row in row order, each with the id from the id column and exactly the attributes the registered handlers produce; find returns the source with that id or none. An unknown id column, an id that is neither text nor integer, and duplicated ids are rejected, and a source gives back the first attribute of the requested type, or none.",
  ["inputs"], "all tables, id column types and handler sets",
  "Catalog tests do not build here.",
  ["SourceCatalog/src/lib/CatalogFromTable.cpp", "SourceCatalog/src/lib/Catalog.cpp", "SourceCatalog/SourceCatalog/Catalog.h", "SourceCatalog/SourceCatalog/Source.h"],
  [("CatalogFromTable::createCatalog", "SourceCatalog/src/lib/CatalogFromTable.cpp"), ("Catalog::find", "SourceCatalog/src/lib/Catalog.cpp")], None, TR, SEQN)
p("P21", "Photometry flags follow the missing-data and upper-limit rules",
  "For every filter the photometry built from a row carries the flux and error of its columns, with the missing-data flag (and error 0) exactly when missing photometry is enabled and the flux is the flag value or not a number; otherwise infinite or undefined fluxes and zero errors are rejected, and a negative error marks an upper limit when these are enabled (its error the absolute value, or flux divided by the filter's threshold if it is the flag value; the flux must be positive) and is rejected when not. Magnitudes are converted first, keeping the flags. Filters keep their order and lookups by name return the values at that filter.",
  ["inputs", "configurations"], "all flux/error combinations (NaN, flag value, zero, negative, around the threshold) and all settings",
  "The photometry tests do not build here and sample a few combinations.",
  ["SourceCatalog/src/lib/PhotometryAttributeFromRow.cpp", "SourceCatalog/SourceCatalog/SourceAttributes/Photometry.h"],
  [("PhotometryAttributeFromRow::createAttribute", "SourceCatalog/src/lib/PhotometryAttributeFromRow.cpp")], None, TR, SEQN)
p("P22", "XY datasets are found and parsed exactly",
  "A file-system provider offers exactly the dataset files below its root, under names that mirror the directory structure, lists any group completely (names in order.txt first, in that order, then the others sorted) and returns for each name the points of its file in order, or nothing for unknown names; two files with the same qualified name are rejected. The ASCII parser takes the dataset name from the NAME parameter, else from the first line if it is a comment of a single word, else from the file name without extension; a parameter given several times is joined with ';'. A file is a dataset exactly if its first line that is neither empty nor a comment consists of two numbers.",
  ["inputs", "histories"], "all directory trees, order files and file contents",
  "The XYDataset tests do not build here and use one fixed tree.",
  ["XYDataset/src/lib/FileSystemProvider.cpp", "XYDataset/src/lib/AsciiParser.cpp", "XYDataset/src/lib/StringFunctions.cpp"],
  [("FileSystemProvider", "XYDataset/src/lib/FileSystemProvider.cpp"), ("AsciiParser", "XYDataset/src/lib/AsciiParser.cpp")], None, TR, SEQN)
p("P23", "Cached datasets and qualified names are faithful",
  "A caching provider answers every query exactly as the wrapped provider does, asking it for each dataset and each group listing at most once. Qualified names split and join without loss, reject empty parts, and their equality, ordering and hashes are consistent with the full name (AlphabeticalComparator orders by it); group membership holds exactly when the group is a proper prefix of the name.",
  ["inputs", "histories"], "all query sequences and names",
  "No test covers the cache in the build.",
  ["XYDataset/src/lib/CachedProvider.cpp", "XYDataset/src/lib/QualifiedName.cpp"],
  [("CachedProvider::getDataset/listContents", "XYDataset/src/lib/CachedProvider.cpp"), ("QualifiedName", "XYDataset/src/lib/QualifiedName.cpp")], None, TR, SEQN)
p("P24", "One-dimensional functions: interpolation, piecewise algebra and integrals",
  "An interpolated function passes through every data point, is linear between neighbours when linear (spline: the natural cubic spline), and outside the range is zero or, if asked for, continues its first and last piece; piecewise functions evaluate the right piece between and at knots and zero outside. Products of functions equal the product of their values everywhere, clones and derivatives of polynomials are exact, and integrals over any interval equal the exact sum over the pieces, antisymmetric in the bounds and additive. Unsorted or mismatching data are rejected; the numerical schemes (Simpson, numerical derivative, quadratic solver) are exact on the polynomials they are designed for.",
  ["inputs"], "all knot sets (duplicates, steps, unsorted input), functions and arguments",
  "The interpolation and function tests do not build here; they sample a few points.",
  ["MathUtils/src/lib/interpolation/interpolation.cpp", "MathUtils/src/lib/interpolation/linear.cpp", "MathUtils/src/lib/interpolation/spline.cpp", "MathUtils/src/lib/function/Piecewise.cpp",
   "MathUtils/src/lib/function/Polynomial.cpp", "MathUtils/src/lib/function/multiplication.cpp", "MathUtils/src/lib/function/function_tools.cpp"],
  [("interpolate", "MathUtils/src/lib/interpolation/interpolation.cpp"), ("Piecewise", "MathUtils/src/lib/function/Piecewise.cpp"), ("multiply/integrate", "MathUtils/src/lib/function")], None, TR, SEQN)
p("P25", "N-dimensional grid interpolation is exact at knots and multilinear between",
  "Interpolation on a grid returns the stored value at every knot combination, the multilinear blend of the surrounding knots between them, and outside the grid zero or the linear extrapolation according to the setting, for one to four axes, axes with a single knot and discrete axes (a value that is not a knot gives zero). Continuous axes that are not sorted and values whose shape does not match the axes are rejected; copies behave like the original.",
  ["inputs"], "all grids, axis types and query points",
  "The tests for it do not build here and sample a few points.",
  ["MathUtils/MathUtils/interpolation/GridInterpolation.h", "MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp"], [("InterpN", "MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp")], None, TR, SEQN)
p("P26", "Cumulative distributions, their inverses and samplers agree with the PDF",
  "A cumulative built from a PDF holds the running sums of its samples, normalizing it changes no answer, findValue gives the begin, middle or end of the first stretch of equal values that reaches the asked ratio, and of the intervals that hold the asked rate findMinInterval returns a shortest one. An inverse cumulative returns for any probability the first position where the cumulative of the PDF (linear between floating point knots, steps at discrete ones) reaches it, and a two dimensional sampler draws the last axis from its marginal and the first one conditionally on it, in the same way, whether made from an array or from a grid. Ratios outside the allowed range and knots and values of different number are rejected.",
  ["inputs"], "all PDFs (flat and zero stretches included) and probabilities",
  "The tests for it do not build here.",
  ["MathUtils/src/lib/PDF/Cumulative.cpp", "MathUtils/MathUtils/helpers/InverseCumulative.h", "MathUtils/MathUtils/PDF/_impl/NdSampler.icpp"], [("Cumulative", "MathUtils/src/lib/PDF/Cumulative.cpp"), ("InverseCumulative", "MathUtils/MathUtils/helpers/InverseCumulative.h")], None, TR, SEQN)
p("P27", "PDF modes are extracted in order and do not overlap",
  "Mode extraction returns at most the requested number of modes, the highest first (or the largest area first), none for a PDF that is zero everywhere. Each mode extends from its peak, the first highest sample of what remains of the PDF, to either side until a zero, the end, or a sample below the merge threshold from where the PDF does not go further down; its area and mean come from exactly those samples, its interpolated maximum from the parabola through the peak and its neighbours, and no sample belongs to two modes.",
  ["inputs"], "all PDFs (plateaus, zeros, several equal maxima), merge ratios and numbers of modes",
  "The tests for it do not build here.",
  ["MathUtils/src/lib/PDF/PdfModeExtraction.cpp"], [("extractNHighestModes/extractNBigestModes", "MathUtils/src/lib/PDF/PdfModeExtraction.cpp")], None, TR, SEQN)
p("P28", "Histograms count every value once",
  "Every value inside the binned range (both ends included) is counted, with its weight, in exactly the bin whose edges contain it, values outside and those that are not a number are not counted, and automatic binning covers all values with bins of equal width, as many as its rule says; edges, bin centres and counts agree in number and order. "
  "Clipping removes only bins at either end outside the range, keeps the others unchanged, and rejects a reversed range; from then on everything is about the bins left. Mean, median and standard deviation are those of the bin centres weighted with the counts (the median interpolated within its bin), and copies and assignments are independent.",
  ["inputs", "histories"], "all data sets, weights and binning strategies",
  "The Histogram tests do not build here and use fixed data.",
  ["Histogram/Histogram/Histogram.h", "Histogram/Histogram/_impl/ComputationImpl.icpp", "Histogram/Histogram/Binning/EdgeVector.h", "Histogram/Histogram/Binning/Scott.h", "Histogram/Histogram/Binning/Sqrt.h"],
  [("Histogram::computeBins", "Histogram/Histogram/_impl/ComputationImpl.icpp"), ("BinStrategy::getBinIndex", "Histogram/Histogram/Binning")], None, TR, SEQN)
p("P29", "SOM training, best-match search and projection",
  "The best matching unit of an input is a cell whose weights are nearest to it under the metric of the map (with uncertainties only if the metric supports them), and the reported distance is that distance. A training step moves every cell towards the input by exactly neighbourhood factor times learning rate, the neighbourhood depending on how far a cell is from the best matching unit in either direction; "
  "sampling policies go through what they say, and a training that selects nothing changes nothing. A projection accumulates each input in its best matching unit only, the U-matrix has the minimum, maximum or mean distance of each cell to its neighbours, and stored maps read back equal or are rejected if of another type.",
  ["inputs", "histories"], "all maps, inputs, metrics, neighbourhood and learning functions",
  "The SOM tests do not build here.",
  ["SOM/SOM/SOM.h", "SOM/SOM/_impl/SOM.icpp", "SOM/SOM/SOMTrainer.h", "SOM/src/lib/NeihbourhoodFunc.cpp", "SOM/SOM/_impl/SOMProjector.icpp", "SOM/SOM/_impl/UMatrix.icpp"],
  [("SOM::findBMU", "SOM/SOM/_impl/SOM.icpp"), ("SOMTrainer::train", "SOM/SOM/SOMTrainer.h")], None, TR, SEQN)
p("P30", "FITS tables round-trip and can be extended",
  "A table written to a FITS HDU, in one call or row group by row group, and read back (in any portions, skipping any rows, by name or index of the HDU) has the same column names, units, descriptions, comments and rows in the same order, with the types the format has for them; a writer extends the table of its name, leaves the other HDUs alone, starts an empty file only when asked to override, and rejects tables with other columns, without changing anything. "
  "Tables of other origin are read with the documented types, or rejected if they have none, and the numbers of rows left, has-more and skip agree with what is read. The dataset parser finds the name, the parameters and the points of a file, and recognizes which files it can read.",
  ["inputs", "histories"], "all tables, HDU layouts and orders of writing, reading and skipping", "CCfits is not installed, so neither the code nor its tests build here.",
  ["Table/src/lib/FitsWriter.cpp", "Table/src/lib/FitsReader.cpp", "Table/src/lib/FitsWriterHelper.cpp", "Table/src/lib/FitsReaderHelper.cpp", "Table/src/lib/TableWriter.cpp", "XYDataset/src/lib/FitsParser.cpp"],
  [("FitsWriter", "Table/src/lib/FitsWriter.cpp"), ("FitsReader", "Table/src/lib/FitsReader.cpp"), ("FitsParser", "XYDataset/src/lib/FitsParser.cpp")], None, TR, SEQN)
p("P31", "Cosmological distances and the numerical methods behind them",
  "For every cosmology the comoving distance is the integral of 1/E(z) (E from the densities of matter, curvature and the cosmological constant) to the requested precision, and grows with redshift; the transverse, luminosity and volume quantities follow from it by the standard relations for the sign of the curvature, the modulus is that of the luminosity distance, and at redshift zero the luminosity distance is 10 pc. "
  "Simpson's rule weighs the nodes as the extended rule does, its recursion from the previous order gives the same, the adaptive integration reaches the requested relative precision, and orders too small are rejected. Finite differences approximate the first and second derivative, and a quadratic equation is solved with both solutions in order, or rejected when there is nothing to solve.",
  ["inputs"], "all cosmological parameters, redshifts, functions and orders", "The tests for it do not build here and compare a few tabulated values.",
  ["PhysicsUtils/src/lib/CosmologicalDistances.cpp", "PhysicsUtils/src/lib/CosmologicalParameters.cpp", "MathUtils/src/lib/numericalIntegration/SimpsonsRule.cpp", "MathUtils/MathUtils/numericalIntegration/_impl/AdaptativeIntegration.icpp", "MathUtils/src/lib/numericalDifferentiation/FiniteDifference.cpp", "MathUtils/src/lib/helpers/Solvers.cpp"],
  [("CosmologicalDistances", "PhysicsUtils/src/lib/CosmologicalDistances.cpp"), ("SimpsonsRule", "MathUtils/src/lib/numericalIntegration/SimpsonsRule.cpp")], None, TR, SEQN)
p("P32", "A configured program reads exactly the catalog its options describe",
  "From the options, the catalog file (ASCII or FITS, stated or recognized by its first bytes) and the filter mapping file, a program that registers the catalog configurations reads every source of the file in order, whole or in portions, identified by the column given by name or 1-based index, with the photometry of the filters of the mapping that are not excluded, each with its own columns, threshold and conversion, and with the redshifts and PDFs of the columns asked for. "
  "Options that are missing, contradictory, out of range or name what does not exist, and mapping files with malformed lines, are rejected before any catalog is read; relative paths are taken from the base directory and absolute ones are not. Nothing can be asked for before, or changed after, the phase in which it is available.",
  ["inputs", "histories"], "all catalog files, mappings, sets of configurations and options", "The tests for it do not build here and try one option at a time.",
  ["Configuration/src/lib/CatalogConfig.cpp", "Configuration/src/lib/PhotometricBandMappingConfig.cpp", "Configuration/src/lib/PhotometryCatalogConfig.cpp", "Configuration/src/lib/SpecZCatalogConfig.cpp", "Configuration/Configuration/PdfCatalogConfig.h"],
  [("CatalogConfig", "Configuration/src/lib/CatalogConfig.cpp"), ("parseFile", "Configuration/src/lib/PhotometricBandMappingConfig.cpp"), ("SpecZCatalogConfig", "Configuration/src/lib/SpecZCatalogConfig.cpp")], None, TR, SEQN)
p("P33", "Lists of values in texts, tuple tails and held objects",
  "A list of values in a text is split at the separators, those next to each other counting as one and blanks around the text not at all, and gives every element in order as a value of the type asked for, or is rejected as a whole if one has no such value. "
  "The tail of a tuple has all elements but the first in order, and leaves the tuple as it was unless it is moved from. A holder of an instance owns it, destroys it once and only with the holder, and one of a reference refers to the object itself and never destroys it.",
  ["inputs", "histories"], "all texts, separators and value types; all histories of holders", "The tests use a handful of texts, and none for holders.",
  ["AlexandriaKernel/AlexandriaKernel/StringUtils.h", "AlexandriaKernel/AlexandriaKernel/Tuples.h", "AlexandriaKernel/AlexandriaKernel/InstOrRefHolder.h", "AlexandriaKernel/AlexandriaKernel/_impl/InstOrRefHolder.icpp"],
  [("stringToVector", "AlexandriaKernel/AlexandriaKernel/StringUtils.h"), ("Tail", "AlexandriaKernel/AlexandriaKernel/Tuples.h"), ("InstOrRefHolder", "AlexandriaKernel/AlexandriaKernel/InstOrRefHolder.h")], None, TR, SEQN)

NA = {}


def main():
    import checks
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps({k: v for k, v in q.items() if k[0] != "_"}) + "\n")
    ch = [dict(property=q["id"], quick_cmd="python3 check.py %s" % q["id"], thorough_cmd="VERIF_TIER=thorough python3 check.py %s thorough" % q["id"],
               technique=q["_t"], level="model_checking", level_note=q["_n"]) for q in P if q["id"] in checks.CHECKS]
    na = [dict(property=q["id"], reason=NA.get(q["id"], "No check built yet.")) for q in P if q["id"] not in checks.CHECKS]
    json.dump(dict(version=1, setup_cmd="python3 setup_check.py", checks=ch, not_applicable=na,
                   notes="No hooks in /repo: the checks observe the library through its public API and, for threads, through the C library calls it makes. Repairs are the fix: commits listed in known_findings.txt."),
              open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        n = q["statement"].count(". ") + 1
        if n > 3:
            print("long statement", q["id"], n)
        for f in q["anchors"]["files"]:
            if not os.path.exists("/repo/" + f):
                print("missing", q["id"], f)


main()
