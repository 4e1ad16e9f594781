#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the long texts stay readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), obs=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(obs), hook_needed=None)))

C = "src/bigfile.c"
p("C01", "Written rows read back exactly, however they are striped and split",
  "Reading any range of rows of a column returns, for every row, the value most recently written to that row, whatever the number and sizes of the physical files (empty ones included), the way writes and reads are cut into calls, and the I/O buffer size (even one smaller than a row). This holds through the handle that wrote, through another handle, and after closing and reopening. A row that was never written but lies before a written row of the same physical file reads as zero, and no read ever succeeds with rows that belong to another position.",
  ["inputs", "histories", "configurations"],
  "every striping (number and sizes of files), every sequence of writes/reads/seeks, every buffer size, every reopen point, rows of any width, offsets beyond 2^31",
  "tests write a handful of arrays with 1-3 equal files and the 64 MB default buffer, so almost no write crosses a chunk boundary, an empty file or an odd stripe",
  [C, "src/bigfile.h"],
  [("chunked read/write loop", "big_block_read, big_block_write in src/bigfile.c"), ("logical-to-physical seek", "big_block_seek in src/bigfile.c")],
  [("fsize/foffset", "rows per physical file and their prefix sums", "BigBlock in src/bigfile.h"), ("ptr", "position (file, row in file, absolute row)", "BigBlockPtr in src/bigfile.h")],
  ["return of every read/write call", "bytes of the physical files"])
p("C02", "Any memory layout transfers the same rows and touches nothing else",
  "A transfer described by a strided, reversed, broadcast, transposed, higher-dimensional or partly overlapping-with-padding memory view moves the same elements, in C order of the view, as a contiguous copy of it would. Memory outside the described elements, and the whole of a source that is only being written to disk, is left exactly as it was.",
  ["inputs"],
  "every shape and stride vector (contiguous, padded, negative, zero for sources, up to several dimensions), every split over buffers and files, both directions, native and swapped byte order",
  "tests use C-contiguous arrays almost exclusively, and none looks at the bytes around a view or at the source after a write",
  [C, "src/bigfile.h", "bigfile/pyxbigfile.pyx"],
  [("strided iterator", "big_array_iter_init, big_array_iter_advance in src/bigfile.c"), ("conversion walking two iterators", "_dtype_convert, cast in src/bigfile.c")],
  [("strides/dims", "byte strides and extents of the view", "BigArray in src/bigfile.h")],
  ["caller memory before and after each call"])
p("C03", "Type and byte-order conversion preserves values or is refused",
  "Moving data or attributes between two supported element types or byte orders converts every element to the same numeric value whenever the target type can represent it (C conversion otherwise: nearest float, truncation toward zero, modular integers), with both parts of a complex number kept in their places. The bytes on disk are those of the column's declared type and byte order. A pair of types without a conversion is refused with an error and nothing is stored.",
  ["inputs"],
  "every ordered pair of supported types, both byte orders on both sides, values at and around the limits of each type, data transfers and attributes alike",
  "tests cover a few same-type round trips and two byte orders of one integer type",
  [C],
  [("conversion table", "cast, _dtype_convert, byte_swap in src/bigfile.c"), ("type descriptor", "_dtype_normalize, dtype_isvalid in src/bigfile.c")],
  [], ["bytes on disk", "values returned"])
p("C04", "Positions and bounds: out-of-range requests are refused without any effect",
  "A position set absolutely, relative to the current one, or counted from the end denotes exactly that row; a successful transfer advances it by the rows transferred and the end test is true exactly at the end. A request that would go before the first row or beyond the last one is refused and leaves data, description and position unchanged, except that the one-call read of up to n rows is instead cut at the end and says how many rows it returned. Writing zero rows changes nothing.",
  ["inputs", "histories"],
  "every seek/read/write request at, around and far beyond both ends of columns with any striping, in any order",
  "tests seek to 0 or inside the column; one test covers one over-long request",
  [C],
  [("bounds checks", "big_block_seek, big_block_read, big_block_write, big_block_read_simple in src/bigfile.c")],
  [("ptr", "current position", "BigBlockPtr")], ["return codes", "position after each call", "files after refused calls"])
p("C05", "Attributes behave as a map from names to typed values",
  "The attributes of an open column are a map: setting a name replaces its whole previous value (type, length and content), removing it makes only that name absent, looking a name up finds it exactly when it is present, and listing gives every present name once in byte order. Operations on one name never change another, whatever their number, order and sizes. A name that is empty or contains a blank, and a request whose length differs from the stored one, are refused without changing the map.",
  ["histories", "inputs"],
  "every sequence of set/get/remove/lookup/list over any number of names and value sizes, including growth of the internal storage",
  "tests set a few small attributes once; none interleaves removal, replacement and growth",
  [C, "bigfile/pyxbigfile.pyx"],
  [("sorted attribute list with growing storage", "attrset_add_attr, attrset_remove_attr, attrset_lookup_attr, attrset_set_attr in src/bigfile.c")],
  [("attrset", "sorted list of (name, type, count, data)", "BigAttrSet in src/bigfile.c")], ["every attribute call"])
p("C06", "Attributes survive flush, close and reopen bit for bit",
  "After a flush or close returns success, opening the column again (from this or another process) shows exactly the same attribute names, types, lengths and bytes as the handle had, including removals, replaced values, values of length zero, values containing any byte, and values of any supported type and byte order. This holds for ordinary columns and for the attributes of the file itself. Whatever attributes a handle accepted, the column can still be opened.",
  ["histories", "inputs"],
  "every attribute map reachable by set/remove, every value byte pattern and size, any number of flush/reopen cycles",
  "tests reopen with a few printable attributes; removal followed by reopen, empty values and arbitrary bytes are not exercised",
  [C],
  [("textual attribute file", "attrset_write_attr_set_v2, attrset_read_attr_set_v2 in src/bigfile.c")],
  [("attr-v2 file", "one line per attribute with hex data", "block directory")], ["attribute file", "attributes after reopen"])
p("C07", "A column's description survives reopening and growing",
  "Type, row width, number of physical files and their sizes given at creation, and added by growing, are what a reopened column reports; growing appends files and leaves every existing row readable at its position. A column that was created or grown successfully can always be opened again, and a creation whose type or name could not be opened again is refused. Creating over an existing column replaces it entirely: its new rows do not show old data and its old attributes are gone.",
  ["histories", "inputs"],
  "every sequence of create/re-create/grow/flush/close/reopen with any type, row width and file sizes",
  "tests create and reopen once with valid types; growing is tested once with one file",
  [C],
  [("header text file", "big_block_flush, _big_block_open, _big_block_create_internal in src/bigfile.c"), ("grow", "big_block_grow, _big_block_grow_internal in src/bigfile.c")],
  [("header", "type, width, files, sizes", "block directory")], ["header file", "description after reopen"])
p("C08", "Operations touch only the column they address, and reading touches nothing",
  "An operation on one column never changes any byte of another column or of the containing file, also when their names are prefixes of each other or nested. Opening, reading, listing, querying attributes and closing a handle that made no modification leave every file on disk as it was, even when another handle modified the column in the meantime.",
  ["histories"],
  "every interleaving of operations on several columns and several handles of which at most one modifies a column at a time",
  "tests use one or two columns and never compare the untouched ones or the files after read-only use",
  [C],
  [("dirty flags", "big_block_flush, big_block_write, attrset_* in src/bigfile.c"), ("path construction", "_path_join, _big_file_open_a_file in src/bigfile.c")],
  [("dirty", "whether a handle has unsaved changes", "BigBlock, BigAttrSet")], ["bytes of all files around every call"])
p("C09", "Listing shows exactly the columns that exist",
  "After any sequence of creations at any nesting depth, listing a file returns each column that exists below it and does not lie inside the directory of another column exactly once, under the name that opens it, and nothing else; directories that merely lead to columns, hidden entries and stray files are not columns. Creating a column makes the directories leading to it; opening a name that is not a column fails and creates nothing. A listing made through a sub-directory equals the part of the full listing below it.",
  ["histories", "inputs"],
  "every set of column names (nested, prefixes of each other, many, unusual characters), created in any order, with stray entries present",
  "tests list one to three flat or singly nested names",
  [C, "bigfile/__init__.py"],
  [("recursive scan", "listbigfile_r, big_file_list, _big_file_path_is_block in src/bigfile.c"), ("directory creation", "_big_file_mksubdir_r in src/bigfile.c")],
  [], ["result of listing", "result of open"])
p("C10", "The recorded checksums equal the byte sums of the data",
  "When every row of a physical file has been written exactly once, in any order, split, memory layout, or number of sessions and processes (serial or collective), the checksum recorded for that file equals the sum of its bytes and every checksum of a file not written is unchanged. Saving, reopening, growing or reading any number of times, on any number of ranks, does not alter recorded checksums.",
  ["histories", "configurations", "schedules"],
  "every write-once history, with any striping, number of sessions, number of ranks, and any number of flush/open/grow in between",
  "one test verifies checksums after one write; collective and multi-session histories are not checked",
  [C, "src/bigfile-mpi.c", "bigfile/pyxbigfile.pyx"],
  [("running byte sum", "sysvsum, big_block_write in src/bigfile.c"), ("sum over ranks at collective flush", "big_block_mpi_flush in src/bigfile-mpi.c, _MPI_flush in bigfile/pyxbigfile.pyx")],
  [("fchecksum", "running sum per physical file", "BigBlock")], ["header file"])
p("C11", "Completed operations survive the death of the process at any later point",
  "If the process is killed at any instant, a fresh process still reads every row whose write call had returned, and the description and attributes as of the last completed flush, close or create of each column, unless the death fell inside a later flush or create of that same column. Rows outside the range of the write in progress are never damaged. Other columns are unaffected.",
  ["crash_points", "histories"],
  "every crash point at the granularity of file-system operations, over any history of operations on several columns",
  "no test kills a process",
  [C],
  [("unbuffered data files", "_big_file_open_a_file in src/bigfile.c"), ("data written before the call returns", "big_block_write in src/bigfile.c"), ("description saved only by flush", "big_block_flush in src/bigfile.c")],
  [], ["files after the kill, read by a fresh process"])
p("C12", "A file-system failure is reported and damages nothing else",
  "When the operating system refuses or cuts short any single open, seek, read, write, truncation or close (for example because the disk is full), the call in progress returns an error instead of success, unless it nevertheless did all it was asked (closing a stream that was only read from may fail without harm), and the process survives. Rows outside the range being written and other columns keep their contents. A call that returns success has its effect completely on disk, and after a failure the same call can be repeated with success once the fault is gone.",
  ["fault_sequences", "histories"],
  "every single fault at every file-system operation of every API call",
  "no test injects a fault",
  [C],
  [("result checks", "RAISEIF around every stdio call in src/bigfile.c"), ("error reporting", "_big_file_raise in src/bigfile.c")],
  [], ["return codes", "files after the fault"])
p("C13", "A collective transfer equals the serial one of the concatenated rank data",
  "A collective write stores the ranks' rows one after another in rank order from the common position, and a collective read gives each rank its part of that range, for any per-rank row counts (zero included), any number of ranks, any concurrency limit and aggregation setting, any memory layout and type on each rank. The position then stands, on every rank, after all the rows. A collective transfer that does not fit or needs an impossible conversion is refused on all ranks and writes nothing outside the requested range, and nothing at all when it does not fit.",
  ["schedules", "inputs", "configurations"],
  "every number of ranks, distribution of rows, concurrency, aggregation threshold, striping and interleaving of ranks",
  "the MPI tests run fixed rank counts with near-equal sizes and default aggregation",
  ["src/bigfile-mpi.c", "src/mp-mpiu.c"],
  [("segments and groups", "MPIU_Segmenter_init, _MPIU_Segmenter_assign_colors in src/mp-mpiu.c"), ("gather/scatter and action", "_aggregated, _throttle_action in src/bigfile-mpi.c")],
  [("segment, group, offset", "which rank writes which rows when", "MPIU_Segmenter")], ["data files", "results and positions on every rank"])
p("C14", "Collective transfers terminate and respect the concurrency limit",
  "At any instant at most the requested number of ranks have physical files of the column open for the data of one collective transfer (all ranks if the limit is zero or negative), and every rank carrying data performs or delegates its part exactly once. Every collective call returns on every rank for every distribution of rows, including ranks without rows and errors on any rank.",
  ["schedules", "inputs", "configurations"],
  "every interleaving of ranks, every distribution of rows, concurrency and aggregation setting",
  "the tests cannot observe how many ranks are active, and run a few fixed distributions",
  ["src/bigfile-mpi.c", "src/mp-mpiu.c"],
  [("one segment of each group at a time", "_throttle_action in src/bigfile-mpi.c"), ("groups", "MPIU_Segmenter_init in src/mp-mpiu.c")],
  [], ["open and close of data files on every rank"])
p("C15", "All ranks agree on outcomes and on the column's description",
  "Every collective call gives the same success or failure on every rank, with the error message of the failing rank available on all of them, also when only one rank fails. After a collective open, create, grow or flush every rank sees the same type, row width, files, sizes and attributes, equal to what is on disk after a flush. What a collective sequence leaves on disk is what the same sequence done serially would leave.",
  ["schedules", "histories", "configurations"],
  "every collective history, any number of ranks, failure on any rank",
  "tests check success on all ranks for valid calls; a failure on one rank is not provoked",
  ["src/bigfile-mpi.c", "src/bigfile.c"],
  [("error broadcast", "big_file_mpi_broadcast_anyerror in src/bigfile-mpi.c"), ("block broadcast", "big_block_mpi_broadcast in src/bigfile-mpi.c, _big_block_pack/_unpack in src/bigfile.c")],
  [], ["return codes, messages and descriptions on every rank"])
p("C16", "Record operations act on each field's column as on separate columns",
  "Creating, appending, writing and reading a structured record type has on the column of each field exactly the effect of the same operation on that field alone, with the field at its place in the packed record, for any number, types and widths of fields, and serially or collectively. Reading records back returns what was written, fields may be read in other combinations, and a range that does not fit is refused.",
  ["inputs", "histories"],
  "every record type (fields in any order, type, width), every create/append/write/read history",
  "tests use one or two fixed record types over the whole range",
  ["src/bigfile-record.c", "src/bigfile-mpi.c", "bigfile/pyxbigfile.pyx"],
  [("field offsets", "big_record_type_complete, big_record_view_field in src/bigfile-record.c"), ("per-field loop", "big_file_write_records, big_file_read_records, big_file_create_records in src/bigfile-record.c")],
  [("rtype", "fields with offsets", "BigRecordType")], ["columns of each field", "record buffers"])
p("C17", "Indexing a Python column or dataset follows sequence rules",
  "Reading a column or dataset at an integer, slice or ellipsis gives what the same index gives on an in-memory array of its rows: negative indices count from the end, slices are clipped, empty slices are empty, a column selection has just those fields, in either order of index and field names. Assigning to a slice changes exactly the rows the slice selects, and an index out of range, an unsupported step or a value of the wrong length raises an error without changing anything.",
  ["inputs"],
  "every integer, slice (start, stop, step) and selection on columns and datasets of any length and row shape",
  "tests index with full slices and a few positive bounds",
  ["bigfile/__init__.py", "bigfile/pyxbigfile.pyx"],
  [("slice normalisation", "_enhance_slicefunc, Column.__getitem__/__setitem__, Dataset._getslice in bigfile/__init__.py"), ("read/write", "ColumnLowLevelAPI.read/write in bigfile/pyxbigfile.pyx")],
  [], ["value or exception of each index expression"])
p("C18", "Python create, append, pickle and close keep objects and files in step",
  "Creating, creating from an array with any chunking, appending, flushing, leaving a context, dropping or pickling Python file and column objects leaves on disk what the same sequence of low-level operations would leave, and a file object lists a column as soon as it created it. An unpickled file or column shows the same description, attributes and data as the original. Appending puts the new rows after the old ones and makes them visible to later opens.",
  ["histories"],
  "every history of these operations over several objects, any number of physical files and chunk sizes",
  "tests follow short fixed scripts on one object",
  ["bigfile/__init__.py", "bigfile/pyxbigfile.pyx", C],
  [("pickling", "__getstate__/__setstate__ in bigfile/pyxbigfile.pyx, _big_block_pack/_unpack in src/bigfile.c"), ("append and create", "ColumnLowLevelAPI.append/create, File.create_from_array in bigfile")],
  [], ["objects and disk after every step"])
p("C19", "Python MPI columns behave as one shared column",
  "With the MPI file and column classes, data written by the ranks into disjoint ranges, attributes set on all ranks and rows appended by the first rank are, after a collective flush or close, on disk as if one process had done it all, with correct checksums. All ranks see the same blocks, sizes and attributes after create, open and flush, and an error on any rank is raised on all of them without a hang.",
  ["schedules", "histories", "configurations"],
  "any number of ranks, any split of rows between them, any number of sessions",
  "tests run one create and write at fixed rank counts",
  ["bigfile/__init__.py", "bigfile/pyxbigfile.pyx"],
  [("collective flush", "_MPI_flush, _MPI_broadcast in bigfile/pyxbigfile.pyx"), ("collective create/open", "ColumnMPI, FileMPI in bigfile/__init__.py")],
  [], ["objects on every rank", "disk"])
p("C20", "Copying or repartitioning a column preserves it",
  "The serial and parallel copy tools and the repartitioning script produce a column with the same type, row width, rows and attributes as the source, striped over the requested number of files, for every column size, buffer size and number of ranks, and leave the source (for copies) unchanged. If a tool cannot do so it exits with a non-zero status.",
  ["inputs", "configurations", "schedules", "fault_sequences"],
  "every source column, target file count, buffer size, number of ranks, and a failing read or write",
  "no test runs the copy tools",
  ["utils/bigfile-copy.c", "utils/bigfile-copy-mpi.c", "utils/bigfile-repartition"],
  [("chunk loop", "main in utils/bigfile-copy.c"), ("work distribution", "server, slave in utils/bigfile-copy-mpi.c")],
  [], ["target column and exit status"])
p("C21", "The inspection and editing tools agree with the library",
  "For every column the listing tool reports its name, type, width, size, checksum and file count, the dump tool prints exactly the rows requested, clipped at the end, and the attribute tools print and store exactly the values the library sees; the creation tool stores exactly the rows it is fed. A tool that cannot do what was asked exits with a non-zero status and does not damage the column.",
  ["inputs", "configurations"],
  "every column, range, buffer size, attribute type and value",
  "no test runs the tools",
  ["utils/bigfile-cat.c", "utils/bigfile-ls.c", "utils/bigfile-get-attr.c", "utils/bigfile-set-attr.c", "utils/bigfile-create.c", C],
  [("dump loop", "utils/bigfile-cat.c"), ("formatting and parsing", "big_file_dtype_format, big_file_dtype_parse in src/bigfile.c")],
  [], ["output and exit status of each tool", "column afterwards"])
p("C22", "The verification tool flags exactly the damaged columns",
  "The verification tool exits with success when the data of every checked column match the recorded checksum, and with a non-zero status, naming the column, when the data of any of them were altered so that the byte sum changes or can no longer be read.",
  ["inputs", "fault_sequences"],
  "every set of columns and every single damaged byte, missing or cut file",
  "no test runs the tool",
  ["utils/bigfile-check", "utils/bigfile-ls.c", "utils/bigfile-cat.c"],
  [("comparison", "check in utils/bigfile-check")],
  [], ["exit status and output"])
p("C23", "Malformed metadata is refused, never misread or fatal",
  "Opening a column whose description or attribute file is missing, cut short, or malformed in any place either fails with an error and leaves the process usable, or yields the values the file states; it never crashes, hangs or invents values. A column that cannot be opened does not keep other columns from being listed or used.",
  ["inputs"],
  "every truncation point and every mutation of tokens of description and attribute files",
  "no test opens a malformed column",
  [C],
  [("parsers", "_big_block_open, attrset_read_attr_set_v2, attrset_read_attr_set_v1 in src/bigfile.c")],
  [], ["result of open"])
p("C24", "Sparse and dense exchange helpers deliver the same data",
  "The exchange, gather, scatter and extremum-location helpers deliver, for every distribution of counts over ranks (zeros included), to each rank exactly the items addressed to it in rank order, whichever internal strategy (sparse, dense or automatic) is chosen and whether or not the optional layout arguments are given; the lowest rank holding the extremum is the one reported.",
  ["inputs", "schedules", "configurations"],
  "every matrix of counts, element size, number of ranks and policy",
  "no test calls the helpers",
  ["src/mp-mpiu.c", "src/mp-mpiu.h"],
  [("sparse and dense exchange", "MPIU_Alltoallv, MPI_Alltoallv_sparse in src/mp-mpiu.c"), ("gather, scatter, location", "MPIU_Gather, MPIU_Scatter, MPIU_GetLoc in src/mp-mpiu.c")],
  [], ["receive buffers on every rank"])
p("C25", "Every failure leaves a faithful, safe error message",
  "After any failing call an error message is available that contains the text of the original cause, verbatim, whatever characters and lengths the names involved have and however many layers passed the error on. Building, replacing or reading messages never crashes the process, also when several threads fail at the same time, and a thread that just failed reads its own cause.",
  ["inputs", "histories", "schedules"],
  "every failing call with names of any characters (including formatting directives) and lengths, nested re-raises, concurrent failures",
  "tests check that an exception is raised, not the text, and use short plain names",
  [C, "src/bigfile-internal.h", "bigfile/pyxbigfile.pyx"],
  [("message construction", "_big_file_raise, big_file_set_error_message, big_file_get_error_message in src/bigfile.c")],
  [("error message", "last error", "src/bigfile.c")], ["message after every failing call"])
p("C26", "Threads working on different columns do not disturb each other",
  "When several threads of one process use the library at the same time, each on its own handles and columns, every thread observes exactly the results it would have had alone, and the files end up as if the threads had run one after another.",
  ["schedules"],
  "every interleaving of operations of several threads on distinct columns of one file",
  "one test reads from a thread pool and checks only that the data is right",
  [C],
  [("no shared mutable state but the error message and buffer size", "src/bigfile.c")],
  [], ["per-thread results", "files"])
p("C27", "Python attribute values come back as they were stored",
  "An attribute set from Python to a string, a list of strings or an array of numbers is returned, by this object, by any object that opens the column later and by copies of the object, as the value of the same kind, type and content it was set to. Listing, membership and deletion of attributes agree with what was set.",
  ["inputs", "histories"],
  "every string, list of strings and numeric array, every history of setting, replacing, deleting, saving and reopening",
  "the tests store two or three fixed values",
  ["bigfile/pyxbigfile.pyx", C],
  [("Attrs.__setitem__, __getitem__, __delitem__, keys", "bigfile/pyxbigfile.pyx"), ("big_block_set_attr, attribute file format", C)],
  [], ["value, type and length returned", "attr-v2 file"])
p("C28", "Sampling takes rows in order, none twice, whatever the ranks",
  "The sampling tool makes a column of the same type, row width and attributes that holds rows of the source in their order, each at most once: all of them for ratio 1, none for ratio 0. Which rows does not depend on the number of ranks or on how they are scheduled, and the source is left unchanged. If it cannot do so it exits with a non-zero status on every rank, and no rank is left waiting.",
  ["inputs", "configurations", "schedules", "fault_sequences"],
  "every source column, ratio, number of target files, chunk size, number of ranks and schedule, and a failing file operation",
  "no test runs the tool",
  ["utils/bigfile-sample-mpi.c"],
  [("sizes and seeds of the chunks, work dealt out by rank 0", "main, server, slave in utils/bigfile-sample-mpi.c")],
  [], ["rows and attributes of the sample", "exit status"])
p("C29", "Renaming and removing affect exactly the columns named",
  "The renaming tool moves a column, or a directory of columns, to the new name with its rows, type, checksums and attributes unchanged, and refuses with a non-zero status, changing nothing, if there is no such column or the new name is taken. The removing tool removes exactly the named columns and fails if one of them is not there. All other columns stay as they are.",
  ["inputs", "histories"],
  "every set of columns, nested ones included, and every sequence of renames, removals, copies and edits",
  "no test runs the tools",
  ["utils/bigfile-rename", "utils/bigfile-rm"],
  [("move and removal", "utils/bigfile-rename, utils/bigfile-rm")],
  [], ["columns on disk afterwards", "exit status"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        assert x["statement"].count(". ") <= 2, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
