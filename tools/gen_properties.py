#!/usr/bin/env python3
# Writes /verif/properties.jsonl. The property list is kept here because JSONL is unpleasant to edit by hand.
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,state,mech,observe,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
p("C01","RLE (SASYZCRL) rows expand to exactly the bytes the format defines",
 "In a CHAR (SASYZCRL) compressed table, reading a row that is stored in fewer bytes than the row length (other rows are stored as they are) yields exactly the row-length bytes defined by the run-length command stream: literal copies of 1-64 bytes and of 64 bytes and more, runs of a given byte, '@', blank or zero with the documented length biases, and zero fill after the last command. A literal copy longer than what is left of the stored row copies what is left; a stream whose commands would overfill the row, or that uses an undefined command, raises an exception instead of delivering a row. Nothing of an earlier row shows through in a later one.",
 ["inputs"],"every compressed byte string up to the stated length, every row length up to the stated bound, and every literal payload",
 "tests_decompressors.cpp runs a handful of literal vectors and the sample files exercise a few commands; most command/length/payload combinations and the overfull and truncated streams are never run.",
 ["src/decompressors.hpp","src/data.hpp"],[("decompressed row","row-length output buffer, reused between rows","src/decompressors.hpp DST_VALUES")],
 [("RLE::operator()","src/decompressors.hpp"),("SRC_VALUES/DST_VALUES bounds","src/decompressors.hpp")],["Reader::read_row / read_row_no_sink","sink push_row"])
p("C02","RDC (SASYZCR2) rows expand to exactly the bytes the format defines",
 "In a BINARY (SASYZCR2) compressed table, reading a row that is stored in fewer bytes than the row length (other rows are stored as they are) yields exactly the row-length bytes defined by Ross Data Compression: 16-bit big-endian control words consumed from the most significant bit, literals for 0 bits, and for 1 bits short/long runs and short/long back-references with the documented biases, zero filled after the last code. A back-reference copies byte after byte, so one that overlaps its own output repeats the pattern; one that reaches before the start of the row, or a code that would overfill the row, raises an exception instead of delivering a row. Nothing of an earlier row shows through in a later one.",
 ["inputs"],"every compressed byte string up to the stated length and every row length up to the stated bound",
 "Tests use a few literal vectors; control-word refills, overlapping back-references and back-references past the start are not covered.",
 ["src/decompressors.hpp","src/data.hpp"],[("decompressed row","row-length output buffer, reused between rows","src/decompressors.hpp DST_VALUES")],
 [("RDC::operator()","src/decompressors.hpp"),("store_pattern","src/decompressors.hpp")],["Reader::read_row / read_row_no_sink","sink push_row"])
p("C03","Corrupt compressed rows stay inside their buffers",
 "Whatever bytes a compressed row contains and however short it is, decompressing it either raises an exception or delivers exactly row-length bytes. It never reads outside the stored row, never reads or writes outside the row buffer, never terminates the process and always finishes.",
 ["inputs"],"every byte string up to the stated length offered as a compressed row, for both compressions and every row length up to the bound",
 "No test feeds a damaged compressed row.",
 ["src/decompressors.hpp","src/data.hpp","src/buffer.hpp"],[],
 [("SRC_VALUES::check / DST_VALUES::assert_check","src/decompressors.hpp")],["Reader::read_row","process memory"])
p("C04","File header fields are decoded exactly",
 "Opening a file exposes in its properties exactly what its header stores: format, endianness, platform, character encoding name, dataset name, file type, creation and modification time, header and page length, page count, SAS release, server type, OS type and OS name, each taken from its documented position shifted by the two alignment markers. Text fields are returned without surrounding blanks and padding. A file whose magic number differs in any byte, or that is shorter than its header, is refused with an exception.",
 ["inputs","configurations"],"every value of the header bytes, for all combinations of endianness, 32/64-bit format and alignment markers",
 "The sample files contain one or two values of each field and not every alignment/endianness combination.",
 ["src/header.hpp","src/encodings.hpp","src/encodings.cpp","src/types.hpp","include/cppsas7bdat/properties.hpp"],
 [("properties header part","decoded header","include/cppsas7bdat/properties.hpp")],
 [("check_magic_number, set_aligns_endianness, set_header_length_and_read, set_header","src/header.hpp"),("get_encoding","src/encodings.cpp")],["Reader::properties()"])
p("C05","Byte order, word size and alignment do not change what is read",
 "Two files with the same logical content, one big-endian and one little-endian, one in the 32-bit and one in the 64-bit layout, or with different header alignment, give the same columns, the same row count, the same row indices and the same cell values.",
 ["inputs","configurations"],"every cell content and every layout pair, for the stated table shapes",
 "Sample files are not stored in pairs that differ only by layout, so the code paths are only compared on unrelated data.",
 ["src/sas7bdat-impl.hpp","src/buffer.hpp","src/types.hpp","src/metadata.hpp","src/page.hpp","src/data.hpp"],[],
 [("endian/format template parameters","src/buffer.hpp"),("read_header dispatch","src/sas7bdat-impl.hpp")],["Reader::properties()","sink push_row"])
p("C06","Every stored row is delivered once, in order, with its index",
 "Reading a file to the end delivers exactly the rows it stores, in file order and with consecutive indices from zero, and no more than the declared row count: rows of data pages by their block count, rows of mixed pages after the subheaders at the next 8-byte boundary, and compressed rows of meta pages by their row subheaders. Pages of other kinds, and subheaders marked as truncated or empty, contribute no row, wherever they occur in the file. Each delivered row has the bytes stored for it. (Excluded as inherently ambiguous: an uncompressed row stored as a subheader next to the file's metadata whose first bytes equal a metadata signature.)",
 ["inputs","histories"],"every sequence of page kinds and per-page row counts up to the stated number of pages, every declared row count, every row content",
 "Files in the test data follow SAS's usual page sequences; arbitrary sequences, empty pages in the middle and early row-count cut-offs are not present.",
 ["src/data.hpp","src/page.hpp","src/subheaders.hpp","src/metadata.hpp"],[("current page and row counters","position in the file","src/data.hpp READ_DATA")],
 [("READ_DATA::next / build_page / read_next_page","src/data.hpp"),("PAGE::*_type","src/data.hpp"),("process_page_subheaders","src/page.hpp")],["sink push_row sequence","Reader::current_row_index"])
p("C07","Any mix of read and skip calls walks the same row sequence",
 "For every sequence of single-row reads, chunked reads, sink-less reads, skips and read-to-end on a reader, the rows delivered are those that reading everything from the start would deliver at the same indices, with skipped rows left out, none twice and none out of order. A chunked read or a skip of n returns true exactly when n more rows existed, a single read exactly when one existed, and the current row index always equals the number of rows consumed.",
 ["histories","inputs"],"every call sequence up to the stated length with symbolic arguments, on files with several pages of each kind",
 "Tests use fixed call patterns (read all, fixed chunk size, one skip) on fixed files.",
 ["src/reader.cpp","src/reader-impl.hpp","src/data.hpp","include/cppsas7bdat/reader.hpp"],[("current row index","rows consumed so far","src/data.hpp READ_DATA")],
 [("ReaderImpl::read_row/skip/read_row_no_sink, impl::read_rows/read_all","src/reader-impl.hpp"),("READ_DATA::skip/read_line","src/data.hpp")],["Reader public API","sink push_row"])
p("C08","The sink sees properties first and end-of-data exactly when data ends",
 "A sink receives the properties exactly once, before any row. It is told end-of-data by every delivering read or skip that runs out of rows and by an explicit request, and by nothing else, and never before the last row that the same call delivered. Reading rows without the sink never calls it.",
 ["histories"],"every call sequence up to the stated length, on empty and non-empty tables",
 "Tests look at the rows collected, not at the notification history.",
 ["src/reader-impl.hpp","src/reader.cpp"],[],[("ReaderImpl::read_row/skip end_of_data","src/reader-impl.hpp")],["sink set_properties/push_row/end_of_data calls"])
p("C09","Column filters select columns without changing their values",
 "With a filter, the properties and the sink contain exactly the accepted columns in file order, and each has the same name, label, format, type and cell values as without the filter. An include list accepts exactly its names, an exclude list everything else, and the combination uses the include list when it is not empty.",
 ["inputs","configurations"],"every subset of columns accepted, every include/exclude list of the stated size and every name content within bounds",
 "Tests filter one or two fixed names.",
 ["include/cppsas7bdat/filter/column.hpp","src/metadata.hpp"],[],[("create_columns filter","src/metadata.hpp"),("Include/Exclude/IncludeExclude","include/cppsas7bdat/filter/column.hpp")],["Reader::properties().columns","sink push_row"])
p("C10","Column types follow stored type, width and display format",
 "A character column is a string column. A numeric column of width 1 or 2 is an integer; otherwise its format name decides: one of the recognised SAS datetime, date or time formats makes it a datetime, date or time column, and anything else a number for widths 3 to 8. A numeric column of any other width has the unknown type whatever its format, and the remaining columns are unaffected by it.",
 ["inputs"],"every stored type byte, width and format name within bounds",
 "Sample files use a few formats and widths.",
 ["src/metadata.hpp","src/formatters.hpp"],[],[("create_columns","src/metadata.hpp"),("COLUMN_*_FORMAT tables","src/metadata.hpp")],["Column::type"])
p("C11","Numeric cells decode to the exact stored value",
 "A numeric cell of width 8 is the stored IEEE double bit for bit, and one of width 3 to 7 is the double whose missing low-order bytes are zero, in either byte order. A one-byte cell is its unsigned value and a two-byte cell its signed value, both as integer and as number. Cells are taken from the column's own offset and width only.",
 ["inputs"],"every cell content and every column offset within the row, for widths 1 to 8 and both byte orders",
 "Tests compare some hundred concrete values.",
 ["src/formatters.hpp","src/types.hpp","src/metadata.hpp"],[],[("get_double/get_incomplete_double/get_val","src/types.hpp"),("*Formatter","src/formatters.hpp")],["Column::get_number","Column::get_integer"])
p("C12","Text cells are the stored bytes without trailing padding",
 "A text cell is the column's own bytes with trailing white space and NUL bytes removed and nothing else changed; leading blanks, embedded blanks and non-ASCII bytes are kept. It never includes a byte of a neighbouring column, and a cell of only padding is the empty string.",
 ["inputs"],"every cell content and width up to the bound",
 "Tests use typical strings only.",
 ["src/types.hpp","src/formatters.hpp"],[],[("get_string_trim_0","src/types.hpp"),("StringFormatter","src/formatters.hpp")],["Column::get_string","Column::to_string"])
p("C13","SAS date, datetime and time numbers convert to the right calendar value",
 "A date cell is the calendar day that many days after 1960-01-01, a datetime cell that many seconds after 1960-01-01T00:00:00 to the microsecond, and a time cell the time of day of that many seconds, over the whole range of years the library supports (1400 to 9999). A missing value, and a day or second number outside the supported years, gives a not-a-date result. No stored bit pattern terminates the process.",
 ["inputs"],"every whole-day / whole-second (and binary-fraction) value in the stated ranges, every NaN, and every out-of-range bit pattern",
 "Tests use a few dates around the present.",
 ["src/types.hpp","src/formatters.hpp"],[],[("get_datetime_from_epoch, get_date_from_epoch, get_time_from_epoch","src/types.hpp")],["Column::get_date/get_datetime/get_time"])
p("C14","Dates and times render as ISO text without touching foreign memory",
 "The text of a date is YYYY-MM-DD, of a datetime YYYY-MM-DD HH:MM:SS and of a time HH:MM:SS, each with a six digit fraction only when there is one, and it has exactly the characters of those fields for every value including times beyond 999 hours. The text of a missing cell is empty, and rendering it is safe.",
 ["inputs"],"every date, datetime and time value within the stated ranges",
 "Tests render a handful of values, none with a long hour field.",
 ["src/types.cpp"],[],[("to_string overloads","src/types.cpp")],["cppsas7bdat::to_string","Column::to_string"])
p("C15","Column names, labels and formats are the referenced pieces of text",
 "Each column's name, label and format is the piece of the text block that its reference (block number, offset, length) designates, clipped to the end of the block and stripped of surrounding white space and trailing non-printable bytes; a reference to a missing block, or whose first byte is not printable, is the empty string. Column i gets the i-th name, label, format, offset, width and type in file order.",
 ["inputs"],"every reference triple and every text block content within bounds",
 "References in sample files are always in range and well formed.",
 ["src/metadata.hpp"],[("text blocks","collected text subheaders","src/metadata.hpp READ_METADATA")],[("get_column_text_substr","src/metadata.hpp"),("process_COLUMN_NAME/ATTRIBUTES/FORMAT_AND_LABEL_SUBHEADER","src/metadata.hpp")],["Reader::properties().columns"])
p("C16","Compression kind and creator are recognised from the text block",
 "The compression reported, and used for reading rows, is CHAR when the first text block contains SASYZCRL, otherwise BINARY when it contains SASYZCR2, otherwise none. Creator and creating procedure come from their documented positions according to which signature is present. Later text blocks never change them.",
 ["inputs"],"every position of the signature and every content of the text block within bounds",
 "Sample files always carry the signature at the same offset.",
 ["src/metadata.hpp","src/sas7bdat-impl.hpp"],[],[("process_COLUMN_TEXT_SUBHEADER","src/metadata.hpp"),("read_data dispatch","src/sas7bdat-impl.hpp")],["Reader::properties()"])
p("C17","Malformed files fail with an exception, never with memory errors",
 "Whatever bytes a file contains, opening it and reading it to the end either succeeds or raises a C++ exception. It never accesses memory outside its buffers, never terminates the process, and finishes after work bounded by the file's size and declared row count.",
 ["inputs"],"arbitrary values of every length, offset, count, type and signature field in header, page headers, subheader pointers and subheaders, on files of the stated page size",
 "Tests only read valid files and three trivially bad ones.",
 ["src/header.hpp","src/page.hpp","src/metadata.hpp","src/data.hpp","src/buffer.hpp","src/formatters.hpp"],[],[("MBUFFER::check/assert_check","src/buffer.hpp"),("_get_page_subheader","src/page.hpp"),("extract_row_values","src/data.hpp")],["Reader constructor, read_all","process memory"])
p("C18","A source that ends or fails early never yields wrong rows",
 "When the byte source ends or fails at any point, the reader delivers exactly the rows of the pages read completely before it and then reports the end of data if the source reports end of file, or raises an exception if it does not. A header that cannot be read completely is refused with an exception, and so may be a file cut within the pages that hold its metadata. No row is made of bytes the source did not supply.",
 ["fault_sequences","inputs"],"every truncation point and every outcome of each read call (success, end of file, error) up to the stated number of reads",
 "Tests read complete files only.",
 ["src/page.hpp","src/header.hpp","src/data.hpp","src/buffer.hpp","include/cppsas7bdat/source/ifstream.hpp"],[],[("READ_PAGE::read_page","src/page.hpp"),("set_header_length_and_read","src/header.hpp")],["DataSource read_bytes/eof calls","sink push_row"])
p("C19","Grouping columns by type loses, duplicates and reorders nothing",
 "Grouping a column list by type puts every column of a supported type in exactly the group of its type, keeps the file order inside each group, and gives columns that read the same name, label, format and values as the originals.",
 ["inputs"],"every assignment of types to a list of up to the stated number of columns",
 "Tests look at a few fixed column lists.",
 ["src/column.cpp","include/cppsas7bdat/column.hpp"],[],[("Columns::Columns, get_columns","src/column.cpp")],["Columns"])
p("C20","Python sinks hand over every row once with contiguous index ranges",
 "For any table, chunk size and mix of reads and early flushes, a chunked Python sink receives chunks that contain every delivered row exactly once and in order, of at most the chunk size, whose start and end indices are those of their first and last row and whose cells are the column values; a whole-table sink receives at each end of data, in one call, the columns of all rows delivered since its previous hand-over, and a row sink one call per row. Nothing stays undelivered after end of data.",
 ["histories","inputs"],"every number of rows, chunk size, interleaving of skips and flushes and every cell content within bounds",
 "The Python tests use fixed files and chunk sizes.",
 ["python/pycppsas7bdat/cpp/sink.hpp"],[("chunk row counters","rows buffered and index range of the chunk","python/pycppsas7bdat/cpp/sink.hpp SinkChunk")],[("SinkChunk::push_row/flush/clear_values, SinkData, Sink","python/pycppsas7bdat/cpp/sink.hpp")],["push_rows/set_data/push_row calls on the Python object"])
p("C21","R sinks hand over every row once with the right indices",
 "For any table, chunk size and mix of reads and early flushes, a chunked R sink receives chunks that contain every delivered row exactly once and in order, with the row indices and cells of those rows; a whole-table sink receives at each end of data, in one call, everything delivered so far, and a row sink one call per row with a list of its own. Missing numbers arrive as NA, missing dates, datetimes and times as NA in sinks by columns and as NULL in row sinks, and vectors handed over earlier are not changed by later reads.",
 ["histories","inputs"],"every number of rows, chunk size, interleaving of skips and flushes and every cell content within bounds",
 "The R tests use fixed files and chunk sizes.",
 ["R/CPPSAS7BDAT/src/sink_by_columns.hpp","R/CPPSAS7BDAT/src/sink_chunk.hpp","R/CPPSAS7BDAT/src/sink_data.hpp","R/CPPSAS7BDAT/src/sink.hpp"],[("idata, row_index","rows buffered","R/CPPSAS7BDAT/src/sink_by_columns.hpp")],[("SinkByColumns::push_row/set_values/resize_vector","R/CPPSAS7BDAT/src/sink_by_columns.hpp")],["push_rows/set_data/push_row calls on the R object"])
p("C22","CSV and text output have one field per column and one line per row",
 "The CSV sink writes a header line with the column names and one line per row with one field per column in column order; names and text values are quoted so that a CSV reader gets them back unchanged, integers are decimal and missing numbers empty. The print sink writes the row index and one field per column per row, and column names appear verbatim whatever characters they contain.",
 ["inputs"],"every name and cell content within bounds",
 "No test parses the output of these sinks with unusual names or values.",
 ["include/cppsas7bdat/sink/csv.hpp","include/cppsas7bdat/sink/print.hpp"],[],[("csv::push_row/set_properties","include/cppsas7bdat/sink/csv.hpp"),("print::set_properties/push_row","include/cppsas7bdat/sink/print.hpp")],["output stream"])
p("C23","The csv command never overwrites the file it converts",
 "The csv command writes each input's table to a file next to it, named after the input with its extension replaced by (or, without one, followed by) .csv, which is never the input itself (the output of x.csv is x.csv.csv); it opens the input for reading only. The print and null commands open no file for writing.",
 ["inputs"],"every file name up to the stated length",
 "The command line tool has no tests.",
 ["apps/cppsas7bdat-ci.cpp"],[],[("get_csv_filename, process_csv","apps/cppsas7bdat-ci.cpp")],["files opened by the tool"])
p("C24","Moving a reader keeps its state; an empty reader is inert",
 "A reader that is move-constructed or move-assigned at any point of its use continues with the same properties, row position, rows and sink as if it had not been moved. A default-constructed or moved-from reader reports empty properties, row index zero, and delivers nothing, without failing.",
 ["histories"],"a move before every call of every call sequence up to the stated length",
 "Tests move readers only directly after construction.",
 ["src/reader.cpp","src/reader-impl.hpp","include/cppsas7bdat/reader.hpp"],[],[("Reader move operations","src/reader.cpp"),("set_pheader/set_pmetadata","src/reader-impl.hpp")],["Reader public API"])
p("C25","Table metadata numbers are the stored ones and the sink is told the same",
 "Opening a file exposes exactly the row length, row count, two partial column counts, column count, mix page row count and the lengths of the creator and procedure names that its row size and column size subheaders store, at full width of the file's word size and wherever on the metadata pages the subheaders lie; only the creator length is reported as zero when the compression field of the text block is blank, and the procedure length as zero when a creator name stands there instead. Empty, truncated and unused subheaders change nothing. The properties handed to the sink equal those the reader reports, and a filter changes nothing but the column list.",
 ["inputs"],"every value of each of these fields and every choice of extra subheaders within bounds, in all layouts",
 "Tests compare the numbers of fixed sample files, where most of the fields are zero or small.",
 ["src/metadata.hpp","src/reader-impl.hpp","src/reader.cpp"],[("Properties::Metadata","numbers that drive reading of every row","include/cppsas7bdat/properties.hpp")],[("process_ROW_SIZE_SUBHEADER, process_COLUMN_SIZE_SUBHEADER","src/metadata.hpp"),("impl::impl","src/reader-impl.hpp")],["Reader::properties","sink set_properties"])
p("C26","Readers are independent and columns outlive them",
 "Several readers in one process, on the same or on different files, can be used in any turns: every call moves, notifies and changes only its own reader, and the bytes of a row stay as they were read until the next call on the reader that read it. Copies of the properties and of columns keep decoding rows of their table after the reader is gone.",
 ["histories","schedules"],"every interleaving of the stated number of calls on two readers, with readers opened and destroyed in between",
 "Tests use one reader at a time.",
 ["src/decompressors.hpp","src/buffer.hpp","src/reader-impl.hpp","src/data.hpp","include/cppsas7bdat/column.hpp"],[("row buffers","page buffer and decompression buffer of each reader","src/buffer.hpp")],[("SRC_VALUES / decompressor buffers","src/decompressors.hpp"),("Column pimpl","include/cppsas7bdat/column.hpp")],["Reader public API","Column accessors"])
p("C27","Exceptions of user code reach the caller and leave the reader usable",
 "An exception of any type thrown by the sink, the filter or the source during construction or any call reaches the caller unchanged. A reader that could not be built has destroyed everything handed to it. After an exception of the sink, the row whose delivery failed counts as read and later calls deliver the remaining rows once and in order; after an exception of the source later calls deliver no row out of order. The reader destroys its sink, source and filter exactly once.",
 ["fault_sequences","histories"],"every call of the user's code as the failing one, with any exception value, in every call sequence of the stated length",
 "Tests use sinks and sources that never throw.",
 ["src/reader.cpp","src/reader-impl.hpp","include/cppsas7bdat/reader.hpp","src/data.hpp","src/page.hpp"],[],[("Reader::impl::build","src/reader.cpp"),("read_row, read_rows, read_all, skip","src/reader-impl.hpp")],["Reader public API","exceptions"])
p("C28","Every accessor of a column agrees with the column's own value",
 "The accessors of a cell tell one story: the number of a date, datetime or time cell is the stored number, the datetime of a date cell is its midnight, the date and time of a datetime cell are its parts, a time cell is the time of day of the same number of seconds, an integer cell is also that number and its text is its decimal notation. An accessor that does not apply to the column's type gives the empty text, zero, NaN or a special date or time. No accessor ever throws.",
 ["inputs"],"every cell content within bounds for every column type",
 "Tests call only the accessor of the column's own type on values of sample files.",
 ["src/formatters.hpp","src/types.hpp","include/cppsas7bdat/column.hpp"],[],[("IFormatter, DateFormatter, DateTimeFormatter, TimeFormatter, IntegerFormatter","src/formatters.hpp")],["Column accessors"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
