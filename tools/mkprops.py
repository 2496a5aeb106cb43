#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, tests, files, mech, observe, state=None, hook=False):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=tests,
        anchors=dict(files=files, mechanism=[dict(name=x, where=", ".join(files)) for x in mech],
                     observe_at=[observe], hook_needed=None)))

p("P01", "Pages written to a file are read back exactly",
  "For every schema, every sequence of row groups and every sequence of pages per column (dictionary pages, v1 and v2 data pages, any supported codec, any page bytes including empty ones), a file that was written and ended successfully is read back with the same schema, the same key-value metadata, the same row groups and columns, and for every column exactly the written pages in order. Each page read back has, after decompression, byte for byte the written bytes and the same header fields (value counts, encodings, level lengths, statistics). The order in which columns are read and the reading interface used (page reader, whole-column read followed by page reading, pages via the page index) make no difference, except that reading sequentially stops after the last data page that holds values and reading via the page index yields the pages that hold rows.",
  ["inputs","histories","configurations"],
  "all schemas, row-group sequences, page sequences, codecs, page versions and write options",
  "tests/it/write writes one row group with one column and one page in a dozen fixed shapes; nothing varies the number of pages, columns, groups, dictionaries, codecs and versions together.",
  ["src/write/file.rs","src/write/row_group.rs","src/write/column_chunk.rs","src/write/page.rs","src/read/page/reader.rs","src/read/compression.rs","src/write/compression.rs"],
  ["FileWriter::write/end write row groups, chunks and pages back to back","PageReader re-reads them from the chunk's byte range until num_values values were seen","Compressor/Decompressor (de)compress page bodies"],
  "bytes of the finished file; pages yielded by the readers")

p("P02", "Offsets, sizes and counts in the footer describe the file exactly",
  "In every successfully ended file, every byte lies in exactly one of: the leading magic, a page, a column chunk's trailing metadata copy, a column index, an offset index, the footer metadata, the footer length, the trailing magic; and every offset and length recorded in the metadata delimits exactly the structure it names. Column chunk compressed and uncompressed sizes, value counts, encodings and codec equal the sums (sets) over the pages written; row group sizes, row counts, file offsets and ordinals equal the sums over its chunks; the file's row count is the sum over its row groups. The size returned when ending the file is the number of bytes written.",
  ["inputs","histories","configurations"],
  "all write histories (row groups, columns, pages, options) that end successfully",
  "the tests check that a page comes back and compare some metadata of one-page files; sums over many pages, dictionary pages, headers and groups and the positions of indexes are never checked.",
  ["src/write/file.rs","src/write/row_group.rs","src/write/column_chunk.rs","src/write/page.rs","src/write/indexes/write.rs"],
  ["running file offset threaded through write, write_row_group, write_column_chunk and write_page","build_column_chunk sums header and body sizes","end() assigns index offsets and lengths"],
  "bytes of the file and its thrift footer, parsed independently of the crate's own readers")

p("P03", "A writer that failed or ended never yields a silently corrupt file",
  "For every sequence of calls on a sync or async writer, with the sink or any page source failing at any point, an end that returns success means the sink holds a complete file that contains exactly the row groups whose writes returned success. Ending twice, or writing after the end, is an error and leaves the finished bytes untouched. File metadata is offered by the writer exactly when an end has succeeded, and it equals the footer in the file.",
  ["histories","fault_sequences","crash_points"],
  "all call histories and all positions at which the sink or a page source can fail",
  "the tests only follow start, write, end once on a sink that never fails.",
  ["src/write/file.rs","src/write/stream.rs","src/write/mod.rs"],
  ["State {Initialised, Started, Finished}, the offset and the row group list of the writer","end() refuses a second call by looking at the state","a failed row group leaves bytes in the sink"],
  "results of write/end, the bytes in the sink, metadata()")

p("P04", "Opening a file depends only on a valid footer; truncations are rejected",
  "For every byte string, opening it as a file succeeds only if it ends in a footer: the magic, preceded by a non-negative metadata length that fits in the file, preceded by that many bytes of metadata; then the metadata decoded is the one stored there, for footers of any size (below, at and above the initial read size), whatever the initial position of the reader and however it splits its reads. A file cut short at any byte, as by a crash before the end call completed, is reported as an error, never opened as a smaller valid file unless the cut itself ends in such a footer. The size-supplied variant and the async variant agree with it.",
  ["inputs","crash_points"],
  "all byte strings, in particular all prefixes of all files and all footer lengths",
  "the tests open intact sample files and one with a wrong magic.",
  ["src/read/metadata.rs","src/read/stream.rs"],
  ["read_metadata_with_size reads the last 64 KiB, checks magic and length and re-reads when the metadata is larger"],
  "result of the metadata readers")

p("P05", "Async writing and reading agree with their sync counterparts",
  "For the same schema, options and row groups, the async writer produces byte-for-byte the file of the sync writer and returns the same size or fails on the same inputs. For the same file and filter, the async page streams (seeking or from the column's start) yield the same pages in the same order as the sync page reader and both end or fail at the same page, and the async whole-column reads and metadata reads return the same bytes and metadata, no matter how the underlying async source splits or delays its reads.",
  ["inputs","histories","schedules"],
  "all inputs, and all ways the async source or sink can return partial or pending results",
  "the async path is tested on two fixed files and one written file with an in-memory source that is always ready.",
  ["src/write/stream.rs","src/read/page/stream.rs","src/read/stream.rs","src/read/column/stream.rs"],
  ["FileStreamer duplicates FileWriter","_get_page_stream duplicates PageReader's loop","read_metadata async duplicates read_metadata"],
  "bytes in the sink, pages yielded, errors")

p("P06", "The page reader yields exactly the chunk's accepted pages, or an error",
  "For every column chunk byte stream, the page reader yields, in file order, every dictionary page and every data page the filter accepts until the number of values declared for the chunk has been read (skipped pages count), and then ends, staying ended. A page that is cut short, has a malformed or missing header, a negative size or a size above the configured maximum (which also bounds the header) yields an error - without allocating more than the maximum - and never a page with other bytes than the stream holds; the filter sees every data page exactly once and never a dictionary page. When the chunk is done the underlying source stands right after the last page consumed.",
  ["inputs","configurations"],
  "all page sequences, filters, declared value counts, size limits and truncation points",
  "tests read well-formed chunks without a filter; size limits, truncation, filters and value budgets are not varied.",
  ["src/read/page/reader.rs"],
  ["PageReader::next loops over next_page/build_page with seen_num_values against total_num_values","scratch buffer moved into the page and taken back for skipped pages"],
  "sequence of pages and errors, position of the source")

p("P07", "Written page indexes describe the written pages exactly",
  "For every ended file, the offset index of each column lists exactly its data pages in order, each with the position and length of that page in the file and the index of its first row, and the column index (written iff statistics are enabled) has for each data page its null count and its min and max as given by that page's statistics. Reading the indexes back for any contiguous or non-contiguous selection of a row group's chunks, in any order, returns the indexes of exactly those chunks; chunks without indexes yield an empty result. Every page fetched through the index equals the page obtained by scanning the chunk. Two indexes compare as equal exactly if they are of the same type and describe the same pages.",
  ["inputs","histories","configurations"],
  "all page sequences, dictionary use, statistics per page, physical types, options and chunk selections",
  "the tests check one index of one column with one or two pages.",
  ["src/write/indexes/serialize.rs","src/write/indexes/write.rs","src/write/file.rs","src/read/indexes/read.rs","src/read/indexes/deserialize.rs","src/indexes/index.rs"],
  ["serialize_offset_index/serialize_column_index from the page write specs","end() writes all column indexes, then all offset indexes","prepare_read assumes adjacent indexes"],
  "offset and column indexes in the file and as read")

p("P08", "Row selection through the page index selects exactly the chosen rows",
  "For every list of page locations and every sorted list of disjoint row intervals, the pages selected and the row intervals attached to them cover exactly the chosen rows: each chosen row is covered once, in the page that holds it, relative to that page's first row, and no other row is covered. Row intervals computed from chosen pages cover exactly those pages' rows. Reading with such a selection yields the dictionary page if the chunk has one and there is a page, then exactly the pages with a non-empty selection, with the bytes of the page and that selection attached.",
  ["inputs"],
  "all page layouts (including empty pages), row counts, interval lists and page subsets",
  "unit tests cover four hand-made layouts.",
  ["src/indexes/intervals.rs","src/indexes/mod.rs","src/read/page/indexed_reader.rs"],
  ["compute_page_row_intervals, compute_rows, is_in, select_pages","IndexedPageReader derives the dictionary page from the gap before the first page"],
  "returned intervals and filtered pages; pages yielded by the indexed reader")

p("P09", "Chunk statistics cover every value counted by the pages",
  "For every sequence of pages with statistics, the statistics written for the column chunk are sound: the minimum is not greater than any page minimum and the maximum not smaller than any page maximum under the type's order, both equal to one of them; the null count, if given, is the sum over the pages. Any bound or count the pages do not all determine is not invented. Page and chunk statistics are decoded to the values that were encoded, for every physical type, and two statistics compare as equal exactly if they are of the same type with the same bounds and counts.",
  ["inputs","histories"],
  "all sequences of page statistics, of every physical type",
  "unit tests reduce one or two hand-written statistics per type.",
  ["src/write/statistics.rs","src/write/column_chunk.rs","src/statistics/mod.rs","src/statistics/primitive.rs","src/statistics/binary.rs","src/statistics/fixed_len_binary.rs","src/statistics/boolean.rs"],
  ["reduce folds the page statistics","serialize_statistics/deserialize_statistics per type"],
  "statistics in the footer and as returned by the metadata and pages")

p("P10", "Hybrid RLE/bit-packed data decode to the values their runs denote",
  "For every bit width and every sequence of RLE and bit-packed runs, the run decoder and the value iterator yield exactly the values the runs denote, in order, ending at the requested length, by any mix of stepping, skipping and size queries; a stream whose last bit-packed run is cut short denotes zeros for the missing values. Encoding any sequence of values (or of booleans) and decoding it returns that sequence. Malformed headers give an error and not a wrong value.",
  ["inputs","programs"],
  "all bit widths 0..32, run sequences, lengths and interleavings of next/nth/size_hint",
  "tests decode a few short sequences of fixed widths.",
  ["src/encoding/hybrid_rle/mod.rs","src/encoding/hybrid_rle/decoder.rs","src/encoding/hybrid_rle/encoder.rs","src/encoding/hybrid_rle/bitmap.rs","src/encoding/uleb128.rs"],
  ["Decoder parses run headers","HybridRleDecoder keeps the current run and the remaining count","encode_u32/encode_bool emit bit-packed runs"],
  "values yielded, bytes encoded")

p("P11", "Iterating validity runs, filtered or not, preserves every row's validity",
  "For every sequence of definition-level runs and row count, iterating validity run-wise or element-wise yields each row's validity once, in order, and pairs each valid row with the next value. With a list of selected row intervals, the filtered iteration yields exactly the selected rows in order, and the number of non-null values reported as skipped before a selected row is exactly that of the rows between it and the previously selected one. Filtering a value iterator by row intervals yields exactly the values at the selected positions.",
  ["inputs"],
  "all run structures, lengths and interval lists",
  "unit tests cover a handful of fixed bitmaps and intervals.",
  ["src/deserialize/hybrid_rle.rs","src/deserialize/filtered_rle.rs","src/deserialize/utils.rs"],
  ["HybridDecoderBitmapIter, HybridRleBooleanIter, FilteredHybridBitmapIter, FilteredHybridRleDecoderIter, SliceFilteredIter, OptionalValues"],
  "items yielded by the iterators")

p("P12", "Delta and plain encodings round-trip every sequence of values",
  "For every sequence of 32- or 64-bit integers (including extreme values), encoding with the delta bit-packed encoding and decoding returns the sequence, and any standard-conforming encoding of it (any block size, miniblock count, per-miniblock width, padding) decodes to it, consuming exactly the encoded bytes. For every sequence of byte strings (empty, shared prefixes, one a prefix of another), the delta-length, delta (prefix) and plain encodings round-trip. Variable-length and zig-zag integers round-trip over their whole range.",
  ["inputs"],
  "all value sequences, lengths around block boundaries, extreme values, and all conforming encodings",
  "tests round-trip a few short sequences of small non-negative numbers and one fixed spark file.",
  ["src/encoding/delta_bitpacked/decoder.rs","src/encoding/delta_bitpacked/encoder.rs","src/encoding/delta_length_byte_array/decoder.rs","src/encoding/delta_byte_array/decoder.rs","src/encoding/delta_byte_array/encoder.rs","src/encoding/plain_byte_array.rs","src/encoding/uleb128.rs","src/encoding/zigzag_leb128.rs"],
  ["block/miniblock state machine of the decoder","prefix lengths computed against the previous item"],
  "values decoded and bytes consumed")

p("P13", "Bloom filters never produce false negatives and match the format",
  "For every set of inserted hashes and every bitset size that is a positive multiple of 32 bytes, a query for an inserted hash answers yes, and insertion only adds bits; the bits set for a hash are those the split-block format prescribes. The hash of a value is the one the format prescribes (XXH64, seed 0, of its plain encoding). Reading a column's bloom filter from a file returns exactly the stored bitset, and an empty result when the column has none.",
  ["inputs","histories"],
  "all hashes, insertion histories, bitset sizes and values of every type",
  "two unit tests insert one hash each; one file is read.",
  ["src/bloom_filter/split_block.rs","src/bloom_filter/hash.rs","src/bloom_filter/read.rs"],
  ["hash_to_block_index, new_mask, insert, is_in_set","read() at the chunk's bloom filter offset"],
  "bitset bytes, query answers, hashes")

p("P14", "Schemas survive conversion and leaf levels and paths are right",
  "For every schema tree, converting it to the file's flat form and back yields the same tree (names, repetition, physical, converted and logical types, field ids). The leaves are listed in depth-first order, each with its full path, its maximum definition level equal to the number of optional or repeated nodes on its path and its maximum repetition level equal to the number of repeated nodes. A flat form that does not describe a tree (child counts that overrun or leave elements over) or annotates a leaf with a converted or logical type its physical type cannot have is never turned into a schema silently. A schema is reported to contain exactly its projections.",
  ["inputs"],
  "all schema trees and all flat element lists",
  "tests use a handful of fixed schemas.",
  ["src/schema/io_thrift/from_thrift.rs","src/schema/io_thrift/to_thrift.rs","src/metadata/schema_descriptor.rs","src/schema/types/parquet_type.rs"],
  ["from_thrift_helper recursion over num_children","build_tree computes levels and path"],
  "schema descriptors, leaf descriptors, flat thrift elements")

p("P15", "Compression round-trips and reused buffers never leak between pages",
  "For every page, codec and level the codec has (others are refused), compressing then decompressing restores the page: v1 bodies as a whole, v2 level bytes stored uncompressed in front of the compressed values, nothing compressed when the codec is none or the page declares so. For every sequence of pages of varying sizes, kinds and codecs run through the streaming compressor or either streaming decompressor, with any initial buffer contents, each page observed equals the page obtained by handling it in isolation, with the rows selected of it. A compressed body that is cut short or does not decode to exactly its declared size is an error, never other bytes.",
  ["inputs","histories"],
  "all codecs, page versions, page bytes, page sequences and initial buffers",
  "tests compress one short buffer per codec and stream two pages.",
  ["src/compression.rs","src/write/compression.rs","src/read/compression.rs"],
  ["compress/decompress dispatch on codec","buffers swapped between page iterator, decompressor and page"],
  "pages yielded; buffers returned")

p("P16", "Legacy Hadoop-framed LZ4 is decoded and raw LZ4 still accepted",
  "For every sequence of Hadoop frames (big-endian decompressed and compressed sizes followed by a raw LZ4 block), decompressing with the legacy LZ4 codec yields the concatenation of the blocks; input that is not framed that way is decoded as one plain LZ4 block. Whatever the input, success means the output buffer is completely and correctly filled.",
  ["inputs"],
  "all frame sequences and malformed framings",
  "one sample file with single frames.",
  ["src/compression.rs"],
  ["lz4_decompress_to_buffer tries Hadoop framing, then plain"],
  "decompressed bytes or error")

p("P17", "File metadata survives re-serialisation and the metadata side-car",
  "For every file metadata, converting it to the stored form and back preserves version, row counts, creator, key-value pairs, schema, column orders, row groups and every column chunk field (row groups' ordinals and sorting columns are not kept; their offsets and compressed sizes are derived from their columns), and writing it as a metadata-only side-car file and reading that gives it back, returning the size written. Enumerations of the format (physical types, encodings, codecs, page types, converted and logical types, sort orders) map one to one to and from their stored codes, unknown codes being errors. Filtering row groups keeps exactly the chosen ones in order and everything else unchanged.",
  ["inputs","configurations"],
  "all metadata values, all enumeration codes and all row-group predicates",
  "one side-car test with a single row group; enumeration maps are touched only through files that use them.",
  ["src/metadata/file_metadata.rs","src/metadata/row_metadata.rs","src/metadata/column_chunk_metadata.rs","src/parquet_bridge.rs","src/write/file.rs","src/read/mod.rs","src/metadata/sort.rs"],
  ["try_from_thrift/into_thrift pairs","write_metadata_sidecar"],
  "metadata structures and side-car bytes")

p("P18", "Column iteration visits exactly the field's columns, in order",
  "For every row group and field name, the columns of a field are exactly the leaves whose path starts with that name, in schema order; iterating them, from the file or from pre-read chunks, gives each column once, in that order, with that column's own pages, and ends handing back the scratch buffer. Reading a column or a field's columns into memory, sync or async, returns exactly the bytes of each chunk.",
  ["inputs","histories"],
  "all schemas, field names, numbers of columns and consumption patterns (columns left partly read)",
  "tests iterate one or two columns of fixed files.",
  ["src/read/column/mod.rs","src/read/column/stream.rs","src/read/mod.rs"],
  ["ColumnIterator pops from a reversed list and threads reader and scratch","ReadColumnIterator","get_field_columns"],
  "sequence of columns and pages")

p("P19", "Page bodies deserialize to the values and validity they encode",
  "For every data page (v1 or v2, required or optional, repeated or not, plain or dictionary encoded, of any physical type, whole or with selected rows), splitting it yields the repetition levels, definition levels and values it was built from, and iterating it yields its rows' values and nulls in order. Dictionary indices address the dictionary's own items, for every index width. What the decoders announce to hold (values, rows, selected rows) is what they hold. A page whose declared level or value lengths do not fit its bytes is an error.",
  ["inputs","configurations"],
  "all levels, values, types, encodings, selections and widths",
  "tests deserialize fixed arrays for a few type/encoding pairs.",
  ["src/page/mod.rs","src/read/levels.rs","src/deserialize/native.rs","src/deserialize/binary.rs","src/deserialize/fixed_len.rs","src/deserialize/boolean.rs","src/deserialize/utils.rs"],
  ["split_buffer, dict_indices_decoder, DefLevelsDecoder, *PageState::try_new"],
  "values yielded per page")

p("P20", "The textual schema language denotes the schema it spells",
  "For every schema tree expressible in the message-type language, parsing its text, with any white space between tokens and any letter case of the keywords after `message`, yields that tree with its names, repetitions, physical, logical and converted types and ids. Text that is not a complete message type (missing, misplaced or surplus tokens, unknown or ill-parameterised types) is an error.",
  ["inputs","programs"],
  "all schema texts and all token deletions, insertions and replacements in them",
  "about thirty fixed strings.",
  ["src/schema/io_message/from_message.rs"],
  ["Tokenizer and recursive descent Parser"],
  "parsed type or error")

p("P21", "Bit packing is exact for every width and integer type",
  "For every unsigned integer type (8 to 64 bits), every bit width up to the type's size and every sequence of values below 2^width, packing writes value i at bits i*width .. (i+1)*width of the output, least significant bit first, and unpacking returns the values. Decoding any byte string yields exactly as many values as requested or fit, by any mix of stepping, skipping and size queries, and never a value from beyond the data.",
  ["inputs","programs"],
  "all types, widths, lengths and interleavings",
  "tests cover a few widths of u32 and patterned inputs.",
  ["src/encoding/bitpacked/mod.rs","src/encoding/bitpacked/pack.rs","src/encoding/bitpacked/unpack.rs","src/encoding/bitpacked/decode.rs","src/encoding/bitpacked/encode.rs"],
  ["macro-generated pack/unpack per width","Decoder over 8/16/32/64-value chunks with a zero-padded remainder"],
  "packed bytes and decoded values")

p("P22", "Damaged files end in results or errors, never in panics or false pages",
  "For every byte string, opening it and reading it through every stage (pages from the file, from a pre-read chunk or asynchronously; decompression, splitting and decoding of pages; statistics; page indexes and indexed pages; bloom filters) ends with results or errors, never with a panic, an abort (nor when memory cannot be had) or a hang. The pages yielded are the ones the bytes hold where the metadata says, and the three ways of reading agree on them; damage to one page is contained to that page (and, for a dictionary, the pages using it); an index or a bloom filter that is returned is the one the bytes hold, with one entry per page in every list of a column index.",
  ["inputs","fault_sequences"],
  "all byte strings, in particular all files with any bytes, thrift fields, lengths, counts, offsets or bodies changed, removed, repeated or swapped",
  "two tests read fixed malformed files; every length, count and offset in a file is an attack point on its own and in combination.",
  ["src/read/metadata.rs","src/read/page/reader.rs","src/read/page/stream.rs","src/read/compression.rs","src/page/mod.rs","src/statistics/mod.rs","src/statistics/primitive.rs","src/read/indexes/read.rs","src/read/indexes/deserialize.rs","src/indexes/index.rs","src/bloom_filter/read.rs","src/metadata/column_chunk_metadata.rs"],
  ["readers take lengths, counts and offsets from the file and allocate, seek and slice with them","split_buffer and decoders trust lengths inside page bodies","indexes are read by offset and length and decoded into typed pages"],
  "results of every stage of reading; pages, statistics, indexes and bloom filters returned")

p("P23", "Native values keep their bytes, their order and their instants",
  "For every value of a native type (32- and 64-bit integers and floats, 96-bit time stamps), its bytes are the little-endian ones the format stores, and reading or decoding them gives the value back. Two values compare as their type orders them: integers numerically, floats (other than NaN) as IEEE numbers, 96-bit time stamps by the instant their Julian day and nanoseconds denote, whatever the day, byte strings by their unsigned bytes with a prefix first; the order is total. The instant of a 96-bit time stamp, whenever it fits in 64 bits of nanoseconds since 1970, is that number. The width of a level is the bits its maximum needs, bits take as many bytes as hold them, and a length is read from exactly four bytes.",
  ["inputs"],
  "all pairs of values of every native type",
  "the tests compare two byte strings of a handful and convert no time stamp beyond those in one sample file.",
  ["src/types.rs","src/encoding/mod.rs","src/read/levels.rs"],
  ["NativeType::ord, to_le_bytes, from_le_bytes and decode","int96_to_i64_ns computes days since 1970 in nanoseconds in 64 bits","ord_binary compares byte by byte, then by length"],
  "results of the functions on values given by their bytes")

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P))
