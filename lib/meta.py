"""The properties: what is claimed, where it is anchored, how it is decided.  gen.py writes properties.jsonl and MANIFEST.json from here."""

WIRE_T = "static analysis: abstract interpretation of typed THIR into stream-event automata, reader/writer language equality per version cell"
WIRE_NOTE = ("Decides the layout and field correspondence of the code as written, for all objects and all versions; assumes the primitive "
             "read/write calls of byteorder/std move the bytes their names say, and that callers pair a reader with the writer of the same type. "
             "Constructs outside the modelled language make a pair inconclusive, never a violation; their number is bounded.")
TESTS = "The tests round-trip a handful of cooked assets of a few engine versions; "


def P(id, title, statement, over, text, why, files, mech, technique=WIRE_T, note=WIRE_NOTE, level="other"):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), technique=technique, note=note, level=level)


PROPS = [
    P("W01", "A package's summary and tables are written so that they read back",
      "For every asset and version combination, writing a package emits the summary, name, import, export, depends, soft reference, world tile and "
      "preload dependency tables in the layout in which parsing reads them, and every offset, size, count and dependency index stored in the summary and in the "
      "export table is the place, extent or number of what was actually written. Parsing the result therefore finds every table and every export, "
      "including the bytes after its last field, where the writer put them, with and without a separate export file.",
      ["inputs", "configurations"], "all assets, all object version combinations that change the layout, one or two files",
      TESTS + "the offsets of sections the sample assets leave empty, and the older layouts, are never read back.",
      ["unreal_asset/src/asset.rs", "unreal_asset/src/asset_data.rs"],
      [("parse_header / parse_data against write_header / write_data", "unreal_asset/src/asset.rs"),
       ("serial_offset, serial_size, first_export_dependency_offset", "UAssetExportMapEntry::write calls in Asset::write_data"),
       ("bytes after an export's last field", "ExportReaderTrait::read_export_no_raw")]),
    P("W02", "Exports are written in exactly the layout they are read in",
      "For every kind of export and every supported combination of engine, object and custom versions, writing an export emits exactly the "
      "sequence of fields (width, byte order, order, repetition and optional parts) that reading it consumes, and every field carries the part of "
      "the object it was read into. An export that is parsed and written back unmodified therefore keeps its bytes.",
      ["inputs", "configurations"], "all exports of all kinds, all version combinations that change the layout",
      TESTS + "they reach a few export kinds in one or two version cells each, out of every cell the version tests in the code distinguish.",
      ["unreal_asset/unreal_asset_exports/src"],
      [("from_base / write of each export", "unreal_asset/unreal_asset_exports/src/*.rs"), ("version tests", "ArchiveTrait::get_object_version, get_custom_version")]),
    P("W03", "Reflection property definitions are written in the layout they are read in",
      "For every kind of field and property definition stored in class, struct, enum and function exports, and for every supported version "
      "combination, writing the definition emits exactly the sequence of fields that reading it consumes, each from the part it was read into.",
      ["inputs", "configurations"], "all definition kinds (FProperty and UProperty families), all version combinations",
      TESTS + "most definition kinds do not occur in them at all.",
      ["unreal_asset/unreal_asset_exports/src/properties/fproperty.rs", "unreal_asset/unreal_asset_exports/src/properties/uproperty.rs"],
      [("new / write of each definition kind", "fproperty.rs, uproperty.rs"), ("enum dispatch", "FProperty, UProperty")]),
    P("W04", "Property values are written in the layout they are read in",
      "For every kind of property value, with and without its tag, and for every supported version combination, writing the value emits exactly "
      "the sequence of fields (width, byte order, order, repetition and optional parts) that reading it consumes, each from the part of the value "
      "it was read into. Flags, counts and constants are encoded so that reading decodes the same value.",
      ["inputs", "configurations"], "all property kinds and values, tagged and untagged, all version combinations",
      TESTS + "they contain a fraction of the property kinds, and each only in the versions of those files.",
      ["unreal_asset/unreal_asset_properties/src"],
      [("new / write of each property kind", "unreal_asset/unreal_asset_properties/src/*.rs"), ("property tag", "read_property_guid / write_property_guid")]),
    P("W05", "Movie scene values are written in the layout they are read in",
      "For every movie scene, sequencer and evaluation structure and every supported version combination, writing the value emits exactly the "
      "sequence of fields that reading it consumes, each from the part of the value it was read into.",
      ["inputs", "configurations"], "all movie scene structures and values, all version combinations",
      TESTS + "none of them holds a level sequence, so none of this code is exercised.",
      ["unreal_asset/unreal_asset_properties/src/movies"],
      [("new / write of each structure", "unreal_asset/unreal_asset_properties/src/movies/*.rs")]),
    P("W06", "Blueprint bytecode is written in the layout it is read in",
      "For every blueprint bytecode instruction and every supported version combination, writing the instruction emits exactly the opcode and "
      "operands that reading it consumes, in the same order and width, each from the operand it was read into.",
      ["programs", "configurations"], "all bytecode instructions, all operand values, all version combinations",
      TESTS + "the bytecode in them uses a minority of the opcodes.",
      ["unreal_asset/unreal_asset_kismet/src/lib.rs"],
      [("new / write of each expression", "unreal_asset/unreal_asset_kismet/src/lib.rs"), ("opcode dispatch", "KismetExpression::new / write")]),
    P("W07", "Shared primitive structures are written in the layout they are read in",
      "Engine versions, custom versions, package references, bulk-data and unversioned headers and the other structures shared by all formats are "
      "written as exactly the sequence of fields that reading them consumes, each from the part it was read into.",
      ["inputs", "configurations"], "all shared structures and values, all version combinations",
      TESTS + "they hold few distinct values of these structures.",
      ["unreal_asset/unreal_asset_base/src"],
      [("read / write of each structure", "unreal_asset/unreal_asset_base/src/types, custom_version.rs, engine_version.rs, unversioned")]),
    P("W08", "Asset registry structures are written in the layout they are read in",
      "For every structure of an asset registry and every registry version, writing the structure emits exactly the sequence of fields that "
      "reading it consumes, each from the part of the value it was read into.",
      ["inputs", "configurations"], "all registry structures and values, all registry versions",
      "The tests load one registry of one version.",
      ["unreal_asset/unreal_asset_registry/src"],
      [("new / write of each structure", "unreal_asset/unreal_asset_registry/src")]),
    P("W09", "Pak structures are written in the layout they are read in",
      "For every pak version, the header of an entry, the index and the footer are written with every field in the place and width it is read from, and each "
      "field that the version stores reads back as the value that was written. The number and the name stored for a compression method are read back as that method.",
      ["inputs", "configurations"], "all pak structures and values, all pak versions",
      "The tests open and write a few small archives; each structure is exercised in a few versions and shapes.",
      ["unreal_pak/src"],
      [("Header::read / write", "unreal_pak/src/header.rs"), ("Index and Footer read / write", "unreal_pak/src/index.rs"), ("Compression, CompressionMethods", "unreal_pak/src/compression.rs")],
      "static analysis: abstract interpretation of the typed THIR: event automata of reader and writer, and the reader over the symbolic layout the writer leaves",
      "Versions 10 and 11 have a footer but no index that could be written; encryption is not implemented by the library."),
    P("N01", "Every name an asset holds is visited when its name map is rebuilt",
      "When the name map of an asset is rebuilt, every name held anywhere in the asset, in every kind of export, property, definition and "
      "bytecode expression, is visited, so that the rebuilt map contains it and the index written for it denotes the same string.",
      ["inputs", "histories"], "all asset contents: all kinds of nested values and all names in them",
      TESTS + "only the kinds of value that occur in them are traversed, and they compare bytes without editing names.",
      ["unreal_asset/unreal_asset_base/src/types/fname.rs", "unreal_asset/unreal_asset_base/src/containers/name_map.rs", "unreal_asset/src/asset.rs"],
      [("traverse_fnames", "FNameContainer implementations, derived by unreal_asset_proc_macro"), ("rebuild", "Asset::rebuild_name_map")],
      technique="static analysis: whole-program field-visit (effect) analysis of the name traversal over typed THIR",
      note="Decides that each field able to hold a name is visited on every path; assumes the closure passed by rebuild_name_map is applied to each visited name."),
    P("D01", "A value is read back as the kind it was written as",
      "Every type name or opcode under which a kind of property, property definition or bytecode instruction is written selects that same kind when "
      "read, and every name that selects a kind is the one that kind is written under. Values of unknown types keep the name they were read with, "
      "natively serialized structures are never read as tagged property lists, and each object class is read as its kind of export.",
      ["inputs", "programs"], "all type names, struct names, class names and opcodes, known and unknown",
      TESTS + "a wrong or missing entry of a dispatch table shows only on a file that contains that kind.",
      ["unreal_asset/unreal_asset_properties/src/lib.rs", "unreal_asset/unreal_asset_exports/src/properties", "unreal_asset/unreal_asset_kismet/src/lib.rs",
       "unreal_asset/src/asset_data.rs"],
      [("name to kind", "Property::from_type, FProperty::new, UProperty::new, KismetExpression::new, read_export_no_raw"),
       ("kind to name", "ToSerializedName, get_token"), ("native structures", "Property::has_custom_serialization")],
      technique="static analysis: constant propagation of each name through the dispatchers over typed THIR",
      note="Names are taken from the code and from the table reviewed by hand; the readers of the selected kinds are covered by W02-W06."),
    P("D02", "Version tables give each engine version its own object and custom versions",
      "For every engine version, the object versions and custom versions derived from it are those of that engine release: tables are in the order the "
      "lookup relies on, never decrease with newer engines, and cover every custom version the readers test for. Every pak version is written "
      "as the number that reads back as that version.",
      ["configurations"], "all engine versions, all custom versions, all pak versions",
      "The tests set a handful of engine versions; a misplaced table row changes the layout only of files of one engine release.",
      ["unreal_asset/unreal_asset_base/src/engine_version.rs", "unreal_asset/unreal_asset_base/src/custom_version.rs", "unreal_pak/src/pakversion.rs"],
      [("tables", "VERSION_MAPPINGS, OBJECT_VERSION_TO_ENGINE_VERSION, GUID_TO_VERSION_INFO"),
       ("lookup", "get_version_number_from_engine_version, get_object_versions"), ("pak versions", "PakVersion::from_num / to_num")],
      technique="static analysis: constant-table extraction from typed THIR with order, monotonicity and coverage rules; constant propagation",
      note="The values are compared with a table reviewed by hand; entries for new engine versions only need to fit the order."),
    P("D03", "Format constants keep the values the file formats assign them",
      "Every enumeration value, flag bit, magic number and identifier that is stored in or compared with file contents has the value the file format "
      "assigns to it, and the lookup tables of the name hashes follow from the CRC polynomial.",
      ["configurations"], "all enumeration values, flags, magic numbers, guids and hash table entries",
      "The tests touch a few dozen of more than a thousand constants; round trips do not notice a value that is wrong on both sides.",
      ["unreal_asset/unreal_asset_base/src/flags.rs", "unreal_asset/unreal_asset_base/src/enums.rs", "unreal_asset/unreal_asset_base/src/object_version.rs",
       "unreal_asset/unreal_asset_base/src/crc.rs", "unreal_asset/unreal_asset_kismet/src/lib.rs", "unreal_pak/src"],
      [("values", "enum discriminants, bitflags, const items"), ("hash tables", "crc.rs")],
      technique="static analysis: compiler-evaluated constants against a reviewed table; hash tables recomputed from the polynomial",
      note="New constants and renamed ones with the same value are accepted."),
    P("A01", "Every archive reports the versions and settings of the file it belongs to",
      "Whatever version, mapping, flag or name-map question a reader or writer is asked while a file is read or written, it answers with the value "
      "of the file it belongs to: readers, writers and all archives that wrap another one give the answer of the wrapped archive or of the asset "
      "itself. A setting is reported identically on the reading and on the writing side.",
      ["inputs", "configurations"], "all archive types, all questions, all settings of a file",
      TESTS + "a wrapper that answers one question with a default changes the layout only for files that depend on that setting inside that wrapper.",
      ["unreal_asset/unreal_asset_base/src/reader", "unreal_asset/unreal_asset_base/src/unversioned", "unreal_asset/src/asset_archive_writer.rs",
       "unreal_asset/src/asset.rs"],
      [("archive traits", "ArchiveTrait, ArchiveReader and ArchiveWriter implementations")],
      technique="static analysis: symbolic normal forms (term rewriting over typed THIR) of every archive trait method, compared across implementations",
      note="Covers the methods that answer from state; the stream methods (read, write, seek) are covered by the wire rules."),
    P("X01", "A package index always means the same entry of the import or export table",
      "For every index and table size, index -k-1 is import k, index k+1 is export k and 0 is neither: conversions, lookups of imports, exports and object names, "
      "the index handed out for an added import and the indices found by search all agree on this. An index outside of the tables is refused and never "
      "yields another entry or a failure, and a search only returns an import all of whose requested fields match.",
      ["inputs"], "all indices, all table sizes and contents",
      "Off-by-one and sign mistakes show at the first or last entry and at index 0, which sample assets rarely exercise.",
      ["unreal_asset/unreal_asset_base/src/types/mod.rs", "unreal_asset/src/asset.rs", "unreal_asset/src/asset_data.rs", "unreal_asset/src/asset_archive_writer.rs"],
      [("PackageIndex::from_import, from_export, is_import, is_export", "types/mod.rs"), ("add_import, find_import, find_import_no_index, get_import, get_object_name", "asset.rs, asset_archive_writer.rs"),
       ("get_export, get_export_mut", "asset_data.rs")],
      "static analysis: symbolic normal forms of typed THIR, linear integer constraints on the paths to each result (Fourier-Motzkin)",
      "Integers are taken as unbounded: an index of i32::MIN, whose negation overflows, is outside of the claim. Names are compared by content as eq_content does."),
    P("K01", "Packed words unpack to exactly what was packed",
      "For every bit pattern, taking a packed word apart and packing it again gives back the same word: unversioned header fragments, serialized name headers, "
      "argb colours, and guids as four 32-bit integers or one 128-bit integer.",
      ["inputs"], "all values of the packed words",
      "A wrong mask or shift shows only for values that use the bits concerned.",
      ["unreal_asset/unreal_asset_base/src/unversioned/header.rs", "unreal_asset/unreal_asset_base/src/types/mod.rs", "unreal_asset/unreal_asset_base/src/types/vector.rs", "unreal_helpers/src/guid.rs"],
      [("UnversionedHeaderFragment::from / write", "header.rs"), ("SerializedNameHeader::read / write", "types/mod.rs"), ("Color::from_argb / to_argb", "vector.rs"),
       ("Guid conversions", "guid.rs")],
      "static analysis: bit-level dataflow over typed THIR through masks, shifts, casts and tests",
      "Parts that were set by hand to values wider than their place in the word are outside of the claim."),
    P("L01", "Stored property lengths are exactly the lengths of the data they describe",
      "For every property value, container, string and engine version, the length stored in a property tag is the number of bytes of data that follow the tag, "
      "and the length prefix of a string counts exactly the characters and terminator that follow it. What a property writer reports as its size is what it wrote "
      "after its header, and after filling in a length the writer continues at the end of the data.",
      ["inputs", "configurations"], "all property values, all container sizes, all strings, all engine versions",
      TESTS + "a reader that parses the data never looks at the stored length, so a wrong one survives a round trip and only breaks the engine or a reader that skips the property.",
      ["unreal_asset/unreal_asset_properties/src", "unreal_helpers/src/write_ext.rs"],
      [("size results", "PropertyTrait::write of every property"), ("tag length", "Property::write"), ("inner tag length", "ArrayProperty::write_full"), ("string prefix", "UnrealWriteExt::write_fstring")],
      "static analysis: enumeration of all paths of the type-checked writers with a symbolic linear byte counter",
      "Sizes are unbounded integers; lengths above i32::MAX are outside of the claim. A bool reports 0 since its value is part of the tag."),
    P("L02", "Stored bytecode sizes are the sizes the script has in memory and on disk",
      "For every Kismet expression the size reported by its writer is the size of the expression in memory: 12 bytes per name, 8 per object or property pointer, and the "
      "stored width of everything else. The two sizes stored in front of a function's bytecode are the sum of these and the number of bytes stored.",
      ["inputs", "configurations"], "all expressions, all nestings, all engine versions",
      "The stored size in memory is never looked at by the reader, so a wrong one survives every round trip and misleads the engine's script loader.",
      ["unreal_asset/unreal_asset_kismet/src/lib.rs", "unreal_asset/unreal_asset_exports/src/struct_export.rs"],
      [("size results", "KismetExpressionTrait::write of every expression"), ("stored sizes", "StructExport::write")],
      "static analysis: enumeration of all paths of the type-checked writers with a symbolic linear byte counter",
      "Sizes are unbounded integers; raw bytecode that could not be parsed keeps the size it was read with (W02)."),
    P("P01", "Every pak file the library writes reads back with the same entries",
      "For every version that can be written, whatever the entries, their sizes, the block size and the use of compression, a finished pak file read with any of the "
      "readers gives the same version, mount point, names and bytes. The offsets, sizes, hashes and block boundaries stored in it are those of what is stored, and a "
      "name is never accepted twice by the incremental writer.",
      ["inputs", "configurations"], "all entries, sizes, block sizes and compression choices, all writable pak versions",
      "The tests write small archives of one or two versions; block boundaries, later versions and stored hashes are not looked at by reading back.",
      ["unreal_pak/src"],
      [("write_entry / read_entry", "unreal_pak/src/entry.rs"), ("PakWriter", "unreal_pak/src/pakwriter.rs"), ("PakReader", "unreal_pak/src/pakreader.rs"), ("PakMemory", "unreal_pak/src/pakmemory.rs"),
       ("Index::write / read", "unreal_pak/src/index.rs")],
      "static analysis: abstract interpretation of the typed THIR of every reader over the symbolic layout every writer leaves, path by path",
      "Up to two entries per file and two blocks per entry (three in the thorough tier), everything else symbolic; the codec itself (flate2) and sha1 are trusted."),
    P("S01", "A text that is written reads back as the same text",
      "Whatever its length and whether or not it is ASCII, a string written as an FString, or as a string or unicode string constant of a script, reads back as the same "
      "text, and reading stops right behind it. An absent string stays absent and an empty one stays empty.",
      ["inputs"], "all strings without NUL, up to the 131072 code units the reader accepts",
      "The tests read the few, mostly ASCII, strings of their sample assets.",
      ["unreal_helpers/src", "unreal_asset/unreal_asset_kismet/src"],
      [("read_fstring", "unreal_helpers/src/read_ext.rs"), ("write_fstring", "unreal_helpers/src/write_ext.rs"), ("kismet strings", "unreal_asset/unreal_asset_kismet/src/lib.rs")],
      "static analysis: abstract interpretation of the typed THIR of the string reader over the symbolic layout the string writer leaves, path by path",
      "Up to three code units, and the longest text the reader accepts, each unit a symbol."),
    P("R01", "No byte of an export is lost, whatever can be understood of it",
      "Whatever the class of an export and whether or not its contents can be understood, reading it gives an object that holds all bytes between its start and the next export: "
      "as the contents its class selects followed by the rest as extra bytes, or, if its reader fails or runs past the next export, as raw bytes of the stored place and size. "
      "An export that cannot be understood never makes the rest of the file unreadable, and its entry in the export table is kept as read.",
      ["inputs"], "all exports: every class, every failure of a reader, any contents shorter or longer than the reader expects",
      "The tests parse sample assets whose exports are all understood, so the raw fallback and the extra bytes are hardly exercised.",
      ["unreal_asset/src/asset_data.rs", "unreal_asset/unreal_asset_exports/src"],
      [("reading one export", "unreal_asset/src/asset_data.rs"), ("raw exports", "unreal_asset/unreal_asset_exports/src/raw_export.rs")],
      "static analysis: path-sensitive abstract interpretation of the typed THIR of the export reader with symbolic positions; failures of nested readers are outcomes",
      "Classes are a representative of every kind of the engine that is told apart; the readers of kinds are opaque here (W02 compares them), they succeed after any number of bytes or fail."),
    P("C01", "The pak tool writes only into its output folder and reports every failure",
      "Whatever the names of the entries of a pak, extracting it creates folders and files only inside the output folder, and each entry ends up under its own name with its own data. "
      "Whatever fails, be it opening, listing, reading, creating, writing, finishing or flushing, every command ends with an error instead of success. "
      "A command that ends with success has processed every entry or file it was given.",
      ["inputs", "fault_sequences"], "all paks and directory trees, all entry names, a failure of any operation",
      "The command line tool has no tests at all, and a failing disk or a hostile pak is not something a test samples.",
      ["unreal_pak_cli/src", "unreal_pak/src"],
      [("commands", "unreal_pak_cli/src/main.rs"), ("finishing a pak", "unreal_pak/src/pakwriter.rs")],
      "static analysis: path-sensitive abstract interpretation of the typed THIR of every command, effects on the file system recorded symbolically, every operation can fail",
      "Up to two entries or files per run; symbolic links inside the output folder are outside of what the code controls."),
    P("V01", "An asset split into two files reads as one continuous file",
      "Whatever seeks and reads came before, reading from a chain of two files delivers the bytes of the first followed by those of the second, starting at the current position, and moves the position "
      "by the number of bytes delivered. A seek arrives at the position it was given, counted from the start, from the current position or from the end of both files together, and reports it.",
      ["inputs", "histories"], "all histories of seeks and reads, all lengths of the files and of the buffers",
      "The error shows only for certain orders of seeks into one file and reads across the border, which the three existing tests do not contain.",
      ["unreal_asset/unreal_asset_base/src/containers"],
      [("chain", "unreal_asset/unreal_asset_base/src/containers/chain.rs")],
      "static analysis: path-sensitive abstract interpretation of the typed THIR of the operations in sequence, linear constraints over symbolic lengths and positions (Fourier-Motzkin)",
      "Histories of up to four operations after construction; operations of the underlying files succeed."),
    P("I02", "An index of the name map always means the text it was given out for",
      "Adding a name returns an index at which exactly this text stands, names that were there keep their indices, and a list of names read from a file keeps all its places, repeated names included. A search returns "
      "only an index at which the very text stands, even if another text has the same hash, and finds what was added. A name made from an index has that index, number and map, gives that text, and equals exactly the "
      "names of the same index or text and number.",
      ["inputs", "histories"], "all histories of additions and lookups, all texts including hash collisions and repetitions",
      "Hash collisions and repeated names do not occur in the handful of test assets.",
      ["unreal_asset/unreal_asset_base/src/containers", "unreal_asset/unreal_asset_base/src/types"],
      [("name map", "unreal_asset/unreal_asset_base/src/containers/name_map.rs"), ("names", "unreal_asset/unreal_asset_base/src/types/fname.rs")],
      "static analysis: path-sensitive abstract interpretation of the typed THIR of each operation on an arbitrary map, linear constraints over indices (Fourier-Motzkin)",
      "The container behind the lookup is that of I01; names changed in place are only required not to be mistaken for others."),
    P("I01", "The views of an indexed map always agree",
      "Whatever was inserted, changed and removed before, an indexed map gives the same elements by key, by insertion index and by iteration in either direction, each with the value stored last. An element keeps its index "
      "and its place in the order for as long as it is in the map, an added element takes an index no other has and comes last, and a removed one is gone from every view. Maps are equal only if they hold equal elements.",
      ["inputs", "histories"], "all histories of insertions, changes and removals",
      "The tests insert and remove a handful of elements; errors show after removals in particular orders only.",
      ["unreal_asset/unreal_asset_base/src/containers/indexed_map"],
      [("map and iterators", "unreal_asset/unreal_asset_base/src/containers/indexed_map/mod.rs"), ("entries", "unreal_asset/unreal_asset_base/src/containers/indexed_map/entry.rs")],
      "static analysis: abstract interpretation of the typed THIR of each operation on an arbitrary valid state (representation invariant), observed through every view; linear constraints over indices",
      "States of up to three elements with arbitrary increasing indices, one and two operations; the containers of the standard library and slab behave as documented."),
    P("M01", "Mod metadata keeps everything a document says",
      "Every field of a mod metadata document is found under its documented key: a version 2 document field by field, a version 1 document (also one that does not give its version) converted to version 2 with its "
      "integrator entries under their own names, any other version refused. A value that is written is read back as an equal value, values are equal exactly if all of their fields are, equal values hash alike. "
      "An invalid document or version requirement is reported as an error and never a panic.",
      ["inputs"], "all documents and metadata values",
      "The tests parse a few small documents; a field that is dropped in one of the schemas, or a value that compares wrongly, shows only where that field is used.",
      ["unreal_mod_metadata/src"],
      [("from_slice, keys and dependencies", "unreal_mod_metadata/src/lib.rs"), ("version 1 and its conversion", "unreal_mod_metadata/src/v1.rs"), ("version 2, equality and hash", "unreal_mod_metadata/src/v2.rs")],
      "static analysis: abstract interpretation of the typed THIR, including the derived serde code, with documents, serializers and map accesses as symbols; lint for panics and for hashing in map order",
      "serde_json and semver are trusted; the keys of a document are a reviewed table (lib/metadata.json)."),
    P("E01", "AC7 encryption and decryption are inverse",
      "For every key and all contents of a uasset and uexp pair, decrypting what was encrypted gives back both files byte for byte, and encrypting what was decrypted as well, each with the magic of its form. "
      "Every byte after the magic depends on the key, and no position of the key leads outside of the key table.",
      ["inputs"], "all file contents and key positions",
      "The test decrypts a few assets of the game; an error where the key wraps around, or at the border of the two files, needs other lengths and names.",
      ["unreal_asset/src/ac7.rs"],
      [("encrypt / decrypt", "unreal_asset/src/ac7.rs")],
      "static analysis: abstract interpretation of the typed THIR with symbolic bytes and key position, exclusive or in normal form, linear constraints over the position",
      "Up to two bytes per file beyond the magic from an arbitrary position of the key (so each wrap of both counters); that a new key starts inside its table is assumed."),
]

NOT_APPLICABLE = [
    (P("Z01", "Reading arbitrary bytes never panics and never exhausts memory",
       "For every sequence of bytes, opening it as a package, pak or asset registry either succeeds or returns an error, without a panic and without an allocation "
       "that is out of proportion to the input.",
       ["inputs"], "all byte sequences, well-formed or not", "Tests hold well-formed files only.",
       ["unreal_asset/src/asset.rs", "unreal_pak/src/lib.rs"], [("every reader", "unreal_asset, unreal_pak")]),
     "The readers allocate by counts, and index and slice by values, that come from the file and are bounded by nothing in the source; whether a count exceeds what is left of the file is a "
     "relation of runtime quantities that no static argument in reach establishes, and a lint over every index and allocation would alarm on most of the current tree."),
    (P("Z02", "Integrating mods changes only what the mods ask for, and restores the game",
       "For every set of mods and every game folder, integration writes the union of the mods' changes into one pak and leaves all other files as they were; a failure on the way leaves the game startable.",
       ["inputs", "crash_points"], "all sets of mods, all failures on the way", "There are no tests of the integrator or the manager.",
       ["unreal_mod_integrator/src/lib.rs", "unreal_mod_manager/src/lib.rs"], [("integrate_mods", "unreal_mod_integrator/src/lib.rs")]),
     "unreal_mod_integrator and unreal_mod_manager do not build in this sandbox (dependencies are missing offline), so there is no type-checked program to analyse and no change to them could be confirmed."),
]
