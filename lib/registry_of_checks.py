"""property id -> (analysis, level, what the evidence means)"""
import archives
import bits
import consts
import dispatch
import index
import names
import package, lengths, pak, strings, versions, exportrt, cli, chain, namemap, indexmap, metadata, cipher
import wirecheck

WIRE = ("Abstract interpretation of the type-checked program (THIR) of every reader and writer: each becomes an automaton of stream "
        "events (primitive width and byte order, names, strings, nested objects) guarded by the tests on version, mode and data. For each "
        "cell of the partition of the version space induced by the code's own comparisons the two automata are compared as languages, and "
        "each matched event must carry the same part of the object on both sides. In addition every path through a reader (two rounds of every loop) yields a "
        "symbolic object, the writer is walked on that object under the conditions of the path, and it has to emit the very symbols that were read, in the order "
        "of their positions. An obligation is one reader/writer pair over all cells, or one pair of paths; locally, no value is squeezed through a narrower type "
        "and no transfer is left incomplete.")


def wire(*groups):
    return lambda P, rep: wirecheck.run(P, rep, groups)


CHECKS = {
    "W01": (package.check, "other", WIRE + " The whole reader and writer of a package are compared section by section: a section begins for the reader where it seeks to "
            "a stored offset and for the writer where it took the position it stores there; offsets, sizes and indices are compared as linear terms over positions and lengths."),
    "W02": (wire("exports", "reflection"), "other", WIRE),
    "W03": (wire("reflection", "exports"), "other", WIRE),
    "W04": (wire("props", "movies"), "other", WIRE),
    "W05": (wire("movies"), "other", WIRE),
    "W06": (wire("kismet"), "other", WIRE),
    "W07": (wire("base"), "other", WIRE),
    "W08": (wire("registry"), "other", WIRE),
    "W09": (pak.W09, "other", WIRE + " Footer and index are found by position: the reader is interpreted over the symbolic layout (position, width, value) the writer leaves, "
            "and an obligation is one field of one version that has to come back as the symbol that was written."),
    "N01": (names.check, "other", "For every implementation of the name traversal (hand-written and derived) the type-checked body is interpreted "
            "abstractly; an obligation is one field whose type can hold a name, and it is discharged when every path to the end of the body visits it."),
    "D01": (dispatch.check, "other", "Constant propagation of each type name and opcode through the dispatching functions by the abstract "
            "interpreter; an obligation is one name or opcode, discharged when the set of kinds it can select is exactly the kind that is written under it."),
    "D02": (lambda P, rep: (consts.d02(P, rep), versions.check(P, rep)), "other", "Constant tables are taken from the type-checked bodies and compared entry by entry: the order the lookup relies on, "
            "monotonicity, registration of every custom version that is tested for, and the values confirmed by hand; conversions by constant propagation."),
    "D03": (consts.d03, "other", "Every discriminant, flag, magic number and guid as evaluated by the compiler against the reviewed table; hash tables against "
            "their polynomial. An obligation is one constant."),
    "A01": (archives.check, "other", "Each archive method is reduced to a symbolic normal form of its receiver by inlining and rewriting; an obligation is one "
            "method of one archive type, discharged when the form is the forwarding call (wrappers) or equals that of the other archives of the asset."),
    "X01": (index.check, "other", "Every conversion and lookup is reduced to a tree of integer tests; an obligation is one way through one function, discharged when the "
            "tests on the way imply what the result claims (linear integer constraints, Fourier-Motzkin) and no valid index is refused."),
    "K01": (bits.check, "other", "Bit-level dataflow: every bit of a packed word is followed through masks, shifts, casts and tests into the parts and back; an obligation is one "
            "bit, discharged when it comes back as itself."),
    "L01": (lengths.L01, "other", "Every path through every property writer is walked with a symbolic linear byte counter; an obligation is one path, discharged when the reported "
            "size (or the value patched into a length field) is the same linear term as the bytes counted since the end of the tag."),
    "L02": (lengths.L02, "other", "Every path through every expression writer is walked with a symbolic linear counter of memory sizes; an obligation is one path, discharged when the "
            "reported size is the same linear term."),
    "P01": (pak.P01, "other", "Each writer is interpreted path by path with the position in the file as a linear term over the sizes of names, data and packed blocks, which gives the "
            "layout it leaves; each reader is interpreted over that layout. An obligation is one path of one reader over the layout of one path of one writer, or one stored "
            "offset, size, hash or boundary, discharged when what comes out is the symbol that went in."),
    "S01": (strings.S01, "other", "The writer of each kind of string is interpreted path by path on a symbolic text, which gives the layout it leaves; the reader is interpreted over "
            "that layout for texts of several lengths whose code units are symbols. An obligation is one path of the reader, discharged when it ends behind the text and returns its code units in order."),
    "R01": (exportrt.check, "other", "The function that reads one export is interpreted path by path for a representative of each class: the class is known or not, the reader of "
            "the kind succeeds after a symbolic number of bytes or fails, the next export lies behind or before that place. An obligation is one path: it returns an export, whose "
            "kind is that of the class and whose extra or raw bytes are the very block of the file left to it."),
    "C01": (cli.check, "other", "Each command of the tool is interpreted path by path with the library, the file system and the directory walk as symbols: every operation succeeds or fails, entry "
            "names are plain, with parent components, absolute or with a drive prefix. An obligation is one path: nothing is created outside the output folder, a failure ends in a nonzero exit code, and "
            "a path without failure has processed every entry."),
    "V01": (chain.check, "other", "The operations of the chain are interpreted path by path in sequence, with the lengths of the files, offsets and buffer sizes as symbols and the positions of the two "
            "files as ghosts. An obligation is one history of operations, discharged when on each of its paths every read delivers the bytes of the concatenation at the logical position."),
    "I02": (namemap.check, "other", "Each operation is interpreted path by path on a map whose list is a symbol of arbitrary length and whose lookup finds nothing or any valid index; texts compare either "
            "way. An obligation is one path of one operation, discharged when the text at the index that is returned or stored is the given one by the comparisons and additions of the path."),
    "I01": (indexmap.check, "other", "Each operation, and each pair of operations, is interpreted on every valid state of up to three elements (keys, values and slots are symbols, indices increasing symbols with gaps), and "
            "the map is then observed through all of its views. An obligation is one such case, discharged when each view gives the elements of the list that is the oracle."),
    "M01": (metadata.check, "other", "The derived and hand-written serde code, the choice of the schema, the conversion of old documents and the comparison are interpreted path by path with symbolic "
            "documents. An obligation is one field on one path (or one function for the local rules), discharged when it holds the part of the document its key stands for."),
    "E01": (cipher.check, "other", "The public functions are interpreted one after the other on symbolic files with a key at an arbitrary position. An obligation is one path of one pair of lengths, "
            "discharged when every byte comes back by cancellation."),
}
