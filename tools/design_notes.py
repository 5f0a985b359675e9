"""What DESIGN.md says about each property beyond what is generated."""

NOTES = {
    "P01": """Oracle: `Bytes.tla` decodes the structure from the bytes of the
    input. The driver defines its own dtFabric definitions and calls the generic
    reading methods every reader is built on, at every offset and size of small files and at offsets and
    sizes that do not fit 63 bits. Because all readers share these methods, a change to them also
    shows in every other property.""",
    "P02": """Histories of read, seek, tell and size calls on several interleaved
    ranges and on the file below them; TLC explores all histories up to the depth,
    the driver replays those and long random ones. Tests only use single calls.""",
    "P03": """Histories of Open, ReadFileObject, Close on good, bad and missing
    files for all reader classes in `DRIVERS` of d_lifecycle. Open handles are
    counted through /proc/self/fd, results compared with those of a new reader in
    the same process. What a failed ReadFileObject keeps is probed per reader, not
    assumed.""",
    "P04": """Inputs: archives built in all five formats, with repeated paths,
    lookups by path, prefix lookups and reading members in any order. The model
    contains an encoder and checks that decode(encode(x)) = x.""",
    "P05": """The model contains the writer: it writes records of chosen sizes and
    splits them at page boundaries; ReadBack states that the reader returns what was
    written. `LevelLogMC_pages` uses a small page size so that every alignment of
    fragments occurs; the driver scales the same layouts to 32 KiB pages.""",
    "P06": """As P05: the writer with prefix compression and restart points is part
    of the model. Compressed blocks: the decompressed bytes are oracle data.""",
    "P07": """Chains with every reference kind; cycles. Termination is a liveness
    property of the model and a time limit in the worker.""",
    "P08": """Entry array chains with gaps and cycles; compressed data objects.""",
    "P09": """Two specifications: `Chrome` (a directory of index, data block files
    and separate files; the state is the chain walk) and `ChromeHash` (32-bit
    arithmetic on digit sequences, byte strings of every length modulo 4).""",
    "P10": """The inflated data per member position is an oracle function of the
    input position; header parsing, the position of the next member, trailer and
    flags are specified.""",
    "P11": """All token types of the definitions file. `BsmEvents.tla` is the table
    of event names, generated once from the BSM documentation values used by the
    tool and committed.""",
    "P12": """The schema tables are part of the input: the specification first
    derives the columns, then reads the records with them, so two cooperating sites
    (schema and record reading) are decided together.""",
    "P13": """OLECF files are written by the driver's own writer; LNK entries are
    validated by liblnk and their validity is oracle data.""",
    "P14": """Both record layouts, copies of record sizes, all sub record types.""",
    "P15": "Versions 1 and 2 of $I; INFO2 with 280 and 800 byte records.",
    "P16": "Pages and records with every combination of absent strings.",
    "P17": "All fields random, strings with and without terminator, IPv4 and IPv6.",
    "P18": "Counts of both blocks independent; truncation at every place.",
    "P19": "The gzip layer is the library's; the specification starts behind it.",
    "P20": """State carried between attributes (character set) and between files is
    explicit in the specification. `tidy` inputs are mostly valid so that deep
    states are reached.""",
    "P21": """The largest of the record formats: pages, property tables in pages or
    streams map files, records, values. LZ4/zlib bytes are oracle data.""",
    "P22": """String lookups over every layout of two ranges; also timesync
    databases.""",
    "P23": """A whole tracev3 file together with its support files in a directory
    tree. The message text comes from the specification of P33. Modelled as it is:
    negative private data offsets (Python slicing), a backtrace that is not skipped
    before value offsets, the tag of the first chunk is not checked.""",
    "P24": "Record names and structures of both formats.",
    "P25": "Block alignment, padding, partial last blocks.",
    "P26": "All sections; strings of every length; triggers.",
    "P27": "Block files and map files; entries that overlap the end.",
    "P28": """The report is parsed back: a hexadecimal dump has to read back to the
    bytes it was made of. Floating-point text uses Python's repr as oracle data.""",
    "P29": """`FsHelper`: a directory tree and operations on it, for the native and
    the dfVFS helper. `DebugDefs`: sequences of YAML documents.""",
    "P30": "32-bit arithmetic specified on digit sequences.",
    "P31": "The values, their place in a set, and the nested threat tracking data.",
    "P32": "Alias records and bookmark data, with nested arrays.",
    "P33": """Format strings generated by the model over an alphabet of literal and
    operator parts; decoders with their own value layouts.""",
    "P34": """Mapping and index pages are bound alone (`WmiMap`) and as parts of
    whole repositories (`WmiRepo`), of which the state is what an open repository
    remembers; operations are a history. Hashes of names are oracle data, as TLA+ has
    no MD5 or SHA-256. A class or an objects file that is missing raises RuntimeError
    (documented), which is modelled. The number of open files is observed after every
    call.""",
    "P35": """The classes are the state: the layout is built class by class, and every
    property is decoded from the bytes the specification computes. Floating-point
    text is oracle data and then only the API is bound. dtFabric takes every nonzero
    16-bit boolean as True; modelled as it is.""",
    "P36": """What is still to be read is the state: a stack of nodes with the nodes above
    each of them, from which NoLoop and termination follow. A report reads more nodes
    than the API does (names, lists of classes) and can therefore fail where the API does
    not; modelled as it is. Hierarchies deep enough to reach Python's recursion limit are
    not generated.""",
    "P38": """The state is the entry (a described key) and the value of it that is read. The
spec has the trees of keys, not the Registry file format: that is read by libregf
(pyregf), which is outside of the repository. The driver writes the files; data of 1 to
3 bytes is stored outside of its value, which libregf reads otherwise than inline data
of 4 bytes, and names that differ only in case, unpaired surrogates, multiple strings
without a terminator and FILETIMEs of the upper half are not generated.""",
    "P37": """The entries at the top are the state; an object graph is decoded by a
    recursive operator that carries the references that are followed. A loop ends at
    Python's recursion limit, and RecursionError is a RuntimeError. An element of a set
    or hash table that is itself a collection is given with its members (`NS.objects`);
    modelled as it is. Archives of which `$top` or `$objects` are no dictionary or list
    are not generated, nor is -0.0, which plistlib writes as the 0.0 before it.""",
}

# Planted bugs the checks did not report when they were first run, after which
# the check was strengthened.
MISSED = {
    "P06-shared-key-of-suffix", "P03-close-keeps-foreign",
    "P20-charset-of-first", "P29-custom-prefix", "P21-reference-flags",
}
STILL_MISSED = set()
