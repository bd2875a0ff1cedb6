# One entry per property: statement (for properties.jsonl), claim (for MANIFEST.json) and the cases that decide it.
import os
PROPS = {}
HERE = os.path.dirname(os.path.abspath(__file__))
def prop(id, **kw):
    PROPS[id] = kw

prop("C01",
  title="Escaping used by the text formats loses nothing and leaks no separator",
  statement="For every text, escaping it for the PSI, UTT or bracketing format and unescaping the result gives the text back. Escaped text contains no character that separates fields or lines in that format, so it always occupies exactly one field. Unescaping arbitrary input either yields text or reports a wrong escape sequence.",
  over=["inputs"],
  qtext="every byte string, for each of the three quoters and for both directions",
  why="the unit tests try about a dozen hand-picked strings; the property is over all byte strings, including trailing backslashes and adjacent special characters",
  files=["common/quoter.cpp", "common/utt_like_quoter.cpp", "common/psi_quoter.cpp", "formats/utt/utt_quoter.cpp", "formats/bracketing/bracketing-writer/bracketing_quoter.cpp"],
  mechanism=[("character-wise escape and unescape switch", "common/utt_like_quoter.cpp")],
  observe=["return values of escape and unescape", "the exception raised for a wrong escape sequence"],
  cases=[dict(name="roundtrip", harness="quoters.cpp", src=["common/quoter.cpp", "common/utt_like_quoter.cpp", "common/psi_quoter.cpp", "formats/utt/utt_quoter.cpp", "formats/bracketing/bracketing-writer/bracketing_quoter.cpp"],
     inc=["formats/utt", "formats/bracketing/bracketing-writer"], defs={"N": 4}, thorough=dict(defs={"N": 6}, time=900), bounds="texts of 0..4 (thorough: 6) arbitrary bytes", marks=["roundtrip", "accepted", "rejected"])])

LT = ["common/layer_tag_manager.cpp", "common/layer_tag_collection.cpp", "common/layer_tag_mask.cpp"]
prop("C02",
  title="Layer tag collections behave as sets of tag names",
  statement="Union, intersection, inclusion, equality and emptiness of layer tag collections agree with those operations on the sets of tag names they were built from, whatever order the tags were first mentioned in. Listing the tags of a collection gives exactly its names, sorted; collections built from a list, a vector or a comma-separated specification of the same names are equal. Plane tags are exactly those whose name starts with an exclamation mark, two collections are in the same plane exactly when they hold the same plane tags, and equal collections hash equally.",
  over=["inputs"], qtext="every pair of subsets of up to nine tag names, several registration orders",
  why="tests build three or four collections by hand; the laws are over all pairs of tag sets",
  files=LT, mechanism=[("bit per tag, name-to-bit map", "common/layer_tag_manager.cpp")], observe=["results of the set operations", "tag name lists"],
  cases=[dict(name="sets", harness="layer_tags.cpp", src=LT, defs={"MODE": 0, "NT": 6}, thorough=dict(defs={"MODE": 0, "NT": 9}, time=600), marks=["sets"], bounds="all pairs of subsets of 6 (thorough: 9) tags"),
         dict(name="names", harness="layer_tags.cpp", src=LT, defs={"MODE": 1, "NT": 6}, thorough=dict(defs={"MODE": 1, "NT": 9}, time=600), marks=["names"], bounds="all subsets of 6 (9) tags, 3 registration orders")])
prop("C03",
  title="A layer tag mask matches exactly the collections it describes",
  statement="A mask built from alternatives of tag conjunctions matches a tag collection exactly when the collection contains every tag of at least one alternative; the any-mask matches everything. Textual specifications (comma for conjunction, semicolon for alternative) denote exactly the written alternatives. Equal masks match the same collections and hash equally.",
  over=["inputs"], qtext="every tag set against every mask of up to three alternatives; every well-formed specification up to the length bound",
  why="tests check a handful of masks over two or three tags; the property is over all alternatives, collections and specifications",
  files=LT, mechanism=[("inclusion test per alternative", "common/layer_tag_mask.cpp"), ("specification grammar", "common/layer_tag_manager.hpp")], observe=["match results", "mask equality and hash"],
  cases=[dict(name="masks", harness="layer_tags.cpp", src=LT, defs={"MODE": 2, "NT": 4}, thorough=dict(defs={"MODE": 2, "NT": 5}, time=900), marks=["masks", "equal", "equal2"], bounds="all collections and all masks of 1..3 alternatives over 4 (5) tags"),
         dict(name="spec", harness="layer_tags.cpp", src=LT, defs={"MODE": 3, "SPECLEN": 5}, thorough=dict(defs={"MODE": 3, "SPECLEN": 7}, time=900), marks=["spec", "conj"], bounds="well-formed specifications of up to 5 (7) characters over {a b , ;}")])
prop("C04",
  title="A string fragment always denotes the text it was made from",
  statement="A string fragment (taken from a text, taken from another fragment, or owning its text) behaves exactly like the string it denotes: its contents, length, characters, substrings and character searches equal those of that string, and appending a fragment to another one gives the concatenation of the two, however the fragments were built before.",
  over=["inputs", "histories"], qtext="every sequence of appends, sub-fragments, copies and assignments up to the bound, over all source texts and ranges",
  why="tests build three fragments of one literal; the property is over all combinations of borrowed and owned fragments and all ranges",
  files=["common/string_frag.cpp", "common/string_frag.hpp"], mechanism=[("borrowed/owned representation switch", "common/string_frag.hpp"), ("append", "common/string_frag.cpp")], observe=["str, length, operator[], substr, find, data"],
  cases=[dict(name="ops", harness="string_frag.cpp", src=["common/string_frag.cpp"], defs={"OPS": 3, "SL": 3}, thorough=dict(defs={"OPS": 4, "SL": 2}, time=1500), marks=["frag"], bounds="sources of 3 characters over {a b}, 3 operations (thorough: 2 characters, 4 operations)")])

AI = ["common/annotation_item.cpp", "common/annotation_item_manager.cpp", "common/string_frag.cpp", "common/zvalue.cpp"]
prop("C05",
  title="Annotation items keep their values, and equal items are interchangeable",
  statement="An attribute of an annotation item reads back as the value last set, whatever the order in which attributes were first mentioned; attributes that were not set read as the false value; the listing of an item's attributes is exactly what was set. Every 32-bit integer and every text that is not a number reads back unchanged (the words any/nil and false/fail/empty stand for the two special values). Items with the same category, text and attribute values are equal and hash equally, items that differ in one of these are not equal; copies equal the original, and merging the values of one item into another overrides exactly the attributes that the first one has.",
  over=["inputs", "histories"], qtext="every sequence of attribute assignments on two items up to the bound, every 32-bit integer, every short text over digits, signs and a letter",
  why="tests compare two items with two attributes set in two orders; edges are merged by this equality and hash, so it must hold for all of them",
  files=["common/annotation_item.cpp", "common/annotation_item_manager.cpp", "common/zvalue.hpp"], mechanism=[("value vector indexed by a shared attribute map", "common/annotation_item_manager.cpp"), ("comparison and hash", "common/annotation_item.cpp")], observe=["getValue, getValueAsString, getValues, getAVMap", "operator==, getHash"],
  cases=[dict(name="values", harness="annotation_item.cpp", src=AI, time=150, defs={"MODE": 0, "SETS": 2}, thorough=dict(defs={"MODE": 0, "SETS": 3}, time=2400), marks=["values"], bounds="two items, up to 2 (thorough: 3) assignments each over 3 attributes and 6 values, 2 registration orders"),
         dict(name="numbers", harness="annotation_item.cpp", src=AI, defs={"MODE": 1}, marks=["text", "int"], bounds="all 32-bit integers; texts of up to 3 characters over {0 1 2 9 - + x}, and ten-character numbers around 2^31")])
prop("C06",
  title="Cutting text into segments loses nothing and respects the length limits",
  statement="Segments produced by a cutter (tokenizer, segmenter) follow each other without gaps or overlaps, add up to the whole text, and each item holds exactly the text it was cut from. No segment exceeds the hard limit and no UTF-8 character is ever split by the limits; a hard limit is refused only if some character does not fit in it. Once a segment reaches the soft limit it ends at the next space. Resetting a cutter makes it forget an unfinished text.",
  over=["inputs"], qtext="all UTF-8 texts up to the bound, every combination of limits and every segment length the underlying cutter chooses",
  why="tests try a few limits on one sentence; multi-byte characters around the limit are what goes wrong",
  files=["common/cutter.cpp", "common/cutter.hpp", "common/string_helpers.cpp"], mechanism=[("fragment queue and cut point search", "common/cutter.hpp")], observe=["items and positions returned by cutOff"],
  cases=[dict(name="limits", harness="cutter.cpp", src=["common/cutter.cpp", "common/string_helpers.cpp"] + AI, defs={"CH": 4}, thorough=dict(defs={"CH": 5}, time=2400), marks=["done", "refused"], bounds="texts of 4 (thorough: 5) characters of 1..4 bytes, soft limit 0..5, hard limit 0..6, segments of 1..4 (5) characters")])

prop("C07",
  title="Segment globs match exactly what the pattern means",
  statement="A file name pattern in which * stands for any text and ? for exactly one UTF-8 character matches exactly the segments it describes, and nothing outside the segment is read. A pattern without wildcards matches only itself.",
  over=["inputs"], qtext="every pattern and every valid UTF-8 segment up to the bounds",
  why="tests try a dozen patterns; the backtracking matcher goes wrong for particular combinations of wildcards, repeated letters and multi-byte characters",
  files=["common/segment_glob.cpp"], mechanism=[("greedy match with one backtracking point", "common/segment_glob.cpp")], observe=["matches, isFixed"],
  cases=[dict(name="glob", harness="segment_glob.cpp", src=["common/segment_glob.cpp"], defs={"GL": 4, "SCH": 3}, thorough=dict(defs={"GL": 5, "SCH": 4}, time=1500), marks=["match", "no match", "literal"], bounds="patterns of up to 4 (thorough: 5) characters over {a b * ?} (also preceded by a multi-byte literal), segments of up to 3 (4) arbitrary characters of 1, 2 or 3 bytes")])
prop("C08",
  title="Suggestions for misspelt options are the nearest known ones",
  statement="The edit distance of two texts is the smallest number of insertions, deletions and substitutions that turn one into the other (so it is symmetric and zero only for equal texts), and the most similar string of a list is the first of those with the smallest distance.",
  over=["inputs"], qtext="all pairs of byte strings up to the bound; all lists of up to three short strings",
  why="tests compare five pairs of words", files=["common/edit_distance.hpp"], mechanism=[("two-row dynamic programming", "common/edit_distance.hpp")], observe=["return values"],
  cases=[dict(name="distance", harness="text_utils.cpp", defs={"MODE": 0, "DL": 3}, thorough=dict(defs={"MODE": 0, "DL": 4}, time=1500), marks=["distance"], bounds="texts of up to 3 (thorough: 4) arbitrary bytes"),
         dict(name="nearest", harness="text_utils.cpp", defs={"MODE": 1, "LONG": 4}, thorough=dict(defs={"MODE": 1, "LONG": 5}, time=900), marks=["nearest", "empty"], bounds="lists of up to 3 strings of 1..2 characters over {a b c} and of 2 strings of 1..4 (thorough: 5) characters over {a b}")])
prop("C09",
  title="Limits apply to the ranges they were given for",
  statement="A limit checker applies to an argument the limit specified for the smallest limit argument that is not below it, and the absolute limit when there is none - in whatever order the limits were added and however additions and questions are interleaved. Values are allowed up to and including the limit; without an absolute limit everything is allowed.",
  over=["inputs", "histories"], qtext="all 32-bit arguments, limits and values; all interleavings of up to three limit specifications with questions",
  why="tests ask about one sorted list of limits; the property is over all orders and values",
  files=["common/limit_checker.cpp"], mechanism=[("lazily sorted list of limits", "common/limit_checker.cpp")], observe=["isAllowed"],
  cases=[dict(name="limits", harness="text_utils.cpp", src=["common/limit_checker.cpp"], defs={"MODE": 2, "SPECS": 3}, thorough=dict(defs={"MODE": 2, "SPECS": 4}, time=1500), marks=["spec", "absolute"], bounds="up to 3 (thorough: 4) limit specifications, any 32-bit values")])
prop("C10",
  title="Pipeline command lines keep their arguments",
  statement="A pipeline line built by quoting arguments (backslash, quote and newline escapes, optional double quotes) splits into exactly those arguments; splitting any line either yields a list or reports a wrong escape sequence, which needs a backslash. Passing an argument list without aliases through the alias expander gives back the same arguments, including empty ones and ones with spaces, quotes, tabs or newlines. A character counts as escaped exactly when an odd number of backslashes precedes it.",
  over=["inputs"], qtext="all argument lists over the special characters up to the bound",
  why="tests split three command lines; separators, quotes and escapes interact in all combinations",
  files=["framework/split_pipeline.cpp", "framework/shallow_aliaser.cpp", "common/escaping.cpp"], mechanism=[("tokenizer with escapes", "framework/split_pipeline.cpp"), ("quote and split again", "framework/shallow_aliaser.cpp")], observe=["argument lists"],
  assumptions=["arguments that contain backslashes are not claimed to survive the alias expander (it multiplies them by design)"],
  cases=[dict(name="split", harness="text_utils.cpp", src=["framework/split_pipeline.cpp", "framework/shallow_aliaser.cpp"], inc=["framework"], defs={"MODE": 4, "ARGS": 2, "AL": 2, "PL": 5}, thorough=dict(defs={"MODE": 4, "ARGS": 2, "AL": 3, "PL": 7}, time=2400), marks=["quoted", "aliaser", "split", "refused"], bounds="1..2 arguments of up to 2 (thorough: 3) characters over {a ! space quote backslash newline tab}; lines of up to 5 (7) characters"),
         dict(name="escaped", harness="text_utils.cpp", src=["common/escaping.cpp"], defs={"MODE": 3, "EL": 6}, thorough=dict(defs={"MODE": 3, "EL": 9}, time=600), marks=["escaped", "plain"], bounds="all texts of 1..6 (9) bytes, all positions")])
prop("C11",
  title="Looking ahead in an input stream does not consume it",
  statement="Peeking at the beginning of a stream (to recognise the file type) or at all of it returns exactly the bytes that follow, and whatever is read afterwards is the same as without peeking, also when less is available than asked for. Reading the data of a stream consumes all of it and leaves the stream usable.",
  over=["inputs"], qtext="all contents up to the bound, all read positions, all peek sizes",
  why="tests peek at one file; short and empty streams and positions in the middle are what goes wrong",
  files=["common/stream_helpers.cpp"], mechanism=[("read and put back", "common/stream_helpers.cpp")], observe=["returned text", "bytes read afterwards"],
  cases=[dict(name="peek", harness="text_utils.cpp", src=["common/stream_helpers.cpp"], defs={"MODE": 5, "PK": 4}, thorough=dict(defs={"MODE": 5, "PK": 8}, time=600), marks=["start", "all", "read"], bounds="streams of up to 4 (thorough: 8) bytes")])
prop("C12",
  title="Processor aliases resolve to what can be reached through them",
  statement="The destinations of an alias are exactly the names that can be reached through alias definitions and are not aliases themselves, and the aliases of a name are exactly the aliases from which it can be reached, also when definitions form loops; the lookups always end.",
  over=["inputs", "histories"], qtext="every sequence of up to four alias definitions over four names, including loops and self references",
  why="tests define one small tree of aliases and no loop",
  files=["framework/aliaser.cpp"], mechanism=[("depth-limited search in both directions", "framework/aliaser.cpp")], observe=["getAllDestinations, getAllAliases, getAliasNames, isAlias"],
  assumptions=["chains of more than five definitions are cut off by design and not claimed"],
  cases=[dict(name="aliases", harness="text_utils.cpp", src=["framework/aliaser.cpp"], inc=["framework"], defs={"MODE": 6, "EDGES": 3}, thorough=dict(defs={"MODE": 6, "EDGES": 4}, time=1500), marks=["aliases"], bounds="up to 3 (thorough: 4) definitions over 4 names")])
prop("C13",
  title="UTF-8 text is decoded and encoded according to the standard",
  statement="Validation accepts exactly the well-formed UTF-8 of the Unicode standard (no overlong forms, surrogates or values above 10FFFF) and finds the first ill-formed place; decoding it forwards, backwards or unchecked gives the right code points and encoding those gives the text back; exactly the scalar values can be encoded; counting characters agrees; a failed decoding does not move the position and nothing beyond the end is read.",
  over=["inputs"], qtext="all byte strings up to the bound; all 32-bit code points",
  why="the repository has no test of the library that all its text processing uses", files=["utf8/utf8/core.h", "utf8/utf8/checked.h", "utf8/utf8/unchecked.h"], mechanism=[("sequence decoding", "utf8/utf8/core.h")], observe=["find_invalid, next, prior, distance, append, utf8to16"],
  cases=[dict(name="decode", harness="utf8_case.cpp", defs={"MODE": 0, "N": 6}, thorough=dict(defs={"MODE": 0, "N": 9}, time=2400), marks=["well-formed", "ill-formed"], bounds="all texts of 1..6 (thorough: 9) bytes"),
         dict(name="encode", harness="utf8_case.cpp", defs={"MODE": 1}, marks=["encoded", "refused"], bounds="all 32-bit code points")])
CASE = ["utf8case/case_tables.cpp", "utf8case/range_based_case_converter.cpp", "utf8case/regular_contextual_case_converter.cpp", "utf8case/simple_convert.cpp", "utf8case/special_casing_converter.cpp", "utf8case/string_case_converter_manager.cpp", "utf8case/turkish_and_azeri_lower_contextual_case_converter.cpp", "utf8case/turkish_and_azeri_upper_contextual_case_converter.cpp", "common/psi_exception.cpp"]
prop("C14",
  title="Letter case follows the Unicode standard",
  statement="Lower, upper and title casing map every character as the Unicode standard says (including those that become several characters) and leave all other characters alone. A text is converted character by character, except for the Turkish and Azeri rules for i; head conversion changes the first character only and tail conversion everything but the first character. A text that a conversion changes is reported as touched.",
  over=["inputs"], qtext="all Unicode scalar values; all short texts over a pool of characters with different case behaviour, four languages",
  why="tests convert about twenty words; the tables have hundreds of ranges", files=["utf8case/case_tables.cpp", "utf8case/range_based_case_converter.cpp", "utf8case/special_casing_converter.cpp", "utf8case/general_case_converter.hpp"], mechanism=[("range table look-up", "utf8case/range_based_case_converter.cpp"), ("special casing look-up", "utf8case/special_casing_converter.cpp")], observe=["converted texts"],
  assumptions=["oracle: case mappings of Unicode 15 without the characters added or cased after Unicode 5.2 (harness/case_newer.inc)"],
  cases=[dict(name="table", harness="utf8_case.cpp", src=CASE, defs={"MODE": 2, "FROM": 0, "TO": 0x105}, thorough=dict(defs={"MODE": 2, "FROM": 0, "TO": 0x1100}, time=2400), marks=["mapped", "caseless"], bounds="all code points below U+10500 (thorough: all code points)"),
         dict(name="texts", harness="utf8_case.cpp", src=CASE, defs={"MODE": 3, "LEN": 3}, thorough=dict(defs={"MODE": 3, "LEN": 4}, time=1500), marks=["turkish", "other"], bounds="texts of up to 3 (thorough: 4) characters from a pool of 12")])
LAT = ["common/lattice.cpp", "common/string_helpers.cpp", "common/cutter.cpp", "common/psi_exception.cpp"] + LT + AI
GH = ["_ZNK14AnnotationItem7getHashEv"]
prop("C15",
  title="The lattice holds exactly the edges that were added to it",
  statement="After any sequence of additions and discards, the edges leaving or entering a vertex, or listed in source or target order, are exactly those that were added, each exactly once and with all tags it was given; selecting by a tag mask gives exactly the edges whose tags match, whether the mask was first used before or after the edges came. Adding the same annotation over the same range in the same plane extends the existing edge (tags united, best score kept, every alternative kept), in another plane it makes another edge. Counts of edges between vertices agree. Symbol edges are no exception, whether they are stored implicitly or not, and loose vertices are none either.",
  over=["histories"], qtext="every sequence of operations up to the bound: symbols, annotations with any set of tags, discards, with lookups at any point in between",
  why="tests build fixed lattices; the implicit symbol edges, per-mask indices and edge merging interact in orders that no test tries",
  files=["common/lattice.cpp", "common/lattice.hpp"], mechanism=[("edge merging per plane", "common/lattice.cpp"), ("edges indexed by tag mask", "common/lattice.cpp"), ("implicit symbol edges", "common/lattice.cpp")], observe=["outEdges, inEdges, edgesSortedBySource, edgesSortedByTarget, countEdges, getEdgeLayerTags, getEdgeScore, getEdgePartitions"],
  assumptions=["a symbol tag is only given to the symbol's own annotation item (any other item over one character with that tag is stored as the symbol by design)"],
  cases=[dict(name="edges", harness="lattice.cpp", src=LAT, time=300, defs={"OPS": 2, "NTEXTS": 1, "LOOSE": 1}, thorough=dict(defs={"OPS": 3, "NTEXTS": 3, "LOOSE": 1}, time=2400), marks=["plain", "loose", "discard"], bounds="a text of two characters, optionally one loose vertex; sequences of 2 (thorough: 3) operations; tag sets over five tags")])
prop("C16",
  title="Corrections keep both the original and the corrected text readable",
  statement="After inserting, erasing or replacing characters at any place of a text, the symbol edges still spell the original text along its own positions, and also spell the corrected text. A correction is refused only when characters are erased up to the very end of the text without being replaced.",
  over=["inputs"], qtext="all texts, positions, lengths and new texts up to the bound",
  why="tests correct one word in the middle; insertions at the ends, replacements of other length and empty corrections are what breaks",
  files=["common/lattice.cpp"], mechanism=[("loose vertices and parallel symbol edges", "common/lattice.cpp")], observe=["paths of symbol edges"],
  cases=[dict(name="corrections", harness="lattice_paths.cpp", src=LAT, hash0=GH, defs={"MODE": 0, "CH": 3, "INS": 2, "NPOOL": 2}, thorough=dict(defs={"MODE": 0, "CH": 4, "INS": 3, "NPOOL": 3}, time=2400), marks=["insert", "erase", "replace", "refused"], bounds="texts of up to 3 (thorough: 4) characters, any characters of one or two (three) bytes, up to 2 (3) new characters")])
prop("C17",
  title="Looking something up in the lattice does not disturb running iterations",
  statement="Iterating over edges gives the same edges whether or not other lookups (edges by other tag masks, first edges, sorted edges) are made in between; iterations end.",
  over=["inputs", "histories"], qtext="all lattices of up to three edges, all kinds of iteration, a lookup after any number of steps",
  why="annotators look up masks while iterating; whether that breaks depends on which masks were seen before",
  files=["common/lattice.cpp", "common/lattice.hpp"], mechanism=[("edge lists per tag mask", "common/lattice.hpp")], observe=["edges returned by iterators"],
  cases=[dict(name="iteration", harness="lattice_paths.cpp", src=LAT, defs={"MODE": 1, "NPOOL": 0}, thorough=dict(defs={"MODE": 1, "NPOOL": 0, "ALLDISTURB": 1}, time=900), marks=["iterated"], bounds="3 characters, 1..3 edges with one of two tags, six kinds of iteration, lookups after 0..2 (thorough: 0..5) steps")])
prop("C18",
  title="A cutter run over the lattice partitions the covered text into tokens",
  statement="Running a cutter over given parts of the text adds edges that cover each part from its beginning to its end without gaps or overlaps; each token's text is the text it covers and consists of exactly the symbols in it, in order, also when some symbols carry other tags. A path of symbols from any position spells the text from there to the end.",
  over=["inputs"], qtext="all texts, parts, token lengths and tagged symbols up to the bound",
  why="tests cut one sentence; hidden and visible symbol edges and several parts are what goes wrong",
  files=["common/lattice.cpp", "common/lattice.hpp", "common/cutter.cpp"], mechanism=[("runCutter", "common/lattice.cpp"), ("implicit edge sequences", "common/lattice.cpp")], observe=["token edges, their partitions and texts"],
  cases=[dict(name="cutting", harness="lattice_paths.cpp", src=LAT, hash0=GH, defs={"MODE": 2, "CH": 4, "NPOOL": 2}, thorough=dict(defs={"MODE": 2, "CH": 5, "NPOOL": 2}, time=2400), marks=["one part", "two parts"], bounds="texts of up to 4 (thorough: 5) characters, any characters of one or two bytes, one or two parts, tokens of 1..2 characters")])
prop("C19",
  title="Edge sequences and alternatives keep the edges they were built from",
  statement="A sequence holds exactly the edges it was built from, in order, whatever mixture of implicit, hidden and explicit edges they are; first, last and n-th edge agree with iteration. An edge built from others inherits their planes unless it has its own, keeps its rule, choice and score, and knows its first part. An edge never becomes a part of itself, and empty or reversed edges are refused without leaving anything behind.",
  over=["inputs"], qtext="all sequences up to the bound over six edges in different planes, adjacent or not",
  why="sequences are stored in two representations; tests never build ones that switch between them",
  files=["common/lattice.cpp", "common/lattice.hpp"], mechanism=[("range or list representation", "common/lattice.cpp"), ("plane inheritance", "common/lattice.cpp")], observe=["EdgeSequence iterators, nthEdge, getEdgePartitions, getParent"],
  cases=[dict(name="sequences", harness="lattice_paths.cpp", src=LAT, defs={"MODE": 3, "SEQ": 3, "NPOOL": 0}, thorough=dict(defs={"MODE": 3, "SEQ": 5, "NPOOL": 0}, time=2400), marks=["sequence", "empty"], bounds="sequences of up to 3 (thorough: 5) edges")])
prop("C20",
  title="Best paths follow the wanted edges and pass over blanks",
  statement="A path for a tag mask, possibly skipping blanks, consists of edges that follow each other from the given vertex; where an edge with a wanted tag leaves, one is taken, otherwise (when skipping) a blank token if there is one; it ends, and only where nothing suitable leaves.",
  over=["inputs"], qtext="all lattices over three characters with up to three edges of four kinds",
  why="the tests have one lattice with one blank; what happens when a blank is the last of several edges is not tried",
  files=["common/lattice.cpp", "common/lattice.hpp"], mechanism=[("getPathWithSkipping", "common/lattice.hpp")], observe=["edge sequences"],
  cases=[dict(name="paths", harness="lattice_paths.cpp", src=LAT, defs={"MODE": 4, "EDGES": 2, "NPOOL": 0}, thorough=dict(defs={"MODE": 4, "EDGES": 3, "NPOOL": 0}, time=1200), marks=["path", "no path"], bounds="3 characters, up to 2 (thorough: 3) added edges")])

SRV = ["server", "server/server", "server/mpfd-parser"]
SH = "server.cpp"
prop("C21",
  title="The server understands HTTP requests exactly, however they arrive",
  statement="A well-formed request gives exactly the method, address, version, headers and body that were sent, is complete at its last byte and not before, and more data after it is left alone. Any bytes give the same verdict and the same request however they are cut into pieces by the network. A body may hold any bytes.",
  over=["inputs", "schedules"], qtext="all well-formed requests up to the bounds, all byte strings, all ways to cut them in two",
  why="the repository has no unit test of the parser, and browsers send small requests in one piece",
  files=["server/server/request_parser.cpp", "server/server/request_parser.hpp"], mechanism=[("character-wise state machine", "server/server/request_parser.cpp")], observe=["parse result and position", "request fields"],
  cases=[dict(name="well-formed", harness=SH, src=["server/server/request_parser.cpp"], inc=SRV, defs={"MODE": 0, "HDRS": 2, "BODY": 4}, thorough=dict(defs={"MODE": 0, "HDRS": 3, "BODY": 6}, time=1500), marks=["one piece", "two pieces", "body", "empty body"], bounds="GET, POST or any two-letter method; addresses of 1..3 bytes, 0..2 (thorough: 3) further headers, bodies of 0..4 (6) bytes, cut anywhere in the body or just before it"),
         dict(name="any", harness=SH, src=["server/server/request_parser.cpp"], inc=SRV, defs={"MODE": 1, "NBYTES": 5}, thorough=dict(defs={"MODE": 1, "NBYTES": 8}, time=1500), marks=["refused", "complete", "incomplete"], bounds="six beginnings of requests followed by 1..5 (thorough: 8) arbitrary bytes, cut anywhere in them")])
RH = ["server/server/request_handler.cpp", "server/server/reply.cpp", "server/server/mime_types.cpp"]
prop("C22",
  title="The server serves only what is below its document root",
  statement="An address is decoded as the percent encoding says; one that is wrongly encoded, not absolute or contains .. is refused and no file is opened for it; otherwise the file opened is the one the address names below the document root, and the reply holds its bytes and length.",
  over=["inputs"], qtext="all addresses up to the length bound",
  why="the repository has no unit test of it; escapes that hide a dot or are cut short are what matters",
  files=RH, mechanism=[("url_decode", "server/server/request_handler.cpp"), ("path check", "server/server/request_handler.cpp")], observe=["path given to ifstream (a stand-in records it)", "reply"],
  cases=[dict(name="paths", harness=SH, src=RH, inc=SRV, flags="-include " + HERE + "/harness/stub/ifstream.hpp", defs={"MODE": 2, "NBYTES": 4}, thorough=dict(defs={"MODE": 2, "NBYTES": 7}, time=1500), marks=["refused", "served"], bounds="addresses of 0..4 (thorough: 7) arbitrary bytes after one of four beginnings")])
SES = ["server/session_manager.cpp", "server/session.cpp", "common/guid_generator.cpp"]
prop("C23",
  title="Submitted forms arrive as they were filled in",
  statement="Every field of a form has the value that was entered, however its characters were encoded; a body that is no well-formed form is dealt with as well (the server neither hangs nor fails).",
  over=["inputs"], qtext="all forms of up to three fields with short values in any encoding; all bodies over the special characters up to the bound",
  why="site tests submit a few plain forms and need a running server",
  files=["server/psi_server.cpp"], mechanism=[("parseNamesAndValues, urlDecode", "server/psi_server.cpp")], observe=["session data after decoding"],
  cases=[dict(name="forms", harness=SH, src=["server/psi_server.cpp"] + SES, inc=SRV, libs="-lboost_thread -lboost_system", defs={"MODE": 3, "FIELDS": 2, "VL": 2, "NBYTES": 5}, thorough=dict(defs={"MODE": 3, "FIELDS": 3, "VL": 2, "NBYTES": 8}, time=2400), marks=["form", "any body"], bounds="1..2 (thorough: 3) fields of 0..2 characters, each plain, + or percent-encoded; bodies of up to 5 (8) characters over {a = & % + 1}")])
prop("C24",
  title="Uploaded fields and files arrive unchanged, however the data is cut",
  statement="The fields and files of a multipart upload have the contents, file names and types that were sent, also when the data arrives in pieces cut at any place, and also when contents hold line ends, parts of the boundary or zero bytes.",
  over=["inputs", "schedules"], qtext="all uploads of up to two parts with short contents, all ways to cut the data in two in the last part",
  why="there is no test of it; browsers send one piece",
  files=["server/mpfd-parser/Parser.cpp", "server/mpfd-parser/Field.cpp"], mechanism=[("data collector and boundary search", "server/mpfd-parser/Parser.cpp"), ("field contents", "server/mpfd-parser/Field.cpp")], observe=["fields map"],
  assumptions=["text fields that contain a zero byte are not claimed (the content is handed out as a C string)", "the boundary parameter is unquoted and last, as browsers send it"],
  cases=[dict(name="uploads", harness=SH, src=["server/mpfd-parser/Parser.cpp", "server/mpfd-parser/Field.cpp", "server/mpfd-parser/Exception.cpp"], inc=SRV, flags="-include " + HERE + "/harness/stub/fstreams.hpp", defs={"MODE": 4, "PARTS": 2, "VL": 3}, thorough=dict(defs={"MODE": 4, "PARTS": 3, "VL": 4}, time=2400), marks=["text", "file", "type", "two pieces"], bounds="1..2 (thorough: 3) parts, contents of 0..3 (4) arbitrary bytes, cut at any place in the last 27 bytes or nowhere")])
prop("C25",
  title="Sessions are kept apart",
  statement="Every session gets an identifier of its own, which the cookie made from it gives back wherever it stands in the cookie header; any cookie header is dealt with. What a session stores is what it reads, and no other session sees or changes it.",
  over=["inputs", "histories"], qtext="all cookie headers up to the bound around an identifier; all sequences of up to three operations on two sessions",
  why="there is no unit test of sessions",
  files=SES, mechanism=[("SessionId", "server/session_manager.cpp"), ("data map", "server/session.cpp")], observe=["SessionId, getData, isData"],
  assumptions=["time() and rand() are the executor's; the 10000th session of one second is outside the claim"],
  cases=[dict(name="cookies", harness=SH, src=SES, inc=SRV, defs={"MODE": 5, "NBYTES": 3}, thorough=dict(defs={"MODE": 5, "NBYTES": 6}, time=900), marks=["cookie", "any cookie"], bounds="a cookie with up to 4 characters around it; five beginnings followed by up to 3 (thorough: 6) arbitrary bytes"),
         dict(name="data", harness=SH, src=SES, inc=SRV, defs={"MODE": 6, "OPS": 2}, thorough=dict(defs={"MODE": 6, "OPS": 3}, time=1500), marks=["sessions"], bounds="1..2 (thorough: 3) operations on two sessions, three keys, values of up to one arbitrary byte")])
PSI = ["formats/psi/psi_writer/psi_lattice_writer.cpp", "formats/psi/psi_reader/psi_lattice_reader.cpp", "common/aligning_writer_worker.cpp", "common/lattice_worker.cpp", "common/stream_lattice_reader.cpp", "common/psi_quoter.cpp", "common/utt_like_quoter.cpp", "common/quoter.cpp"] + LAT
prop("C26",
  title="A lattice written in the PSI format is read back the same",
  statement="Writing a lattice in the PSI format and reading the result gives the same text and the same edges: their ranges, tags, categories, annotation texts, attribute values, scores, parts, alternatives and roles. The text up to the end of the last edge comes back whole, whatever characters it holds and whether or not edges cover all of it.",
  over=["inputs"], qtext="all texts up to the bound with or without symbols and a token anywhere; all shapes of annotations (parts, alternatives, roles, scores, corrections) with arbitrary characters in one field at a time",
  why="tests compare a few written files and read a few; special characters and text that is not covered by edges are what gets lost",
  files=["formats/psi/psi_writer/psi_lattice_writer.cpp", "formats/psi/psi_reader/psi_lattice_reader.cpp", "formats/psi/psi_reader/psi_lattice_reader.hpp", "common/aligning_writer_worker.cpp"], mechanism=[("line per edge, ordinal references", "formats/psi/psi_writer/psi_lattice_writer.cpp"), ("spirit grammar, text reconstruction", "formats/psi/psi_reader")], observe=["lattice after reading"],
  assumptions=["categories without , [ < attribute values without , = [ and roles without $ ( , < ] (the format does not escape them); an edge without parts lies over text without symbols, and an alternative made of symbols is the only one (the format cannot tell them apart otherwise)"],
  cases=[dict(name="text", harness="formats.cpp", src=PSI, inc=["formats/psi/psi_writer", "formats/psi/psi_reader"], hash0=GH, defs={"MODE": 0, "CH": 2, "NKINDS": 2}, thorough=dict(defs={"MODE": 0, "CH": 3, "NKINDS": 3}, time=2400), marks=["roundtrip", "annotated"], bounds="texts of 0..2 (thorough: 3) arbitrary characters of one or two (three) bytes"),
         dict(name="edges", time=200, harness="formats.cpp", src=PSI, inc=["formats/psi/psi_writer", "formats/psi/psi_reader"], hash0=GH, defs={"MODE": 1, "FREE": 1, "NKINDS": 1}, thorough=dict(defs={"MODE": 1, "FREE": 2, "NKINDS": 2}, time=2400), marks=["roundtrip", "category", "annotation", "values", "plain", "parse", "correction"], bounds="texts of 2..3 or 20..21 fixed characters, one token anywhere near the end, 1 (thorough: 2) arbitrary characters in a field")])
SHASH = ["_ZNK3fsa9StateHash"]
QF = ["tools/datastructures/psi_query", "tools/lemmatizers/lamerlemma", "tools/lemmatizers/morfologik"]
prop("C27",
  title="A full-form lexicon gives back exactly its entries",
  statement="A word that a full-form lexicon lists is given exactly the lemmas, tags and features of its entries, and a word that it does not list is given none, whatever other entries there are, in whatever order they come and however often they are repeated. An empty lexicon is one that knows no word. The code that stands for a lemma in the compiled lexicon is decoded to that lemma again, also for long words.",
  over=["inputs"], qtext="all lexicons of up to so many entries over a small alphabet with 2 to 4 columns; all pairs of word and lemma up to the bound, also next to 55 to 125 further characters",
  why="the tests look up single words in a fixed lexicon; sharing of prefixes and suffixes in the compiled automaton depends on which entries there are",
  files=["tools/lemmatizers/lamerlemma/utility_functions.cpp", "tools/datastructures/psi_query/fsa_multi_store.cpp", "tools/datastructures/psi_query/fsa_multi_store.hpp", "tools/datastructures/psi_query/fsa_algorithms.hpp", "tools/datastructures/psi_query/fsa_bindfsa.hpp"], mechanism=[("suffix codes of lemmas", "tools/lemmatizers/lamerlemma/utility_functions.cpp"), ("minimal automaton, lookup by intersection", "tools/datastructures/psi_query/fsa_multi_store.hpp")], observe=["FSAMultiStore::get, parseResult, KLEndDecode"],
  assumptions=["words are valid UTF-8 (the bytes ff, fe and fd are symbols of the automata) and shorter than 190 bytes; reading and writing compiled lexicons through zlib is left out"],
  cases=[dict(name="lookup", harness="lexicon.cpp", hash0=SHASH, forksel=True, time=240, src=["tools/datastructures/psi_query/fsa_multi_store.cpp", "tools/lemmatizers/lamerlemma/utility_functions.cpp", "common/psi_exception.cpp"], inc=QF, libs="-lboost_iostreams -lz", defs={"MODE": 0, "ENTRIES": 2, "FORM": 2, "LEMMA": 1, "FIELDS": 3}, thorough=dict(defs={"MODE": 0, "ENTRIES": 3, "FORM": 2, "LEMMA": 1, "FIELDS": 3}, time=2400), marks=["one", "several", "none"], bounds="0..2 (thorough: 3) entries, words of 1..2 bytes and lemmas of one byte out of two"),
         dict(name="codes", harness="lexicon.cpp", src=["tools/lemmatizers/lamerlemma/utility_functions.cpp", "common/psi_exception.cpp"], inc=QF, defs={"MODE": 1, "LEN": 3}, thorough=dict(defs={"MODE": 1, "LEN": 4}, time=1500), marks=["roundtrip", "long"], bounds="words of 0..3 (4) and lemmas of 1..3 (4) arbitrary bytes, alone or with 55..125 further characters in front or behind")])
AU = dict(harness="automata.cpp", inc=QF, libs="-lboost_iostreams -lz")
prop("C28",
  title="Automata accept the languages their construction names",
  statement="Uniting, intersecting, concatenating, repeating, making optional and reversing automata gives automata that accept exactly the union, intersection, concatenation, closure and reversal of the languages; removing empty transitions, pruning, copying, determinizing and minimizing do not change the language, and the minimized automaton is deterministic and the smallest. An automaton built from a sorted word list holds exactly these words and is the smallest, packed or not; perfect hashing numbers the words in lexicographic order, gives the number of words for any other word, and gives each word back from its number. A character expression accepts exactly what it denotes.",
  over=["inputs"], qtext="all expressions of the given depth over all words of two letters up to the bound, against all words up to the bound; all word lists up to the bound",
  why="the tests build three automata and check a few words; operations compose, and errors show for multiple start states, the empty word and empty transitions",
  files=["tools/datastructures/psi_query/fsa_algorithms.hpp", "tools/datastructures/psi_query/fsa_ndfsa.hpp", "tools/datastructures/psi_query/fsa_ndfsa_impl.hpp", "tools/datastructures/psi_query/fsa_dfsa.hpp", "tools/datastructures/psi_query/fsa_bindfsa.hpp", "tools/datastructures/psi_query/fsa_hash_fsa.hpp", "tools/datastructures/psi_query/fsa_query_grammers.hpp"], mechanism=[("wrappers and traversal", "tools/datastructures/psi_query/fsa_algorithms.hpp"), ("perfect hashing", "tools/datastructures/psi_query/fsa_hash_fsa.hpp"), ("expression grammar", "tools/datastructures/psi_query/fsa_query_grammers.hpp")], observe=["in, hash, unhash, states and arcs"],
  assumptions=["membership is asked of automata without empty transitions, as documented; joining an automaton without any state to another one gives the other one (the code builds on that)"],
  cases=[dict(AU, name="operations", defs={"MODE": 0, "DEPTH": 3, "WLEN": 1, "QLEN": 2, "RIGHT": 0}, thorough=dict(defs={"MODE": 0, "DEPTH": 2, "WLEN": 2, "QLEN": 3, "RIGHT": 1}, time=2400), marks=["intersect", "concat", "star", "in", "out"], bounds="expressions of depth 1..3, words of 0..1 (thorough: 2) letters, query words of 0..2 (3) letters"),
         dict(AU, name="drawn", forksel=True, time=200, defs={"MODE": 3, "ONLY": 1, "STATES": 3, "ARCS": 2, "WLEN": 1, "QLEN": 2}, thorough=dict(defs={"MODE": 3, "ONLY": 0, "STATES": 3, "ARCS": 3, "WLEN": 1, "QLEN": 3}, time=2400), marks=["intersect", "concat", "star", "in", "out"], bounds="one operation on any automaton of 3 states (1 or 2 start states, end states among the last two (any)) and 2 (3) arcs for letters or nothing, and a word or a closure of a word on either side; query words of 0..2 (3) letters"),
         dict(AU, name="words", hash0=SHASH, forksel=True, defs={"MODE": 1, "WLEN": 2, "WORDS": 3}, thorough=dict(defs={"MODE": 1, "WLEN": 3, "WORDS": 4}, time=2400), marks=["there", "not there", "wide"], bounds="lists of 0..3 (4) words of 0..2 (3) letters, also with 13 further words over other letters"),
         dict(AU, name="expressions", defs={"MODE": 2, "DEPTH": 3, "WLEN": 1, "QLEN": 2, "RIGHT": 0}, thorough=dict(defs={"MODE": 2, "DEPTH": 2, "WLEN": 2, "QLEN": 3, "RIGHT": 1}, time=2400), marks=["concat", "star", "in", "out"], bounds="expressions of depth 1..3, words of 1 (1..2) letters, query words of 0..2 (3) letters")])

GOB = dict(harness="gobio.cpp", src=["tools/parsers/gobio/avmatrix/av_ai_converter.cpp", "tools/parsers/gobio/registrar/number_master.cpp", "tools/parsers/gobio/registrar/zvalue_master.cpp", "common/limit_checker.cpp"] + LAT, inc=["tools/parsers/gobio/" + d for d in ("parser", "chart", "avmatrix", "registrar", "helpers")], hash0=GH, flags="-fno-access-control", forksel=True)
prop("C29",
  title="The chart parser finds exactly what the grammar derives",
  statement="For any grammar whose rules have one or two parts and any input, the parser adds a phrase over a range if and only if the grammar derives it there, passing over any number of blanks between words; the alternatives of a phrase are exactly the ways to apply a rule to phrases that are next to each other, with these phrases as parts. It always stops, also for rules that derive each other.",
  over=["inputs"], qtext="all grammars of up to so many rules over so many symbols and all inputs of so many words of these symbols, with no, one or two blanks in between",
  why="the tests parse a few sentences with fixed grammars; the order in which phrases are found decides which pairs are tried",
  files=["tools/parsers/gobio/parser/agenda_parser.tpl", "tools/parsers/gobio/parser/agenda_parser.hpp", "tools/parsers/gobio/parser/agenda.hpp", "tools/parsers/gobio/parser/simple_cfg_combinator.tpl", "tools/parsers/gobio/chart/chart.tpl", "common/lattice.cpp"], mechanism=[("agenda loop, binary rules over marked edges", "tools/parsers/gobio/parser"), ("chart over the lattice", "tools/parsers/gobio/chart/chart.tpl")], observe=["lattice after parsing"],
  assumptions=["blanks are tokens of category B that nothing else crosses; no limits on edges"],
  cases=[dict(GOB, name="fifo", time=150, defs={"TOKENS": 3, "RULES": 2, "NSYM": 3, "AGENDA": 0}, thorough=dict(defs={"TOKENS": 3, "RULES": 3, "NSYM": 3, "AGENDA": 0}, time=2400), marks=["one part", "two parts", "two blanks", "more than one token"], bounds="1..3 words, 1..2 (thorough: 3) rules over 3 symbols, first word of 1 or 2 categories"),
         dict(GOB, name="priority", defs={"TOKENS": 2, "RULES": 2, "NSYM": 2, "AGENDA": 1}, thorough=dict(defs={"TOKENS": 3, "RULES": 2, "NSYM": 3, "AGENDA": 1}, time=2400), marks=["one part", "two parts", "two blanks", "more than one token"], bounds="the agenda ordered by scores; 1..2 (3) words, 1..2 rules over 2 (3) symbols with scores 0 or 1")])

WR = dict(harness="writers.cpp", src=["formats/simple/simple_lattice_writer.cpp", "formats/simple/simple_lattice_writer_stream_output_iterator.cpp", "formats/json-simple/json_lattice_writer.cpp", "formats/json-simple/json_lattice_writer_output.cpp", "formats/json-simple/json_lattice_writer_output_iterator.cpp", "common/aligning_writer_worker.cpp", "common/lattice_worker.cpp", "common/lattice_iter_writer.cpp", "common/lattice_writer_output_iterator.cpp", "common/psi_quoter.cpp", "common/utt_like_quoter.cpp", "common/quoter.cpp"] + LAT, inc=["formats/simple", "formats/json-simple"], hash0=GH)
prop("C30",
  title="The simple and the JSON writer list the wanted annotations and nothing else",
  statement="The simple and the JSON writer list, in text order, the texts of the annotations with the wanted tag that were not discarded and do not lie over white space (unless asked to), grouped as alternatives where they start together (only the first one if asked to), or, where there are none, those with the first fallback tag that has some; annotations over ranges of a higher-order tag are grouped by these ranges. The simple writer puts the separators between them, never before the first or after the last one. The output of the JSON writer is JSON, whatever characters the texts, categories and attributes hold, and its strings are exactly these.",
  over=["inputs"], qtext="all lattices of up to so many annotations over a fixed text in each mode; all texts of up to so many characters in a field",
  why="the tests write one or two sentences per option; special characters, discarded annotations, empty groups and missing tags in combination are what breaks the output",
  files=["common/lattice_iter_writer.cpp", "formats/simple/simple_lattice_writer_stream_output_iterator.cpp", "formats/simple/simple_lattice_writer.cpp", "formats/json-simple/json_lattice_writer_output.cpp", "formats/json-simple/json_lattice_writer.cpp"], mechanism=[("walk over the lattice", "common/lattice_iter_writer.cpp"), ("separators", "formats/simple"), ("arrays and escapes", "formats/json-simple")], observe=["written text"],
  assumptions=["annotations of a higher-order tag follow each other without gaps from the start of the text; texts are valid UTF-8 and annotations have a text or a category; in linear mode the path is that of the first edge that leaves each vertex"],
  cases=[dict(WR, name="lists", defs={"MODE": 0, "EDGES": 2}, thorough=dict(defs={"MODE": 0, "EDGES": 3}, time=2400), marks=["plain", "linear", "no-alts", "with-blank", "spec", "two groups", "fallback", "alternatives"], bounds="0..2 (thorough: 3) annotations over five ranges with two or three tags, six modes"),
         dict(WR, name="fallback", time=120, defs={"MODE": 0, "EDGES": 3, "ONLY": 4}, thorough=dict(defs={"MODE": 0, "EDGES": 4, "ONLY": 4}, time=2400), marks=["fallback", "alternatives"], bounds="0..3 (thorough: 4) annotations over five ranges with the three tags, fallback tags given"),
         dict(WR, name="characters", forksel=True, defs={"MODE": 1, "LEN": 1, "NKINDS": 4}, thorough=dict(defs={"MODE": 1, "LEN": 2, "NKINDS": 3}, time=2400), marks=["with arguments", "text"], bounds="texts, categories and values of 1 (2) arbitrary characters")])

CV = dict(harness="converters.cpp", inc=["tools/converters/joiner", "tools/converters/selector", "tools/converters/antiselector"], src=["tools/converters/joiner/joiner.cpp", "tools/converters/selector/selector.cpp", "tools/converters/antiselector/antiselector.cpp", "common/annotator.cpp", "common/annotator_factory.cpp", "common/lattice_worker.cpp"] + LAT, hash0=GH, forksel=True)
prop("C31",
  title="The joiner, the selector and the antiselector pick exactly the annotations they are described to pick",
  statement="The joiner makes one annotation for every pair of an annotation matching the left mask and one matching the right mask that span the same text and have a common parent, with text, category and attributes from the side asked for and a reference to both, and (unless asked otherwise) copies left annotations without a partner; it never fails. The selector takes over every reading of a token, a single annotation or a chain of them, all of whose conditions hold for some test annotation there (alternatives of conjunctions of a category or attribute=value; * and no condition always hold), and the token itself where there is none. The antiselector takes over exactly the annotations with the fallback tag for which there is none with the other tag over the same text. White space is taken over only if asked for.",
  over=["inputs"], qtext="all lattices of up to so many annotations with all parents, tags and options; all condition texts up to the bound",
  why="the tests run each of them over a sentence with one rule set; missed pairs, wrong sides and failures need annotations with several parents, nothing to add, or conditions in odd forms",
  files=["tools/converters/joiner/joiner.cpp", "tools/converters/selector/selector.cpp", "tools/converters/antiselector/antiselector.cpp", "common/lattice.cpp"], mechanism=[("pairs of siblings", "tools/converters/joiner/joiner.cpp"), ("chains and conditions", "tools/converters/selector/selector.cpp"), ("same span test", "tools/converters/antiselector/antiselector.cpp")], observe=["lattice after the run"],
  assumptions=["an annotation spans the same text as its parent, except for one kind of right annotation that does not; left and right annotations do not have the same attribute with different values; readings end where the token ends"],
  cases=[dict(CV, name="joiner", time=120, defs={"MODE": 0, "EDGES": 2}, thorough=dict(defs={"MODE": 0, "EDGES": 3}, time=2400), marks=["joined", "outer", "another plane"], bounds="1..2 (thorough: 3) annotations below two parents, all options"),
         dict(CV, name="several", time=150, defs={"MODE": 0, "EDGES": 3, "FEW": 1}, thorough=dict(defs={"MODE": 0, "EDGES": 4, "FEW": 1}, time=2400), marks=["joined", "outer", "another plane"], bounds="1..3 (thorough: 4) annotations of one category below two parents, all outer join options, into another plane"),
         dict(CV, name="selector", time=150, defs={"MODE": 1, "TESTS": 1, "READINGS": 1, "CLEN": 3}, thorough=dict(defs={"MODE": 1, "TESTS": 2, "READINGS": 2, "CLEN": 3}, time=2400), marks=["reading", "chain", "fallback"], bounds="0..1 (2) test annotations, 0..1 (2) readings, conditions of up to 3 signs"),
         dict(CV, name="antiselector", defs={"MODE": 2, "EDGES": 2}, thorough=dict(defs={"MODE": 2, "EDGES": 4}, time=2400), marks=["some", "none"], bounds="0..2 (4) annotations over five ranges")])

TG = dict(harness="tagset.cpp", inc=["tools/converters/unumsunt"], src=["tools/converters/unumsunt/unumsunt.cpp", "tools/converters/unumsunt/unumsunt_rule.cpp", "common/annotator.cpp", "common/annotator_factory.cpp", "common/lattice_worker.cpp"] + LAT, hash0=GH, forksel=True, flags="-include " + HERE + "/harness/stub/ifstream.hpp")
prop("C32",
  title="The tagset converter does to annotations what its rule file says",
  statement="Every annotation of the source tagset gets a counterpart in the target tagset over the same text, with the tags to be kept: category, attribute names and values replaced as listed, then every rule whose conditions hold applied in order, once. A rule sets its values from left to right, also by reference to other attributes; one with alternatives makes one annotation for each of them, to which its other settings apply as well; a skip rule leaves the annotation out. Converted annotations refer to the converted ones they were made from. Comments and blank lines in the rule file mean nothing, and the converter always ends.",
  over=["inputs"], qtext="all rule files of up to so many rules and tables and all lattices of up to so many annotations",
  why="the tests apply one rule file to one lattice; rules interact through the values they set, alternatives and references",
  files=["tools/converters/unumsunt/unumsunt.cpp", "tools/converters/unumsunt/unumsunt_rule.cpp", "tools/converters/unumsunt/unumsunt.hpp"], mechanism=[("reading the rule file", "tools/converters/unumsunt/unumsunt.cpp"), ("applying a rule", "tools/converters/unumsunt/unumsunt_rule.cpp"), ("replacing references", "tools/converters/unumsunt/unumsunt.cpp")], observe=["lattice after the run"],
  assumptions=["attributes that are missing read as fail; each table has one entry; the rule file is read through a stand-in for std::ifstream"],
  cases=[dict(TG, name="tables", time=150, defs={"MAPS": 1, "RULES": 0, "EDGES": 2}, thorough=dict(defs={"MAPS": 1, "RULES": 1, "EDGES": 2}, time=2400), marks=["substitutions", "derived"], bounds="0..1 entries per table, 1..2 annotations (thorough: and 0..1 rules)"),
         dict(TG, name="rules", time=150, defs={"MAPS": 0, "RULES": 1, "EDGES": 1}, thorough=dict(defs={"MAPS": 0, "RULES": 2, "EDGES": 1}, time=2400), marks=["rules", "skipped", "reference", "alternative"], bounds="0..1 (2) rules of 1..2 commands, one annotation")])
LM = dict(harness="lemmatizer.cpp", inc=QF, libs="-lboost_iostreams -lz", src=["tools/lemmatizers/lamerlemma/lamerlemma.cpp", "common/annotator.cpp", "common/annotator_factory.cpp", "common/lattice_worker.cpp", "common/lemmatizer_output_iterator.cpp", "tools/datastructures/psi_query/fsa_multi_store.cpp"] + LAT + [c for c in CASE if c not in LAT], hash0=GH, forksel=True)
prop("C33",
  title="The lemmatizer gives a token exactly the annotations its lexicon has for it",
  statement="Every word token of the lemmatizer's language, and no other annotation, gets what the lexicon lists for it as written, with everything but its first letter in lower case, and with its first letter in lower case: a normalized form made from the token, from that each lemma, from that each lexeme with its part of speech and attributes, and from that each form with its features, each chained to the right one also when entries share lemmas or lexemes, over the same text, with the tags of the lemmatizer. The level option cuts the chain off, lexeme ids are dropped unless asked for. A word that the lexicon does not list gets nothing.",
  over=["inputs"], qtext="all lattices of up to so many tokens and all lexicons of up to so many entries over a small alphabet of both cases, all levels",
  why="the tests look at a handful of words; which annotations are shared, and what they hang on, depends on the other entries and on the letter case",
  files=["common/lemmatizer_annotator.hpp", "tools/lemmatizers/lamerlemma/lamerlemma.cpp", "common/lemmatizer_output_iterator.cpp", "utf8case/simple_convert.cpp"], mechanism=[("chain of annotations", "common/lemmatizer_annotator.hpp"), ("entries to annotations", "tools/lemmatizers/lamerlemma/lamerlemma.cpp"), ("case variants", "utf8case/simple_convert.cpp")], observe=["lattice after the run"],
  assumptions=["the compiled lexicon is replaced by a table (what it gives is C27)", "a token of category word is not its own lemma"],
  cases=[dict(LM, name="tokens", time=100, defs={"KINDS": 1, "TOKENS": 2, "ENTRIES": 1, "WORD": 1}, thorough=dict(defs={"KINDS": 1, "TOKENS": 2, "ENTRIES": 1, "WORD": 2}, time=2400), marks=["as written", "head", "lexeme id"], bounds="1..2 tokens of one letter (thorough: 1..2) out of four, of any kind, 0..1 entries"),
         dict(LM, name="entries", time=150, defs={"KINDS": 0, "TOKENS": 1, "ENTRIES": 2, "WORD": 2}, thorough=dict(defs={"KINDS": 0, "TOKENS": 1, "ENTRIES": 2, "WORD": 3}, time=2400), marks=["as written", "tail", "head", "lexeme id"], bounds="one word of 1..2 (3) letters of both cases, 0..2 entries, level 3")])
BR = dict(harness="bracketing.cpp", src=["formats/bracketing/bracketing-writer/bracketing_quoter.cpp", "formats/bracketing/bracketing-writer/bracketing_lattice_writer.cpp", "common/aligning_writer_worker.cpp", "common/lattice_worker.cpp", "common/quoter.cpp"] + LAT, inc=["formats/bracketing/bracketing-writer"], hash0=GH)
prop("C34",
  title="The bracketing writer puts the right brackets around the right text",
  statement="The bracketing writer puts out the text of the lattice with one pair of brackets around the range of every annotation that is to be shown (not discarded, not blank or a symbol unless asked for, of the wanted tags; annotations that lie nowhere in the text have none), a bracket never inside a character, closing brackets before opening ones, longer ranges outside shorter ones, an annotation outside the one it was built from, and brackets of one range closed in reverse order. Brackets of a range that print the same are collapsed into one, or all kept with --no-collapse. With --disambig the brackets nest: no two cross, none is shown twice, the parts of a shown annotation are shown inside it, and where nothing is hidden the longest annotation at a place is chosen. A bracket pattern prints the elements it names, an incomplete or unknown specification as it is written, and a join operator lists exactly the annotations of the range that agree in every element named outside of it, even where such an element is empty or zero. Unescaping undoes escaping.",
  over=["inputs"], qtext="all patterns of so many characters over the significant ones with up to so many annotations; all lattices of up to so many annotations over a text of three characters with all options; all strings for the quoter",
  why="the tests write a dozen sentences; which annotations share a range, lack an attribute, were discarded or lie on loose vertices, and how a pattern can be incomplete, are combinations no sample covers",
  files=["formats/bracketing/bracketing-writer/bracket_printer.hpp", "formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp", "formats/bracketing/bracketing-writer/bracketing_lattice_writer.cpp", "formats/bracketing/bracketing-writer/edge_data.hpp", "formats/bracketing/bracketing-writer/edge_print_data.hpp", "formats/bracketing/bracketing-writer/bracketing_quoter.cpp"],
  mechanism=[("pattern printing and joins", "formats/bracketing/bracketing-writer/bracket_printer.hpp"), ("choice and nesting of edges", "formats/bracketing/bracketing-writer/bracketing_lattice_writer.hpp"), ("escapes", "formats/bracketing/bracketing-writer/bracketing_quoter.cpp")], observe=["written text"],
  assumptions=["no annotation is built from itself, directly or through others", "at most one join operator at a level, as documented"],
  cases=[
   dict(BR, name="patterns", defs=dict(MODE=0, LEN=4, EDGES=1, FIELDS=64), thorough=dict(defs=dict(MODE=0, LEN=7, EDGES=1, FIELDS=64), time=600), bounds="one annotation, all patterns of 4 characters of %*[]aTx (thorough: 7)", marks=["collapsing", "not collapsing"]),
   dict(BR, name="joins", defs=dict(MODE=1, EDGES=2, FIELDS=64), thorough=dict(defs=dict(MODE=1, EDGES=3, FIELDS=64), time=600), bounds="up to 2 annotations of any of 64 shapes under 11 patterns (thorough: 3)", marks=["collapsing", "not collapsing", "collapsed", "join of several"]),
   dict(BR, name="lattice", defs=dict(MODE=3, EDGES=2, RANGES=4, LOOSE=1), thorough=dict(defs=dict(MODE=3, EDGES=4, RANGES=6, LOOSE=1), time=600), bounds="up to 2 annotations over 4 ranges of a text of 3 characters, all options (thorough: 4 over 6)", marks=["collapsing", "not collapsing", "collapsed", "built from", "disambiguated", "parts", "longest", "loose", "discarded"]),
   dict(BR, name="quoter", defs=dict(MODE=2, LEN=3), thorough=dict(defs=dict(MODE=2, LEN=6), time=300), bounds="all strings of up to 3 of 8 characters (thorough: 6)", marks=["unescaped", "refused"]),
  ])
MF = dict(harness="morfologik.cpp", src=["common/morfologik_tags_parser.cpp"], inc=[])
prop("C35",
  title="A Morfologik tag stands for every combination of its alternatives",
  statement="A tag of a Morfologik dictionary, a list of attributes each of which may have alternatives, is expanded into exactly the forms that take one alternative of each attribute, every combination once. Unknown attributes, with or without alternatives, and repeated ones are ignored and take nothing else with them. The lexeme gets the part of speech (participles count as verbs) and what the lexeme determines (the gender of nouns, the aspect of verbs), the forms get the rest.",
  over=["inputs"], qtext="all tags of up to so many attributes drawn from 20 that cover every kind, alternatives, unknown and empty ones",
  why="two tags are tested, and only the number of forms; a tag with an unknown alternative loses all forms of the word",
  files=["common/morfologik_tags_parser.cpp", "common/morfologik_tags_parser.hpp"], mechanism=[("splitting and expanding", "common/morfologik_tags_parser.cpp")], observe=["attributes of the lexeme", "attributes of the forms"],
  assumptions=["the table of attribute values is taken as given; 24 of its entries are exercised"],
  cases=[dict(MF, name="tags", defs=dict(PARTS=3, VALUES=20), thorough=dict(defs=dict(PARTS=4, VALUES=20), time=600), bounds="up to 3 attributes (thorough: 4)", marks=["two alternatives", "attribute of the lexeme", "forms"])])
EN = dict(harness="encoding.cpp", src=["common/encoding_converter.cpp", "tiniconv/tiniconv.c", "tiniconv/tiniconv_desc.c"], inc=["tiniconv", "uchardet/src"])
prop("C36",
  title="Text in another encoding arrives whole, with the characters it has there",
  statement="Text in a known encoding is converted to UTF-8 into exactly the characters that its bytes stand for in that encoding, all of them, however long the text is and whatever letter it ends with; the way back gives the same bytes. Text that is not valid in the encoding, and text in an unknown or no other encoding, is left as it is. Text whose encoding is detected is converted from the encoding that was detected.",
  over=["inputs"], qtext="all texts of so many bytes in 26 single-byte encodings, in the Hebrew and the Vietnamese code page without combining marks, all characters in UCS-2 and UTF-7; texts around the length of the conversion buffer",
  why="three sample files are converted by the tests; the tables have thousands of entries, and a text that is longer than the buffer or ends in a letter that could take a mark is not sampled",
  files=["common/encoding_converter.cpp", "tiniconv/tiniconv.c", "tiniconv/tiniconv_desc.c", "tiniconv/encdec/iso8859_2.h", "tiniconv/encdec/cp1250.h", "tiniconv/encdec/utf8.h"], mechanism=[("choice of the conversion, buffer", "common/encoding_converter.cpp"), ("conversion loop", "tiniconv/tiniconv.c"), ("tables", "tiniconv/encdec")], observe=["converted text"],
  assumptions=["the characters of the single-byte encodings are those of Python's codecs (harness/charsets.h)", "the detector is replaced by a stand-in that may give any answer", "combining marks in the Hebrew and Vietnamese code pages and the East Asian encodings are outside"],
  cases=[
   dict(EN, name="tables", defs=dict(MODE=0, LEN=2), thorough=dict(defs=dict(MODE=0, LEN=3), time=900), bounds="all texts of up to 2 bytes in 26 encodings, there and back (thorough: 3 bytes)", marks=["converted", "refused"]),
   dict(EN, name="detected", defs=dict(MODE=1, LEN=1), thorough=dict(defs=dict(MODE=1, LEN=2), time=600), bounds="6 answers of the detector, up to 1 byte (thorough: 2)", marks=["converted", "kept"]),
   dict(EN, name="marks", defs=dict(MODE=2, LEN=1), thorough=dict(defs=dict(MODE=2, LEN=2), time=600), bounds="all texts of 1 byte (thorough: 2)", marks=["Vietnamese", "Hebrew"]),
   dict(EN, name="long", defs=dict(MODE=3), bounds="texts whose conversion is 99 980 to 100 016 bytes long", marks=["long"]),
   dict(EN, name="ucs2", defs=dict(MODE=4, LEN=4, SEVEN=0), thorough=dict(defs=dict(MODE=4, LEN=5, SEVEN=0), time=600), bounds="all UCS-2 texts of up to 4 characters and marks (thorough: 5)", marks=["UCS-2", "byte order"]),
   dict(EN, name="malformed", defs=dict(MODE=5, LEN=6), thorough=dict(defs=dict(MODE=5, LEN=8), time=1800), bounds="all UTF-7 texts of up to 6 signs (thorough: 8) out of five kinds, well formed or not", marks=["converted", "refused", "encoded", "plus"]),
   dict(EN, name="utf7", defs=dict(MODE=4, LEN=1, SEVEN=1), thorough=dict(defs=dict(MODE=4, LEN=2, SEVEN=1), time=900), bounds="all UTF-7 texts of 1 character (thorough: 2)", marks=["UTF-7"]),
  ])
AC = dict(harness="completer.cpp", inc=["framework"], src=["framework/auto_completer.cpp", "common/annotator_promise.cpp", "common/processor_promise.cpp", "common/annotator_factory.cpp", "common/psi_exception.cpp"], flags="-include " + HERE + "/harness/stub/options.hpp", forksel=True)
prop("C37",
  title="A pipeline is completed with what its processors need, in the best way there is",
  statement="A pipeline given by its main steps is completed with the annotators its steps need: whatever runs, each list of layer tags it requires is provided by one processor before it; the given steps stay, in their order, one of the alternatives each, run once for every language when they depend on it, and annotators are only added for tags that are missing, in the language they are needed in. Of all completions that can be set up the one with the highest total quality is chosen, and of equal ones the fastest; one that cannot be set up gives way to the next best. When there is none, that is said, with the reason when one could not be set up.",
  over=["inputs"], qtext="all sets of so many annotators with any tags needed and provided, languages, qualities, times and failures, all pipelines of one or two steps",
  why="the tests complete a handful of pipelines with the processors there are; the choice depends on all of them together",
  files=["framework/auto_completer.cpp", "common/annotator_promise.cpp", "common/processor_promise.cpp"], mechanism=[("completion", "framework/auto_completer.cpp"), ("promises", "common/annotator_promise.cpp")], observe=["completed pipeline", "exception"],
  assumptions=["no two annotators need each other in a circle (there is none in the toolkit; the completion would not end)", "reading default options is a stand-in that only knows the language"],
  cases=[dict(AC, name="tags", time=120, defs={"NF": 3, "TAGS": 1, "LANGS": 0, "FAILS": 1, "STEPS": 2, "TIMES": 2}, thorough=dict(defs={"NF": 4, "TAGS": 1, "LANGS": 0, "FAILS": 1, "STEPS": 2, "TIMES": 2}, time=2400), marks=["completed", "complete", "choice", "second choice", "impossible", "cannot be run"], bounds="3 (thorough: 4) annotators, one tag, 1..2 steps"),
         dict(AC, name="pairs", time=120, defs={"NF": 3, "TAGS": 2, "LANGS": 0, "FAILS": 0, "STEPS": 1, "TIMES": 1}, thorough=dict(defs={"NF": 3, "TAGS": 2, "LANGS": 0, "FAILS": 0, "STEPS": 2, "TIMES": 2}, time=2400), marks=["completed", "choice"], bounds="3 annotators, two tags"),
         dict(AC, name="three", time=120, defs={"NF": 3, "TAGS": 2, "LANGS": 0, "FAILS": 0, "STEPS": 3, "TIMES": 1, "THREE": 1}, thorough=dict(defs={"NF": 4, "TAGS": 2, "LANGS": 0, "FAILS": 0, "STEPS": 3, "TIMES": 1, "THREE": 1}, time=2400), marks=["completed", "complete"], bounds="a pipeline of three annotators (thorough: and another one), two tags"),
         dict(AC, name="languages", time=120, defs={"NF": 2, "TAGS": 1, "LANGS": 1, "FAILS": 0, "STEPS": 2, "TIMES": 1}, thorough=dict(defs={"NF": 3, "TAGS": 1, "LANGS": 1, "FAILS": 0, "STEPS": 2, "TIMES": 1}, time=2400), marks=["completed", "choice", "languages"], bounds="2 (3) annotators, two languages")])
