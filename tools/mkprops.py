#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate it)."""
import json, os

P = []

def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

ROW = ["src/row/owned.rs", "src/row/borrowed.rs"]

prop("C01", "Every row the safe API ever yields is a permutation of its bells",
     "Every row obtainable through the safe public API - built, parsed, computed, stored in a buffer or block, iterated, or changed in place - contains each bell from the treble up to its stage exactly once. "
     "This stays true after any sequence of operations, including ones that mix stages, return an error or panic. "
     "Row buffers and blocks always hold a whole number of rows of one stage.",
     ["histories", "inputs"], "All sequences of safe API calls over rows, row buffers, blocks, masks, place notations and accumulators, with arguments of any stage, index and range.",
     "The unit tests check single calls on a handful of well-formed rows; the invariant that all unchecked code in the crate relies on is about every history, including failed and mixed-stage calls.",
     ROW + ["src/row/same_stage_vec.rs", "src/row/accumulator.rs", "src/block.rs", "src/mask.rs"],
     [("checked row constructors", "src/row/owned.rs RowBuf::from_vec / from_vec_with_stage"),
      ("stage comparison before unchecked arithmetic", "src/stage.rs IncompatibleStages::test_err"),
      ("stage-aligned flat storage", "src/row/same_stage_vec.rs SameStageVec")],
     ["the bells of every row reachable from any value"],
     [("bells of a row", "a permutation of 0..stage", "src/row/owned.rs bell_vec"),
      ("bells of a buffer", "stage-aligned concatenation of rows", "src/row/same_stage_vec.rs bells")])

prop("C02", "Row construction and parsing accept exactly the valid rows",
     "Building a row from text (ignoring characters that are not bell names) or from a list of bells succeeds exactly when each bell of some stage occurs once, keeping their order; when a stage is given, missing bells above the largest one written are appended as covers. "
     "Any rejection names a problem that is really present in the input (no bells, a duplicated bell, a bell outside the stage, or a bell missing below a written one). "
     "Displaying a row of up to 33 bells and parsing it back gives the same row.",
     ["inputs"], "All strings, all lists of bells and all stages.",
     "Tests parse a few dozen chosen strings; acceptance, rejection reasons and the round trip concern every string and stage.",
     ["src/row/owned.rs", "src/row/errors.rs", "src/bell.rs"],
     [("duplicate/out-of-range checklist", "src/row/owned.rs RowBuf::from_vec"),
      ("cover-bell extension and missing-bell scan", "src/row/owned.rs RowBuf::from_vec_with_stage")])

prop("C03", "Row arithmetic is exactly the arithmetic of permutations",
     "Multiplying, inverting, raising to a power and solving a*x=b or x*a=b agree with composition of permutations for every row, in every form offered (operators, result-returning, writing into an existing row or buffer). "
     "Combining rows of different stages is always reported (an error from fallible forms, a panic from operators) and leaves the destination unchanged. "
     "A destination buffer's previous contents or stage never influence the result.",
     ["inputs"], "All pairs of rows of equal or different stages, all integer exponents in a feasible range, all destinations.",
     "Only a few doc examples exercise multiplication and inversion; powers, solving and the write-into forms are untested.",
     ["src/row/borrowed.rs"],
     [("multiplication", "src/row/borrowed.rs Row::mul_result / mul_into / mul_into_row / Mul impls"),
      ("inversion", "src/row/borrowed.rs Row::inv / inv_into / inv_into_buf / Not impls"),
      ("powers and equations", "src/row/borrowed.rs Row::pow_i / pow_u / solve_ax_equals_b / solve_xa_equals_b")])

prop("C04", "Row parity is the parity of swaps and multiplies across products",
     "The parity of a row is even exactly when an even number of swaps turns it into rounds, so that the parity of a product or inverse of rows is the product of their parities. "
     "Swapping two different places flips it. "
     "Conversions of parities from numbers and to 0/1 or +/- agree with it.",
     ["inputs"], "All rows of every stage, all pairs of rows, all pairs of places, all non-negative integers.",
     "Tests compare five fixed rows with hand-computed parities.",
     ["src/parity.rs", "src/row/borrowed.rs"],
     [("cycle-following swap count", "src/row/borrowed.rs Row::parity"), ("parity algebra", "src/parity.rs Parity")])

prop("C05", "Queries on rows and the standard rows agree with the listed bells",
     "Rounds, backrounds and queens on any stage list the documented bells, and asking a row for its stage, the place of a bell, whether it is rounds or backrounds, its effective stage, its fixed bells, the run off its front, or the result of a swap or of extending or copying it, gives what its list of bells says. "
     "Equality, ordering and hashing of rows depend on the bells alone, whatever owns them (owned, borrowed, reference-counted). "
     "The fast hash differs for any two different rows of one stage up to 16 bells.",
     ["inputs"], "All rows of every stage, all bells (also outside the stage), all places.",
     "These queries have doc examples on one or two 8-bell rows; perfection of the hash is a statement about all pairs of rows.",
     ROW + ["src/utils.rs"],
     [("row queries", "src/row/borrowed.rs Row"), ("standard rows", "src/row/owned.rs RowBuf::rounds / backrounds / queens"),
      ("positional hash", "src/row/borrowed.rs Row::fast_hash"), ("runs", "src/utils.rs run_len")])

prop("C06", "Generated row sets are exactly the group or product they claim",
     "The closure of a row lists each of its powers once, in order of exponent (ending in rounds, or starting from it for the from-rounds form). "
     "The least group containing some rows is exactly the set of their finite products, a set is called a group exactly when it is non-empty and closed under product and inverse, and the product of several sets yields exactly every product of one row from each. "
     "Mixed stages are reported as errors rather than combined.",
     ["inputs"], "All rows; all finite collections of rows (with duplicates, any order, empty, mixed stages).",
     "Tests only cover group recognition on about ten hand-written sets.",
     ["src/row/borrowed.rs"],
     [("closures", "src/row/borrowed.rs Row::closure / closure_from_rounds"),
      ("group generation and test", "src/row/borrowed.rs Row::least_group_containing / is_group"),
      ("set products", "src/row/borrowed.rs Row::multi_cartesian_product")])

prop("C07", "A row buffer behaves as a list of rows of one stage",
     "Whatever sequence of pushes, pops, extensions (whole, ranged, transposed, from itself), pre-multiplications, splits and in-place edits is applied, a row buffer's length, rows, first and last row, lookups, forward and backward iteration (with exact sizes) and bell paths equal those of a plain list of rows given the same operations. "
     "Looking up or splitting at any index past the end finds nothing, and extending by a range that reaches past the end panics. "
     "An operation given rows of another stage returns an error and changes nothing.",
     ["histories", "inputs"], "All operation sequences, all indices up to the largest integer, all ranges, all stages.",
     "Row buffers have no unit tests of their own; only doc examples on three rows.",
     ["src/row/same_stage_vec.rs", "src/utils.rs"],
     [("flat row storage", "src/row/same_stage_vec.rs SameStageVec"), ("iteration", "src/row/same_stage_vec.rs Iter"),
      ("range conversion", "src/row/same_stage_vec.rs to_bell_range, src/utils.rs clamp_range")],
     None, [("bells, stage", "rows stored back to back", "src/row/same_stage_vec.rs")])

prop("C08", "Multi-line row text parses line by line with exact error lines",
     "Parsing text with one row per line yields exactly those rows, for any line endings, with the stage of the first line. "
     "If any line is not a valid row, or has another stage than the first line, an error names the earliest such line by its 1-based number with the true problem; no text, including the empty text, makes parsing panic. "
     "A block parsed from the same text has every line but the last as its rows and the last as its leftover row.",
     ["inputs"], "All strings.",
     "No unit test parses multi-line text at all.",
     ["src/row/same_stage_vec.rs", "src/block.rs"],
     [("line parser", "src/row/same_stage_vec.rs SameStageVec::parse"), ("block parser", "src/block.rs AnnotBlock::parse")])

prop("C09", "A block behaves as annotated rows plus one leftover row",
     "Whatever sequence of construction, extension by another block or part of one, extension from itself, pre-multiplication, splitting and annotation mapping is applied, a block equals a list of (row, annotation) pairs followed by one leftover row. "
     "Each extension appends the chosen rows with their own annotations, transposed as a whole so that they start from the old leftover row and end at the new one. "
     "Lengths, lookups, iterators, bell paths and effective stage all agree with that list, and a stage mismatch changes nothing.",
     ["histories", "inputs"], "All operation sequences over blocks of any stage and length (also empty), all in-range sub-ranges.",
     "No unit test touches blocks.",
     ["src/block.rs", "src/row/same_stage_vec.rs"],
     [("extension", "src/block.rs AnnotBlock::extend / extend_range / extend_from_within"),
      ("splitting and mapping", "src/block.rs AnnotBlock::split / map_annots*"),
      ("one more row than annotations", "src/block.rs AnnotBlock rows/annots")],
     None, [("rows, annots", "rows.len() = annots.len() + 1", "src/block.rs")])

prop("C10", "Repeating a block rings it forever from the given row",
     "Repeating a block that starts from rounds, from any starting row, yields round after round of its rows, each round starting from where the previous one left off, with each row's annotation and index within the block. "
     "Repeating an empty block ends at once, and a starting row of another stage is an error. "
     "The form that reuses a row buffer, and clones of the iterator, yield the same sequence.",
     ["inputs", "histories"], "All blocks starting from rounds, all starting rows, any number of steps, any interleaving of the two ways of stepping.",
     "Block repetition has no tests.",
     ["src/block.rs"],
     [("repeat iterator", "src/block.rs RepeatIter")])

prop("C11", "A place notation's text denotes exactly its places, or is rejected",
     "Parsing one piece of place notation accepts exactly the texts whose places are all within the stage, unrepeated, and leave no ambiguous gap, and fills in the implied places at lead, at lie and between two written places one bell apart; a lone cross is accepted exactly on even stages. "
     "A rejection names a problem really present in the text. "
     "The result is independent of the order the places are written in, and displaying it and parsing it back gives the same notation.",
     ["inputs"], "All strings and all stages.",
     "Tests list about 60 chosen notations; the rules concern every set of places on every stage.",
     ["src/place_not.rs"],
     [("implicit places and ambiguity", "src/place_not.rs PlaceNot::from_sorted_slice"), ("text", "src/place_not.rs PlaceNot::parse, Display")])

prop("C12", "Applying a place notation keeps its places and swaps the other pairs",
     "Applying a place notation to a row leaves the bells in its places where they are and swaps every other pair of neighbours, equally whether applied in place, to a copy, or as a transposition multiplied on the right; applying it twice gives the row back. "
     "The place notation between two rows exists exactly when each bell moves at most one place between them, and applying it to the first row gives the second. "
     "Rows of another stage are refused unchanged, and the reported places, cross and internal-place queries agree with the notation.",
     ["inputs"], "All valid place notations and rows of every stage; all pairs of rows.",
     "Tests check the notation between a few pairs of rows and never the application itself.",
     ["src/place_not.rs"],
     [("permutation by place notation", "src/place_not.rs PlaceNot::permute / permute_new / transposition"),
      ("notation between rows", "src/place_not.rs PlaceNot::pn_between")])

prop("C13", "Place notation blocks expand symmetry and delimiters exactly",
     "Parsing a block of place notation splits it into changes at dots, spaces and crosses, ignores unknown characters, and expands each comma-separated part as a palindrome unless it is the only part or starts with a plus. "
     "Any invalid change, misplaced plus, or absence of changes is an error, and its byte positions delimit exactly the offending text within the input. "
     "Blocks built from lists of changes are accepted exactly when non-empty and of one stage.",
     ["inputs"], "All strings and stages; all lists of changes.",
     "Tests cover a dozen strings and never check reported positions beyond one example.",
     ["src/place_not.rs"],
     [("block splitting and symmetry", "src/place_not.rs PnBlock::parse / parse_asym_block"),
      ("checked construction", "src/place_not.rs PnBlock::from_vec / from_iter")])

prop("C14", "A place notation block generates the rows its changes ring",
     "From any starting row of its stage, a block of place notation generates exactly one more row than it has changes: the starting row, then each row obtained by applying the next change to the previous row. "
     "The block of rows built from it has one (default) annotation per change and the final row left over, and from rounds that leftover row is the product of the changes. "
     "A starting row of another stage is an error.",
     ["inputs"], "All place notation blocks and starting rows.",
     "Row generation is not unit tested.",
     ["src/place_not.rs", "src/block.rs"],
     [("row generation", "src/place_not.rs PnBlock::to_rows / to_block / to_block_from_rounds")])

prop("C15", "A method's plain course repeats its lead until rounds",
     "The plain course of a method consists of its lead rung again and again, each lead starting from the previous lead head, stopping at the first lead head that is rounds; every row carries its index within the lead and that row's label. "
     "The row at any index of the infinite plain course equals the corresponding row of that repetition. "
     "Labels that are set, cleared or placed at construction are reported at exactly the indices they were given.",
     ["inputs", "histories"], "All methods whose lead starts from rounds, all indices, all sequences of label edits.",
     "No test builds a plain course.",
     ["src/method/mod.rs", "src/block.rs"],
     [("plain course", "src/method/mod.rs Method::plain_course / row_in_plain_course"), ("labels", "src/method/mod.rs Method::set_label / label_indices / with_lead_end")])

prop("C16", "Methods are classified as the Framework's definitions prescribe",
     "The class computed for a lead - Principle, Place, Bob, Treble Bob, Delight, Surprise, Treble Place, Alliance or Hybrid, with the Little and Differential flags - is the one that follows from the hunt bells' paths, the working bells' cycles and the internal places by the documented definitions. "
     "It depends only on the rows, so annotations and the way the lead was built do not matter. "
     "Methods built from place notation carry that class.",
     ["inputs"], "All leads starting from rounds made of place-notation changes, on every stage.",
     "The only test needs the network to fetch the Central Council library, and would still cover only methods already rung.",
     ["src/method/class.rs", "src/method/mod.rs"],
     [("classification", "src/method/class.rs classify and helpers"), ("class queries", "src/method/class.rs Class")])

prop("C17", "Method titles and class names follow the standard construction",
     "A generated title is the name, then Jump, Differential, Little and class name as they apply (nothing for Principles, no class word nor Little for Hybrids), then the stage, separated by single spaces with empty parts omitted. "
     "Displaying a full class names every flag and class. "
     "A title exists for every stage, however large.",
     ["inputs"], "All names, all combinations of flags and classes, all stages.",
     "Nothing tests titles.",
     ["src/method/mod.rs", "src/method/class.rs"],
     [("title", "src/method/mod.rs generate_title"), ("class naming", "src/method/class.rs FullClass::fmt_name")])

prop("C18", "Masks match exactly the rows their fixed bells allow",
     "A mask matches precisely the rows of its stage which have its fixed bells in its fixed places. "
     "For masks which some row can match, subset, compatibility, combination, multiplication by rows on either side and conversion to a row or to a pattern all agree with the sets of rows matched. "
     "Fixing a bell succeeds unless it is already fixed elsewhere, and displaying and parsing a mask are inverse.",
     ["inputs", "histories"], "All masks fixing each bell of their stage at most once, of every stage; all rows; all pairs of masks. Masks parsed from text that no row can match (a bell twice, or outside the stage) must not match or produce a row.",
     "Tests check matching of ten pairs and a few products; set-level operations are untested.",
     ["src/mask.rs"],
     [("matching and set operations", "src/mask.rs Mask"), ("products", "src/mask.rs Mul impls")])

prop("C19", "A music pattern matches exactly the rows its elements describe",
     "A pattern of bells, single wildcards and globs matches a row exactly when the row can be divided so that each bell element is that bell, each wildcard is one bell and each glob is any number of bells. "
     "Writing the same pattern with adjacent wildcards and globs in another order or globs repeated yields an equal, normalised pattern. "
     "The places reported for a match are exactly the ascending places of the pattern's bells, and displaying and parsing a pattern are inverse.",
     ["inputs"], "All patterns (also naming bells twice or outside the stage) and all rows.",
     "Tests match about twenty pairs.",
     ["src/music.rs"],
     [("normalisation", "src/music.rs Regex::normalise"), ("matching", "src/music.rs Regex::run_match")])

prop("C20", "The predicted number of matching rows is the true number",
     "The number of rows of a stage reported to match a pattern equals the number of rows of that stage which actually match it, for every pattern and stage. "
     "No answer is given only when the number is too large to represent on the way to computing it. "
     "It never panics.",
     ["inputs"], "All patterns and stages (exhaustively compared against matching every row up to 7 bells).",
     "Four patterns are tested.",
     ["src/music.rs", "src/utils.rs"],
     [("counting formula", "src/music.rs Regex::num_matching_rows"), ("binomials", "src/utils.rs choice")])

prop("C21", "Run patterns match exactly the rows containing such runs",
     "The patterns generated for runs of a given length at the front, at the back, at either end or anywhere match a row of that stage exactly when it has consecutive ascending or descending bells of at least that length there. "
     "No patterns are generated when the length exceeds the stage. "
     "This agrees with the measured length of the run off either end of the row.",
     ["inputs"], "All stages, run lengths of two or more, and rows.",
     "Tests compare one list of generated patterns per form.",
     ["src/music.rs", "src/utils.rs"],
     [("run patterns", "src/music.rs Regex::runs_front / runs_back / all_runs / runs"), ("run length", "src/utils.rs run_len")])

prop("C22", "A method library survives its JSON form; bad JSON is an error",
     "Writing a library to JSON and reading it back gives a library which answers every lookup identically and writes equivalent JSON. "
     "Reading a JSON document yields for each listed method its title (generated when omitted), name, class and place notation. "
     "Any other text, including documents with unknown class ids, zero stages or wrong types, is reported as an error and never panics.",
     ["inputs"], "All libraries (any stages, classes, unicode titles, duplicate titles) and all texts.",
     "Nothing offline tests the library format.",
     ["src/method_lib/lib_serde.rs", "src/method_lib/mod.rs"],
     [("grouped format", "src/method_lib/lib_serde.rs"), ("class ids", "src/method_lib/lib_serde.rs to_class_id / from_class_id")])

prop("C23", "Looking up a method by title finds it, whatever the letter case",
     "A method in a library whose title ends in its stage's name is found by that title in any letter case, with its own title, name, class, stage and the rows of its place notation. "
     "A title that is not in the library is reported as not found, and a stored method whose place notation does not parse is reported with that notation and the parser's error. "
     "Looking up with suggestions returns the same method or error.",
     ["inputs"], "All libraries and all query strings.",
     "The only test that reads a library needs the network.",
     ["src/method_lib/mod.rs"],
     [("lookup", "src/method_lib/mod.rs get_by_title / get_by_title_option"), ("conversion", "src/method_lib/mod.rs CompactMethod::to_method")])

prop("C24", "Suggestions are the closest titles, nearest first",
     "When a title is not found, the suggestions are distinct methods of the library, each paired with the true edit distance between its title and the query ignoring case, sorted nearest first. "
     "There are exactly as many as asked for (or as the library holds, if fewer), and no method left out is nearer than one returned. "
     "Asking for none returns none.",
     ["inputs"], "All libraries, queries and suggestion counts (including zero and more than the library holds).",
     "Suggestions are untested.",
     ["src/method_lib/mod.rs"],
     [("bounded shortlist by edit distance", "src/method_lib/mod.rs generate_suggestions")])

prop("C25", "Serialised bells and stages read back as themselves",
     "Any bell or stage written in a serialisation format, self-describing or not, as a value or as the key of a map, reads back as the same bell or stage. "
     "In human-readable formats they can also be read from their names (stages in any letter case) or numbers. "
     "Anything else - zero, negative numbers, unknown names, wrong types - is an error, never a panic.",
     ["inputs"], "All bells and stages, in JSON text, JSON values, TOML, CBOR and a compact binary format; all other values of those formats.",
     "The serialisation code has no tests.",
     ["src/bell.rs", "src/stage.rs"],
     [("bell (de)serialisation", "src/bell.rs BellVisitor, Serialize"), ("stage (de)serialisation", "src/stage.rs StageVisitor, Serialize")])

prop("C26", "Names, numbers and indices of bells and stages correspond one to one",
     "A bell's index, number, character and displayed name determine each other: the 33 published characters name the first 33 bells and nothing else names a bell, larger bells display as their number in angle brackets, and moving up or down by a number of bells shifts the index by it. "
     "A stage's bell count, displayed name and lower-case name likewise determine each other for the 22 named stages, no other text names a stage, and larger stages display as a number of bells. "
     "A stage lists its bells from treble to tenor, zero-bell stages cannot be made, and order and parity of stages follow the count.",
     ["inputs"], "All characters (exhaustively), all bell indices and stages up to thousands, all strings for stage names.",
     "Doc examples show a handful of names.",
     ["src/bell.rs", "src/stage.rs"],
     [("bell names", "src/bell.rs BELL_NAMES, Bell"), ("stage names", "src/stage.rs Stage::name / from_lower_case_name / Display")])

prop("C27", "A call reports the parts it was made from and its own transposition",
     "A call made from parts reports that notation, location, covered length and block of rows, and its length, stage, effective stage and transposition are those of the block. "
     "A lead-end bob or single made from place notation covers and generates one row per change, sits at the lead end, is written '-' or 's' respectively, and transposes by the product of its changes. "
     "Cloning a call changes none of this.",
     ["inputs"], "All place notation blocks and all blocks of rows.",
     "Calls have no tests.",
     ["src/call.rs"],
     [("call", "src/call.rs Call")])

prop("C28", "No text makes any parser panic, hang or give a self-inconsistent value",
     "Every parser of the library (rows, row lists, blocks, place notations, masks, patterns, method place notation, libraries) terminates without panicking on every text and stage, returning a value or an error which can itself be displayed. "
     "Any value returned can be displayed and queried without panicking and satisfies that type's invariants. "
     "Parsing the same text again gives the same result.",
     ["inputs"], "All strings (arbitrary unicode, any length) and all stages.",
     "Two quickcheck tests feed random unicode to the row parser only, and random unicode rarely contains a bell name.",
     ["src/row/owned.rs", "src/row/same_stage_vec.rs", "src/block.rs", "src/place_not.rs", "src/mask.rs", "src/music.rs", "src/method/mod.rs", "src/method_lib/mod.rs"],
     [("parsers", "RowBuf::parse*, SameStageVec::parse, AnnotBlock::parse, PlaceNot::parse, PnBlock::parse, Mask::parse, Regex::parse, MethodLib::from_json")])

prop("C29", "Mixing stages is always reported with the two stages and changes nothing",
     "Every operation that combines values of two stages reports a mismatch exactly when the stages differ: fallible operations return an error naming both stages, operators panic, and yes/no queries answer no. "
     "After a reported mismatch every operand, and any output argument, has its previous value. "
     "With equal stages no mismatch is ever reported.",
     ["inputs"], "All pairs of operands of equal and of different stages, for every operation with two staged operands.",
     "Tests hold one doc example of a mismatch error.",
     ["src/stage.rs", "src/row/borrowed.rs", "src/row/accumulator.rs", "src/row/same_stage_vec.rs", "src/block.rs", "src/place_not.rs", "src/mask.rs"],
     [("comparison", "src/stage.rs IncompatibleStages::test_err / test_err_opt"), ("into-row errors", "src/row/errors.rs MulIntoError")])

prop("C30", "The downloaded method library is read from its cache and nothing else",
     "When the cache file holds a valid library, asking for the Central Council library returns exactly that library without touching the file. "
     "When the file is missing, unreadable or not a valid library and no download is possible, nothing is returned, no panic occurs and no cache file is created or altered. "
     "When a download then succeeds, the downloaded library is returned and stored, and later requests are answered from the stored copy.",
     ["inputs", "fault_sequences"], "All cache states: absent, valid, empty, truncated, corrupt, not UTF-8, a directory, no cache directory; the network being unreachable, refusing, or serving any document.",
     "The only test of it needs the network and checks classification.",
     ["src/method_lib/mod.rs"],
     [("cache", "src/method_lib/mod.rs cc_lib / load_cc_lib_from_cache / fetch_cc_lib / cache_file_path")])

prop("C31", "A row accumulator equals the product of what it was given",
     "After any sequence of accumulating on the right or left and setting its value, a row accumulator's total is the product of those rows in the right order, starting from its initial value. "
     "A row of another stage is refused with an error (or a panic from the operator) and leaves the total as it was. "
     "Setting the value to a row of another stage makes later products work on that stage.",
     ["histories", "inputs"], "All sequences of accumulator operations with rows of any stage.",
     "The accumulator has no tests; its buffer swapping can only go wrong over several operations.",
     ["src/row/accumulator.rs"],
     [("double-buffered product", "src/row/accumulator.rs RowAccumulator")])

prop("C32", "Equality, hashing and order follow what a value denotes, not how it was made",
     "Two values of a comparable type (rows, buffers of rows, blocks, annotated rows, changes, blocks of changes, masks, patterns, classes, parities, bells, stages) are equal exactly when they denote the same thing, whichever constructors, parsers or sequences of edits produced them, and patterns are equal exactly when their normalised elements are. "
     "Equal values hash alike, so that either finds the other in sets and maps, and a copy is equal to its original. "
     "Bells and stages are ordered by number, and rows place by place.",
     ["inputs", "histories"], "All pairs of values of each type, made in all pairs of ways.",
     "Tests compare values made in one way each, and none hashes anything.",
     ["src/row/same_stage_vec.rs", "src/block.rs", "src/place_not.rs", "src/mask.rs", "src/music.rs", "src/method/class.rs", "src/row/owned.rs", "src/row/borrowed.rs", "src/bell.rs", "src/stage.rs"],
     [("equality and hashing", "the Eq, Hash and Ord implementations of the public types"), ("normal forms", "src/music.rs Regex::normalise; src/place_not.rs implied places")])

prop("C33", "Every iterator yields exactly its own sequence, however it is driven",
     "The iterators over rows of buffers and blocks, annotations, annotated rows, bells of rows and stages, fixed bells, unspecified places of masks, changes of a block and places of a label yield each item of their sequence once and in order, under any mixture of stepping, skipping, searching, copying and finishing, from the front or (where offered) the back. "
     "The size hint always holds, exact lengths are exact after every step, a copy goes on from where it was taken, and an ended iterator stays ended. "
     "The iterator that repeats a block never ends unless the block is empty.",
     ["inputs", "histories"], "All sequences of iterator operations over all collections.",
     "Tests only collect iterators from the front.",
     ["src/row/same_stage_vec.rs", "src/block.rs", "src/row/borrowed.rs", "src/row/owned.rs", "src/stage.rs", "src/mask.rs", "src/place_not.rs", "src/method/mod.rs"],
     [("row iterator", "src/row/same_stage_vec.rs Iter"), ("block iterators", "src/block.rs rows / annots / annot_rows / RepeatIter"), ("other iterators", "fixed_bells, unspecified_places, Stage::bells, label_indices")])

prop("C34", "A touch put together from leads and calls rings exactly the changes written",
     "However a touch is assembled from a method's leads and calls (piece by piece, with snap starts, its first part repeated, its part rung over and over, all its changes written out, or by transposing part and lead heads), the rows are those got by ringing the written changes one after another, with the annotations of their pieces. "
     "Cutting the touch anywhere and joining it again gives it back. "
     "Counting distinct rows, rows matching a pattern, runs, and the paths and changes read back from it agree with those rows.",
     ["inputs", "histories"], "All methods, calls, callings, numbers of parts, starting rows and cutting points.",
     "No test combines methods, calls and blocks.",
     ["src/method/mod.rs", "src/call.rs", "src/block.rs", "src/place_not.rs", "src/row/borrowed.rs", "src/row/accumulator.rs", "src/music.rs"],
     [("assembling", "src/block.rs extend / extend_range / extend_from_within / split / repeat_iter"), ("pieces", "src/method/mod.rs Method; src/call.rs Call"), ("proving", "Hash and Ord of rows; src/music.rs")])

prop("C35", "The text of every error and value tells exactly the data it carries",
     "The displayed text of every error (from rows, masks, changes, place notation, blocks and products) names the bells, stages, places, lengths and positions the error carries, each in its role and order, and no others in their stead. "
     "The debug text of a row, a buffer of rows, a block, a change, a mask or a pattern contains what it holds, in order, as displayed. "
     "A stage's debug text is the name of its constant, and the number of bells where it has none.",
     ["inputs"], "All errors, made directly and by the parsers; all values of the types with debug texts.",
     "Tests compare error values with themselves and never read the texts.",
     ["src/row/errors.rs", "src/place_not.rs", "src/row/same_stage_vec.rs", "src/block.rs", "src/stage.rs", "src/bell.rs", "src/mask.rs", "src/music.rs", "src/row/borrowed.rs", "src/row/owned.rs"],
     [("error texts", "Display of InvalidRowError, IncompatibleStages, ParseError, InvalidPnBlockError, PnBlockParseError"), ("debug texts", "Debug of Row, SameStageVec, Block, PlaceNot, PnBlock, Mask, Stage")])

prop("C36", "The Central Council's XML is read into exactly the methods it lists",
     "With the feature for generating the library, a collection document in the published XML format is read into a library which holds, for each method listed, its title, name and place notation, with the stage and the class and Little and Differential flags (never Jump) of its set, and nothing else, however the document is laid out and whatever other elements it has. "
     "Each method is then found by its title in any letter case, just as in the same library read from JSON. "
     "A set or method lacking one of those parts, or naming no known class or no stage, is refused with a panic rather than read as something else.",
     ["inputs"], "All well-formed collection documents in the documented format, with any methods, order of elements, attributes, spacing, escapes and further elements; any one needed part missing or wrong.",
     "The XML reader has no tests, and isn't even compiled by the tested configuration.",
     ["src/method_lib/parse_cc_lib.rs", "src/method_lib/mod.rs"],
     [("reader", "src/method_lib/parse_cc_lib.rs parse_cc_lib / read_methods / read_properties")])

prop("C37", "Caller's code that fails or changes its answers corrupts nothing",
     "When formatting or serialising into a writer which refuses what it is given, the failure is returned, and what was written until then is a beginning of the full text; a writer with room for everything gets everything. "
     "When cloning an annotation panics while a block is being extended or copied, the block is as before, or extended by a beginning of what was to be added, with each row keeping its own annotation; all its other operations go on working. "
     "An iterator which panics, an iterator whose clones yield different rows, or an item which is a different row each time it is asked, can make a call fail, but never leaves a buffer with a partial or invalid row or one of another stage, and never makes a product or a group out of rows of different stages, nor a group which isn't closed; and a closure which panics while annotations are mapped leaves the original as it was.",
     ["inputs", "histories", "fault_sequences"], "All values and amounts of room; all points at which the caller's code fails or changes its answer, in all histories of such calls.",
     "No test has code of the caller's which fails, or which answers twice differently.",
     ["src/block.rs", "src/row/same_stage_vec.rs", "src/row/borrowed.rs", "src/row/errors.rs", "src/place_not.rs", "src/mask.rs", "src/music.rs", "src/method/class.rs"],
     [("order of effects", "src/block.rs extend_range / extend_from_within; src/row/same_stage_vec.rs extend"), ("unchecked products", "src/row/borrowed.rs least_group_containing / multi_cartesian_product"), ("texts", "Display and Debug of all types")])

prop("C38", "What a call gives depends on its arguments alone",
     "A call gives the same result when it is made again, whatever other calls were made before it, in whatever order, in this process or another, whichever other calls run on other threads at the same time, and whether the crate was built with or without debug assertions and overflow checks. "
     "This holds for parsing, products, powers, parities, groups, place notation, methods and their courses, masks, patterns and counts, libraries and suggestions, names and texts.",
     ["histories", "schedules", "configurations"], "All histories of calls, in all orders, from any number of threads, in debug and release builds.",
     "Tests make each call once, mostly in a thread of its own, and only in debug builds.",
     ["src/row/borrowed.rs", "src/row/owned.rs", "src/place_not.rs", "src/method/mod.rs", "src/method_lib/mod.rs", "src/mask.rs", "src/music.rs", "src/call.rs", "src/block.rs"],
     [("no state shared between calls", "every public function")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
