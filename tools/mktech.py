"""Source of techniques.json."""
import json, os
S = "stateful property-based testing (random operation histories against a model, shrunk)"
R = "property-based testing against an independent reference model"
RE = "property-based testing against an independent reference model, plus exhaustive small cases"
D = "property-based testing: round trips and differential oracles over structured generators"
T = {
 "C01": (S.replace("a model", "an invariant"), "Histories of up to 40 (some 250) safe calls over pools of rows, buffers, blocks and accumulators; after each call, also one which failed or panicked, every reachable row must be a permutation. Memory corruption shows as an invalid row or a crash of the child process, which is attributed to its case. Stages at the edges of bytes and machine words (to 300) have a facet of their own."),
 "C02": (RE, "Every list of up to 5 bells on every small stage; random lists and texts up to 48 bells; acceptance and rows from a set model, rejections judged by whether the reported problem is present."),
 "C03": (RE, "Every pair of rows up to 4 bells; random rows up to 48 bells with exponents up to the largest integers; composition, inverse and power computed independently."),
 "C04": (RE, "Every row up to 7 bells; parity by counting inversions; products, inverses and swaps of random rows."),
 "C05": (RE, "Standard rows on every stage to 400; every row up to 6 bells; hashes of all rows of up to 8 bells distinct; random rows and pairs beyond."),
 "C06": (RE, "Every closure up to 6 bells, every set of rows of 3 bells as a group; random generating sets with groups closed by a naive model."),
 "C07": (S, "Histories of up to 14 (some 80) operations on row buffers of up to 300 rows (stages rarely to 300) against Vec<Vec<usize>>, every observer compared after each one."),
 "C08": (RE, "Every text of up to 6 characters of a small alphabet; random multi-line texts (some of 300 lines) with mixed line endings, characters which end lines elsewhere (form feeds, U+2028 …), faults and stages."),
 "C09": (S, "Histories of up to 10 (some 60) operations on blocks of up to 300 rows (stages rarely to 300) against a list of annotated rows and a leftover row."),
 "C10": (S, "Random blocks and starting rows, both ways of stepping interleaved, clones compared, against a direct simulation."),
 "C11": (RE, "Every set of written places on stages up to 12; random texts with noise, order and faults; places denoted computed by a separate model, rejections judged by truth."),
 "C12": (RE, "Every change on up to 14 bells, every pair of rows up to 5; random rows up to 48 bells; changes of some hundreds of places."),
 "C13": (RE, "Every text of up to 5 characters of the notation's alphabet; random structured texts with faults; separate tokeniser and expander; error positions judged by what stands there."),
 "C14": (R, "Random blocks of up to 24 (some 300) changes and starting rows, stages to 300, against row-by-row simulation."),
 "C15": (S, "Random methods with random label edits; plain courses (up to 200,000 rows) and indexed rows against repetition of the lead."),
 "C16": (RE, "Every lead of up to a few changes on up to 6 bells and random palindromic and other leads to 12 (some 24) bells, against a classifier written from the Framework's definitions; well-known methods as anchors."),
 "C17": (RE, "Every class with every flag on stages to 40, random names, huge stages; titles assembled by a separate model."),
 "C18": (RE, "Every pair of masks up to 4 bells judged by the sets of rows they match (all rows listed); random masks to 48 bells by a map model; histories of fixing; text."),
 "C19": (RE, "Every pattern of up to 5 elements over 3 bells against every row; random related patterns and rows; matching by dynamic programming."),
 "C20": (RE, "Counts compared with matching every row (up to 7 bells) and with an independently derived formula in 128-bit arithmetic; boundaries of representability; patterns of up to 270 globs."),
 "C21": (RE, "Every row up to 7 bells with every length; random rows with runs planted to 24 bells."),
 "C22": (D, "Random libraries written, read and written again; JSON in grouped form checked against a separate reader; documents with misplaced values and arbitrary damaged text must be errors exactly when invalid."),
 "C23": (R, "Random libraries and queries (recased, altered, unrelated); answers predicted from the list of methods."),
 "C24": (R, "Random libraries of similar titles (some of 400), asked for up to 400 suggestions; distances by a textbook edit-distance table; ordering, count and optimality judged on sets, so ties are free."),
 "C25": (D, "Random values in JSON text, JSON values, TOML, CBOR, RON and bincode, as values, fields, and map keys; arbitrary values of those formats against a decision table."),
 "C26": (RE, "All 1,114,112 code points; every stage to 120; names with letters changed, dropped and added, invisible ones at their ends; random indices to the largest integers."),
 "C27": (R, "Random place notation and blocks; every getter against the parts given."),
 "C28": ("fuzzing: structure-aware mutation of texts through every parser, with invariant oracles", "Every text of up to 3 meaningful characters, random damaged documents, arbitrary unicode, texts up to 60 kB, and (parsing and displaying only) of a megabyte or more; crashes, hangs (90 s) and runaway memory of the child process are attributed to their case. Two texts-to-masks findings are listed."),
 "C29": ("property-based testing: error and unchanged-state oracles over every two-stage operation", "Every triple of stages up to 9 and random ones to 300 through some 60 operations."),
 "C30": ("property-based testing with fault injection (in-process proxy, cache states)", "Random histories over cache states (absent, valid, damaged, directory, unreadable) and network behaviours (refused, broken, garbage, valid), in a scratch cache."),
 "C31": (S, "Histories of up to 16 (some 300) operations with rows of several stages against a product computed separately."),
 "C32": (D, "Random pairs of values (equal, nearly equal) of eleven kinds, each made in up to a dozen ways; equality, hashes, set and map lookups and order against equality of the plain data."),
 "C33": (S.replace("reference", "deque"), "Sixteen iterators, each driven through up to 10 random operations (both ends where offered) and 18 ways of finishing, over up to 300 rows, against a deque."),
 "C34": (D, "Random methods (leads to 140 changes), bobs, singles, callings and parts on 1 to 65 (rarely 257) bells; six ways of assembling the rows, cutting, proving and counting music against a direct simulation."),
 "C35": (R, "Errors with arbitrary data and errors from damaged texts; the data each carries must occur in its text, in order. Debug texts of values on up to 300 bells likewise."),
 "C37": ("property-based testing with fault injection (writers, clones, iterators and closures which fail or change at a random call)", "Texts of all types into writers of every room; histories of up to 6 block operations whose annotations fail to clone at a chosen call; buffers, products and groups from items and iterators which change."),
 "C38": ("stateful property-based testing (random histories of calls; metamorphic: repeated, reordered in another process, concurrent)", "Histories of up to 70 calls of 30 kinds with easily confused arguments, made twice in order, once in the opposite order by another process of a release build, and by three threads at once; all results must agree."),
 "C36": (D, "Random libraries of up to 300 methods written as XML in random layouts, with escapes, CDATA sections and foreign elements, against the same library's data and its JSON form; damaged documents must be refused."),
}
out = {"default": {"technique": R, "note": "Generated cases against an independent model."}}
for k, (t, n) in T.items():
    out[k] = {"technique": t, "note": n + " Bounded by its generators: exploration, not proof."}
json.dump(out, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "techniques.json"), "w"), indent=1)
