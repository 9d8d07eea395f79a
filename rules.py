"""What each check generates, what counts as non-trivial, and how many cases the quick tier runs."""
CFG = " Each case runs in one of five library configurations (default gets half of them)."
LEVEL = {"C18": "fault_enumeration", "C19": "fault_enumeration"}
ASSUMPTIONS = [
    "inputs are finite doubles; primary points are below the number of points and type labels below the number of types (the library documents neither as checked)",
    "library built from /repo's working tree with gcc -O1 and address/undefined sanitizers; malloc family wrapped",
]
RULES = {
    "C01": dict(quick=1000000, rule="Random data (12 shapes, ties and duplicates included, n up to 700) x options (all seed, unassigned and radius methods, types, primary subsets, batch sizes) x label storage; oracle: label range, all labels used, sizes. Non-trivial: OK with at least two clusters. One case in 5000 has 66000 to 150000 points on a line, answered by a fast back end (in some of them the size constraint exceeds 65536)." + CFG),
    "C02": dict(quick=700000, rule="As C01 with type constraints always on (2..60 types, zero entries, vectors using up the size); oracle: per cluster and type counts. Non-trivial: OK, at least two clusters and a non-zero constraint. One case in 5000 has 66000 to 150000 points on a line, answered by a fast back end (in some of them the size constraint exceeds 65536)." + CFG),
    "C03": dict(quick=500000, rule="Pairs, now and then with thousands of points (seed clusters with IGNORE/IGNORE, full options) on the same data; oracle: set of allowed outcomes per point from a brute-force model, tolerant to ties. Non-trivial: at least one leftover point. One case in 5000 has 66000 to 150000 points on a line, answered by a fast back end (in some of them the size constraint exceeds 65536)." + CFG),
    "C04": dict(quick=500000, rule="As C03, plus 1-D problems with more than 1000 seed clusters; oracle: distance from each point to its seed (or the seed-cluster members) against the applicable radius recomputed by brute force. Non-trivial: a seed radius or a finite assignment radius was in force. One case in 5000 has 66000 to 150000 points on a line, answered by a fast back end (in some of them the size constraint exceeds 65536)." + CFG),
    "C05": dict(quick=1100000, rule="Seed clusters only; oracle: each cluster is some member with its nearest neighbours, no further eligible point, exact lexical simulation on tie-free data. Non-trivial: at least two clusters. One case in 5000 has 66000 to 150000 points on a line, answered by a fast back end (in some of them the size constraint exceeds 65536)." + CFG),
    "C06": dict(quick=1400000, rule="Tie-free data, all six seed methods; oracle: replay of the picks, each must be minimal among eligible points in the method's order; internal seed finder on random digraphs as well. Non-trivial: at least two picks. One case in 5000 has 66000 to 150000 points on a line, answered by a fast back end (in some of them the size constraint exceeds 65536)." + CFG),
    "C07": dict(quick=500000, rule="As C03, plus 1-D problems with more than 1000 seed clusters; oracle: seed clusters unchanged and each leftover's label in the brute-force set of allowed clusters. Non-trivial: at least one leftover point was assigned and there are two or more clusters. One case in 5000 has 66000 to 150000 points on a line, answered by a fast back end (in some of them the size constraint exceeds 65536)." + CFG),
    "C08": dict(quick=1500000, rule="Unconstrained clusterings that assign all points; oracle: largest within-cluster distance against the documented multiple of the bottleneck. A sixth of the data is spaced (nearly) evenly, where the bound is tight, one case in 1000 with 250 to 1250 points. Non-trivial: at least two clusters and a positive within-cluster distance." + CFG),
    "C09": dict(quick=800000, rule="Batches with five batch sizes per case; metamorphic comparison between them, with lexical and with the IGNORE run. Non-trivial: OK with at least two clusters. One case in 5000 has 66000 to 150000 points on a line, answered by a fast back end (in some of them the size constraint exceeds 65536)." + CFG),
    "C10": dict(quick=500000, rule="Hierarchical clustering from scratch, n up to 700, identical points included, both assignment modes and storages; oracle: sizes in [s, 2s-1], labels 0..K-1, all points assigned. Geometric chains (deep splitting) and, one case in 10000, lines of more than 66000 points, half of these with size constraints above 2^15 or 2^16. Non-trivial: at least two clusters." + CFG),
    "C11": dict(quick=900000, rule="Random existing labellings (largest cluster first, last, inside; empty clusters; unassigned points) refined; oracle: partition relation between input and output. One case in 5000 has more than 2^16 clusters. Non-trivial: an input cluster had to be split." + CFG),
    "C12": dict(quick=600000, rule="Recursively nested well-separated groups (one case in 1000 with up to 4000 points, one in 20000 with 66000) built by construction and shuffled; a third of them as one cluster of an existing clustering with other points in between; oracle: no cluster mixes groups. Non-trivial: at least one separation to respect." + CFG),
    "C13": dict(quick=2000000, rule="Random labellings, valid ones mutated at one place, clustering results; oracle: direct evaluation of the definition. Non-trivial: every case with an accepted call; verdicts are counted as classes." + CFG),
    "C14": dict(quick=1500000, rule="Random labellings and clustering results on random data; oracle: direct evaluation of the definitions in long double. Non-trivial: at least two populated clusters, one of them with two or more members." + CFG),
    "C15": dict(quick=1800000, rule="Problems near the edge of feasibility (radius, type counts, primary subsets, estimated radius zero); oracle: brute-force feasibility. Non-trivial: every case; the reasons for the expected status are counted as classes." + CFG),
    "C16": dict(quick=1000000, rule="A valid call with exactly one fault out of a catalogue of about ninety (arguments, options, objects, sizes beyond the types); oracle: expected error class, unchanged objects and arrays, null constructors. Non-trivial: every case (the same call without the fault is run too and must be accepted)." + CFG),
    "C17": dict(quick=350000, rule="Random histories of public calls on up to four clusterings and two data sets, run twice with different heap fill under sanitizers with asserts (two configurations); oracle: no report, no leak, same log. Non-trivial: at least three computing calls succeeded." + CFG),
    "C18": dict(quick=120000, rule="One public call on random input; every allocation index of it fails singly and from there on (up to 60 indices spread evenly). One case in 4000 asks for a buffer of more than 2^32 elements. Oracle: status, state, leak counter, rerun. Non-trivial: at least one injected failure made the call fail." + CFG),
    "C19": dict(quick=250000, rule="One public call on a user back end; every callback index fails singly and from there on, with and without junk in its outputs. Oracle: status, open objects, leak counter, state, rerun. Non-trivial: at least one injected failure made the call fail." + CFG),
    "C20": dict(quick=1000000, rule="User back ends (Euclid, L1, Linf; three tie rules) behind an unreadable handle; oracle: equality with the built-ins on tie-free data, validity for the metric otherwise, contract monitor; histories of installing whole, partial and subset groups of functions and resetting. Non-trivial: a clustering with at least two clusters went through the back end, or a partial or subset install was compared with the built-ins." + CFG),
    "C21": dict(quick=2500000, rule="Internal distance entry points (one case in 10000 with more than 2^16 points) with random explicit or implicit index lists, dimensions 1..300, radii hitting distances exactly; oracle: brute force. Non-trivial: at least two search points and two queries (matrix: more than two points)." + CFG),
    "C22": dict(quick=60000, rule="A computation repeated in fresh objects, after unrelated histories, with other heap fill and other storage, after the same shape of other data at the same addresses (half the cases with immediate reuse of freed blocks) or refilled in place; metamorphic equality; inputs compared byte for byte. Non-trivial: the computation produced at least two clusters." + CFG),
    "C23": dict(quick=350000, rule="Random histories on clustering objects against a value model, every object re-read after every step. Non-trivial: a computing call succeeded and a copy was made." + CFG),
    "C24": dict(quick=450000, rule="Integer data under translation, axis permutation, reflection, constant coordinates and power-of-two scaling with radii; metamorphic equality of labels and statistics. Non-trivial: at least two clusters." + CFG),
    "C25": dict(quick=250000, rule="The same problem in all five configurations; differential equality of status, labels, checker verdict and statistics. Non-trivial: at least two clusters." + CFG),
    "C27": dict(quick=900000, rule="Hierarchical clustering from scratch and refinement on data whose distances all differ (n up to 300, now and then 1500), both assignment modes; oracle: search for a tree of two-centre splits around mutually farthest points that gives the result. Non-trivial: at least one split." + CFG),
    "C28": dict(quick=900000, rule="Default options plus size constraint and random subsets of further fields against fully spelled-out options; untouched defaults. Oracle: same result; unrestricted ones assign every point and pass the checker. Non-trivial: at least two clusters." + CFG),
    "C29": dict(quick=200000, rule="The ANN search functions of the examples against the built-in search on random data (n up to 1500) and options; oracle: equality on tie-free data, validity and the brute-force model otherwise, arrays returned, built-ins back after a reset. Non-trivial: at least two clusters." + CFG),
    "C30": dict(quick=1000000, rule="A problem described in two ways (restrictions that restrict nothing, spelled-out references, settings that are not looked at, renamed or divided types); metamorphic equality. Non-trivial: a change was made and there are at least two clusters." + CFG),
    "C26": dict(quick=2000000, rule="Failing calls in random histories, latest error read with random buffer lengths; oracle: text is a function of the failing call, differs between classes, prefix under truncation. Non-trivial: at least two failures of different classes." + CFG),
}
