"""What each check claims, trusts and only bounds (copied into the evidence and, by tools/mkmanifest.py, the manifest)."""
TRUSTED = [
    "the verification condition generator /verif/pyvc (symbolic executor for the Python subset, loop summaries)",
    "z3 and its Python API",
    "the library model /verif/pyvc/lib.py: dict, list, set, queue.Queue, asyncio queues, str, hashlib, lxml elements",
    "Python integers are mathematical integers, floats are real numbers (no rounding, overflow or NaN)",
    "closed world: the classes below rei/ are all the classes there are; no monkey patching, no access to private "
    "attributes from outside, single-threaded execution",
]
PROOF = "contract-based deductive verification: verification conditions from the Python source, discharged by z3"
STANDIN = "bounded stand-in for the contracts: the functions run on generated cases against an independent model"
BASE_NOTE = ("Trusted: the VC generator pyvc, z3, the library model (dict, list, queue, str, hashlib), mathematical "
             "integers and reals, closed world and single-threaded use. A concrete oracle runs beside the proof "
             "for witnesses; it is bounded and not counted as proved. ")
INFO = {
    "C14": {"level": "proof", "note": "All functions of ValueNode under contract, for all states and arguments."},
    "C16": {"level": "proof", "note": "Generator, factory and element identification under contract, for all names, "
                                      "contexts, clock times and earlier histories. SHA3-224 itself is trusted."},
}
_PC = ("Partial correctness: that loops and traversals end is not proved. Removal generators are taken to be consumed without "
       "other operations in between.")
INFO.update({
    "C01": {"level": "proof", "note": "Class invariant over all elements (children by identifier and by name, counts, parents) "
            "shown for every mutating operation of every element kind, for all hierarchies. " + _PC},
    "C02": {"level": "proof", "note": "Depth and qualified name of every element equal the tree functions DEP and PATH after every "
            "mutating operation, by contracts and induction lemmas. " + _PC},
    "C03": {"level": "proof", "note": "Every raising outcome of every operation leaves the whole heap as it was; acyclicity is an "
            "invariant. " + _PC},
    "C04": {"level": "proof", "note": "Ordinal invariant (ordinals below the history count, dictionary order is ordinal order) and "
            "exact ordinals in the contract of addition. " + _PC},
    "C06": {"level": "proof", "note": "Removal by identifier, by name and by both, for every element kind, and the operations built on "
            "it take out exactly what matches and frame everything else. " + _PC},
})
INFO.update({
    "C07": {"level": "proof", "note": "Both searches under contract after any history of earlier searches (any cache of elements, any left-over "
            "sets and results), for every start and name: soundness, uniqueness and completeness; that the searches end is not proved. "
            "The shared default queue is assumed to be empty at the start (finding C07-shared-fringe). " + _PC},
    "C05": {"level": "proof", "note": "Lookup by a path of names under contract for every kind of element and every path, over "
            "inductively defined sets of reached elements. " + _PC},
    "C10": {"level": "proof", "note": "unary_connect (with and without semantic value), the four connecting factory functions "
            "with loop invariants over all lists, and the reads of relations, directions, incidences and induced subset. " + _PC},
})
INFO.update({
    "C19": {"level": "proof", "note": "The factory for all type names, attributes, values and parents (by the contract of addition), every "
            "constructor, and reading, setting and removing attributes. str.lower is taken to commute with stripping blanks and "
            "removing underscores. " + _PC},
})
INFO.update({
    "C15": {"level": "proof", "note": "Both subset factorizations under contract for all selections of attached elements (exact pairs, "
            "order, self loops); the factorization of a whole graph (Factorization2Operation, worklist) is bounded only. " + _PC,
            "bounded": ["Factorization2Operation.execute: generated graphs of up to 6 nodes and 4 edges"]},
})
INFO.update({
    "C08": {"level": "proof", "note": "All four traversals under contract, from construction on, for all hierarchies, filters, depth "
            "limits, root options and starts: visits exactly the reached elements once, parents first, ascending distance or whole subtrees "
            "first, results in visiting order, and nothing else is changed. Visitors are taken not to edit the hierarchy while it is "
            "traversed and not to raise. " + _PC},
})
INFO.update({
    "C09": {"level": "proof", "note": "Indexing and restoring under contract, from any state earlier operations may have left, through the "
            "contract of the traversals: both mappings, their inverses and the counts, for all graphs, depths and stored numberings. "
            "Identifiers of the indexed elements are taken to be distinct. " + _PC},
})
INFO.update({
    "C18": {"level": "proof", "note": "A query, from construction on and after any earlier executions, through the contract of the "
            "traversals: exactly the matches in breadth-first order, nothing left over; the engine, through the contract of the queries: "
            "results in order of registration, register unchanged, registration and clearing. Registered queries are taken to be "
            "different objects, executions not to overlap; gathered coroutines run in order because they never wait. " + _PC},
})
INFO.update({
    "C12": {"level": "proof", "note": "Degrees, degree matrix and trace, total degree, diagonal degree tensor, Laplacian and projected "
            "Laplacian for tensors of all sizes and contents, over the real numbers instead of floating point. numpy is trusted "
            "through the array model pyvc/nd.py. "},
})
INFO.update({
    "C11": {"level": "proof", "note": "From the graph to the three tensors, for all graphs whose edges connect direct nodes, with the default "
            "depth of 1: the incidence values of relations, the numbering, the norm, the traversal of relations (exactly the pairs of every "
            "relation that says so), the filling of the arrays and their composition. Identifiers are taken to be distinct, weights to be "
            "lists of real numbers, direct numbering objects with the same value to be identical when taken from the mapping. " + _PC,
            "bounded": ["greater depths of representation: generated graphs"]},
})
INFO.update({
    "C17": {"level": "proof", "note": "Solids, their geometry, collision and visual elements, inertia, poses, joints and links (name and "
            "pose) under contract, for all values (as real numbers), names, prefixes and attributes, over the contract of get_subelements. "
            "Elements carry well-formed attributes, at most one pose per joint and link, no ports at links and geometry nodes. "
            "Which groups become visual or collision elements and the assembly of a model are bounded only. " + _PC,
            "bounded": ["encode_geometry_element (grouping) and CognilangSdfIcon.encode: generated links with up to 2 groups of 2 solids"]},
})
INFO.update({
    "C13": {"level": "proof", "note": "The lists of nodes, edges, relations and values, the tensor part, whole messages and update messages, "
            "the refresh of the encoder, applying an update, decoding and the constructors decoding relies on are under contract, for all "
            "graphs. Decoding takes a message with the form these contracts give a message of a graph (distinct identifiers, the context "
            "first, parents and endpoints in the message); that encoding and decoding compose is the match of these contracts, argued and "
            "not itself discharged. cbor2 is taken to give back lists, texts, bytes and numbers as they were. " + _PC,
            "bounded": ["the composition of encoding and decoding, and histories of updates: generated graphs"]},
})
for _i in range(1, 20):
    _p = "C%02d" % _i
    INFO.setdefault(_p, {"level": "exploration", "note": "Bounded: no contract of this property is discharged yet; the real "
                         "code runs on generated cases against an independent model."})


def technique(p):
    return PROOF if INFO[p]["level"] == "proof" else INFO[p].get("technique", STANDIN)
