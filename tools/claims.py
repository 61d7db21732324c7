PANIC="abstract interpretation of go/ssa: panic obligations discharged with inferred invariants (Houdini) and linear arithmetic; nil-source search"
PNOTE="Every panicking instruction reachable from the entry points is an obligation that is proved from dominating facts, or reported. Assumes tree-shaped values, no nil receivers, trusted dependency; nil dereferences are reported only with a source of nil that reaches them."
CLAIMS={
"C01":(PANIC,PNOTE),
"C03":(PANIC,PNOTE),
"C04":(PANIC,PNOTE+" What package reflect demands of its callers (CanSet, CanInterface, the kind a method needs, Elem of a pointer) and nil pointers or maps found by a type switch on the argument are not judged."),
"C02":("loop-variant and recursion analysis over go/ssa: ranking measures discharged with inferred invariants and linear arithmetic","Every loop reachable from a decode entry point needs a bounded, strictly decreasing measure (lexicographic, inferred) and every recursive decode strictly smaller input; loops inside the trusted dependency and the standard library are assumed to end."),
"C05":("abstract interpretation of go/ssa: relation between the value and the error result proved at every return","Every return of every function that builds a value from bytes or a file; assumes the dependency and standard library keep their own contracts."),
"C06":("path-sensitive error-flow (typestate) analysis over go/ssa","Every call that can fail, in every function reachable from a decode or file entry point: on no path with a non-nil error may the caller-visible error be nil. Deliberate attempts (a parse tried before a fallback) are recognised by a successful alternative result."),
"C07":("interprocedural taint analysis over go/ssa with constant-propagated options","No store of memory that may be the input's into a tree field when sharing is off; context-sensitive in the options, field-based in the heap."),
"C09":("path-sensitive alias/ownership dataflow over go/ssa with interprocedural requirements","Every write to a value's memory is on paths where the value is known not to be one of the shared constants (or the function's callers guarantee it); every write to package state is by a documented configuration call or initialiser."),
"C18":("path-sensitive interprocedural typestate dataflow over go/ssa (escape state of an object's keys)","Every read, comparison, copy, store and print of a member key is on paths where the object is marked as the use requires; callbacks are assumed not to change the tree they visit."),
"C20":("path-sensitive typestate dataflow over go/ssa (value type vs. payload representation)","Every typed read of the payload, and every typed write at function exit, is on paths where the type tag has that representation; double and time share one representation."),
"C23":("path-sensitive typestate dataflow over go/ssa (file handles: mode, content written, closed)","Every os.OpenFile/Create/Open/ReadFile/WriteFile in the module: the handle's mode permits the operations made on it, the whole content is written, every path to a return closes it, readers return only after the end of the file was reached with the buffer intact."),
"C24":("interprocedural value-flow analysis over go/ssa (from number parsers to the stored payload), with the scanner's byte classes evaluated for all 256 bytes","Every conversion of text to a number reachable from a JSON or YAML decode entry: bit size, no narrowing conversion before the store, no store of an untested result, and the scanned token reaches the parser whole."),
"C12":("path-sensitive relational dataflow over go/ssa (which parts of the two values are known to be equal or different at each return)","Every return of the comparison: true only when, for every type the two values may have there, that type's content was compared, including both lengths and every element (loop coverage proved from its bounds); false only after a difference."),
"C19":("path-sensitive dataflow over go/ssa (member located / absent / default), with loop coverage of the searches","Every getter taking a default and every lookup: on paths where the member was found its conversion is returned, the default only where it is known to be missing; searches cover every member, and getters are free of writes other than unescaping."),
"C11":("path-sensitive ownership/completeness dataflow over go/ssa (what of the source has been taken over into the copy, and which memory is the same)","Clone, CopyFrom, AddFrom and every recursive copier they use: at every return, for every type the source may have, its type and content were taken over, by copies; loop coverage proved from the bounds; elements must themselves be copied, nil, or one of the constants."),
"C10":("path-sensitive typestate dataflow over go/ssa (fields written since an object was taken up; objects given back), with release summaries","Every function that lengthens a slice of values or members into old memory, resets a value, or gets from or puts into a pool: on every path all fields are overwritten (by the function, its callees or all of its callers), nothing is used or released again after its release, and a cache belongs to one value."),
"C21":("path-sensitive dataflow over go/ssa (what becomes of the member or element at hand in each round of the merge), with loop coverage","Every round of the merging loops reachable from MergeWith: the member or element ends up added, merged, combined, replaced or kept exactly as its presence, its type and the callback's answer demand; the pieces of the callback's path are tracked. That the source's keys are unescaped first is C18's."),
"C08":("path-sensitive ownership dataflow over go/ssa (origin and offset of every write into byte memory), with taint analysis of the fields that may hold caller buffers","Every write to byte memory (element store, copy, append, library writer, callee that writes into a parameter): memory of an exported function's parameter is written only behind its entry length, memory read from a field that may hold a caller's buffer only where the path knows it to be freshly made, the memory of a string never. Writes whose place cannot be related to the entry length are not reported."),
"C13":("path-sensitive bit- and slice-provenance dataflow over go/ssa, once per lead byte, against the MsgPack specification","Each function that decodes an item, for each of the 256 lead bytes (764 cases with further type, length and key bytes): on every successful path the value's type, every bit of its number (which bit of which input byte), the piece of the input that is its content, the number of elements, where the first element and key are read and what is handed back as the rest. Content computed in ways the bit terms do not express is not judged; keys after the first are not pinned."),
"C14":("path-sensitive provenance dataflow of the bytes written (go/ssa, once per type of value), read back by the MsgPack specification","Each function that writes a value as MsgPack, for each type of value and none: on every path the bytes appended, as terms over the bits of the value's number, time, lengths and text, are one item of the type's own kind; numbers and times are bit for bit the value's (with what the path says about their range), lengths are the bytes that follow, counts the rounds of the loop, each of which writes one item. Bytes written by loops over shifts and other forms the terms do not express are counted, not judged; lengths of 2^32 and more are outside."),
"C15":("path-sensitive provenance dataflow of the bytes written and of the bytes read (go/ssa, once per type of value and per element type), both against the BSON specification","Writing: for each root and each type of element and none, on every path each element is the type byte, the key with its terminator and a payload of the kind, width and byte order that the type byte announces, its bits those of the value's number or time under what the path says about their range, its length prefix the bytes that follow; each document is its length, all of its elements in order and the terminator; nested values go to the writer of their kind. Reading: for each of the 256 element types (and subtypes) the value's type, content, mark and the bytes consumed are those of the specification, and unsupported types fail. Where a reader finds the next element (key scan, position in the document) is C01's bounds rule, not judged here."),
"C16":("pushdown-automaton (JSON grammar) dataflow over the output slices, per type of value, path-sensitive (go/ssa)","For each root that writes JSON and each type of value, what is appended on every path is read by a JSON automaton that the output slice carries in place of its bytes (open brackets and what may follow; nested values are one value, the loop's head holds the states of all rounds): each return has read exactly one complete value whose kind of token fits the type; texts are escaped exactly if the value's mark and the style ask for it; floating-point numbers are digits only where the path excludes NaN and both infinities; loops over members and elements write in each round and cover the container. Paths on which a slice is cut or overwritten are not judged (counted in the evidence)."),
"C22":("path-sensitive effect comparison over go/ssa (the setters of any Go value run per Go type and per kind of reflection)","Every Go type that a setter's type switch tells apart, nil pointers and both Booleans, and every kind (and kind of member) of the types taken by reflection: the type of value stored, its content as a term over the Go value, and the members with their keys are the same for the root, under a key and at an index; loops over the Go value go through all of it, each element at its own index. What the setters of one type of content do (SetInt, ...) and the conversion of reflect are taken as given; effects the terms do not express are not compared."),
"C17":("path-sensitive dataflow over go/ssa (which parts of the value are still the old ones), run once per type of value before, with summaries of the readers","Each function that decodes bytes into a value it is given, for each of the types that value may have had: on each successful path for a document that is not empty, the type and every part that the new type shows (members, elements, number, text, bytes, extension type, mark of unescaped keys) was replaced, and the type does not depend on the type before. For YAML: a parse that finds nothing to store must have the type set before it. What the builder rejects behind a document the loader rejects. That the content stored is the one a new value would get is C12-C15, C20 and C24; paths whose states were joined (mostly BSON) are counted and not judged; a loader that builds a new value and copies it is not judged."),
}
NOT_APPLICABLE={
"C25":"equality of the printed text after parse and print is a relation between two runs of two programs over unbounded text; the static rules in reach decide the parts (C12, C18, C20, C21 and the escaping rules), not that the composition is the identity on every document",
"C26":"what a YAML text means depends on an unbounded history of indentation kept in a stack: no static abstraction in reach relates that stack to the tree of a conforming parser, and an independent parser run on documents would be a test",
"C27":"times are kept as a float64 count of days, so whether an instant survives to the resolution of a format is a question about rounding in floating-point arithmetic; dataflow over bits has no term for it (the bit layout of the formats themselves is C13, C14)",
}
