#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
V = "varlen/src/"
M = "varlen_macro/src/lib.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

p("C01", "Safe use of the library never causes undefined behaviour",
  "No program that uses only the safe API (constructing, reading, mutating, cloning, moving, iterating and dropping variable-length objects in boxes, sequences and arenas, also when user code panics) ever performs an out-of-bounds, misaligned, uninitialized, dangling or aliasing-violating memory access, a double or mismatched free, or an invalid allocator call.",
  ["inputs", "histories", "programs"],
  "All element types (any size, alignment up to and beyond 64, zero-sized, with or without destructors), all initializers, all sequences of safe operations.",
  "The tests run a handful of small well-aligned values without any memory checker; undefined behaviour usually leaves the asserted values intact.",
  [V+"seq.rs", V+"vbox.rs", V+"owned.rs", V+"macro_support.rs", V+"array.rs", V+"array_init.rs", V+"tuple.rs", V+"lib.rs", M],
  [("capacity and offset arithmetic of the flat buffer", V+"seq.rs: try_push, try_realloc, grow_storage"),
   ("cautious versus fast layout computation", V+"macro_support.rs: cat_field_*, cat_array_field_*"),
   ("pinned access to tails through computed offsets", V+"macro_support.rs: ref_field, mut_field, ref_array, mut_array")],
  ["Miri (Tree Borrows) diagnostics", "AddressSanitizer reports", "canaries and layout checks of a monitoring global allocator"],
  [("capacity_offsets / occupied_offsets", "extent of the sequence storage in units of the alignment", V+"seq.rs: Seq")])

p("C02", "What is stored is what is read back",
  "Every value handed to any container through any initializer is read back unchanged, field by field and element by element, through every accessor (deref, refs, muts, iteration, offset access), and stays so under all later operations that do not mutate it, including growth of a sequence and moves between boxes, sequences and arenas.",
  ["inputs", "histories"],
  "All values of all supported type shapes (fixed-length, arrays, strings with each length type, tuples of 2 to 5, user structs, nested combinations), all initializers, all containers and all histories of moves between them.",
  "Tests check a few literal values per type; neither lengths at the representation boundaries nor combinations of type, initializer and container are sampled.",
  [V+"lib.rs", V+"array.rs", V+"array_init.rs", V+"tuple.rs", V+"str.rs", V+"seq.rs", V+"vbox.rs", V+"owned.rs", M],
  [("initialize writes header and tail", "Initializer::initialize implementations"), ("refs/muts recompute the offsets", "calculate_layout implementations")],
  ["values returned by accessors, compared with an executable model"])

p("C03", "Every contained value is dropped exactly once",
  "Every user value that enters a box, sequence, arena handle or iterator over owned elements is dropped exactly once: when its owner is dropped or it is overwritten, never before, never twice, and, unless it was explicitly leaked or forgotten, never not at all. This includes every field of composite types, zero-sized values, and the values that cloning and replacement create.",
  ["histories", "inputs"],
  "All type shapes whose parts have destructors in any position, all containers, all ways of disposing of them (drop, partial consumption, transfer, raw round trip, overwrite).",
  "Tests count drops in two or three places only; missing or repeated drops of other shapes are invisible to them.",
  [V+"lib.rs", V+"macro_support.rs", V+"tuple.rs", V+"array.rs", V+"newtype.rs", V+"seq.rs", V+"vbox.rs", V+"owned.rs", M],
  [("vdrop implementations and the NEEDS_VDROP shortcut", "VarLen::vdrop, VarLen::NEEDS_VDROP"), ("ownership transfer by forget", V+"vbox.rs, "+V+"owned.rs, "+V+"seq.rs")],
  ["a registry of uniquely numbered tokens that records each creation, clone and drop"])

p("C04", "A panic in user code leaves every container consistent",
  "If user code called by the library (an element initializer, an iterator, Clone, Default or Drop) panics and the panic is caught, no value is dropped twice or used after being dropped, and every container that is still reachable behaves as if the interrupted element had not been added: its length, elements, offsets and indexing are those of the operations that had completed, and it can be used further and dropped.",
  ["fault_sequences", "histories"],
  "Every operation that calls user code, every position of the call at which it panics, and every later use of the surviving containers. (Leaking memory after a panic is allowed.)",
  "No test makes user code panic inside the library; the tests cover the completing path only.",
  [V+"seq.rs", V+"vbox.rs", V+"owned.rs", V+"array_init.rs", M],
  [("state is advanced only after initialization completed", V+"seq.rs: try_push"), ("ownership given up before elements are dropped", V+"seq.rs: take_elems, OwnedElems")],
  ["token registry and reference model after each caught panic"])

p("C05", "Predicted layout equals actual layout and construction stays inside it",
  "For every initializer, the size it predicts before construction equals the size the constructed object reports afterwards, and at any later time until it is destroyed. Construction happens at an address aligned for the type, and writes only bytes inside the predicted extent.",
  ["inputs", "programs"],
  "All type shapes, all initializers, all values and lengths, objects nested in other objects at any offset.",
  "The tests never compare the two independent computations (the checked one on the initializer and the unchecked one on the object) and never look at neighbouring bytes.",
  [V+"macro_support.rs", V+"array.rs", V+"tuple.rs", V+"newtype.rs", V+"lib.rs", M],
  [("cautious computation", V+"macro_support.rs: cat_field_cautious, cat_array_field_cautious"), ("fast computation", V+"macro_support.rs: cat_field_fast, cat_array_field_fast")],
  ["an interposing initializer that sees the destination, the predicted layout and the bytes around it"])

p("C06", "Objects have the documented flat memory layout",
  "An object occupies one contiguous extent: its fixed-length part first, then each variable-length field in declaration order at the first offset that suits the field's alignment, with array elements contiguous, the size ending right after the last field, and the type's alignment being the maximum over its parts. Successive elements of a sequence lie in push order, each at the first suitably aligned offset after its predecessor (every element taking at least one unit).",
  ["inputs", "programs"],
  "All type shapes, all lengths and alignments, boxes, arenas and sequences.",
  "A few tests assert offsets of particular structs; padding and order for other combinations are unsampled, and a wrong but self-consistent layout passes them.",
  [V+"macro_support.rs", V+"array.rs", V+"tuple.rs", V+"seq.rs", M],
  [("offset computation", V+"macro_support.rs"), ("stride computation", V+"seq.rs: round_up_fast, try_push")],
  ["addresses of all fields and elements, compared with a reference layout computed from the value"])

p("C07", "Heap usage is exact: right-sized, minimal and always returned",
  "A boxed object is exactly one heap block of exactly its layout's size and alignment (none if the size is zero), and a sequence is at most one block holding its capacity (plus at most one bit per alignment unit, rounded up to bytes, with checked indexing; no block before the first push); arena objects use no heap beyond the arena. No other operation allocates, and every block is returned exactly once, with the layout it was requested with, when its owner goes away.",
  ["histories", "inputs"],
  "All type shapes and sizes, all histories of operations on boxes, sequences and arenas without panics.",
  "No test observes the allocator.",
  [V+"vbox.rs", V+"seq.rs", V+"owned.rs"],
  [("allocation layout derived from the object", V+"vbox.rs: new, drop, initialize"), ("storage layout including the bitmap", V+"seq.rs: layout, add_bitmask_to_layout")],
  ["event log of a monitoring global allocator"])

p("C08", "Sizes and lengths that do not fit are rejected, never truncated",
  "If a length does not fit the chosen length type, or the exact size of an object or sequence does not fit the address space, construction is refused (None or a panic) before anything is written, and existing containers are unaffected; whenever construction is accepted, the lengths and sizes are mathematically exact. Lengths and sizes that fit are never refused for arithmetic reasons.",
  ["inputs"],
  "All lengths from 0 to the maximum of usize, all length types, element sizes and alignments, and all compositions of fields, including sums and products that wrap around.",
  "Tests use small lengths; the overflow branches of the checked arithmetic and the boundaries of u8, u16 and u32 lengths are mostly unsampled.",
  [V+"macro_support.rs", V+"array.rs", V+"str.rs", V+"seq.rs", V+"vbox.rs", V+"tuple.rs", M],
  [("checked arithmetic", V+"macro_support.rs: cat_field_cautious, cat_array_field_cautious"), ("length conversion", V+"array.rs: ArrayLen"), ("checked growth", V+"seq.rs: try_push, try_realloc")],
  ["predicted sizes and refusals, compared with 128-bit arithmetic"])

p("C09", "Allocation failure is reported and never corrupts anything",
  "When the allocator fails at any allocation the library makes, the failure surfaces as a panic or as the standard allocation-error abort. No memory is accessed through the missing block, and after a panic all existing boxes and sequences still hold exactly their previous contents and are freed correctly.",
  ["fault_sequences", "histories"],
  "Every allocation and reallocation of every operation history as the failing one, all element types, both indexing modes.",
  "No test injects allocation failures.",
  [V+"seq.rs", V+"vbox.rs"],
  [("null checks", V+"vbox.rs: new; "+V+"seq.rs: alloc_storage, grow_storage, try_realloc")],
  ["outcome of child processes in which the n-th allocation fails"])

p("C10", "A sequence behaves as an append-only list",
  "After any history of operations, a sequence holds exactly the elements appended and not since taken out, in order: its length, all iterations (shared, mutable, limited to a prefix, partially advanced), their reported exact sizes and counts, extension, collection and the construction macro agree with a plain list of the same values.",
  ["histories", "inputs"],
  "All histories of push, extend, collect, iteration, mutation, taking elements and reuse; both indexing modes; elements of all shapes and very different sizes.",
  "Tests push up to a few small elements; growth boundaries, reuse after taking and partially consumed iterators are unsampled.",
  [V+"seq.rs"],
  [("len_elements, occupied_offsets", V+"seq.rs: try_push, take_elems"), ("iteration by recomputed size", V+"seq.rs: Iter, IterMut, OwnedElems")],
  ["results of every operation, compared with a list model"])

p("C11", "Checked indexing accepts exactly the starts of live elements",
  "On a sequence with checked indexing, an offset is reported valid and can be used for access if and only if it is the start of an element that is currently in the sequence, and the access then yields that element; every other offset, however large, is refused (false, or a panic), at every point of the sequence's history.",
  ["histories", "inputs"],
  "All offsets from 0 to the maximum of usize after every operation of every history, including growth, reuse after taking elements, and refused or panicking pushes.",
  "Tests probe two or three offsets on short sequences; bitmap growth across byte boundaries and stale bits are unsampled.",
  [V+"seq.rs"],
  [("validity bitmap stored after the elements", V+"seq.rs: CheckedIndexing, is_offset_valid, mark_offset_valid, clear_bitmasks, grow_storage")],
  ["is_offset_valid, from_offset and from_offset_mut over the whole offset range, compared with the model"],
  [("bitmap", "set bits are the offsets of elements", V+"seq.rs")])

p("C12", "An element's offset identifies it for as long as it is in the sequence",
  "The offset announced before a push, the one computed later from a reference to the element and the one used to fetch it are the same number, are unique to the element, increase in push order and never change while the element stays in the sequence, whatever is pushed or mutated afterwards. Asking for the offset of an object that is not in the sequence panics.",
  ["histories", "inputs"],
  "All elements of all histories, after each later operation; foreign objects of the same type in other sequences, boxes, arenas, or empty sequences.",
  "Tests look at a few offsets right after a push.",
  [V+"seq.rs"],
  [("offset arithmetic", V+"seq.rs: offset, offset_of, from_offset_unchecked")],
  ["offset, offset_of and the unchecked accessors, compared with the offsets recorded in the model"])

p("C13", "Pushing is amortized O(1) and capacity is reused",
  "Appending n bytes of elements to a sequence one by one performs O(log n) reallocations and requests O(n) bytes of storage in total, the capacity always covers what is occupied, and it never shrinks while the sequence lives. After all elements are taken, the same storage is reused: refilling with no more than was there before allocates nothing.",
  ["histories", "inputs"],
  "All push sequences (uniform, growing, alternating tiny and huge elements, all alignments), both indexing modes, repeated take and refill.",
  "Tests never count allocations.",
  [V+"seq.rs"],
  [("doubling growth", V+"seq.rs: try_realloc"), ("reset without release", V+"seq.rs: take_elems")],
  ["allocation events of a monitoring allocator; capacity_in_offsets"])

p("C14", "Taking elements transfers ownership completely",
  "Taking the elements of a sequence yields them once each, in order, with the stored contents and exact remaining counts; whether an element is then dropped, leaked, or moved into another container, and whether the iterator is consumed, dropped part-way or forgotten, every element has exactly one owner at every moment. The sequence is empty as soon as its elements are taken, keeps its storage, and works normally afterwards.",
  ["histories", "inputs"],
  "All element shapes, all prefixes consumed, all dispositions of each element, forgetting the iterator, and all later uses of the sequence.",
  "Tests take two elements of one fixed-size type and consume all of them.",
  [V+"seq.rs", V+"owned.rs"],
  [("OwnedElems iterates over detached storage", V+"seq.rs: take_elems, OwnedElems"), ("Owned as initializer", V+"owned.rs")],
  ["yielded values, token registry, sequence state"])

p("C15", "Clones and copies are equal to and independent of the original",
  "Cloning or copying an object yields an object with equal contents and structure, leaves the original untouched, and calls Clone exactly once per contained user value (copying calls none). Afterwards the two share nothing: mutating or dropping either does not affect the other.",
  ["inputs", "histories"],
  "All clonable and copyable type shapes and values, clones placed into any container, either one mutated or dropped first.",
  "Tests clone two or three values and compare them; they never check independence or count clones.",
  [V+"lib.rs", V+"array.rs", V+"str.rs", V+"tuple.rs", V+"vbox.rs"],
  [("cloners", "VClone and VCopy implementations")],
  ["contents of both objects, token registry (clone and drop events per token)"])

p("C16", "Mutable access changes only what was addressed",
  "Writing through a mutable accessor (a field or element obtained by muts, mut_slice, as_mut, mutable iteration or offset access) changes exactly the addressed value. All other fields, elements, objects, lengths, offsets and layouts stay the same, and simultaneously handed out mutable references never overlap.",
  ["inputs", "histories"],
  "All type shapes, every field and element, all containers.",
  "Tests write to one field of one object and look at that field.",
  [V+"array.rs", V+"str.rs", V+"tuple.rs", V+"seq.rs", V+"vbox.rs", V+"owned.rs", V+"newtype.rs", V+"macro_support.rs", M],
  [("mut_field, mut_array", V+"macro_support.rs")],
  ["full re-read of the container after each write; addresses and extents of simultaneously live references"])

p("C17", "Updating layout-controlling fields is all-or-nothing and layout-preserving",
  "A request to replace the layout-controlling fields of an object succeeds if and only if every dependent array keeps its length; then all controlling fields take the new values and nothing else changes. Otherwise it reports an error and changes nothing at all. In both cases the values not kept are dropped exactly once, even if their destructors panic.",
  ["inputs", "programs"],
  "All user structs (any number of controlling fields of any type, any number of arrays with any length expression), all pairs of old and new values.",
  "One struct with a single controlling field is tested with one good and one bad value.",
  [M],
  [("try_set_layout_controllers", M)],
  ["result, contents before and after, token registry"])

p("C18", "User-defined variable-length structs work for every definition",
  "Every well-formed struct definition (at module scope, with at least one field, no cfg attributes on fields, and field types that mean the same from a child module with `use super::*`, that is, are visible there and not named like an item that is generated there) compiles, and the resulting type offers construction, shared and mutable access to every field, replacement of controlling fields, and destruction that agree with the definition: each field holds what it was initialized with, each array has exactly the length its expression gives, layout and drop behaviour are as for the built-in types, and the result can be nested in other types and used in every container.",
  ["programs", "inputs"],
  "All struct definitions: any number and order of fixed, controlling, variable-length and array fields, any element types and alignments, length expressions, generics with bounds, where clauses and defaults, lifetimes, visibilities, attributes.",
  "About a dozen fixed definitions are tested; interactions between kinds of fields, generics and padding are unsampled.",
  [M, V+"macro_support.rs", V+"marker.rs"],
  [("code generation", M)],
  ["randomly generated definitions compiled and run against a model of the definition"])

p("C19", "Strings are always valid UTF-8 and exactly the text given",
  "A variable-length string always dereferences to exactly the text it was made from, byte for byte and valid UTF-8, for every text whose byte length fits the length type and at every point of its life. Texts that do not fit are refused, never cut.",
  ["inputs", "histories"],
  "All Unicode texts (empty, embedded NULs, multi-byte characters at every position, boundary lengths 255, 256, 65535, 65536), all length types, all containers, safe in-place mutation.",
  "Tests use short ASCII texts.",
  [V+"str.rs", V+"array.rs"],
  [("initialization only from str", V+"str.rs: try_copy, StrInit"), ("length conversion", V+"array.rs: ArrayLen::from_usize")],
  ["bytes and text read back, validated by the standard library and compared with the source"])

p("C20", "Array initializers fill every slot exactly once, in order",
  "Each array initializer fills slots 0 to n-1 with the right value each (the given function of the index, the iterator's items in order, clones, copies, moved values or defaults), evaluating user code exactly once per slot in increasing order and taking exactly n items from an iterator. A source of the wrong length panics instead of leaving a slot unfilled or writing beyond the array.",
  ["inputs"],
  "All initializers, all lengths including 0, all element types including zero-sized and droppable ones, sources that are shorter, equal or longer, used directly and inside every array-bearing type.",
  "Each initializer is tested with one matching source of three elements.",
  [V+"array_init.rs", V+"array.rs", V+"macro_support.rs"],
  [("ArrayInitializer implementations", V+"array_init.rs")],
  ["log of calls into the user function or iterator, resulting array, token registry"])

p("C21", "Giving up and resuming ownership through raw handles is faithful",
  "Turning an owning handle into a raw pointer and back yields the same object: nothing is dropped, freed, moved or changed in between, and the rebuilt handle drops and frees it exactly once. Leaking a handle runs no destructor and leaves the object usable and unchanged for the lifetime of its storage.",
  ["histories", "inputs"],
  "All type shapes, boxes and arena or sequence handles, any number of round trips interleaved with other operations.",
  "One test per function with a type without destructor.",
  [V+"vbox.rs", V+"owned.rs"],
  [("forget on transfer", V+"vbox.rs: into_raw, from_raw; "+V+"owned.rs: into_raw, from_raw, leak")],
  ["pointer identity, contents, token registry, allocator events"])

p("C22", "Arena-allocated values are sound and drop with their handle",
  "An object created in an arena is placed in the arena's memory, suitably aligned and disjoint from every other object there, holds what it was initialized with until its handle is dropped, and its contents are dropped exactly once, with the handle and not with the arena. It can be mutated, cloned out and moved into boxes and sequences without disturbing its neighbours.",
  ["histories", "inputs"],
  "All type shapes and alignments, many objects interleaved in one arena with foreign allocations, any order of dropping.",
  "Tests create one or two objects in a fresh arena.",
  [V+"owned.rs"],
  [("Owned::new_in", V+"owned.rs")],
  ["addresses and extents, contents, token registry"])

p("C23", "Newtypes are transparent",
  "A newtype of a variable-length type has the layout, alignment, contents, construction and drop behaviour of the wrapped type, in every container and nested at any depth; its accessors refer to the same memory as the wrapper. Initializers declared as wrappers predict and build exactly what the wrapped initializer does.",
  ["programs", "inputs"],
  "All wrapped types (with and without destructors, any alignment), generic newtypes, newtypes of newtypes and of user structs, all initializers.",
  "The string type and two examples are tested.",
  [V+"newtype.rs", V+"str.rs"],
  [("define_varlen_newtype!, impl_initializer_as_newtype!", V+"newtype.rs")],
  ["layout, addresses, contents and drop events of wrapper and wrapped type side by side"])

p("C24", "Safe clients cannot break the layout invariants or outlive storage",
  "No safe program can separate the header of a variable-length object from its tail, create, move, copy, swap or overwrite such an object outside its storage, change a field its layout depends on, or keep a reference, handle or iterator beyond the storage or the exclusive access it was derived from: each such program is rejected by the compiler. The corresponding legitimate programs are accepted.",
  ["programs"],
  "All safe client programs (explored through a catalogue of hostile programs and their legitimate counterparts, over many types).",
  "The tests contain only programs that should compile, plus three compile-fail cases on macro attributes.",
  [V+"lib.rs", V+"marker.rs", V+"seq.rs", V+"vbox.rs", V+"owned.rs", V+"array.rs", V+"tuple.rs", V+"newtype.rs", M],
  [("pinned mutable access and unconstructible markers", V+"marker.rs"), ("lifetimes on Iter, IterMut, OwnedElems, Owned", V+"seq.rs, "+V+"owned.rs"), ("controlling fields excluded from Muts", M)],
  ["compiler verdict on each program; a hostile program that compiles is executed under Miri"])

p("C25", "Sharing variable-length objects between threads is race-free",
  "Threads may concurrently read the same objects wherever the contained types allow it, and independently use separate containers, with results identical to sequential use and no data race. Objects whose contents may not be shared or sent between threads cannot be shared or sent by safe code.",
  ["schedules", "programs", "histories"],
  "All interleavings of concurrent readers of shared objects and of threads working on their own containers; all contained types with and without Send and Sync.",
  "All tests are single-threaded.",
  [V+"marker.rs", V+"seq.rs", V+"vbox.rs", V+"owned.rs", V+"array.rs", V+"tuple.rs", M],
  [("no hidden shared state; markers carry the auto traits of the contained types", V+"marker.rs")],
  ["ThreadSanitizer and Miri race reports, values seen by each thread, compiler verdict on hostile programs"])

p("C26", "Malformed struct definitions are rejected with a compile error",
  "A struct definition that the macro cannot support (not a struct with named fields, conflicting, misplaced or malformed field attributes, an array field that is not of array type, a length that depends on anything but the controlling fields, a controlling field with interior mutability, unsupported visibility) produces a compile error and never a type with a wrong layout. Well-formed variations of the same definitions are accepted.",
  ["programs"],
  "All malformed definitions (explored through generated mutations of well-formed definitions, each paired with its well-formed original).",
  "Three malformed definitions are tested, by message.",
  [M],
  [("define_varlen_impl error paths", M), ("lengths functions see only the controlling fields", M)],
  ["compiler verdict on each generated definition"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
