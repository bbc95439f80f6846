#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that titles, anchors and texts stay in one readable place)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})
L, S, A, U = "src/lib.rs", "src/inner/sized.rs", "src/inner/aligned.rs", "src/inner/unaligned.rs"
E = "emplacable/src/lib.rs"
VS, VA, H, M = "src/helper/valid_size.rs", "src/helper/valid_align.rs", "src/helper.rs", "src/marker.rs"
LAY = [("element offsets", "end offset and pointer metadata of every element, in order", A + ", " + U + " ElementInfo"),
       ("buffer", "pointer, byte capacity and alignment of the element storage", A + " AlignedVecInner, " + U + " UnalignedVecInner")]

p("C01", "Insertion puts the value at its index and keeps every other element",
  "Inserting a value at an index not greater than the length, by value or through an emplacable, leaves a vector in which that index holds exactly the inserted value (same bytes, same pointer metadata), every earlier element is unchanged and every later element is unchanged but one index further. An index greater than the length panics and changes nothing. This holds for sized element types, for unsized ones of known alignment and for unsized ones of mixed alignment, also when the insertion has to reallocate.",
  ["inputs", "histories"], "all element types (sized, known alignment, mixed alignment), all lengths, indices, element sizes and alignments, all earlier operations",
  "The tests insert at index 0 or into vectors of one shape; the offsets involved differ for every combination of index, sizes, paddings and current alignment.",
  [L, S, A, U], [("bounds check and reservation before insertion", L + " UnsizedVec::insert, insert_with"), ("shift, write, offset update", A + ", " + U + ", " + S + " insert_unchecked / insert_with_unchecked")], LAY)
p("C02", "Pushing appends exactly the pushed value",
  "Pushing a value, by value, by unsizing a sized value, or through an emplacable, makes the length one greater, puts exactly that value (same bytes, same pointer metadata) at the last index, and leaves all other elements as they were. The new element starts after the end of the previous one, at an offset aligned for the vector, inside storage reserved beforehand.",
  ["inputs", "histories"], "all element types, sizes, alignments, fill levels and earlier operations",
  "Tests push a handful of values of two or three types; whether the new element overlaps or escapes the buffer depends on sizes, paddings and capacity.",
  [L, S, A, U], [("reserve then append", L + " push, push_with"), ("write at end, record offset", A + ", " + U + ", " + S + " push_unchecked / push_with")], LAY)
p("C03", "Removing or popping hands out exactly that element and closes the gap",
  "Removing at an index below the length (or popping a non-empty vector) gives the receiver exactly that element's bytes, layout and pointer metadata; afterwards the length is one less, earlier elements are unchanged, and later ones have moved down by one index with contents and metadata unchanged. A receiver that asks for no copy gets the element dropped or forgotten, with the same effect on the vector. Removing at or beyond the length panics without changing anything; popping an empty vector yields nothing.",
  ["inputs", "histories"], "all element types, lengths, indices, sizes, alignments, and receivers (take, drop, forget)",
  "Tests remove from vectors of two or three elements of one shape and never combine padding, over-alignment and position.",
  [L, S, A, U], [("bounds check", L + " remove_into, pop_into"), ("hand out, then close the gap and fix offsets", A + ", " + U + ", " + S + " remove_into_unchecked / pop_into_unchecked")], LAY)
p("C04", "Indexed access reaches exactly the requested element, never out of bounds",
  "Looking up an index below the length, shared or mutable, yields a reference to that element with its own address, size and pointer metadata; any other index yields nothing from the checked lookup and panics in indexing syntax. The reported length and emptiness agree with the number of elements.",
  ["inputs", "histories"], "all vectors and all indices, including the length itself and the largest integer",
  "Tests look up in-range indices of small vectors only.",
  [L, S, A, U], [("bounds checks", L + " get, get_mut, Index, IndexMut"), ("offset and metadata lookup", A + ", " + U + ", " + S + " get_unchecked_raw")], LAY)
p("C05", "Iteration visits each element once, from either end, in order",
  "A shared or mutable iterator yields every element exactly once, in index order from the front and reverse order from the back, with any mixture of stepping, skipping (n-th), taking the last, and stepping from the back. Every yielded reference has that element's own address and metadata, no element is yielded from both ends, and the reported remaining length is always exact.",
  ["inputs", "histories"], "all vectors and all sequences of iterator calls",
  "No test mixes front and back steps or skips; those combinations determine the start offset of the yielded element.",
  [L, A, U, S], [("iterator steps", A + ", " + U + " macro iter_ref: next, nth, last, next_back, len, size_hint, count"), ("forwarding", L + " macro iter_ref")])
p("C06", "Every element is owned exactly once: no double drop, no silent loss",
  "A value moved into a vector is not dropped by the caller's side; it is then either still in the vector, or handed out, dropped or forgotten by the receiver of a removal, exactly one of these. Dropping the vector drops each remaining element exactly once, in order, with its own address and metadata, and no removed element.",
  ["histories", "inputs"], "all operation histories, element types and receivers, without panics",
  "Tests count drops in one or two histories; a double or missing drop depends on which path (take, drop, forget, reallocation) was taken.",
  [L, S, A, U], [("forget after move-in", A + ", " + U + ", " + S + " insert_unchecked, push_unchecked"), ("drop glue", A + ", " + U + " impl Drop"), ("drop-or-copy on hand-out", A + ", " + U + ", " + S + " remove_into_unchecked, pop_into_unchecked")])
p("C07", "A panic in user code never causes a double drop or a corrupt vector",
  "If user code run by a vector operation panics (an emplacable while writing its value, a receiver of a removed element, or the drop of a removed element), the vector stays valid: afterwards it holds either its elements before the operation or those elements without the one that was handed out or dropped, each with intact contents. No element is dropped twice; leaking is allowed.",
  ["fault_sequences", "inputs"], "every point of an operation at which user code runs and may unwind, for all three element kinds",
  "No test panics in the middle of an operation.",
  [S, A, U, E], [("guard that shifts elements back", A + ", " + U + ", " + S + " insert_with_unchecked ElementShifterBacker"), ("guard that closes the gap", A + ", " + U + ", " + S + " remove_into_unchecked"), ("guard that restores offsets", U + " shrink_capacity_bytes_align_to Realigner")])
p("C08", "Storage is allocated, resized and freed with matching layouts, never leaked",
  "Every time the element storage is resized or freed, the pointer, size and alignment given to the allocator are those of the current allocation; nothing is freed twice, nothing is freed that was never allocated, and replacing or dropping the storage never leaks it. After every resize the vector records the pointer, size and alignment it actually obtained, and an allocation failure leaves the recorded storage as it was.",
  ["histories", "fault_sequences"], "all histories of growing, shrinking, realigning and dropping, including allocator failures",
  "Tests never observe layouts passed to the allocator and never make it fail.",
  [A, U], [("grow path", A + ", " + U + " try_reserve_additional_bytes_align"), ("shrink path", A + ", " + U + " shrink_capacity_bytes_align_to"), ("final free", A + ", " + U + " impl Drop")], LAY)
p("C09", "Raising or lowering the alignment keeps every element intact and aligned",
  "When a vector of mixed-alignment elements has its alignment raised (by reserving or by adding an over-aligned element) or lowered (by shrinking), every element keeps its index, bytes and metadata, and starts at an offset that is a multiple of the new alignment and does not overlap another element. The alignment is never lowered below that of an element in the vector and, after reserving successfully, is at least the requested one.",
  ["inputs", "histories"], "all vectors, element sizes, alignments and target alignments",
  "One test raises the alignment of a small vector; lowering with several padded elements is never exercised.",
  [U], [("raise", U + " realign_up, len_after_realign_up"), ("lower", U + " realign_down, max_align_of_elems"), ("callers", U + " try_reserve_additional_bytes_align, shrink_capacity_bytes_align_to")], LAY)
p("C10", "Reserving and shrinking keep their capacity promises",
  "After a successful reservation the vector has room for at least the requested additional elements and bytes at the requested alignment, without touching existing elements; storage that already suffices is not reallocated, and the exact forms request no more than needed (up to alignment). Shrinking never goes below the length, the bytes in use or the requested bounds, and shrinking to fit gives up all unused bytes.",
  ["inputs", "histories"], "all vectors, requested counts, byte counts and alignments, for sized, known-alignment and mixed-alignment elements",
  "Tests check one capacity figure after pushes; the arithmetic depends on current length, capacity, padding and requested amounts.",
  [L, S, A, U], [("requests", L + " reserve family, with_capacity family"), ("implementation", S + ", " + A + ", " + U + " try_reserve, try_reserve_additional_bytes_align, shrink_capacity_bytes_align_to")])
p("C11", "Size and alignment arithmetic never exceeds what a layout may have",
  "Every size the library computes for storage is either rejected or, rounded up to its alignment, at most the largest signed word; rounding up yields the smallest multiple not below the input, checked operations report overflow instead of wrapping, and clamping never rounds upwards. Only powers of two are accepted as alignments, and the alignment associated with an element type is the alignment of its values.",
  ["inputs"], "all sizes and alignments, in particular those next to the limits",
  "Tests use sizes of a few bytes; every mistake here shows only near the largest word.",
  [VS, VA, M, H], [("sizes", VS), ("alignments", VA), ("alignment of a type", M + " Aligned"), ("layout split", H + " decompose")])
p("C12", "Converting a vector keeps its elements",
  "Converting between the standard vector and the sized form of this one, in either direction, moves the same storage and elements. Unsizing a whole vector yields one of the same length and storage in which element i is the unsized form of element i, with the metadata of the unsizing, and nothing is copied, dropped or leaked; the pointer metadata of any stored element is given back as it was when the element went in.",
  ["inputs", "histories"], "all sized element types and unsizing targets, all lengths and capacities; all unsized element types",
  "One doc example converts one vector; per-element offsets and metadata depend on length, size and type.",
  [L, S, A, U, H], [("unsizing", L + " unsize; " + A + ", " + U + " from_sized"), ("standard vector conversions", L + " From impls"), ("stored metadata", H + " MetadataRemainder, MetadataFromSize")])
p("C13", "Comparison, hashing, debug output, serialization and cloning follow the elements",
  "Two vectors are equal exactly when they have the same length and equal elements in order; ordering is lexicographic, with a shorter prefix first and an incomparable pair making the vectors incomparable; hashing, debug output and serialization feed every element once, in order (serialization announcing the exact length). A clone has the same elements, cloned once each in order, and equal capacity and alignment provisions.",
  ["inputs"], "all pairs of vectors and all element types",
  "No test compares vectors of different lengths or incomparable elements, hashes, serializes or clones.",
  [L], [("trait impls", L + " PartialEq, PartialOrd, Ord, Hash, Debug, Serialize, Clone")])
p("C14", "Bulk construction appends every item once, in order",
  "Extending, collecting, and the vector macros append each supplied item exactly once, in the order supplied, after the existing elements, whatever the source claims about its own length; collecting and the macros start from an empty vector. The same holds for collecting or extending a standard vector from emplacables.",
  ["inputs"], "all sources, including ones with wrong size hints, and all element types",
  "Tests use a few short arrays with correct size hints.",
  [L, E], [("extend, collect, macros", L + " Extend, FromIterator, unsized_vec!, unsize_vec!"), ("standard vector", E + " Extend, FromIterator for Vec")])
p("C15", "An emplacable made from a value writes out exactly that value",
  "An emplacable made from an owned value, box, vector, slice, string or path announces exactly the size, alignment and pointer metadata of the value, and when given a place writes precisely that many initialized bytes of it there. When asked to drop instead, it drops an owned value exactly once and writes nothing; in all cases heap memory it took over is freed once, with the layout it was allocated with, and values it only borrows are copied or cloned, never moved out.",
  ["inputs"], "all source values, including empty ones, spare capacity and zero-sized element types; all receivers (take, drop, forget)",
  "Tests convert a few literals and never look at layout, spare capacity or drop behaviour.",
  [E], [("producers", E + " IntoEmplacable impls")])
p("C16", "Consumers of an emplacable provide a fitting place and take ownership once",
  "Getting, boxing or collecting an emplacable gives it a place of the announced size and alignment and returns exactly the value written there, with the announced metadata, owned once. Dropping an emplacable drops its value once; forgetting one neither writes nor drops it; if writing panics while boxing, the new allocation is freed and no partly written value is dropped.",
  ["inputs", "fault_sequences"], "all emplacables, including zero-sized values, and panics while writing",
  "Tests box and get a few plain values; zero sizes, failures and panics are not exercised.",
  [E], [("get, forget, drop", E + " Emplacable"), ("boxing", E + " box_new_with"), ("std collections", E + " From<Emplacable> impls")])
p("C17", "Adapting an emplacable changes its type but not its value, layout or count",
  "Unsizing an emplacable, viewing a string emplacable as bytes or an array emplacable as a slice, and lending an emplacable for a by-value unsized argument pass on the size, alignment and target place unchanged, with the metadata of the target type, and write or drop the same value exactly as often as the original would. A by-value argument lent as an emplacable is never dropped again by the lender.",
  ["inputs", "fault_sequences"], "all emplacables, target types and receivers",
  "Tests adapt two or three literals and do not observe layouts or drops.",
  [E], [("adapters", E + " Emplacable::unsize, IntoEmplacable for Emplacable<str,_> and Emplacable<[T; N],_>"), ("lending", E + " with_emplacable_for")])
p("C18", "An emplacable built from many writes item i into slot i, each exactly once",
  "An emplacable for an array or slice assembled from item emplacables (an array of them, or an iterator) announces the layout and metadata of that many items, writes item i at position i and no other, and consumes each item once; asked to drop, it drops every item. A source that yields fewer items than it promised causes a panic, never a partly initialized result, and no more items are written than were promised.",
  ["inputs"], "all lengths, item types and iterators, including ones that misreport their length",
  "Tests assemble one or two short arrays from honest iterators.",
  [E], [("from iterator", E + " Emplacable::from_iter"), ("from array", E + " IntoEmplacable for [Emplacable; N]")])
p("C19", "Smart-pointer constructors move the value in exactly once",
  "Putting a by-value unsized value into a box, reference-counted pointer or pinned variant allocates exactly the value's layout (nothing for zero-sized values), moves its bytes and metadata in, never drops it on the way, and reports allocation failure instead of using a null pointer. The emplacable-taking forms return the same value as boxing it, and the pinned forms pin that very allocation.",
  ["inputs"], "all value types, sizes and alignments",
  "Tests build a few boxes of small values.",
  [E], [("by value", E + " box_new, box_pin, rc_new, rc_pin, arc_new, arc_pin"), ("by emplacable", E + " box_new_with, rc_new_with, arc_new_with, *_pin_with")])
p("C20", "Safe code cannot break the library's guarantees",
  "Programs that would let an element reference, iterator or pending removal outlive or coexist with a change of the vector, that would share elements across threads unsoundly, or that would obtain the library's unsafe capabilities without an unsafe block, do not compile. Ordinary correct programs of the same shape do compile.",
  ["programs"], "all safe programs against the public interface, represented by one witness per forbidden capability",
  "Runtime tests cannot contain programs that must fail to compile.",
  [L, E], [("borrow-carrying signatures", L + " get, iter, remove_into, pop_into"), ("unsafe constructors", E + " Emplacable::from_fn, Emplacer::from_fn, Emplacer::into_fn; " + L + " get_unchecked")])
p("C21", "Every advertised feature combination builds and keeps no_std promises",
  "Each crate builds with every combination of its features, including none, in debug and release configuration, and offers in each the public items its enabled features promise (also to crates that are no_std themselves). Without the standard-library feature neither crate's library depends on the standard library, and without the allocation feature emplacable does not depend on the allocation library.",
  ["configurations"], "all feature combinations of both crates",
  "The test suite is built with all features only.",
  ["Cargo.toml", "emplacable/Cargo.toml", L, E], [("feature gates", E + ", " + L + " cfg attributes")])
p("C22", "Fallible reservation reports failure and changes nothing",
  "Every reservation that can fail reports capacity overflow and allocator failure to its caller as an error, without panicking for any valid request and whatever the build profile, and a failed reservation leaves length, elements and byte storage as they were. The infallible forms turn exactly those errors into a panic or the allocation-error handler and never carry on as if they had succeeded.",
  ["inputs", "fault_sequences"], "all requests, including ones near the largest word, and all allocator failures",
  "No test makes a reservation fail.",
  [L, S, A, U], [("error propagation", L + " try_reserve family, unwrap_try_reserve_result"), ("checked arithmetic and allocator results", S + ", " + A + ", " + U + " try_reserve_additional_bytes_align")])
p("C25", "The by-value macros produce exactly the value they are given",
  "Coercing a sized value to an unsized type by value yields that very value (same bytes, same layout) with the pointer metadata of the coercion, and the by-value string macro yields a string of exactly the bytes of its literal. The value exists once: nothing is dropped twice or lost on the way, the place it passes through is large and aligned enough for it, and the heap is not used.",
  ["inputs", "programs"], "all values, sizes, alignments and coercions; all literals",
  "The tests use the macros on a few small values only; the place the value passes through is handed out by an allocator of the crate whose layout obligations depend on the type.",
  [E], [("coercion through a box that does not allocate", E + " macro_exports, unsize!"), ("string through a buffer of bytes", E + " fake_box_str, by_value_str!")])
p("C23", "Appending takes amortized constant time",
  "An append (by value, by unsizing, or through an emplacable) that has to enlarge the capacity for elements or for bytes enlarges it by a constant factor, unless the allocator refuses that much, so that appending n elements one after another performs a number of reallocations logarithmic in the total size (besides those that raise the alignment). An append never lowers the alignment, and never reallocates without need.",
  ["histories"], "all sequences of appends",
  "A test can only sample sizes, and the existing tests assert no cost.",
  [L, S, A, U], [("growth policy", L + " try_reserve_capacity_bytes_align; push_with in the providers")])
p("C24", "Shared and mutable element references never alias in the memory model",
  "No two references handed out by the library that are live together, at least one of them mutable, cover the same bytes, and every reference derives from a pointer that may access those bytes under the language's aliasing model.",
  ["histories", "programs"], "all interleavings of borrows and iterator steps",
  "Aliasing violations usually have no observable effect in a test.",
  [A, U], [("iterators and lookups over one raw pointer", A + ", " + U)])
open(os.path.join(V, "properties.jsonl"), "w").write("".join(json.dumps(x, ensure_ascii=False) + "\n" for x in P))
