#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  One entry per property; edit here, run, commit both."""
import json, os
A = "src/main/aerospike/"; C = "src/main/citrusleaf/"; HA = "src/include/aerospike/"; HC = "src/include/citrusleaf/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": False}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

MP = A + "as_msgpack.c"; MPE = A + "as_msgpack_ext.c"; MPS = A + "as_msgpack_serializer.c"

p("P01", "Scalar values survive serialization unchanged",
  "Serializing any nil, boolean, 64-bit integer, double, string without an embedded zero byte, typed byte blob or geojson value and deserializing the bytes yields a value of the same type with the same content. Deserializing consumes exactly the bytes that were produced, wherever in a larger buffer they lie.",
  ["inputs"], "every 64-bit integer, every double bit pattern, every string and blob length up to 2^31 and every content, every start offset",
  "The round-trip tests try a few dozen literals; the encodings switch form at 8-, 16-, 32- and 64-bit boundaries and have separate paths for signs and lengths.",
  [MP, HA+"as_msgpack.h", MPS],
  [("value encoder", MP+":as_pack_val"), ("value decoder", MP+":as_unpack_val"), ("blob decoder", MP+":unpack_blob")],
  ["as_serializer_serialize", "as_serializer_deserialize", "as_pack_val", "as_unpack_val"])
p("P02", "Lists and maps survive serialization with their order, count and content",
  "Serializing a list or map of any length produces a header with its exact element count followed by the serialization of every element, each exactly once and in iteration order, keys before their values. Deserializing such bytes yields a container with exactly that many elements in that order, and an element that fails to encode or decode makes the whole operation fail.",
  ["inputs"], "every element count, every element content and every nesting (by induction over the nesting)",
  "Tests serialize a handful of small literal containers; none crosses the 16- and 32-bit count boundaries or exercises a failing element in the middle.",
  [MP, MPE, A+"as_list.c", A+"as_map.c"],
  [("list encoder", MP+":as_pack_val (list case)"), ("map encoder", MP+":as_pack_val (map case)"), ("list and map decoders", MP+":as_unpack_val")],
  ["as_pack_val", "as_unpack_val"])
p("P03", "Announced sizes equal the bytes serialization writes",
  "For every value and every directly packed item the size reported in advance equals the number of bytes that packing it then produces. This holds for integers, booleans, doubles, strings, blobs, list, map and extension headers, and for whole values.",
  ["inputs"], "every value of each scalar type, every element count and content length",
  "Buffers are allocated from the announced size, so a mismatch at one boundary value corrupts or truncates data; tests compare sizes for a few sample values only.",
  [MP, HA+"as_msgpack.h", MPS],
  [("size functions", MP+":as_pack_*_size / *_get_size"), ("size pass of the encoder", MP+":as_pack_val with no buffer"), ("serializer", MPS)],
  ["as_pack_*_size", "as_serializer_serialize_getsize", "as_serializer_serialize_presized"])
p("P04", "Packing never writes outside the destination and loses nothing",
  "Packing into a caller-supplied buffer writes only inside the announced capacity and reports failure when the item does not fit. When the packer is allowed to grow, every byte packed so far is kept, in order, and the final serialized buffer is their concatenation.",
  ["inputs", "configurations"], "every item, every capacity and fill level of the destination",
  "Overrun depends on the exact relation of fill level, capacity and item size; tests only use ample buffers.",
  [MP, HA+"as_msgpack.h", MPS],
  [("bounded writer", MP+":pack_byte, pack_append"), ("growth", MP+":pack_resize"), ("chain assembly", MPS)],
  ["as_pack_*", "as_serializer_serialize"],
  [("destination buffer", "bytes [0, capacity) may be written", HA+"as_msgpack.h:as_packer")])
p("P05", "Packed bytes follow the MessagePack format",
  "Every integer, boolean, nil, float, string, blob, list, map and extension header is written in the documented MessagePack form: the shortest form for its value, length fields and numbers in big-endian order. Every documented form of an integer, float, string, blob, list, map and extension is accepted when reading and yields the number or length it denotes.",
  ["inputs"], "every 64-bit value, every length and element count, every form of each type",
  "A symmetric change to encoder and decoder passes every round-trip test but breaks interoperation with the server and with other clients.",
  [MP, HA+"as_msgpack.h"],
  [("direct pack functions", MP+":as_pack_*"), ("direct unpack functions", MP+":as_unpack_*")],
  ["as_pack_*", "as_unpack_*"])
p("P06", "Decoding arbitrary bytes stays inside the input",
  "Whatever the bytes and however short the input, no decoding, skipping, peeking or counting call reads outside the given input or hands out content that extends beyond it. A call that reports success leaves the read position inside the input and further on by what it consumed; truncated or malformed input is reported as failure.",
  ["inputs"], "every byte sequence of every length and every start offset",
  "Hostile and truncated encodings come from the network; tests only feed well-formed bytes.",
  [MP, HA+"as_msgpack.h"],
  [("direct unpack functions", MP+":as_unpack_*"), ("value decoder", MP+":as_unpack_val")],
  ["as_unpack_*"],
  [("unpacker", "buffer, length and offset; offset <= length", HA+"as_msgpack.h:as_unpacker")])
p("P07", "Skipping a packed value moves exactly over that value",
  "The size reported for the next packed value is exactly the number of bytes of its encoding, for every type and every documented form, including containers, whose size is their header plus the sizes of all their elements. The read position advances by exactly that amount.",
  ["inputs"], "every packed value: all header forms, all lengths, all element counts and nestings",
  "Skipping is used to locate fields in records; a wrong skip for one header form misaligns everything after it and tests cover only a few forms.",
  [MP], [("value sizing", MP+":as_unpack_size"), ("blob sizing", MP+":as_unpack_blob_size")],
  ["as_unpack_size", "as_unpack_blob_size"])
p("P08", "Comparing packed values agrees with comparing the values",
  "For two packed scalars of any types the packed comparison returns what the documented order says: type rank first, then numeric order for integers and doubles, false before true, byte-wise order for strings and blobs with a shorter prefix first. Swapping the operands swaps less and greater, and comparison consumes both operands; lists and maps compare element by element.",
  ["inputs"], "all pairs of packed scalars, all pairs of packed containers element-wise",
  "Ordering bugs show only for particular pairs (sign change, prefix, mixed width, mixed type); tests compare a short table of literals.",
  [MP], [("packed comparison", MP+":as_unpack_compare")],
  ["as_unpack_compare", "as_unpack_buf_compare", "as_unpack_buf_is_less"])
p("P09", "Value comparison is a total order",
  "Comparing two in-memory values is antisymmetric and transitive, says equal exactly for values of the same type with equal content, orders different types by type rank, integers and doubles numerically, booleans false before true, and strings and blobs byte-wise with a shorter prefix first. Lists compare element by element and then by length.",
  ["inputs"], "all pairs and triples of nil, boolean, integer, double (not NaN), string, blob and geojson values; lists of any length",
  "Sorted maps rely on the order laws for every key triple; tests look at a few pairs.",
  [MP], [("value comparison", MP+":as_val_cmp")], ["as_val_cmp"])
p("P10", "Base64 encoding and decoding are exact inverses",
  "Encoding any byte string gives the standard padded base64 text of exactly the announced length, and decoding that text gives the original bytes and length. Decoding in place gives the same result as decoding to a separate buffer, and no call touches memory outside its buffers.",
  ["inputs"], "every byte string of every length",
  "There is no base64 test at all; padding and tail cases depend on length modulo 3.",
  [C+"cf_b64.c", HC+"cf_b64.h"],
  [("encoder", C+"cf_b64.c:cf_b64_encode"), ("decoders", C+"cf_b64.c:cf_b64_decode, cf_b64_decode_in_place"), ("size functions", HC+"cf_b64.h")],
  ["cf_b64_*"])
p("P11", "Base64 validation accepts exactly well-formed text",
  "Validated decoding succeeds exactly when the text length is a multiple of four, every character belongs to the base64 alphabet and padding occurs only as the final one or two characters. When it succeeds, the output is what plain decoding gives; when it fails no output length is reported.",
  ["inputs"], "every character string of every length",
  "No test exists; a lax table entry accepts corrupt data for a single character value.",
  [C+"cf_b64.c"], [("validating decoders", C+"cf_b64.c:cf_b64_validate_and_decode, cf_b64_validate_and_decode_in_place")],
  ["cf_b64_validate_and_decode", "cf_b64_validate_and_decode_in_place"])
p("P12", "The plain dynamic queue is an exact double-ended queue",
  "From any reachable queue state, pushing at the tail or head inserts the item at that end, popping from either end returns the item at that end, all other items keep their content and order, and the reported size is the number of items held. This holds across wrap-around, growth of the storage and counter overflow; limited pushes refuse exactly when the queue is full.",
  ["histories", "inputs"], "every reachable internal state (all capacities, positions, fill levels, item sizes) and every item content",
  "Tests push and pop a few items; wrap-around, growth while wrapped, and 32-bit position overflow are never reached.",
  [A+"as_queue.c", HA+"as_queue.h"],
  [("push", A+"as_queue.c:as_queue_push, as_queue_push_head and limited variants"), ("pop", HA+"as_queue.h:as_queue_pop, as_queue_pop_tail"), ("growth", A+"as_queue.c:as_queue_increase_capacity")],
  ["as_queue_*"],
  [("head/tail/capacity", "items are at positions head..tail-1 modulo capacity", HA+"as_queue.h:as_queue")])
p("P13", "The circular queue is an exact sequence under push, peek and pop",
  "From any reachable state, pushing at tail, head or a given index inserts exactly that element at that place, popping and peeking return the head element, every other element keeps its content and order, and the reported size is exact. Limited and unique pushes refuse exactly when the size limit is reached or an equal element is present, growth keeps the content, and a failed allocation changes nothing.",
  ["histories", "inputs", "fault_sequences"], "every reachable internal state (all capacities, offsets, fill levels), element content, and allocation failure at growth",
  "There is no test of this queue; wrap-around, growth while wrapped and offset normalization need specific histories.",
  [C+"cf_queue.c", HC+"cf_queue.h"],
  [("push/pop/peek", C+"cf_queue.c:cf_queue_push*, cf_queue_pop, cf_queue_peek"), ("growth", C+"cf_queue.c:cf_queue_resize")],
  ["cf_queue_push", "cf_queue_push_head", "cf_queue_push_limit", "cf_queue_push_unique", "cf_queue_push_index", "cf_queue_pop", "cf_queue_peek", "cf_queue_sz"])
p("P14", "Deleting from the circular queue removes exactly the right elements",
  "Deleting one element, all matching elements, the element chosen by a callback, or everything removes exactly those elements; all others keep content and order and the size drops by the number removed. Callback traversals visit every element once, from the requested end, until told to stop.",
  ["histories", "inputs"], "every reachable internal state, every element content, every sequence of callback answers",
  "There is no test; deletion shifts either the front or the back part of a wrapped buffer depending on position.",
  [C+"cf_queue.c"], [("deletion", C+"cf_queue.c:cf_queue_delete, cf_queue_delete_offset, cf_queue_delete_all"), ("traversal", C+"cf_queue.c:cf_queue_reduce, cf_queue_reduce_reverse, cf_queue_reduce_pop")],
  ["cf_queue_delete", "cf_queue_delete_all", "cf_queue_reduce", "cf_queue_reduce_reverse", "cf_queue_reduce_pop"])
p("P15", "Thread-safe containers touch shared state only under their lock",
  "Every operation on a thread-safe queue, linked list, task pool or the shared random buffer takes the lock before its first access to the shared state, releases it exactly once on every path out, and never accesses the state afterwards. Every successful insertion into a waitable queue signals a waiter while a waiter could be blocked.",
  ["schedules", "inputs"], "every path through every operation; all interleavings follow because operations are atomic under the lock",
  "A missing unlock on one early return, or one access outside the lock, only shows under contention and on that path.",
  [C+"cf_queue.c", C+"cf_ll.c", C+"cf_random.c", A+"as_queue_mt.c", HA+"as_queue_mt.h"],
  [("queue locking", C+"cf_queue.c"), ("multi-threaded queue", A+"as_queue_mt.c, "+HA+"as_queue_mt.h"), ("list locking", C+"cf_ll.c"), ("random buffer locking", C+"cf_random.c")],
  ["cf_queue_*", "as_queue_mt_*", "cf_ll_*", "cf_get_rand*"])
p("P16", "Waiting pops honour their time limit and their result",
  "A pop that may not wait never blocks; a pop that may wait blocks only while the queue is empty, returns an element whenever one is available when it wakes, and reports empty only after its deadline passed. The deadline handed to the system is the current time plus the requested milliseconds as a valid time.",
  ["schedules", "inputs"], "every wait limit, every current time, every sequence of wake-ups including spurious ones",
  "Tests use two or three fixed timeouts; an invalid nanosecond field arises once in a billion current times.",
  [C+"cf_queue.c", A+"as_queue_mt.c", HC+"cf_clock.h"],
  [("waiting pop", C+"cf_queue.c:cf_queue_pop, cf_queue_reduce_pop; "+A+"as_queue_mt.c:as_queue_mt_pop"), ("deadline", HC+"cf_clock.h:cf_set_wait_timespec")],
  ["cf_queue_pop", "as_queue_mt_pop", "as_queue_mt_pop_tail", "cf_set_wait_timespec"])
p("P17", "The vector is an exact growable sequence",
  "Appending adds exactly that item at the end, reserving adds a zeroed item, setting replaces one item, removal closes the gap, and every other item keeps its content and order, across growth from stack or heap storage. Unique append adds an item exactly when no equal item is present, and a copied-out array has exactly the vector's items.",
  ["histories", "inputs"], "every size, capacity, item size and content, storage on stack or heap",
  "There is no vector test; growth and removal move memory blocks whose sizes depend on item size and position.",
  [A+"as_vector.c", HA+"as_vector.h"],
  [("vector operations", A+"as_vector.c, "+HA+"as_vector.h")], ["as_vector_*"])
p("P18", "The array list is an exact sequence of values",
  "Every list operation (get, set, insert, append, prepend, remove, concatenate, trim, head, tail, take, drop) has exactly its sequence meaning: the addressed positions change as documented, all other elements keep identity and order, and the size is exact; positions never set read as absent. Out-of-range positions are reported and change nothing.",
  ["histories", "inputs"], "every size, capacity, growth increment, index and count",
  "Tests build short lists; shifting, growth and boundary indices are tried at a few points, and tail is not checked at all.",
  [A+"as_arraylist.c", A+"as_arraylist_hooks.c", A+"as_arraylist_iterator.c", HA+"as_arraylist.h"],
  [("list operations", A+"as_arraylist.c")], ["as_arraylist_*", "as_list_*"])
p("P19", "A full array list either grows safely or refuses without damage",
  "An operation that needs more room than a list has either enlarges the storage keeping every element, or, when the list may not grow or memory is exhausted, reports failure and leaves the list as it was. Storage that the list does not own is never released or resized.",
  ["inputs", "configurations", "fault_sequences"], "every capacity, size, growth increment, required room, ownership flag, and allocation failure",
  "Allocation failure and stack-backed lists at their limit are not exercised.",
  [A+"as_arraylist.c", HA+"as_arraylist.h"], [("capacity management", A+"as_arraylist.c:as_arraylist_ensure")], ["as_arraylist_*"],
  [("capacity/size/elements", "size <= capacity, elements has capacity slots", HA+"as_arraylist.h")])
p("P20", "The ordered map finds exactly the last value stored per key",
  "After any sequence of stores and removals, looking up a key returns the value most recently stored under an equal key, or nothing if there is none; the size is the number of distinct keys. Storing or removing one key never changes what any other key maps to.",
  ["histories", "inputs"], "every map content of every size, every position of the affected key, including the deferred-insertion buffer of large maps",
  "Tests use small maps; deferred insertion starts above 1000 entries and has its own insert, flush and lookup paths.",
  [A+"as_orderedmap.c", HA+"as_orderedmap.h"], [("lookup", A+"as_orderedmap.c:key_find"), ("insert and remove", A+"as_orderedmap.c:as_orderedmap_set, as_orderedmap_remove"), ("deferred insertion", A+"as_orderedmap.c:hold table")],
  ["as_orderedmap_set", "as_orderedmap_get", "as_orderedmap_remove", "as_orderedmap_size"],
  [("table and hold table", "sorted, distinct keys; hold locations increase and refer to table positions", HA+"as_orderedmap.h")])
p("P21", "The ordered map iterates every entry once in key order",
  "Iterating or visiting a map yields every entry exactly once, in strictly increasing key order, and stops early exactly when the visitor asks to. Entries waiting in the deferred-insertion buffer are included.",
  ["histories", "inputs"], "every map content and size, every visitor answer sequence",
  "Order and completeness after deferred insertions depend on merge positions that tests never produce.",
  [A+"as_orderedmap.c", HA+"as_orderedmap.h"], [("iteration", A+"as_orderedmap.c:as_orderedmap_foreach, iterator"), ("merge", A+"as_orderedmap.c:merge of hold table")],
  ["as_orderedmap_foreach", "as_orderedmap_iterator_*"])
p("P22", "Containers release each value they own exactly once",
  "Removing, replacing, trimming, clearing or destroying releases each affected value exactly once and no other value; taking values into a second container adds exactly one reference for each. A failed store leaves exactly one owner for the rejected value, as documented.",
  ["histories", "inputs"], "every container content, size and operation argument, including failing ones",
  "Leaks and double releases do not fail tests; ownership on error paths is never observed.",
  [A+"as_arraylist.c", A+"as_orderedmap.c", A+"as_pair.c", A+"as_result.c"],
  [("list ownership", A+"as_arraylist.c"), ("map ownership", A+"as_orderedmap.c")], ["as_arraylist_*", "as_orderedmap_*"])
p("P23", "A reference-counted value is freed exactly when its last owner lets go",
  "Reserving adds one owner and releasing removes one; the value's content is destroyed exactly when the last owner releases it, its memory is freed exactly then and only if it was heap-allocated. Shared constants are never modified or freed, and concurrent releases cannot both or neither free.",
  ["histories", "schedules", "inputs"], "every value type, every count, heap and stack values, arbitrary interference by other owners between steps",
  "Tests do not observe frees; races between two releases need a specific interleaving.",
  [A+"as_val.c", HA+"as_val.h", A+"as_boolean.c", A+"as_nil.c", C+"cf_alloc.c"],
  [("value reference counting", A+"as_val.c:as_val_val_reserve, as_val_val_destroy"), ("counted memory blocks", C+"cf_alloc.c:cf_rc_*")],
  ["as_val_reserve", "as_val_destroy", "cf_rc_*"])
p("P24", "The linked list stays a well-formed doubly linked sequence",
  "Appending, prepending, inserting before or after an element and removing have exactly their sequence meaning: forward and backward links mirror each other, both ends are right, the count is exact and no other element moves. Visiting calls back every element once in order until told to stop, removing exactly the elements the visitor asks to remove.",
  ["histories", "inputs"], "every list length and every position of the affected elements",
  "There is no linked-list test; end and neighbour cases each need a specific position.",
  [C+"cf_ll.c", HC+"cf_ll.h"], [("list surgery", C+"cf_ll.c:cf_ll_append, cf_ll_prepend, cf_ll_insert_*, cf_ll_delete"), ("visiting", C+"cf_ll.c:cf_ll_reduce")],
  ["cf_ll_*"])
p("P25", "Byte buffers read and write exactly the addressed bytes",
  "Storing a number or block at a position changes exactly those bytes and reading it back gives the stored content; anything that would reach beyond the capacity (for stores) or the length (for reads) is refused and changes nothing. Appending extends the length by exactly what was added, growing keeps the content and shrinking clears the rest.",
  ["inputs", "histories"], "every capacity, length, position, block size and content",
  "Boundary positions and 32-bit wrap-around of position plus size are not tested.",
  [A+"as_bytes.c", HA+"as_bytes.h"], [("typed access", A+"as_bytes.c:as_bytes_get_*, as_bytes_set_*, as_bytes_append_*"), ("capacity", A+"as_bytes.c:as_bytes_ensure, as_bytes_truncate")],
  ["as_bytes_*"])
p("P26", "Variable-length integers in byte buffers round-trip",
  "Every 32-bit number stored as a variable-length integer at any position reads back as the same number with the same byte count, and storing never writes outside the buffer's capacity. Reading never looks outside the buffer.",
  ["inputs"], "every 32-bit number, every position and capacity",
  "Only a couple of numbers are tried by tests; each further 7 bits adds a byte.",
  [A+"as_bytes.c"], [("variable-length integers", A+"as_bytes.c:as_bytes_set_var_int, as_bytes_append_var_int, as_bytes_get_var_int")],
  ["as_bytes_set_var_int", "as_bytes_append_var_int", "as_bytes_get_var_int"])
p("P27", "Hexadecimal text of bytes is exact and stays in its buffer",
  "Formatting bytes as hexadecimal text yields two digits per byte in order, as many whole bytes as fit in the given text size, always terminated and never beyond the given size. The text form of a byte buffer shows every byte when room is unlimited.",
  ["inputs"], "every byte content, every byte count and every text size including tiny ones",
  "Truncation boundaries (odd sizes, size zero or one) are not tested.",
  [A+"as_bytes.c", A+"as_string_builder.c", A+"as_buffer.c"], [("hex formatting", A+"as_bytes.c:as_bytes_to_string, as_bytes_to_string_with_prefix"), ("builder hex", A+"as_string_builder.c:as_string_builder_append_bytes")],
  ["as_bytes_to_string", "as_string_builder_append_bytes"])
p("P28", "The string builder holds exactly what was appended, always terminated",
  "After any append the buffer holds the previous text followed by the appended text (or, in a fixed buffer that is too small, the longest prefix that fits, with failure reported), the length matches and a terminating zero lies inside the capacity. A growable builder never truncates.",
  ["histories", "inputs"], "every capacity, fill level, appended text and number",
  "Exact-fit boundaries of length against capacity are not enumerated by tests.",
  [A+"as_string_builder.c", HA+"as_string_builder.h"], [("append", A+"as_string_builder.c:as_string_builder_append, as_string_builder_append_char"), ("growth", A+"as_string_builder.c:as_string_builder_increase_capacity")],
  ["as_string_builder_*"])
p("P29", "String helpers copy, measure and split without overrunning",
  "Bounded copy writes at most the given number of bytes, always terminates, copies the longest prefix that fits and reports truncation exactly when the source did not fit. Base-name extraction gives the part after the last separator, and a string value reports its exact length and reads exactly its characters.",
  ["inputs"], "every source text and every destination size",
  "Only a few literals are tested.",
  [A+"as_string.c", HA+"as_string.h"], [("bounded copy", A+"as_string.c:as_strncpy"), ("base name", A+"as_string.c:as_basename"), ("string length", A+"as_string.c:as_string_len")],
  ["as_strncpy", "as_basename", "as_string_len"])
p("P30", "Pooled buffers are always large enough and never shared",
  "A buffer handed out has at least the requested room after its header, is not held by anyone else, and a returned buffer is kept only if it has the pool's size and the pool is below its limit, otherwise it is freed exactly once. Draining the pool frees every pooled buffer exactly once.",
  ["histories", "inputs"], "every pool content, requested size, returned capacity and limit",
  "There is no pool test.",
  [A+"as_buffer_pool.c", HA+"as_buffer_pool.h"], [("pool", A+"as_buffer_pool.c")], ["as_buffer_pool_*"])
p("P31", "Digests match their standards for every message and every chunking",
  "The RIPEMD-160 and SHA-1 digests of a message are the published functions of exactly its bytes, for every message length. Feeding a message in pieces gives the digest of the concatenation.",
  ["inputs", "histories"], "every message length (64-bit bit counter), every split into pieces, every block content",
  "No digest test exists; padding and counter carry depend on length modulo 64 and on lengths beyond 2^29 bytes.",
  [C+"cf_crypto.c", HC+"cf_digest.h", HC+"cf_crypto.h"], [("RIPEMD-160", C+"cf_crypto.c:cf_RIPEMD160*"), ("SHA-1", C+"cf_crypto.c:cf_SHA1*"), ("two-part digest", HC+"cf_digest.h:cf_digest_compute2")],
  ["cf_RIPEMD160", "cf_RIPEMD160_Update", "cf_SHA1", "cf_digest_compute", "cf_digest_compute2"])
p("P32", "Hash functions equal their published definitions and read only their input",
  "The FNV-1a, one-at-a-time, pointer, Murmur3-128 and wyhash functions return the published value for every input of every length and read only the given bytes.",
  ["inputs"], "every length and content",
  "No test exists; tails depend on length modulo the block size and stored data depends on the values never changing.",
  [HC+"cf_hash_math.h"], [("hash functions", HC+"cf_hash_math.h")], ["cf_hash_*", "murmurHash3_x64_128", "cf_wyhash64", "cf_wyhash32"])
p("P33", "Random generation fills exactly what was asked",
  "Filling bytes or a string of any requested length writes exactly that many bytes (plus a terminator for strings), strings contain only alphanumeric characters, and the system-random buffer never hands out the same byte twice or a byte outside its pool. Failure to obtain randomness is reported.",
  ["inputs", "histories", "fault_sequences"], "every length, every generator state, failure of the system source",
  "Tests check one or two lengths and do not observe overruns or reuse.",
  [A+"as_random.c", HA+"as_random.h", C+"cf_random.c"], [("generator", HA+"as_random.h, "+A+"as_random.c"), ("system random pool", C+"cf_random.c")],
  ["as_random_next_bytes", "as_random_next_str", "cf_get_rand_buf", "cf_get_rand64", "cf_get_rand32"])
p("P34", "Time and byte-order conversions are exact",
  "Conversions between time units and between the system epoch and the product epoch are exact with the documented flooring, remaining lifetimes are never below one and never-expires is kept. Byte-order conversions are exact and self-inverse.",
  ["inputs"], "every 64-bit time value and every number",
  "No test exists; boundary values such as the epoch itself are never tried.",
  [HC+"cf_clock.h", HC+"cf_byte_order.h"], [("time conversion", HC+"cf_clock.h"), ("byte order", HC+"cf_byte_order.h")], ["cf_clepoch_*", "cf_utc_ns_from_*", "cf_server_void_time_to_ttl", "cf_swap_*"])
p("P35", "The task pool runs every queued task exactly once",
  "A worker executes each task it takes exactly once with its own argument and stops only on the stop marker; queueing hands over exactly the given task, refuses when the pool is closed, and shutting down sends exactly one stop marker per worker and waits for each. Resizing starts or stops exactly the difference.",
  ["histories", "inputs"], "every pool size, every task sequence, every failure of thread creation",
  "There is no thread-pool test.",
  [A+"as_thread_pool.c", HA+"as_thread_pool.h"], [("pool", A+"as_thread_pool.c")], ["as_thread_pool_*"])
p("P36", "Typed accessors of lists, maps and records convert exactly or give the default",
  "Generic and typed access through the list, map, string-map and record interfaces reaches the same element as the concrete container, returns its content when the type matches and the documented default otherwise. A missing container or operation gives the documented default and never crashes.",
  ["inputs", "configurations"], "every element type and content, every subset of provided operations",
  "There are dozens of near-identical accessors; tests touch a few.",
  [HA+"as_list.h", HA+"as_map.h", HA+"as_stringmap.h", HA+"as_rec.h", HA+"as_integer.h", HA+"as_string.h"],
  [("list interface", HA+"as_list.h"), ("map interface", HA+"as_map.h"), ("string-map interface", HA+"as_stringmap.h"), ("record interface", HA+"as_rec.h")],
  ["as_list_get_*", "as_map_get", "as_stringmap_get_*", "as_rec_get_*"])
p("P37", "Text forms of containers stay inside their allocation and show every element",
  "The text form of a list, map or pair is terminated inside its allocation and consists of the text forms of all elements in order with the documented separators. It works for every element count and element text length.",
  ["inputs"], "every element count and every element text length",
  "Growth of the text buffer is hit only for particular combinations of lengths.",
  [A+"as_list.c", A+"as_map.c", A+"as_pair.c"], [("list text", A+"as_list.c:as_list_val_tostring"), ("map text", A+"as_map.c:as_map_val_tostring")], ["as_val_tostring"])
p("P38", "Password hashing is deterministic and matches bcrypt",
  "Hashing the same password with the same salt always yields the same 60-character bcrypt text, and constant credentials hash to the published constant.",
  ["inputs"], "every password and salt",
  "One or two literals are tested.",
  [A+"as_password.c", A+"crypt_blowfish.c"], [("hashing", A+"as_password.c")], ["as_password_gen_hash", "as_password_get_constant_hash"])
p("P39", "Concurrent use of queues never loses or duplicates items and never deadlocks",
  "Under every interleaving of producers and consumers each inserted item is delivered to exactly one consumer, every waiter is eventually woken when items keep coming, and operations never deadlock.",
  ["schedules"], "every thread interleaving, including spurious wake-ups",
  "Tests run one or two threads under one schedule.",
  [C+"cf_queue.c", A+"as_queue_mt.c", A+"as_thread_pool.c"], [("blocking queues", C+"cf_queue.c, "+A+"as_queue_mt.c")], ["cf_queue_*", "as_queue_mt_*", "as_thread_pool_*"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for e in P: f.write(json.dumps(e) + "\n")
print(len(P), "properties")
