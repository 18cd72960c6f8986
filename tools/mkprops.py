#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

H = ["histories", "inputs"]
prop("C01", "Stack is last-in first-out",
 "After any sequence of operations on an int stack, Pop and Top yield exactly the most recently pushed value not yet popped (or report ok=false and the zero value on an empty stack), Size is the number of values held and Empty says whether it is zero. Push, Pop and Clear/Init change nothing except their documented effect on that sequence, and no operation panics, including on a zero-value stack and for any initial buffer size that can be allocated.",
 H, "every operation history from every reachable stack state, every pushed value, every buffer size argument",
 "The stack has no test at all; a test could only sample a few histories.",
 ["stl/stack.gp_int.go"], [("slice append/reslice on the top end", "stl/stack.gp_int.go")],
 [("d", "values held, bottom first", "stl/stack.gp_int.go IntStack.d")],
 ["Push/Pop/Top/Size/Empty results"])
prop("C02", "Queue is first-in first-out across wrap-around, growth and shrink",
 "After any sequence of Init, Push, Pop, Front, Back, Shrink and Clear on an int queue, the queue holds exactly the values pushed and not yet popped, in push order: Pop and Front give the oldest, Back the newest, Size their number, and on an empty queue they report ok=false. No value is lost, duplicated or reordered when the ring buffer wraps, grows or is shrunk, Shrink reports true exactly when it replaced the buffer by a smaller one, and no operation panics.",
 H, "every history, every head/tail position in the ring, every buffer size including the zero-value queue",
 "No test touches the queue; the failing states need a particular head/tail/capacity alignment.",
 ["stl/queue.gp_int.go"], [("ring buffer with head/tail indices, doubling when full", "stl/queue.gp_int.go Push"), ("Shrink re-packs into a smaller ring", "stl/queue.gp_int.go Shrink")],
 [("head,tail,d", "values are d[head..tail) cyclically", "IntQueue")], ["Pop/Front/Back/Size"])
prop("C03", "Deque keeps the double-ended sequence across wrap, growth and shrink",
 "After any sequence of operations on an int deque, its contents are the sequence obtained by adding and removing values at the two ends: PopFront/Front give the first, PopBack/Back the last, Size the length, and on an empty deque they report ok=false. No value is lost, duplicated or reordered when the ring buffer wraps, grows or is shrunk from any alignment, Shrink reports true exactly when it replaced the buffer by a smaller one, and no operation panics.",
 H, "every history, every ring alignment, every buffer size including the zero-value deque",
 "No test touches the deque; growth from a wrapped state is never exercised.",
 ["stl/deque.gp_int.go"], [("ring buffer with head/tail indices, doubling when full", "stl/deque.gp_int.go PushFront/PushBack")],
 [("head,tail,d", "values are d[head..tail) cyclically", "IntDeque")], ["PopFront/PopBack/Front/Back/Size"])
prop("C04", "Heap always serves its best element and keeps the multiset of values",
 "For an unlimited int heap in either orientation, and for the slice-based heap functions, pushing, popping and building leave a valid heap: the top is the largest (max-top) or smallest (min-top) of all values held, popping removes exactly one occurrence of that value, pushing adds exactly one, and building only permutes the slice. The heap validity test returns true exactly for slices in which no child beats its parent, and an empty heap reports ok=false without panicking.",
 H, "every slice content and length, every push/pop history, both orientations",
 "The only test prints the pops of one 8-value example and asserts nothing.",
 ["stl/heap.gp_int.go", "stl/functorcmp.gp_int.go"], [("sift-up / sift-down over an implicit binary tree", "stl/heap.gp_int.go adjustUp/adjustDown")],
 [("b", "implicit binary heap", "IntHeap.b")], ["Top/Pop results", "PushHeap/PopHeap/MakeHeap slices", "CheckHeap"])
prop("C05", "Heap sort sorts and Reverse reverses, in place, for every slice",
 "For every int slice, heap sort leaves the same multiset of values in the same slice in ascending order for a max-top heap and descending order for a min-top heap, and Reverse leaves exactly the reversed slice. Both work for every length including 0 and 1, never panic, and touch nothing outside the slice.",
 ["inputs"], "every slice content and length, both orientations",
 "Not tested; sorting is a for-all-inputs statement.",
 ["stl/heap.gp_int.go"], [("MakeHeap then repeated PopHeap into the tail", "stl/heap.gp_int.go SortHeap"), ("swap loop", "stl/heap.gp_int.go Reverse")], None, ["slice contents after the call"])
prop("C06", "A size-limited heap keeps exactly the best N values",
 "A heap created with a positive limit never holds more values than the limit. When full, pushing a value that does not beat (or tie) the current top in the heap's order is dropped leaving the heap unchanged, otherwise the top is removed and the value added; so a max-top heap of limit N holds the N smallest values pushed so far and a min-top heap the N largest.",
 H, "every push history, every limit, both orientations",
 "The single test prints values for one limit and one input order and asserts nothing.",
 ["stl/heap.gp_int.go"], [("limit test in Push", "stl/heap.gp_int.go Push")], [("limitN", "size limit if positive", "IntHeap.limitN")], ["Size", "Pop sequence"])
prop("C07", "Doubly linked list stays a well-formed ring holding the expected sequence",
 "Every doubly linked int list operation (push, insert, pop, remove, move, rotate, splice, reverse, clear) leaves both link directions consistent and the list holding exactly the node sequence the operation's name describes, with no node lost, duplicated or shared and all other nodes' values untouched. Removed nodes come back detached, reachability and node-validity queries answer exactly whether a node is in the list, and visitors step through the list in order in both directions. (Marks and nodes passed in belong to the list, or are fresh where a node is inserted; a list spliced in is another list.)",
 H, "every list length, every position of the node/mark arguments (front, middle, back, single element), every history",
 "No test touches the list; the broken cases need a particular position of the argument node.",
 ["stl/list.gp_int.go"], [("circular links with a head pointer", "stl/list.gp_int.go")],
 [("head, next, prev", "ring of nodes; head is the first", "IntList/IntListNode")], ["forward and backward traversal"])
prop("C08", "Sorting a doubly linked list yields a stable ordered permutation",
 "Sorting a doubly linked int list leaves exactly the same nodes in the list in non-descending value order, nodes of equal value keeping their relative order, with both link directions consistent. It terminates without panicking for every list.",
 ["inputs"], "every list length and content", "Not tested; sorting is a for-all-inputs statement.",
 ["stl/list.gp_int.go"], [("bottom-up merge sort with bins", "stl/list.gp_int.go mergeSort/merge")], None, ["traversal after Sort"])
prop("C09", "Singly linked list operations keep the expected node sequence",
 "Every singly linked int list operation (push, insert after, pop, remove, move to front, move after, reverse, splice, clear) leaves the list holding exactly the node sequence the operation's name describes, nil-terminated, with no node lost or duplicated and values untouched; Empty, Len, tail lookup, visitor and reachability queries agree with that sequence. The cycle test answers true exactly for chains that loop and terminates without panicking on every chain. (Marks and nodes passed in belong to the list, or are fresh where a node is inserted; a list spliced in is another list.)",
 H, "every list length, every position of node/mark arguments, every history",
 "No test touches the singly linked list.",
 ["stl/slist.gp_int.go"], [("dummy head node and next links", "stl/slist.gp_int.go")],
 [("head.next, next", "nil-terminated chain", "IntSList/IntSListNode")], ["traversal from Front via Next"])
prop("C10", "Sorting a singly linked list yields a stable ordered permutation",
 "Sorting a singly linked int list leaves exactly the same nodes in the list in non-descending value order, nodes of equal value keeping their relative order, nil-terminated. It terminates without panicking for every list.",
 ["inputs"], "every list length and content", "Not tested; sorting is a for-all-inputs statement.",
 ["stl/slist.gp_int.go"], [("bottom-up merge sort with bins", "stl/slist.gp_int.go mergeSort/merge")], None, ["traversal after Sort"])
prop("C11", "Sortable slice: positional insert, remove, get, pop act on exactly one slot",
 "On the sortable slices (of ints and of tree nodes), Insert at a valid index places the value there and shifts the following ones up by one, any other index appends; Remove deletes exactly the indexed value and shifts the following ones down; Push, Pop, Get and Len act on the end or the given index. All other values keep their order, an out-of-range index or empty slice is reported with ok=false and changes nothing, and only MustGet panics, exactly when the index is out of range.",
 H, "every slice content, every index including negative and past-the-end, every history",
 "No test touches the sortable slice.",
 ["stl/sort_slice.gp_int.go", "stl/sort_slice.gp_#inttreenodeb60b.go"], [("append/copy on the backing slice", "Insert/Remove/Pop")],
 [("d", "the values in order", "IntSortSlice.d, IntTreeNodeSortSlice.d")], ["Buffer/Get/Len"])
prop("C12", "Comparators are strict orders and sorting a sortable slice orders it",
 "The Lesser comparator answers exactly left<right and the Greater comparator exactly right<left (tree nodes compared by value), an unknown comparator is never true, and creation by name or flag selects the documented one (empty name means Lesser; any other unknown name panics). Through them the sortable slices give sort a strict weak order and an exact two-slot swap, so that sorting leaves an ascending permutation of the contents.",
 ["inputs"], "every pair of values, every comparator value, every name, every slice",
 "No test calls the comparators.",
 ["stl/functorcmp.gp_int.go", "stl/functorcmp.gp_#inttreenodeb60b.go", "stl/sort_slice.gp_int.go", "stl/sort_slice.gp_#inttreenodeb60b.go", "stl/tree.gp_int.go"],
 [("F dispatches on the comparator value", "functorcmp F"), ("Less/Swap/Len handed to sort.Sort", "sort_slice")], None, ["F, Less, Swap results"])
prop("C13", "Tree visitor walks the tree in pre-order, forwards and backwards",
 "For every tree, repeatedly stepping a fresh visitor forward visits every node exactly once in pre-order (node, then children left to right) and then reports the end; stepping a fresh visitor backward visits exactly the reverse of that order; stepping back after a step forward returns to the previous node. Listing all values gives the same pre-order, and adding, getting and removing children act on exactly the indexed child.",
 ["inputs", "histories"], "every tree shape and every visitor position",
 "No test touches the tree.",
 ["stl/tree.gp_int.go", "stl/sort_slice.gp_#inttreenodeb60b.go"], [("explicit ancestor stack with child indices", "stl/tree.gp_int.go Next/Prev/top_right")],
 [("node, parents, brotherIdxes", "path from the root to the current node", "IntTreeNodeVisitor")], ["Next/Prev/Get sequence", "All"])
prop("C14", "Ranged integers never leave their range and never report a wrong result",
 "For both unsigned widths, a successfully created or initialised ranged integer always satisfies min<=value<=max, and a creation, initialisation or assignment outside the range reports an error and changes nothing. Add, Sub, Mul, Div and Mod return the exact mathematical result with no error when it lies inside [min,max], and report an error whenever it does not, overflows, underflows or divides by zero, never panicking; Inc and Dec move the value by one and report an error (keeping it) at the limit.",
 H, "every min/max/value/operand of the type, every operation history",
 "The package has no tests; overflow corners are a for-all-inputs statement.",
 ["math/range_uint32.go", "math/range_uint64.go"], [("verify on every result and assignment", "math/range_uint32.go verify"), ("overflow guards before each operation", "math/range_uint32.go Add/Sub/Mul/Div/Mod")],
 [("val,min,max", "current value and inclusive limits", "RangeUint32/RangeUInt64")], ["returned value and error", "Get/Val/Min/Max"])
prop("C15", "Bit, byte and word extraction returns exactly the addressed field",
 "For every 32-bit value and every index, bit, byte and word extraction return exactly the addressed 1, 8 or 16 bits, counted from the least significant end and shifted down to bit 0, with no error when the index is in range; for an index out of range they return 0 and an error. No input panics.",
 ["inputs"], "all 2^64 (value,index) pairs per function", "The package has no tests.",
 ["math/bits_bytes.go"], [("mask and shift after an index check", "math/bits_bytes.go")], None, ["return values"])
prop("C16", "Thousands formatting denotes exactly the number",
 "For every unsigned 64-bit number, the comma-formatted string is its decimal representation with a comma between every group of three digits counted from the right, each inner group having exactly three digits and no leading comma or padding in the first group.",
 ["inputs"], "all 2^64 numbers", "The package has no tests.",
 ["math/uint64.go"], [("repeated division by 1000 with %03d groups", "math/uint64.go CommaString")], None, ["returned string"])
prop("C17", "Integer square root is the nearest integer for every 32-bit input",
 "For every 32-bit unsigned n, the fast square root returns the integer nearest to the real square root of n (no input lies on a tie). It never panics.",
 ["inputs"], "all 2^32 inputs", "No test; the digit-by-digit algorithm must hold for every input.",
 ["math/prime/prime.go"], [("digit-by-digit root in 16 steps then rounding", "math/prime/prime.go SqrtUint32/step")], None, ["return value"])
prop("C18", "The primality test is exact for every 32-bit number",
 "For every 32-bit unsigned number, the primality test returns true exactly if the number is prime.",
 ["inputs"], "all 2^32 inputs", "No test; exactness is a for-all-inputs statement.",
 ["math/prime/prime.go", "math/prime/prime_data.go"], [("trial division by the tabulated primes up to the square root", "math/prime/prime.go IsPrime")], [("g_primes", "all primes up to 65537", "math/prime/prime_data.go")], ["return value"])
prop("C19", "Padding then unpadding returns the original bytes",
 "For every byte string and block size from 1 to 255, PKCS#5 and PKCS#7 padding (bytes or string input) return the input followed by n copies of byte n with 1<=n<=block size making the length a multiple of the block size, and the matching unpadding returns exactly the input; zero padding likewise appends 1 to block-size zero bytes, and its unpadding removes exactly the trailing zero bytes.",
 ["inputs"], "every byte string, every block size 1..255", "The package has no tests.",
 ["crypto/padding.go", "crypto/aes/aes.go"], [("pad length = blockSize - len%blockSize", "crypto/padding.go, crypto/aes/aes.go")], None, ["returned slices"])
prop("C20", "AES decrypter inverts the AES encrypter message by message",
 "For every valid AES key, an encrypter and a decrypter created from that key and fed the same sequence of messages satisfy: decrypting the i-th ciphertext returns the i-th message exactly, for byte and string messages of every length, and every ciphertext is a whole number of blocks longer than the message. An invalid key is reported as an error by both constructors and nothing else.",
 H, "every key, every sequence of messages of any length", "The package has no tests.",
 ["crypto/aes/aes.go"], [("PKCS#7 padding, CBC with the key prefix as IV on both sides", "crypto/aes/aes.go")], [("blockMode", "CBC chaining state carried across messages", "AESEncrypter/AESDecrypter")], ["Encrypt/Decrypt results"])
prop("C21", "Fingerprint depends only on the bytes written",
 "The fingerprint is a function of the bytes written since creation or the last Reset, however they are split into writes: a 6-byte big-endian byte count followed by 6-byte excerpts of their MD5, SHA-1 and CRC-64 digests. Sum appends those 24 bytes to its argument without changing the state, the text form is the same 24 bytes in hexadecimal grouped by dashes, Reset returns to the initial state, and Write accepts all bytes without error.",
 H, "every byte string, every way of splitting it, every Write/Sum/Reset history", "The package has no tests.",
 ["hash/finger_print.go"], [("three digests updated in step plus a byte counter", "hash/finger_print.go")], [("hs1,hs2,hs3,size", "running digests and byte count", "Fingerprint")], ["Sum/String results"])
prop("C22", "Hash selection and string hashing use the named algorithm",
 "Selecting a hash method creates a fresh hash of exactly the named algorithm (MD5, SHA-1, SHA-256, SHA-512, CRC-32 IEEE, CRC-64 ISO, fingerprint, none) and panics for an unknown one; hashing a string returns the lowercase hexadecimal digest of exactly its bytes, and the variant with length prefixes the byte count as ten decimal digits. The none hash accepts every write in full, appends to Sum's argument a 4-byte big-endian identity fixed at creation, and two none hashes have different identities until 2^32 have been created.",
 ["inputs", "histories"], "every method value, every string, every history", "The package has no tests.",
 ["hash/hash.go", "hash/none_hash.go"], [("switch on the method", "hash/hash.go New"), ("creation counter", "hash/none_hash.go")], None, ["returned strings", "Sum"])
prop("C23", "Multi-destination copy delivers the whole source to every destination",
 "Copying from a reader to several distinct writers that behave per the io contracts ends without error only if every destination received exactly all bytes of the source in order, and then reports that byte count; when a write fails or takes fewer bytes than given, copying stops with that error (or a short-write error), when a read fails with anything but the end of the source the bytes read are still delivered and that error is returned, and in every case each destination received a prefix of the source. This holds whether or not the source can write itself out, and for any supplied non-empty buffer.",
 ["inputs", "fault_sequences"], "every source, every chunking by the reader, every number of destinations, every failure point", "The package has no tests.",
 ["io/io.go"], [("read loop writing each chunk to every destination", "io/io.go CopysBuffer"), ("WriterTo fast path", "io/io.go CopysBuffer")], None, ["bytes received by each writer", "written, err"])
prop("C24", "INI lookup returns the last value assigned in the file",
 "After loading an INI text, looking up a key in a section returns the trimmed text after the first '=' of the last line that sets that trimmed key while that section is current (the empty string if the line has no '='), and the default if there is none; blank lines, lines starting with ';', lines while no section with a non-empty name is current and lines with an empty key set nothing. The section list holds exactly the section names seen in headers and the key list exactly the keys set in that section, each once.",
 ["inputs"], "every input text", "The package has no tests.",
 ["encoding/ini/ini.go"], [("line loop with current section", "encoding/ini/ini.go Load"), ("two-level map lookup", "encoding/ini/ini.go GetString")], [("sections", "section -> key -> value", "IniFile.sections")], ["GetString/Keys/Sections"])
prop("C25", "Factories create through the creator last registered under a name",
 "For the int-keyed, string-keyed and global factories: after a successful registration under a key, creating with that key calls exactly that creator with exactly the given arguments and returns its result, until the key is registered again or removed; creating with a key that is not registered returns nil. Operations on one key never affect another.",
 H, "every history of register/remove/create over all keys", "The only test in the package does not call it.",
 ["factory/factory.go", "factory/factoryi.go", "factory/factorys.go"], [("map from key to creator", "factory/factoryi.go, factory/factorys.go")], [("cmap", "registered creators", "FactoryI/FactoryS")], ["Create results"])
prop("C26", "Spin lock gives mutual exclusion under every schedule",
 "Under every interleaving of goroutines, at most one holds a spin lock between the return of its Lock and its call of Unlock, Lock returns only after acquiring a lock that was free, and Unlock frees it so that it can be acquired again. Unlocking a lock that is not locked panics and leaves it unlocked; Lock panics rather than returning without the lock when it spins out.",
 ["schedules", "histories"], "every number of goroutines, every interleaving of their atomic steps", "No test; tests sample a few schedules.",
 ["sync/spinlock.go"], [("compare-and-swap on the state word", "sync/spinlock.go")], [("state", "0 free, 1 held", "SpinLock.state")], ["Lock/Unlock"])
prop("C27", "Read-write spin lock excludes writers from readers and from each other",
 "Under every interleaving, while a goroutine holds the write lock no other goroutine holds the read or write lock, and any number of goroutines may hold the read lock together; releasing the last read lock, or the write lock, makes the lock available to writers again. Releasing a lock that is not held panics.",
 ["schedules", "histories"], "every number of goroutines (fewer than 2^30 readers), every interleaving of atomic steps", "No test; tests sample a few schedules.",
 ["sync/spinrwlock.go", "sync/spinlock.go"], [("reader count with a writer offset, plus a writer spin lock", "sync/spinrwlock.go")], [("readerCount, w", "readers inside / writer inside", "RWSpinLock")], ["Lock/Unlock/RLock/RUnlock"])
prop("C28", "Zero-copy string/byte conversions preserve contents and share storage",
 "For every string, the no-copy byte view has exactly its bytes, its length and a capacity equal to its length; for every byte slice, the no-copy string has exactly its bytes and length; in both directions the result shares the original storage, and the pointer accessors return the address of the first byte of that storage.",
 ["inputs"], "every string and byte slice", "The only test prints; it asserts nothing about contents.",
 ["unsafe/string.go"], [("reinterpreting string and slice headers", "unsafe/string.go")], None, ["returned views"])
prop("C29", "Bounded random numbers stay inside the requested range",
 "For every generator state and every pair of bounds in either order, a ranged random number lies between the smaller and the larger bound inclusive, and a random number below a positive maximum is strictly less than it; no arguments panic, and one call advances the generator by exactly one step of its recurrence. This holds for the 32-bit and the 64-bit generator.",
 ["inputs"], "every seed, every min and max of the type including the full range", "The package is excluded from the test run.",
 ["math/rand/rand.gp_32.go", "math/rand/rand.gp_64.go"], [("modulo reduction of the linear congruential step", "RandRange")], [("seed", "generator state", "Rand32T/Rand64T")], ["RandRange/RandMax/Seed"])
prop("C30", "Durations of a day or more print as whole days plus the remainder",
 "For every duration below one day the text is that of the standard library; for every other duration it is the number of whole days, the letter d, and the standard text of the remainder, the two parts summing exactly to the duration and the remainder being shorter than a day.",
 ["inputs"], "every 64-bit duration", "The package is excluded from the test run.",
 ["time/duration.go"], [("division and remainder by a day", "time/duration.go String")], None, ["String result"])
prop("C31", "Triple-DES decryption inverts encryption",
 "For every key and every message not ending in a zero byte, triple-DES decryption with the same key of the triple-DES encryption of the message returns the message and no error, and the ciphertext is the message length rounded up to the next larger multiple of eight bytes. Malformed ciphertext lengths are reported as errors, not panics.",
 ["inputs"], "every message of any length, every key", "The package does not build at the pinned commit, so it has no running test.",
 ["crypto/ecb/ecb.go", "crypto/padding.go"], [("encrypt-decrypt-encrypt over zero-padded blocks", "crypto/ecb/ecb.go")], None, ["returned bytes"])
prop("C32", "Backtraces name the caller's own frame and the frames around it, inside out",
 "Called from any function - inlined, closure, method, deferred, at any depth - Bt, BtFileLine and BtFunc report that function's own name, file and line; Caller, CallerFileLine and CallerFunc(d) report the frame d+1 calls further out and return the empty text when the stack has no such frame; Bts lists the caller's frame and the frames around it from the inside out, numbered from 0, up to the 50 innermost; CallStackList(n) lists the frames from n-2 calls outside its caller in the same order, up to 50; Assert panics exactly when its argument is false.",
 ["programs"], "every calling program, including inlined callers and stacks deeper than 50", "One test checks two calls from one function.",
 ["debug/backtrace.go", "debug/assert.go"], [("runtime.Caller with a fixed depth", "debug/backtrace.go"), ("frame lists", "debug/backtrace.go")], None, ["returned strings", "panics"])
prop("C33", "Random text has the requested length and alphabet",
 "strings.Rand returns, for every rule, every length from 0 on, every state of the shared generator and concurrent callers, a text of exactly that many bytes, each an upper-case letter A to Z, and does not panic.",
 ["inputs", "schedules"], "every length, rule, generator state and interleaving of callers", "The test prints five samples of length 8.",
 ["strings/rand.go", "math/rand/rand.gp_32.go"], [("index below the alphabet's length from RandMax", "strings/rand.go Rand")], None, ["returned string"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
