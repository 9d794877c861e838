TB = ' Trusted: clang/opt front end, the irv condition generator, z3/cvc5, the listed library contracts; a concrete oracle run of the real code accompanies every proof.'
prop('C01', 'Integers become exactly their positional text in every buffer size',
     'For every 64-bit signed or unsigned value, every radix from 2 to 36 and every grouping separator, converting an integer to text either stores exactly the minus sign (if negative) and the shortest digits of the value in that radix, grouped by three counted from the right when a separator is given, followed by a terminator, and reports success, or reports failure. It succeeds exactly when the buffer is large enough and the radix is valid, and never writes outside the buffer. The same holds for the number writers used by the JSON serializer and by the static and thread-local variables (radix 10 to text and, for the latter two, any valid radix).',
     ['inputs'], 'all 2^64 values, all radices, all separators, all buffer sizes', 'The tests convert a handful of constants into roomy buffers; exact-fit buffers, extreme values and odd radices are never tried.',
     ['convert/convert_int.cpp', 'json/json_serializer.cpp', 'templates/static_mixed_var.h', 'sync/sync_tls.cpp'],
     [('digits are produced from the end of the buffer and moved to the front', 'convert/convert_int.cpp Int::ToString'), ('private copies of the same algorithm', 'JSON::Serializer::IntToString, StaticMixedVar::IntToString, TLS::MixedVar::IntToString')],
     'Every obligation of the eight conversion functions is discharged for all inputs (digit loops unrolled to their full width-given bound of 64).' + TB)
prop('C07', 'Hash functions compute exactly their published algorithms',
     'For every byte string, the hash helpers of the cache, the ordered hash and the packed ordered hash compute exactly the documented functions: DJBX33X of the terminated string or of the counted data starting from the given seed (every byte counts, in order), and SipHash with the given key and round counts over the counted data including its length byte. They read only the bytes they were given and the three copies agree.',
     ['inputs'], 'all strings and data of every length and alignment, all keys, seeds and round counts', 'Tests hash a few short strings and only use the result as a bucket number; no test compares with a reference value or covers the left over bytes.',
     ['templates/cache.cpp', 'templates/detachable_ordered_hash.cpp', 'templates/packed_ordered_hash.cpp'],
     [('word-wise DJBX33X with a switch for the left over bytes', 'GetDJBX33XHashKey in the three files'), ('SipHash rounds and tail', 'GetSipHashKey in the two ordered hashes')],
     'Both algorithms are specified as recursive functions over the bytes and proved with loop invariants for data of every length up to 2^40.' + TB)
prop('C08', 'Cache finds exactly the last value stored in a slot for that key',
     'A cache of n slots behaves, after every history of operations, like n independent cells: inserting stores the key and value in the slot given by the hash modulo n and replaces what was there, finding or testing a key succeeds exactly when its slot is in use and holds an equal key and then yields the stored value, removing frees the slot exactly in that case, emptying frees all slots, nothing else changes. Copies and assignments give independent caches with the same size and contents.',
     ['inputs', 'histories'], 'all sizes, hashes, keys, values and operation sequences', 'Tests insert a handful of numbers; collisions between keys, stale slots, assignment between sizes and independence of copies are hardly sampled.',
     ['templates/cache.h', 'templates/cache_util.h'],
     [('direct-mapped slots', 'Cache/CacheNoCopy Insert, Find, Exists, Remove, Empty'), ('deep copies', 'Cache copy constructor and operator=')],
     'Each member function is proved against a per-slot contract with a data structure invariant; histories follow by induction. Proved for one integer instantiation; string instantiations are run by the oracle.' + TB)
prop('C11', 'Static vectors and 2D arrays keep every element through copies and resizing',
     'Vectors and 2D arrays behave like the mathematical sequence and matrix: a new one has the requested shape, fill sets every element, element access reaches exactly the addressed element, resizing keeps the elements common to both shapes, copying and assignment (including self assignment and different shapes) yield an independent object of equal shape and contents and release the old storage, and equality holds exactly when shapes and all elements are equal. Storage is never read or written out of bounds, leaked or released twice.',
     ['inputs', 'histories'], 'all shapes including empty ones, all contents, all operation sequences', 'Tests use two or three fixed shapes; growing and shrinking in one dimension, assignment between shapes and single differing elements are not sampled.',
     ['templates/static_vector.h', 'templates/static_2d_array.h'],
     [('reallocation with element-wise copy', 'StaticVector::SetSize, Static2DArray::SetSize'), ('row pointer table over one block', 'Static2DArray')],
     'Each member function is proved against a contract with nested loop invariants; proved for one integer instantiation, string instantiations are run by the oracle.' + TB)
prop('C12', 'Static mixed variables hold exactly the text and value put into them',
     'A static variable always holds a terminated text shorter than its capacity. Setting or appending stores the longest prefix of the given text that fits after the existing text (counted data may contain zero bytes), prepending puts the whole text first exactly when everything fits and otherwise changes nothing, numbers are written as their text in the given radix, the character helpers and the size setter change exactly what they say, and typed setters and getters keep the last value and mode. No byte outside the variable is ever touched.',
     ['inputs', 'histories'], 'all capacities, all texts, numbers and radices, all operation sequences', 'Tests append short texts to large variables; exact fits, capacity 1, embedded zero bytes and truncation are not tried.',
     ['templates/static_mixed_var.h'],
     [('bounded character loops with terminator', 'SetStr, SetData, AppendStr, AppendData'), ('move then copy', 'PrependStr, PrependData'), ('number writers', 'AppendInt/UInt/Double, PrependInt/UInt/Double, IntToString')],
     'Each member function is proved against its contract for capacities 1, 8 and 8192; the oracle runs ten capacities. The digits of doubles are the C library\'s.' + TB)
prop('C17', 'Random bytes come whole and unaltered from the device, or failure is reported',
     'Asking for random bytes either reports success after storing exactly the next requested number of bytes of the random device in order, whatever sizes its reads return and however often they are interrupted, or reports failure; it never succeeds with bytes that did not come from the device, never writes outside the buffer and never leaks or reuses a closed device. A random integer between two bounds given in either order lies between them, every value of the range can occur with the same chance.',
     ['inputs', 'fault sequences'], 'all sizes and bounds, all sequences of partial, interrupted and failing reads', 'Tests only look at a few results from a healthy device; partial reads, interruptions, failures and extreme bounds cannot be provoked by them.',
     ['security/security_csprng.cpp'],
     [('read loop', 'CSPRNG::GetBytes'), ('rejection sampling with the smallest mask', 'CSPRNG::GetInteger')],
     'Proved against a contract of read() with a ghost byte stream; uniformity is the lemma that the accepted value is a masked device word with nothing else discarded. Termination of rejection sampling is probabilistic and not claimed.' + TB)
prop('C18', 'Semaphores never hand out more permits than exist and lose none',
     'Under every interleaving of threads and processes, every spurious wakeup and every clock reading, a semaphore created with n permits (of at most n) has at every moment at most n of them handed out: Lock succeeds exactly by taking an available permit, Unlock returns one, never beyond the maximum, and reports the count before it. A try (wait 0) never blocks, a wait without a limit ends only with a permit, and a limited wait fails only after its whole time, in milliseconds, has passed. A returned permit wakes a waiter, no waiter sleeps while permits are available, and no internal lock stays held after any call.',
     ['interleavings', 'histories', 'inputs'], 'all interleavings, wakeups, clock values and time limits', 'Tests use one thread (or two with sleeps) and see neither lost wakeups, spurious wakeups, stolen permits nor deadlines that cross a second.',
     ['sync/sync_semaphore.cpp', 'sync/sync_util.cpp'],
     [('monitor on a process-shared mutex and condition', 'sync_util.cpp WaitForUnixSemaphore, ReleaseUnixSemaphore'), ('object life', 'Semaphore Create, Lock, Unlock, AutoUnlock')],
     'Monitor invariant method: each function is proved with the shared cells forgotten at every point where the lock is not held; the effect on the cells inside one critical section is specified exactly. The oracle runs the real code under a deterministic scheduler over thousands of schedules.' + TB)
prop('C19', 'Events wake every waiter of a manual and exactly one of an automatic event',
     'Under every interleaving, an event is either signaled or not: firing a manual event lets every present and future waiter through until it is reset, firing an automatic event lets exactly one waiter through (a present one, or the next to come) and is consumed by it, resetting withdraws it. Waiting succeeds exactly by observing the signal, a poll never blocks, a wait without a limit ends only by a signal, a limited one fails only after its whole time has passed. No waiter sleeps while the event is signaled for it and no internal lock stays held.',
     ['interleavings', 'histories', 'inputs'], 'all interleavings, wakeups, clock values and time limits', 'Tests fire and wait in one thread; waiters that time out while the event fires, several waiters and pollers between them are not sampled.',
     ['sync/sync_event.cpp', 'sync/sync_util.cpp'],
     [('monitor with a count of waiting threads', 'sync_util.cpp WaitForUnixEvent, FireUnixEvent, ResetUnixEvent'), ('object life', 'Event Create, Wait, Fire, Reset')],
     'Monitor invariant method as for the semaphore; that exactly one waiter is let through is the exact effect of each critical section. The oracle explores schedules of the real code deterministically.' + TB)
prop('C20', 'A mutex has one owner, counts its locks and is free after the last unlock',
     'Under every interleaving at most one thread (of all processes, for a named mutex) owns a mutex. The owner can lock it again any number of times without blocking; it becomes free exactly when unlocked as often, at once when all levels are released or when its object is destroyed. Only the owner can unlock it, a thread that does not own it can neither unlock nor recreate it while it is held, a failed lock changes nothing, and locking without contention always succeeds.',
     ['interleavings', 'histories'], 'all interleavings of lock, unlock and create by any number of threads', 'Tests lock from one thread or with a second thread at fixed moments; ownership changes between the unlocked phases of Lock are not sampled.',
     ['sync/sync_mutex.cpp', 'sync/sync_util.cpp'],
     [('owner and count behind a critical section', 'Mutex::Lock, Unlock'), ('semaphore of one permit', 'sync_util.cpp'), ('recreation', 'Mutex::Create')],
     'Owner and count are proved against ghost ownership with the state of other threads forgotten at every release; the semaphore inside is used by its contract (C18).' + TB)
prop('C21', 'A read-write lock admits many readers or one writer, never both',
     'Under every interleaving, while a writer holds the lock no other writer and no reader does. Any number of readers hold it together when there is no writer; a waiting writer is not overtaken by later readers; the last reader leaving lets the writer in. A failed lock leaves nothing behind, unlocking returns exactly what was taken and unlocking without readers is refused, a limited wait neither gives up before its limit nor starts a second full wait after the first, and nobody stays blocked once everybody left.',
     ['interleavings', 'histories', 'inputs'], 'all interleavings and time limits', 'Tests check a few sequential combinations; a reader or writer that times out half way, or enters between the count and the event, is not sampled.',
     ['sync/sync_readwritelock.cpp', 'sync/sync_util.cpp'],
     [('writer permit, counted readers and a manual event', 'ReadWriteLock ReadLock, WriteLock, ReadUnlock, WriteUnlock'), ('remaining time', 'ReadLock, WriteLock')],
     'Rely-guarantee contracts over the permits held: each function is proved to keep the invariant "event signaled iff no readers" whenever the counter permit is free. Liveness is covered by the deterministic scheduler of the oracle only.' + TB)
prop('C22', 'Named objects are built once, shared by name and size, and counted',
     'Creating an object by name, under every interleaving of processes and threads and every failing or interrupted system call, either maps the one shared object of that name and size completely or fails without leaving anything mapped, open or locked. Exactly the first of its users builds it, on zeroed memory, and all others are kept out until it is built; the number of users is exact, so a name whose users all left is rebuilt. The name given to the system always starts with a slash, has no other, and fits the limit for names of every length. The mode mask of the process is unchanged afterwards.',
     ['interleavings', 'fault sequences', 'inputs'], 'all names and sizes, all interleavings of creators, all failing system calls', 'Tests create a few short names in one process; racing creators, failing calls, long names and reuse after the last user are not sampled.',
     ['sync/sync_util.cpp', 'sync/sync_sharedmem.cpp', 'sync/sync_semaphore.cpp', 'sync/sync_mutex.cpp', 'sync/sync_event.cpp', 'sync/sync_readwritelock.cpp'],
     [('exclusive creation, status byte, mutex and reference count in the header', 'sync_util.cpp InitUnixNamedMem, UnixNamedMemReady, UnmapUnixNamedMem'), ('name folding', 'InitUnixNamedMem')],
     'The four helper functions are proved with ghost descriptors, mapping and mask; the Create members of the five classes are run by the oracle over simulated system calls (bounded). Changes of the mode mask by another thread at the same time are assumed away.' + TB)
prop('C03', 'Lists keep exactly the sequence their operations describe',
     'After every history of operations a list is a doubly linked sequence: walking forward from the first element and backward from the last gives the same elements in opposite orders, the size is their number, and each insertion (by value or by detached node, before, after or at either end), detachment, removal, pop, shift, emptying and appending of another list has exactly the effect of that operation on the sequence. Values never change, nodes not yet detached are refused, detached nodes have no neighbours and can be inserted again, removed nodes are released exactly once. Copies and assignments (also to itself) are independent sequences of equal values.',
     ['inputs', 'histories'], 'all operation histories over any number of lists and nodes', 'Tests run a few fixed sequences and mostly walk forward only.',
     ['templates/detachable_list.h', 'templates/detachable_list_util.h'],
     [('doubly linked nodes with first and last pointers', 'List/ListNoCopy InsertBefore, InsertAfter, Detach'), ('splicing', 'DetachAllAndAppend'), ('deep copies', 'List copy constructor, operator=')],
     'Representation invariant over ghost sequence, position and owner; every member function is proved to map the ghost sequence as stated (integer elements; ListNoCopy by IR identity with List, or proved again where it differs). String elements are run by the oracle.' + TB)
prop('C04', 'Queues keep exactly the sequence their operations describe',
     'After every history of operations a queue is a linked sequence from its first to its last element whose size is their number; pushing, unshifting (by value or detached node), shifting, emptying and appending all of another queue have exactly the effect of that operation on the sequence, values never change, shifted nodes are detached and reusable, released nodes are released exactly once, copies and assignments are independent sequences of equal values.',
     ['inputs', 'histories'], 'all operation histories over any number of queues and nodes', 'Tests run a few fixed sequences; empty queues on either side of an append or after a shift are hardly sampled.',
     ['templates/detachable_queue.h', 'templates/detachable_queue_util.h'],
     [('singly linked nodes with first and last pointers', 'Queue/QueueNoCopy Push, Unshift, Shift'), ('splicing', 'DetachAllAndAppend'), ('deep copies', 'Queue copy constructor, operator=')],
     'Same representation invariant and contracts as the list without backward links.' + TB)

prop('C14', 'Conversion to UTF-8 yields exactly the valid code points of the input',
     'For every input in 8, 16 or 32-bit units, converting to UTF-8 cuts the input into well-formed sequences and skips malformed pieces (an unpaired surrogate or a broken sequence never consumes what follows it), drops surrogates, non-characters, values above 0x10FFFF and a combining code point at the very start, and stores the shortest UTF-8 encoding of each remaining code point that still fits, in order and whole. Asking for the size without a buffer yields exactly the size of the unlimited result; nothing is read beyond the input or written beyond the capacity or past the reported size; the last position names the last code point stored; the allocating form returns the complete result.',
     ['inputs'], 'all inputs of every width and length, all buffer capacities', 'Tests convert a few well-formed strings with room to spare; malformed sequences, surrogates at the end and exact fits are not tried.',
     ['utf8/utf8_util.cpp', 'utf8/utf8_mixed_var.h'],
     [('encoder', 'Util::AppendUTF8CodePoint'), ('decoders for the three widths', 'Util::ConvertToUTF8'), ('measuring pass then converting pass', 'Util::ConvertToUTF8 (allocating)'), ('WCHAR text into variables', 'UTF8MixedVar SetUTF8, AppendUTF8')],
     'The encoder and the converting function are proved for every width, buffer and input with an inductive definition of the decoding; the allocating wrapper and the mixed variable are run by the oracle (bounded). In the quick tier the stored bytes are proved in the case without LastPos; the thorough tier proves them with it as well.' + TB)
prop('C15', 'Conversion from UTF-8 yields exactly the code points up to the first bad one',
     'For every byte string and every destination width (8, 16 or 32 bits), converting from UTF-8 skips malformed bytes and stores, in order, the encoding of each decoded code point in that width, surrogate pairs included and never split, up to the first decoded value that is not a valid code point, is a combining code point at the very start, or no longer fits. Asking for the size without a buffer yields exactly the size of the unlimited result; nothing is read beyond the input or written beyond the capacity or past the reported size; the allocating form returns the complete terminated result.',
     ['inputs'], 'all byte strings, all destination widths and capacities', 'Tests convert a few well-formed strings; capacities that cut a pair, values above 0x10FFFF and truncated sequences are not tried.',
     ['utf8/utf8_util.cpp', 'utf8/utf8_mixed_var.h'],
     [('encoder for three widths', 'Util::AppendUTFCodePoint'), ('decoder', 'Util::ConvertFromUTF8'), ('measuring pass then converting pass', 'Util::ConvertFromUTF8 (allocating)')],
     'Encoder and converting function proved for every width, buffer and input; the allocating wrapper is run by the oracle (bounded).' + TB)
prop('C16', 'Code point iteration walks exactly the well-formed start of a UTF-8 string',
     'For every terminated string, iterating yields the code points of its well-formed start in order, each with the information whether a combining code point follows, and stops at the end, at the first malformed sequence, or at once when the string starts with a combining code point; it never reads past the terminator. The length is the number of iterated code points not followed by a combining one, searching yields the byte position where the first matching code point starts (and ignores matches followed by a combining one unless they are allowed), and the ASCII iteration yields exactly the ASCII characters that no combining code point follows.',
     ['inputs'], 'all terminated byte strings and search values', 'Tests iterate over a few well-formed strings; malformed and truncated sequences, combining marks of every block and multi-byte first characters are not tried.',
     ['utf8/utf8_util.cpp'],
     [('look-ahead decoder', 'Util::NextCodePoint'), ('loops over it', 'Util::strlen, FindCodePoint, NextASCIICodePoint'), ('four blocks', 'Util::IsCombiningCodePoint')],
     'All five functions are proved; the loops against recursive definitions over the contract of NextCodePoint.' + TB)
prop('C13', 'JSON output is exactly the valid text of the calls that succeeded',
     'After every sequence of serializer calls, the text produced so far is exactly the concatenation of the pieces of the calls that succeeded: brackets, separators, newlines, padding and spaces according to the state, keys and strings with exactly the characters escaped that JSON requires, decimal integers, finite doubles, true, false and null. A call succeeds exactly when it is legal at this point (a key in and only in an object, one root value, closing what is open, depth within the limit, finite number) and its piece fits; a call that fails changes nothing, so it can be repeated after the buffer has been handed out, and the chunks handed out put together are the text. The text of a finished document is valid JSON and nothing is written outside the buffer.',
     ['inputs', 'histories'], 'all call sequences, keys, strings, numbers, paddings, separators and buffer sizes', 'Tests build a few documents in one roomy buffer; exact fits, repeated calls after a full buffer, control characters, illegal calls and extreme numbers are not sampled.',
     ['json/json_serializer.h', 'json/json_serializer.cpp'],
     [('state machine with a depth-indexed mode table', 'Serializer::SetCurrMode, AppendPreCommit, CalculatePrePos, IsKeyAllowed, IsValAllowed'), ('escaping', 'GetQuotedSize, InternalAppendQuotedStr'), ('all-or-nothing appends', 'StartObject, EndObject, StartArray, EndArray, AppendStr, AppendInt, AppendDouble, Append')],
     'Every member function is proved against contracts that give the exact size and the exact bytes of its piece (decimal text as proved in C01, digits of doubles are the C library\'s); validity of finished documents is judged by an independent JSON reader in the oracle. True needs five bytes of room.' + TB)
prop('C24', 'Thread-local mixed variables hold exactly the value put into them',
     'A thread-local variable always holds one value: nothing, a boolean, a signed or unsigned number, a double, or a text or data of a known size. Setting it gives exactly that value, whatever it held before; appending, prepending and resizing texts yield exactly the concatenation, prefix or padded copy of the given bytes (which may contain zero bytes), numbers become their text in the given radix, and the text is always terminated. Reading returns the value and changes nothing. Copies and assignments, also to itself, are independent of the original. Every block of the thread-local allocator that a variable obtains is released by it exactly once, in the way it was obtained.',
     ['inputs', 'histories'], 'all values, texts, sizes, radices and all histories of operations on variables', 'Tests set and append a few short texts once; reuse after other modes, empty texts, growth over several block sizes, copies of copies and releases are not tried.',
     ['sync/sync_tls.h', 'sync/sync_tls.cpp'],
     [('tagged union with an owned text block', 'TLS::MixedVar constructors, operator=, Set*, Get*'), ('growing blocks', 'AppendData, PrependData, SetSize, Append/Prepend Int, UInt, Double, Char'), ('number writer', 'TLS::MixedVar::IntToString')],
     'Every member function except ReplaceData and ReplaceStr (oracle only, bounded) is proved against contracts on mode, value, size, bytes and ownership of the block. The allocator is used through its contract.' + TB)
