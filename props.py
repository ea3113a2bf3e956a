def P(id, title, statement, over, qtext, why, files, mech, note, **k):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), note=note)
    d.update(k)
    return d
BASE = 'Proof of the functions named in the evidence for all inputs, all loop iterations, no bound. Trusts: clang front end and the listed opt passes, the VC generator in /verif/engine, z3, the runtime contracts listed in trusted_base. '
PROPS = [
 P('C01', 'BitSet mutators compute exactly the documented set',
   'For every BitSet (any size up to 2^32 bits, including one that was never written) and every argument, set, clear, flip, &=, |=, ^=, or_and, swap, assignment and construction leave exactly the bits that the corresponding set operation defines, whatever the relative sizes of the operands and also when an operand is the object itself. Operands other than the target are unchanged and the result never carries trailing zero words. No operation reads or writes outside the storage of the sets involved.',
   ['inputs', 'histories'], 'all canonical BitSets of any length, all bit indices, all aliasing patterns of the operands',
   'testBitSet samples a few fixed bit patterns of at most three words; word-boundary, size-difference and aliasing combinations are unbounded.',
   ['src/misc/bitSet.cpp', 'src/misc/pv/bitSet.h'], [('recalculateWordsInUse / expandTo', 'src/misc/bitSet.cpp'), ('operator&=, |=, ^=, or_and', 'src/misc/bitSet.cpp')],
   BASE + 'std::vector growth/assignment is an assumed contract.'),
 P('C02', 'BitSet observers answer for the mathematical set',
   'For every BitSet, get, nextSetBit, nextClearBit, cardinality, isEmpty, size, ==, !=, logical_and and logical_or return exactly what the set of bits determines: nextSetBit(i) is the least set bit not below i or -1, nextClearBit(i) the least clear bit not below i, cardinality the number of set bits, == holds exactly for equal sets, logical_and exactly when a common bit exists and logical_or when either has a bit. Observers change nothing and stay inside the storage of the sets.',
   ['inputs'], 'all canonical BitSets with bit indices below 2^31 (the result type is int32), all start indices',
   'the existing test checks a handful of literal sets; the scan loops and the bit tricks must be right for every word pattern and length.',
   ['src/misc/bitSet.cpp'], [('nextSetBit/nextClearBit word scan', 'src/misc/bitSet.cpp'), ('bitCount, numberOfTrailingZeros', 'src/misc/bitSet.cpp'), ('canonical form makes == a word comparison', 'src/misc/bitSet.cpp')],
   BASE),
 P('C04', 'ByteBuffer never leaves its storage and keeps position <= limit <= size',
   'Every ByteBuffer operation either fits between position (or the given index) and limit, in which case it touches exactly the bytes it is documented to touch and moves the position by exactly that amount, or it is refused by an assertion before any byte is touched. After every operation 0 <= position <= limit <= size holds, and size, storage and byte order change only in the operations that are documented to change them. This holds for every element type, index and element count, including counts whose byte size overflows.',
   ['inputs', 'histories'], 'all buffers up to 2^45 bytes, all positions, limits, indices, counts and values',
   'testByteBuffer uses one small buffer and in-range accesses only; out-of-range indices and overflowing counts are never tried.',
   ['src/misc/pv/byteBuffer.h'], [('assertions against getRemaining()/limit', 'src/misc/pv/byteBuffer.h'), ('flip, clear, rewind, setPosition, setLimit', 'src/misc/pv/byteBuffer.h')],
   BASE + 'assert() is assumed compiled in.'),
 P('C05', 'ByteBuffer encodes in its byte order and get is the inverse of put',
   'put of any value of any supported type writes exactly the bytes of that value in the byte order the buffer is set to (most significant first for big endian, least significant first for little endian), and get returns the value encoded by the bytes at the position, so reading back what was written yields the identical bits (also for NaN payloads) in either order. The same holds for indexed access, for whole arrays of any length, for the named per-type methods and after setEndianess.',
   ['inputs'], 'all values of all ten element types, both byte orders, all positions, all array lengths',
   'the tests write a few constants and read them back, which cannot see a symmetric error nor all values and lengths.',
   ['src/misc/pv/byteBuffer.h'], [('swap<T>, reverse<T>', 'src/misc/pv/byteBuffer.h'), ('putArray/getArray loops', 'src/misc/pv/byteBuffer.h')],
   BASE + 'IEEE floats are their bit patterns.'),

 P('C06', 'Sizes and strings survive the wire',
   'Every length below 2^31 - 1 (and the null length) that SerializeHelper writes with writeSize is written in exactly the one, five or documented number of bytes of the pvData size encoding in the byte order of the buffer, and readSize applied to any byte stream returns the length those bytes encode or refuses with an exception; strings and substrings are written as their length followed by exactly their characters and read back as the identical string. This holds wherever the bytes straddle a flush of the buffer: no byte is lost, duplicated or reordered.',
   ['inputs', 'histories'], 'all lengths, all string contents, all buffer capacities and fill levels, both byte orders, any number of flushes',
   'the tests use one large buffer so that no string or size ever straddles a flush, and only small lengths.',
   ['src/misc/serializeHelper.cpp', 'src/misc/pv/serializeHelper.h'], [('writeSize/readSize', 'src/misc/serializeHelper.cpp'), ('serializeString/deserializeString', 'src/misc/serializeHelper.cpp'), ('ensureBuffer/ensureData/flushSerializeBuffer hand-over', 'src/misc/pv/serialize.h')],
   BASE + 'The flusher and the control object are assumed to satisfy their interface contracts; std::string is an assumed contract.'),
 P('C07', 'TimeStamp keeps its normal form and exact arithmetic',
   'After construction, put, put(milliseconds), normalize and += / -= of seconds (integer or floating point) a TimeStamp has 0 <= nanoseconds < 10^9 and denotes exactly the point in time the arguments define; for a floating point amount d that is the previous time plus the whole seconds of d plus the fraction of d truncated to nanoseconds, also for negative d. The comparison operators agree with the order of the points in time for any two stamps, getMilliseconds and the other accessors return the value the stamp denotes, and the user tag is never disturbed.',
   ['inputs', 'histories'], 'all stamps with |seconds| < 2^61 before and after, all nanosecond arguments, all milliseconds, all doubles below 2^61 in size',
   'the tests use a few present-day stamps with small positive differences.',
   ['src/property/timeStamp.cpp', 'src/property/pv/timeStamp.h'], [('normalize', 'src/property/timeStamp.cpp'), ('operator+=(double)', 'src/property/timeStamp.cpp'), ('diffInt', 'src/property/timeStamp.cpp')],
   BASE + 'IEEE double arithmetic as in SMT-LIB FloatingPoint, round to nearest.'),
 P('C12', 'Status: the worst status wins and travels intact',
   'A Status built with any non-OK type carries exactly the given message and stack dump, building one with the OK type is refused. maximize (and |=) leaves exactly the worse of the two statuses, the earlier one when both are equally bad, with both of its texts, and never changes its argument. isOK, isSuccess and the truth value follow the type (OK, or OK/WARNING). serialize writes the documented form and deserialize into any previous status yields exactly the encoded type and texts or refuses with an exception; a type outside the four defined ones is never accepted.',
   ['inputs', 'histories'], 'all types, all texts below 2^31 characters, all previous states, any fragmentation of the stream',
   'testStatus checks a few constructor calls; combination of severities, previous content and malformed type codes are not tried.',
   ['src/misc/status.cpp', 'src/misc/pv/status.h'], [('maximize', 'src/misc/status.cpp'), ('serialize/deserialize', 'src/misc/status.cpp')],
   BASE + 'String coding is used through the contracts proved in C06; std::string is an assumed contract.'),
 P('C08', 'shared_vector: views, copy on write, freeze and thaw',
   'A shared_vector always denotes exactly the sequence its history defines, lying wholly inside live storage: construction, copy, move, assignment, swap, slice, reserve, resize, push_back, pop_back, clear, make_unique, freeze, thaw and casts to and from void keep every element that is to be kept and report the right size. unique() is true exactly when no other vector refers to the storage. make_unique, reserve, resize, push_back and thaw give the vector storage of its own, so an operation through one vector never changes what another vector sees unless both still share the storage; storage is released exactly once, when its last owner lets go. freeze refuses a vector that is not unique and leaves it untouched, otherwise it leaves the argument empty. at() refuses every index outside the vector.',
   ['inputs', 'histories'], 'all views (offset, length, capacity) of storage up to 2^40 elements, all reference counts, all argument values; element types int8, int32, double',
   'testSharedVector follows a few fixed sequences with whole vectors; slices that are shared and then thawed, grown or reserved are not tried.',
   ['src/misc/pv/sharedVector.h'], [('shared_vector_base, slice, unique', 'src/misc/pv/sharedVector.h'), ('reserve, resize, make_unique, push_back', 'src/misc/pv/sharedVector.h'), ('freeze, thaw, static_shared_vector_cast', 'src/misc/pv/sharedVector.h')],
   BASE + 'The reference count of std::shared_ptr is an assumed contract.'),
 P('C10', 'Conversions between scalar types',
   'castUnsafeV (and castUnsafe) converts element i of the source into element i of the destination for every i below the count, for any pair of scalar types and any count, leaving the source and everything outside the destination alone: integers are extended according to the signedness of the source and truncated to the width of the destination, integers and floating point convert by value, double to float is clipped, floating point to integer truncates towards zero. Booleans and numbers never convert into each other: that is refused with an exception and nothing is written. Numbers print as decimal numbers (also 8 bit ones) and booleans as true/false; text is converted by the parser of exactly the destination type, with its range check, any base and nothing left over, and refused with an exception and an untouched destination if it does not parse.',
   ['inputs'], 'all 12 x 12 type pairs, all values, counts up to 2^40 (text conversions: one element)',
   'testTypeCast samples a few values per pair, one element at a time.',
   ['src/misc/typeCast.cpp', 'src/misc/pv/typeCast.h', 'src/misc/parseToPOD.cpp'], [('castUnsafeV, castVTyped, copyMem', 'src/misc/typeCast.cpp'), ('cast_helper', 'src/misc/pv/typeCast.h'), ('parseToPOD', 'src/misc/parseToPOD.cpp')],
   BASE + 'libCom parsers, epicsConvertDoubleToFloat and std::ostream are assumed contracts; integer/float conversions are uninterpreted functions shared by code and specification.'),
 P('C16', 'Field offsets number a structure depth first',
   'Whichever question is asked first and of whichever field, every field of a top-level structure gets the offset of its position in a depth-first walk (the structure itself is 0), getNextFieldOffset is the position after its last descendant and getNumberFields their difference; nothing outside the structure is touched. A field that is no structure and has no parent is 0..1. Looking up a sub-field by offset finds exactly the field with that offset if it lies below this structure, and otherwise returns null or throws std::runtime_error, for every possible offset.',
   ['inputs', 'histories'], 'all trees of all shapes, types and depths below 2^28 fields, all fields, all offsets',
   'testPVData walks a few fixed structures; nested empty structures and starting from an inner field are not tried.',
   ['src/factory/PVField.cpp', 'src/factory/PVStructure.cpp'], [('computeOffset, getFieldOffset, getNextFieldOffset, getNumberFields', 'src/factory/PVField.cpp'), ('PVStructure::getSubFieldImpl(offset)', 'src/factory/PVStructure.cpp')],
   BASE + 'Structural recursion: a recursive call on a child is replaced by the same contract at the child; that the tree is finite is assumed.'),
 P('C19', 'A change mask transfers exactly the selected fields',
   'serialize and deserialize with a BitSet, and copyUnchecked with a mask or its inverse, transfer exactly the fields selected by their own bit or by the bit of a structure above them, each exactly once and (on the wire) in depth-first order, and leave every other field alone; bits outside the structure do not matter. Without a mask every field is transferred exactly once. PVField::copy hands every field type to the copy of that type, refuses an immutable destination or a different introspection type with std::invalid_argument and then changes nothing.',
   ['inputs'], 'all trees, all structures inside them, all masks, both senses of the mask',
   'testSerialization and testPVData use a handful of masks on one structure.',
   ['src/factory/PVStructure.cpp', 'src/factory/PVField.cpp'], [('PVStructure::serialize/deserialize(…, BitSet*)', 'src/factory/PVStructure.cpp'), ('PVStructure::copyUnchecked', 'src/factory/PVStructure.cpp'), ('PVField::copy, copyUnchecked', 'src/factory/PVField.cpp')],
   BASE + 'The transfer of one field that is no structure is an event here (its content is the matter of C04-C07, C10, C12); BitSet look-ups are used through the contracts of C02, offsets through those of C16.'),
 P('C20', 'compress keeps the selection and makes it canonical',
   'BitSetUtil::compress changes a mask so that it selects exactly the same single fields (by their own bit or one above them): afterwards a structure is selected by its own bit exactly if it was before or if all of its children are, no bit is left below a selected structure, and no bit outside the structure changes. The result is true exactly if some bit of the structure was set.',
   ['inputs'], 'all trees, all masks, including bits beyond the structure',
   'testBitSetUtil checks a few masks of one structure.',
   ['src/pvMisc/bitSetUtil.cpp'], [('BitSetUtil::compress, checkBitSetPVField', 'src/pvMisc/bitSetUtil.cpp')],
   BASE + 'BitSet and look-up by offset are used through the contracts of C01, C02 and C16.'),
]
NOTAPP = [
 P('N01', 'Timer: callbacks run in time order, once per period, never after cancel',
   'A scheduled callback runs once, a periodic one once per period, in order of their times; after cancel has returned it does not run again, and close lets nothing run any more.',
   ['schedules'], 'all interleavings of schedule, cancel, close and the timer thread', 'testTimer follows a few delays.', ['src/misc/timer.cpp'], [('Timer::run, schedule, cancel', 'src/misc/timer.cpp')], '',
   reason='a property of interleavings of threads and of real time; sequential contracts over one call cannot express "does not run after cancel returned", and no permission logic for C++ is installed'),
 P('N02', 'Introspection caching: equal types are one object while one is alive',
   'Two structurally equal introspection objects created by FieldCreate, in any thread, are the same object as long as one of them lives.',
   ['schedules', 'histories'], 'all creation and destruction orders in all threads', 'testIntrospect compares a few types in one thread.', ['src/factory/FieldCreateFactory.cpp'], [('FieldCreate::Helper::cache', 'src/factory/FieldCreateFactory.cpp')], '',
   reason='depends on weak references racing with destruction in other threads, std::multimap internals and a mutex; outside the sequential verification conditions generated here'),
 P('N03', 'JSON printing and parsing are inverse',
   'parseJSON of what printJSON wrote for a structure gives the same value again, for every structure without unions.',
   ['inputs'], 'all structures and values', 'testjson compares fixed texts.', ['src/json'], [('printJSON, parseJSON', 'src/json')], '',
   reason='the work is done by the yajl parser/generator of libCom (not in this repository) through callbacks and by iostream formatting of floating point; contracts on those would assume the property'),
 P('N04', 'createRequest accepts exactly its grammar',
   'createRequest returns a request structure for every string of the documented grammar and null for every other string, never crashing.',
   ['inputs'], 'all strings', 'testCreateRequest uses a list of strings.', ['src/copy/createRequest.cpp'], [('Parser', 'src/copy/createRequest.cpp')], '',
   reason='a recursive character-level parser over std::string, std::map and std::stack building introspection objects; the string contracts here have no theory of grammars, a proof would be about an assumed model of those containers'),
 P('N05', 'printed values can be read by a person and name every field',
   'operator<< on a structure prints every field with its name and value, nested by indentation.',
   ['inputs'], 'all structures', 'testprinter compares fixed texts.', ['src/factory/printer.cpp'], [('PVField << ', 'src/factory/printer.cpp')], '',
   reason='the result is produced by iostream formatting, an assumed library; there is nothing left to prove about this code but the order of calls'),
]
MISSED = {}
