"""properties -> specification modules, replay harness, evidence notes"""
STR = ['strings']
PROPS = {
    'C01': dict(spec=STR, harness='c01.cpp', limit=15, bounded='all operations on all pairs of short strings and positions, allocation boundary lengths, all characters through case mapping and trim, random histories'),
    'C02': dict(spec=STR, harness='c02.cpp', limit=15, bounded='all pairs of strings over {a,b} up to length 4 with all positions, random strings'),
    'C03': dict(spec=STR, harness='c03.cpp', limit=15, bounded='all edit operations with and without cached hash, random histories'),
    'C04': dict(spec=['nums'], harness='c04.cpp', limit=10, bounded='all values around powers of 2 and 10, -70000..70000, all texts over -09a up to length 4, every character, random values and texts'),
    'C05': dict(spec=['nums'], harness='c05.cpp', limit=10, bounded='-3000..60000 and values around powers of 2, 10 and 26, Roman numerals 0..12000 (toRomanString is decided by this bounded check only), hexadecimal texts up to length 3 exhaustively, random values'),
    'C28': dict(spec=STR, harness='c28.cpp', limit=5, bounded='all 65536 characters'),
}
NA = {}
PROPS['C29'] = dict(spec=['args'], harness='c29.cpp', limit=10, bounded='all texts over %01x up to length 6 and %19 up to length 4 with several widths, random texts; the overload for double only by this check')
PROPS['C08'] = dict(spec=['bytes'], harness='c08.cpp', limit=8, bounded='all texts of 1 and 2 bytes, 3 x 65536 texts of 3 bytes, lengths 0..300, random bytes and random (also malformed) texts')
PROPS['C09'] = dict(spec=['bytes'], harness='c09.cpp', limit=8, bounded='all start values, all 2 byte inputs, lengths around 256 and 65536, random inputs')
PROPS['C10'] = dict(spec=['bytes'], harness='c10.cpp', limit=8, bounded='all byte strings over {0,1,255} up to length 4, all small replace ranges, random contents; construction from a list only by this check')
PROPS['C11'] = dict(spec=['bytes'], harness='c11.cpp', limit=8, bounded='values around powers of 2 and 10, every value of every byte, random values and offsets')
PROPS['C22'] = dict(spec=['numeric'], harness='c22.cpp', limit=6, assume=['C22: comparisons, interpolation and angle conversion are proved over the mathematical reals; round and isNaN over IEEE doubles'], bounded='64 bit values around powers of 2 and 10 pairwise, -70..70 squared, special doubles pairwise, random values; roundFrac only by this check')
PROPS['C24'] = dict(spec=['geom'], harness='c24.cpp', limit=6, assume=['C24: coordinates are treated as mathematical reals (rounding of double arithmetic is not modelled)'], bounded='all rectangles over six coordinates, pairs over four coordinates, random rectangles and random sequences of points added to extents')
PROPS['C21'] = dict(spec=['streams'], harness='c21.cpp', limit=6, bounded='random histories of read, readFully, write, seek, move, open and close over memories of 0..3000 bytes, amounts at the limits; constructor and destructor only by this check')
PROPS['C12'] = dict(spec=['dates'], harness='c12.cpp', limit=8, bounded='every day of 30 years around leap year exceptions, the first and last days of the months of 15 other years, overflowing months and days, random dates of the years -3000 to 65535; fromNSDate and the current time only by this check')
PROPS['C06'] = dict(spec=['charsets'], harness='c06.cpp', limit=8, bounded='every basic-plane character, all combinations of 20 boundary characters up to length 3, malformed byte sequences up to length 4 over 20 boundary bytes, random texts and bytes; the constructors with a length or a character set and toCString (virtual dispatch into the proved encoders) only by this check')
PROPS['C07'] = dict(spec=['charsets'], harness='c07.cpp', limit=8, bounded='every byte and every character through every character set and entry point, random texts; the lookup by name (Charset::forName) and the String constructors and toCString with a character set only by this check')
PROPS['C23'] = dict(spec=['colors'], harness='c23.cpp', limit=8, assume=['C23: the float computations of toGreyScale, toCmyk, blend and interpolate are proved over the mathematical reals (with the rounding tolerances stated in the contracts)'], bounded='all grey values, channel values 0,1,2,127,128,254,255 combined, all 256 values of one channel against these for blending, random colours; hsvModel only its ranges and only by this check')
PROPS['C15'] = dict(spec=['containers'], harness='c15.cpp', limit=6, assume=['C15: the templates are proved for 64 bit integer elements; fewer than 2^31 elements on a stack', 'node pools: nodes of different classes do not overlap; a node class name stands for the instantiation'], bounded='random histories on arrays of int64, String, double, Object* and on stacks of int64, String, double; the specialisations for pointers and FloatArray only by this check')
PROPS['C14'] = dict(spec=['lists'], harness='c14.cpp', limit=6, assume=['C14: fewer than 2^31 elements; no other thread uses the list', 'node pools: nodes of different classes do not overlap'], bounded='random histories of add, addBefore, remove, swapData, clear and walks on two lists without, with an inactive and with an active undo manager; what the undo manager itself records only in C17')
PROPS['C18'] = dict(spec=['objects'], harness='c18.cpp', limit=6, assume=['C18: destructors of derived classes end in ~Object and the release of the memory, and do not use the autorelease pool that is being drained; fewer than 2^31 references', 'node pools: nodes of different classes do not overlap'], bounded='random histories of new, retain, release, autorelease, drain, copy and assignment over counted objects')
PROPS['C31'] = dict(spec=['locks'], harness='c31.cpp', limit=6, assume=['C31: pthread mutexes give mutual exclusion; data protected by a mutex is touched only by the functions under contract; a reference is counted as owned by one thread or the pool; run() of a thread is called once by its thread function and is the code of the derived class', 'C31: every object belongs to the one autorelease pool of the process; fewer than 2^31 references', 'C31: that a thread that is scheduled ends (progress) is not decided'], bounded='2 to 6 threads: concurrent retain and release, last releases, registration while draining, mutex counters, start and interrupt at random distances')
PROPS['C16'] = dict(spec=['strings', 'tokens', 'textlist', 'splits'], harness='c16.cpp', limit=6, assume=['C16: strings are compared and copied by their text (C01, C02); the elements of a list are written as an abstract text each; fewer than 2^37 characters and 2^45 elements', 'operator new[] stores the number of elements in front of them'], bounded='all texts up to 7 characters over two and up to 5 over four letters, random texts and separators; random histories of a list against a vector of strings')
PROPS['C13'] = dict(spec=['hashtable'], harness='c13.cpp', limit=6, assume=['C13: keys are compared by their text; String::equals, hashCode and copying are taken from C02 and C03; fewer than 2^43 buckets; a table is not copied (its implicit copy shares the entries); nobody changes the table during an iteration', 'node pools: nodes of different classes do not overlap'], bounded='random histories of put, remove, clear over keys with colliding hashes, growth, walks with and without hasNext')
PROPS['C27'] = dict(spec=['strings', 'paths'], harness='c27.cpp', limit=6, assume=['C27: the directory separator is the character its initializer in the compiled module gives it (the one of Linux)'], bounded='all paths over /a. up to length 7, all pairs of parents and children over /a. up to length 4, random paths; listing of folders and tests of existence are not covered')
PROPS['C25'] = dict(spec=['linalg'], harness='c25.cpp', limit=6, assume=['C25: numbers are treated as mathematical reals (rounding of double arithmetic is not modelled); sine and cosine are uninterpreted with the law of Pythagoras; matrices up to 65535 x 65535, vectors up to 2^32'], bounded='random matrices up to 5x5 and 40x40, products, sums, vectors up to 9, vertices over four coordinates; norms, nonZeroElementCount only by this check')
