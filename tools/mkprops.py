#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one place so wording can be reviewed)."""
import json, os
P = []
def p(id, title, stmt, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=stmt, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)
S = "src/core/"
p("C01", "String edits produce exactly the described character sequence",
  "Copying, assigning, concatenating, appending, inserting, deleting, substring extraction, replacing, trimming, reversing and case conversion of a string give exactly the character sequence the operation describes, for every content, length and position, and leave every other string untouched. Character access and edits with a position outside the string are rejected with an exception instead of touching memory, and a substring request is clamped to the string.",
  ["inputs"], "all string contents and lengths, all positions, including empty strings, capacity boundaries and a string used as its own argument",
  "The tests use a few short literals; correctness must hold for each content, length (buffer growth happens at multiples of 16) and index, which only an induction over the copy and shift loops covers.",
  [S+"String.cpp", "include/core/String.h", "include/core/CharArray.h", S+"Character.cpp"],
  [("buffer growth", "String::checkCapacity"), ("copy and shift loops", "String::append, insert, deleteCharAt, deleteCharRangeAt, substring, replace, reverse, trim")],
  ["size()", "charAt()", "equals()"],
  [("mStrLength/mArrLength/mValue", "length, capacity and UTF-16 buffer", "include/core/String.h")])
p("C02", "String comparison and search agree with the mathematical sequence relations",
  "Two strings compare equal exactly when they have the same length and the same characters; ordering is the lexicographic order by code unit and therefore a total order; prefix, suffix, at-position and case-insensitive tests mean what they say. A search returns the first (or last) position at or after (before) the start where the whole pattern lies inside the string, and minus one only when there is none.",
  ["inputs"], "all pairs of strings, all start positions and all patterns, including patterns longer than the text and strings that were shortened before",
  "A search that reads past the logical end only fails for particular stale buffer contents; the absence of a match is a statement about all positions.",
  [S+"String.cpp", S+"Character.cpp"],
  [("comparison loops", "String::equals, compareTo, equalsIgnoreCase, startsWith, endsWith, atIs"), ("search loops", "String::indexOf, lastIndexOf, count")],
  ["equals()", "compareTo()", "indexOf()", "lastIndexOf()", "startsWith()", "endsWith()", "count()"])
p("C03", "Hash codes depend only on the content and are equal for equal strings",
  "The hash code of a string is a function of its characters alone: two equal strings have the same hash code, whatever operations produced them, however often the hash was asked before, and whether it was asked through the caching or the non-caching interface.",
  ["inputs", "histories"], "all strings and all sequences of edits interleaved with hash requests",
  "The cached hash can only go stale in a particular order of hash request and edit, and sign effects need a hash above the 31-bit range; tests hash fresh short strings.",
  [S+"String.cpp", "include/core/String.h"],
  [("hash cache", "String::hashCode, String::constHashCode"), ("cache invalidation", "every mutating String method, String::operator=, copy constructor")],
  ["hashCode()", "constHashCode()", "Hashtable lookups"],
  [("mHash", "cached hash, zero when unknown", "include/core/String.h")])
p("C04", "Integers survive conversion to decimal text and back, without overflow",
  "Converting any signed or unsigned 32- or 64-bit integer to text gives its shortest decimal numeral, and parsing that text gives the same number back. Text containing anything but digits after an optional leading minus sign is rejected with an exception.",
  ["inputs"], "all 64-bit and 32-bit integers, all texts",
  "2^64 inputs; the failures live at the extremes (most negative value, values above the signed range) and in malformed text.",
  [S+"String.cpp"],
  [("digit loop", "String::valueOf(int64/uint64/int32/uint32)"), ("parser", "String::toInt")],
  ["String::valueOf()", "String::toInt()", "operator<< of integers into a string"])
p("C05", "Hexadecimal, Roman and alphabetic numerals denote the number they were made from",
  "The hexadecimal text of a number read back gives the number, hexadecimal parsing gives the positional value of the digits in upper or lower case, the Roman numeral of a number is the standard one and the alphabetic numeral follows the spreadsheet-style sequence A, B, ..., Z, AA, AB, .... The digit count of a number is the length of its decimal numeral, sign included.",
  ["inputs"], "all numbers in the supported range and all digit strings",
  "Tests do not touch these conversions; each must hold for every number, and the errors are at multiples of the base.",
  [S+"Integer.cpp"],
  [("conversion loops", "Integer::toHexString, fromHex, fromRoman, toRomanString, toLatinAlphabetString, digits")],
  ["Integer::toHexString()", "Integer::fromHex()", "Integer::toRomanString()", "Integer::toLatinAlphabetString()", "Integer::digits()"])
p("C06", "UTF-8 encoding and decoding are inverse and conform to the standard",
  "Encoding any string of Unicode basic-plane characters to UTF-8 yields exactly the byte sequence the Unicode standard prescribes, followed by a terminating zero byte, and decoding those bytes yields the same characters (a leading byte order mark U+FEFF is taken as the mark, not as text). Decoding never reads past the terminating zero byte and the result's length equals the number of encoded characters.",
  ["inputs"], "all strings of non-surrogate, non-zero basic-plane characters for the round trip; all zero-terminated byte sequences for memory safety",
  "65 000 characters in all combinations and all malformed byte sequences; two separate passes (measure, then fill) have to agree for every input.",
  [S+"UTF8Decoder.cpp", S+"CharsetDecoder.cpp", S+"Charset.cpp"],
  [("two-pass encoder and decoder", "UTF8Decoder::encode, UTF8Decoder::decode")],
  ["String(const char*)", "toCString()"])
p("C07", "8-bit code pages and UTF-16 decode and encode as inverse maps",
  "Each supported 8-bit code page maps every byte to the Unicode character its standard table defines and maps that character back to the same byte, a character outside the page becomes the zero byte (for Mac Roman U+00A4 is taken as the currency sign of the old table, 0xDB), and UTF-16 text that does not start with a byte order mark round-trips in both byte orders.",
  ["inputs"], "all bytes, all characters, all strings",
  "The tables have 256 entries and 65 536 possible inputs in the reverse direction; no test looks at them.",
  [S+"Windows1252Decoder.cpp", S+"MacRomanDecoder.cpp", S+"UTF16Decoder.cpp", S+"CharsetDecoder.cpp", S+"Charset.cpp"],
  [("mapping tables", "Windows1252Decoder, MacRomanDecoder, RawDecoder, UTF16Decoder")],
  ["String(const char*, Charset*)", "toCString(Charset*)"])
p("C08", "Base64 encoding follows RFC 4648 and decoding inverts it for every byte sequence",
  "Encoding a byte sequence of any length and content gives the RFC 4648 text with correct padding, and decoding that text gives back exactly the original bytes, with exactly the original length.",
  ["inputs"], "all byte sequences of all lengths",
  "Three residues of the length modulo three times arbitrary bytes in arbitrary number of groups; there is no existing test.",
  [S+"Base64.cpp", S+"ByteArray.cpp"],
  [("group coder", "Base64::encode, Base64::decode")],
  ["Base64::encode()", "Base64::decode()"])
p("C09", "Checksums equal the published CRC definitions for every input",
  "For every byte sequence, each provided checksum equals the value of the published algorithm (polynomial, bit order, initial and final value), and computing it over a buffer never reads outside the buffer.",
  ["inputs"], "all byte sequences of all lengths",
  "A checksum agrees on some inputs even with a broken step; equality for all inputs needs an induction over the bytes.",
  [S+"CRC.cpp"],
  [("bitwise CRC-8 (polynomial 0x07, no reflection)", "CRC::crc8")],
  ["CRC::crc8()"])
p("C10", "Byte buffers behave as independent byte sequences with safe bounds",
  "A byte buffer keeps exactly the bytes put into it: construction, copying, assignment, resizing, comparing, filling and replacing a range do what their sequence definition says for every content, length and offset, bytes added by growing are zero, and copies are independent of each other.",
  ["inputs"], "all contents, sizes and offsets in range, including empty and uninitialised buffers",
  "No test covers these operations; they depend on offset arithmetic and on capacity left over from earlier operations.",
  [S+"ByteArray.cpp", "include/core/ByteArray.h"],
  [("buffer operations", "ByteArray::resize, replace, fill, equals, operator=")],
  ["size()", "at()", "constData()", "equals()"])
p("C11", "Binary serialization is byte-order exact and invertible",
  "Writing an integer or floating point value in big- or little-endian form stores exactly its bytes in that order at the given offset and changes no other byte of the buffer, and reading it back gives the identical bit pattern.",
  ["inputs"], "all values of every supported width (16, 32, 64 bit signed and unsigned, float, double), all offsets and buffer contents",
  "Sign extension and shift errors show only for particular bytes; the value space is 2^64.",
  [S+"Serializer.cpp"],
  [("shift and mask code", "serialize*/deserialize* functions")],
  ["serialize*/deserialize* functions"])
p("C12", "Calendar arithmetic is exact for every date of the proleptic Gregorian calendar",
  "Converting a calendar date and time of day to the internal time and back gives the same year, month, day, hour, minute, second and millisecond, the conversion agrees with the proleptic Gregorian calendar including leap years before and after 1970, the day of the week is right for every day, and a month or a time of day outside its usual range carries over into the years or days as the calendar says.",
  ["inputs"], "all dates in the supported range of years, before and after 1970, all times of day",
  "Tests check a handful of dates; leap-year, century and pre-epoch cases form a space of millions of days where single days can be wrong.",
  [S+"Date.cpp", "include/core/Date.h"],
  [("day arithmetic", "Date.cpp: dayFromYear, yearFromTime, monthFromTime, dateFromTime, weekDay, makeDay, makeTime, makeDate")],
  ["Date(year, month, day, ...)", "year()", "month()", "day()", "weekDay()", "time()"])
p("C13", "The hash table is a map: last value put under a key is what a lookup returns",
  "After any sequence of insertions, overwrites, removals, clears and growth, looking up a key returns the value of the most recent insertion under an equal key that was not removed, or nothing when there is none; the reported size is the number of distinct keys, and iterating visits every stored value exactly once.",
  ["histories"], "all histories of put, remove, get and clear over all keys, including colliding hashes and rehashing",
  "The failing histories need bucket collisions combined with removal or growth at a particular moment.",
  [S+"Hashtable.cpp", "include/core/Hashtable.h", S+"String.cpp"],
  [("bucket chains", "Hashtable::put, get, remove, rehash, containsKey"), ("key hash", "String::hashCode")],
  ["put()", "get()", "remove()", "containsKey()", "size()", "iterator"])
p("C14", "The linked list is a sequence whose links, ends and size always agree",
  "After any sequence of insertions and removals at any position, walking the list forwards gives the expected sequence, walking backwards gives its reverse, the ends and the size agree with it, and no other element changes.",
  ["histories"], "all histories of add, add before/after, remove, clear over lists of any length",
  "Doubly linked structures break on rare position/size combinations (single element, removal at an end); a proof has to show the link invariant for every list.",
  [S+"LinkedList.cpp", "include/core/LinkedList.h"],
  [("link surgery", "LinkedList::add, addFirst/insert, remove, clear")],
  ["first()", "last()", "get()", "size()", "iterators"])
p("C15", "Arrays and stacks keep elements by index and return them last-in-first-out",
  "An array returns for every index the value last stored there, Array rejects every index outside its bounds and none inside, copies are independent; a stack returns pushed elements in reverse order for every interleaving of pushes and pops and its size is pushes minus pops.",
  ["histories", "inputs"], "all sizes, indexes and push/pop histories, across growth of the storage",
  "There is no test for either container; growth and copy are exercised only at particular sizes.",
  ["include/core/Array.h", "include/core/Stack.h"],
  [("element storage", "Array, Stack templates")],
  ["get()", "set()", "push()", "pop()", "peek()", "size()"])
p("C16", "String lists and tokenizing keep every character and element in order",
  "A string list is the sequence of strings appended or removed so far, joining it puts the separator between all neighbours, and splitting or tokenizing a text yields, in order, exactly the maximal non-empty pieces between separator characters (and, if requested, every separator as a token of its own, so that the tokens put together give the text back).",
  ["inputs", "histories"], "all texts and separator sets, all lists",
  "Leading, trailing and adjacent separators and list growth combine into an unbounded space.",
  [S+"StringList.cpp", S+"StringTokenizer.cpp", S+"String.cpp"],
  [("list storage", "StringList::append, remove, join"), ("scanner", "StringTokenizer::next, hasNext")],
  ["size()", "get()", "join()", "split()", "hasNext()", "next()"])
p("C17", "Undo restores exactly the earlier state and redo exactly the later one",
  "For every sequence of recorded changes grouped into steps, undoing a step restores every changed value to what it was when the step began, redoing it restores what it was when the step ended, undo and redo any number of times moves along the same history, and recording after an undo discards the undone future.",
  ["histories"], "all histories of open, change, close, undo and redo over any number of objects and values of every width",
  "Order of restoration matters when one value is changed several times in one step or when transactions nest; tests run a few fixed scripts.",
  [S+"UndoManager.cpp", S+"UndoStep.cpp", S+"UndoChange.cpp", S+"EditableObject.cpp", S+"Document.cpp"],
  [("change log", "UndoStep/UndoChange swap"), ("history position", "UndoManager::undo, redo, open, close")],
  ["undo()", "redo()", "undoStepCount()", "member values"])
p("C18", "Reference counting frees an object exactly when its last reference is released",
  "An object lives as long as the number of retains plus one exceeds the number of releases and is destroyed exactly once, at the release that brings the count to zero; draining an autorelease pool releases every registered object exactly once per registration.",
  ["histories"], "all histories of retain, release, autorelease and drain on one thread",
  "Over-release and leaks depend on the exact history; tests observe no destructor.",
  [S+"Object.cpp", S+"AutoreleasePool.cpp", "include/core/Object.h"],
  [("count", "Object::retain, Object::release"), ("pool list", "AutoreleasePool::drain")],
  ["retain()", "release()", "autorelease()", "drain()", "destructor"])
p("C19", "Inflating any valid deflate stream gives exactly the compressed data",
  "Decompressing any stream that conforms to the deflate format (stored, fixed and dynamic blocks, any match distance up to 32768) yields exactly the original data and its exact length, and compressing then decompressing any data gives the data back; the output buffer grows as needed and nothing is written outside it.",
  ["inputs"], "all byte sequences and all valid encodings of them",
  "Tests decompress two fixed buffers; the behaviour depends on block type, code tables, match distances and output size.",
  [S+"Inflater.cpp", S+"Deflater.cpp"],
  [("block decoder", "Inflater::Inflate and its block handlers"), ("bit reader and window copy", "Inflater.cpp"), ("output growth", "Inflater::checkCapacity")],
  ["Inflate()", "Deflate()"])
p("C20", "XML written by the writer is read back by the parser as the same tree and text",
  "Every element, attribute and text written, whatever characters it contains, is reported by parsing the output with the same names, values and nesting order.",
  ["inputs"], "all trees, names and character data of printable characters, including markup characters and quotes",
  "Only escaping of every special character in every position, together with its unescaping, makes it hold; there is no XML test.",
  [S+"XMLWriter.cpp", S+"SAXParser.cpp", S+"SAXAttributes.cpp"],
  [("escaping", "XMLWriter::Encode"), ("unescaping", "SAXParser")],
  ["parser callbacks"])
p("C21", "A memory stream reads and writes only inside its buffer and at its position",
  "Reading and writing a memory stream transfers exactly the bytes between the position and the smaller of request and remaining size, advances the position by the number transferred and returns it, and never touches memory outside the buffer; seeking keeps the position inside the stream.",
  ["histories"], "all buffer sizes, positions, transfer lengths and histories",
  "An overrun needs a transfer that crosses the end; no test exercises the stream.",
  [S+"MemoryStream.cpp", S+"Stream.cpp"],
  [("bounds clipping", "MemoryStream::read, write, seek, move")],
  ["read()", "write()", "position()", "seek()"])
p("C22", "Numeric helpers satisfy their defining laws for every argument",
  "Floor division and modulo satisfy a = q*b + r with r having the sign of the divisor, power-of-two helpers give the least power not below the argument, squares, comparison with tolerance, interpolation, angle conversion and rounding satisfy their definitions, and exchanging two values exchanges them.",
  ["inputs"], "all integer and floating point arguments in the documented domain, including negative numbers and infinities",
  "Tests sample few positive arguments; the laws are over all machine numbers.",
  [S+"Math.cpp", "include/core/Math.h"],
  [("helper functions", "Math.cpp")],
  ["the helper functions"])
p("C23", "Colour conversions and mixing stay in range and keep the colour's meaning",
  "Creating a colour keeps each channel, converting grey or four-channel colours to RGB gives the defined channel values, equality compares exactly the active channels and alpha, and blending gives for every channel a value between background and foreground, equal to the background at weight 0 and the foreground at weight 255.",
  ["inputs"], "all channel values and weights (2^8 per channel)",
  "Rounding and overflow show for single channel combinations out of millions.",
  [S+"Color.cpp", "include/core/Color.h"],
  [("conversion and mixing", "Color::toRgb, toCmyk, toGreyScale, blend, interpolate, operator==")],
  ["red()", "green()", "blue()", "alpha()", "mode()", "operator=="])
p("C24", "Rectangle and extent operations satisfy their set meaning",
  "Moving an edge moves only that edge, aligning and moving keep the size, normalizing keeps the covered area with non-negative size, the union contains both rectangles and is the smallest such, the intersection is the set intersection or empty, and growing an extent by a point makes it the bounding box of all points added so far.",
  ["inputs", "histories"], "all rectangles, points and sequences of points over real coordinates",
  "Sign and order of edges give many configurations; the tests do not cover rectangles.",
  [S+"Rect.cpp", S+"Point.cpp", S+"Size.cpp", S+"Extents.cpp"],
  [("edge arithmetic", "Rect.cpp, Extents.cpp")],
  ["left()", "right()", "top()", "bottom()", "minPoint()", "maxPoint()"])
p("C25", "Matrix and vector operations satisfy the laws of linear algebra",
  "Element access, sums, products, transposition, insertion and diagonals of matrices of any size follow their definitions; the determinant and the inverse of regular matrices up to 4x4 satisfy their algebraic laws; vector cross and dot products, scaling and lengths follow their definitions over the reals.",
  ["inputs"], "all matrix sizes and all entries (arithmetic over the reals)",
  "Tests check some numeric instances; a wrong index or sign in one cofactor shows only for matrices with particular non-zero entries.",
  [S+"Matrix.cpp", S+"Vector.cpp", S+"Vertex2.cpp", S+"Vertex3.cpp"],
  [("index loops", "Matrix.cpp"), ("cofactor formulas", "Matrix::det, Matrix::inverse"), ("vector formulas", "Vertex2.cpp, Vertex3.cpp, Vector.cpp")],
  ["get()", "det()", "inverse()", "operator*"])
p("C26", "A computed difference transforms the first sequence into the second",
  "For any two texts the computed edit path starts at the beginning of both, ends at the end of both, uses only moves that keep equal elements, delete or insert one element, applying it to the first text gives the second, and its number of edits is minimal.",
  ["inputs"], "all pairs of sequences",
  "Minimality and validity are over all pairs; no test exists.",
  [S+"Diff.cpp", S+"DiffDistance.cpp", S+"DiffBacktrace.cpp", S+"DiffDiag.cpp", S+"DiffInfo.cpp"],
  [("shortest edit search and backtrace", "DiffDistance, DiffBacktrace")],
  ["Diff results"])
p("C27", "File path composition and decomposition are consistent",
  "Building a path from text removes duplicate and trailing separators and nothing else, joining a parent with a child puts exactly one separator between them, and name, parent and extension of a path are the parts around its last separator or last dot.",
  ["inputs"], "all path texts",
  "Separators can appear at any positions and in runs of any length; tests use a few absolute paths.",
  [S+"File.cpp", S+"String.cpp"],
  [("path normalization", "File::normalize, File::resolve"), ("decomposition", "File::name, parent, extension")],
  ["path()", "name()", "parent()", "extension()"])
p("C28", "Character classification and case mapping are consistent",
  "For every 16-bit character the digit, letter, upper- and lower-case and white-space tests agree with their definition over the Latin-1 range, digit values are those of the decimal digits, and case mapping changes exactly the letters it defines, is idempotent and maps back to the original letter.",
  ["inputs"], "all 65 536 characters",
  "The mapping is a long table where one wrong entry is invisible to tests with a few letters.",
  [S+"Character.cpp", "include/core/Types.h"],
  [("tables", "Character.cpp")],
  ["isDigit()", "isLetter()", "toLowerCase()", "toUpperCase()"])
p("C29", "Placeholder substitution replaces exactly the lowest-numbered placeholder",
  "Substituting a value into a text replaces the lowest-numbered placeholder (a percent sign with one or two digits) by the value padded to the requested width on the requested side, keeps every other character, and leaves a text without placeholder unchanged.",
  ["inputs"], "all texts, values, widths and fill characters",
  "Placeholder position, numbering and padding combine freely; a percent sign without digits is rare in tests.",
  [S+"String.cpp"],
  [("placeholder search", "String::argIndicies"), ("substitution", "String::arg overloads")],
  ["arg()"])
p("C30", "Archives written are read back entry by entry",
  "Every entry written to a ZIP archive is found again under its name with exactly the bytes written, whatever the number, names and contents of the entries.",
  ["inputs", "histories"], "all sets of entries",
  "Offsets and lengths in the directory depend on all preceding entries.",
  [S+"ZipFile.cpp", S+"ZipOutputFile.cpp", S+"File.cpp"],
  [("directory records", "ZipOutputFile::close, ZipFile::open")],
  ["entry()", "stream()"])
p("C31", "Locks, reference counts and thread life flags hold under every schedule",
  "At most one thread at a time is between lock and unlock of the same mutex; reference counts stay exact under concurrent retain and release, the object is destroyed once, by the thread that gives up the last reference, and no registration in the autorelease pool is lost or released twice; a thread that is started runs its run() once, and once it is interrupted isAlive() is false for good, even when the interruption comes right after start - under every thread schedule.",
  ["schedules"], "all interleavings of any number of threads",
  "Schedules cannot be enumerated by tests.",
  [S+"Mutex.cpp", S+"Thread.cpp", S+"Object.cpp"],
  [("pthread wrappers", "Mutex.cpp, Thread.cpp"), ("count and pool under their mutexes", "Object.cpp, AutoreleasePool.cpp")],
  ["lock()", "unlock()", "isAlive()"])
p("C32", "Preferences and translations survive being saved and loaded",
  "Every preference stored is found with the same value after saving to and loading from a file, and a translation catalogue returns for each message its translation, or the message itself when there is none.",
  ["inputs", "histories"], "all keys and values, all catalogues",
  "The result depends on file contents and escaping of each character.",
  [S+"Preferences.cpp", S+"I18nBundle.cpp"],
  [("file format", "Preferences::save, load; I18nBundle")],
  ["value()", "translate()"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
