import json
P=[]
def p(id,title,st,over,qt,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":[observe],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
p("C01","Saving and reopening a KDBX database preserves everything in it",
 "For every database that can be represented in KDBX, exporting it and importing the file with the same key yields a database with the same metadata, group tree, entries, history, custom fields, attachments, icons, timestamps, flags, protection marks and settings, in the same order. No field is dropped, swapped, defaulted or taken from another field.",
 ["inputs"],"all databases (every value of every field of metadata, groups, entries, history, attachments, icons and custom data) that KDBX can represent",
 "The tests round-trip a handful of fixture files whose optional and rare fields mostly hold default values; a field that is swapped, skipped or mis-defaulted only shows with values the fixtures do not contain.",
 ["src/kdbx.cc","src/kdbx.hh","src/entry.hh","src/group.hh","src/metadata.hh","src/database.hh"],
 [("XML writer","src/kdbx.cc WriteXml/WriteMeta/WriteGroup/WriteEntry/WriteProtectedString/WriteDateTime"),("XML reader","src/kdbx.cc ParseXml/ParseMeta/ParseGroup/ParseEntry/ParseProtectedString/ParseDateTime")],
 "the Database returned by importing an exported file, compared field by field with the exported one")
p("C02","Saving and reopening a KDB database preserves its groups and entries",
 "For every database that can be represented in KDB, exporting it and importing the file with the same key yields the same groups and entries: every name, string, identifier, icon, flag, timestamp and attachment, byte for byte, in the same order and attached to the same group.",
 ["inputs"],"all groups and entries whose values KDB can represent (strings without NUL of any length, any icon, flags, identifiers, attachment bytes, calendar times)",
 "The tests re-export fixture files with short ASCII strings, at most a few groups and small attachments; field encodings must be inverse for every length and every byte value.",
 ["src/kdb.cc","src/io.hh","src/io.cc"],
 [("record writer","src/kdb.cc WriteGroup/WriteEntry, src/io.hh conserve"),("record reader","src/kdb.cc ReadGroup/ReadEntry, src/io.hh consume")],
 "the group or entry decoded from the bytes the writer emitted")
p("C03","The KDB group hierarchy is rebuilt exactly as the level list describes it",
 "Importing a KDB file attaches each group, in file order, to the nearest preceding group that is exactly one level shallower (top-level groups to the root) and each entry to the group with its group number. A level list that skips a level, or an entry whose group does not exist, is rejected with a format error.",
 ["inputs"],"all sequences of group levels (0 to 65535, any length) and all entry to group assignments",
 "Fixtures contain two or three nesting shapes; wrong parents only appear for sequences that go up and down again, or at the extreme level values.",
 ["src/kdb.cc"],[("tree reconstruction","src/kdb.cc KdbFile::Import (last_group_by_level loop, group_map lookup)")],
 "Groups()/Entries() of each group of the imported database, or the exception thrown")
p("C04","A KDB file with a wrong key or altered contents never opens",
 "Importing a KDB file yields a database only if decrypting its contents with the given key produces valid padding and exactly the contents whose SHA-256 the header records; in every other case import fails with a password error and no database is returned.",
 ["inputs"],"all files, all keys, both ciphers",
 "Tests try one wrong password on a fixture; the guarantee quantifies over every key and every alteration of the ciphertext, including those that keep the padding valid.",
 ["src/kdb.cc","src/cipher.cc"],[("content hash gate","src/kdb.cc KdbFile::Import"),("key schedule","src/kdb.cc final key = SHA-256(master seed, transformed key)")],
 "exception type or Database returned by import")
p("C05","A KDBX file with a wrong key or altered contents never opens",
 "Importing a KDBX file yields a database only if the decrypted contents start with the header's start bytes (otherwise a password error) and the SHA-256 of the exact header bytes equals the hash stored in the protected contents (otherwise a format error).",
 ["inputs"],"all files, all keys",
 "Tests try one wrong password and no tampered header; the guarantee covers every header byte and every key.",
 ["src/kdbx.cc"],[("start bytes gate, header hash gate","src/kdbx.cc KdbxFile::Import"),("stored header hash","src/kdbx.cc ParseMeta, Export")],
 "exception type or Database returned by import")
p("C06","CBC and ECB block encryption are standard, exact and inverse for every length",
 "For every byte string, initialization vector and block cipher, CBC encryption produces exactly the standard CBC ciphertext of the PKCS#7-padded input, and decryption returns exactly the original bytes. Decryption of input that is not a whole number of blocks or whose final block carries invalid padding fails with an error, and ECB transforms every block independently.",
 ["inputs"],"all plaintext lengths and contents, all initialization vectors, all keys, every 16-byte block cipher",
 "Tests encrypt a few fixed vectors; chaining, padding at exact block multiples and rejection of malformed padding must hold for every length and every final block.",
 ["src/cipher.cc","src/cipher.hh"],[("block pump","src/cipher.cc block_transform"),("chaining and padding","src/cipher.cc encrypt_cbc/decrypt_cbc/encrypt_ecb/decrypt_ecb")],
 "bytes written to the destination stream, or the exception thrown")
p("C07","Twofish encryption matches the published cipher and decryption inverts it",
 "For every 256-bit key and every block, Twofish encryption equals the published algorithm's result, and decrypting it returns the original block.",
 ["inputs"],"all 2^256 keys and all 2^128 blocks",
 "Tests check one or a few vectors; a wrong table entry, rotation or key-schedule step affects only some keys or blocks.",
 ["src/cipher.cc","src/cipher.hh"],[("key schedule, round function","src/cipher.cc TwofishCipher::InitializeKey/F32/ReedSolomonEncode/Encrypt/Decrypt")],
 "output block of Encrypt/Decrypt")
p("C08","The protected-value stream is Salsa20, and independent of how data is split",
 "Obfuscating a value XORs it with the next bytes of the published Salsa20 key stream for the key and nonce, and consumes exactly as many key-stream bytes as the value has. The result therefore does not depend on how the data is split over calls, and applying an equally initialised stream again restores the data.",
 ["inputs","histories"],"all keys, nonces, and all sequences of calls with arbitrary lengths (string and byte-vector forms mixed)",
 "Tests process a single short value; the key-stream position must stay right across every split, block boundary and counter carry.",
 ["src/random.cc","src/random.hh","src/cipher.cc"],[("key stream block","src/cipher.cc Salsa20Cipher"),("position tracking","src/random.cc RandomObfuscator::Process/FillBuffer")],
 "returned bytes of each Process call",[("stream position","number of key-stream bytes consumed so far")])
p("C09","The master key is derived exactly as specified from its components and rounds",
 "For every password, key file, seed and round count up to 64 bits, the transformed key is SHA-256 of the composite key after that many AES-256 encryptions of its two blocks. The composite key combines exactly the components that are set, in the order password then key file, hashed as the file format requires.",
 ["inputs"],"all passwords, key-file keys, seeds, both resolution modes, and all round counts",
 "Tests use two key combinations with small round counts.",
 ["src/key.cc","src/key.hh"],[("composite key","src/key.cc Key::CompositeKey::Resolve, SetPassword"),("transform loop","src/key.cc Key::Transform")],
 "the 32 bytes returned by Transform")
p("C10","Base64 encoding is standard and decoding inverts it",
 "For every byte string, encoding yields the standard padded Base64 text and decoding that text, with any white space inserted, returns exactly the original bytes. Text whose length without white space is not a multiple of four, or that contains a character outside the alphabet before its padding, is rejected with a format error.",
 ["inputs"],"all byte strings of every length; all texts",
 "Tests use a few words; every residue of the length modulo three, every byte value and every illegal character has to be right.",
 ["src/base64.hh"],[("encoder and decoder","src/base64.hh base64_encode/base64_decode")],
 "returned bytes or the exception thrown")
p("C11","The hashed block stream returns exactly what was written and detects damage",
 "Any data written through the hashed block writer, with any block size and any pattern of writes, is read back unchanged by the reader and ends at the end block. A block whose index, hash or length does not match its data, a missing block and a stream cut before its end block are reported as errors, never delivered as data or as a normal end.",
 ["inputs"],"all data, all block sizes, all block headers, every truncation point",
 "Tests write one small stream and corrupt a byte or two; block boundary cases, wrong indices and truncation at each position are not reached.",
 ["src/stream.cc","src/stream.hh"],[("block writer","src/stream.cc hashed_ostreambuf::overflow/sync/FlushBlock"),("block reader","src/stream.cc hashed_istreambuf::underflow")],
 "bytes and end of stream or error seen by the reader",[("block index","consecutive number of the next block")])
p("C12","The gzip layer is transparent and reports truncated or corrupt data",
 "Data written through the gzip writer is compressed completely and in order, and the gzip reader delivers exactly what the decompressor produces from the source, for any data size and however the compressor splits its output. A source that is corrupt or ends before the compressed stream does is reported as an error rather than as a normal end.",
 ["inputs","fault_sequences"],"all data sizes and contents, all split behaviours the compression library permits, every truncation point",
 "Tests compress one buffer; buffer-boundary cases (output exactly filling a buffer, calls producing no output, truncated sources) are not reached.",
 ["src/stream.cc","src/stream.hh"],[("compressing writer","src/stream.cc gzip_ostreambuf"),("decompressing reader","src/stream.cc gzip_istreambuf")],
 "bytes passed to and taken from the compression library and the stream, exceptions")
p("C13","Packed KDB timestamps convert exactly in both directions",
 "For every calendar time representable in the five-byte KDB format, packing writes the documented bit layout and unpacking returns the same time; 'never expires' maps to the documented constant and back. A packed value whose month, day, hour, minute or second is out of range, or whose year is before 1900, is rejected with a format error.",
 ["inputs"],"all calendar times and all 2^40 packed values",
 "Tests see the few timestamps in the fixtures; each field straddles byte boundaries, so errors show only for certain values.",
 ["src/kdb.cc"],[("packing and unpacking","src/kdb.cc KdbTime")],
 "the five bytes for a time, and the time for five bytes")
p("C14","The KDBX header is written and read back exactly, and bad headers are rejected",
 "For every cipher seed, vector, key, round count, compression setting and master seed, the exported header is the documented field sequence and importing it restores exactly those values. Headers with a wrong signature, a newer major version, an unknown cipher, compression, random stream or field, a vector or key of illegal size, or a field that is too short are rejected with a format or I/O error.",
 ["inputs"],"all header values; all header byte strings",
 "Tests use a few fixture headers; each field's size check and value check must hold for all values.",
 ["src/kdbx.cc"],[("header fields","src/kdbx.cc KdbxFile::Import/Export")],
 "header bytes of the exported file; settings of the imported database or the exception thrown")
p("C15","Comparing groups, entries and attachments is exact and safe",
 "Two entries, groups or attachments compare equal exactly when all their fields are equal and their lists have the same number of equal elements in the same order (icons and visible-entry references compare by identity, attachments by name and data). Comparison never reads outside either object, whatever their sizes and whichever optional parts are absent.",
 ["inputs"],"all pairs of objects with lists of any two lengths and any optional part present or absent",
 "Tests compare databases loaded from the same file, so lists always have the same length and differing single fields are never tried.",
 ["src/util.hh","src/entry.cc","src/group.cc","src/entry.hh","src/group.hh","src/binary.hh"],
 [("list comparison","src/util.hh indirect_equal"),("field comparison","operator== of Entry, Group, Binary, Attachment, AutoType")],
 "result of operator== and operator!=")
p("C16","A file object can be reused: no state leaks from one operation to the next",
 "Importing or exporting with a file object that was used before gives the same result as with a fresh one, whether the previous operation succeeded or failed. No attachment, icon, group reference or header hash of an earlier database can appear in, or validate, a later one.",
 ["histories"],"all sequences of import and export operations on one file object, including failed ones",
 "Tests construct a new file object for each operation.",
 ["src/kdbx.cc","src/kdbx.hh"],[("state reset","src/kdbx.cc KdbxFile::Reset called by Import and Export")],
 "result of the second operation",[("pools","attachment, icon and group lookup tables and header hash of the operation in progress")])
p("C17","An export that could not be written completely is reported",
 "If any part of the output cannot be written to the destination file, exporting in either format fails with an I/O error instead of returning as if the database had been saved.",
 ["fault_sequences"],"every point at which writing to the destination can start to fail, including when buffered data is finally flushed",
 "Tests always write to a healthy file system.",
 ["src/kdb.cc","src/kdbx.cc","src/io.hh"],[("output checks","src/kdb.cc KdbFile::Export, src/kdbx.cc KdbxFile::Export, src/io.hh conserve")],
 "whether export returns or throws")
p("C18","Malformed file contents are rejected with exceptions, never by aborting",
 "Whatever records, timestamps and references a correctly encrypted file contains, importing it either returns a database or throws an exception; it does not abort, use uninitialised data, access memory out of bounds or loop without consuming input.",
 ["inputs"],"all record streams, all timestamps and references after decryption",
 "Tests import well-formed files only.",
 ["src/kdb.cc","src/kdbx.cc","src/io.cc","src/stream.cc"],[("record readers","src/kdb.cc ReadGroup/ReadEntry"),("XML readers","src/kdbx.cc ParseMeta/ParseEntry/ParseGroup/ParseXml/ParseDateTime")],
 "return or exception type of import")
p("C19","Fixed-size values decoded from text never overrun their destination",
 "Copying decoded data into a fixed-size value stores each byte at its own position and throws as soon as one byte more than the value can hold is written, never touching memory outside it.",
 ["inputs"],"all array sizes used and all numbers of writes",
 "Tests decode values of exactly the right size.",
 ["src/iterator.hh","src/kdbx.cc"],[("bounds-checked iterator","src/iterator.hh bounds_checked_iterator")],
 "contents of the destination and the exception thrown")
p("C20","Fresh random values are unpredictable and never repeat between exports",
 "Every export uses freshly drawn start bytes, and newly generated identifiers and seeds are drawn from a source of real entropy.",
 ["histories"],"all sequences of exports and generated identifiers",
 "A test cannot establish the distribution of random values.",
 ["src/random.hh","src/util.cc"],[("random source","src/random.hh random_array, src/util.cc generate_uuid")],
 "random bytes in exported files")
p("C21","XML timestamps denote UTC seconds and survive a round trip",
 "Every time stored in a KDBX file is written as its UTC calendar date and time and read back as the same second, independent of the local time zone; the special 'never' value maps to the documented text and back. Text that is not such a timestamp is rejected with a format error or read as unset, never as an arbitrary time.",
 ["inputs","configurations"],"all times in years 1 to 9999 and all time zones; all timestamp texts",
 "Fixtures contain a few times in one time zone.",
 ["src/kdbx.cc"],[("date conversion","src/kdbx.cc ParseDateTime/WriteDateTime")],
 "text written for a time, time read for a text")
p("C22","Key files are read exactly, and anything else is rejected",
 "An XML key file with a Base64 key of 32 bytes, or a file of exactly 64 hexadecimal digits, yields exactly those 32 bytes as the key-file component. Any other file is rejected with an error and leaves the key unchanged.",
 ["inputs"],"all key files",
 "Tests load two well-formed key files.",
 ["src/key.cc"],[("key file reader","src/key.cc Key::SetKeyFile")],
 "key component after SetKeyFile, or the exception thrown")
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s); assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
