#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept as a script so that the long texts stay editable."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

ILINT="src/ilint/mod.rs"; IO="src/io/mod.rs"; ARR="src/io/array/mod.rs"; DATA="src/io/data/mod.rs"; STD="src/io/std_io/mod.rs"
TAGS="src/tags/mod.rs"; SER="src/tags/serialization/mod.rs"; EXP="src/tags/standard/explicit/mod.rs"; IMP="src/tags/standard/implicit/mod.rs"
FAC="src/tags/standard/factory/mod.rs"; RAW="src/tags/raw/mod.rs"; UTIL="src/tags/util/mod.rs"; PAY="src/tags/payload/mod.rs"

prop("C01","ILInt encoding is minimal, order-preserving and invertible",
 "For every 64-bit unsigned value, encoding it as an ILInt writes exactly the announced number of bytes (1 to 9), that is the smallest ILInt form for the value, the first byte alone announces the length, and decoding returns the value. The encoding is a single byte below 248 and otherwise a header byte followed by the big-endian value minus 248, and a larger value never gets a lexicographically smaller or equal encoding.",
 ["inputs"],"every u64 value",
 "Unit tests sample ten values, one per encoded size; the guarantee is over all 2^64 values, in particular around the nine size boundaries.",
 [ILINT],[("encoded_size","src/ilint/mod.rs"),("encode","src/ilint/mod.rs"),("decoded_size","src/ilint/mod.rs")],["bytes written by ilint::encode / write_ilint / serialize_ilint"])
prop("C02","ILInt decoding is total over arbitrary bytes and all decoders agree",
 "For every byte string, ILInt decoding either returns the value the format assigns to it and consumes exactly the number of bytes announced by the first byte, or fails cleanly when bytes are missing or the value exceeds 2^64-1. The slice decoder, the stream decoder and the header-plus-body decoder agree on every input, a longer-than-necessary form decodes to its value, and no input causes a crash, a wrapped value or a read beyond the announced length.",
 ["inputs"],"every byte string, at every available length",
 "Tests decode ten well-formed encodings and two malformed ones; they never explore the header/body/length/overflow space.",
 [ILINT],[("decode_body overflow test","src/ilint/mod.rs"),("decode_from_bytes","src/ilint/mod.rs"),("decode","src/ilint/mod.rs")],["ilint::decode*, read_ilint, deserialize_ilint"])
prop("C03","Signed ILInt is a bijection that keeps small magnitudes small",
 "Mapping a signed 64-bit value to its unsigned ILInt form is a bijection onto all unsigned 64-bit values, with non-negative n going to 2n and negative n going to -2n-1. Every signed value written through any signed-ILInt function takes exactly the announced number of bytes, is byte-identical to the unsigned ILInt of its mapped value, and reads back as itself.",
 ["inputs"],"every i64 value and every u64 value in the other direction",
 "Tests use a table of samples; a bijection on 2^64 values needs arbitrary values including the extremes and size boundaries of both signs.",
 [ILINT,DATA,SER],[("encode_sign/decode_sign","src/ilint/mod.rs"),("signed_encoded_size","src/ilint/mod.rs"),("read_signed_ilint/write_signed_ilint","src/io/data/mod.rs")],["signed_encode, signed_decode, (de)serialize_signed_ilint"])
prop("C04","Primitive values travel as big-endian through every read/write route",
 "Every 8/16/32/64-bit signed or unsigned integer, every 32/64-bit float (bit for bit, including NaN payloads and signed zeros), every ILInt and every UTF-8 string written through any of the equivalent APIs (free functions, concrete-type traits, trait-object routes) produces the same big-endian bytes of the exact width, and reads back identical through any of the equivalent read APIs. A sequence of mixed values reads back in order consuming exactly the bytes written, a read that lacks bytes fails, and a string read fails on bytes that are not valid UTF-8.",
 ["inputs","histories"],"every sequence of (type, value, write route, read route)",
 "Tests write one or two samples per type through one route at a time; the routes are dozens of macro-generated impls whose agreement over all bit patterns is not exercised.",
 [DATA,SER],[("read_*/write_* functions","src/io/data/mod.rs"),("ValueReader/ValueWriter impls","src/io/data/mod.rs"),("Value(De)Serializer impls","src/tags/serialization/mod.rs")],["bytes in the writer, values returned by readers"])
prop("C05","Every tag serializes to exactly the ILTag wire format",
 "For every tag of every standard type, with its default or a custom identifier and arbitrarily nested content, the serialized bytes are the identifier as ILInt, then for identifiers of 16 and above the value length as ILInt (never for lower identifiers), then the value in the layout the standard gives that type. The bytes are the same whichever writer receives them and whether the whole tag is serialized or turned into a byte vector.",
 ["inputs"],"all tag trees over all 27 standard types, raw tags and custom ids; all payload sizes up to tens of megabytes; all writers",
 "Tests serialize a handful of fixed values per type, with short payloads and no deep or mixed nesting; ILInt-width changes of ids, lengths and counts are not reached inside composite tags.",
 [TAGS,EXP,IMP],[("ILTag::serialize","src/tags/mod.rs"),("serialize_value impls","src/tags/standard/explicit/mod.rs"),("serialize_value impls","src/tags/standard/implicit/mod.rs")],["ILTag::serialize, serialize_value, to_bytes"])
prop("C06","Announced sizes equal the bytes actually written",
 "For every tag, the announced value size is exactly the number of bytes its value serialization writes, and the announced total size is exactly the number of bytes its full serialization writes. This holds for every content, identifier and nesting, before and after any mutation of the tag.",
 ["inputs","histories"],"all tag trees and mutation sequences on them",
 "The length prefix of every enclosing tag is computed from these sizes, so one wrong width corrupts a whole document; tests check them on a few fixed tags.",
 [TAGS,EXP,IMP],[("ILTag::size","src/tags/mod.rs"),("value_size impls","src/tags/standard/explicit/mod.rs")],["value_size(), size() against bytes counted at the writer"])
prop("C07","Serialize-then-deserialize returns the same tag and consumes just it",
 "For every tag, deserializing its serialized form with a factory that knows its type gives a tag of the same concrete type, identifier and value (bit-exact floats, same order of elements, same key/value pairs), whose re-serialization is byte-identical. Deserialization consumes exactly the bytes of that tag, so tags written back to back come back in order and unrelated following bytes are untouched; this is the same for in-memory, limited, streaming and seekable readers.",
 ["inputs","histories"],"all tag trees, all sequences of tags in one stream, all reader kinds",
 "Tests round-trip fixed samples of each type, mostly alone in a buffer; mixed nesting, custom registrations, large counts and multi-tag streams over different readers are not covered.",
 [FAC,TAGS,EXP,IMP],[("ILStandardTagFactory::deserialize","src/tags/standard/factory/mod.rs"),("deserialize_value impls","src/tags/standard/explicit/mod.rs"),("from_bytes","src/tags/mod.rs")],["factory.deserialize/from_bytes then accessors"])
prop("C08","Any byte string is decoded correctly or rejected, never crashing",
 "For every byte string, deserialization by a strict or non-strict factory succeeds exactly when the string starts with a well-formed tag, and then yields the value the format assigns to those bytes and consumes exactly them. Otherwise it returns an error; it never panics, aborts, overflows, wraps or loops, for inputs nested up to a reasonable depth.",
 ["inputs"],"all byte strings: random, structured and mutated encodings; strict and non-strict; with extra registered ids",
 "Tests feed a few hand-made malformed inputs per type; the accept/reject boundary over corrupted lengths, counts, ids, non-minimal integers, bad UTF-8 and bad booleans, in nested positions, is unexplored.",
 [FAC,EXP,IMP,ILINT],[("ILStandardTagFactory::deserialize","src/tags/standard/factory/mod.rs"),("deserialize_value checks","src/tags/standard/explicit/mod.rs")],["Result of deserialize, reader position"])
prop("C09","Truncated or over-long encodings are always detected",
 "No strict prefix of a well-formed tag encoding is itself accepted as that tag: cutting the encoding at any byte makes deserialization fail, on every reader kind. Decoding a complete byte array fails when anything follows the tag, however many bytes, and succeeds when nothing does.",
 ["inputs","crash_points"],"every valid encoding, every cut position, every non-empty suffix, every reader kind",
 "Tests cut a few encodings by one byte; a tag stream cut by a crash or a closed socket can end anywhere.",
 [FAC,TAGS,IO,ARR],[("from_bytes trailing check","src/tags/mod.rs"),("can_read checks","src/io/array/mod.rs"),("LimitedReader","src/io/mod.rs")],["deserialize/from_bytes results on prefixes and extensions"])
prop("C10","A tag's content is confined to its declared length at every level",
 "When a declared value length or element count anywhere in a nested encoding does not match the content, deserialization fails: a tag never reads past the end of its own value or of any enclosing tag, and never leaves part of its declared value unread. A lying length inside one tag cannot make a following or enclosing tag be misread as valid with a different content than the format assigns.",
 ["inputs"],"every valid nested encoding, with every single length or count field replaced by any other value",
 "Tests alter the length of single flat tags by one; quantifying over every length field at every nesting level, with compensating content, needs generation.",
 [FAC,IO,EXP],[("LimitedReader per tag","src/tags/standard/factory/mod.rs"),("limited_reader_ensure_empty","src/tags/util/mod.rs"),("count checks","src/tags/standard/explicit/mod.rs")],["deserialize result, number of bytes pulled from the underlying reader"])
prop("C11","Oversized declarations are refused and decode memory stays bounded",
 "A tag that declares more than 512 MiB is refused as too large, at any nesting level, for known and unknown identifiers, before its content is read, while exactly 512 MiB is not refused for its size. Whatever lengths and counts an input declares, the memory requested while decoding it never exceeds the 512 MiB maximum tag size plus a small multiple of the input actually supplied.",
 ["inputs"],"all declared sizes and counts, in all positions, with arbitrarily little content behind them",
 "Tests check the limit on the size field alone; they do not measure memory and do not combine huge counts with tiny inputs.",
 [TAGS,FAC,EXP,SER],[("MAX_TAG_SIZE / tag_size_to_usize","src/tags/mod.rs"),("reserve calls","src/tags/standard/explicit/mod.rs"),("deserialize_bytes_into_vec","src/tags/serialization/mod.rs")],["error returned, allocator requests, bytes pulled from the reader"])
prop("C12","Dictionaries serialize canonically and both kinds are compatible",
 "The serialized form of a dictionary depends only on its set of key/value pairs: keys appear once each, in ascending byte order, whatever the history of insertions, overwrites and removals, the instance or the process. A dictionary whose values are all string tags and a string dictionary with the same pairs have identical values on the wire, each can decode the other's value, and decoding returns the same pairs; lookups and insertion results behave as a map.",
 ["inputs","histories"],"all key sets (any Unicode, empty keys, shared prefixes, hundreds of keys) and all operation histories",
 "Hash map iteration order is random per instance, so a test passes or fails by luck on small key sets; tests use two or three ASCII keys and one insertion order.",
 [EXP],[("key sort before serialization","src/tags/standard/explicit/mod.rs"),("ILStrDictTag serialize","src/tags/standard/explicit/mod.rs")],["to_bytes of dictionaries built through different histories"])
prop("C13","The tag registry is a map and strictness decides unknown tags",
 "After any history of registrations and deregistrations, creating or decoding a tag uses the latest creator registered for exactly that identifier, registration and deregistration return the creator they displace, and every standard identifier starts with its own type. Unregistered identifiers give a raw tag preserving identifier and bytes in non-strict mode if they are 16 or above, and are refused as unknown otherwise; different factories do not influence each other.",
 ["histories","inputs","configurations"],"all histories of register/deregister/create/decode over arbitrary ids, strict and non-strict",
 "Tests register and remove one id once; overwrites, removal of standard tags, and interleaving with decoding are histories that no test walks.",
 [TAGS,FAC],[("ILTagCreatorEngine","src/tags/mod.rs"),("create_std_engine","src/tags/standard/factory/mod.rs")],["create_tag, deserialize, register/deregister return values"],
 [dict(name="creators",meaning="id to creator map",where="src/tags/mod.rs")])
prop("C14","Decoding into an existing tag leaves no trace of its old content",
 "Deserializing into an existing tag instance succeeds exactly when a fresh deserialization of the same bytes into that type would, and then leaves the instance with exactly the decoded value, whatever it held before, including after earlier failed attempts. If the encoded identifier differs from the instance's, it is refused as an unexpected tag type and the instance is unchanged.",
 ["inputs","histories"],"all tag types, all previous contents, all sequences of decodes (valid and invalid) into one instance",
 "Tests decode into freshly created instances; stale elements, stale keys or stale string tails only show on reuse.",
 [FAC,EXP,IMP,TAGS],[("deserialize_into","src/tags/standard/factory/mod.rs"),("clear/replace_range/resize in deserialize_value","src/tags/standard/explicit/mod.rs")],["instance content after deserialize_into"])
prop("C15","Tag equality is equality of encodings and clones are equal and independent",
 "Two tags compare equal exactly when their serialized forms are identical (identifier included), so equality is reflexive, symmetric and transitive across implementations, and a tag that cannot be serialized equals nothing. Cloning a tag yields an equal tag built by the given factory, leaves the original unchanged, shares no state with it, and fails when the factory cannot decode the tag.",
 ["inputs"],"all pairs and triples of tag trees, near-identical pairs in particular; all factories",
 "Tests compare five fixed string tags; near misses (same value other id, prefix values, different types with the same bytes) and nested trees are not covered.",
 [UTIL,TAGS],[("iltag_are_equal","src/tags/util/mod.rs"),("iltag_clone_with_factory","src/tags/util/mod.rs")],["iltag_are_equal, iltag_clone results"])
prop("C16","Raw scanning finds the exact boundaries of every tag in a stream",
 "Scanning any concatenation of well-formed tags reports, in order, every tag's identifier, start offset, value offset, value size and end offset exactly as laid out in the bytes, even if identifiers or lengths are written in longer-than-minimal form, so slicing the input with them gives exactly the tag and value bytes. Scanning arbitrary bytes never panics, never reports a tag that extends beyond the data, reports offsets beyond 4 GiB correctly, refuses the undefined implicit identifier, and the id-checking variant accepts exactly the matching tags.",
 ["inputs","histories"],"all concatenations of tags, all encodings of their headers, all byte strings, all reader kinds, huge virtual streams",
 "Tests scan one fixed sequence of small tags with minimal headers; malformed input, wide sizes and non-minimal headers are not scanned.",
 [RAW],[("RawTagScanner::next_tag","src/tags/raw/mod.rs"),("extract_tag_size","src/tags/raw/mod.rs"),("RawTagOffset accessors","src/tags/raw/mod.rs")],["offsets and slices returned"],
 [dict(name="offset",meaning="bytes consumed so far",where="src/tags/raw/mod.rs")])
prop("C17","In-memory readers are all-or-nothing and return exactly the source bytes",
 "For any history of reads, skips, repositionings and availability queries on a memory-backed reader, each successful operation returns exactly the next source bytes and advances by exactly that amount, and each failing operation changes neither the position nor the data still to be read. An operation fails exactly when fewer bytes remain than requested, reporting end of data if none remain, requesting zero bytes always succeeds, and positions beyond the end clamp to the end.",
 ["histories"],"all source contents and operation histories, including skips with counts near the integer limits",
 "Tests walk one fixed sequence per reader; failures in the middle of a history followed by more operations are histories.",
 [ARR,IO],[("assert_can_read","src/io/array/mod.rs"),("ByteArrayReader/VecReader","src/io/array/mod.rs"),("default skip/skip_u64","src/io/mod.rs")],["results and positions after each step"])
prop("C18","In-memory writers overwrite, extend and refuse exactly as specified",
 "For any history of byte writes, slice writes, repositionings and read-only switches, a vector-backed writer holds exactly what a random-access byte file would: writes overwrite from the current position, extend only past the end, never shrink, positions clamp to the length, and a read-only writer refuses and changes nothing. A fixed-size writer additionally refuses, without writing anything, any write that does not fit; a writer borrowing a vector leaves untouched every byte it was not asked to write and never panics when asked how much was written.",
 ["histories"],"all histories over the three writers, all initial contents, offsets and sizes",
 "Tests run short fixed sequences; interleavings of seek, overwrite-across-the-end, read-only toggling and empty writes are not covered.",
 [ARR],[("basevecwriter macros","src/io/array/mod.rs"),("ByteArrayWriter","src/io/array/mod.rs")],["buffer and offset after every step"])
prop("C19","A limited reader never takes more than its budget from the source",
 "For any history of reads, skips and end-seeks through a limited reader, the bytes returned are exactly the next bytes of the source, the remaining budget plus the bytes consumed from the source always equals the initial budget, and the source is never advanced beyond the budget, at any nesting of limited readers. An operation asking for more than the remaining budget fails, consumes nothing from the source and leaves the budget unchanged; skipping to the end leaves the source exactly at the end of the budget.",
 ["histories"],"all sources (shorter and longer than the budget), budgets, nesting and operation histories",
 "Tests use single small steps; large skips that cross internal chunk sizes and failures followed by further operations are not exercised.",
 [IO],[("LimitedReader","src/io/mod.rs"),("Reader::skip default","src/io/mod.rs")],["source position and available() after every step"],
 [dict(name="available",meaning="remaining budget",where="src/io/mod.rs")])
prop("C20","Standard I/O adapters behave as the in-memory reader and writer",
 "Over any standard reader, writer or seekable stream, whatever way it splits transfers (short reads, short writes, interruptions), the adapters return and deliver exactly the same bytes in the same order as the in-memory equivalents, or fail. On seekable streams, skipping moves forward by exactly the requested count or fails without moving, for counts up to the integer limit, and length, offset and availability queries report correctly without moving the position, even past the end.",
 ["histories","inputs","fault_sequences"],"all chunkings and interruptions of the underlying stream, all operation histories, all positions and counts",
 "Tests use an in-memory cursor that always transfers everything; sockets, pipes and files do not.",
 [STD],[("ReadReader","src/io/std_io/mod.rs"),("WriteWriter","src/io/std_io/mod.rs"),("Reader for Read+Seek","src/io/std_io/mod.rs"),("SizedSeek","src/io/std_io/mod.rs")],["bytes delivered, stream position"])
prop("C21","An I/O failure at any point is reported and never yields a wrong tag",
 "If the underlying reader fails at any operation while a tag is being deserialized or scanned, the operation returns that I/O error and no tag; if the underlying writer fails at any operation or runs out of room while a tag is being serialized, serialization returns that I/O error and what was written is an exact prefix of the tag's encoding. If no operation fails, the outcome is as if the fault layer were not there, and a following retry on a healthy reader or writer is unaffected.",
 ["fault_sequences","inputs"],"all tag trees, all fault positions, several error kinds, all buffer capacities",
 "Tests inject at most one failure in flat tags; swallowing an error in one nested position silently loses data.",
 [TAGS,EXP,IMP,SER,DATA,ILINT,FAC],[("? propagation and From conversion","src/tags/mod.rs"),("read_ilint/write_ilint error mapping","src/io/data/mod.rs")],["Result and bytes written when the n-th I/O operation fails"])
prop("C22","Custom tags with user payloads obey the same wire contract",
 "A generic tag carrying any user-defined payload serializes as its identifier, its payload's length and its payload's bytes, with correct announced sizes, and decodes through a factory it is registered with into the same payload, alone or nested inside standard containers. The payload is handed exactly its declared length and the active factory, can never read beyond that length, and a payload that leaves declared bytes unread or reports an error makes the decode fail.",
 ["inputs","programs"],"all payload contents and lengths, well- and ill-behaved payload readers, all custom ids and nestings",
 "Tests use one fixed-size well-behaved payload; the contract towards arbitrary user code cannot be sampled by it.",
 [PAY,FAC],[("ILGenericPayloadTag","src/tags/payload/mod.rs"),("deserialize_tag_value_into","src/tags/standard/factory/mod.rs")],["arguments seen by the payload, bytes, decode result"])
prop("C23","Size computation and serialization stay polynomial in nesting depth",
 "The work done to compute a tag's size or to serialize it grows at most polynomially with the nesting depth and linearly with the number of elements per level, for every nesting of containers. In particular a deeply nested tag, as can be decoded from a short input, can be measured, serialized, compared and cloned without exponential blow-up.",
 ["inputs"],"all shapes of nested containers, to depths of several dozen",
 "Tests nest at most two levels, where exponential and linear cost cannot be told apart.",
 [TAGS,EXP],[("ILTag::size default","src/tags/mod.rs"),("value_size of containers","src/tags/standard/explicit/mod.rs")],["number of size and serialization calls reaching a probe tag at the leaves"])
prop("C24","Typed accessors always show, and serialize, the last value set",
 "For every tag type and any history of constructors, setters and in-place mutations, the accessors return exactly the last value set, the identifier never changes, and the serialization equals that of a tag freshly constructed with the final value. Default construction gives the type's standard identifier and its zero or empty value.",
 ["histories","inputs"],"all tag types, all histories of setters and mutable accessors, all values",
 "Tests set one value once per type; partial updates (one component of a version, scale without value, shrinking strings) in sequence are not covered.",
 [EXP,IMP,TAGS],[("constructors and setters","src/tags/standard/explicit/mod.rs"),("simple_value_tag_struct_impl","src/tags/standard/implicit/mod.rs"),("ILRawTag","src/tags/mod.rs")],["accessor values and to_bytes after every step"])
prop("C25","Downcasts and id/type assertions succeed exactly on a match",
 "For every tag and every requested type and identifier, a downcast succeeds exactly when the concrete type matches (and, for the id-checking forms, the identifier too), giving access to that same tag, and otherwise reports failure with the specified error without changing the tag. Identifiers up to 15 and only those are implicit, up to 31 and only those are reserved, for every 64-bit identifier.",
 ["inputs"],"all (tag, requested type, requested id) triples and all u64 ids",
 "Tests try one matching and one mismatching pair; the full matrix of types and ids with each of the eight functions is not covered.",
 [TAGS],[("tag_downcast_*","src/tags/mod.rs"),("assert_tag_id_and_type*","src/tags/mod.rs"),("is_implicit_tag/is_reserved_tag","src/tags/mod.rs")],["returned options/results"])
prop("C26","Decoding and encoding have no memory and are safe to share across threads",
 "The outcome of decoding given bytes with a given factory configuration, or of encoding a given tag, is always the same: it does not depend on what the factory, the thread or the process decoded, encoded or failed at before. One factory and one tag can be used by many threads at once, and every thread gets the outcome it would get alone.",
 ["histories","schedules"],"all histories of valid and invalid decodes on one factory; concurrent use from several threads",
 "Every test uses a fresh factory once, on one thread; leaks of state between operations need histories to show.",
 [FAC,TAGS,UTIL],[("ILTagFactory takes &self","src/tags/mod.rs"),("Send + Sync bounds","src/tags/mod.rs")],["results of the same operation at different points of a history and on different threads"])
prop("C27","Raw offsets of nested tags map exactly into the enclosing data",
 "Scanning a container's value and mapping the offsets found to the parent's space, repeatedly at every level, gives offsets that locate exactly the nested tag and its value in the original bytes, keeping identifier and sizes. A tag that does not fit inside the parent's value is refused, one that fits exactly is accepted, and all the offset accessors are mutually consistent.",
 ["inputs"],"all nested tag trees, all levels; all consistent and inconsistent parent/child offset pairs",
 "Tests use five hand-made pairs at one level and never map offsets obtained from real nested data.",
 [RAW],[("map_to_parent_space","src/tags/raw/mod.rs"),("RawTagOffset","src/tags/raw/mod.rs")],["mapped offsets against positions known from construction"])
prop("C28","Direct string-tag functions agree with the string tag",
 "For every string, the functions that measure, write and read a standard string tag without building it give exactly the size, bytes and value the string tag object gives, in both directions. Reading fails on any other identifier, truncated data, oversized declarations or invalid UTF-8, and on success a caller-supplied output string holds exactly the decoded string, whatever it held before.",
 ["inputs","histories"],"all Unicode strings up to large sizes, all corruptions, all previous output contents",
 "Tests use one ASCII sample; dictionaries are built on these functions, so widths at every length boundary matter.",
 [EXP],[("string_tag_size_from_value","src/tags/standard/explicit/mod.rs"),("serialize_string_tag_from_value","src/tags/standard/explicit/mod.rs"),("deserialize_string_tag_from_value_into","src/tags/standard/explicit/mod.rs")],["bytes, sizes and strings from both routes"])
prop("C29","Errors tell what went wrong",
 "When exactly one thing is wrong with the data, the error names it, at any nesting depth and through any reader: an identifier the factory does not know gives UnknownTag (unless the factory is lenient), a declared length over the limit TagTooLarge, data that ends early an I/O error of end of data, a malformed value or bytes left over CorruptedData, decoding over a tag with another identifier, known or not, UnexpectedTagType. The same holds when a stream is only scanned, where the reserved identifier 15 gives CorruptedData and a tag with another identifier than the one asked for UnexpectedTagType. Errors reported by readers, writers, standard streams and user payloads reach the caller as they were reported.",
 ["inputs","fault_sequences"],"all tag trees, all single corruptions, all nesting depths, all error kinds raised by readers, writers, streams and payloads",
 "Tests assert error kinds on flat hand-made samples; callers that react to a kind (refill on end of data, skip unknown tags) need it preserved through every level.",
 [TAGS,IO,DATA,STD,ILINT,EXP,FAC,PAY],[("ErrorKind conversions","src/tags/mod.rs"),("ErrorKind and From<std::io::Error>","src/io/mod.rs"),("deserialize_into","src/tags/mod.rs")],["the ErrorKind returned"])
prop("C30","Nothing is left behind in memory",
 "When the readers, writers, tags and factories of an operation are dropped, everything allocated by it is released, whether it succeeded or failed at any point: decoding, scanning, encoding, cloning, changing tags, replacing their contents and registering creators, repeated any number of times, do not make the memory in use grow.",
 ["histories","inputs","fault_sequences"],"all histories of succeeding and failing operations, of tag mutations and of registrations",
 "Tests never measure memory; a leak on one error path or in one setter only shows by accounting over repeated histories.",
 [TAGS,EXP,IMP,FAC,ARR,PAY],[("ownership of Box<dyn ILTag>","src/tags/mod.rs"),("ILTagDictionary and arrays","src/tags/standard/explicit/mod.rs"),("ILTagCreatorEngine","src/tags/util/mod.rs")],["bytes allocated and not freed by the thread"])

prop("C31","The work of decoding is bounded by the size of the input",
 "Whatever bytes are decoded, decoded into a tag, scanned or cloned, valid or hostile, the work is at most proportional to the bytes supplied: the number of operations on the reader, of tags created and of requests for memory stays within a small multiple of the input's length at any nesting depth up to a reasonable one, and the time grows about linearly with the number of elements, also when the input turns out to be wrong only at its end.",
 ["inputs"],"all byte strings: valid, damaged, cut, with lying counts and lengths, deeply nested, wide",
 "Tests decode a few small inputs; work that doubles with every level, or is repeated for every element, needs deep and wide ones, and wrong ones.",
 [FAC,TAGS,EXP,RAW,IO],[("ILStandardTagFactory::deserialize","src/tags/standard/factory/mod.rs"),("container deserialize_value loops","src/tags/standard/explicit/mod.rs"),("RawTagScanner::next_tag","src/tags/raw/mod.rs"),("Reader::skip default","src/io/mod.rs")],["operations of the reader, creators called, allocations, processor time"])
prop("C32","Streams are used frugally: nothing past the end, nothing after a failure",
 "Decoding or scanning a tag takes from its source exactly the bytes of the tag, each once and in order, and asks for nothing more, so that it completes on an interactive connection as soon as the last byte has arrived and leaves what follows to the next reader; on wrong data it never goes beyond the end the tag declares. Encoding hands over every byte, once and in order, before it returns. After a source or sink has reported a failure or its end, the operation does not use it again.",
 ["inputs","fault_sequences"],"all tags, all routes (decode, decode into, value only, scan, primitives), all kinds of sources and sinks, failures at any operation",
 "Tests read from in-memory data where asking for more is harmless; on a socket it blocks for ever or swallows the next message.",
 [TAGS,FAC,RAW,IO,STD,DATA,ILINT],[("Reader/Writer routes","src/io/mod.rs"),("ReadReader, WriteWriter","src/io/std_io/mod.rs"),("deserialize_tag_value_into","src/tags/standard/factory/mod.rs"),("RawTagScanner::next_tag","src/tags/raw/mod.rs")],["requests seen by the source or sink"])

here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
