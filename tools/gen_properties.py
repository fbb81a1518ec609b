#!/usr/bin/env python3
# Writes /verif/properties.jsonl.
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe or [], hook_needed=None)))
M='crates/musli/src/'; C='crates/musli-core/src/'; Z='crates/musli-zerocopy/src/'; D='crates/musli-macros/src/'

p('C01','Every value survives a round trip through every format and option set',
 'For every encodable value made of the supported primitives, strings, bytes, options, sequences, maps, variants, packed sequences and standard library collections, encoding it and decoding the produced bytes as the same type yields an equal value and consumes exactly the bytes that were produced. This holds in the packed, storage, wire, descriptive, JSON and dynamic-value formats (for the data each format documents as supported) and under every combination of integer, float, pointer-width and byte-order options that can represent the value. Values which do not fit the chosen pointer width are rejected with an error instead of being altered.',
 ['inputs','configurations'],'all values and shapes of data, times all formats, times all encoding options',
 'Tests round-trip a few fixed literals per format (default options mostly) and the fuzz binary uses six fixed models; the space of shapes x boundary values x options is not reached.',
 [M+'storage/en.rs',M+'storage/de.rs',M+'wire/en.rs',M+'wire/de.rs',M+'descriptive/en.rs',M+'descriptive/de.rs',M+'json/en/mod.rs',M+'json/de/mod.rs',M+'value/en.rs',M+'value/de.rs',M+'int/mod.rs',C+'impls/mod.rs'],
 [('integer/length coding',M+'int/'),('wire tag/length prefixes',M+'wire/tag.rs'),('type tags',M+'descriptive/tag.rs'),('standard library impls',C+'impls/')],
 ['musli::{packed,storage,wire,descriptive,json,value} encode/decode'])

p('C02','Upgrade-stable formats tolerate reordered, added, removed and missing fields',
 'Data written for one version of a model can be read by another version of that model according to the documented capability of the format: storage tolerates reordered fields and missing defaulted fields, and wire, descriptive, JSON and the dynamic value additionally skip any unknown field or unread element, of any shape and size, without disturbing the fields which are read. Formats without a capability report an error and never yield a value that differs from the data. Skipping a value consumes exactly the bytes that the value occupies.',
 ['inputs','histories','configurations'],'all pairs of model versions (reorder, add, remove, default), all values of unknown fields, all option sets',
 'The existing upgrade tests use a couple of fixed struct pairs with default options; skip paths over nested, large or differently-tagged values and other option sets are not sampled.',
 [M+'wire/de.rs',M+'descriptive/de.rs',M+'json/de/mod.rs',M+'storage/de.rs',M+'value/de.rs',C+'de/decoder.rs',D+'de.rs'],
 [('skip of unknown values',M+'wire/de.rs skip_any'),('skip of unknown values',M+'descriptive/de.rs skip_any'),('skip_value of JSON',M+'json/parser/parser.rs'),('derived field loop with default handling',D+'de.rs')],
 ['derived Decode of a different model version'])

p('C03','Self-descriptive data converts losslessly to and from the dynamic value',
 'Decoding any descriptive or JSON document into the dynamic value and encoding that value again yields a document which decodes to the same data, and a model can be encoded to or decoded from the dynamic value with the same result as going through bytes. Buffering a value while decoding, as tagged and untagged enums do, gives the same result as decoding it directly.',
 ['inputs'],'all values, all shapes, the descriptive, JSON and dynamic value formats, both modes',
 'Only a handful of literals are converted to the dynamic value by tests.',
 [M+'value/value.rs',M+'value/de.rs',M+'value/en.rs',M+'value/type_hint.rs',M+'descriptive/de.rs',M+'json/de/mod.rs'],
 [('dynamic value visitor',M+'value/value.rs'),('value decoder',M+'value/de.rs'),('value encoder',M+'value/en.rs'),('decode_any',M+'descriptive/de.rs')],
 ['musli::value::{encode,decode}, Decode for Value'])

p('C04','Numbers decode exactly or not at all when their width or kind changes',
 'In the self-descriptive formats (descriptive, JSON and the dynamic value) an integer may be decoded as any integer type: the result is numerically equal to the encoded number when it fits and an error otherwise, never a truncated, wrapped or sign-changed number. In every format, decoding an encoded number that is out of range for the requested or configured width is an error and not a silent change. A decoded boolean, character, non-zero integer or string is always a valid one.',
 ['inputs','configurations'],'all integers in all source and target integer types, in all self-descriptive formats; all encoded payloads',
 'Tests try a couple of in-range values; boundary-exceeding source/target pairs are not sampled.',
 [M+'descriptive/de.rs',M+'descriptive/integer_encoding.rs',M+'value/de.rs',M+'json/parser/integer.rs',M+'int/continuation.rs',M+'storage/de.rs',M+'wire/de.rs',C+'impls/mod.rs'],
 [('typed number decode',M+'descriptive/integer_encoding.rs'),('Number conversions',M+'value/de.rs'),('continuation decode',M+'int/continuation.rs'),('JSON integer parser',M+'json/parser/integer.rs')],
 ['decode::<uN/iN>'])

p('C05','Malformed input is always answered with a value or an error, and nothing else',
 'Decoding arbitrary, truncated, mutated or adversarially crafted bytes in any format and any option set, into any type, terminates with either a value or an error: it never panics, aborts, overflows the stack, loops without progress, reads outside the input or produces an invalid value. Memory claimed while decoding stays proportional to the size of the input, whatever lengths the input announces.',
 ['inputs','configurations','fault_sequences'],'all byte strings, all formats, all option sets, all target types',
 'The repository has one random-bytes run with a fixed seed over six models; crafted lengths, deep nesting and mutated valid documents are not explored.',
 [M+'storage/de.rs',M+'wire/de.rs',M+'descriptive/de.rs',M+'json/parser/',M+'json/de/mod.rs',M+'value/value.rs',M+'reader.rs',M+'int/',C+'impls/alloc.rs'],
 [('bounds checks of readers',M+'reader.rs'),('cautious size hints',C+'de/size_hint.rs'),('checked length arithmetic',M+'wire/de.rs, '+M+'descriptive/de.rs')],
 ['from_slice/decode on arbitrary bytes'])

p('C06','JSON output is standard JSON and standard JSON is understood',
 'Every value encoded as JSON (with finite floats) is a document that an independent standards-compliant parser accepts and reads as the same data. Every standards-compliant document, with any whitespace, string escapes, unicode surrogate pairs, number spellings and object key order, decodes to the same data that an independent parser reads from it, whether parsed from a string, from bytes or through a moving input slice. Invalid escapes, lone surrogates, control characters that standard JSON forbids in raw form and invalid UTF-8 never produce a string that is not valid UTF-8.',
 ['inputs'],'all JSON documents and all encodable values',
 'Tests compare a few hand-written strings.',
 [M+'json/en/mod.rs',M+'json/parser/string.rs',M+'json/parser/parser.rs',M+'json/parser/slice_parser.rs',M+'json/parser/mut_slice_parser.rs',M+'json/de/mod.rs'],
 [('string escape writer',M+'json/en/mod.rs encode_string'),('string parser',M+'json/parser/string.rs'),('lexer',M+'json/parser/parser.rs')],
 ['musli::json::{to_string,from_str,from_slice,decode} vs serde_json'])

p('C07','JSON numbers are parsed exactly',
 'Parsing a JSON number as a float gives the correctly rounded nearest value of that type for every decimal spelling, and printing then parsing a finite float gives back the identical bits. Parsing a JSON number as an integer accepts exactly the spellings whose mathematical value is an integer in range, with or without fraction and exponent, and gives that integer; every other number is an error.',
 ['inputs'],'all decimal number spellings, all integer and float target types',
 'Tests check a table of a few dozen spellings.',
 [M+'json/parser/integer.rs',M+'dec2flt/',M+'json/parser/parser.rs',M+'json/en/mod.rs'],
 [('integer with fraction/exponent parser',M+'json/parser/integer.rs'),('decimal to float',M+'dec2flt/')],
 ['json::from_str::<f64/f32/uN/iN> vs std parse / big-integer arithmetic'])

p('C08','Derived encodings follow the documented meaning of their attributes',
 'For every struct and enum, a derived implementation produces and accepts the documented representation for its attributes: renaming, index or text names per mode, transparent, packed, defaults, skipping, patterns, custom with-modules, bytes, and the external, internal, adjacent and untagged enum representations. Encoding then decoding gives the original value up to skipped fields, which take their default, and the representation seen through a self-descriptive format is exactly the documented one.',
 ['programs','inputs'],'all derived type definitions (combinations of supported attributes), all values of them',
 'Tests fix one attribute at a time on single types; combinations of attributes, modes and enum representations are a product space.',
 [D+'en.rs',D+'de.rs',D+'expander.rs',D+'internals/attr.rs',D+'internals/build.rs',D+'internals/name.rs','crates/musli/help/derives.md'],
 [('derive Encode',D+'en.rs'),('derive Decode',D+'de.rs'),('attribute parsing',D+'internals/attr.rs')],
 ['#[derive(Encode, Decode)] programs, generated'])

p('C09','The serde bridge preserves data in both directions',
 'Any type with serde support can be encoded and decoded through the serde bridge in every format that supports its shape, and yields an equal value. In JSON the document produced through the bridge denotes the same data that serde_json produces for the type, and a serde type decodes from what the equivalent natively derived type encodes.',
 ['inputs','programs'],'all serde-supported values and shapes',
 'Tests bridge a handful of models with a fixed seed.',
 [M+'serde/ser.rs',M+'serde/de.rs',M+'serde/mod.rs',M+'serde/error.rs'],
 [('Serializer adapter',M+'serde/ser.rs'),('Deserializer adapter',M+'serde/de.rs')],
 ['musli::serde::{encode,decode}, #[musli(with = musli::serde)]'])

p('C10','Allocators and allocator-aware containers behave like ordinary memory',
 'For every sequence of operations on buffers, strings and boxes taken from the fixed-slice allocator or the system allocator, live allocations never overlap, are aligned, stay inside the provided memory, keep their contents until changed, and each container behaves like the standard one. Exhaustion is reported as an error that leaves existing data intact, and once everything is released the memory can be used again. Decoding with the fixed-slice allocator yields the same result as with the system allocator whenever its space suffices.',
 ['histories','configurations'],'all interleaved histories of allocate, grow, free and read over several live containers, all slice sizes and alignments',
 'Tests run a few short scripted grow/free orders; fragmentation, reuse and merge depend on the history.',
 [M+'alloc/slice.rs',C+'alloc/vec.rs',C+'alloc/string.rs',C+'alloc/boxed.rs',C+'alloc/'],
 [('region list, free list and merging',M+'alloc/slice.rs'),('container growth',C+'alloc/vec.rs')],
 ['musli::alloc::{Slice,System,Vec,String,Box}'])

p('C11','Every input source and output target carries the same bytes',
 'Encoding a value gives identical bytes through every output target (growable vector, fixed array, mutable slice, stream writer) and with every context, and a target that is too small or a stream that fails gives an error, with nothing written past its end. Decoding gives the same result from every input source (slice, moving slice reference, limited reader), and a reader given a longer input is left exactly after the value that was read.',
 ['inputs','configurations','fault_sequences'],'all values, all formats, all target capacities, all failing write positions',
 'Tests use one target per format with sufficiently large buffers.',
 [M+'writer.rs',M+'reader.rs',M+'fixed.rs',M+'wrap.rs',M+'macros/internal.rs',M+'json/parser/'],
 [('writers',M+'writer.rs, '+M+'fixed.rs, '+M+'wrap.rs'),('readers',M+'reader.rs'),('JSON input adapters',M+'json/parser/into_parser.rs')],
 ['to_vec/to_slice/to_fixed_bytes/to_writer/encode/decode'])

p('C12','Error tracing never changes results and reports the true location',
 'Encoding or decoding with a tracing context succeeds, fails and yields exactly what the plain context does, and a reused context carries nothing over from a previous use. When decoding fails, or a value refuses to be encoded, the reported path names exactly the fields and variants of derived types, the traced map keys and the indexes of collections that lead to the offending value; elements of tuples and packed types, and whatever lies below an enum which had to be buffered or tried, need not be named. The reported byte range of a decoding error lies within the input, and memory which is too small to hold a path shortens it from its end without reporting other steps.',
 ['inputs','fault_sequences','configurations'],'all documents with a fault at any location, all nesting shapes, small and large trace allocators',
 'Tests check single hand-made failures.',
 [M+'context/trace.rs',M+'context/context_error.rs',M+'context/access.rs',M+'context/default_context.rs',D+'de.rs'],
 [('path stack',M+'context/trace.rs'),('derive tracing calls',D+'de.rs')],
 ['context::new().with_trace(), report()/errors()'])

p('C13','Binary encodings match their documented wire representation',
 'The bytes produced for each primitive and container by the packed, storage, wire and descriptive formats are the documented ones: fixed-width numbers in the selected byte order, variable-width integers as seven-bit continuation groups with zigzag for signed numbers, lengths in the selected width, and the documented tag layout for wire and descriptive. A decoder reads what an independent implementation of that description writes as the same value.',
 ['inputs','configurations'],'all primitive values, sequences, maps and variants, all option sets',
 'Tests pin a few byte literals under default options; a matched change of encoder and decoder breaks stored data and passes every round-trip test.',
 [M+'int/',M+'storage/',M+'wire/tag.rs',M+'wire/en.rs',M+'descriptive/tag.rs',M+'descriptive/en.rs',M+'options.rs'],
 [('continuation and zigzag',M+'int/continuation.rs, '+M+'int/zigzag.rs'),('tags',M+'wire/tag.rs, '+M+'descriptive/tag.rs'),('option selection',M+'options.rs')],
 ['to_vec bytes vs reference encoder'])

p('C14','Bulk copying of packed data is indistinguishable from per-element coding',
 'Whenever a slice, array, vector, deque or packed struct is eligible to be copied in bulk, the bytes written and the values read are those of encoding and decoding its fields and elements in order, one by one, for every element type, nesting, length, format, integer option and byte order; padding is never part of them. (Arrays and units inside of data copied in bulk contribute just their elements, without a length of their own, and read back the same way.) Bulk decoding rejects exactly the bytes that element-wise decoding rejects, so a copied value is never invalid.',
 ['inputs','programs','configurations'],'all packed types (fields, nesting, generics), all values, all option sets',
 'Tests cover a couple of packed structs under one option set.',
 [M+'storage/en.rs',M+'storage/de.rs',C+'en/encode.rs',C+'de/decode.rs',C+'impls/tuples.rs',C+'impls/alloc.rs',D+'en.rs',D+'de.rs',C+'en/utils.rs',C+'de/utils.rs'],
 [('bitwise flags',C+'en/encode.rs, '+C+'de/decode.rs'),('try_fast_encode / encode_slice',M+'storage/en.rs'),('slice sequence helper',C+'en/utils.rs')],
 ['encode of [T] vs encode of elements; derive packed'])

p('Z01','Zero-copy buffers give back what was stored, aligned',
 'For every history of stores, reservations, alignment requests and growth on an owned or borrowed zero-copy buffer, each returned reference loads exactly the value, slice or string that was stored (or last updated) at an offset that satisfies its alignment, and the contents do not depend on the initial capacity or growth. Copying, freezing, cloning or re-loading the bytes from an aligned location preserves this, and padding bytes are always initialized. A borrowed buffer that is too small fails without corrupting what was stored.',
 ['histories','configurations'],'all operation histories over all zero-copy types, capacities, alignments',
 'Tests execute short scripted sequences on a few types.',
 [Z+'buf/owned_buf.rs',Z+'buf/slice_mut.rs',Z+'buf/buf.rs',Z+'buf/store_buf.rs',Z+'buf/padder.rs',Z+'pointer/ref.rs',Z+'traits.rs','crates/musli-zerocopy-macros/src/zero_copy/mod.rs'],
 [('allocation and alignment',Z+'buf/owned_buf.rs'),('padding',Z+'buf/padder.rs'),('derive ZeroCopy','crates/musli-zerocopy-macros/src/zero_copy/mod.rs')],
 ['OwnedBuf/SliceMut store/load'])

p('Z02','Loading from untrusted bytes validates or errors',
 'Loading any zero-copy type, slice or string from arbitrary bytes through any reference, including references read from those bytes, either yields a reference to a fully valid, in-bounds and aligned value or an error: it accepts every validly stored value, rejects every invalid bit pattern, range, alignment and discriminant, and never panics or reads out of bounds.',
 ['inputs','fault_sequences'],'all byte buffers, offsets, lengths, misalignments, all zero-copy types including derived ones',
 'Tests check single invalid patterns for a few types.',
 [Z+'buf/validator.rs',Z+'buf/buf.rs',Z+'buf/load.rs',Z+'traits.rs',Z+'pointer/ref.rs',Z+'pointer/coerce.rs','crates/musli-zerocopy-macros/src/zero_copy/mod.rs'],
 [('validators',Z+'buf/validator.rs, '+Z+'traits.rs'),('bounds and alignment checks',Z+'buf/buf.rs'),('derived validate','crates/musli-zerocopy-macros/src/zero_copy/mod.rs')],
 ['Buf::load* on arbitrary bytes'])

p('Z03','Zero-copy hash tables hold exactly their entries',
 'A hash map or set stored from any collection of entries, with distinct keys, finds every stored key with its own value, finds no other key and has the right length, for both the perfect-hash and the open-addressing tables. Queries on a table whose bytes are corrupted end with a result or an error, without a panic, hang or out-of-bounds access.',
 ['inputs','histories','fault_sequences'],'all key sets and values, sizes across group and resize boundaries, all absent queries, corrupted tables',
 'Tests store a few small maps.',
 [Z+'swiss/',Z+'phf/'],
 [('raw table insert/find',Z+'swiss/raw/mod.rs'),('constructor',Z+'swiss/constructor.rs'),('group probing',Z+'swiss/raw/'),('perfect hash',Z+'phf/')],
 ['swiss::{store_map,store_set}, phf::{store_map,store_set}, get/contains/iter'])

p('Z04','Zero-copy tries and sorted searches answer like an ordered map',
 'A trie built from any sequence of keys and values answers exact lookups, prefix queries and full iteration with exactly the entries of an ordered multimap from keys to their values, which for each key are in the order of insertion, for every flavor and insertion order. Binary search over a stored sorted slice behaves like the standard binary search, whatever the comparison used.',
 ['inputs','histories'],'all key sets with shared prefixes, duplicate keys, insertion orders, queries',
 'Tests insert a few words.',
 [Z+'trie/mod.rs',Z+'trie/factory.rs',Z+'slice/',Z+'lossy_str.rs'],
 [('insertion and node split',Z+'trie/mod.rs'),('binary search',Z+'slice/binary_search.rs')],
 ['trie::{store,Builder}, get/prefix/iter'])

p('Z05','Endianness and pointer-size choices never change meaning',
 'A value, slice, table, trie or reference stored with any byte order and pointer size reads back with the same meaning as with the native one, and its bytes are those of the selected order. Converting a value between byte orders and back is the identity, and conversions, ordering, element access, splitting, iteration and coercion of references select exactly the same elements in every byte order and pointer size, or fail when the selected pointer size cannot represent them.',
 ['inputs','configurations'],'all zero-copy types and references, both byte orders, all pointer sizes, all offsets and lengths',
 'Tests use the native order for nearly everything.',
 [Z+'endian/',Z+'traits.rs',Z+'pointer/ref.rs',Z+'pointer/size.rs',Z+'pointer/coerce.rs',Z+'pointer/pointee.rs','crates/musli-zerocopy-macros/src/zero_copy/mod.rs'],
 [('byte swapping',Z+'traits.rs swap_bytes'),('pointer sizes',Z+'pointer/size.rs'),('reference arithmetic',Z+'pointer/ref.rs')],
 ['Endian, Order, Ref<_, E, O>'])

for x in P:
    for q in x['anchors']['files']+[w.strip().split(' ')[0] for m in x['anchors']['mechanism'] for w in m['where'].replace(' and ',', ').split(',')]:
        if not os.path.exists('/repo/'+q) and '/' in q: print(x['id'],'no',q)
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
