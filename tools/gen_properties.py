#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title)); P.append(d)

GEN='midi2_proc/src/generate_message.rs'
prop('C01','Untrusted input never panics or hangs',
 "Parsing any slice of 32-bit words or bytes, as any message type, aggregate or packet type, either returns an error or a message; it never panics and always terminates. On every message or packet obtained that way, every read operation (data, debug rendering, equality, every field, payload and text iterators in any call order, packets, conversion to another buffer or to the other representation) also terminates without panicking.",
 ['inputs'],'every finite u8/u32 slice (including empty, truncated, multi-packet, with trailing data) x every public parse entry point x every read operation and iterator call order',
 'Unit tests feed a few hand-picked slices per type and read one field each; the claim ranges over all slices, and over every accessor after every successful parse.',
 ['midi2/src/message.rs',GEN,'midi2/src/detail/helpers.rs','midi2/src/sysex7.rs','midi2/src/sysex8.rs','midi2/src/flex_data/text.rs','midi2/src/ump_stream.rs','midi2/src/sysex8/packet.rs'],
 [('per-property validation at parse time','midi2_proc/src/generate_message.rs try_from_slice_impl'),('status/format run validation','midi2/src/detail/helpers.rs validate_sysex_group_statuses'),('packet validation','midi2/src/*/packet.rs TryFrom')],
 ['TryFrom<&[u32]>/TryFrom<&[u8]> of every message, aggregate and Packet','all getters, payload(), text accessors, packets(), Debug'])
prop('C02','Parsing accepts exactly the well-formed messages, as the right type',
 "A slice of words or bytes is accepted by a message type exactly when its leading units form a complete well-formed message of that type per the MIDI 2.0 wire tables (message type, status, bank, format sequence, packet sizes, valid enumerated field values, consistent group / stream id / function block over its packets; a message that can span packets is judged over the whole leading run of packets of its message type; reserved bits, the value of unused payload octets and the top bit of words-encoded 7-bit values are ignored). An aggregate (all-message, all-byte-message, or one family) accepts exactly when one of its member types does, and yields that member.",
 ['inputs'],'every slice, every message type and every aggregate; valid encodings, near-valid mutations and arbitrary words',
 'Tests check one or two accepted and rejected samples per type; wrong dispatch arms, missing validity conditions and over-rejection only show on inputs nobody listed.',
 ['midi2/src/message.rs','midi2/src/channel_voice1.rs','midi2/src/channel_voice2.rs','midi2/src/flex_data.rs','midi2/src/ump_stream.rs','midi2/src/system_common.rs','midi2/src/utility.rs',GEN],
 [('aggregate dispatch','midi2/src/message.rs and each family enum TryFrom'),('validation steps',GEN),('status properties','midi2/src/detail/common_properties.rs, flex_data.rs, ump_stream.rs')],
 ['Ok/Err of TryFrom', 'the enum variant returned'])
prop('C03','A parsed message is exactly its own units, whatever follows it',
 "The data of a parsed message is exactly the leading units of the input that form the message: parsing that data again succeeds, gives the same data and the same value of every field, and no shorter prefix of it is accepted as a multi-packet message of that length. Appending units that belong to a message of another type never changes whether the message is accepted, its data, its fields, its payload or its text.",
 ['inputs'],'every accepted slice x every tail made of units of other message types (well-formed or not, whole or partial)',
 'Existing oversized-slice tests use a single fixed tail on a few types and look at one accessor.',
 [GEN,'midi2/src/sysex7.rs','midi2/src/sysex8.rs','midi2/src/flex_data.rs','midi2/src/flex_data/text.rs','midi2/src/ump_stream.rs','midi2/src/ump_stream/function_block_name.rs'],
 [('message extent','Size impls: sysex7.rs, sysex8.rs, flex_data_dyn_size, ump_stream message_size'),('Data impl',GEN)],
 ['data()','getters','payload()','text accessors'])
prop('C04','Every field read returns the value the wire encoding prescribes',
 "For every message type and every accepted encoding, reading a field returns exactly the value encoded in that field's bits as laid down by the MIDI 2.0 wire tables (position, width, byte order, enumerated codes), independent of all other bits, of what follows the message and of the buffer holding it; and its printed (Debug) form lists the units it holds.",
 ['inputs'],'every message type, every field, every content of the field bits and of all other bits',
 'Tests read one hand-written sample per field, usually with zero elsewhere, so wrong masks, shifts, byte orders or code tables survive.',
 ['midi2/src/detail/schema.rs','midi2/src/detail/bit_ops.rs','midi2/src/detail/common_properties.rs','midi2/src/channel_voice2','midi2/src/channel_voice1','midi2/src/flex_data','midi2/src/ump_stream','midi2/src/utility.rs','midi2/src/system_common'],
 [('schema masks','midi2/src/detail/schema.rs'),('bit access','midi2/src/detail/bit_ops.rs'),('per-message property declarations','#[property(...)] in each message file')],
 ['generated getters, group(), channel()'])
prop('C05','Writing a field stores that value and disturbs nothing else',
 "After any history of field writes on a message in any mutable buffer, each field reads back the value last written to it (or its initial value), the message's units carry exactly those values at the positions of the wire tables, every unit bit not belonging to a written field is unchanged, and the message parses again as the same type.",
 ['histories','inputs'],'every message type, every sequence of setter calls with every value, from default-constructed and from parsed messages, in every mutable buffer kind',
 'Tests set one field once on a fresh message; interference between fields, stale bits from an earlier larger value and writes onto parsed (non-zero) content need histories.',
 ['midi2/src/detail/schema.rs','midi2/src/detail/bit_ops.rs','midi2/src/detail/common_properties.rs',GEN,'midi2/src/channel_voice2/attribute.rs','midi2/src/channel_voice2/controller.rs','midi2/src/channel_voice2/program_change.rs','midi2/src/ump_stream/function_block_info.rs'],
 [('setters',GEN+' property_setter'),('schema writes','midi2/src/detail/schema.rs')],
 ['set_*/getters','data()'])
prop('C06','Construction yields the valid default message in every buffer',
 "Constructing a message in any buffer (growable, array of any sufficient size, borrowed slice or vector with arbitrary previous contents, user-defined buffer) gives the same minimum-size message, which parses as that type and has default field values, no payload and no text. Construction in a fixed or fallible buffer succeeds exactly when the buffer can hold the minimum-size message, and otherwise reports overflow.",
 ['inputs','configurations'],'every message type x buffer kind x buffer capacity x previous buffer contents',
 'Tests construct in a zeroed vector or array of one size; dirty, oversized, undersized and custom buffers are not sampled per type.',
 [GEN,'midi2_proc/src/generate_ci.rs','midi2/src/buffer.rs','midi2/src/system_common','midi2/src/ump_stream.rs'],
 [('new / try_new / new_with_buffer / try_new_with_buffer / array new',GEN),('initialisation of properties',GEN+' initialise_property_statements')],
 ['constructors','data()','getters'])
prop('C07','System-exclusive payload edits behave like edits of a byte list',
 "Under any history of set, insert, append, splice and single-byte edits on a growable system-exclusive message (7-bit in words or bytes, 8-bit), with any data iterator however vague its length hint, the payload, its size and its iterators equal those of a plain byte list given the same edits. This holds from freshly built messages and from parsed messages whose packets are filled unevenly.",
 ['histories','inputs'],'every edit history x data iterators with exact, missing, under- or over-estimated size hints x every initial packetisation',
 'Tests apply one edit to one initial message; the packing state left by earlier edits or parsed irregular packets, and size-hint shapes, multiply beyond samples.',
 ['midi2/src/sysex7.rs','midi2/src/sysex8.rs','midi2/src/detail/helpers.rs','midi2/src/traits.rs'],
 [('splice','midi2/src/detail/helpers.rs try_splice_sysex_data'),('compact / resize / move tail','midi2/src/sysex7.rs, midi2/src/sysex8.rs SysexInternal')],
 ['payload()','payload_size()','data()'])
prop('C08','Fallible edits fit or fail cleanly with an overflow error',
 "On a buffer of limited capacity a fallible edit (payload set / insert / append / splice, text set, conversion into the buffer) succeeds exactly when the resulting message fits, and then has the same effect as on a growable buffer. Otherwise it reports overflow, never panics and never touches memory outside the buffer, and leaves a well-formed message: an emptied payload for system-exclusive edits, the unchanged message for text.",
 ['histories','inputs','fault_sequences'],'every capacity (also not a multiple of the packet size), every edit history around the capacity boundary, fixed-size and shrinking user-defined buffers, every size-hint shape',
 'Tests cover one or two overflow samples on arrays; the exact boundary, repeated overflow then reuse, and custom buffers are not reached.',
 ['midi2/src/detail/helpers.rs','midi2/src/sysex7.rs','midi2/src/sysex8.rs','midi2/src/flex_data/text.rs','midi2/src/ump_stream.rs','midi2/src/buffer.rs'],
 [('overflow path','midi2/src/detail/helpers.rs try_splice_sysex_data'),('try_resize','sysex7.rs/sysex8.rs/text.rs/ump_stream.rs')],
 ['try_* results','data()','payload()'])
prop('C09','System-exclusive messages always keep the canonical wire form',
 "After construction or any payload edit or conversion, a system-exclusive message in words is the minimal sequence of packets: one complete packet, or start, continue..., end, all but the last full, sizes matching the payload, the unused bytes of the last packet zero, same group and stream id everywhere; in bytes it is the start byte, the payload, the end byte. The same payload therefore always has the same data, whatever was there before, and it parses again to the same payload, group and stream id.",
 ['histories','inputs'],'every edit history and payload length in every buffer kind',
 'Tests compare a handful of lengths; boundary lengths (multiples of 6 and 13) after shrinking or growing histories are what break.',
 ['midi2/src/sysex7.rs','midi2/src/sysex8.rs'],
 [('packet header rewrite','sysex7.rs try_resize_ump, sysex8.rs try_resize'),('header writers','GroupProperty, StreamIdProperty, ValidPacketSizes')],
 ['data()','TryFrom'])
prop('C10','Iterators keep the iterator contract in every call order',
 "Every iterator the library hands out (system-exclusive payload of a message or of one packet, text bytes, packets) yields the same elements whether stepped one by one, skipped, counted, folded or cloned part-way; the reported length bounds are correct at every point, exact for exact-size iterators. After the end it keeps returning nothing, without panicking, for any further calls.",
 ['histories','inputs'],'every message content (including empty and unevenly filled packets, trailing data) x every sequence of next / nth / len / size_hint / count / clone calls',
 'Tests call nth with a few constants on one message; contract violations sit at packet boundaries, ends and combinations of calls.',
 ['midi2/src/sysex7.rs','midi2/src/sysex8.rs','midi2/src/sysex7/packet.rs','midi2/src/sysex8/packet.rs','midi2/src/packets.rs','midi2/src/flex_data/text.rs','midi2/src/ump_stream.rs'],
 [('PayloadIterator','sysex7.rs, sysex8.rs, */packet.rs'),('TextBytesIterator','flex_data/text.rs, ump_stream.rs'),('PacketsIterator','packets.rs')],
 ['Iterator / ExactSizeIterator methods'])
prop('C11','Packets partition the message and read consistently with it',
 "Iterating a message's packets yields fixed-size pieces whose concatenation is exactly the message data, each of which is accepted as a packet of that family. Packet-level reads (group, channel, status, format, stream id, payload) agree with the wire encoding and, joined over the packets, with the message's own fields and payload; packet parsing accepts exactly well-formed packets (whether it takes slices shorter than a packet is left open; a sysex8 end packet is an unexpected end only when all its data bytes are zero, and only then may its size field be 15) and writing a packet's group or channel changes only that field.",
 ['inputs'],'every accepted message and every packet-sized slice of words',
 'Packet tests list a few samples per packet type; agreement between packet views and the message is never checked.',
 ['midi2/src/packets.rs','midi2/src/packet.rs','midi2/src/sysex7/packet.rs','midi2/src/sysex8/packet.rs','midi2/src/flex_data/packet.rs','midi2/src/ump_stream/packet.rs','midi2/src/channel_voice1/packet.rs','midi2/src/channel_voice2/packet.rs','midi2/src/system_common/packet.rs','midi2/src/utility/packet.rs'],
 [('PacketsIterator','packets.rs'),('Packet types','*/packet.rs')],
 ['packets()','Packet TryFrom and accessors'])
prop('C12','Flex-data text survives a round trip in canonical packets',
 "For every flex-data text message and every text without NUL characters, of any length, setting the text and reading it back (as a string or as bytes, before and after re-parsing, rebuffering or setting other fields) returns it unchanged, and the message is the minimal number of packets with correct formats and zero padding. Setting a new, shorter or longer, text fully replaces the old one and keeps group, channel, bank and status.",
 ['inputs','histories'],'every text message type x every UTF-8 text x histories of text, group and channel writes x buffer kind',
 'Tests use a few short constants; lengths at multiples of 12, multi-byte characters across packet borders and replacement histories are unsampled.',
 ['midi2/src/flex_data/text.rs','midi2/src/flex_data.rs','midi2/src/flex_data/unknown_metadata_text.rs'],
 [('text write/resize/read','midi2/src/flex_data/text.rs')],
 ['set_text/try_set_text','text()/text_bytes()','data()'])
prop('C13','Stream name text survives a round trip in canonical packets',
 "For endpoint name, product instance id and function block name, and every text without NUL characters of any length, setting the text and reading it back (as a string or as bytes, before and after re-parsing or rebuffering) returns it unchanged, in the minimal number of packets with correct formats and zero padding. Replacing it by a shorter or longer text fully replaces the old one, and the function block number is kept on every packet.",
 ['inputs','histories'],'each stream text message x every UTF-8 text x histories of text and block-number writes x buffer kind',
 'Tests use a few constants; lengths at multiples of 13 and 14, and replacement histories, are unsampled.',
 ['midi2/src/ump_stream.rs','midi2/src/ump_stream/function_block_name.rs','midi2/src/ump_stream/endpoint_name.rs','midi2/src/ump_stream/product_instance_id.rs'],
 [('text write/resize/read','midi2/src/ump_stream.rs'),('function block field','midi2/src/ump_stream/function_block_name.rs')],
 ['set_name/set_id and try_ forms','name()/id()','data()'])
prop('C14','Shared attributes stay identical on every packet of a message',
 "In a message spanning several packets, the attributes that belong to the message as a whole (message type, group, channel or group address, bank, status, stream id, function block) are the same on every packet after any history of attribute writes and content edits, in any order and any buffer. The value read is the one last written.",
 ['histories','inputs'],'every multi-packet message type x every interleaving of attribute writes with payload or text edits that add or remove packets',
 'Tests set the attribute either before or after one edit; packets created later by a different edit are where attributes get lost.',
 ['midi2/src/sysex7.rs','midi2/src/sysex8.rs','midi2/src/flex_data.rs','midi2/src/flex_data/text.rs','midi2/src/ump_stream.rs','midi2/src/ump_stream/function_block_name.rs'],
 [('GroupProperty','sysex7.rs, sysex8.rs, flex_data.rs'),('StreamIdProperty','sysex8.rs'),('OptionalChannelProperty','flex_data.rs'),('FunctionBlockProperty','ump_stream/function_block_name.rs')],
 ['data() packet headers','getters'])
prop('C15','Byte-stream and packet representations convert without loss',
 "Converting any message that has both representations between bytes and words preserves every field both carry (status, channel, values, whole payload), produces a valid message of the same type of minimal size, and sets what only words carry to its default. Bytes to words and back is the identity on the message, infallible and fallible conversions and all target buffers agree, and a fallible conversion overflows exactly when the result does not fit.",
 ['inputs','configurations'],'every channel-voice-1, system-common and 7-bit system-exclusive message, in both directions, through the message and family types, into every target buffer and capacity',
 'One or two samples per direction exist, none compare all fields, targets and aggregates.',
 [GEN,'midi2_proc/src/derives.rs','midi2/src/sysex7.rs','midi2/src/channel_voice1.rs','midi2/src/system_common.rs','midi2/src/message.rs'],
 [('generated conversions',GEN),('sysex conversion','sysex7.rs try_from_other'),('aggregate conversion derives','midi2_proc/src/derives.rs')],
 ['FromBytes/FromUmp/TryFromBytes/TryFromUmp','data()'])
prop('C16','Rebuffering preserves the message; it fails exactly on overflow',
 "Moving a message, or an aggregate holding it, to another buffer (borrowed to owned, owned to array, array to owned, mutable to shared, user-defined) preserves its type, data and every field, payload and text, and the copy is independent of the source. A fallible move fails exactly when the target cannot hold what is moved, and arrays larger than the message are allowed.",
 ['inputs','configurations'],'every message and aggregate content x every ordered pair of buffer kinds x target capacities around the message size',
 'Tests rebuffer one sample between two kinds.',
 ['midi2/src/buffer.rs',GEN,'midi2_proc/src/derives.rs','midi2/src/traits.rs'],
 [('buffer conversions','midi2/src/buffer.rs'),('RebufferFrom/TryRebufferFrom/ArrayRebufferFrom impls',GEN+', midi2_proc/src/derives.rs')],
 ['rebuffer_into/try_rebuffer_into/array_rebuffer_into'])
prop('C17','Aggregates are transparent wrappers of the message inside',
 "Wrapping a message into its family type or the all-message type, directly or through the family, and reading through the aggregate (data, packets, group, channel, debug rendering of the content, flex-data bank and status) gives the same results as on the message itself. Writing group or channel through an aggregate has exactly the effect of writing it on the message.",
 ['inputs'],'every message type and content x every aggregate containing it x every aggregate operation',
 'Aggregate tests exercise a couple of variants; each delegated arm of each operation is separate generated or hand-written code.',
 ['midi2/src/message.rs','midi2_proc/src/derives.rs','midi2_proc/src/generate_message.rs','midi2/src/flex_data.rs','midi2/src/channel_voice1.rs','midi2/src/channel_voice2.rs'],
 [('delegating derives','midi2_proc/src/derives.rs'),('From impls via family',GEN+' ump_message_via/bytes_message_via')],
 ['From/Into','Data, Packets, Grouped, Channeled on aggregates'])
prop('C18','Every expressible typed value can be written and reads back as itself',
 "Every value of every typed field (registered per-note controllers with their fixed-point or integer data, note attributes, key-signature and chord accidentals, tonics, chord types, alterations, program banks, UI hints, MIDI 1.0 port modes, directions, 14-, 20- and 28-bit numbers, fixed arrays) can be written without panicking and encodes to its code in the MIDI 2.0 tables. Reading returns an equal value, and distinct values have distinct encodings except where two names denote the same code.",
 ['inputs'],'every constructor of every value type with every payload, on every message carrying it',
 'Tests write a few constructors per type; alias names, extreme and zero payloads and rarely used codes are never written.',
 ['midi2/src/channel_voice2/controller.rs','midi2/src/channel_voice2/attribute.rs','midi2/src/flex_data/set_key_signature.rs','midi2/src/flex_data/set_chord_name.rs','midi2/src/flex_data/tonic.rs','midi2/src/ump_stream/function_block_info.rs','midi2/src/ump_stream/device_identity.rs','midi2/src/channel_voice2/program_change.rs'],
 [('value codecs','the files above'),('7-bit encodings','midi2/src/detail/encode_7bit.rs')],
 ['setters/getters'])
prop('C19','MIDI-CI discovery messages are well-formed and faithful',
 "A MIDI-CI discovery query of either version, built with any history of field writes in any buffer, is a valid universal system-exclusive message of the prescribed layout whose every data byte is 7-bit, parses again as the same type, and reads every field (source, manufacturer, family, model, software revision, capabilities, maximum size, output path) as last written with other bytes unchanged. Parsing accepts exactly the messages that begin with that layout and are long enough to hold it, and the system-exclusive payload it exposes is its body.",
 ['inputs','histories'],'both versions x every field value and write order x every byte slice near the layout x buffer kind',
 'Tests set each field once on a fresh message.',
 ['midi2/src/ci/discovery.rs','midi2/src/ci/common_properties.rs','midi2/src/ci/device_id.rs','midi2_proc/src/generate_ci.rs','midi2/src/detail/encode_7bit.rs'],
 [('generated CI message','midi2_proc/src/generate_ci.rs'),('field schemas','midi2/src/ci/discovery.rs, midi2/src/ci/common_properties.rs')],
 ['constructors, setters, getters','data()'])
prop('C20','The buffer kind never changes what a message means',
 "The same history of constructions, field writes, payload and text edits gives the same data, fields and results in every buffer kind that can hold it: vector, borrowed vector, array, borrowed slice, user-defined growable or fallible buffer, clean or dirty, exact or oversized. Messages in fixed, borrowed or user-defined buffers perform these operations without any heap allocation.",
 ['histories','configurations'],'every operation history x pairs of buffer kinds and sizes',
 'No existing test compares buffer kinds on the same history or observes allocation.',
 ['midi2/src/buffer.rs',GEN,'midi2/src/sysex7.rs','midi2/src/sysex8.rs','midi2/src/flex_data/text.rs','midi2/src/ump_stream.rs'],
 [('Buffer traits','midi2/src/buffer.rs'),('infallible and fallible paths','splice_sysex_data / try_splice_sysex_data, resize / try_resize')],
 ['data()','getters','a counting allocator'])
prop('C21','Enabled features decide which messages exist, never what they mean',
 "With any set of message families compiled in, the library builds, the all-message and all-byte-message types accept exactly the well-formed messages of the enabled families, and the message, data and packets they return are the same as in the full build; everything else is rejected with an error. Building without the standard library changes none of this. Edits and constructions behave the same in every such build too.",
 ['configurations','inputs'],'every subset of the message-family features with and without std x every slice of units',
 'The test suite is built with one feature set; most subsets are never compiled, let alone compared.',
 ['midi2/Cargo.toml','midi2/src/lib.rs','midi2/src/message.rs','midi2/src/detail/helpers.rs'],
 [('cfg(feature) gates','midi2/src/lib.rs, midi2/src/message.rs, midi2_proc derives')],
 ['UmpMessage/BytesMessage TryFrom'])
prop('C22','Provided buffers and errors keep the promises of their traits',
 "Every buffer the library provides (vector, borrowed vector, array, shared and mutable slice) behaves under any history of resizes, writes and reads as a plain list of units: resizing a growable buffer keeps its leading units and zeroes the new ones; a fixed-size buffer accepts a size exactly when it is not larger than its own, and asking never changes its contents or length; a default buffer is empty or zero. Converting one into another keeps all units, with zero behind them in a larger array, leaves the source as it was, and fails exactly when the target is too short. Errors keep their kind and reason when converted into the common error type and when printed.",
 ['histories','inputs'],'every sequence of resizes and writes x every buffer kind and array size x every content; every rejected input',
 'Tests use buffers only through messages and with a few sizes.',
 ['midi2/src/buffer.rs','midi2/src/error.rs'],
 [('BufferResize, BufferTryResize, BufferDefault, FromBuffer, TryFromBuffer impls','midi2/src/buffer.rs'),('error conversions','midi2/src/error.rs')],
 ['buffer()','resize / try_resize','from_buffer / try_from_buffer','Display'])
prop('C23','Messages are values: equality and copies',
 "Two messages of one type in one kind of buffer compare equal exactly when their units are equal, whatever their buffers hold behind the message and however the messages came about (parsed, built, edited, shrunk, moved); so do messages of a type not known beforehand, packets, and discovery queries. Comparison is symmetric and 'not equal' is its negation. A copy of a message holds the same units and equals it; editing either one leaves the other as it was, and the same edits have the same outcome on the copy as on another message with the original's history.",
 ['histories','inputs'],'every pair of messages and histories x every kind of buffer x everything behind the message',
 'Tests compare messages in exact-size buffers, and never after an edit made them smaller.',
 ['midi2_proc/src/generate_message.rs','midi2_proc/src/generate_ci.rs','midi2/src/message.rs','midi2/src/packet.rs'],
 [('PartialEq and Clone of the generated messages','midi2_proc/src/generate_message.rs message, generate_ci.rs message'),('of aggregates and packets','derives in midi2/src/message.rs, packet.rs, the family modules')],
 ['==','!=','clone()','data()'])
path=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
open(path,'w').write(''.join(json.dumps(d)+'\n' for d in P))
print(len(P))
