"""Source of properties.jsonl and MANIFEST.json: python3 props.py rewrites both."""
import json, os, sys
PROPS, NA = [], []
TECH = 'bounded symbolic execution of the C sources (CBMC 6.11, SAT/SMT back end), counterexamples replayed natively'
def P(id, title, st, over, text, why, files, mech, note, na=None, observe=None):
    s = st.rstrip('.').split('. ')
    if len(s) > 3:
        # at most three sentences
        k = -(-len(s) // 3)
        st = '. '.join('; '.join([x if j == 0 else x if x[:2].isupper() or j == 0 else x[0].lower() + x[1:] for j, x in enumerate(s[i:i + k])]) for i in range(0, len(s), k)) + '.'
    PROPS.append({'id': id, 'title': title, 'statement': st, 'quantifier': {'over': over.split(), 'text': text}, 'why_tests_cant': why,
        'anchors': {'files': files.split(), 'mechanism': [{'name': m.split('@')[0], 'where': m.split('@')[1]} for m in mech.split()],
                    'observe_at': observe or [], 'hook_needed': None}})
    NA.append((id, na, note))

P('C01', 'Received RRR messages are rejected or safely usable',
  'Whatever bytes a peer sends as an RRR message (data, address, log, statistics or control message), reading its head, checking it and converting it to host form never accesses memory outside of the received bytes and never aborts the program. A message which is accepted states sizes (topic, data, log fields, statistics path and data) that lie inside of the bytes received. Statistics fields delivered to the program fit the buffers they are delivered into.',
  'inputs', 'every byte string of a given received length, for lengths around each header size and each message type',
  'Tests send only well formed messages; the property is about all malformed ones.',
  'src/lib/messages/msg.c src/lib/messages/msg_msg.c src/lib/messages/msg_log.c src/lib/messages/msg_addr.c src/lib/stats/stats_message.c',
  'rrr_msg_head_to_host_and_verify@src/lib/messages/msg.c rrr_msg_msg_to_host_and_verify@src/lib/messages/msg_msg.c rrr_msg_msg_log_to_host@src/lib/messages/msg_log.c rrr_stats_message_to_host@src/lib/stats/stats_message.c',
  'Holds for every content of messages of the listed lengths; longer messages are outside of the bound.')
P('C02', 'Messages survive the wire unchanged and corruption is detected',
  'A data message converted to network form and back has the same type, timestamp, topic and data. A message in network form in which any single byte has been changed is rejected by the receiver. The CRC32 checksum equals the standard (IEEE 802.3, reflected, final complement) definition, and comparing a buffer with its own checksum succeeds.',
  'inputs', 'every header field value, topic and data content up to the bound, every position and value of the changed byte',
  'Tests send a handful of messages and never corrupt one.',
  'src/lib/messages/msg.c src/lib/messages/msg_msg.c src/lib/util/crc32.c',
  'rrr_msg_checksum_and_to_network_endian@src/lib/messages/msg.c rrr_crc32buf@src/lib/util/crc32.c',
  'Corruption detection is split in two: the checksum of a buffer changes whenever one byte changes (shown on rrr_crc32buf for buffers up to the bound), and every byte of the message is covered by a checksum comparison (shown with an abstract checksum).')
P('C03', 'Arrays keep their values through a message',
  'An array of values written into a message and read back from that message yields the same number of values in the same order, each with the same tag, type, flags, element count and data. The topic and timestamp given are those of the message. Looking up a value by its tag, in the array or in the message, finds the first value which has that tag, and none if there is none. Clearing by tag removes exactly the values with that tag.',
  'inputs', 'all contents of values of each type, tag lengths and element counts within the bound',
  'Tests convert a few fixed arrays.',
  'src/lib/array.c src/lib/type.c', 'rrr_array_new_message_from_array@src/lib/array.c rrr_array_message_append_to_array@src/lib/array.c',
  'Value types and lengths are concrete per configuration, contents are symbolic.')
P('C04', 'Received array payloads are rejected or consistent',
  'Whatever payload a received array message carries, unpacking it never accesses memory outside of the payload, and it either fails and delivers no value, or delivers values which fill the payload exactly. Types which only exist in textual definitions, and unknown types, are rejected. Delivered integer and fixed point values are in host order and hold 8 bytes per element, and element counts divide the stored length.',
  'inputs', 'every payload of the lengths in the bound',
  'Tests only unpack arrays the program itself packed.',
  'src/lib/array.c src/lib/type.c', 'rrr_array_message_iterate@src/lib/array.c rrr_type_value_new_and_unpack@src/lib/type.c',
  'Payload walk shown with an abstract value constructor for all lengths; construction shown per type for concrete lengths with symbolic contents.')

P('C05', 'MQTT topic filters match exactly the topics they describe',
  'A topic filter is accepted exactly if it is valid UTF-8, # occurs only as the complete last level and + only as a complete level; a topic name is accepted exactly if it is non-empty valid UTF-8 without wildcards. Matching compares level by level: equal text matches, + matches any one level, # matches one or more remaining levels, wildcards never match a level which begins with $, and number of levels must agree. This holds for both matchers, the tokenized one (subscriptions, ACL) and the linear one (MQTT topic filters of other modules), and only the bytes of the topic take part. A topic is split into exactly its levels.',
  'inputs', 'every pair of filter and topic of lengths up to the bound',
  'Tests compare a dozen of pairs.',
  'src/lib/mqtt/mqtt_topic.c src/lib/util/utf8.c',
  'rrr_mqtt_topic_filter_validate_name@src/lib/mqtt/mqtt_topic.c rrr_mqtt_topic_match_str_with_end@src/lib/mqtt/mqtt_topic.c rrr_mqtt_topic_match_topic_and_linear_with_end@src/lib/mqtt/mqtt_topic.c',
  'Filter and topic of at most 4 bytes each (up to 5 levels).')
P('C06', 'MQTT access control: the bottom-most matching rule decides',
  'For a publish or subscribe request, the bottom-most rule in the ACL file whose topic filter matches the topic decides. In it, a USER line which names the user decides over the DEFAULT line, a rule without DEFAULT line denies, DENY allows nothing, READ allows subscribe, WRITE allows both. If no rule matches, access is denied. Comments, blank lines, indentation and letter case of keywords do not matter.',
  'inputs', 'every topic of one or two levels, every user name of up to two bytes, anonymous users, and both access levels against fixed ACL files which exercise each rule form',
  'Tests check a handful of topics and users.',
  'src/lib/mqtt/mqtt_acl.c src/lib/mqtt/mqtt_topic.c',
  'rrr_mqtt_acl_entry_collection_populate_from_file@src/lib/mqtt/mqtt_acl.c rrr_mqtt_acl_check_access@src/lib/mqtt/mqtt_acl.c',
  'The ACL files are concrete (symbolic parse positions do not terminate in the solver), the request is symbolic; topic levels are one character.')
P('C07', 'MQTT packet identifiers are unique while in use',
  'Allocating a packet identifier returns a non-zero identifier which is not in use and marks exactly it as used; no identifier is returned only if all are in use. Releasing an identifier frees exactly that one. Clearing the pool frees all.',
  'histories', 'one allocation or release from an arbitrary pool state (induction over histories of any length)',
  'Tests allocate identifiers in order only.',
  'src/lib/mqtt/mqtt_id_pool.c',
  'rrr_mqtt_id_pool_get_id@src/lib/mqtt/mqtt_id_pool.c rrr_mqtt_id_pool_release_id@src/lib/mqtt/mqtt_id_pool.c',
  'The pool size constants are scaled down in the scratch copy to 4 words of 32 identifiers (step 2).')

P('C09', 'FIFO buffers keep every entry, in order, until it is taken',
  'A FIFO buffer gives its entries to readers in the order they were written (or sorted by the order value for ordered writes), each exactly once per pass. Searching, replacing and draining remove, replace or free exactly the entries for which the callback asks so, stop when asked to stop, report errors, and put back what was not processed ahead of entries written later. The entry count is always exact, and data of an entry is released exactly once. Merging one buffer into another appends all its entries in order. The same holds for a buffer which is shared between threads when others write to it (also delayed) while it is being read: nothing is lost, nothing is visited twice, no lock stays held and no lock is taken twice.',
  'histories', 'one operation on buffers of up to three entries, for every combination of callback results; ordered writes with every combination of order values; followed by further writes and reads',
  'The combinations of callback results on neighbouring entries grow exponentially and tests use only a few.',
  'src/lib/fifo.c src/lib/fifo_protected.c', 'rrr_fifo_protected_read_clear_forward@src/lib/fifo_protected.c rrr_fifo_search@src/lib/fifo.c rrr_fifo_search_and_replace@src/lib/fifo.c rrr_fifo_read_clear_forward_all@src/lib/fifo.c rrr_fifo_write@src/lib/fifo.c rrr_fifo_merge@src/lib/fifo.c',
  'Buffers of at most three entries. For the shared buffer, writes of other threads occur at the points where no lock is held (inside callbacks) and the number of entries taken in one pass is scaled to 2.')

P('C08', 'Received MQTT packets are decoded exactly or refused',
  'However the bytes of an MQTT packet (any type and protocol version) arrive, the parser never accesses memory outside of what has been received. A well formed packet is accepted, and exactly the bytes the fixed header states belong to it; flags, packet identifier, topic, payload, reason, properties, subscriptions with options, will, user name and password are those in the packet. Packets with fields which cross the end of the packet, missing or trailing fields, a zero packet identifier, wrong reserved flags, invalid topic names or filters, strings with zero characters, or reason and option values which the protocol does not allow, are refused. A PUBLISH assembled again for sending has the same content.',
  'inputs', 'all values of numeric fields, flags, reasons and payload in packet layouts of each type, complete or cut at any position',
  'Tests exchange a few well formed packets between our own client and broker.',
  'src/lib/mqtt/mqtt_parse.c src/lib/mqtt/mqtt_packet.c src/lib/mqtt/mqtt_property.c',
  'rrr_mqtt_packet_parse@src/lib/mqtt/mqtt_parse.c rrr_mqtt_parse_publish@src/lib/mqtt/mqtt_parse.c rrr_mqtt_parse_connect@src/lib/mqtt/mqtt_parse.c',
  'The layout (types, lengths and string characters) of each packet is concrete, numbers and payload are symbolic; cutting at every position is covered for a few packets in the quick check.')

P('C10', 'WebSocket messages arrive whole, in order and unmasked',
  'A frame which is sent is received with the same type and content, masked or not, whatever its length and however its bytes arrive, and uses the shortest length form. A received message which is sent in fragments is delivered once, complete and in order, with the type of its first fragment; ping, pong and other control frames between the fragments neither disturb it nor are taken for parts of it. Reserved types, fragmented control frames, continuation with nothing to continue, and lengths which exceed what can be represented, are refused without any access outside of the received bytes.',
  'inputs histories', 'all contents, masking keys and frame lengths in each length form; sequences of up to three frames; every header of arbitrary bytes',
  'No test in the suite sends fragmented or malformed frames.',
  'src/lib/websocket/websocket.c',
  'rrr_websocket_read_frames@src/lib/websocket/websocket.c rrr_websocket_transport_ctx_send_frames@src/lib/websocket/websocket.c',
  'The transport is replaced by a byte buffer; frame lengths at and around the borders of each length form.')

P('C11', 'Messages are reassembled from a byte stream however it is split up',
  'Whatever pieces the bytes of a stream arrive in, and however many of them are read at once, the read framework passes on exactly the messages in the stream, each once, in order and with exactly its bytes, as soon as all of it has arrived and not before. Bytes the protocol asks to skip are left out and data of different senders on the same socket never mixes. The end of the stream is an error when inside a message and not when between messages; a message which lasts until the connection closes has all bytes up to the end; messages which are too long or can not be parsed are reported after all messages before have been passed on.',
  'inputs schedules', 'every split of short streams into reads, with or without times when there is nothing to read, all contents',
  'How bytes are split depends on the network; tests see whole messages only.',
  'src/lib/read.c', 'rrr_read_message_using_callbacks@src/lib/read.c rrr_read_session_collection_maintain_and_find_or_create@src/lib/read.c',
  'Streams of up to 6 bytes and 2 senders; the splits are enumerated, contents are symbolic; the static read buffer size is scaled down in some configurations.')

P('C12', 'Incremented identifiers stay in range, unique among users, with their prefix',
  'Exactly the usable combinations of step, minimum, maximum, position and prefix are accepted. The next identifier is always within the range; without sharing it is the previous plus the step, starting again from the minimum at the end of the range. When users share a range, each gets only the identifiers of its own position, skips none of them and starts over at the first one. The prefix and the value of an identifier are always found again, and identifiers with other prefixes are not taken for ours.',
  'inputs', 'all values of all parameters (for some moduli with a range limited to 1000)',
  'Tests use a handful of values, errors show at the borders of 32 and 64 bits.',
  'src/lib/util/increment.c', 'rrr_increment_mod@src/lib/util/increment.c rrr_increment_basic@src/lib/util/increment.c rrr_increment_verify@src/lib/util/increment.c rrr_increment_strip_prefix@src/lib/util/increment.c',
  'Moduli 1, 2, 3, 5 and 16 for the full range and 7, 10, 100 and 255 for ranges up to 1000 in the quick check.')

P('C13', 'Base64, base64url and hex text always means the same data',
  'Text which base64, base64url and hex encoding produce is what RFC4648 states, with line feeds after each 72 characters and at the end for base64, no padding for base64url and lower case digits for hex. Decoding it gives the same data, with or without line feeds. Decoding any other text never accesses memory outside of it, gives the data the characters state or fails when they are not complete.',
  'inputs', 'all data of up to 4 bytes, and texts of up to 5 characters; base64 lines up to 110 bytes',
  'Tests encode no data of most lengths, and never decode malformed text.',
  'src/lib/util/base64.c src/lib/util/hex.c', 'rrr_base64_encode@src/lib/util/base64.c rrr_base64_decode@src/lib/util/base64.c rrr_base64url_decode@src/lib/util/base64.c rrr_hex_bin_to_hex@src/lib/util/hex.c',
  'Data of up to 4 bytes in the quick check.')

P('C14', 'A message slot passes each message once to every reader, in order',
  'A slot holds one message between a writer and its readers. However reads, reads which keep the message, failing reads and discards of the readers interleave with writes, a message which has been written is given to each reader (or to one reader when not duplicated) exactly once, in order and with its own copy of the contents, and is not replaced before all have got it. A write which is cancelled or dropped leaves no message and gives the entry back to the writer. Entries are freed once, after the last use by anyone, and nobody touches an entry which is no longer theirs. Counts and statistics are exact.',
  'schedules histories', 'all contents; actions of up to two readers at each point where the writer waits or has unlocked, for each way of writing',
  'Which thread comes first depends on the scheduler; a use of an entry after a reader has freed it goes unnoticed in most runs.',
  'src/lib/message_holder/message_holder_slot.c', 'rrr_msg_holder_slot_write@src/lib/message_holder/message_holder_slot.c rrr_msg_holder_slot_read@src/lib/message_holder/message_holder_slot.c rrr_msg_holder_slot_write_from_collection@src/lib/message_holder/message_holder_slot.c',
  'Two or three messages and up to two readers, which act at the points where the writer does not have the lock; one action at each point.')

P('C15', 'Modbus responses answer exactly their request or are refused',
  'Requests are sent in the order they are made, each once, encoded as the Modbus/TCP standard states with a new transaction identifier. Whatever bytes are received, a response is delivered only if it is complete and belongs to a request which has been sent and not been answered, with its function code (or error) and the exact size; it is delivered once, with the values and identifier in it and the private data of its request. Anything else is refused or waited for, without access outside of the received bytes, private data of each request is released exactly once, and requests are refused for as long as all transactions are in use.',
  'inputs histories', 'all contents of requests and of responses of up to 14 bytes and of maximum length, all identifiers, two requests in flight',
  'Tests never see malformed or unexpected responses.',
  'src/lib/modbus/rrr_modbus.c', 'rrr_modbus_client_read@src/lib/modbus/rrr_modbus.c rrr_modbus_client_write@src/lib/modbus/rrr_modbus.c',
  'At most three requests; the number of transactions is scaled to 3.')

P('C16', 'HTTP URIs, percent coding, quoting and numbers are read as they are written',
  'Percent encoding leaves only unreserved characters and %XX sequences which stand for exactly the input bytes; decoding yields the byte for each sequence of % and two hexadecimal digits, other bytes as they are, and refuses sequences which are not complete. A quoted header value ends at its last character only and gives the original value when unquoted; control characters and bytes beyond ASCII are refused. Case insensitive search finds the first complete match and nothing else, line ends and leading whitespace are found exactly, numbers are read up to the first character which is not a digit and refused when there are none or when they do not fit in 64 bits. A URI is split in exactly protocol (http, https, ws or wss and nothing else), host, port (1 to 65535, or the default of the protocol) and endpoint, copies of it are equal, query strings are split off at the first ? with the endpoint decoded, and a prefix is joined to an endpoint with exactly one slash (or as many as were there). Nothing outside of the text is read whatever it contains.',
  'inputs', 'The real functions run over exactly allocated texts of symbolic bytes (encoding, decoding, quoting, searching, numbers, splitting) or of concrete bytes with symbolic ones in between (URIs); reference implementations in the harness decide what has to come out.',
  'Tests only parse a handful of well-formed URIs and requests.',
  'src/lib/http/http_util.c', 'rrr_http_util_uri_parse@src/lib/http/http_util.c rrr_http_util_urlencoded_string_decode@src/lib/http/http_util.c rrr_http_util_header_value_quote@src/lib/http/http_util.c rrr_http_util_strcasestr@src/lib/http/http_util.c rrr_http_util_strtoull_raw@src/lib/http/http_util.c rrr_http_util_uri_endpoint_prepend@src/lib/http/http_util.c',
  'Texts of up to 6 bytes; URIs are templates with one or two symbolic characters.')

P('C17', 'HTTP/1 messages are delimited exactly, however the data arrives',
  'The parser of HTTP/1 requests and responses finds the end of each message from its content alone, wherever the received data happens to be cut and without reading outside of it. The first line gives exactly method and URI, or response code; only HTTP/1.0 and HTTP/1.1 and known methods are accepted. Each header field is taken once with exactly its value, also when values are empty. Whether the connection is kept follows from the version and the Connection header. With Content-Length, the total length is the length of the header plus that number; a length which is missing, not a number, or which makes the total overflow is refused. Requests without a length, and responses which have no body, end with the header; other responses last until the connection is closed. A chunked body is the chunks given by the chunk headers, each with exactly its position and length, up to the chunk with length zero; a length which is not a hexadecimal number or does not fit is refused, one beyond the received data waits for more.',
  'inputs schedules', 'The real parser is driven the way the receive function of the HTTP/1 application drives it, over an exactly allocated buffer holding a message with symbolic characters (in URI, values, numbers or chunk data), first all at once and then cut at given places; expected lengths, chunks, fields and errors are computed by the harness from the message.',
  'Tests receive a few well-formed messages, usually in one piece; lengths near the limits of the integer types and each possible cut are never tried.',
  'src/lib/http/http_part_parse.c src/lib/http/http_part.c src/lib/http/http_header_fields.c', 'rrr_http_part_parse@src/lib/http/http_part_parse.c __rrr_http_part_parse_chunk@src/lib/http/http_part_parse.c __rrr_http_part_header_fields_parse@src/lib/http/http_part_parse.c rrr_http_header_field_parse_name_and_value@src/lib/http/http_header_fields.c',
  'Message templates of up to 60 bytes with one to three symbolic characters, two pieces, up to three chunks. The functions which search texts are replaced by equivalents (checked by C16). Content-Length together with chunks, multipart, and decoding of query strings are outside.')

#@@MORE@@

def main():
    here = os.path.dirname(os.path.abspath(__file__))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': [], 'notes': 'Generated by props.py. Harness list: specs.py. Driver: vp/check.py.'}
    import specs
    have = set(s['prop'] for s in specs.SPECS)
    for id, na, note in NA:
        if na:
            m['not_applicable'].append({'property': id, 'reason': na})
        else:
            assert id in have, id
            m['checks'].append({'property': id, 'quick_cmd': 'python3 vp/check.py %s quick' % id, 'thorough_cmd': 'python3 vp/check.py %s thorough' % id,
                                'technique': TECH, 'level': 'other', 'level_note': 'Bounded, not a proof: ' + note + ' Trusts CBMC, the libc stand-ins in stubs/ and the assumptions listed in the evidence file.'})
    json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
if __name__ == '__main__':
    main()
