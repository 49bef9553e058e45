#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept here so that the file stays reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},
       "why_tests_cant":why,"anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}}
    P.append(d)

# ---------------------------------------------------------------- line protocol
p("L01","Lines read do not depend on how the transport splits the byte stream",
  "Reading a connection line by line yields exactly the delimiter-terminated pieces of the incoming byte stream, in order and including the delimiter, whatever sizes the underlying reads have (including empty reads, data returned together with the final error, and splits inside a line). A line is returned as soon as its delimiter has arrived: no read waits for data behind it, so that a peer which waits for an answer is answered. Registered line hooks see each line once, in registration order, and can drop it or fail the read; a trailing piece without a delimiter is never returned as a successful line, and the transport's own error is reported once all complete lines before it were returned.",
  ["inputs","schedules"],"every byte stream, every delimiter, every way of cutting it into read results, every final error, every combination of hooks that pass, drop or fail",
  "The tests read a handful of fixed streams from an in-memory reader that always fills the buffer; they never vary the chunking, the position of the delimiter relative to the 2 KiB buffer, or the transport error.",
  ["lineproto/reader.go"],[("Reader.ReadLine","lineproto/reader.go"),("bufReader.Scan/peek","lineproto/reader.go")])
p("L02","The line length limit is exact and independent of fragmentation",
  "A line is delivered if and only if its length, including the delimiter, does not exceed the configured maximum; a longer line makes the read fail, however the bytes arrive. Without configuration a finite default (32 KiB) applies, a limit of zero or less removes it, and a peer that never sends a delimiter cannot make a limited reader consume more than the limit plus a small constant before it fails.",
  ["inputs","schedules","configurations"],"every limit, every line length around it, every fragmentation of the stream, plain or compressed",
  "No test sets a limit or sends an over-long line.",
  ["lineproto/reader.go"],[("Reader.SetMaxLine","lineproto/reader.go"),("Reader.ReadLine","lineproto/reader.go")])
p("L03","The line writer delivers exactly the accepted bytes, and flush is complete",
  "For every history of line writes, raw writes, flushes and compression switches, the bytes on the wire, with each compressed section inflated, are exactly the accepted data in order: each line once, unmodified, and lines dropped by a hook not at all. After a flush, or when the writer is closed, everything accepted so far can be recovered from the bytes already handed to the transport; before a raw uncompressed write returns, all earlier lines and the data itself were handed over; compressed sections start and end exactly where they were switched on and off, and each has the compression level it was asked for (level 0 stores the data, the others make repetitive data smaller).",
  ["histories","inputs","configurations"],"every sequence of WriteLine, Write, Flush, enabling (any level) and disabling compression, and Close, with any buffer size and line sizes around it",
  "Tests run one or two fixed histories with a short line and look at one output.",
  ["lineproto/writer.go"],[("Writer.WriteLine/Write/Flush/Close","lineproto/writer.go"),("Writer.EnableZlibLevel/DisableZlib","lineproto/writer.go")])
p("L04","Switching compression on and off loses, duplicates and reorders nothing",
  "A reader that switches to decompression right after the line that announces it recovers the sender's lines and binary data exactly, across any number of alternating plain and compressed sections, any fragmentation, and any mix of line and byte reads; what the sender flushed is returned without waiting for more. When a compressed section ends the reader returns to plain data by itself at exactly the next byte, and compression can then be enabled again; enabling it twice, or on data that is not a compressed section, is an error; a section that is cut off or whose checksum is wrong ends in an error, not in a regular end. Compression may also be switched on from a callback that sees the announcing line.",
  ["histories","schedules","inputs"],"every alternation of plain and compressed sections with any compression level, flush points, content sizes (including empty sections) and read fragmentation",
  "The one test uses a single hard-coded compressed block read from memory in one piece.",
  ["lineproto/reader.go","lineproto/writer.go","nmdc/writer.go"],[("Reader.EnableZlib, Reader.ReadLine, Reader.Read","lineproto/reader.go"),("Writer.EnableZlibLevel/DisableZlib","lineproto/writer.go"),("Writer.ZOn/ZOnLevel","nmdc/writer.go")])
p("L05","A binary transfer consumes exactly the announced number of bytes",
  "A binary section of a given length yields exactly that many bytes of the stream, never more, whatever the caller's buffer sizes and the transport's fragmentation, and also when it runs over the end of a compressed section. Closing it discards exactly the unread remainder, so the next line read starts at the byte after the section; neither reading nor closing it waits for data behind it. When the connection fails inside the section, reading to its end and closing it report that failure. Once the reader is closed nothing more is delivered, neither by it nor by an open section: every further call fails with an error, without a panic, also when one of its own callbacks closed it.",
  ["histories","schedules","inputs"],"every section length (0, buffer boundaries, longer than the stream, up to the largest 64 bit number), every amount read before closing, every read size, every fragmentation, plain and compressed data",
  "Tests use two binary sections of 5 and 6 bytes, fully buffered.",
  ["lineproto/reader.go"],[("Reader.Binary, binaryReader","lineproto/reader.go"),("Reader.Read","lineproto/reader.go")])
p("L06","After any failure the writer stops, and what was delivered is a prefix",
  "If the transport, the write hook or the timeout callback fails, the operation that meets the failure reports that error, every later write, flush or compression switch fails without touching the transport again, and the error stays available. The bytes delivered until then are an exact prefix of the stream that would have been delivered without the fault, and no sequence of operations, including closing (also repeatedly, or from a callback) and rejected compression levels, panics. Every time the timeout callback was successfully armed it is disarmed exactly once before the operation returns, and line writes and flushes touch the transport only while it is armed.",
  ["fault_sequences","histories"],"every history of writer operations with a failure or a short write injected at any byte or any callback invocation",
  "No test makes the transport, the hook or the timeout callback fail.",
  ["lineproto/writer.go","nmdc/writer.go","adc/writer.go"],[("Writer.setError/Err","lineproto/writer.go"),("Writer.Flush/WriteLine timeouts","lineproto/writer.go"),("Writer.Close","lineproto/writer.go")])

# ---------------------------------------------------------------- ADC
p("A01","ADC packet headers round-trip for every packet kind",
  "For all eight packet kinds (info, hub, client, broadcast, direct, echo, feature, UDP) encoding a packet and decoding the line gives back the same kind, source and target identifiers, feature selectors, command name and payload, and the encoded line has the layout the protocol prescribes. A line whose header is malformed (unknown kind, missing newline, missing or wrong separators, truncated or invalid identifiers, truncated selectors, null bytes) is rejected.",
  ["inputs"],"every packet kind, identifier, selector list, command name and payload; every single-byte mutation, truncation and separator change of a header",
  "The tests hold about twenty literal packets.",
  ["adc/packets.go"],[("DecodePacketRaw","adc/packets.go"),("MarshalPacketADC/UnmarshalPacketADC of each packet type","adc/packets.go")])
p("A02","Every ADC message survives encoding and decoding unchanged",
  "For every ADC message type and every value of its fields within the protocol's limits, encoding the payload and decoding it again (through the payload API, through a packet, or into a caller-supplied message) gives an equal message. Optional fields that are unset stay unset, lists keep their order, and text of any content is preserved.",
  ["inputs"],"every registered message type plus hub info and generic field lists, every combination of set and unset fields, every text, list, number, identifier and hash",
  "Tests check a few literal messages per type; some types have none.",
  ["adc/marshal.go","adc/messages.go","adc/user.go","adc/search.go","adc/files.go","adc/hub.go","adc/chat.go","adc/connect.go","adc/types.go"],
  [("Marshal, Unmarshal","adc/marshal.go"),("UnmarshalMessage","adc/messages.go"),("DecodeMessage/DecodeMessageTo","adc/packets.go")])
p("A03","ADC messages are encoded in the wire format other clients expect",
  "The encoded payload of every ADC message carries exactly the parameters the protocol defines for it: positional parameters in order, then named parameters with the right two-letter names and escaped values, required ones always present, optional ones only when set, repeated ones once per element in order, and nothing else. Numbers are plain decimal, flags 0 or 1, hashes and identifiers base32, status codes one severity digit followed by a two-digit code.",
  ["inputs"],"every message type and every field combination, compared with an independent reference encoder",
  "Tests compare a few literal strings; an encoder and decoder that agree on a wrong name would pass a round trip.",
  ["adc/marshal.go","adc/messages.go","adc/user.go","adc/search.go","adc/files.go","adc/hub.go","adc/chat.go","adc/connect.go","adc/types.go"],
  [("Marshal","adc/marshal.go"),("MarshalADC methods","adc/messages.go"),("field tags","adc/user.go")])
p("A04","ADC text escaping is lossless and keeps one message on one line",
  "Any text placed in any ADC text field decodes to the same text, and its encoded form contains no space and no newline, so that it can neither end the line nor start another parameter. The escaped form is the protocol's (space, newline and backslash are each replaced by a two-character sequence, everything else is left as it is), so escape sequences from other clients decode to the right characters.",
  ["inputs"],"every text, in particular every arrangement of backslashes, spaces, newlines and the letters s and n",
  "Tests use a handful of strings; a wrong order of replacements only shows for particular sequences such as a backslash followed by s.",
  ["adc/marshal.go","adc/types.go","adc/messages.go"],[("escape, unescape","adc/marshal.go"),("String.MarshalADC/UnmarshalADC","adc/types.go"),("Status, GetRequest, Path, Fields","adc/messages.go")])
p("A05","Named ADC parameters: order-free, extensible, and updates are incremental",
  "For every ADC message that has named parameters, reordering them (keeping repeated ones in order) or adding parameters with unknown names does not change what is decoded. Decoding an info update onto an existing record changes exactly the fields it mentions, a mentioned but empty value clears its text, number, flag or list field, and a text or number parameter that may occur only once is rejected when given twice. Fields without a name (such as paths and the fields of a file request) are replaced as a whole when a message variable is decoded into again.",
  ["inputs","histories"],"every message, every permutation of its named parameters, every set of unknown parameters, every sequence of partial updates",
  "Tests always present fields in declaration order and decode into fresh values.",
  ["adc/marshal.go","adc/user.go","adc/search.go","adc/chat.go","adc/types.go"],[("Unmarshal","adc/marshal.go"),("UserInfo, UserInfoMod","adc/user.go")])
p("A06","No ADC input can crash or hang the decoder, and errors do not spread",
  "Whatever bytes a peer sends, decoding ADC lines, packets, payloads and values ends, within time and memory in proportion to the input, with a value or an error and never panics; a value that was accepted can be encoded again, to a form that decodes to the same value. A malformed line does not affect the lines after it: every following well-formed packet is decoded as if the malformed one had not been there.",
  ["inputs","histories"],"every byte string given to every decoding entry point; every mixture of malformed and well-formed lines",
  "Tests only decode well-formed lines.",
  ["adc/packets.go","adc/marshal.go","adc/messages.go","adc/reader.go","adc/types.go","adc/types/types.go","tiger/tiger.go"],[("DecodePacket, UnmarshalPacketADC","adc/packets.go"),("Unmarshal","adc/marshal.go"),("Reader.ReadPacket","adc/reader.go")])
p("A07","The ADC connection delivers every written packet once, in order, intact",
  "Packets written through the ADC writer, whether through the packet call, the per-kind calls or the per-destination streams, arrive at an ADC reader exactly once, in order and equal, for any fragmentation; the different ways of writing the same packet produce the same bytes, also when a line hook writes packets of its own. Keep-alive lines never surface as packets but trigger the keep-alive callback once each (whose error ends the read), and the calls that expect an info or client message return it or fail if another kind arrives. A packet is returned as soon as its line has arrived.",
  ["histories","schedules"],"every sequence of packets of all kinds, keep-alives, flushes and ways of writing, and every fragmentation on the reading side",
  "Nothing in the test suite exercises the ADC reader or writer.",
  ["adc/reader.go","adc/writer.go"],[("Reader.ReadPacket/ReadPacketRaw/ReadInfo/ReadClient","adc/reader.go"),("Writer.WritePacket and streams","adc/writer.go")])
p("A08","ADC numbers and flags are decoded exactly or rejected",
  "An ADC integer parameter decodes to the exact number it denotes, also when another client wrote an integral value in floating-point notation, and anything that is not an integer in the field's range is rejected instead of being ignored, truncated or wrapped (file requests and status codes accept plain notation only). Flag parameters decode 1 as true and 0 as false and reject values longer than one character.",
  ["inputs"],"every decimal string, sign, fraction, exponent and magnitude around the 64-bit limits, in every integer field",
  "Tests decode a few small positive integers.",
  ["adc/marshal.go","adc/files.go","adc/types.go"],[("unmarshalValue","adc/marshal.go"),("GetRequest.UnmarshalADC","adc/files.go"),("BoolInt","adc/types.go")])

# ---------------------------------------------------------------- NMDC
p("N01","Every NMDC message survives encoding and decoding unchanged",
  "For every registered NMDC message type and every value of its fields within the protocol's limits, encoding it and decoding the result gives an equal message of the same type, both in UTF-8 and when writer and reader share another text encoding that can represent the text. Unset optional fields stay unset and lists keep their order and length, including empty lists. What a message variable holds after decoding depends on the decoded line alone, not on what it held before.",
  ["inputs","configurations"],"every registered type, every field combination, every text, number, list length and address, UTF-8 and several single-byte and multi-byte encodings",
  "Tests hold a few literal messages per type, nearly all plain ASCII.",
  ["nmdc/message.go","nmdc/types.go","nmdc/msg_chat.go","nmdc/msg_user.go","nmdc/msg_user_list.go","nmdc/msg_search.go","nmdc/msg_files.go","nmdc/msg_ctm.go","nmdc/msg_ping.go","nmdc/msg_lock.go","nmdc/msg_hub.go","nmdc/msg_errors.go","nmdc/msg_other.go","nmdc/msg_pass.go","nmdc/extensions.go"],
  [("Marshal, Unmarshal","nmdc/message.go"),("MarshalNMDC/UnmarshalNMDC of each type","nmdc/msg_user.go")])
p("N02","NMDC messages are encoded in the exact wire format",
  "The encoded form of every NMDC message is byte for byte the one the protocol defines: a dollar sign, the command name, a space and the payload if there is one, and a pipe; chat messages have no command name. Encoding a message never changes the message, and appending to a buffer never alters what the buffer already holds.",
  ["inputs"],"every message type and field combination, compared with an independent reference encoder",
  "Tests compare a few literal strings; round trips alone would accept an encoder and decoder that share a mistake.",
  ["nmdc/message.go","nmdc/types.go","nmdc/msg_chat.go","nmdc/msg_user.go","nmdc/msg_user_list.go","nmdc/msg_search.go","nmdc/msg_files.go","nmdc/msg_ctm.go","nmdc/msg_ping.go","nmdc/msg_lock.go","nmdc/msg_hub.go","nmdc/extensions.go"],
  [("MarshalTo","nmdc/message.go"),("MarshalNMDC of each type","nmdc/msg_search.go")])
p("N03","User text can never break NMDC framing or inject commands",
  "Whatever text is placed in the name, text or raw (unescaped) fields of an NMDC message, encoding either fails or produces exactly one frame, which contains no pipe except the final one and no null byte; for name and text fields within the protocol's limits a reader gets one message of the same type with the same text. Reserved characters are written as HTML entities and restored on decoding, including text that already looks like an entity (text that spells a legacy '/%DCN' escape excepted); names that contain control characters or dollar signs, or are over-long, are refused.",
  ["inputs"],"every text and name of any length and content, in every text and raw field, in UTF-8 and other encodings",
  "Tests cover some fixed strings with a few special characters.",
  ["nmdc/types.go","nmdc/utils.go","nmdc/msg_chat.go"],[("Name, String","nmdc/types.go"),("escapeString, escapeName","nmdc/utils.go"),("UnescapeBytes","nmdc/types.go")])
p("N04","No NMDC input can crash or hang the decoder, and errors do not spread",
  "Whatever bytes a peer sends, decoding NMDC lines, payloads and values, and answering the resulting messages (such as computing the key for a received lock), ends, within time and memory in proportion to the input, with a value or an error and never panics; an accepted message that is sent on unchanged arrives as the same message. A malformed line, or a message skipped by a hook or by the decode-error callback, does not affect the messages after it, also when they are read into the same message variable.",
  ["inputs","histories"],"every byte string given to every decoding entry point of every message type, with and without a text decoder; every mixture of malformed, skipped and well-formed lines",
  "Tests decode well-formed lines and a few known-bad ones.",
  ["nmdc/reader.go","nmdc/message.go","nmdc/types.go","nmdc/utils.go","nmdc/msg_user.go","nmdc/msg_search.go","nmdc/msg_lock.go","nmdc/msg_chat.go"],
  [("Reader.readMsgTo","nmdc/reader.go"),("UnmarshalNMDC of each type","nmdc/msg_user.go"),("Lock.CustomKey","nmdc/msg_lock.go")])
p("N05","The NMDC reader dispatches each line to the right message and callbacks",
  "Each line becomes the message type its command name selects, types registered by the user included (unknown commands become raw messages with the name and exact payload, lines without a command become chat), and reading into given messages succeeds only for a matching command and otherwise reports what was expected and received; a message is returned as soon as its line has arrived. Keep-alives, raw-message hooks, message hooks and the decode-error callback are each invoked once per line, in registration order, with that line's content, and can skip exactly that line or end the read; commands with an empty, over-long or non-ASCII name and lines with null bytes are protocol errors.",
  ["histories","inputs","configurations"],"every sequence of lines of all kinds, every read call, every combination of hook decisions, every command name length around the limit",
  "Tests run three fixed streams without hooks that drop or fail.",
  ["nmdc/reader.go","nmdc/message.go"],[("Reader.ReadMsg/ReadMsgTo/ReadMsgToAny","nmdc/reader.go"),("NewMessage, RegisterMessage","nmdc/message.go")])
p("N06","Text encodings are applied consistently and can be switched in mid-stream",
  "With an encoding set, every text field is converted on writing and reading while command names and raw fields are not; text the encoding cannot represent is an error and nothing of that message is written, and text the decoder refuses is an error of that message. When a line with invalid UTF-8 text arrives, the unknown-encoding callback gets that text and decides: a returned decoder decodes this and all later messages and becomes the current one, an error ends the read, and neither lets the message through with only its unreadable characters replaced; lines before and after are unaffected. An encoder or decoder changed from a callback (message, keep-alive or error hooks) is used from the next message on, whether or not that message shares a WriteMsg batch or follows a skipped message.",
  ["histories","inputs","configurations"],"every sequence of messages in mixed encodings, every callback decision, every message type that carries text, encodings installed before or during the connection",
  "One test covers one encoding switch for one message.",
  ["nmdc/reader.go","nmdc/writer.go","nmdc/types.go"],[("Reader.OnUnknownEncoding, SetDecoder","nmdc/reader.go"),("Writer.SetEncoder, WriteMsg","nmdc/writer.go"),("Name/String encoding","nmdc/types.go")])
p("N07","The Lock/Key handshake answer is right for every lock",
  "The key computed for a lock is the protocol's function of the lock string, for the standard and custom magic values and for the short and full lock forms, and it survives encoding and decoding. The key never contains a byte that is forbidden in it (0, 5, $, `, | and ~ are replaced by their escapes), and a lock too short to have a key yields an empty key instead of failing.",
  ["inputs"],"every lock string (all byte values, all lengths), every magic value, with and without the extended-protocol prefix, public key and referrer",
  "Tests check three literal locks.",
  ["nmdc/msg_lock.go"],[("Lock.Key/CustomKey/LockString","nmdc/msg_lock.go")])
p("N08","Variant NMDC forms sent by other clients decode to the right meaning",
  "The lenient forms that real clients send are decoded to the documented meaning: user info with missing, partial or legacy tags and modes, chat lines whose names contain closing brackets or that have no name, search requests with negative sizes or trailing separators, directory and file results, address lists with or without trailing separators, legacy escapes, and hub info with missing or extra fields. Encoding what was decoded and decoding it again gives the same message (an unset status flag is written as the normal one, a maximum size without a size restriction has no meaning).",
  ["inputs"],"every combination of the optional and legacy parts of each form, with arbitrary text, numbers and separators in them",
  "Tests hold one or two literal examples of each variant, never combinations.",
  ["nmdc/msg_user.go","nmdc/msg_chat.go","nmdc/msg_search.go","nmdc/msg_user_list.go","nmdc/msg_ping.go","nmdc/msg_ctm.go","nmdc/types.go","nmdc/msg_lock.go","nmdc/extensions.go"],
  [("MyINFO.UnmarshalNMDC, unmarshalTag","nmdc/msg_user.go"),("ChatMessage.UnmarshalNMDC, UserCommand.UnmarshalNMDC","nmdc/msg_chat.go"),("Search/SR.UnmarshalNMDC","nmdc/msg_search.go")])
p("N09","NMDC numbers are decoded exactly or rejected",
  "Every numeric NMDC field decodes to exactly the number written, with surrounding spaces ignored, and a value that is not a number or does not fit the field is rejected rather than wrapped or truncated (only an unreadable share size in user info counts as zero). Documented special cases (a length of -1 for a whole file, negative search sizes meaning no restriction, direction numbers limited to 1 to 32767) hold exactly at their boundaries.",
  ["inputs"],"every digit string, sign, padding and magnitude around the 32- and 64-bit limits and around the 9/10 digit fast path, in every numeric field",
  "Tests use a few small numbers.",
  ["nmdc/utils.go","nmdc/msg_files.go","nmdc/msg_search.go","nmdc/msg_user.go","nmdc/msg_ping.go","nmdc/msg_chat.go"],[("atoiTrim, parseUin64Trim","nmdc/utils.go"),("ADCGet, ADCSnd, Direction","nmdc/msg_files.go")])
p("N10","The NMDC writer writes each message once, in order, as encoded",
  "For every sequence of messages, batches, keep-alives, encoding changes, hooks and compression switches, the NMDC connection carries exactly the encodings of the messages that were accepted, in order, and a reader at the other end gets equal messages. Hooks see each message once in order and can skip exactly that message, also inside a batch, or write messages of their own before it; a message that cannot be encoded is reported and leaves no partial bytes behind.",
  ["histories","inputs"],"every history of message batches, hook decisions, encoder changes, unencodable messages, keep-alives, flushes and compression switches",
  "No test uses the NMDC writer with hooks, batches, encoders or compression together.",
  ["nmdc/writer.go","lineproto/writer.go"],[("Writer.WriteMsg/WriteKeepAlive/ZOnLevel","nmdc/writer.go")])

# ---------------------------------------------------------------- cross-cutting
p("X01","Decoded messages stay valid after the connection moves on",
  "A message or packet returned by either protocol's decoding calls owns its data: reading further messages, reusing or overwriting the input buffer, or closing the reader never changes it (nor the contents reported for an unexpected command), and changing it does not influence later messages. Encoding likewise never modifies or keeps a reference to the message, and the bytes it returned stay as they are.",
  ["histories","inputs"],"every sequence of messages of all types read one after the other, every later read or overwrite of the input",
  "Tests compare each message right after decoding, before the buffer is reused.",
  ["adc/packets.go","adc/messages.go","nmdc/message.go","nmdc/reader.go","lineproto/reader.go"],[("DecodePacket, RawMessage.Decode","adc/packets.go"),("RawMessage.UnmarshalNMDC","nmdc/message.go"),("Reader.ReadLine buffer reuse","lineproto/reader.go")])
p("X02","Independent connections can be used concurrently without interference",
  "Readers, writers, encoders, decoders and hash computations that work on different connections or values share no mutable state: any number of them used concurrently give the same results as when used one after the other, without data races. The current text encoder and decoder of a connection may be replaced and queried from another goroutine while messages are read and written.",
  ["schedules","inputs"],"every interleaving of goroutines that each run their own sequence of operations, and of encoder or decoder changes during reads and writes",
  "The test suite starts no goroutines.",
  ["adc/messages.go","adc/marshal.go","nmdc/message.go","nmdc/types.go","nmdc/reader.go","nmdc/writer.go","tiger/tth.go","lineproto/writer.go"],[("message registries","nmdc/message.go"),("Reader.dec, Writer.enc","nmdc/reader.go")])

# ---------------------------------------------------------------- hashes, identifiers, addresses
p("T01","The tree hash depends only on the content",
  "The Tiger tree hash of a stream equals the standard definition (1024-byte leaf blocks, marked leaf and node hashes, an odd node promoted, one empty leaf for empty input) for every content, whatever sizes its reads return. The leaves computed separately are the hashes of the blocks and combine to the same root, combining does not modify them, and a read error is reported instead of a hash of partial data.",
  ["inputs","schedules","fault_sequences"],"every content length (block and tree-shape boundaries in particular), every read fragmentation, every position of a read error",
  "Tests hash fourteen fixed inputs of at most 1025 bytes from memory, all with at most two leaves.",
  ["tiger/tth.go","tiger/tiger.go"],[("TreeHash, TreeLeaves, Leaves.TreeHash","tiger/tth.go"),("HashBytes","tiger/tiger.go")])
p("T02","Hashes and identifiers have one faithful text form",
  "Tiger hashes, client and private identifiers, session identifiers and password salts convert to their base32 (or hexadecimal) text and back without loss through every conversion they offer, and all conversions agree with each other and with standard base32; only the all-zero value counts as unset. Text of the wrong length or with characters outside the alphabet is rejected, leaving an error and never a panic; session identifiers produced from different 20-bit numbers differ, and fresh private identifiers are filled with random data.",
  ["inputs"],"every 24-byte value, every 20-bit number, every salt, every malformed text of any length",
  "Tests convert a few literal values.",
  ["tiger/tiger.go","adc/types/types.go","adc/hub.go"],[("Hash.Base32/FromBase32/MarshalBase32/UnmarshalBase32","tiger/tiger.go"),("SID, CID, PID","adc/types/types.go"),("GetPassword","adc/hub.go")])
p("K01","Keyprints are the SHA-256 fingerprint of the certificate",
  "The keyprint of a certificate is 'SHA256/' followed by the unpadded base32 SHA-256 of its DER bytes, the same whether it is computed from bytes, from a loaded certificate chain or from a PEM file, with one keyprint per certificate in order. Other PEM blocks and surrounding text are ignored, a file without a certificate or a failing read is an error, and the keyprint is taken from an address exactly as given in its kp parameter.",
  ["inputs","fault_sequences"],"every certificate content and chain length, every arrangement of PEM blocks and surrounding text, every read fragmentation and error, every address with parameters",
  "The tests check one certificate file and one URL.",
  ["keyprint/keyprint.go"],[("FromBytes, FromCertificate, FromFile, FromURL","keyprint/keyprint.go")])
p("K02","TLS keyprint verification accepts exactly the peer's certificates",
  "On an established TLS connection, verification succeeds if and only if the given keyprint equals the keyprint of one of the certificates the peer presented; otherwise it fails with an error that carries the expected and actual keyprints. In both cases all peer keyprints are returned, in order.",
  ["inputs","configurations"],"every peer certificate chain (none, one, several), every candidate keyprint: each of the chain's, near misses (prefixes, case changes, other certificates), arbitrary text",
  "No test covers keyprint verification.",
  ["keyprint/tlskp/tlskp.go"],[("VerifyKeyPrint, GetKeyPrints","keyprint/tlskp/tlskp.go")])
p("U01","Hub addresses are routed by scheme and normalised stably",
  "An address is handled as ADC exactly when its scheme is adc or adcs, and otherwise as NMDC, where a missing scheme means dchub and nmdc means dchub; any other scheme is an error. Normalisation drops trailing slashes, keeps scheme, host, port and parameters, requires a host (and for ADC a port), gives the same result when applied again, and addresses the same hub as parsing the original.",
  ["inputs"],"every host name (also ones that begin with a scheme name), IPv4 and IPv6 address, port, scheme in any case, path, parameters, trailing slashes, and arbitrary strings",
  "Tests hold about ten literal addresses.",
  ["conn.go","adc/conn.go","nmdc/conn.go"],[("ParseAddr, NormalizeAddr","conn.go"),("ParseAddr, NormalizeAddr","adc/conn.go"),("ParseAddr, NormalizeAddr","nmdc/conn.go")])
p("F01","Feature and extension sets obey set algebra and survive negotiation",
  "Feature and extension sets of both protocols behave as the finite maps or sets they stand for: membership, copying, applying updates, intersection and listing agree with a reference model for every history of operations, operands are never modified, and copies are independent. A sequence of feature announcements sent over the wire leaves the receiver with the same set as applying them directly, and a search's file-type group matches a file name exactly when the name's extension belongs to one of its categories, ignoring letter case.",
  ["histories","inputs"],"every pair of sets (also absent ones), every sequence of additions, removals and announcements, every file name and group combination",
  "Tests cover one announcement and a few extension names.",
  ["adc/types.go","adc/search.go","nmdc/extensions.go","adc/messages.go"],[("ModFeatures, ExtFeatures","adc/types.go"),("Extensions, Supports","nmdc/extensions.go"),("ExtGroup.Matches","adc/search.go")])

p("A09","Malformed ADC messages are rejected with an error",
  "An ADC message whose payload breaks the syntax of its command (a hash, identifier, number, flag, feature, selector, field or separator that is missing, truncated, too long or not in its alphabet) is reported as an error, both when decoded alone and when read from a stream; it is never delivered as if it were valid, and the well-formed messages before and after it are unaffected.",
  ["inputs","histories"],"every command, every valid payload and every kind of damage to one of its elements, at every position of a stream",
  "Tests hold valid messages and hardly any malformed one.",
  ["adc/marshal.go","adc/messages.go","adc/packets.go","adc/types.go","adc/files.go","adc/hub.go","adc/types/types.go","tiger/tiger.go"],[("Unmarshal","adc/marshal.go"),("UnmarshalMessage, Fields, Status","adc/messages.go"),("DecodePacket","adc/packets.go"),("Feature, ModFeatures, BoolInt","adc/types.go"),("GetRequest","adc/files.go"),("GetPassword","adc/hub.go")])
p("A10","ADC message types defined by users follow their field tags",
  "A message type defined and registered by a user of the library is encoded by its struct tags: positional fields in order of declaration, then named fields with their two-letter names, zero values omitted unless required, slices as repeated fields, pointers as optional values (a missing one that is positional or required keeps its place with an empty value), custom-encoded values by their own encoding, untagged fields ignored. Decoding the result restores the message, unregistered types decode to raw messages, and the encoder and the decoder never fail on a type they support; a number that does not fit into its field, a field that its own encoder or decoder refuses, or one of a type that is not supported, is an error of the whole message.",
  ["inputs"],"user-defined structures with every supported field kind and tag, and every field value",
  "Tests only encode the messages of the library.",
  ["adc/marshal.go","adc/messages.go"],[("Marshal, Unmarshal","adc/marshal.go"),("RegisterMessage, UnmarshalMessage, RawMessage","adc/messages.go")])
p("N11","Malformed NMDC messages are rejected with an error",
  "An NMDC message whose payload breaks the syntax of its command (a separator, number, name, hash, address, list or tag that is missing, truncated, out of range or not allowed there) is reported as an error in every way of reading it; it is never delivered as if it were valid. When the reader is told to skip such messages, exactly these are skipped and the well-formed messages around them are delivered unchanged.",
  ["inputs","histories"],"every command, every valid payload and every kind of damage to one of its elements, at every position of a stream, in every read mode",
  "Tests hold valid messages and a few malformed ones.",
  ["nmdc/reader.go","nmdc/types.go","nmdc/msg_search.go","nmdc/msg_user.go","nmdc/msg_chat.go","nmdc/msg_ctm.go","nmdc/msg_files.go","nmdc/msg_user_list.go","nmdc/msg_ping.go","nmdc/msg_other.go"],[("Reader.ReadMsg, ReadMsgTo, ReadMsgToAny, OnUnmarshalError","nmdc/reader.go"),("UnmarshalNMDC of each message","nmdc/msg_*.go")])
p("C01","Named protocol values have their published meaning on the wire",
  "The exported names of both protocols (features, extensions, commands, user types, flags and modes, search and command types, file groups, status severities, connection kinds, protocol and scheme names) stand for the values published in the protocol documents, in whatever message and combination they are used, written and read alike, and the helpers that interpret them (bit tests, status classification and errors, splitting of client name and version, text of a chat message or lock) agree with that meaning.",
  ["inputs"],"every combination of named values in the messages that carry them, written and read",
  "Tests use a few of the names, and compare them with themselves.",
  ["adc/extensions.go","adc/user.go","adc/search.go","adc/hub.go","adc/messages.go","adc/conn.go","nmdc/extensions.go","nmdc/message.go","nmdc/msg_user.go","nmdc/msg_search.go","nmdc/msg_chat.go","nmdc/msg_ctm.go","nmdc/msg_lock.go"],[("features","adc/extensions.go"),("UserType, AwayType, UserInfo.Normalize","adc/user.go"),("Status, Severity","adc/messages.go"),("Ext*","nmdc/extensions.go"),("UserMode, UserFlag","nmdc/msg_user.go"),("RegisteredTypes","nmdc/message.go")])

out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for d in P:
        assert len(d["title"])<=80,(d["id"],len(d["title"]))
        f.write(json.dumps(d)+"\n")
print(len(P),"properties")
