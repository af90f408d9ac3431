#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- sip
prop("S01", "Arbitrary bytes can never crash or hang the SIP parsers",
 "Whatever bytes are handed to the message parser or the URI parser, the call returns promptly with either a result or an error (never both, never neither), without crashing, hanging or modifying the bytes it was given. "
 "Every message it accepts is either a request with a method and a target, or a response with a status of at least 100, and can be rendered, copied and have its address lists walked without crashing. "
 "Every error it returns can be rendered too.",
 ["inputs"], "all byte strings up to datagram size, including random bytes, mutated and truncated valid messages and adversarially repetitive ones",
 "The tests parse a few dozen fixed messages; the input space is every datagram anyone on the network can send.",
 ["sip/msg_parse.rl", "sip/sip.rl", "sip/msg_parse.go", "sip/uri_parse.rl", "sip/uri_parse.go", "sip/msgerror.go"],
 [("Ragel message machine", "sip/sip.rl, sip/msg_parse.go ParseMsg"), ("Ragel URI machine", "sip/uri_parse.go ParseURI"), ("error rendering", "sip/msgerror.go")],
 observe=["ParseMsg", "ParseURI", "Msg.String", "Msg.Copy"])
prop("S02", "Equivalent spellings of a SIP message parse to the same content",
 "A well-formed message yields exactly the fields it carries: start line, addresses with display names and parameters, Via hops, text and numeric headers, extension headers in order, and body. "
 "Header-name case, compact header names, the order of different headers, optional whitespace and line folding around separators, quoted versus plain display names, and repeating a list header versus separating its entries with commas make no difference to any field. "
 "One header never changes the field that belongs to another header.",
 ["inputs"], "all well-formed messages over the supported headers and all legal spelling variants of each",
 "The tests fix one spelling per message; the claim is over the product of all header combinations and spelling choices.",
 ["sip/sip.rl", "sip/msg_parse.rl", "sip/msg_parse.go"],
 [("header trie, compact names, list headers", "sip/sip.rl aname/sname/cheader/sheader"), ("folding lookahead", "sip/sip.rl LWS, lookAheadWSP"), ("list appending", "sip/msg_parse.rl lastAddr, viap")],
 observe=["ParseMsg result"])
prop("S03", "Rendering a message and parsing it back loses nothing",
 "Any complete message built from well-formed field values - every supported header, address lists, Via lists, extension headers, and empty, text, binary or session-description bodies - renders to bytes that parse back to the same field values in the same order. "
 "Rendering that parsed message again gives identical bytes.",
 ["inputs"], "all complete requests and responses whose fields hold well-formed values, any subset of headers present",
 "Tests never round-trip most of the roughly fifty headers, nor combinations of them.",
 ["sip/msg.go", "sip/addr.go", "sip/via.go", "sip/param.go", "sip/xheader.go", "sip/msg_parse.go"],
 [("serializer", "sip/msg.go Append"), ("parser", "sip/msg_parse.go ParseMsg")], observe=["Msg.Append", "ParseMsg"])
prop("S04", "Free text in addresses survives and can never inject syntax",
 "A display name or an address or Via parameter value made of any text - spaces, quotes, backslashes, separators, non-ASCII characters - is recovered exactly after rendering the message and parsing it. "
 "Text that cannot be represented, such as a bare line break or an invalid character encoding, is cut short at that point, and the message still parses. "
 "No display name, parameter name or parameter value, whatever bytes it holds, can add, remove or alter any other header, address or parameter.",
 ["inputs"], "all byte strings as display names, parameter names and parameter values",
 "The quoting tests sample about ten strings and never embed them in a message.",
 ["sip/quote.go", "sip/param.go", "sip/addr.go", "sip/via.go", "sip/charsets.go", "sip/sip.rl"],
 [("quoting and truncation", "sip/quote.go"), ("name sanitizing", "sip/param.go, sip/quote.go appendSanitized"), ("unquoting", "sip/sip.rl quoted_string")],
 observe=["Msg.Append", "ParseMsg"])
prop("S05", "URIs survive rendering and parsing component by component",
 "A URI built from any bytes as user, password (only together with a user), parameter and header text (names not empty), with a valid scheme, host (name, IPv4 or IPv6) and port, renders to a string that parses back to exactly the same components in the same order, so no component can leak into another. "
 "Parsing lower-cases scheme and host, decodes percent escapes in either hex case, and yields the components that the text spells. "
 "Two URIs address the same endpoint exactly when their hosts are equal and their ports are equal, an absent port meaning 5061 for the secure scheme and 5060 otherwise, and an absent URI addresses none.",
 ["inputs"], "all URI component values and spellings",
 "Tests hold about twenty URIs; escaping must be right for every byte in every position.",
 ["sip/uri.go", "sip/uriparam.go", "sip/uriheader.go", "sip/escape.go", "sip/charsets.go", "sip/uri_parse.rl", "sip/uri_parse.go"],
 [("escaping", "sip/escape.go, sip/charsets.go"), ("URI machine", "sip/uri_parse.rl")], observe=["ParseURI", "URI.String", "URI.CompareHostPort"])
prop("S06", "Truncated or mis-sized messages are refused; bodies stay intact",
 "A message declaring a non-empty body is refused unless exactly that many body bytes follow, and a message that declares its length and is cut short at any point is never accepted. "
 "An accepted body other than a session description (which is parsed instead) is byte for byte what was sent, for any binary content, and every rendered message declares its exact body length.",
 ["inputs"], "all messages, all cut points, all binary bodies, all wrong length declarations",
 "Only a couple of fixed length mismatches are tested; the claim is over every cut point of every message.",
 ["sip/msg_parse.rl", "sip/msg_parse.go", "sip/msg.go", "sip/payload.go"],
 [("length check and body extraction", "sip/msg_parse.rl after exec"), ("Content-Length emission", "sip/msg.go Append")], observe=["ParseMsg", "Msg.Append"])
prop("S07", "Numbers on the wire are read exactly or refused, never wrapped",
 "Every number in a message or URI - protocol version, status, ports, sequence number, body length, expiry and hop limits - is read as exactly the decimal value written, leading zeros included. "
 "A value too large for its field makes the message or URI invalid instead of silently turning into a different number.",
 ["inputs"], "all decimal strings in every numeric position, in particular around the field widths",
 "No test uses an out-of-range number.",
 ["sip/sip.rl", "sip/uri_parse.rl", "sip/msg_parse.go", "sip/uri_parse.go"],
 [("digit accumulation actions", "sip/sip.rl VersionMajor..MinExpires, sip/uri_parse.rl port")], observe=["ParseMsg", "ParseURI"])
prop("S08", "Copies are complete and independent of their originals",
 "A copy of a message, address list, Via list or URI has the same content as the original, including display names and parameters. "
 "Changing the request target, addresses, Via hops or their parameters through the copy never shows in the original, nor the other way round. "
 "Reversing an address list gives the same entries in opposite order and leaves the original list unchanged, and detaching a Via hop gives that hop alone without cutting the original list. Looking up a name in a list of parameters or headers finds the first entry of that name in any letter case, and nothing else.",
 ["inputs", "histories"], "all messages and all sequences of edits to either side",
 "Only address reversal has a test; nothing checks that copies keep everything or share nothing.",
 ["sip/msg.go", "sip/addr.go", "sip/via.go", "sip/uri.go", "sip/param.go"],
 [("copy functions", "sip/msg.go Copy, sip/addr.go Copy/Reversed, sip/via.go Copy/Detach, sip/uri.go Copy")], observe=["Copy", "Reversed", "Detach"])

# ---------------------------------------------------------------- sdp
prop("D01", "Arbitrary session descriptions never crash the SDP parser",
 "For any text the session-description parser returns promptly with either an error or a description, without crashing. "
 "A description it accepts has a non-blank connection address and at least one of audio and video, every codec in it has a name, and it can be rendered to text that the parser accepts again.",
 ["inputs"], "all strings, including mutated valid descriptions",
 "Tests hold a dozen descriptions; the text comes from the network.",
 ["sdp/sdp.go", "sdp/media.go", "sdp/codec.go", "sdp/origin.go"],
 [("line parser", "sdp/sdp.go Parse"), ("codec resolution", "sdp/sdp.go populateCodecs")], observe=["Parse", "SDP.String"])
prop("D02", "A session description means what its lines say, or is refused",
 "The origin, connection address, audio and video ports and protocols, codecs in preference order with their names, rates, parameters and format settings, packet time, direction and unrecognised attributes are exactly those written, in whatever order the lines come. "
 "A well-known payload type without a mapping gets its standard codec definition. "
 "A description without origin, connection address or media, or with a malformed port, payload type, mapping or address line, or a dynamic payload type without a mapping, is refused.",
 ["inputs"], "all well-formed descriptions over the supported lines, all line orders, all single defects",
 "Tests fix a handful of descriptions and defects.",
 ["sdp/sdp.go", "sdp/codecs.go"],
 [("line parser", "sdp/sdp.go Parse"), ("media line", "sdp/sdp.go parseMediaInfo"), ("mapping", "sdp/sdp.go parseRtpmapInfo, populateCodecs"), ("standard codec table", "sdp/codecs.go")],
 observe=["Parse"])
prop("D03", "Rendering a session description and parsing it back loses nothing",
 "Any description with an origin, a connection address and at least one stream renders to text that parses back to the same origin, addresses, ports, protocols, codec lists, session name, times, packet time, direction, attributes and other lines. "
 "The address family written always matches the address, and a description built with the convenience constructor offers exactly the address, port and codecs it was given. "
 "An origin user, id or version, a session name, a time or a protocol left out comes out as its default (-, a fresh id, the id, some name, 0 0, RTP/AVP), and the text still parses.",
 ["inputs"], "all description values over well-formed fields, IPv4 and IPv6",
 "One rendering is compared in the tests; nothing is round-tripped.",
 ["sdp/sdp.go", "sdp/media.go", "sdp/codec.go", "sdp/origin.go"],
 [("serializer", "sdp/sdp.go Append, sdp/media.go, sdp/codec.go, sdp/origin.go"), ("parser", "sdp/sdp.go Parse")], observe=["SDP.Append", "Parse"])

# ---------------------------------------------------------------- rtp
prop("R01", "RTP and telephone-event headers encode and decode bit-exactly",
 "For every combination of field values, the RTP header and the telephone-event header are written in the standard wire layout and read back to the same values. "
 "Reading refuses packets shorter than a header, of another protocol version or with header extensions, for every possible first byte. "
 "Digit characters and telephone-event codes convert into each other consistently, and anything else is refused.",
 ["inputs"], "all field values and all header bytes",
 "One header value is round-tripped in the tests.",
 ["rtp/rtp.go", "rtp/dtmf.go"], [("header codec", "rtp/rtp.go"), ("event codec", "rtp/rtp.go EventHeader"), ("digit tables", "rtp/dtmf.go")],
 observe=["Header.Write/Read", "EventHeader.Write/Read", "CharToDtmf/DtmfToChar"])
prop("R02", "Outgoing media forms one continuous RTP stream",
 "Across any sequence of audio, raw and digit transmissions of a session, consecutive packets carry consecutive sequence numbers (modulo 16 bits) and one unchanging stream identifier, and the timestamp advances by exactly the samples sent (160 per audio frame, the caller's count for raw data). "
 "Each audio packet has the right payload type and exactly the 160 mu-law encoded samples of its frame, and raw data is carried unchanged. "
 "While no peer is known nothing is transmitted and the stream position does not move.",
 ["histories", "inputs"], "all sequences of sends, including counter wrap-around and peer changes mid-stream",
 "Tests send no packet at all.",
 ["rtp/session.go"], [("stream state", "rtp/session.go Send, SendRaw, SendDTMF")],
 state=[("Header", "next sequence number, timestamp, stream id", "rtp/session.go Session.Header")], observe=["UDP packets at the peer"])
prop("R03", "Each digit is sent as one recognisable telephone event",
 "Sending a digit emits a run of event packets sharing one timestamp: the first and only the first is marked, durations strictly increase up to the final one, and it ends with three identical end-of-event packets, all with consecutive sequence numbers and the code of that digit. "
 "Digits sent one after another, even repeated ones, never share a timestamp, so a receiver counts every press, and nothing sent after a digit has a timestamp before the end of its event. "
 "A character that is no digit sends nothing and reports an error.",
 ["histories", "inputs"], "all digit strings mixed with audio, all 256 characters",
 "No test sends a digit.",
 ["rtp/session.go", "rtp/dtmf.go"], [("event packets", "rtp/session.go SendDTMF")], observe=["UDP packets at the peer"])
prop("R04", "Every valid audio packet is delivered exactly once, in order, decoded",
 "Each mu-law audio packet of 160 samples that reaches the session's socket is handed to the application exactly once, in arrival order and correctly decoded, however the other packets around it look. "
 "Packets of other versions, payload types or sizes are skipped without disturbing the stream, and no packet can stop or crash reception. "
 "A delivered frame keeps its contents until the application gives it back.",
 ["inputs", "histories", "schedules"], "all packet sequences mixing valid, foreign and malformed packets; all consumer timings",
 "Tests receive no packet.",
 ["rtp/session.go", "rtp/rtp.go"], [("receiver loop and frame hand-over", "rtp/session.go receiver")], observe=["Session.C", "Session.R"])
prop("R05", "Media sessions open on an even port and always close cleanly",
 "A new session listens on an even port from 16384 to 32768 on the requested host, trying other ports when one is taken, or exactly on the address given when a port is specified. "
 "Closing a session, idle, while packets are arriving or with a frame waiting, or closing it after its socket failed, always returns, ends its background work, closes its channels and frees the port; closing twice or sending after closing is harmless.",
 ["schedules", "histories", "fault_sequences"], "all interleavings of close with arriving packets and socket failure; port congestion",
 "The bind test is empty.",
 ["rtp/session.go"], [("port choice", "rtp/session.go Listen"), ("close handshake", "rtp/session.go Close, CloseAfterError, receiver")], observe=["goroutines", "sockets", "channels"])

# ---------------------------------------------------------------- dsp
prop("P01", "Mu-law coding follows G.711 for every sample",
 "Every 16-bit sample encodes to the G.711 mu-law code of its value and every code decodes to the standard value; samples beyond the coder's range clip to the loudest code of their sign. "
 "Encoding after decoding returns the same code (the two zeros excepted), the quantisation error never exceeds half a step, and larger samples never decode to smaller values.",
 ["inputs"], "all 65536 samples, larger magnitudes, and all 256 codes",
 "Encoding is tested on 258 values.",
 ["dsp/dsp_amd64.s", "dsp/dsp.go"], [("assembly coder", "dsp/dsp_amd64.s LinearToUlaw, UlawToLinear")], observe=["LinearToUlaw", "UlawToLinear"])
prop("P02", "Mixing saturates and touches only its frame, at any address",
 "Mixing two 160-sample frames leaves in the destination the sample-wise sum limited to the 16-bit range, for all sample values, and leaves the source unchanged. "
 "It reads and writes nothing outside the two frames and works wherever in memory the frames lie, including when both are the same frame.",
 ["inputs"], "all sample pairs, all frame alignments, frames at the edge of mapped memory",
 "One frame pair at one alignment is tested.",
 ["dsp/dsp_amd64.s"], [("SIMD loop", "dsp/dsp_amd64.s L16MixSat160")], observe=["memory around the frames"])
prop("P03", "Comfort noise has the requested level and is reproducible",
 "The noise generator produces noise whose measured power matches the requested level, with zero mean, a Gaussian spread and no correlation between samples, limited to the 16-bit range instead of wrapping. "
 "Two generators with the same seed and level produce the same samples, and separate generators do not disturb each other.",
 ["inputs", "histories"], "all levels from inaudible to clipping, many seeds, long runs",
 "The test compares five samples of one generator.",
 ["dsp/awgn.go"], [("generator", "dsp/awgn.go")], observe=["AWGN.Get"])

# ---------------------------------------------------------------- calls
prop("C01", "Call progress is reported truthfully, in order, and answered only once",
 "The states reported for a call never move backwards from ringing to proceeding or from answered to anything but hung up, whatever delays, duplicates and reordering the network applies to the responses. "
 "Ringing, answered and hung up are reported only after the peer's corresponding message, a repeated success response does not report the answer again, and nothing is reported after hang-up. "
 "A response that does not belong to the call's own transaction changes nothing.",
 ["histories", "schedules", "fault_sequences"], "all response histories with loss, duplication, delay and reordering, and foreign responses mixed in",
 "No dialog test runs without a real SIP server.",
 ["dialog/dialog.go", "dialog/messages.go"], [("response handling", "dialog/dialog.go handleResponse, transition"), ("transaction matching", "dialog/messages.go ResponseMatch")],
 state=[("state", "current call state", "dialog/dialog.go dialogState.state")], observe=["OnState", "datagrams at the peer"])
prop("C02", "Every final answer to a call attempt is acknowledged",
 "Each final response to the INVITE that reaches the caller, successful, redirecting or failing and including each repetition of a success response while the call is up, is answered by exactly one ACK to the address the call is connected to. "
 "The ACK carries the response's Call-ID, sequence number, From and To with tags, the ACK method in its sequence header, and for a success response the peer's contact as target with the recorded route in reverse. "
 "A rejected call then reports that response as its error, and provisional responses are never acknowledged.",
 ["histories", "inputs"], "all final status codes with or without contact and recorded routes, and repetitions of them",
 "No dialog test runs without a real SIP server.",
 ["dialog/dialog.go", "dialog/messages.go"], [("ack on final response", "dialog/dialog.go handleResponse"), ("ack construction", "dialog/messages.go NewAck")], observe=["datagrams at the peer", "OnErr"])
prop("C03", "Unanswered requests are repeated on schedule and then given up",
 "An INVITE or BYE that gets no response is sent again at the configured interval exactly the configured number of times as the same transaction - same branch, Call-ID, sequence number, tags and body - and then the attempt is given up. "
 "Once any response for it has arrived, it is not sent again. "
 "When nothing is left to try, the call ends with an error naming the host.",
 ["fault_sequences", "schedules", "configurations"], "every pattern of lost datagrams, silent peers, and settings of interval and count, for call set-up and hang-up",
 "No dialog test runs without a real SIP server, none loses packets.",
 ["dialog/dialog.go"], [("resend timer", "dialog/dialog.go resendRequest, popRoute")], state=[("requestResends", "repetitions so far", "dialog/dialog.go")], observe=["datagrams at the peer", "OnErr"])
prop("C04", "Call set-up fails over through the published servers in order",
 "When the destination publishes several servers, the call is attempted on them strictly in priority order, moving on when one stays silent, is unreachable (port refused or address unusable) or answers that the service is unavailable, and never returning to one already tried. "
 "Each attempt is a new transaction of the same call from a consistent local address, and as soon as one server accepts, no other is contacted. "
 "If all fail the call ends with an error instead of hanging.",
 ["fault_sequences", "configurations"], "all assignments of failure kinds to up to several servers, and all positions of a working one",
 "No test uses more than one server.",
 ["dialog/dialog.go", "dialog/route.go", "util/util.go"], [("route list", "dialog/route.go RouteAddress"), ("failover", "dialog/dialog.go popRoute, connect, run"), ("refusal detection", "util/util.go IsRefused")],
 observe=["datagrams at each server", "OnErr", "OnState"])
prop("C05", "Hanging up sends the right message for the call's phase",
 "Asking to hang up before the answer sends a CANCEL matching the INVITE - same target, Call-ID, branch, From, To and sequence number - and after the answer sends a BYE to the peer's latest contact along the call's route set, with the same Call-ID, our tag in From, the peer's tag in To and a sequence number higher than any before. "
 "This stays true after the peer re-negotiated the call, and when the peer confirms the BYE the call reports hung up and ends. A call that nobody hangs up sends neither. After a hang-up no further server is tried and no redirect followed.",
 ["histories", "schedules"], "hang-up at every point of a call, after any number of re-negotiations, with and without route sets",
 "No dialog test runs without a real SIP server.",
 ["dialog/dialog.go", "dialog/messages.go"], [("hang-up", "dialog/dialog.go sendHangup"), ("cancel and bye construction", "dialog/messages.go NewCancel, NewBye")], observe=["datagrams at the peer", "OnState"])
prop("C06", "Requests received during a call each get the right single response",
 "During a call every request from the peer is answered with exactly one response per copy received: keep-alive queries and BYE with 200, unsupported methods with 405, requests numbered below an earlier one of the same peer with 500, requests of another call with 481, exhausted hop limits with 483, foreign protocol versions with 505. "
 "The response repeats the request's Via list, From, To, Call-ID and sequence header, and a BYE ends the call as hung up. "
 "Responses and ACKs are never answered, whatever they contain.",
 ["histories", "inputs"], "all request methods, sequence numbers, call identifiers, versions and hop limits in any order",
 "No dialog test runs without a real SIP server.",
 ["dialog/dialog.go", "dialog/messages.go", "dialog/receiver.go"], [("request handling", "dialog/dialog.go handleMessage, handleRequest"), ("response construction", "dialog/messages.go NewResponse")],
 state=[("rseq", "highest remote sequence number", "dialog/dialog.go")], observe=["datagrams at the peer", "OnState"])
prop("C07", "Re-negotiation is answered reliably and media changes are reported",
 "Every session description in an accepted provisional or success answer or a re-INVITE is reported as the media address with its audio port, in order, and one without audio reports nothing and does no harm. "
 "A re-INVITE during the call is answered 200, the answer is repeated at the configured interval at most the configured number of times and stops once acknowledged; if it is never acknowledged the call ends with an error. "
 "Re-negotiation is not reported as a new answer.",
 ["histories", "fault_sequences"], "all sequences of re-negotiations with lost acknowledgements, and all session descriptions",
 "No test re-negotiates.",
 ["dialog/dialog.go"], [("re-INVITE", "dialog/dialog.go handleRequest, sendResponse, resendResponse"), ("media report", "dialog/dialog.go checkSDP")], observe=["OnPeer", "datagrams at the peer"])
prop("C08", "Hostile datagrams cannot crash or disturb a call",
 "Datagrams that are not valid messages, or are valid messages of another call, in any number and at any time, never crash the program, end the call, change its reported state or media address, or stop it from answering its real peer. "
 "Messages that do carry the call's identifier, however malformed their addresses, Via lists, bodies or numbers, never crash the program.",
 ["inputs", "schedules"], "all datagrams arriving at the call's sockets at any point of a call, with strict and loose signalling",
 "No test sends malformed traffic to a dialog.",
 ["dialog/receiver.go", "dialog/dialog.go"], [("parse and drop", "dialog/receiver.go ReceiveMessages"), ("call matching", "dialog/dialog.go handleMessage")], observe=["process exit", "OnState", "OnErr", "OnPeer"])
prop("C09", "Redirected calls follow the new target and cannot loop forever",
 "A redirect answer to the INVITE makes the same call be attempted at the address the redirect names, as a new transaction to that target without the old route; a redirect that names no address ends the call with that response as error. "
 "A chain of redirects is bounded by the hop limit: after finitely many attempts the call ends with an error. "
 "A redirect answer to anything but the INVITE, or after the application hung up, never starts a new call.",
 ["histories", "inputs"], "all redirect chains and cycles, with and without contact, to call set-up and hang-up",
 "No test redirects.",
 ["dialog/dialog.go"], [("redirect", "dialog/dialog.go handleResponse"), ("hop limit", "dialog/dialog.go send")], observe=["datagrams at the servers", "OnErr"])
prop("C10", "Every call ends by closing its channels and releasing its resources",
 "However a call ends - answered and hung up by either side, rejected, unreachable, timed out, redirected without target, socket failure or unresolvable destination - all its notification channels are closed once the last event has been delivered. "
 "Afterwards no background work, socket or timer of the call is left, even after it switched between several servers, with strict or loose signalling.",
 ["histories", "fault_sequences", "schedules"], "all ways a call can end, under any timing of the application reading its events",
 "No test checks what remains after a call.",
 ["dialog/dialog.go", "dialog/receiver.go"], [("cleanup", "dialog/dialog.go cleanup, cleanupSock, cleanupCSock"), ("receiver shutdown", "dialog/receiver.go ReceiveMessages")], observe=["channels", "goroutines", "file descriptors"])
prop("C11", "Each INVITE says what the application set and where it comes from",
 "Every INVITE a call sends carries what the application set - target, To, From, Call-ID, sequence number, routes, credentials, extension headers, body - and is otherwise completed to a valid request; a session description without addresses gets the local one. "
 "Its Via and Contact, where the application did not set the host, give the address, and always the port, at which this attempt's responses and the peer's further requests are received, also after the call moved to another server reached through another local address or socket. "
 "ACKs repeat the credentials of the call.",
 ["inputs", "histories"], "all subsets and values of preset parts, all sequences of servers on different local addresses, strict and loose signalling",
 "No test inspects an INVITE.",
 ["dialog/dialog.go", "dialog/route.go", "dialog/messages.go"], [("local parts", "dialog/dialog.go populate, connect"), ("completion", "dialog/route.go PopulateMessage"), ("acknowledgement", "dialog/messages.go NewAck")], observe=["datagrams at the servers", "requests sent to the Contact"])
prop("C12", "Simultaneous calls do not influence one another",
 "Any number of calls made from one program at the same time, also to one server and from copies of one INVITE, each report exactly their own states, media address and error, in the order of their own history. "
 "Messages of one call that arrive at the socket of another change neither of them. "
 "A call whose application does not read its events holds up nobody but itself.",
 ["schedules", "histories", "inputs"], "all numbers of simultaneous calls, all combinations of their histories and all interleavings",
 "No test makes two calls.",
 ["dialog/dialog.go", "dialog/messages.go", "dialog/receiver.go"], [("state of a call", "dialog/dialog.go dialogState, run"), ("call matching", "dialog/dialog.go handleMessage"), ("output buffer", "dialog/dialog.go send")], observe=["OnState", "OnPeer", "OnErr", "datagrams at the server"])

# ---------------------------------------------------------------- transport
prop("T01", "Received messages are delivered once, in order, and never change later",
 "Each valid datagram sent to a transport is delivered exactly once, in arrival order, and its content - including extension headers and bodies - never changes because of datagrams received later, without data races between receiving and using messages. "
 "Invalid datagrams are dropped and reception continues. "
 "When the socket is closed the transport reports the error and closes both its channels.",
 ["schedules", "inputs", "histories"], "all datagram sequences and consumer timings, messages kept while others arrive",
 "Tests never receive two messages or run with the race detector.",
 ["dialog/receiver.go", "dialog/transport.go"], [("receive loop", "dialog/receiver.go ReceiveMessages")], observe=["Transport.C", "Transport.E"])
prop("T02", "Responses go back to where the request really came from",
 "The response to a request received by a transport is sent to the address and port the request's datagram actually came from, whatever its Via header claims, including any return address or port the sender put there. "
 "The Via list of the response is otherwise that of the request, in order; when the request passed several hops, only the topmost determines the destination. "
 "(A topmost Via that names the receiving transport itself is outside this property.)",
 ["inputs"], "all Via lists, claimed and actual source addresses and ports",
 "Tests never respond to a request.",
 ["dialog/receiver.go", "dialog/route.go", "dialog/transport.go", "dialog/messages.go"], [("source recording", "dialog/receiver.go addReceived"), ("response routing", "dialog/route.go RouteMessage"), ("send", "dialog/transport.go Send")],
 observe=["destination of the datagram"])
prop("T03", "Requests are routed by their route set, then by their target",
 "A request is sent to its first remaining route entry if there is one and to its target otherwise, after removing a first entry that names the sender itself; the default port is used when none is given. "
 "A loose-routing first entry leaves target and routes unchanged, while a strict-routing one becomes the target and the original target is appended at the end of the routes. "
 "A received request that a strict router rewrote this way gets its original target back, and a first route entry naming the receiver is removed.",
 ["inputs"], "all route sets, loose and strict, all targets, with and without ports",
 "No test routes a message.",
 ["dialog/route.go", "dialog/receiver.go", "dialog/transport.go"], [("request routing", "dialog/route.go RouteMessage, RouteAddress"), ("strict router repair", "dialog/receiver.go fixMessagesFromStrictRouters")], observe=["RouteMessage", "datagrams", "Transport.C"])
prop("T04", "Outgoing requests are completed without overriding what was set",
 "Sending a request that has at least a method and a target fills in whatever mandatory parts are missing - To, From with tag, Via with branch, Contact, Call-ID, sequence number and method, hop limit - so that what is sent is a complete valid request. "
 "Every part the caller did set reaches the wire unchanged, and generated branches, tags and Call-IDs differ from request to request.",
 ["inputs", "histories"], "all subsets of preset parts and all values of them",
 "No test sends a partial request.",
 ["dialog/route.go", "dialog/transport.go", "dialog/messages.go"], [("population", "dialog/route.go PopulateMessage"), ("request construction", "dialog/messages.go NewRequest")], observe=["datagrams"])
prop("T05", "The hop limit only ever goes down and stops looping requests",
 "Each time a request is sent its hop limit on the wire is one lower than before, starting from 70 when the caller set none. "
 "A request whose limit would drop to zero is not sent; the sender gets an error instead.",
 ["inputs", "histories"], "all starting limits and all numbers of consecutive hops through transports and calls",
 "No test sends a request twice.",
 ["dialog/transport.go", "dialog/dialog.go"], [("decrement", "dialog/transport.go Send, dialog/dialog.go send")], observe=["datagrams", "Send result"])
prop("T06", "Responses and ACKs are matched to exactly their transaction",
 "A message matches a request as its response exactly when it is a response with the request's sequence number and method, and its last Via hop has the request's branch and the same host and port, a missing port meaning the default. "
 "An ACK matches exactly when it is an ACK with the same sequence number, whose last Via hop has the same host and port. "
 "This holds after both messages have travelled over the wire.",
 ["inputs"], "all pairs of requests and messages differing in any subset of these parts",
 "No test matches messages.",
 ["dialog/messages.go", "sip/via.go"], [("matching", "dialog/messages.go ResponseMatch, AckMatch"), ("hop comparison", "sip/via.go CompareHostPort, CompareBranch")], observe=["ResponseMatch", "AckMatch"])
prop("T07", "Responses retrace the path of their request",
 "When transports pass a request on, each adding a hop of its own on top of its Via list, the response passed back by each of them goes through the same transports in reverse order, as often as the request did. "
 "Each removes exactly its own topmost hop, if that is what is on top, and changes nothing else of the response, which arrives where the request came from with the Via list it had there. "
 "A response whose hops are used up, or whose next hop's return port is none, is not sent; the sender gets an error.",
 ["inputs", "histories"], "all paths through transports, including repeated visits and shared addresses, all Via lists, any order of responses",
 "No test passes a response on.",
 ["dialog/route.go", "dialog/transport.go", "sip/via.go"], [("response routing", "dialog/route.go RouteMessage"), ("hop comparison", "sip/via.go CompareHostPort"), ("send", "dialog/transport.go Send")], observe=["Transport.C", "datagrams", "RouteMessage"])
prop("T08", "Tracing and time stamps show exactly the traffic and change nothing else",
 "With message tracing on, every datagram a transport or a call sends or receives, valid or not, appears in the log exactly once, verbatim, with its size, direction and the peer's address, in the order of the traffic with that peer. "
 "With time stamping on, each message received, and each one sent every time it is sent, has one more microsecond time stamp of that moment on its topmost hop. "
 "Neither changes anything else of a message, a transport or a call, and with both off no packet is logged and no message stamped.",
 ["inputs", "histories"], "all datagrams and messages, all calls, all combinations of both settings",
 "No test turns either on.",
 ["dialog/trace.go", "dialog/receiver.go", "dialog/transport.go", "dialog/dialog.go"], [("trace", "dialog/trace.go"), ("stamps", "dialog/receiver.go addTimestamp"), ("sends", "dialog/transport.go Send and dialog/dialog.go send")], observe=["log", "Transport.C", "datagrams"])
prop("T09", "Responses, ACKs, CANCELs and BYEs belong to what they are built from",
 "A response built for a request has the given status with its standard reason phrase, and the request's Via list, From, To, Call-ID, sequence number and method, and Record-Route list. "
 "An ACK built for an answered INVITE goes to the answer's Contact over its Record-Route list in reverse, with the answer's From, To, Call-ID, sequence number and top hop only, and the INVITE's credentials. "
 "A CANCEL has the target, routes, Via, From, To, Call-ID and sequence number of its INVITE, and a BYE goes to the answer's Contact over its Record-Route list in reverse, with the INVITE's From, the answer's To, their Call-ID and a sequence number one above the last one used. "
 "They arrive like that when sent, and building them changes nothing in what they were built from.",
 ["inputs"], "all requests, invites and answers, all lengths of Via, Route and Record-Route lists, all statuses with a standard phrase, any number of BYEs",
 "No test looks at a message built from another.",
 ["dialog/messages.go", "sip/status.go", "sip/addr.go"], [("builders", "dialog/messages.go NewResponse, NewAck, NewCancel, NewBye"), ("phrases", "sip/status.go Phrase")], observe=["NewResponse", "NewAck", "NewCancel", "NewBye", "datagrams"])
prop("U01", "Generated identifiers are well-formed and never repeat",
 "Generated branches start with the standard magic cookie, tags, branches and Call-IDs consist only of characters legal in their position, and no two calls ever produce the same one, also when many threads generate at once. "
 "Generated sequence numbers and session identifiers stay in their legal ranges and vary, and no sequence number is 0, which would count as not set.",
 ["histories", "schedules"], "long histories of generated identifiers across threads",
 "No test generates identifiers.",
 ["util/util.go"], [("generators", "util/util.go")], observe=["Generate functions"])

prop("E01", "A complete phone call carries the sound of both sides until hang-up",
 "An application that makes a call with a media session, and sends to the media address the call reported last, hears every audio frame sent to the address its INVITE offered, once and in order. "
 "The called party gets every frame and digit sent since the first address was reported, once and in order, at the address reported last, as one continuous stream also when the media moves during the call. "
 "Both hold before and after the answer, with a called party of any make and with a gosip application that answers with a transport and media sessions. "
 "When either side hangs up the other is told, both can close their media sessions, and no work goes on.",
 ["histories", "schedules"], "all call histories with media moves, repeated answers, queries, digits and hang-ups by either side, at any pace",
 "The example tests make single calls that are hung up after 200 ms, listen to nothing that is said, and have no peer here.",
 ["dialog/dialog.go", "rtp/session.go", "dialog/transport.go", "dialog/messages.go", "sdp/sdp.go"],
 [("media offer", "dialog/dialog.go populate, sdp/sdp.go New"), ("media report", "dialog/dialog.go checkSDP"), ("media stream", "rtp/session.go Send, SendDTMF, receiver")],
 observe=["OnPeer", "OnState", "rtp.Session.C", "datagrams"])

prop("E02", "The fone program places a call, carries sound and keys, and ends in order",
 "Run with a URI, the fone program sends that URI one call from the user's name at the given or looked-up address, which offers its media port there with mu-law and telephone events. "
 "From the first media address the other end names, every frame the microphone delivers (or comfort noise at -45 dBm0 when muted) is sent to the address named last, none faster than one per 20 ms, and every frame received is played, once and in order, as one stream. "
 "After the answer each key pressed that is a digit is sent as one telephone event, in order, and other keys do nothing. "
 "A microphone or speaker that fails for a moment loses that frame only. "
 "Interrupting or terminating the program, at any moment and any number of times, or losing the media socket, hangs up: it cancels an unanswered call and says goodbye in an answered one. "
 "It places no call when it cannot find out its own address. It ends with status 0 after an answered call and another status, having said why, after a call that fails or a command line that cannot work, never by crashing, and gives the terminal and the sound devices back after an answered call, the terminal after every call.",
 ["inputs", "histories", "schedules", "faults"], "all command lines, call histories with early media, media moves, keys, queries, device and socket failures, signals at any time, and ends by either side",
 "No test runs the program.",
 ["fone/main.go", "dialog/dialog.go", "rtp/session.go"],
 [("program", "fone/main.go main"), ("devices", "fone/main.go makePulseAudio"), ("own address", "fone/main.go getPublicIP")],
 observe=["datagrams", "calls into PulseAudio and ncurses", "exit status", "terminal output"])

ids = [p["id"] for p in P]
assert len(ids) == len(set(ids))
for p in P:
    assert len(p["title"]) <= 80, p["title"]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
